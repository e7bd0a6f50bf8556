//@ include div_strict.rs float.rs points.rs std.rs deque.rs
//@ set nl=off
//@ assume lib_pred.vc
//@ assume lib_dist.vc
//@ use lib_ring.vc
//@ raw
/// a loop of the input: start, end, the vertex reaching furthest in +x, how far
pub type Info = (usize, usize, usize, Float);
/// walk the outer list up to its k-th vertex, cross to the hole, walk it around, cross back, go on
pub open spec fn splice(o: Seq<usize>, k: int, s: int, e: int, m: int) -> Seq<usize> { o.take(k + 1) + range(m, e) + range(s, m + 1) + o.skip(k) }
pub open spec fn valid(points: Seq<Point2>, o: Seq<usize>) -> bool { o.len() >= 1 && forall|i: int| 0 <= i < o.len() ==> #[trigger] o[i] < points.len() }
pub open spec fn edge_dist(points: Seq<Point2>, o: Seq<usize>, i: int, m: int, d: real) -> bool { seg_dist2(d, points[o[i] as int], points[o[(i + 1) % (o.len() as int)] as int], points[m]) }
/// no edge of the list is nearer to vertex m than edge k
pub open spec fn nearest(points: Seq<Point2>, o: Seq<usize>, k: int, m: int) -> bool {
    0 <= k < o.len() && exists|d: real| #[trigger] edge_dist(points, o, k, m, d) && forall|i: int, c: real| 0 <= i < o.len() && #[trigger] edge_dist(points, o, i, m, c) ==> d <= c
}
pub open spec fn coords_ok(points: Seq<Point2>) -> bool {
    &&& forall|i: int| 0 <= i < points.len() ==> (#[trigger] points[i]).x.v() > -rmaxval()
    &&& small(points)
}
#[verifier::opaque]
pub open spec fn small(points: Seq<Point2>) -> bool { forall|d: real, a: int, b: int, c: int| 0 <= a < points.len() && 0 <= b < points.len() && 0 <= c < points.len() && #[trigger] seg_dist2(d, points[a], points[b], points[c]) ==> d < rmaxval() }
/// t describes loop s..e: its furthest vertex in +x and how far it reaches
pub open spec fn info_ok(points: Seq<Point2>, t: Info) -> bool {
    t.0 <= t.2 < t.1 <= points.len() && t.3 == points[t.2 as int].x && forall|q: int| t.0 <= q < t.1 ==> (#[trigger] points[q]).x.v() <= t.3.v()
}
pub open spec fn loop_ok(points: Seq<Point2>, polygons: Seq<usize>, l: Seq<Info>, j: int) -> bool { l[j].0 == polygons[j] && l[j].1 == polygons[j + 1] && info_ok(points, l[j]) }
/// the i-th loop to be spliced in
pub open spec fn hole(t: Seq<Info>, i: int) -> Info { t[t.len() - 2 - i] }
/// the ring after the first i holes, hole q entered from position ks[q]
pub open spec fn ring_after(t: Seq<Info>, ks: Seq<int>, i: int) -> Seq<usize> decreases i {
    if i <= 0 { range(t.last().0 as int, t.last().1 as int) } else { let h = hole(t, i - 1); splice(ring_after(t, ks, i - 1), ks[i - 1], h.0 as int, h.1 as int, h.2 as int) }
}
pub open spec fn bridge_ok(points: Seq<Point2>, t: Seq<Info>, ks: Seq<int>, i: int) -> bool { nearest(points, ring_after(t, ks, i), ks[i], hole(t, i).2 as int) }
/// the list r is the loops joined in the order t (ascending reach), the last being the outer one
pub open spec fn merged(points: Seq<Point2>, polygons: Seq<usize>, l: Seq<Info>, t: Seq<Info>, ks: Seq<int>, r: Seq<usize>) -> bool {
    &&& l.len() == polygons.len() - 1 && (forall|j: int| 0 <= j < l.len() ==> #[trigger] loop_ok(points, polygons, l, j))
    &&& t.to_multiset() == l.to_multiset() && t.len() == l.len() && (forall|i: int, j: int| 0 <= i < j < t.len() ==> (#[trigger] t[i]).3.v() <= (#[trigger] t[j]).3.v())
    &&& ks.len() == t.len() - 1 && (forall|i: int| 0 <= i < ks.len() ==> #[trigger] bridge_ok(points, t, ks, i))
    &&& r == ring_after(t, ks, t.len() - 1)
}
pub proof fn lemma_path_cat(a: Seq<usize>, b: Seq<usize>) requires a.len() > 0, b.len() > 0 ensures path(a + b) =~= path(a) + seq![(a.last(), b[0])] + path(b) {}
pub proof fn lemma_path_w(a: Seq<usize>, b: Seq<usize>, w: spec_fn(Edge) -> real) requires a.len() > 0, b.len() > 0 ensures wsum(path(a + b), w) == wsum(path(a), w) + w((a.last(), b[0])) + wsum(path(b), w)
{ let e: Edge = (a.last(), b[0]); lemma_path_cat(a, b); lemma_wsum_cat(path(a) + seq![e], path(b), w); lemma_wsum_cat(path(a), seq![e], w); lemma_wsum_one(e, w); }
/// one splice: the old edges, the edges of the hole, the bridge both ways
pub proof fn lemma_splice(o: Seq<usize>, k: int, s: int, e: int, m: int, w: spec_fn(Edge) -> real)
    requires 0 <= k < o.len(), 0 <= s <= m < e <= usize::MAX
    ensures wsum(ring(splice(o, k, s, e, m)), w) == wsum(ring(o), w) + wsum(ring(range(s, e)), w) + w((o[k], m as usize)) + w((m as usize, o[k]))
{
    let a = o.take(k + 1); let b = range(m, e); let c = range(s, m + 1); let d = o.skip(k).push(o[0]);
    let r = splice(o, k, s, e, m);
    assert(r[0] == o[0]); assert(r.push(r[0]) =~= a + (b + (c + d)));
    lemma_path_w(a, b + (c + d), w); lemma_path_w(b, c + d, w); lemma_path_w(c, d, w);
    assert(a.last() == o[k] && (b + (c + d))[0] == m as usize && b.last() == (e - 1) as usize && (c + d)[0] == s as usize && c.last() == m as usize && d[0] == o[k]);
    // the old ring
    assert(path(o.push(o[0])) =~= path(a) + path(d)); lemma_wsum_cat(path(a), path(d), w);
    // the hole
    let h = range(s, e); let bs = b.push(s as usize); assert(h[0] == s as usize);
    assert(path(h.push(h[0])) =~= path(c) + path(bs)); lemma_wsum_cat(path(c), path(bs), w);
    assert(path(bs) =~= path(b) + seq![((e - 1) as usize, s as usize)]); lemma_wsum_cat(path(b), seq![((e - 1) as usize, s as usize)], w); lemma_wsum_one(((e - 1) as usize, s as usize), w);
}
pub open spec fn loop_w(t: Info, w: spec_fn(Edge) -> real) -> real { wsum(ring(range(t.0 as int, t.1 as int)), w) }
pub open spec fn loops_w(t: Seq<Info>, w: spec_fn(Edge) -> real) -> real decreases t.len() { if t.len() == 0 { 0real } else { loops_w(t.drop_last(), w) + loop_w(t.last(), w) } }
/// the i-th bridge, from the ring to the hole
pub open spec fn bridge(t: Seq<Info>, ks: Seq<int>, i: int) -> Edge { (ring_after(t, ks, i)[ks[i]], hole(t, i).2) }
pub open spec fn bridges_w(t: Seq<Info>, ks: Seq<int>, i: int, w: spec_fn(Edge) -> real) -> real decreases i { if i <= 0 { 0real } else { let b = bridge(t, ks, i - 1); bridges_w(t, ks, i - 1, w) + w(b) + w((b.1, b.0)) } }
pub proof fn lemma_loops_remove(t: Seq<Info>, i: int, w: spec_fn(Edge) -> real) requires 0 <= i < t.len() ensures loops_w(t, w) == loops_w(t.remove(i), w) + loop_w(t[i], w) decreases t.len()
{
    if i < t.len() - 1 { lemma_loops_remove(t.drop_last(), i, w); assert(t.remove(i).drop_last() =~= t.drop_last().remove(i)); assert(t.remove(i).last() == t.last()); }
    else { assert(t.remove(i) =~= t.drop_last()); }
}
pub proof fn lemma_loops_perm(t: Seq<Info>, l: Seq<Info>, w: spec_fn(Edge) -> real) requires t.to_multiset() == l.to_multiset() ensures loops_w(t, w) == loops_w(l, w) decreases t.len()
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(t.len() == t.to_multiset().len() && l.len() == l.to_multiset().len());
    if t.len() > 0 {
        assert(t.to_multiset().count(t.last()) > 0) by { assert(t.contains(t.last())); }
        assert(l.contains(t.last()));
        let i = choose|i: int| 0 <= i < l.len() && l[i] == t.last();
        lemma_loops_remove(l, i, w);
        assert(t.drop_last() =~= t.remove(t.len() - 1));
        lemma_loops_perm(t.drop_last(), l.remove(i), w);
    }
}
/// every entry of the sorted list is one of the loops
pub proof fn lemma_entry(points: Seq<Point2>, polygons: Seq<usize>, l: Seq<Info>, t: Seq<Info>, i: int) -> (j: int)
    requires t.to_multiset() == l.to_multiset(), 0 <= i < t.len(), forall|j: int| 0 <= j < l.len() ==> #[trigger] loop_ok(points, polygons, l, j)
    ensures 0 <= j < l.len(), t[i] == l[j], info_ok(points, t[i]), t[i].0 == polygons[j], t[i].1 == polygons[j + 1]
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(t.contains(t[i])); assert(l.to_multiset().count(t[i]) > 0); assert(l.contains(t[i]));
    let j = choose|j: int| 0 <= j < l.len() && l[j] == t[i]; assert(loop_ok(points, polygons, l, j)); j
}
pub proof fn lemma_entry_back(l: Seq<Info>, t: Seq<Info>, j: int) -> (i: int)
    requires t.to_multiset() == l.to_multiset(), 0 <= j < l.len() ensures 0 <= i < t.len(), t[i] == l[j]
{ broadcast use vstd::seq_lib::group_to_multiset_ensures; assert(l.contains(l[j])); assert(t.to_multiset().count(l[j]) > 0); assert(t.contains(l[j])); choose|i: int| 0 <= i < t.len() && t[i] == l[j] }
pub proof fn lemma_rings(points: Seq<Point2>, polygons: Seq<usize>, l: Seq<Info>, t: Seq<Info>, ks: Seq<int>, r: Seq<usize>, n: int, w: spec_fn(Edge) -> real)
    requires merged(points, polygons, l, t, ks, r), loops_ok(points, polygons), 0 <= n <= ks.len()
    ensures wsum(ring(ring_after(t, ks, n)), w) == loops_w(t.skip(t.len() - 1 - n), w) + bridges_w(t, ks, n, w) decreases n
{
    let u = t.skip(t.len() - 1 - n);
    if n > 0 {
        lemma_rings(points, polygons, l, t, ks, r, n - 1, w);
        let _ = lemma_entry(points, polygons, l, t, t.len() - 2 - (n - 1)); let h = hole(t, n - 1);
        assert(bridge_ok(points, t, ks, n - 1));
        lemma_splice(ring_after(t, ks, n - 1), ks[n - 1], h.0 as int, h.1 as int, h.2 as int, w);
        lemma_loops_remove(u, 0, w); assert(u.remove(0) =~= t.skip(t.len() - n)); assert(u[0] == h);
    } else { assert(u =~= seq![t.last()]); assert(u.drop_last() =~= Seq::<Info>::empty()); assert(loops_w(u.drop_last(), w) == 0real); }
}
/// for every weight on directed edges: the ring carries the weight of all loops, and each bridge in both directions
pub proof fn theorem_edges(points: Seq<Point2>, polygons: Seq<usize>, l: Seq<Info>, t: Seq<Info>, ks: Seq<int>, r: Seq<usize>, w: spec_fn(Edge) -> real)
    requires merged(points, polygons, l, t, ks, r), loops_ok(points, polygons)
    ensures wsum(ring(r), w) == loops_w(l, w) + bridges_w(t, ks, t.len() - 1, w)
{ lemma_rings(points, polygons, l, t, ks, r, t.len() - 1, w); assert(t.skip(0) =~= t); lemma_loops_perm(t, l, w); }
pub open spec fn cross_w(points: Seq<Point2>) -> spec_fn(Edge) -> real { |e: Edge| points[e.0 as int].x.v() * points[e.1 as int].y.v() - points[e.0 as int].y.v() * points[e.1 as int].x.v() }
pub proof fn lemma_cancel(points: Seq<Point2>, t: Seq<Info>, ks: Seq<int>, n: int) ensures bridges_w(t, ks, n, cross_w(points)) == 0real decreases n
{
    if n > 0 { lemma_cancel(points, t, ks, n - 1); let b = bridge(t, ks, n - 1); let w = cross_w(points);
        let (ax, ay, bx, by) = (points[b.0 as int].x.v(), points[b.0 as int].y.v(), points[b.1 as int].x.v(), points[b.1 as int].y.v());
        assert(ax * by == by * ax && ay * bx == bx * ay) by(nonlinear_arith); assert(w(b) == ax * by - ay * bx); assert(w((b.1, b.0)) == bx * ay - by * ax); }
}
/// twice the signed area of the ring is the sum of those of the loops
pub proof fn theorem_area(points: Seq<Point2>, polygons: Seq<usize>, l: Seq<Info>, t: Seq<Info>, ks: Seq<int>, r: Seq<usize>)
    requires merged(points, polygons, l, t, ks, r), loops_ok(points, polygons)
    ensures wsum(ring(r), cross_w(points)) == loops_w(l, cross_w(points))
{ theorem_edges(points, polygons, l, t, ks, r, cross_w(points)); lemma_cancel(points, t, ks, t.len() - 1); }
pub proof fn lemma_keeps(t: Seq<Info>, ks: Seq<int>, i: int, n: int, v: usize)
    requires 0 <= i <= n <= ks.len(), ring_after(t, ks, i).contains(v), forall|q: int| i <= q < n ==> 0 <= #[trigger] ks[q] < ring_after(t, ks, q).len() ensures ring_after(t, ks, n).contains(v) decreases n - i
{
    if i < n {
        lemma_keeps(t, ks, i, n - 1, v); let o = ring_after(t, ks, n - 1); let k = ks[n - 1]; let h = hole(t, n - 1); let r = ring_after(t, ks, n);
        let j = choose|j: int| 0 <= j < o.len() && o[j] == v; let c = range(h.2 as int, h.1 as int).len() + range(h.0 as int, h.2 + 1).len();
        if j <= k { assert(r[j] == v); } else { assert(r[k + 1 + c + (j - k)] == v); }
    }
}
/// every vertex of every loop occurs, and the ring starts with a loop that reaches furthest in +x
pub proof fn theorem_vertices(points: Seq<Point2>, polygons: Seq<usize>, l: Seq<Info>, t: Seq<Info>, ks: Seq<int>, r: Seq<usize>)
    requires merged(points, polygons, l, t, ks, r), loops_ok(points, polygons)
    ensures forall|v: int| polygons[0] <= v < polygons.last() ==> #[trigger] r.contains(v as usize),
        forall|j: int| 0 <= j < l.len() ==> (#[trigger] l[j]).3.v() <= t.last().3.v()
{
    assert forall|j: int| 0 <= j < l.len() implies (#[trigger] l[j]).3.v() <= t.last().3.v() by { let i = lemma_entry_back(l, t, j); if i < t.len() - 1 { assert(t[i].3.v() <= t[t.len() - 1].3.v()); } }
    assert forall|v: int| polygons[0] <= v < polygons.last() implies #[trigger] r.contains(v as usize) by { lemma_vertex(points, polygons, l, t, ks, r, v); }
}
pub proof fn lemma_vertex(points: Seq<Point2>, polygons: Seq<usize>, l: Seq<Info>, t: Seq<Info>, ks: Seq<int>, r: Seq<usize>, v: int)
    requires merged(points, polygons, l, t, ks, r), loops_ok(points, polygons), polygons[0] <= v < polygons.last() ensures r.contains(v as usize)
{
    let j = lemma_find(polygons, v, polygons.len() - 1); assert(loop_ok(points, polygons, l, j)); let i = lemma_entry_back(l, t, j); let q = t.len() - 1 - i;
    assert forall|z: int| 0 <= z < ks.len() implies 0 <= #[trigger] ks[z] < ring_after(t, ks, z).len() by { assert(bridge_ok(points, t, ks, z)); }
    if i < t.len() - 1 { let _ = ks[q - 1]; }
    lemma_in_hole(t, ks, q, v);
    lemma_keeps(t, ks, q, ks.len() as int, v as usize);
}
pub proof fn lemma_in_hole(t: Seq<Info>, ks: Seq<int>, q: int, v: int)
    requires 0 <= q < t.len(), ks.len() == t.len() - 1, t[t.len() - 1 - q].0 <= v < t[t.len() - 1 - q].1, q > 0 ==> t[t.len() - 1 - q].0 <= t[t.len() - 1 - q].2 < t[t.len() - 1 - q].1, q > 0 ==> 0 <= ks[q - 1] < ring_after(t, ks, q - 1).len()
    ensures ring_after(t, ks, q).contains(v as usize)
{
    let h = t[t.len() - 1 - q]; let r = ring_after(t, ks, q);
    if q == 0 { assert(r[v - h.0] == v as usize); }
    else {
        assert(hole(t, q - 1) == h); let k = ks[q - 1]; let o = ring_after(t, ks, q - 1);
        assert(r == splice(o, k, h.0 as int, h.1 as int, h.2 as int));
        if v >= h.2 { assert(r[k + 1 + (v - h.2)] == v as usize); } else { assert(r[k + 1 + (h.1 - h.2) + (v - h.0)] == v as usize); }
    }
}
pub proof fn lemma_find(p: Seq<usize>, v: int, n: int) -> (j: int) requires 0 <= n < p.len(), p[0] <= v < p[n] ensures 0 <= j < n, p[j] <= v < p[j + 1] decreases n
{ if v >= p[n - 1] { n - 1 } else { lemma_find(p, v, n - 1) } }
pub proof fn lemma_prefix(t: Seq<Info>, ks: Seq<int>, x: int, i: int) requires i <= ks.len() ensures ring_after(t, ks.push(x), i) == ring_after(t, ks, i) decreases i
{ if i > 0 { lemma_prefix(t, ks, x, i - 1); assert(ks.push(x)[i - 1] == ks[i - 1]); } }
//@ fn merge_two_polygons params=points,outer,inner,max_x_index
    requires valid(points@, old(outer)@), inner.start <= max_x_index < inner.end <= points@.len(), coords_ok(points@)
    ensures exists|k: int| #[trigger] nearest(points@, old(outer)@, k, max_x_index as int) && final(outer)@ == splice(old(outer)@, k, inner.start as int, inner.end as int, max_x_index as int)
//@ ghost start
    let ghost o = outer@; let ghost mut k = 0int;
//@ loop 0
    valid(points@, outer@), outer@ == old(outer)@, $e0 == outer@.len(), inner_point == points@[max_x_index as int], max_x_index < points@.len(), coords_ok(points@),
    $i0 == 0 ==> min.v() == rmaxval(), $i0 > 0 ==> min_index < $i0 && edge_dist(points@, outer@, min_index as int, max_x_index as int, min.v()),
    forall|i: int, c: real| 0 <= i < $i0 && #[trigger] edge_dist(points@, outer@, i, max_x_index as int, c) ==> min.v() <= c,
//@ ghost loop0.end
    proof { reveal(small); lemma_seg_unique(points@, outer@, $j0 as int, max_x_index as int, distance.v()); }
//@ ghost loop0.after
    proof { k = min_index as int; assert(edge_dist(points@, o, k, max_x_index as int, min.v())); assert(nearest(points@, o, k, max_x_index as int)); }
//@ ghost loop1.before
    proof { assert(outer@ =~= o.take(k + 1) + range(max_x_index + 1, max_x_index + 1) + o.skip(k)); }
//@ loop 1
    $b1 == inner.start, $e1 == max_x_index + 1, $e1 <= inner.end, inner.start <= max_x_index, insert_at == k + 1, 0 <= k < o.len(), outer@ == o.take(k + 1) + range($i1 as int, max_x_index + 1) + o.skip(k),
//@ ghost loop1.end
    proof { assert(outer@ =~= o.take(k + 1) + range($i1 as int, max_x_index + 1) + o.skip(k)); }
//@ ghost loop2.before
    proof { assert(outer@ =~= o.take(k + 1) + range(inner.end as int, inner.end as int) + range(inner.start as int, max_x_index + 1) + o.skip(k)); }
//@ loop 2
    $b2 == max_x_index, $e2 == inner.end, max_x_index < inner.end, inner.start <= max_x_index, insert_at == k + 1, 0 <= k < o.len(), outer@ == o.take(k + 1) + range($i2 as int, inner.end as int) + range(inner.start as int, max_x_index + 1) + o.skip(k),
//@ ghost loop2.end
    proof { assert(outer@ =~= o.take(k + 1) + range($i2 as int, inner.end as int) + range(inner.start as int, max_x_index + 1) + o.skip(k)); }
//@ ghost end
    proof { assert(outer@ == splice(o, k, inner.start as int, inner.end as int, max_x_index as int)); }
//@ raw
/// two distances of the same point to the same edge are equal
pub proof fn lemma_seg_unique(points: Seq<Point2>, o: Seq<usize>, i: int, m: int, d: real)
    requires edge_dist(points, o, i, m, d) ensures forall|c: real| #[trigger] edge_dist(points, o, i, m, c) ==> d == c
{
    let (a, b, p) = (points[o[i] as int], points[o[(i + 1) % (o.len() as int)] as int], points[m]);
    assert forall|c: real| #[trigger] edge_dist(points, o, i, m, c) implies d == c by {
        let t = choose|t: real| 0real <= t <= 1real && d * d == #[trigger] sd2(a, b, p, t); let u = choose|u: real| 0real <= u <= 1real && c * c == #[trigger] sd2(a, b, p, u);
        assert(c * c <= sd2(a, b, p, t) && d * d <= sd2(a, b, p, u));
        assert(d == c) by(nonlinear_arith) requires d * d == c * c, d >= 0real, c >= 0real;
    }
}
//@ raw
pub proof fn lemma_step(points: Seq<Point2>, t: Seq<Info>, ks: Seq<int>, k: int, o: Seq<usize>)
    requires ks.len() < t.len() - 1, o == ring_after(t, ks, ks.len() as int), valid(points, o), nearest(points, o, k, hole(t, ks.len() as int).2 as int), info_ok(points, hole(t, ks.len() as int)), forall|i: int| 0 <= i < ks.len() ==> #[trigger] bridge_ok(points, t, ks, i)
    ensures ({ let h = hole(t, ks.len() as int); let r = splice(o, k, h.0 as int, h.1 as int, h.2 as int); r == ring_after(t, ks.push(k), ks.len() as int + 1) && valid(points, r) }),
        forall|i: int| 0 <= i < ks.len() + 1 ==> #[trigger] bridge_ok(points, t, ks.push(k), i)
{
    let n = ks.len() as int; let h = hole(t, n); let r = splice(o, k, h.0 as int, h.1 as int, h.2 as int); lemma_prefix(t, ks, k, n);
    assert(ks.push(k)[n] == k); assert(ring_after(t, ks.push(k), n + 1) == r);
    assert forall|i: int| 0 <= i < n + 1 implies #[trigger] bridge_ok(points, t, ks.push(k), i) by { lemma_prefix(t, ks, k, i); if i < n { assert(bridge_ok(points, t, ks, i)); assert(ks.push(k)[i] == ks[i]); } }
    assert(r.len() >= 1);
    assert forall|i: int| 0 <= i < r.len() implies #[trigger] r[i] < points.len() by {
        let c = h.1 - h.0 + 1; assert(range(h.2 as int, h.1 as int).len() + range(h.0 as int, h.2 + 1).len() == c);
        if i <= k { assert(r[i] == o[i]); } else if i <= k + c { } else { assert(r[i] == o[i - c - 1]); }
    }
}
//@ fn merge_polygons params=points,polygons ret=r
    requires loops_ok(points@, polygons@), coords_ok(points@), points@.len() + polygons@.len() <= usize::MAX
    ensures exists|l: Seq<Info>, t: Seq<Info>, ks: Seq<int>| #[trigger] merged(points@, polygons@, l, t, ks, r@)
//@ ghost start
    let ghost mut l = Seq::<Info>::empty(); let ghost mut ks = Seq::<int>::empty(); let ghost mut t = Seq::<Info>::empty();
//@ loop 0
    loops_ok(points@, polygons@), coords_ok(points@), $n0 == polygons@.len() - 1, sorted_polygons@.len() == $i0, forall|j: int| 0 <= j < $i0 ==> #[trigger] loop_ok(points@, polygons@, sorted_polygons@, j),
//@ ghost loop0.start
    proof { lemma_mono(points@, polygons@, $j0 as int, $j0 + 1); }
    let ghost before = sorted_polygons@;
//@ loop 0.0
    coords_ok(points@), $b0_0 == *start, $e0_0 == *end, *start < *end <= points@.len(), $i0_0 == *start ==> x_max.v() == -rmaxval(),
    $i0_0 > *start ==> *start <= i_max < $i0_0 && x_max == points@[i_max as int].x, forall|q: int| *start <= q < $i0_0 ==> (#[trigger] points@[q]).x.v() <= x_max.v(),
//@ ghost loop0.end
    proof { assert forall|j: int| 0 <= j < $i0 implies #[trigger] loop_ok(points@, polygons@, sorted_polygons@, j) by { if j < $j0 { assert(loop_ok(points@, polygons@, before, j)); } } }
//@ ghost loop0.after
    proof { l = sorted_polygons@; }
//@ loop 1
    $s1@ == sorted_polygons@, $n1 == (if sorted_polygons@.len() >= 2 { sorted_polygons@.len() - 1 } else { 0int }), forall|k: int| 0 <= k < $i1 ==> (#[trigger] sorted_polygons@[k]).3.v() <= sorted_polygons@[k + 1].3.v(),
//@ ghost loop1.after
    proof {
        t = sorted_polygons@;
        broadcast use vstd::seq_lib::group_to_multiset_ensures;
        assert(t.len() == t.to_multiset().len() && l.len() == l.to_multiset().len());
        lemma_chain(t); let _ = lemma_entry(points@, polygons@, l, t, t.len() - 1);
        assert forall|i: int| 0 <= i < t.len() implies info_ok(points@, #[trigger] t[i]) by { let _ = lemma_entry(points@, polygons@, l, t, i); }
    }
//@ loop 2
    $b2 == outer_start, $e2 == outer_end, vertices@ == range(outer_start as int, $i2 as int),
//@ ghost loop2.end
    proof { assert(vertices@ =~= range(outer_start as int, $i2 as int)); }
//@ ghost loop3.before
    proof { assert(vertices@ =~= range(t.last().0 as int, t.last().1 as int)); }
//@ loop 3
    coords_ok(points@), $s3@ == t.drop_last(), $n3 == t.len() - 1, ks.len() == $n3 - $i3, vertices@ == ring_after(t, ks, ks.len() as int), valid(points@, vertices@),
    forall|i: int| 0 <= i < t.len() ==> info_ok(points@, #[trigger] t[i]), forall|i: int| 0 <= i < ks.len() ==> #[trigger] bridge_ok(points@, t, ks, i),
//@ ghost loop3.start
    let ghost o = vertices@;
//@ ghost loop3.end
    proof {
        let k = choose|k: int| #[trigger] nearest(points@, o, k, i_max as int) && vertices@ == splice(o, k, start as int, end as int, i_max as int);
        lemma_step(points@, t, ks, k, o); ks = ks.push(k);
    }
//@ ghost return
    proof { assert(merged(points@, polygons@, l, t, ks, __ret@)); }
//@ raw
pub proof fn lemma_chain(t: Seq<Info>) requires forall|k: int| 0 <= k < t.len() - 1 ==> (#[trigger] t[k]).3.v() <= t[k + 1].3.v() ensures forall|i: int, j: int| 0 <= i < j < t.len() ==> (#[trigger] t[i]).3.v() <= (#[trigger] t[j]).3.v()
{ assert forall|i: int, j: int| 0 <= i < j < t.len() implies (#[trigger] t[i]).3.v() <= (#[trigger] t[j]).3.v() by { lemma_chain2(t, i, j); } }
pub proof fn lemma_chain2(t: Seq<Info>, i: int, j: int) requires forall|k: int| 0 <= k < t.len() - 1 ==> (#[trigger] t[k]).3.v() <= t[k + 1].3.v(), 0 <= i <= j < t.len() ensures t[i].3.v() <= t[j].3.v() decreases j - i
{ if i < j { lemma_chain2(t, i, j - 1); assert(t[j - 1].3.v() <= t[j - 1 + 1].3.v()); } }
