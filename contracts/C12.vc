//@ include div_strict.rs float.rs points.rs std.rs deque.rs
//@ set nl=off
//@ assume lib_pred.vc
//@ struct Convexity
//@ raw
pub type Pts = Seq<Point2>;
/// the cross product of the edges a -> b and b -> c
#[verifier::opaque]
pub open spec fn turn(a: Point2, b: Point2, c: Point2) -> real { (b.x.v() - a.x.v()) * (c.y.v() - b.y.v()) - (b.y.v() - a.y.v()) * (c.x.v() - b.x.v()) }
pub open spec fn is_straight(a: Point2, b: Point2, c: Point2) -> bool { near_r(turn(a, b, c), 0real) }
pub open spec fn is_left(a: Point2, b: Point2, c: Point2) -> bool { !is_straight(a, b, c) && turn(a, b, c) > 0real }
pub open spec fn is_right(a: Point2, b: Point2, c: Point2) -> bool { !is_straight(a, b, c) && turn(a, b, c) <= 0real }
/// corners of a vertex list
pub open spec fn straight_at(p: Pts, v: Seq<usize>, i: int) -> bool { let n = v.len() as int; is_straight(p[v[(n + i - 1) % n] as int], p[v[i] as int], p[v[(i + 1) % n] as int]) }
pub open spec fn right_at(p: Pts, v: Seq<usize>, i: int) -> bool { let n = v.len() as int; is_right(p[v[(n + i - 1) % n] as int], p[v[i] as int], p[v[(i + 1) % n] as int]) }
pub open spec fn turns(p: Pts, v: Seq<usize>) -> spec_fn(int) -> bool { |i: int| !straight_at(p, v, i) }
pub open spec fn rights(p: Pts, v: Seq<usize>) -> spec_fn(int) -> bool { |i: int| right_at(p, v, i) }
/// the entries of v, in order, at the first k positions where f holds; the positions where it does not
pub open spec fn keepf(v: Seq<usize>, f: spec_fn(int) -> bool, k: int) -> Seq<usize> decreases k { if k <= 0 { Seq::empty() } else if f(k - 1) { keepf(v, f, k - 1).push(v[k - 1]) } else { keepf(v, f, k - 1) } }
pub open spec fn posf(f: spec_fn(int) -> bool, k: int) -> Seq<usize> decreases k { if k <= 0 { Seq::empty() } else if f(k - 1) { posf(f, k - 1) } else { posf(f, k - 1).push((k - 1) as usize) } }
pub open spec fn ids(n: int) -> Seq<usize> { Seq::new(n as nat, |i: int| i as usize) }
pub open spec fn idx_ok(p: Pts, v: Seq<usize>) -> bool { forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i] < p.len() }
/// v without the positions d (ascending)
pub open spec fn del(v: Seq<usize>, d: Seq<usize>) -> Seq<usize> decreases d.len() { if d.len() == 0 { v } else { del(v.remove(d.last() as int), d.drop_last()) } }
pub open spec fn asc(d: Seq<usize>, n: int) -> bool { (forall|i: int| 0 <= i < d.len() ==> #[trigger] d[i] < n) && forall|i: int, j: int| 0 <= i < j < d.len() ==> d[i] < d[j] }
pub proof fn lemma_del_step(v: Seq<usize>, d: Seq<usize>, k: int) requires 0 <= k <= d.len() ensures k > 0 ==> del(v, d.take(k)) == del(v.remove(d[k - 1] as int), d.take(k - 1)), k == 0 ==> del(v, d.take(k)) == v
{ if k > 0 { assert(d.take(k).drop_last() =~= d.take(k - 1)); } }
pub proof fn lemma_asc(d: Seq<usize>, n: int, i: int) requires asc(d, n), 0 <= i < d.len() ensures d[i] <= n - (d.len() - i), d[i] >= i decreases d.len() - i
{ if i + 1 < d.len() { lemma_asc(d, n, i + 1); } lemma_asc_lo(d, n, i); }
pub proof fn lemma_asc_lo(d: Seq<usize>, n: int, i: int) requires asc(d, n), 0 <= i < d.len() ensures d[i] >= i decreases i { if i > 0 { lemma_asc_lo(d, n, i - 1); } }
pub proof fn lemma_del_push(v: Seq<usize>, x: usize, d: Seq<usize>) requires asc(d, v.len() as int) ensures del(v.push(x), d) == del(v, d).push(x) decreases d.len()
{
    if d.len() > 0 {
        let j = d.last() as int; assert(d[d.len() - 1] == d.last());
        assert(v.push(x).remove(j) =~= v.remove(j).push(x));
        assert forall|i: int| 0 <= i < d.drop_last().len() implies #[trigger] d.drop_last()[i] < v.len() - 1 by { assert(d[i] < d[d.len() - 1]); }
        lemma_del_push(v.remove(j), x, d.drop_last());
    }
}
pub proof fn lemma_pos(f: spec_fn(int) -> bool, k: int) requires 0 <= k <= usize::MAX ensures asc(posf(f, k), k) decreases k { if k > 0 { lemma_pos(f, k - 1); } }
pub proof fn lemma_del_keep(v: Seq<usize>, f: spec_fn(int) -> bool, k: int)
    requires 0 <= k <= v.len() <= usize::MAX ensures del(v.take(k), posf(f, k)) == keepf(v, f, k) decreases k
{
    if k > 0 {
        lemma_del_keep(v, f, k - 1); lemma_pos(f, k - 1); let u = v.take(k - 1); assert(v.take(k) =~= u.push(v[k - 1]));
        if f(k - 1) { lemma_del_push(u, v[k - 1], posf(f, k - 1)); } else { let d = posf(f, k); assert(d.drop_last() =~= posf(f, k - 1)); assert(u.push(v[k - 1]).remove(k - 1) =~= u); }
    } else { assert(v.take(k) =~= Seq::<usize>::empty()); }
}
pub proof fn lemma_keep_ids(n: int, f: spec_fn(int) -> bool, k: int) requires 0 <= k <= n <= usize::MAX
    ensures sorted(keepf(ids(n), f, k)), forall|i: int| 0 <= i < keepf(ids(n), f, k).len() ==> #[trigger] keepf(ids(n), f, k)[i] < k decreases k { if k > 0 { lemma_keep_ids(n, f, k - 1); } }
//@ fn compute_convexity params=a,b,c ret=r
    ensures r == (if is_straight(a, b, c) { Convexity::Colinear } else if turn(a, b, c) > 0real { Convexity::Convex } else { Convexity::Concave })
//@ ghost start
    proof { reveal(turn); }
//@ raw
/// twice the signed area of the polygon with the vertices v
pub open spec fn cr(a: Point2, b: Point2) -> real { a.x.v() * b.y.v() - a.y.v() * b.x.v() }
pub open spec fn crs(p: Pts, v: Seq<usize>, i: int, j: int) -> real { cr(p[v[i] as int], p[v[j] as int]) }
pub open spec fn asum(p: Pts, v: Seq<usize>, k: int) -> real decreases k { if k <= 0 { 0real } else { asum(p, v, k - 1) + crs(p, v, k - 1, k) } }
pub open spec fn area2(p: Pts, v: Seq<usize>) -> real { if v.len() == 0 { 0real } else { asum(p, v, v.len() - 1) + crs(p, v, v.len() - 1, 0) } }
proof fn lemma_ex(a: real, b: real, c: real, d: real) ensures (a - b) * (c - d) == a * c - a * d - b * c + b * d, (a - b) * (c + d) == a * c + a * d - b * c - b * d { assert((a - b) * (c - d) == a * c - a * d - b * c + b * d) by(nonlinear_arith); assert((a - b) * (c + d) == a * c + a * d - b * c - b * d) by(nonlinear_arith); }
proof fn lemma_cm(a: real, b: real) ensures a * b == b * a { assert(a * b == b * a) by(nonlinear_arith); }
pub proof fn lemma_turn(a: Point2, b: Point2, c: Point2) ensures turn(a, b, c) == cr(a, b) + cr(b, c) - cr(a, c), cr(b, a) == -cr(a, b), cr(a, a) == 0real
{
    reveal(turn);
    lemma_ex(b.x.v(), a.x.v(), c.y.v(), b.y.v()); lemma_ex(b.y.v(), a.y.v(), c.x.v(), b.x.v());
    lemma_cm(b.x.v(), b.y.v()); lemma_cm(b.y.v(), c.x.v()); lemma_cm(a.x.v(), b.y.v()); lemma_cm(a.y.v(), b.x.v()); lemma_cm(a.y.v(), c.x.v()); lemma_cm(a.x.v(), a.y.v());
}
/// one term of the trapezoid sum
pub proof fn lemma_trap(a: Point2, b: Point2) ensures (b.x.v() - a.x.v()) * (a.y.v() + b.y.v()) == b.x.v() * b.y.v() - a.x.v() * a.y.v() - cr(a, b)
{ lemma_ex(b.x.v(), a.x.v(), a.y.v(), b.y.v()); lemma_cm(b.x.v(), a.y.v()); }
//@ fn is_polygon_counter_clockwise params=points ret=r
    requires points@.len() > 0
    ensures r == (area2(points@, ids(points@.len() as int)) > 0real)
//@ loop 0
    $e0 == points@.len() - 1, sum.v() == points@[$i0 as int].x.v() * points@[$i0 as int].y.v() - points@[0].x.v() * points@[0].y.v() - asum(points@, ids(points@.len() as int), $i0 as int),
//@ ghost loop0.end
    proof { lemma_trap(points@[$j0 as int], points@[$j0 + 1]); }
//@ ghost return
    proof { lemma_trap(points@[points@.len() - 1], points@[0]); }
//@ fn compute_vertex_convexity params=points ret=r
    requires points@.len() <= usize::MAX / 2
    ensures r.0@ == keepf(ids(points@.len() as int), turns(points@, ids(points@.len() as int)), points@.len() as int),
        r.1@ == keepf(ids(points@.len() as int), rights(points@, ids(points@.len() as int)), points@.len() as int), sorted(r.1@)
//@ ghost start
    let ghost v0 = ids(points@.len() as int);
//@ loop 0
    $e0 == points@.len(), n == points@.len(), n <= usize::MAX / 2, v0 == ids(n as int), vertices@ == keepf(v0, turns(points@, v0), $i0 as int), concave_points@ == keepf(v0, rights(points@, v0), $i0 as int),
//@ ghost return
    proof { lemma_keep_ids(points@.len() as int, rights(points@, v0), points@.len() as int); }
//@ fn find_concave_vertices params=points,vertices ret=r
    requires idx_ok(points@, old(vertices)@), old(vertices)@.len() <= usize::MAX / 2
    ensures final(vertices)@ == keepf(old(vertices)@, turns(points@, old(vertices)@), old(vertices)@.len() as int), sorted(r@),
        r@.to_multiset() == keepf(old(vertices)@, rights(points@, old(vertices)@), old(vertices)@.len() as int).to_multiset()
//@ ghost start
    let ghost v0 = vertices@;
    let ghost mut d = Seq::<usize>::empty();
//@ loop 0
    vertices@ == v0, $e0 == v0.len(), n == v0.len(), n <= usize::MAX / 2, idx_ok(points@, v0), to_delete@ == posf(turns(points@, v0), $i0 as int), concave_points@ == keepf(v0, rights(points@, v0), $i0 as int),
//@ ghost loop0.after
    proof { d = to_delete@; lemma_pos(turns(points@, v0), n as int); assert(d.take(d.len() as int) =~= d); lemma_del_keep(v0, turns(points@, v0), n as int); assert(v0.take(n as int) =~= v0); }
//@ loop 1
    $s1@ == d.reverse(), $n1 == d.len(), asc(d, v0.len() as int), vertices@.len() == v0.len() - $i1, del(vertices@, d.take(d.len() - $i1)) == del(v0, d), concave_points@ == keepf(v0, rights(points@, v0), v0.len() as int),
//@ ghost loop1.start
    proof { lemma_asc(d, v0.len() as int, d.len() - 1 - $j1); assert(d.take(d.len() - $j1).drop_last() =~= d.take(d.len() - $i1)); assert($s1@[$j1 as int] == d[d.len() - 1 - $j1]); }
//@ ghost loop1.after
    proof { assert(d.take(0) =~= Seq::<usize>::empty()); }
//@ raw
pub open spec fn tri(p: Point2, a: Point2, b: Point2) -> real { (a.x.v() - p.x.v()) * (b.y.v() - p.y.v()) - (a.y.v() - p.y.v()) * (b.x.v() - p.x.v()) }
pub open spec fn inside(a: Point2, b: Point2, c: Point2, p: Point2) -> bool { tri(p, a, b) >= 0real && tri(p, b, c) >= 0real && tri(p, c, a) >= 0real }
/// the corner turns left and no vertex listed as reflex, other than its own, lies in its triangle
#[verifier::opaque]
pub open spec fn ear(p: Pts, l: Seq<usize>, a: usize, b: usize, c: usize) -> bool {
    is_left(p[a as int], p[b as int], p[c as int]) && forall|q: int| 0 <= q < l.len() && #[trigger] l[q] != a && l[q] != b && l[q] != c ==> !inside(p[a as int], p[b as int], p[c as int], p[l[q] as int])
}
//@ fn is_inside_triangle params=a,b,c,p ret=r
    ensures r == inside(a, b, c, p)
//@ fn is_ear params=points,concave_points,prev,curr,next ret=r
    requires prev < points@.len(), curr < points@.len(), next < points@.len(), idx_ok(points@, concave_points@)
    ensures r == ear(points@, concave_points@, prev, curr, next)
//@ ghost start
    proof { reveal(ear); }
//@ loop 0
    $s0@ == concave_points@, $n0 == concave_points@.len(), is_left(points@[prev as int], points@[curr as int], points@[next as int]),
    forall|q: int| 0 <= q < $i0 && #[trigger] concave_points@[q] != prev && concave_points@[q] != curr && concave_points@[q] != next ==> !inside(points@[prev as int], points@[curr as int], points@[next as int], points@[concave_points@[q] as int]),
//@ raw
/// the position of x, and l without one occurrence of x
pub open spec fn spot(l: Seq<usize>, x: usize) -> int { choose|k: int| 0 <= k < l.len() && l[k] == x }
#[verifier::opaque]
pub open spec fn without(l: Seq<usize>, x: usize) -> Seq<usize> { l.remove(spot(l, x)) }
/// in a sorted list it does not matter which of the equal entries leaves
pub broadcast proof fn lemma_remove(l: Seq<usize>, j: int) requires sorted(l), 0 <= j < l.len() ensures #[trigger] l.remove(j) == without(l, l[j]), sorted(l.remove(j))
{
    reveal(without); let k = spot(l, l[j]); assert(0 <= k < l.len() && l[k] == l[j]);
    assert forall|i: int| 0 <= i < l.len() - 1 implies l.remove(j)[i] == l.remove(k)[i] by {
        if i < j && i < k { } else if i >= j && i >= k { } else if j <= i && i < k { assert(l[i] == l[i + 1]) by { if j < i { } if i + 1 < k { } } } else { if k < i { } if i + 1 < j { } }
    }
    assert(l.remove(j) =~= l.remove(k));
}
/// the list after the corner at x changed its turn: a reflex corner that no longer is leaves it
pub open spec fn relist(l: Seq<usize>, x: usize, before: bool, after: bool) -> Seq<usize> { if before && l.contains(x) && !after { without(l, x) } else { l } }
/// one clip at position i: the corners around it
pub open spec fn nb(v: Seq<usize>, i: int, k: int) -> usize { let n = v.len() as int; v[(n + i + k) % n] }
pub open spec fn right3(p: Pts, a: usize, b: usize, c: usize) -> bool { is_right(p[a as int], p[b as int], p[c as int]) }
pub open spec fn straight3(p: Pts, a: usize, b: usize, c: usize) -> bool { is_straight(p[a as int], p[b as int], p[c as int]) }
pub open spec fn list_mid(p: Pts, v: Seq<usize>, l: Seq<usize>, i: int) -> Seq<usize> { let (aa, a, b, c) = (nb(v, i, -2), nb(v, i, -1), v[i], nb(v, i, 1)); relist(l, a, right3(p, aa, a, b), right3(p, aa, a, c)) }
pub open spec fn list_next(p: Pts, v: Seq<usize>, l: Seq<usize>, i: int) -> Seq<usize> { let (a, b, c, cc) = (nb(v, i, -1), v[i], nb(v, i, 1), nb(v, i, 2)); relist(list_mid(p, v, l, i), c, right3(p, b, c, cc), right3(p, a, c, cc)) }
/// a neighbour that was reflex and becomes straight goes with the clipped corner
pub open spec fn drop_a(p: Pts, v: Seq<usize>, l: Seq<usize>, i: int) -> bool { let (aa, a, b, c) = (nb(v, i, -2), nb(v, i, -1), v[i], nb(v, i, 1)); right3(p, aa, a, b) && l.contains(a) && straight3(p, aa, a, c) }
pub open spec fn drop_c(p: Pts, v: Seq<usize>, l: Seq<usize>, i: int) -> bool { let (a, b, c, cc) = (nb(v, i, -1), v[i], nb(v, i, 1), nb(v, i, 2)); right3(p, b, c, cc) && list_mid(p, v, l, i).contains(c) && straight3(p, a, c, cc) }
pub open spec fn gone(p: Pts, v: Seq<usize>, l: Seq<usize>, i: int) -> Seq<usize> {
    let n = v.len() as int; let s = seq![i as usize]; let s = if drop_a(p, v, l, i) { s.push(((n + i - 1) % n) as usize) } else { s };
    if drop_c(p, v, l, i) { s.push(((i + 1) % n) as usize) } else { s }
}
pub open spec fn ear_at(p: Pts, v: Seq<usize>, l: Seq<usize>, i: int) -> bool { v.len() > 2 && ear(p, l, nb(v, i, -1), v[i], nb(v, i, 1)) }
/// the ring v with the list l becomes w with m: the ear at i is clipped, the positions d leave
#[verifier::opaque]
pub open spec fn step(p: Pts, v: Seq<usize>, l: Seq<usize>, i: int, d: Seq<usize>, w: Seq<usize>, m: Seq<usize>) -> bool {
    &&& 0 <= i < v.len() && ear_at(p, v, l, i)
    &&& asc(d, v.len() as int) && d.to_multiset() == gone(p, v, l, i).to_multiset() && w == del(v, d)
    &&& m == list_next(p, v, l, i)
}
pub ghost struct Trace { pub rings: Seq<Seq<usize>>, pub lists: Seq<Seq<usize>>, pub cuts: Seq<int>, pub dels: Seq<Seq<usize>> }
pub open spec fn step_at(p: Pts, t: Trace, k: int) -> bool { step(p, t.rings[k], t.lists[k], t.cuts[k], t.dels[k], t.rings[k + 1], t.lists[k + 1]) }
#[verifier::opaque]
pub open spec fn chain(p: Pts, t: Trace, v: Seq<usize>, l: Seq<usize>) -> bool {
    &&& t.rings.len() == t.cuts.len() + 1 && t.lists.len() == t.rings.len() && t.dels.len() == t.cuts.len() && t.rings[0] == v && t.lists[0] == l
    &&& forall|k: int| 0 <= k < t.cuts.len() ==> #[trigger] step_at(p, t, k)
}
pub open spec fn clipped(v: Seq<usize>, i: int) -> Seq<u32> { seq![nb(v, i, -1) as u32, v[i] as u32, nb(v, i, 1) as u32] }
/// the triangles of the first k clips
pub open spec fn tris(t: Trace, k: int) -> Seq<u32> decreases k { if k <= 0 { Seq::empty() } else { tris(t, k - 1) + clipped(t.rings[k - 1], t.cuts[k - 1]) } }
pub open spec fn last3(v: Seq<usize>) -> Seq<u32> { seq![v[0] as u32, v[1] as u32, v[2] as u32] }
pub open spec fn stuck(p: Pts, v: Seq<usize>, l: Seq<usize>) -> bool { forall|i: int| 0 <= i < v.len() ==> !#[trigger] ear_at(p, v, l, i) }
/// ears are clipped until three corners are left, which are the last triangle, or no ear is left
pub open spec fn clipping(p: Pts, t: Trace, v: Seq<usize>, l: Seq<usize>, r: Seq<u32>) -> bool {
    let rest = t.rings.last();
    &&& chain(p, t, v, l) && r == tris(t, t.cuts.len() as int) + (if rest.len() == 3 { last3(rest) } else { Seq::empty() })
    &&& rest.len() > 3 ==> stuck(p, rest, t.lists.last())
}
pub open spec fn grow(t: Trace, i: int, d: Seq<usize>, w: Seq<usize>, m: Seq<usize>) -> Trace { Trace { rings: t.rings.push(w), lists: t.lists.push(m), cuts: t.cuts.push(i), dels: t.dels.push(d) } }
pub proof fn lemma_tris(t: Trace, i: int, d: Seq<usize>, w: Seq<usize>, m: Seq<usize>, k: int)
    requires t.rings.len() == t.cuts.len() + 1, 0 <= k <= t.cuts.len() ensures tris(grow(t, i, d, w, m), k) == tris(t, k) decreases k
{ if k > 0 { lemma_tris(t, i, d, w, m, k - 1); } }
pub proof fn lemma_grow(p: Pts, t: Trace, v: Seq<usize>, l: Seq<usize>, i: int, d: Seq<usize>, w: Seq<usize>, m: Seq<usize>)
    requires chain(p, t, v, l), step(p, t.rings.last(), t.lists.last(), i, d, w, m)
    ensures chain(p, grow(t, i, d, w, m), v, l), tris(grow(t, i, d, w, m), t.cuts.len() as int + 1) == tris(t, t.cuts.len() as int) + clipped(t.rings.last(), i)
{
    reveal(chain); let u = grow(t, i, d, w, m); lemma_tris(t, i, d, w, m, t.cuts.len() as int);
    assert forall|k: int| 0 <= k < u.cuts.len() implies #[trigger] step_at(p, u, k) by { if k < t.cuts.len() { assert(step_at(p, t, k)); } }
}
pub proof fn lemma_idx(p: Pts, v: Seq<usize>, d: Seq<usize>) requires idx_ok(p, v), asc(d, v.len() as int) ensures idx_ok(p, del(v, d)), del(v, d).len() == v.len() - d.len() decreases d.len()
{
    if d.len() > 0 {
        assert(d[d.len() - 1] == d.last());
        assert forall|i: int| 0 <= i < d.drop_last().len() implies #[trigger] d.drop_last()[i] < v.len() - 1 by { assert(d[i] < d[d.len() - 1]); }
        lemma_idx(p, v.remove(d.last() as int), d.drop_last());
    }
}
pub broadcast proof fn lemma_rev2(s: Seq<usize>) ensures #[trigger] s.reverse().reverse() == s { assert(s.reverse().reverse() =~= s); }
/// sorting distinct positions makes them ascending
pub proof fn lemma_sorted_asc(g: Seq<usize>, d: Seq<usize>, n: int)
    requires g.to_multiset() == d.to_multiset(), sorted(d), g.no_duplicates(), forall|i: int| 0 <= i < g.len() ==> #[trigger] g[i] < n ensures asc(d, n), d.len() == g.len()
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(g.to_multiset().len() == g.len() && d.to_multiset().len() == d.len());
    assert forall|i: int| 0 <= i < d.len() implies #[trigger] d[i] < n by { assert(d.contains(d[i])); assert(d.to_multiset().count(d[i]) > 0); assert(g.contains(d[i])); }
    g.lemma_multiset_has_no_duplicates();
    assert forall|x: usize| d.to_multiset().contains(x) implies d.to_multiset().count(x) == 1 by {}
    d.lemma_multiset_has_no_duplicates_conv();
}
/// the corners around position i of a ring with n > 2 corners
pub proof fn lemma_nb(n: int, i: int) requires 0 <= i < n
    ensures n > 2 ==> (n + i - 1) % n != i && (i + 1) % n != i && (n + i - 1) % n != (i + 1) % n,
        0 <= (n + i - 1) % n < n, 0 <= (n + i + 1) % n < n, (n + i + 1) % n == (i + 1) % n, (n + i + 2) % n == (i + 2) % n, (n + i + 0) % n == i
{
    use vstd::arithmetic::div_mod::*;
    lemma_mod_add_multiples_vanish(i + 1, n); lemma_mod_add_multiples_vanish(i + 2, n); lemma_mod_add_multiples_vanish(i, n); lemma_small_mod(i as nat, n as nat);
    if i + 1 < n { lemma_small_mod((i + 1) as nat, n as nat); } else { lemma_fundamental_div_mod_converse(i + 1, n, 1, 0); }
    if i == 0 { lemma_small_mod((n - 1) as nat, n as nat); } else { lemma_mod_add_multiples_vanish(i - 1, n); lemma_small_mod((i - 1) as nat, n as nat); }
}
pub proof fn lemma_gone(p: Pts, v: Seq<usize>, l: Seq<usize>, i: int) requires 0 <= i < v.len() <= usize::MAX / 2, v.len() > 2
    ensures gone(p, v, l, i).no_duplicates(), forall|k: int| 0 <= k < gone(p, v, l, i).len() ==> #[trigger] gone(p, v, l, i)[k] < v.len()
{ lemma_nb(v.len() as int, i); }
pub proof fn lemma_relist(p: Pts, l: Seq<usize>, x: usize, b: bool, a: bool) requires sorted(l), idx_ok(p, l) ensures sorted(relist(l, x, b, a)), idx_ok(p, relist(l, x, b, a))
{ if b && l.contains(x) && !a { reveal(without); let k = spot(l, x); assert(0 <= k < l.len() && l[k] == x); lemma_remove(l, k); } }
pub proof fn lemma_clip(p: Pts, v: Seq<usize>, l: Seq<usize>, i: int, d: Seq<usize>, m: Seq<usize>)
    requires idx_ok(p, v), sorted(l), idx_ok(p, l), 0 <= i < v.len() <= usize::MAX / 16, ear_at(p, v, l, i), sorted(d), d.to_multiset() == gone(p, v, l, i).to_multiset(), m == list_next(p, v, l, i)
    ensures asc(d, v.len() as int), step(p, v, l, i, d, del(v, d), m), idx_ok(p, del(v, d)), del(v, d).len() == v.len() - d.len(), 1 <= d.len() <= 3, sorted(m), idx_ok(p, m), d.take(d.len() as int) == d
{
    lemma_gone(p, v, l, i); lemma_sorted_asc(gone(p, v, l, i), d, v.len() as int); lemma_idx(p, v, d); assert(d.take(d.len() as int) =~= d); reveal(step);
    let (aa, a, b, c, cc) = (nb(v, i, -2), nb(v, i, -1), v[i], nb(v, i, 1), nb(v, i, 2));
    lemma_relist(p, l, a, right3(p, aa, a, b), right3(p, aa, a, c)); lemma_relist(p, list_mid(p, v, l, i), c, right3(p, b, c, cc), right3(p, a, c, cc));
}
pub proof fn lemma_tris0(t: Trace) ensures tris(t, 0) == Seq::<u32>::empty() {}
pub proof fn lemma_done(p: Pts, t: Trace, v: Seq<usize>, l: Seq<usize>, r: Seq<u32>)
    requires chain(p, t, v, l), r =~= tris(t, t.cuts.len() as int) + (if t.rings.last().len() == 3 { last3(t.rings.last()) } else { Seq::empty() }), t.rings.last().len() > 3 ==> stuck(p, t.rings.last(), t.lists.last())
    ensures clipping(p, t, v, l, r) {}
pub open spec fn clips(p: Pts, v: Seq<usize>, l: Seq<usize>, r: Seq<u32>) -> bool { exists|t: Trace| clipping(p, t, v, l, r) }
//@ fn trianglate_polygon params=points,vertices,concave_points ret=r
    requires idx_ok(points@, vertices@), idx_ok(points@, concave_points@), sorted(concave_points@), vertices@.len() <= usize::MAX / 16, points@.len() <= u32::MAX
    ensures clips(points@, vertices@, concave_points@, r@)
//@ ghost start
    hide(del); hide(clipping); hide(list_next); hide(list_mid); hide(gone); hide(drop_a); hide(drop_c); hide(relist); hide(asc); hide(tris); hide(asum); hide(keepf); hide(posf);
    let ghost (v0, c0) = (vertices@, concave_points@);
    let ghost mut t = Trace { rings: seq![v0], lists: seq![c0], cuts: Seq::empty(), dels: Seq::empty() };
    broadcast use lemma_remove; broadcast use lemma_rev2; proof { lemma_tris0(t); assert(chain(points@, t, v0, c0)) by { reveal(chain); } }
//@ loop 0
    chain(points@, t, v0, c0), t.rings.len() > 0, t.lists.len() > 0, vertices@ == t.rings.last(), concave_points@ == t.lists.last(), sorted(concave_points@), idx_ok(points@, concave_points@), idx_ok(points@, vertices@), vertices@.len() <= usize::MAX / 16,
    vertices@.len() <= prev_m, prev_m == 3 ==> vertices@.len() == 3, 3 < prev_m < usize::MAX && vertices@.len() == prev_m ==> stuck(points@, vertices@, concave_points@),
    triangles@ =~= tris(t, t.cuts.len() as int) + (if prev_m == 3 { last3(vertices@) } else { Seq::empty() }),
    decreases prev_m,
//@ loop 0.0
    chain(points@, t, v0, c0), t.rings.len() > 0, t.lists.len() > 0, vertices@ == t.rings.last(), concave_points@ == t.lists.last(), sorted(concave_points@), idx_ok(points@, concave_points@), idx_ok(points@, vertices@), vertices@.len() <= usize::MAX / 16,
    m == vertices@.len(), 3 < prev_m, m <= prev_m <= usize::MAX / 16, m == prev_m ==> forall|q: int| 0 <= q < i ==> !#[trigger] ear_at(points@, vertices@, concave_points@, q),
    triangles@ == tris(t, t.cuts.len() as int),
    i <= prev_m,
    decreases prev_m - i,
//@ ghost loop0.0.start
    let ghost (g_v, g_c, g_i, g_m) = (vertices@, concave_points@, i as int, m);
    let ghost mut d = Seq::<usize>::empty();
    proof { lemma_nb(m as int, i as int); }
//@ ghost sort0.before
    proof {
        assert(__q@ == gone(points@, g_v, g_c, g_i) && concave_points@ == list_next(points@, g_v, g_c, g_i)) by { reveal(list_next); reveal(list_mid); reveal(gone); reveal(drop_a); reveal(drop_c); reveal(relist); }
    }
//@ ghost loop0.0.0.before
    proof {
        d = $s0_0_0@.reverse(); assert(d.reverse() == $s0_0_0@);
        lemma_clip(points@, g_v, g_c, g_i, d, concave_points@);
        assert(triangles@ =~= tris(t, t.cuts.len() as int) + clipped(g_v, g_i));
    }
//@ loop 0.0.0
    $s0_0_0@ == d.reverse(), $n0_0_0 == d.len(), asc(d, g_v.len() as int), vertices@.len() == g_v.len() - $i0_0_0, del(vertices@, d.take(d.len() - $i0_0_0)) == del(g_v, d),
    g_v == t.rings.last(), g_c == t.lists.last(), step(points@, g_v, g_c, g_i, d, del(g_v, d), concave_points@), m == g_v.len() - d.len(), del(g_v, d).len() == m, chain(points@, t, v0, c0), triangles@ == tris(t, t.cuts.len() as int) + clipped(g_v, g_i),
//@ ghost loop0.0.0.start
    proof { lemma_asc(d, g_v.len() as int, d.len() - 1 - $j0_0_0); lemma_del_step(vertices@, d, d.len() - $j0_0_0); assert($s0_0_0@[$j0_0_0 as int] == d[d.len() - 1 - $j0_0_0]); }
//@ ghost loop0.0.0.after
    proof { lemma_del_step(vertices@, d, 0); lemma_grow(points@, t, v0, c0, g_i, d, vertices@, concave_points@); t = grow(t, g_i, d, vertices@, concave_points@); }
//@ ghost return
    proof {
        assert(vertices@.len() == 3 ==> prev_m == 3); assert(vertices@.len() > 3 ==> stuck(points@, vertices@, concave_points@));
        lemma_done(points@, t, v0, c0, __ret@);
    }
//@ raw
/// the neighbours of position i, spelled out
pub open spec fn bk(v: Seq<usize>, i: int, k: int) -> usize { if i >= k { v[i - k] } else { v[v.len() + i - k] } }
pub open spec fn fw(v: Seq<usize>, i: int, k: int) -> usize { if i + k < v.len() { v[i + k] } else { v[i + k - v.len()] } }
pub proof fn lemma_nbx(v: Seq<usize>, i: int) requires 0 <= i < v.len(), v.len() >= 2
    ensures nb(v, i, -1) == bk(v, i, 1), nb(v, i, -2) == bk(v, i, 2), nb(v, i, 1) == fw(v, i, 1), nb(v, i, 2) == fw(v, i, 2)
{
    use vstd::arithmetic::div_mod::*; let n = v.len() as int;
    lemma_nb(n, i);
    if i + 1 < n { lemma_small_mod((i + 1) as nat, n as nat); } else { lemma_fundamental_div_mod_converse(i + 1, n, 1, 0); }
    if i + 2 < n { lemma_small_mod((i + 2) as nat, n as nat); } else { lemma_fundamental_div_mod_converse(i + 2, n, 1, i + 2 - n); }
    if i >= 1 { lemma_fundamental_div_mod_converse(n + i - 1, n, 1, i - 1); } else { lemma_small_mod((n - 1) as nat, n as nat); }
    if i >= 2 { lemma_fundamental_div_mod_converse(n + i - 2, n, 1, i - 2); } else { lemma_small_mod((n + i - 2) as nat, n as nat); }
}
proof fn lemma_asum_cut(p: Pts, v: Seq<usize>, i: int, k: int) requires 0 <= i < v.len(), 0 <= k < v.len() - 1
    ensures k < i ==> asum(p, v.remove(i), k) == asum(p, v, k),
        k >= i > 0 ==> asum(p, v.remove(i), k) == asum(p, v, k + 1) - crs(p, v, i - 1, i) - crs(p, v, i, i + 1) + crs(p, v, i - 1, i + 1),
        i == 0 ==> asum(p, v.remove(i), k) == asum(p, v, k + 1) - crs(p, v, 0, 1)
    decreases k
{
    if k > 0 { lemma_asum_cut(p, v, i, k - 1); } else { assert(asum(p, v, 0) == 0real); assert(asum(p, v, 1) == asum(p, v, 0) + crs(p, v, 0, 1)); assert(asum(p, v.remove(i), 0) == 0real); }
    if k > 0 && k == i { assert(asum(p, v, k + 1) == asum(p, v, k) + crs(p, v, k, k + 1)); assert(asum(p, v, k) == asum(p, v, k - 1) + crs(p, v, k - 1, k)); assert(asum(p, v.remove(i), k) == asum(p, v.remove(i), k - 1) + crs(p, v.remove(i), k - 1, k)); }
}
pub open spec fn corner(p: Pts, v: Seq<usize>, i: int) -> real { turn(p[nb(v, i, -1) as int], p[v[i] as int], p[nb(v, i, 1) as int]) }
/// the area of a ring without one of its corners
pub proof fn lemma_area_cut(p: Pts, v: Seq<usize>, i: int) requires 0 <= i < v.len(), v.len() >= 2
    ensures area2(p, v.remove(i)) == area2(p, v) - corner(p, v, i)
{
    let n = v.len() as int; lemma_nbx(v, i); let w = v.remove(i); let (a, b, c) = (bk(v, i, 1), v[i], fw(v, i, 1));
    lemma_turn(p[a as int], p[b as int], p[c as int]); lemma_turn(p[a as int], p[b as int], p[a as int]);
    lemma_asum_cut(p, v, i, n - 2);
    assert(area2(p, w) == asum(p, w, n - 2) + crs(p, w, n - 2, 0));
    assert(asum(p, v, n - 1) == asum(p, v, n - 2) + crs(p, v, n - 2, n - 1));
}
/// the tolerance of `near`
pub open spec fn eps2() -> real { 0.0000001real }
proof fn lemma_del1(v: Seq<usize>, x: usize) requires x < v.len() ensures del(v, seq![x]) == v.remove(x as int)
{ let d = seq![x]; assert(d.drop_last() =~= Seq::empty()); assert(del(v.remove(x as int), d.drop_last()) == v.remove(x as int)); }
proof fn lemma_del2(v: Seq<usize>, x: usize, y: usize) requires x < y < v.len() ensures del(v, seq![x, y]) == v.remove(y as int).remove(x as int), v.remove(y as int).remove(x as int) == v.remove(x as int).remove(y - 1)
{ let d = seq![x, y]; assert(d.drop_last() =~= seq![x]); lemma_del1(v.remove(y as int), x); assert(v.remove(y as int).remove(x as int) =~= v.remove(x as int).remove(y - 1)); }
proof fn lemma_pos_of(n: int, i: int) requires 0 <= i < n, n > 2 ensures (n + i - 1) % n == (if i > 0 { i - 1 } else { n - 1 }), (i + 1) % n == (if i + 1 < n { i + 1 } else { 0 })
{
    use vstd::arithmetic::div_mod::*;
    if i + 1 < n { lemma_small_mod((i + 1) as nat, n as nat); } else { lemma_fundamental_div_mod_converse(i + 1, n, 1, 0); }
    if i >= 1 { lemma_fundamental_div_mod_converse(n + i - 1, n, 1, i - 1); } else { lemma_small_mod((n - 1) as nat, n as nat); }
}
proof fn lemma_members(g: Seq<usize>, d: Seq<usize>) requires g.to_multiset() == d.to_multiset() ensures d.len() == g.len(), forall|k: int| 0 <= k < d.len() ==> g.contains(#[trigger] d[k])
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures; assert(d.to_multiset().len() == d.len() && g.to_multiset().len() == g.len());
    assert forall|k: int| 0 <= k < d.len() implies g.contains(#[trigger] d[k]) by { assert(d.to_multiset().count(d[k]) > 0); assert(g.to_multiset().count(d[k]) > 0); }
}
pub open spec fn pair(i: int, x: int) -> Seq<usize> { if i < x { seq![i as usize, x as usize] } else { seq![x as usize, i as usize] } }
proof fn lemma_cut_two(p: Pts, v: Seq<usize>, i: int, x: int, y: int) requires v.len() > 2, v.len() <= usize::MAX, 0 <= i < v.len(), 0 <= x < v.len(), x != i, y == (if x < i { x } else { x - 1 })
    ensures del(v, pair(i, x)) == v.remove(i).remove(y), area2(p, del(v, pair(i, x))) == area2(p, v) - corner(p, v, i) - corner(p, v.remove(i), y)
{
    if i < x { lemma_del2(v, i as usize, x as usize); } else { lemma_del2(v, x as usize, i as usize); }
    lemma_area_cut(p, v, i); lemma_area_cut(p, v.remove(i), y);
}
proof fn lemma_two_a(p: Pts, v: Seq<usize>, i: int, x: int) requires v.len() > 2, v.len() <= usize::MAX, 0 <= i < v.len(), x == (if i > 0 { i - 1 } else { v.len() - 1 })
    ensures area2(p, del(v, pair(i, x))) == area2(p, v) - corner(p, v, i) - turn(p[bk(v, i, 2) as int], p[bk(v, i, 1) as int], p[fw(v, i, 1) as int])
{ let y = if x < i { x } else { x - 1 }; lemma_cut_two(p, v, i, x, y); let u = v.remove(i); lemma_nbx(u, y); assert(u[y] == bk(v, i, 1)); assert(bk(u, y, 1) == bk(v, i, 2)); assert(fw(u, y, 1) == fw(v, i, 1)); }
proof fn lemma_two_c(p: Pts, v: Seq<usize>, i: int, x: int) requires v.len() > 2, v.len() <= usize::MAX, 0 <= i < v.len(), x == (if i + 1 < v.len() { i + 1 } else { 0 })
    ensures area2(p, del(v, pair(i, x))) == area2(p, v) - corner(p, v, i) - turn(p[bk(v, i, 1) as int], p[fw(v, i, 1) as int], p[fw(v, i, 2) as int])
{ let y = if x < i { x } else { x - 1 }; lemma_cut_two(p, v, i, x, y); let u = v.remove(i); lemma_nbx(u, y); assert(u[y] == fw(v, i, 1)); assert(bk(u, y, 1) == bk(v, i, 1)); assert(fw(u, y, 1) == fw(v, i, 2)); }
/// Every clip takes a corner that turns left; the ring loses the area of its triangle, exactly when the corner leaves alone, up to the
/// tolerance when a neighbour that became straight leaves with it.
pub proof fn thm_clip(p: Pts, v: Seq<usize>, l: Seq<usize>, i: int, d: Seq<usize>, w: Seq<usize>, m: Seq<usize>)
    requires step(p, v, l, i, d, w, m), v.len() <= usize::MAX / 16
    ensures corner(p, v, i) > 0real, d.len() == 1 ==> area2(p, w) == area2(p, v) - corner(p, v, i),
        d.len() == 2 ==> near_r(area2(p, w), area2(p, v) - corner(p, v, i)), 1 <= d.len() <= 3, w.len() == v.len() - d.len(),
        forall|x: usize| #[trigger] w.contains(x) ==> v.contains(x)
{
    hide(asum); hide(area2); hide(del); reveal(step); reveal(ear);
    let g = gone(p, v, l, i); lemma_members(g, d); lemma_nb(v.len() as int, i); lemma_del_sub(v, d);
    if d.len() == 1 { assert(g.contains(d[0])); assert(d =~= seq![i as usize]); lemma_del1(v, i as usize); lemma_area_cut(p, v, i); }
    if d.len() == 2 {
        let n = v.len() as int; let x = g[1] as int; lemma_pos_of(n, i); assert(g.contains(d[0])); assert(g.contains(d[1])); assert(d[0] < d[1]); lemma_nbx(v, i);
        assert(d =~= pair(i, x));
        if drop_a(p, v, l, i) { assert(!drop_c(p, v, l, i)); assert(x == if i > 0 { i - 1 } else { n - 1 }); lemma_two_a(p, v, i, x); }
        else { assert(drop_c(p, v, l, i)); assert(x == if i + 1 < n { i + 1 } else { 0 }); lemma_two_c(p, v, i, x); }
    }
}
proof fn lemma_del_sub(v: Seq<usize>, d: Seq<usize>) requires asc(d, v.len() as int)
    ensures del(v, d).len() == v.len() - d.len(), forall|x: usize| #[trigger] del(v, d).contains(x) ==> v.contains(x) decreases d.len()
{
    if d.len() > 0 {
        let j = d.last() as int; assert(d[d.len() - 1] == d.last());
        assert forall|i: int| 0 <= i < d.drop_last().len() implies #[trigger] d.drop_last()[i] < v.len() - 1 by { assert(d[i] < d[d.len() - 1]); }
        lemma_del_sub(v.remove(j), d.drop_last());
        assert forall|x: usize| #[trigger] del(v, d).contains(x) implies v.contains(x) by { assert(v.remove(j).contains(x)); let k = choose|k: int| 0 <= k < v.len() - 1 && v.remove(j)[k] == x; assert(v[if k < j { k } else { k + 1 }] == x); }
    }
}
/// twice the area of the j-th triangle of an index list, and of the first k triangles
pub open spec fn tarea(p: Pts, r: Seq<u32>, j: int) -> real { turn(p[r[3 * j] as int], p[r[3 * j + 1] as int], p[r[3 * j + 2] as int]) }
pub open spec fn rsum(p: Pts, r: Seq<u32>, k: int) -> real decreases k { if k <= 0 { 0real } else { rsum(p, r, k - 1) + tarea(p, r, k - 1) } }
proof fn lemma_rsum(p: Pts, r: Seq<u32>, s: Seq<u32>, k: int) requires 0 <= k, 3 * k <= r.len(), forall|j: int| 0 <= j < 3 * k ==> r[j] == s[j], 3 * k <= s.len() ensures rsum(p, r, k) == rsum(p, s, k) decreases k
{ if k > 0 { lemma_rsum(p, r, s, k - 1); } }
/// at most one neighbour leaves with a clipped corner
pub open spec fn slim(t: Trace) -> bool { forall|k: int| 0 <= k < t.dels.len() ==> (#[trigger] t.dels[k]).len() <= 2 }
pub open spec fn lone(t: Trace) -> bool { forall|k: int| 0 <= k < t.dels.len() ==> (#[trigger] t.dels[k]).len() == 1 }
proof fn lemma_clip_chain(p: Pts, t: Trace, v: Seq<usize>, l: Seq<usize>, k: int)
    requires chain(p, t, v, l), idx_ok(p, v), v.len() <= usize::MAX / 16, p.len() <= u32::MAX, 0 <= k <= t.cuts.len()
    ensures t.rings.len() == t.cuts.len() + 1, idx_ok(p, t.rings[k]), t.rings[k].len() <= v.len() - k, tris(t, k).len() == 3 * k, lone(t) ==> t.rings[k].len() == v.len() - k,
        forall|x: usize| #[trigger] t.rings[k].contains(x) ==> v.contains(x), forall|j: int| 0 <= j < 3 * k ==> v.contains(#[trigger] tris(t, k)[j] as usize),
        forall|j: int| 0 <= j < k ==> #[trigger] tarea(p, tris(t, k), j) > 0real,
        lone(t) ==> rsum(p, tris(t, k), k) + area2(p, t.rings[k]) == area2(p, v),
        slim(t) ==> rabs(rsum(p, tris(t, k), k) + area2(p, t.rings[k]) - area2(p, v)) <= eps2() * (k as real),
    decreases k
{
    reveal(chain);
    if k > 0 {
        lemma_clip_chain(p, t, v, l, k - 1); assert(step_at(p, t, k - 1));
        let (a, b, i, d) = (t.rings[k - 1], t.rings[k], t.cuts[k - 1], t.dels[k - 1]);
        thm_clip(p, a, t.lists[k - 1], i, d, b, t.lists[k]); lemma_step_in(p, a, t.lists[k - 1], i, d, b, t.lists[k]);
        let (r, s) = (tris(t, k), tris(t, k - 1)); assert(r =~= s + clipped(a, i));
        assert(r[3 * (k - 1)] == nb(a, i, -1) as u32 && r[3 * (k - 1) + 1] == a[i] as u32 && r[3 * (k - 1) + 2] == nb(a, i, 1) as u32);
        lemma_rsum(p, s, r, k - 1); assert(tarea(p, r, k - 1) == corner(p, a, i));
        assert forall|j: int| 0 <= j < k implies #[trigger] tarea(p, r, j) > 0real by { if j < k - 1 { assert(tarea(p, s, j) > 0real); assert(r[3 * j] == s[3 * j] && r[3 * j + 1] == s[3 * j + 1] && r[3 * j + 2] == s[3 * j + 2]); } }
        assert forall|j: int| 0 <= j < 3 * k implies v.contains(#[trigger] r[j] as usize) by {
            if j < 3 * (k - 1) { assert(v.contains(s[j] as usize)); } else { assert(a.contains(nb(a, i, -1)) && a.contains(a[i]) && a.contains(nb(a, i, 1))); }
        }
        assert forall|x: usize| #[trigger] b.contains(x) implies v.contains(x) by { assert(a.contains(x)); }
        assert forall|j: int| 0 <= j < b.len() implies #[trigger] b[j] < p.len() by { assert(b.contains(b[j])); assert(a.contains(b[j])); }
        assert(eps2() * (k as real) == eps2() * ((k - 1) as real) + eps2()) by(nonlinear_arith);
    } else { assert(tris(t, 0) =~= Seq::empty()); assert(eps2() * 0real == 0real) by(nonlinear_arith); }
}
proof fn lemma_step_in(p: Pts, v: Seq<usize>, l: Seq<usize>, i: int, d: Seq<usize>, w: Seq<usize>, m: Seq<usize>) requires step(p, v, l, i, d, w, m), v.len() <= usize::MAX / 16, idx_ok(p, v), p.len() <= u32::MAX
    ensures 0 <= i < v.len(), v.contains(v[i]), v.contains(nb(v, i, -1)), v.contains(nb(v, i, 1)), nb(v, i, -1) < p.len(), nb(v, i, 1) < p.len(), v[i] < p.len()
{ reveal(step); lemma_nbx(v, i); lemma_nb(v.len() as int, i); let n = v.len() as int; assert(v[i] < p.len()); assert(v[(n + i - 1) % n] < p.len()); assert(v[(n + i + 1) % n] < p.len()); }
/// The whole triangulation of a ring v: triangles only use given vertices and every clipped one turns left; when clipping comes to its end and
/// no neighbour of a clipped corner had to leave, there are n - 2 triangles and their areas add up to the area of the polygon, exactly; with at
/// most one straightened neighbour per clip they do up to the tolerance.
pub proof fn thm_triangles(p: Pts, t: Trace, v: Seq<usize>, l: Seq<usize>, r: Seq<u32>)
    requires clipping(p, t, v, l, r), idx_ok(p, v), v.len() <= usize::MAX / 16, p.len() <= u32::MAX
    ensures r.len() % 3 == 0, r.len() <= 3 * v.len(), forall|j: int| 0 <= j < r.len() ==> v.contains(#[trigger] r[j] as usize),
        forall|j: int| 0 <= j < t.cuts.len() ==> #[trigger] tarea(p, r, j) > 0real,
        t.rings.last().len() == 3 && lone(t) ==> r.len() == 3 * (v.len() - 2) && rsum(p, r, r.len() as int / 3) == area2(p, v),
        t.rings.last().len() == 3 && slim(t) ==> rabs(rsum(p, r, r.len() as int / 3) - area2(p, v)) <= eps2() * (t.cuts.len() as real),
{
    let k = t.cuts.len() as int; lemma_clip_chain(p, t, v, l, k); let (s, w) = (tris(t, k), t.rings.last()); assert(t.rings[k] == w);
    lemma_rsum(p, s, r, k);
    if w.len() == 3 {
        assert(r[3 * k] == w[0] as u32 && r[3 * k + 1] == w[1] as u32 && r[3 * k + 2] == w[2] as u32);
        assert(w.contains(w[0]) && w.contains(w[1]) && w.contains(w[2])); assert(w[0] < p.len() && w[1] < p.len() && w[2] < p.len());
        lemma_turn(p[w[0] as int], p[w[1] as int], p[w[2] as int]); lemma_turn(p[w[0] as int], p[w[2] as int], p[w[0] as int]);
        assert(asum(p, w, 2) == asum(p, w, 1) + crs(p, w, 1, 2)); assert(asum(p, w, 1) == asum(p, w, 0) + crs(p, w, 0, 1)); assert(asum(p, w, 0) == 0real);
        assert(tarea(p, r, k) == area2(p, w)); assert(r.len() == 3 * (k + 1)); assert(rsum(p, r, k + 1) == rsum(p, r, k) + tarea(p, r, k));
    } else { assert(r =~= s); }
    assert forall|j: int| 0 <= j < r.len() implies v.contains(#[trigger] r[j] as usize) by { if j < 3 * k { assert(r[j] == s[j]); } else { } }
    assert forall|j: int| 0 <= j < k implies #[trigger] tarea(p, r, j) > 0real by { assert(tarea(p, s, j) > 0real); assert(r[3 * j] == s[3 * j] && r[3 * j + 1] == s[3 * j + 1] && r[3 * j + 2] == s[3 * j + 2]); }
}
