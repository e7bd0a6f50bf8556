//@ include div_strict.rs float.rs points.rs std.rs deque.rs
//@ set nl=off
//@ assume lib_pred.vc
//@ assume C07.vc
//@ assume lib_dist.vc
//@ assume lib_ring.vc
//@ assume C12.vc
//@ assume C13.vc
//@ struct TriangleMesh
//@ struct Plane
//@ raw
pub open spec fn pdot(q: Point3, o: Point3, a: Vec3) -> real { (q.x.v() - o.x.v()) * a.x.v() + (q.y.v() - o.y.v()) * a.y.v() + (q.z.v() - o.z.v()) * a.z.v() }
//@ fn Plane::project params=point ret=r
    ensures r.x.v() == pdot(point, self.origin, self.u_axis), r.y.v() == pdot(point, self.origin, self.v_axis)
//@ fn TriangleMesh::new ret=r
    ensures r.vertices@.len() == 0, r.normals@.len() == 0, r.triangles@.len() == 0
//@ raw
/// a polygon some sampling of the loop gives (C07)
pub open spec fn outline(b: EdgeLoop, p: Seq<Point3>) -> bool { (exists|parts: Seq<Seq<Point3>>| #[trigger] samplings(b.edges@, parts) && p =~= opened(dd(joined(parts)))) && cyclic_distinct(p) }
pub open spec fn outlines(bs: Seq<EdgeLoop>, ps: Seq<Seq<Point3>>) -> bool { ps.len() <= bs.len() && forall|i: int| 0 <= i < ps.len() ==> outline(bs[i], #[trigger] ps[i]) }
/// where the outlines that are not empty begin, and the end of the last
pub open spec fn starts(ps: Seq<Seq<Point3>>) -> Seq<usize> decreases ps.len() { if ps.len() == 0 { seq![0usize] } else { let s = starts(ps.drop_last()); if ps.last().len() > 0 { s.push(joined(ps).len() as usize) } else { s } } }
/// the points in the coordinates of the plane
pub open spec fn flatp(pl: Plane, q: Point3) -> Point2 { p2(pdot(q, pl.origin, pl.u_axis), pdot(q, pl.origin, pl.v_axis)) }
pub open spec fn flats(pl: Plane, vs: Seq<Point3>) -> Pts { Seq::new(vs.len(), |i: int| flatp(pl, vs[i])) }
pub open spec fn sum3(vs: Seq<Point3>, k: int) -> Point3 decreases k { if k <= 0 { p3(0real, 0real, 0real) } else { let s = sum3(vs, k - 1); p3(s.x.v() + vs[k - 1].x.v(), s.y.v() + vs[k - 1].y.v(), s.z.v() + vs[k - 1].z.v()) } }
pub open spec fn centroid(vs: Seq<Point3>, c: Point3) -> bool { let (s, n) = (sum3(vs, vs.len() as int), vs.len() as real); c.x.v() * n == s.x.v() && c.y.v() * n == s.y.v() && c.z.v() * n == s.z.v() }
/// one triangle per edge of the outline, all with the centre (index n)
pub open spec fn spoke(n: int, i: int) -> Seq<u32> { seq![n as u32, i as u32, (if i + 1 < n { i + 1 } else { 0 }) as u32] }
pub open spec fn fan(n: int, k: int) -> Seq<u32> decreases k { if k <= 0 { Seq::empty() } else { fan(n, k - 1) + spoke(n, k - 1) } }
pub open spec fn corners(p: Pts) -> Seq<usize> { keepf(ids(p.len() as int), turns(p, ids(p.len() as int)), p.len() as int) }
pub open spec fn reflex(p: Pts) -> Seq<usize> { keepf(ids(p.len() as int), rights(p, ids(p.len() as int)), p.len() as int) }
pub open spec fn empty_mesh(m: TriangleMesh) -> bool { m.vertices@.len() == 0 && m.triangles@.len() == 0 && m.normals@.len() == 0 }
pub open spec fn fan_mesh(vs: Seq<Point3>, m: TriangleMesh) -> bool { m.vertices@.len() == vs.len() + 1 && m.vertices@.drop_last() == vs && centroid(vs, m.vertices@.last()) && m.triangles@ == fan(vs.len() as int, vs.len() as int) }
/// the mesh over the outline points vs by clipping ears off the ring v with the reflex corners l
pub open spec fn clip_mesh(p: Pts, vs: Seq<Point3>, v: Seq<usize>, l: Seq<usize>, m: TriangleMesh) -> bool { m.vertices@ == vs && clips(p, v, l, m.triangles@) }
/// one outline: nothing when every corner turns right, a fan when none does, ears otherwise
pub open spec fn one_mesh(p: Pts, vs: Seq<Point3>, m: TriangleMesh) -> bool {
    if corners(p).len() == reflex(p).len() { empty_mesh(m) } else if reflex(p).len() == 0 { fan_mesh(vs, m) } else { clip_mesh(p, vs, corners(p), reflex(p), m) }
}
pub open spec fn is_merge(p: Pts, s: Seq<usize>, ring: Seq<usize>) -> bool { exists|l: Seq<Info>, t: Seq<Info>, ks: Seq<int>| #[trigger] merged(p, s, l, t, ks, ring) }
pub open spec fn ring_mesh(p: Pts, vs: Seq<Point3>, ring: Seq<usize>, l: Seq<usize>, m: TriangleMesh) -> bool {
    sorted(l) && l.to_multiset() == keepf(ring, rights(p, ring), ring.len() as int).to_multiset() && clip_mesh(p, vs, keepf(ring, turns(p, ring), ring.len() as int), l, m)
}
/// several outlines: the one ring that joins them, clipped
pub open spec fn holes_mesh(p: Pts, vs: Seq<Point3>, s: Seq<usize>, m: TriangleMesh) -> bool { exists|ring: Seq<usize>, l: Seq<usize>| #![trigger is_merge(p, s, ring), l.to_multiset()] is_merge(p, s, ring) && ring_mesh(p, vs, ring, l, m) }
pub open spec fn planar(pl: Plane, ps: Seq<Seq<Point3>>, m: TriangleMesh) -> bool {
    let (vs, s) = (joined(ps), starts(ps)); let p = flats(pl, vs);
    m.normals@.len() == 0 && if s.len() == 2 { one_mesh(p, vs, m) } else if s.len() > 2 { holes_mesh(p, vs, s, m) } else { empty_mesh(m) }
}
/// sizes within the index type, coordinates within the number type
pub open spec fn sizes_ok(pl: Plane, bs: Seq<EdgeLoop>) -> bool {
    bs.len() <= usize::MAX / 16 && forall|ps: Seq<Seq<Point3>>| #[trigger] outlines(bs, ps) ==> joined(ps).len() < u32::MAX && joined(ps).len() <= usize::MAX / 16 && (joined(ps).len() + 2) * bs.len() <= usize::MAX / 16 && coords_ok(flats(pl, joined(ps)))
}
proof fn lemma_starts(ps: Seq<Seq<Point3>>)
    requires joined(ps).len() <= usize::MAX
    ensures ({ let s = starts(ps); 1 <= s.len() <= ps.len() + 1 && s[0] == 0 && s.last() == joined(ps).len() && forall|j: int| 0 <= j < s.len() - 1 ==> s[j] < #[trigger] s[j + 1] })
    decreases ps.len()
{
    if ps.len() > 0 {
        let q = ps.drop_last(); assert(joined(ps) == joined(q) + ps.last()); lemma_starts(q); let (s, r) = (starts(ps), starts(q));
        if ps.last().len() > 0 { assert forall|j: int| 0 <= j < s.len() - 1 implies s[j] < #[trigger] s[j + 1] by { if j < r.len() - 1 { assert(r[j] < r[j + 1]); } else { assert(s[j] == r.last()); } } }
    }
}
proof fn lemma_keep_in(v: Seq<usize>, f: spec_fn(int) -> bool, k: int, n: int) requires 0 <= k <= v.len(), forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i] < n
    ensures keepf(v, f, k).len() <= k, forall|i: int| 0 <= i < keepf(v, f, k).len() ==> #[trigger] keepf(v, f, k)[i] < n decreases k
{ if k > 0 { lemma_keep_in(v, f, k - 1, n); } }
proof fn lemma_same_in(g: Seq<usize>, d: Seq<usize>, n: int) requires g.to_multiset() == d.to_multiset(), forall|i: int| 0 <= i < g.len() ==> #[trigger] g[i] < n ensures forall|i: int| 0 <= i < d.len() ==> #[trigger] d[i] < n
{ lemma_members(g, d); assert forall|i: int| 0 <= i < d.len() implies #[trigger] d[i] < n by { assert(g.contains(d[i])); } }
proof fn lemma_ring_len(p: Pts, t: Seq<Info>, ks: Seq<int>, i: int)
    requires 0 <= i < t.len(), i <= ks.len(), forall|j: int| 0 <= j < t.len() ==> info_ok(p, #[trigger] t[j]), forall|j: int| 0 <= j < ks.len() ==> #[trigger] bridge_ok(p, t, ks, j), p.len() <= usize::MAX
    ensures ring_after(t, ks, i).len() <= (i + 1) * (p.len() + 2), valid(p, ring_after(t, ks, i))
    decreases i
{
    if i > 0 {
        lemma_ring_len(p, t, ks, i - 1); let h = hole(t, i - 1); let (o, k) = (ring_after(t, ks, i - 1), ks[i - 1]); assert(bridge_ok(p, t, ks, i - 1)); assert(info_ok(p, h)); assert(0 <= k < o.len());
        let r = splice(o, k, h.0 as int, h.1 as int, h.2 as int); assert(r == ring_after(t, ks, i));
        let (a, b, c) = (o.take(k + 1), range(h.2 as int, h.1 as int), range(h.0 as int, h.2 + 1));
        assert(r.len() == o.len() + 1 + (h.1 - h.2) + (h.2 + 1 - h.0));
        assert forall|j: int| 0 <= j < r.len() implies #[trigger] r[j] < p.len() by {
            if j < k + 1 { assert(r[j] == o[j]); } else if j < k + 1 + b.len() { assert(r[j] == b[j - (k + 1)]); } else if j < k + 1 + b.len() + c.len() { assert(r[j] == c[j - (k + 1) - b.len()]); } else { assert(r[j] == o.skip(k)[j - (k + 1) - b.len() - c.len()]); }
        }
        assert((i + 1) * (p.len() + 2) == i * (p.len() + 2) + (p.len() + 2)) by(nonlinear_arith);
    } else { let h = t.last(); assert(info_ok(p, t[t.len() - 1])); }
}
proof fn lemma_infos(p: Pts, s: Seq<usize>, l: Seq<Info>, t: Seq<Info>, ks: Seq<int>, r: Seq<usize>, j: int) requires merged(p, s, l, t, ks, r), 0 <= j < t.len() ensures info_ok(p, t[j])
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(t.contains(t[j])); assert(t.to_multiset().count(t[j]) > 0); assert(l.contains(t[j])); let i = choose|i: int| 0 <= i < l.len() && l[i] == t[j]; assert(loop_ok(p, s, l, i));
}
proof fn lemma_merge_len(p: Pts, s: Seq<usize>, r: Seq<usize>, n: int)
    requires is_merge(p, s, r), s.len() >= 2, s.len() - 1 <= n, (p.len() + 2) * n <= usize::MAX / 16, p.len() <= usize::MAX
    ensures r.len() <= usize::MAX / 16, valid(p, r)
{
    let (l, t, ks) = choose|l: Seq<Info>, t: Seq<Info>, ks: Seq<int>| #[trigger] merged(p, s, l, t, ks, r);
    assert forall|j: int| 0 <= j < t.len() implies info_ok(p, #[trigger] t[j]) by { lemma_infos(p, s, l, t, ks, r, j); }
    lemma_ring_len(p, t, ks, t.len() - 1); let m = t.len() as int; assert(m <= n);
    assert(m * (p.len() + 2) <= (p.len() + 2) * n) by(nonlinear_arith) requires m <= n, p.len() >= 0;
}
proof fn lemma_fan_len(n: int, k: int) requires 0 <= k ensures fan(n, k).len() == 3 * k decreases k { if k > 0 { lemma_fan_len(n, k - 1); } }
proof fn lemma_room(pl: Plane, bs: Seq<EdgeLoop>, ps: Seq<Seq<Point3>>)
    requires sizes_ok(pl, bs), outlines(bs, ps), ps.len() < bs.len()
    ensures forall|p: Seq<Point3>| #[trigger] cyclic_distinct(p) && outline(bs[ps.len() as int], p) ==> joined(ps).len() + p.len() < u32::MAX && joined(ps).len() + p.len() <= usize::MAX / 16
{
    assert forall|p: Seq<Point3>| #[trigger] cyclic_distinct(p) && outline(bs[ps.len() as int], p) implies joined(ps).len() + p.len() < u32::MAX && joined(ps).len() + p.len() <= usize::MAX / 16 by { let q = ps.push(p); assert(q.drop_last() =~= ps); assert(outlines(bs, q)); assert(joined(q) == joined(ps) + p); }
}
/// what the calls need of the merged ring and of its reflex corners
proof fn lemma_calls(p: Pts, s: Seq<usize>, n: int)
    requires s.len() >= 2, s.len() - 1 <= n, (p.len() + 2) * n <= usize::MAX / 16, p.len() <= usize::MAX
    ensures forall|l: Seq<Info>, t: Seq<Info>, ks: Seq<int>, r: Seq<usize>| #[trigger] merged(p, s, l, t, ks, r) ==> is_merge(p, s, r) && r.len() <= usize::MAX / 16 && idx_ok(p, r)
        && keepf(r, turns(p, r), r.len() as int).len() <= r.len() && idx_ok(p, keepf(r, turns(p, r), r.len() as int)) && idx_ok(p, keepf(r, rights(p, r), r.len() as int)),
        forall|g: Seq<usize>, d: Seq<usize>| #![trigger idx_ok(p, g), d.to_multiset()] idx_ok(p, g) && g.to_multiset() == d.to_multiset() ==> idx_ok(p, d)
{
    assert forall|l: Seq<Info>, t: Seq<Info>, ks: Seq<int>, r: Seq<usize>| #[trigger] merged(p, s, l, t, ks, r) implies is_merge(p, s, r) && r.len() <= usize::MAX / 16 && idx_ok(p, r)
        && keepf(r, turns(p, r), r.len() as int).len() <= r.len() && idx_ok(p, keepf(r, turns(p, r), r.len() as int)) && idx_ok(p, keepf(r, rights(p, r), r.len() as int)) by
    { lemma_merge_len(p, s, r, n); lemma_keep_in(r, turns(p, r), r.len() as int, p.len() as int); lemma_keep_in(r, rights(p, r), r.len() as int, p.len() as int); }
    assert forall|g: Seq<usize>, d: Seq<usize>| #![trigger idx_ok(p, g), d.to_multiset()] idx_ok(p, g) && g.to_multiset() == d.to_multiset() implies idx_ok(p, d) by { lemma_same_in(g, d, p.len() as int); }
}
proof fn lemma_div3(s: Point3, n: real, c: Point3) requires n != 0real, c.x.v() == s.x.v() / n, c.y.v() == s.y.v() / n, c.z.v() == s.z.v() / n ensures c.x.v() * n == s.x.v(), c.y.v() * n == s.y.v(), c.z.v() * n == s.z.v()
{ lemma_div1(s.x.v(), n); lemma_div1(s.y.v(), n); lemma_div1(s.z.v(), n); }
proof fn lemma_div1(x: real, n: real) requires n != 0real ensures (x / n) * n == x { assert((x / n) * n == x) by(nonlinear_arith) requires n != 0real; }
//@ fn Plane::trim ret=r
    requires sizes_ok(*self, bounds@), forall|i: int, j: int| 0 <= i < bounds@.len() && 0 <= j < bounds@[i].edges@.len() ==> (#[trigger] bounds@[i].edges@[j]).tolerance.v() > 0real,
    ensures exists|ps: Seq<Seq<Point3>>| ps.len() == bounds@.len() && #[trigger] outlines(bounds@, ps) && planar(*self, ps, r)
//@ ghost start
    hide(clips); hide(merged); hide(keepf); hide(coords_ok); hide(dd); hide(opened); hide(samplings); hide(cyclic_distinct);
    let ghost mut ps: Seq<Seq<Point3>> = Seq::empty(); let ghost pl = *self; let ghost mut vs: Seq<Point3> = Seq::empty();
    assert(joined(ps) =~= Seq::empty()); assert(outlines(bounds@, ps));
//@ loop 0
    $n0 == bounds@.len(), ps.len() == $i0, outlines(bounds@, ps), sizes_ok(pl, bounds@), $out0@ == joined(ps), end == joined(ps).len(), polygons@ == starts(ps),
    forall|i: int, j: int| 0 <= i < bounds@.len() && 0 <= j < bounds@[i].edges@.len() ==> (#[trigger] bounds@[i].edges@[j]).tolerance.v() > 0real,
//@ ghost loop0.start
    let ghost ps0 = ps;
    proof { lemma_room(pl, bounds@, ps0); }
//@ loop 0.0
    $n0_0 == $s0_0@.len(), $out0@ =~= joined(ps0) + $s0_0@.subrange(0, $i0_0 as int),
//@ ghost loop0.0.before
    proof { assert(outline(bounds@[$j0 as int], polygon@)); ps = ps0.push(polygon@); assert(ps.drop_last() =~= ps0); }
//@ ghost loop0.end
    proof { assert($s0_0@.subrange(0, $n0_0 as int) =~= $s0_0@); }
//@ loop 1
    $s1@ == vs, forall|k: int| 0 <= k < $i1 ==> #[trigger] $out1@[k] == flatp(pl, vs[k]), pl == *self,
//@ ghost loop1.before
    proof { vs = vertices@; }
//@ ghost loop1.after
    proof { assert($out1@ =~= flats(pl, vs)); lemma_starts(ps); if starts(ps).len() >= 2 { lemma_calls(flats(pl, vs), starts(ps), bounds@.len() as int); } lemma_keep_ids(vs.len() as int, turns(flats(pl, vs), ids(vs.len() as int)), vs.len() as int); lemma_keep_ids(vs.len() as int, rights(flats(pl, vs), ids(vs.len() as int)), vs.len() as int);
        lemma_keep_in(ids(vs.len() as int), turns(flats(pl, vs), ids(vs.len() as int)), vs.len() as int, vs.len() as int); }
//@ loop 2
    $n2 == vs.len(), $s2@ == vs, $acc2 == sum3(vs, $i2 as int),
//@ loop 3
    $b3 == 0, $e3 == vs.len() - 1, n == vs.len(), 1 <= n < u32::MAX, triangles@ =~= fan(n as int, $i3 as int),
//@ ghost return
    proof {
        let p = flats(pl, vs); let n = vs.len() as int;
        assert(points@ == p); assert(vs == joined(ps));
        if polygons@.len() == 2 && corners(p).len() != reflex(p).len() && reflex(p).len() == 0 {
            assert(fan(n, n) == fan(n, n - 1) + spoke(n, n - 1)); assert(__ret.vertices@.drop_last() =~= vs); assert(__ret.triangles@ =~= fan(n, n)); lemma_div3(sum3(vs, n), n as real, __ret.vertices@.last()); assert(centroid(vs, __ret.vertices@.last()));
        }
        if polygons@.len() == 2 { if corners(p).len() == reflex(p).len() { assert(empty_mesh(__ret)); } else if reflex(p).len() != 0 { assert(clip_mesh(p, vs, corners(p), reflex(p), __ret)); } assert(one_mesh(p, vs, __ret)); }
        if polygons@.len() > 2 { assert(holes_mesh(p, vs, polygons@, __ret)); }
        assert(planar(pl, ps, __ret));
    }
//@ raw
proof fn lemma_fan_at(n: int, k: int, i: int) requires 0 <= i < k ensures fan(n, k).len() == 3 * k, fan(n, k)[3 * i] == spoke(n, i)[0], fan(n, k)[3 * i + 1] == spoke(n, i)[1], fan(n, k)[3 * i + 2] == spoke(n, i)[2] decreases k
{ lemma_fan_len(n, k); lemma_fan_len(n, k - 1); if i < k - 1 { lemma_fan_at(n, k - 1, i); } }
proof fn lemma_fan_max(n: int, k: int, j: int) requires 0 <= j < 3 * k, k <= n < u32::MAX ensures j < fan(n, k).len(), fan(n, k)[j] <= n decreases k
{ lemma_fan_len(n, k); lemma_fan_len(n, k - 1); if j < 3 * (k - 1) { lemma_fan_max(n, k - 1, j); } }
proof fn lemma_clips(p: Pts, v: Seq<usize>, l: Seq<usize>, r: Seq<u32>) requires clips(p, v, l, r), idx_ok(p, v), v.len() <= usize::MAX / 16, p.len() <= u32::MAX
    ensures r.len() % 3 == 0, forall|j: int| 0 <= j < r.len() ==> #[trigger] r[j] < p.len()
{
    let t = choose|t: Trace| clipping(p, t, v, l, r); thm_triangles(p, t, v, l, r);
    assert forall|j: int| 0 <= j < r.len() implies #[trigger] r[j] < p.len() by { assert(v.contains(r[j] as usize)); }
}
/// The mesh of a trimmed plane holds the outline points, in order, and whole triangles with valid indices.
pub proof fn theorem_indices(pl: Plane, ps: Seq<Seq<Point3>>, m: TriangleMesh)
    requires planar(pl, ps, m), joined(ps).len() < u32::MAX, joined(ps).len() <= usize::MAX / 16, (joined(ps).len() + 2) * (starts(ps).len() - 1) <= usize::MAX / 16
    ensures m.triangles@.len() % 3 == 0, forall|j: int| 0 <= j < m.triangles@.len() ==> #[trigger] m.triangles@[j] < m.vertices@.len(),
        m.vertices@.len() > 0 ==> m.vertices@.len() >= joined(ps).len() && m.vertices@.take(joined(ps).len() as int) == joined(ps),
        starts(ps).len() > 2 ==> m.vertices@ == joined(ps),
{
    hide(keepf); hide(clips); hide(merged);
    let (vs, s) = (joined(ps), starts(ps)); let p = flats(pl, vs); let n = vs.len() as int; lemma_starts(ps); let r = m.triangles@;
    assert(vs.take(n) =~= vs);
    if s.len() == 2 {
        lemma_keep_in(ids(n), turns(p, ids(n)), n, n);
        if corners(p).len() == reflex(p).len() { }
        else if reflex(p).len() == 0 { lemma_fan_len(n, n); assert(m.vertices@.take(n) =~= m.vertices@.drop_last()); assert forall|j: int| 0 <= j < r.len() implies #[trigger] r[j] < m.vertices@.len() by { lemma_fan_max(n, n, j); } }
        else { lemma_clips(p, corners(p), reflex(p), r); }
    } else if s.len() > 2 {
        let (ring, l) = choose|ring: Seq<usize>, l: Seq<usize>| #![trigger is_merge(p, s, ring), l.to_multiset()] is_merge(p, s, ring) && ring_mesh(p, vs, ring, l, m);
        lemma_merge_len(p, s, ring, s.len() - 1); lemma_keep_in(ring, turns(p, ring), ring.len() as int, n);
        lemma_clips(p, keepf(ring, turns(p, ring), ring.len() as int), l, r);
    }
}
proof fn lemma_fan_area(p: Pts, c: Point2, k: int) requires 0 < p.len() < u32::MAX, p.len() <= usize::MAX, 0 <= k <= p.len()
    ensures ({ let n = p.len() as int; let z = p[if k < n { k } else { 0 }]; rsum(p.push(c), fan(n, n), k) == cr(c, p[0]) - cr(c, z) + (if k < n { asum(p, ids(n), k) } else { area2(p, ids(n)) }) })
    decreases k
{
    let n = p.len() as int; let f = fan(n, n); let q = p.push(c);
    if k > 0 {
        lemma_fan_area(p, c, k - 1); lemma_fan_at(n, n, k - 1); let z = p[if k < n { k } else { 0 }];
        assert(tarea(q, f, k - 1) == turn(c, p[k - 1], z)); lemma_turn(c, p[k - 1], z); lemma_cr(z, c);
    }
}
proof fn lemma_cr(a: Point2, b: Point2) ensures cr(a, b) == -cr(b, a) { let (x, y, u, v) = (a.x.v(), a.y.v(), b.x.v(), b.y.v()); assert(x * v == v * x && y * u == u * y) by(nonlinear_arith); }
/// The fan around any centre has the area of the outline, exactly.
pub proof fn theorem_fan_area(p: Pts, c: Point2) requires 0 < p.len() < u32::MAX, p.len() <= usize::MAX
    ensures rsum(p.push(c), fan(p.len() as int, p.len() as int), p.len() as int) == area2(p, ids(p.len() as int))
{ lemma_fan_area(p, c, p.len() as int); }
