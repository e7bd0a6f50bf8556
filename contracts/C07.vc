//@ include div_strict.rs float.rs points.rs std.rs
//@ set nl=off
//@ raw
/// a parametric curve: its evaluator is a function of the parameter
pub trait Curve {
    spec fn at(&self, u: real) -> Point3;
    fn get_point(&self, u: Float) -> (r: Point3) ensures r == self.at(u.v());
}
impl Curve for Box<dyn Curve> {
    open spec fn at(&self, u: real) -> Point3 { (**self).at(u) }
//@ fn Box<dyn~Curve>::get_point as=bare ret=r
//@ raw
}
//@ assume lib_pred.vc
//@ use lib_sample.vc
//@ assume lib_dist.vc
//@ raw
pub open spec fn sampled<C: Curve + ?Sized>(c: &C, us: Seq<Float>) -> Seq<Point3> { Seq::new(us.len(), |i: int| c.at(us[i].v())) }
/// the points are the curve points of a division of the segment's range
pub open spec fn is_sampling<C: Curve>(s: CurveSegment<C>, pts: Seq<Point3>) -> bool { exists|us: Seq<Float>| #[trigger] division(&s.curve, s.parameter_range, s.tolerance, us) && pts =~= sampled(&s.curve, us) && (straight(&s.curve, s.parameter_range) ==> us.len() == 2) }
pub open spec fn same_pt(a: Point3, b: Point3) -> bool { near_r(dist2_3(a, b), 0real) }
/// the list without points that coincide with the one kept before them
pub open spec fn dd(s: Seq<Point3>) -> Seq<Point3> decreases s.len() {
    if s.len() == 0 { s } else { let d = dd(s.drop_last()); if d.len() > 0 && same_pt(s.last(), d.last()) { d } else { d.push(s.last()) } }
}
/// the list without the points at its end that coincide with its first
pub open spec fn opened(s: Seq<Point3>) -> Seq<Point3> decreases s.len() {
    if s.len() > 0 && same_pt(s[0], s.last()) { opened(s.drop_last()) } else { s }
}
pub open spec fn joined(parts: Seq<Seq<Point3>>) -> Seq<Point3> decreases parts.len() { if parts.len() == 0 { Seq::empty() } else { joined(parts.drop_last()) + parts.last() } }
pub open spec fn samplings(edges: Seq<CurveSegment<Box<dyn Curve>>>, parts: Seq<Seq<Point3>>) -> bool { parts.len() == edges.len() && forall|i: int| 0 <= i < edges.len() ==> is_sampling(edges[i], #[trigger] parts[i]) }
pub open spec fn repeats(s: Seq<Point3>, i: int) -> bool { same_pt(s[i], s[i - 1]) }
pub open spec fn no_repeat(s: Seq<Point3>) -> bool { forall|i: int| 1 <= i < s.len() ==> !#[trigger] repeats(s, i) }
pub open spec fn cyclic_distinct(s: Seq<Point3>) -> bool { no_repeat(s) && (s.len() > 0 ==> !same_pt(s[0], s.last())) }
pub proof fn lemma_dd(s: Seq<Point3>) ensures no_repeat(dd(s)), dd(s).len() <= s.len(), s.len() > 0 ==> dd(s).len() > 0
    decreases s.len()
{
    if s.len() > 0 {
        let d = dd(s.drop_last()); lemma_dd(s.drop_last());
        assert forall|i: int| 1 <= i < dd(s).len() implies !#[trigger] repeats(dd(s), i) by { if i < d.len() { assert(!repeats(d, i)); } }
    }
}
pub proof fn lemma_opened(s: Seq<Point3>) requires no_repeat(s) ensures cyclic_distinct(opened(s)), opened(s) == s.subrange(0, opened(s).len() as int), opened(s).len() <= s.len()
    decreases s.len()
{
    if s.len() > 0 && same_pt(s[0], s.last()) {
        let d = s.drop_last();
        assert forall|i: int| 1 <= i < d.len() implies !#[trigger] repeats(d, i) by { assert(!repeats(s, i)); }
        lemma_opened(d);
        assert(opened(s) =~= s.subrange(0, opened(s).len() as int));
    } else { assert(s =~= s.subrange(0, s.len() as int)); }
}
//@ struct CurveSegment
//@ struct EdgeLoop
//@ fn CurveSegment<C>::get_points params=self ret=r implgen=<C:~Curve>
    requires self.tolerance.v() > 0real
    ensures is_sampling(*self, r@)
//@ loop 0
    $n0 == $s0@.len(), division(&self.curve, self.parameter_range, self.tolerance, $s0@), straight(&self.curve, self.parameter_range) ==> $s0@.len() == 2,
    $out0@.len() == $i0, forall|k: int| 0 <= k < $i0 ==> #[trigger] $out0@[k] == self.curve.at($s0@[k].v())
//@ fn EdgeLoop::to_polygon params=self ret=r
    requires forall|i: int| 0 <= i < self.edges@.len() ==> (#[trigger] self.edges@[i]).tolerance.v() > 0real
    ensures exists|parts: Seq<Seq<Point3>>| #[trigger] samplings(self.edges@, parts) && r@ =~= opened(dd(joined(parts))),
        cyclic_distinct(r@),
//@ ghost start
    let ghost mut parts: Seq<Seq<Point3>> = Seq::empty();
//@ loop 0
    $n0 == self.edges@.len(), parts.len() == $i0, forall|i: int| 0 <= i < $i0 ==> is_sampling(self.edges@[i], #[trigger] parts[i]), vertices@ =~= joined(parts),
    forall|i: int| 0 <= i < self.edges@.len() ==> (#[trigger] self.edges@[i]).tolerance.v() > 0real,
//@ loop 0.0
    $n0_0 == $s0_0@.len(), vertices@ =~= joined(parts) + $s0_0@.subrange(0, $i0_0 as int),
//@ ghost loop0.0.after
    proof { let ghost old_parts = parts; parts = parts.push($s0_0@); assert(parts.drop_last() =~= old_parts); assert(is_sampling(self.edges@[$j0 as int], $s0_0@)); }
//@ loop 1
    $n1 == vertices@.len(), __dd@ =~= dd(vertices@.subrange(0, $i1 as int)),
//@ ghost loop1.start
    proof { assert(vertices@.subrange(0, $j1 + 1).drop_last() =~= vertices@.subrange(0, $j1 as int)); }
//@ ghost loop0.after
    let ghost all = vertices@; proof { assert(samplings(self.edges@, parts)); }
//@ ghost loop1.after
    proof { assert(vertices@.subrange(0, $n1 as int) =~= vertices@); lemma_dd(vertices@); lemma_opened(dd(vertices@)); }
//@ ghost loop2.before
    let ghost d0 = vertices@;
//@ loop 2
    opened(vertices@) =~= opened(d0), 
    decreases vertices@.len()
//@ ghost loop2.start
    let ghost v0 = vertices@;
//@ ghost loop2.end
    proof { assert(vertices@ =~= v0.drop_last()); }
