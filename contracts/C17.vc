//@ include div_strict.rs float.rs points.rs std.rs text.rs svg.rs
//@ set nl=off
//@ raw
pub trait Face { }
pub uninterp spec fn down<T>(c: Box<dyn Curve>) -> Option<T>;
/// which type a curve has is fixed when it is made
pub trait Down { fn downcast_ref<T>(&self) -> (r: Option<&T>); fn is<T>(&self) -> bool; }
impl Down for Box<dyn Curve> {
    #[verifier::external_body]
    fn downcast_ref<T>(&self) -> (r: Option<&T>) ensures r is Some == down::<T>(*self) is Some, r is Some ==> *r->0 == down::<T>(*self)->0 { unimplemented!() }
    #[verifier::external_body]
    fn is<T>(&self) -> (r: bool) ensures r == down::<T>(*self) is Some { unimplemented!() }
}
/// a parametric curve: its evaluator is a function of the parameter
pub trait Curve {
    spec fn at(&self, u: real) -> Point3;
    fn get_point(&self, u: Float) -> (r: Point3) ensures r == self.at(u.v());
}
impl Curve for Box<dyn Curve> {
    open spec fn at(&self, u: real) -> Point3 { (**self).at(u) }
//@ fn Box<dyn~Curve>::get_point as=bare ret=r
//@ raw
}
//@ assume lib_pred.vc
//@ assume lib_sample.vc
//@ struct CurveSegment
//@ struct Polycurve
//@ struct Line
//@ struct Polyline
//@ struct KnotVector
//@ struct BSplineCurve
//@ struct BezierCurve
//@ struct Model generics=F 
//@ fn Line::get_point params=u ret=r
    ensures r == p3(self.origin.x.v() + self.direction.x.v() * u.v(), self.origin.y.v() + self.direction.y.v() * u.v(), self.origin.z.v() + self.direction.z.v() * u.v())
//@ raw
/// the points are the curve points of a division of the segment's range
pub open spec fn sampled<C: Curve + ?Sized>(c: &C, us: Seq<Float>) -> Seq<Point3> { Seq::new(us.len(), |i: int| c.at(us[i].v())) }
pub open spec fn is_sampling<C: Curve>(s: CurveSegment<C>, pts: Seq<Point3>) -> bool { exists|us: Seq<Float>| #[trigger] division(&s.curve, s.parameter_range, s.tolerance, us) && pts =~= sampled(&s.curve, us) && (straight(&s.curve, s.parameter_range) ==> us.len() == 2) }
/// the Bezier pieces of a spline
pub uninterp spec fn pieces(c: BSplineCurve<Point3>) -> Seq<BezierCurve<Point3>>;
//@ fn BSplineCurve<Point3>::to_piecewise_bezier params=self ret=r external
    ensures r@ == pieces(*self), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).control_points@.len() == self.degree + 1
//@ fn CurveSegment<C>::get_points params=self ret=r implgen=<C:~Curve>
    requires self.tolerance.v() > 0real
    ensures is_sampling(*self, r@)
//@ loop 0
    $n0 == $s0@.len(), division(&self.curve, self.parameter_range, self.tolerance, $s0@), straight(&self.curve, self.parameter_range) ==> $s0@.len() == 2,
    $out0@.len() == $i0, forall|k: int| 0 <= k < $i0 ==> #[trigger] $out0@[k] == self.curve.at($s0@[k].v())
//@ raw
/// coordinates in a path, with two decimals
pub open spec fn co(v: real) -> Tok { Tok::Num(v, Fmt::Prec(2)) }
/// `x,y`
pub open spec fn xy(p: Point3) -> Seq<Tok> { seq![co(p.x.v()), Tok::Ch(','), co(p.y.v())] }
pub open spec fn move_to(p: Point3) -> Seq<Tok> { seq![Tok::Ch('M'), Tok::Ch(' ')] + xy(p) }
pub open spec fn line_to(p: Point3) -> Seq<Tok> { seq![Tok::Ch(' '), Tok::Ch('L'), Tok::Ch(' ')] + xy(p) }
/// ` a b c`: the rest of a cubic
pub open spec fn cubic(a: Point3, b: Point3, c: Point3) -> Seq<Tok> { seq![Tok::Ch(' ')] + xy(a) + seq![Tok::Ch(' ')] + xy(b) + seq![Tok::Ch(' ')] + xy(c) }
pub open spec fn line_pt(l: Line, u: real) -> Point3 { p3(l.origin.x.v() + l.direction.x.v() * u, l.origin.y.v() + l.direction.y.v() * u, l.origin.z.v() + l.direction.z.v() * u) }
/// through the points: a move to the first (when the path starts here), then lines
pub open spec fn through(pts: Seq<Point3>, starts: bool) -> Seq<Tok> decreases pts.len() {
    if pts.len() == 0 { Seq::empty() } else { through(pts.drop_last(), starts) + (if starts && pts.len() == 1 { move_to(pts.last()) } else { line_to(pts.last()) }) }
}
/// a move to the first control point, then one cubic for each piece
pub open spec fn cubics(cs: Seq<BezierCurve<Point3>>) -> Seq<Tok> decreases cs.len() {
    if cs.len() == 0 { Seq::empty() } else {
        let q = cs.last().control_points@;
        cubics(cs.drop_last()) + (if cs.len() == 1 { move_to(q[0]) + seq![Tok::Ch(' '), Tok::Ch('C')] } else { Seq::empty() }) + cubic(q[1], q[2], q[3])
    }
}
/// what a segment adds to the path
pub open spec fn draws(s: CurveSegment<Box<dyn Curve>>, before: Seq<Tok>, after: Seq<Tok>) -> bool {
    if let Some(l) = down::<Line>(s.curve) { after =~= before + move_to(line_pt(l, s.parameter_range.0.v())) + line_to(line_pt(l, s.parameter_range.1.v())) }
    else if let Some(p) = down::<Polyline>(s.curve) { after =~= before + through(p.vertices@, true) }
    else if down::<BSplineCurve<Point3>>(s.curve) is Some && down::<BSplineCurve<Point3>>(s.curve)->0.degree == 3 { after =~= before + cubics(pieces(down::<BSplineCurve<Point3>>(s.curve)->0)) }
    else { draws_samples(s, before, after) }
}
pub open spec fn draws_samples(s: CurveSegment<Box<dyn Curve>>, before: Seq<Tok>, after: Seq<Tok>) -> bool { exists|pts: Seq<Point3>| #[trigger] is_sampling(s, pts) && after =~= before + through(pts, before.len() == 0) }
/// the path of a curve: its segments one after the other
pub open spec fn drawn(segs: Seq<CurveSegment<Box<dyn Curve>>>, data: Seq<Tok>) -> bool decreases segs.len() {
    if segs.len() == 0 { data.len() == 0 } else { exists|before: Seq<Tok>| drawn(segs.drop_last(), before) && #[trigger] draws(segs.last(), before, data) }
}
pub proof fn lemma_step1(s: Seq<CurveSegment<Box<dyn Curve>>>, before: Seq<Tok>, after: Seq<Tok>)
    requires s.len() > 0, drawn(s.drop_last(), before), draws(s.last(), before, after)
    ensures drawn(s, after)
{ }
pub proof fn lemma_step(segs: Seq<CurveSegment<Box<dyn Curve>>>, n: int, before: Seq<Tok>)
    requires 0 <= n < segs.len(), drawn(segs.subrange(0, n), before)
    ensures forall|after: Seq<Tok>| draws(segs[n], before, after) ==> #[trigger] drawn(segs.subrange(0, n + 1), after)
{
    let s = segs.subrange(0, n + 1);
    assert(s.drop_last() =~= segs.subrange(0, n)); assert(s.last() == segs[n]);
    assert forall|after: Seq<Tok>| draws(segs[n], before, after) implies #[trigger] drawn(s, after) by { lemma_step1(s, before, after); }
}
/// an svg path element with the data
pub open spec fn is_path(n: Node, data: Seq<Tok>) -> bool { n.tag == 2 && n.attrs.dom().contains("d"@) && n.attrs["d"@] == SvgVal::Text(data) && n.kids.len() == 0 && !n.attrs.dom().contains("transform"@) }
pub open spec fn has_tokens(v: SvgVal, t: Seq<Tok>) -> bool { v is Text && v->Text_0 =~= t }
/// `{size}mm`
pub open spec fn mm(v: real) -> Seq<Tok> { seq![Tok::Num(v, Fmt::Plain), Tok::Ch('m'), Tok::Ch('m')] }
/// `matrix(1 0 0 -1 0 h)`: (x, y) goes to (x, h - y)
pub open spec fn flip(h: real) -> Seq<Tok> { seq![Tok::Ch('m'), Tok::Ch('a'), Tok::Ch('t'), Tok::Ch('r'), Tok::Ch('i'), Tok::Ch('x'), Tok::Ch('('), Tok::Ch('1'), Tok::Ch(' '), Tok::Ch('0'), Tok::Ch(' '), Tok::Ch('0'), Tok::Ch(' '), Tok::Ch('-'), Tok::Ch('1'), Tok::Ch(' '), Tok::Ch('0'), Tok::Ch(' '), Tok::Num(h, Fmt::Prec(0)), Tok::Ch(')')] }
pub open spec fn is_drawing(n: Node, cs: Seq<Polycurve>) -> bool { n.kids.len() == cs.len() && forall|i: int| 0 <= i < cs.len() ==> #[trigger] shows(n.kids[i], cs[i]) }
pub open spec fn shows(n: Node, c: Polycurve) -> bool { exists|data: Seq<Tok>| #[trigger] is_path(n, data) && drawn(c.segments@, data) }
pub open spec fn is_page(d: Node, cs: Seq<Polycurve>, w: real, h: real) -> bool {
    &&& d.tag == 0 && d.attrs.dom().contains("width"@) && has_tokens(d.attrs["width"@], mm(w)) && d.attrs.dom().contains("height"@) && has_tokens(d.attrs["height"@], mm(h))
    &&& d.attrs.dom().contains("viewBox"@) && d.attrs["viewBox"@] == SvgVal::Box4(0, 0, w, h) && !d.attrs.dom().contains("transform"@)
    &&& d.kids.len() == 1 && d.kids[0].tag == 1 && d.kids[0].attrs.dom().contains("transform"@) && has_tokens(d.kids[0].attrs["transform"@], flip(h))
    &&& is_drawing(d.kids[0], cs)
}
pub proof fn lemma_keys() ensures "width"@.len() == 5, "height"@.len() == 6, "viewBox"@.len() == 7, "transform"@.len() == 9, "d"@.len() == 1, "fill"@.len() == 4, "stroke"@.len() == 6, "stroke"@[0] == 's', "height"@[0] == 'h', "stroke-linecap"@.len() == 14
{ reveal_strlit("width"); reveal_strlit("height"); reveal_strlit("viewBox"); reveal_strlit("transform"); reveal_strlit("d"); reveal_strlit("fill"); reveal_strlit("stroke"); reveal_strlit("stroke-linecap"); }
pub open spec fn seg_ok(s: CurveSegment<Box<dyn Curve>>) -> bool { s.tolerance.v() > 0real }
pub open spec fn curve_ok(c: Polycurve) -> bool { forall|j: int| 0 <= j < c.segments@.len() ==> seg_ok(#[trigger] c.segments@[j]) }
//@ fn Model<F>::save_as_svg params=filename,size ret=r implgen=<F:~Face> generics=P
    requires forall|i: int| 0 <= i < self.curves@.len() ==> curve_ok(#[trigger] self.curves@[i])
    ensures r is Ok ==> exists|d: Node| #[trigger] was_saved(d) && is_page(d, self.curves@, size.0.v(), size.1.v())
//@ ghost start
    proof { lemma_keys(); }
//@ loop 0
    $n0 == $s0@.len(), $s0@ == self.curves@, forall|i: int| 0 <= i < self.curves@.len() ==> curve_ok(#[trigger] self.curves@[i]),
    group.node().kids.len() == $i0, forall|i: int| 0 <= i < $i0 ==> #[trigger] shows(group.node().kids[i], self.curves@[i]),
    group.node().tag == 1, group.node().attrs == attrs0
//@ ghost loop0.before
    let ghost attrs0 = group.node().attrs;
//@ ghost loop0.start
    let ghost mut dd: Seq<Tok> = Seq::empty();
//@ ghost loop0.end
    proof { assert(curve.segments@.subrange(0, curve.segments@.len() as int) =~= curve.segments@); assert(is_path(group.node().kids.last(), dd)); }
//@ loop 0.0
    $n0_0 == $s0_0@.len(), $s0_0@ == curve.segments@, curve_ok(*curve), drawn(curve.segments@.subrange(0, $i0_0 as int), data.toks()),
//@ ghost loop0.0.after
    proof { dd = data.toks(); }
//@ ghost loop0.0.start
    let ghost before = data.toks(); proof { lemma_step(curve.segments@, $j0_0 as int, before); }
//@ loop 0.0.0
    $n0_0_0 == $s0_0_0@.len(), data.toks() =~= before + through($s0_0_0@.subrange(0, $i0_0_0 as int), true),
//@ loop 0.0.1
    $n0_0_1 == $s0_0_1@.len(), data.toks() =~= before + cubics($s0_0_1@.subrange(0, $i0_0_1 as int)), forall|i: int| 0 <= i < $n0_0_1 ==> (#[trigger] $s0_0_1@[i]).control_points@.len() == 4,
//@ loop 0.0.2
    $n0_0_2 == $s0_0_2@.len(), data.toks() =~= before + through($s0_0_2@.subrange(0, $i0_0_2 as int), before.len() == 0),
//@ ghost loop0.0.0.start
    proof { assert($s0_0_0@.subrange(0, $j0_0_0 + 1).drop_last() =~= $s0_0_0@.subrange(0, $j0_0_0 as int)); }
//@ ghost loop0.0.0.after
    proof { assert($s0_0_0@.subrange(0, $n0_0_0 as int) =~= $s0_0_0@); }
//@ ghost loop0.0.1.start
    proof { assert($s0_0_1@.subrange(0, $j0_0_1 + 1).drop_last() =~= $s0_0_1@.subrange(0, $j0_0_1 as int)); }
//@ ghost loop0.0.1.after
    proof { assert($s0_0_1@.subrange(0, $n0_0_1 as int) =~= $s0_0_1@); }
//@ ghost loop0.0.2.start
    proof { assert($s0_0_2@.subrange(0, $j0_0_2 + 1).drop_last() =~= $s0_0_2@.subrange(0, $j0_0_2 as int)); }
//@ ghost loop0.0.2.after
    proof { assert($s0_0_2@.subrange(0, $n0_0_2 as int) =~= $s0_0_2@); }
