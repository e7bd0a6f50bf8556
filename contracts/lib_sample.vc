//@ raw
pub open spec fn rat(range: (Float, Float), t: real) -> real { range.0.v() + (range.1.v() - range.0.v()) * t }
pub open spec fn lerp3(a: Point3, b: Point3, t: real) -> Point3 { p3(a.x.v() + (b.x.v() - a.x.v()) * t, a.y.v() + (b.y.v() - a.y.v()) * t, a.z.v() + (b.z.v() - a.z.v()) * t) }
/// the curve passes within the tolerance of the chord at a probe in the middle fifth of the piece
pub open spec fn flat_at<C: Curve + ?Sized>(c: &C, a: Float, b: Float, tol: Float, p: real) -> bool { rsqrt(dist2_3(c.at(rat((a, b), p)), lerp3(c.at(a.v()), c.at(b.v()), p))) < tol.v() }
pub open spec fn flat<C: Curve + ?Sized>(c: &C, a: Float, b: Float, tol: Float) -> bool { exists|p: real| 2real / 5real <= p <= 3real / 5real && #[trigger] flat_at(c, a, b, tol, p) }
/// the curve runs along the chord at constant speed
#[verifier::opaque]
pub open spec fn straight<C: Curve + ?Sized>(c: &C, range: (Float, Float)) -> bool { forall|t: real| 0real <= t <= 1real ==> c.at(#[trigger] rat(range, t)) == lerp3(c.at(range.0.v()), c.at(range.1.v()), t) }
/// x comes strictly before y when going from a to b
pub open spec fn strictly(x: Float, y: Float, a: Float, b: Float) -> bool { if a.v() < b.v() { x.v() < y.v() } else if a.v() > b.v() { x.v() > y.v() } else { x.v() == y.v() } }
/// parameters of a sampling: from one end of the range to the other, both exactly, strictly monotone, every piece flat
#[verifier::opaque]
pub open spec fn division<C: Curve + ?Sized>(c: &C, range: (Float, Float), tol: Float, us: Seq<Float>) -> bool {
    &&& us.len() >= 2 && us[0] == range.0 && us[us.len() - 1] == range.1
    &&& forall|i: int| 0 <= i < us.len() - 1 ==> strictly(#[trigger] us[i], us[i + 1], range.0, range.1)
    &&& forall|i: int| 0 <= i < us.len() - 1 ==> flat(c, #[trigger] us[i], us[i + 1], tol)
}
pub proof fn lemma_half(a: real, b: real) ensures a < b ==> a < (a + b) / 2real < b, a > b ==> a > (a + b) / 2real > b, a == b ==> (a + b) / 2real == a { }
pub proof fn lemma_zero(x: real, p: real) ensures x + (x - x) * p == x { assert(0real * p == 0real); assert(x - x == 0real); }
/// an empty range has coincident ends and is flat
pub proof fn lemma_empty<C: Curve + ?Sized>(c: &C, range: (Float, Float), p: real)
    requires range.0.v() == range.1.v()
    ensures lerp3(c.at(range.0.v()), c.at(range.1.v()), p) == c.at(rat(range, p)), rsqrt(dist2_3(c.at(rat(range, p)), c.at(rat(range, p)))) == 0real
{
    let q = c.at(range.0.v()); lemma_zero(range.0.v(), p); lemma_zero(q.x.v(), p); lemma_zero(q.y.v(), p); lemma_zero(q.z.v(), p);
    lemma_sqrt0(q);
}
pub proof fn lemma_sqrt0(q: Point3) ensures rsqrt(dist2_3(q, q)) == 0real
{ assert(0real * 0real == 0real); assert(dist2_3(q, q) == 0real); ax_rsqrt(0real); let r = rsqrt(0real); assert(r == 0real) by(nonlinear_arith) requires r >= 0real, r * r == 0real; }
/// one piece
pub proof fn lemma_two<C: Curve + ?Sized>(c: &C, range: (Float, Float), tol: Float, us: Seq<Float>, p: real)
    requires us.len() == 2, us[0] == range.0, us[1] == range.1, 2real / 5real <= p <= 3real / 5real, rsqrt(dist2_3(c.at(rat(range, p)), lerp3(c.at(range.0.v()), c.at(range.1.v()), p))) < tol.v()
    ensures division(c, range, tol, us)
{ reveal(division); assert(flat_at(c, range.0, range.1, tol, p)); }
/// two divisions joined at the middle parameter
pub proof fn lemma_join<C: Curve + ?Sized>(c: &C, range: (Float, Float), h: Float, tol: Float, first: Seq<Float>, second: Seq<Float>, us: Seq<Float>)
    requires h.v() == (range.0.v() + range.1.v()) / 2real, division(c, (range.0, h), tol, first), division(c, (h, range.1), tol, second), us =~= first.subrange(0, first.len() - 1) + second
    ensures division(c, range, tol, us)
{
    reveal(division); lemma_half(range.0.v(), range.1.v());
    let m = first.len() - 1;
    assert(us[m] == second[0] && second[0] == first[m]);
    assert forall|i: int| 0 <= i < us.len() - 1 implies strictly(#[trigger] us[i], us[i + 1], range.0, range.1) && flat(c, us[i], us[i + 1], tol) by {
        if i < m { assert(us[i] == first[i]); assert(us[i + 1] == first[i + 1]); } else { assert(us[i] == second[i - m]); assert(us[i + 1] == second[i - m + 1]); }
    }
}
/// what the body needs about the end cases, as facts to instantiate
pub proof fn lemma_piece<C: Curve + ?Sized>(c: &C, range: (Float, Float), tol: Float)
    requires tol.v() > 0real
    ensures forall|p: real, us: Seq<Float>| us.len() == 2 && us[0] == range.0 && us[1] == range.1 && 2real / 5real <= p <= 3real / 5real && rsqrt(dist2_3(c.at(#[trigger] rat(range, p)), lerp3(c.at(range.0.v()), c.at(range.1.v()), p))) < tol.v() ==> #[trigger] division(c, range, tol, us),
        forall|p: real| straight(c, range) && 0real <= p <= 1real ==> rsqrt(dist2_3(c.at(#[trigger] rat(range, p)), lerp3(c.at(range.0.v()), c.at(range.1.v()), p))) < tol.v(),
{
    assert forall|p: real, us: Seq<Float>| us.len() == 2 && us[0] == range.0 && us[1] == range.1 && 2real / 5real <= p <= 3real / 5real && rsqrt(dist2_3(c.at(#[trigger] rat(range, p)), lerp3(c.at(range.0.v()), c.at(range.1.v()), p))) < tol.v() implies #[trigger] division(c, range, tol, us) by { lemma_two(c, range, tol, us, p); }
    assert forall|p: real| straight(c, range) && 0real <= p <= 1real implies rsqrt(dist2_3(c.at(#[trigger] rat(range, p)), lerp3(c.at(range.0.v()), c.at(range.1.v()), p))) < tol.v() by { reveal(straight); lemma_sqrt0(c.at(rat(range, p))); }
}
pub proof fn lemma_pieces<C: Curve + ?Sized>(c: &C, range: (Float, Float), tol: Float)
    ensures forall|h: Float, first: Seq<Float>, second: Seq<Float>, us: Seq<Float>| h.v() == (range.0.v() + range.1.v()) / 2real && #[trigger] division(c, (range.0, h), tol, first) && #[trigger] division(c, (h, range.1), tol, second) && us =~= first.subrange(0, first.len() - 1) + second ==> #[trigger] division(c, range, tol, us),
        forall|a: Float, b: Float, us: Seq<Float>| #[trigger] division(c, (a, b), tol, us) ==> us.len() >= 2,
{
    reveal(division);
    assert forall|h: Float, first: Seq<Float>, second: Seq<Float>, us: Seq<Float>| h.v() == (range.0.v() + range.1.v()) / 2real && #[trigger] division(c, (range.0, h), tol, first) && #[trigger] division(c, (h, range.1), tol, second) && us =~= first.subrange(0, first.len() - 1) + second implies #[trigger] division(c, range, tol, us) by { lemma_join(c, range, h, tol, first, second, us); }
}
//@ fn range_at params=range,ratio ret=r
    ensures r.v() == rat(range, ratio.v())
//@ fn parameter_division params=curve,range,tol ret=r generics=C:Curve+?Sized ptype=curve:&C attr=exec_allows_no_decreases_clause
    requires tol.v() > 0real
    ensures division(curve, range, tol, r@), straight(curve, range) ==> r@.len() == 2,
//@ ghost start
    proof { lemma_piece(curve, range, tol); lemma_pieces(curve, range, tol); }
//@ loop 0
    res@ =~= at0 + $s0@.subrange(0, $i0 as int), $n0 == $s0@.len(),
//@ ghost loop0.before
    let ghost at0 = res@;
