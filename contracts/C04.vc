//@ include div_strict.rs float.rs points.rs std.rs grid.rs
//@ set nl=off
//@ use lib_sum.vc lib_alg.vc
//@ assume lib_knot.vc lib_kv.vc lib_bspl.vc lib_pred.vc lib_bern.vc lib_bez.vc
//@ use lib_ins.vc
//@ raw
pub open spec fn bk(b: BSplineCurve<Point3>) -> Seq<real> { vals(b.knots.0@) }
pub open spec fn spl_ok(b: BSplineCurve<Point3>) -> bool { knots_ok(bk(b)) && b.control_points@.len() >= 1 && b.control_points@.len() + b.degree + 1 == b.knots.0@.len() }
/// the point of the spline at u
pub open spec fn bpt(b: BSplineCurve<Point3>, u: real) -> Point3 { bcurve3(b.control_points@, bk(b), b.degree as int, u) }
/// x is a knot or further from every knot than the comparison tolerance
pub open spec fn xfar(t: Seq<real>, x: real, j: int) -> bool { !ulps_eq_r(t[j], x) && !ulps_eq_r(t[j] - x, 0real) && !ulps_eq_r(x - t[j], 0real) }
pub open spec fn xsep(t: Seq<real>, x: real) -> bool { (exists|j: int| 0 <= j < t.len() && #[trigger] t[j] == x) || (forall|j: int| 0 <= j < t.len() ==> #[trigger] xfar(t, x, j)) }
/// number of leading knots up to the last one <= x (< x)
pub open spec fn nle(t: Seq<real>, x: real, m: int) -> int decreases m { if m <= 0 { 0 } else if t[m - 1] <= x { m } else { nle(t, x, m - 1) } }
pub open spec fn nlt(t: Seq<real>, x: real, m: int) -> int decreases m { if m <= 0 { 0 } else if t[m - 1] < x { m } else { nlt(t, x, m - 1) } }
pub open spec fn kle(t: Seq<real>, x: real) -> int { nle(t, x, t.len() as int) }
pub open spec fn klt(t: Seq<real>, x: real) -> int { nlt(t, x, t.len() as int) }
pub open spec fn mult(t: Seq<real>, x: real) -> int { kle(t, x) - klt(t, x) }
pub proof fn lemma_nle(t: Seq<real>, x: real, m: int)
    requires tsorted(t), 0 <= m <= t.len()
    ensures 0 <= nle(t, x, m) <= m, forall|j: int| 0 <= j < nle(t, x, m) ==> #[trigger] t[j] <= x, forall|j: int| nle(t, x, m) <= j < m ==> #[trigger] t[j] > x
    decreases m
{ if m > 0 { lemma_nle(t, x, m - 1); assert forall|j: int| 0 <= j < nle(t, x, m) implies #[trigger] t[j] <= x by { assert(t[j] <= t[m - 1] || nle(t, x, m) != m); } } }
pub proof fn lemma_nlt(t: Seq<real>, x: real, m: int)
    requires tsorted(t), 0 <= m <= t.len()
    ensures 0 <= nlt(t, x, m) <= m, forall|j: int| 0 <= j < nlt(t, x, m) ==> #[trigger] t[j] < x, forall|j: int| nlt(t, x, m) <= j < m ==> #[trigger] t[j] >= x
    decreases m
{ if m > 0 { lemma_nlt(t, x, m - 1); assert forall|j: int| 0 <= j < nlt(t, x, m) implies #[trigger] t[j] < x by { assert(t[j] <= t[m - 1] || nlt(t, x, m) != m); } } }
pub proof fn lemma_kle(t: Seq<real>, x: real, k: int)
    requires tsorted(t), 0 <= k <= t.len(), forall|j: int| 0 <= j < k ==> #[trigger] t[j] <= x, forall|j: int| k <= j < t.len() ==> #[trigger] t[j] > x
    ensures kle(t, x) == k
{ lemma_nle(t, x, t.len() as int); let n = kle(t, x); if n < k { assert(t[n] <= x); } if k < n { assert(t[k] > x); } }
pub proof fn lemma_klt(t: Seq<real>, x: real, k: int)
    requires tsorted(t), 0 <= k <= t.len(), forall|j: int| 0 <= j < k ==> #[trigger] t[j] < x, forall|j: int| k <= j < t.len() ==> #[trigger] t[j] >= x
    ensures klt(t, x) == k
{ lemma_nlt(t, x, t.len() as int); let n = klt(t, x); if n < k { assert(t[n] < x); } if k < n { assert(t[k] >= x); } }
pub proof fn lemma_mult(t: Seq<real>, x: real)
    requires tsorted(t)
    ensures 0 <= klt(t, x) <= kle(t, x) <= t.len(), forall|j: int| 0 <= j < klt(t, x) ==> #[trigger] t[j] < x, forall|j: int| klt(t, x) <= j < kle(t, x) ==> #[trigger] t[j] == x, forall|j: int| kle(t, x) <= j < t.len() ==> #[trigger] t[j] > x
{
    lemma_nle(t, x, t.len() as int); lemma_nlt(t, x, t.len() as int); let (a, b) = (klt(t, x), kle(t, x));
    if b < a { assert(t[b] > x); assert(t[b] < x); }
    assert forall|j: int| a <= j < b implies #[trigger] t[j] == x by { assert(t[j] <= x); assert(t[j] >= x); }
}
/// multiplicity as the code counts it
pub proof fn lemma_cnt_mult(t: Seq<real>, x: real)
    requires tsorted(t), tsep(t), exists|j: int| 0 <= j < t.len() && #[trigger] t[j] == x
    ensures cnt(t, x, t.len() as int) == mult(t, x), mult(t, x) >= 1
{
    lemma_mult(t, x);
    let i = choose|j: int| 0 <= j < t.len() && #[trigger] t[j] == x;
    assert(klt(t, x) <= i < kle(t, x));
    assert forall|j: int| 0 <= j < t.len() implies (ulps_eq_r(x, #[trigger] t[j]) <==> klt(t, x) <= j < kle(t, x)) by {
        if t[j] == x { ax_ulps_refl(x, t[j]); } else if ulps_eq_r(x, t[j]) { assert(ulps_eq_r(t[i], t[j])); assert(t[i] == t[j]); }
    }
    lemma_cnt_block(t, x, klt(t, x), kle(t, x), t.len() as int);
}
/// the knots with x repeated m times
pub open spec fn blk(t: Seq<real>, x: real, m: int) -> Seq<real> { t.subrange(0, klt(t, x)) + rrep(x, m) + t.subrange(kle(t, x), t.len() as int) }
pub proof fn lemma_blk_at(t: Seq<real>, x: real, m: int)
    requires tsorted(t), m >= 0
    ensures blk(t, x, m).len() == t.len() - mult(t, x) + m,
        forall|j: int| 0 <= j < blk(t, x, m).len() ==> #[trigger] blk(t, x, m)[j] == (if j < klt(t, x) { t[j] } else if j < klt(t, x) + m { x } else { t[j - m + mult(t, x)] }),
{ hide(nle); hide(nlt); lemma_mult(t, x); }
proof fn lemma_blk_sorted(t: Seq<real>, x: real, m: int)
    requires tsorted(t), m >= 0
    ensures tsorted(blk(t, x, m))
{
    hide(nle); hide(nlt);
    lemma_mult(t, x); lemma_blk_at(t, x, m); let w = blk(t, x, m); let (a, b) = (klt(t, x), kle(t, x));
    assert forall|i: int, j: int| #![trigger w[i], w[j]] 0 <= i <= j < w.len() implies w[i] <= w[j] by {
        if j < a { assert(t[i] <= t[j]); }
        else if j < a + m { if i < a { assert(t[i] < x); } }
        else { let jj = j - m + (b - a); assert(w[j] == t[jj]); assert(t[jj] > x); if i < a { assert(t[i] < x); } else if i >= a + m { assert(t[i - m + (b - a)] <= t[jj]); } }
    }
}
proof fn lemma_blk_k(t: Seq<real>, x: real, m: int)
    requires tsorted(t), m >= 0
    ensures klt(blk(t, x, m), x) == klt(t, x), kle(blk(t, x, m), x) == klt(t, x) + m
{
    hide(nle); hide(nlt);
    lemma_mult(t, x); lemma_blk_at(t, x, m); lemma_blk_sorted(t, x, m); let w = blk(t, x, m); let (a, b) = (klt(t, x), kle(t, x));
    assert forall|j: int| a + m <= j < w.len() implies #[trigger] w[j] > x by { assert(t[j - m + (b - a)] > x); }
    assert forall|j: int| 0 <= j < a implies #[trigger] w[j] < x by { assert(t[j] < x); }
    lemma_klt(w, x, a); lemma_kle(w, x, a + m);
}
proof fn lemma_blk_id(t: Seq<real>, x: real)
    requires tsorted(t)
    ensures blk(t, x, mult(t, x)) =~= t
{ hide(nle); hide(nlt); lemma_mult(t, x); lemma_blk_at(t, x, mult(t, x)); }
proof fn lemma_blk_ins(t: Seq<real>, x: real, m: int)
    requires tsorted(t), m >= 0, klt(t, x) + m >= 1
    ensures insk(blk(t, x, m), klt(t, x) + m - 1, x) =~= blk(t, x, m + 1)
{ hide(nle); hide(nlt); lemma_mult(t, x); lemma_blk_at(t, x, m); lemma_blk_at(t, x, m + 1); }
pub proof fn lemma_blk(t: Seq<real>, x: real, m: int)
    requires tsorted(t), m >= 0
    ensures blk(t, x, m).len() == t.len() - mult(t, x) + m, tsorted(blk(t, x, m)), klt(blk(t, x, m), x) == klt(t, x), kle(blk(t, x, m), x) == klt(t, x) + m,
        blk(t, x, mult(t, x)) =~= t,
        klt(t, x) + m >= 1 ==> insk(blk(t, x, m), klt(t, x) + m - 1, x) =~= blk(t, x, m + 1),
        forall|j: int| 0 <= j < blk(t, x, m).len() ==> #[trigger] blk(t, x, m)[j] == (if j < klt(t, x) { t[j] } else if j < klt(t, x) + m { x } else { t[j - m + mult(t, x)] }),
{ hide(nle); hide(nlt); lemma_mult(t, x); lemma_blk_at(t, x, m); lemma_blk_sorted(t, x, m); lemma_blk_k(t, x, m); lemma_blk_id(t, x); if klt(t, x) + m >= 1 { lemma_blk_ins(t, x, m); } }
/// inserting a parameter that is far enough from the others keeps the knots separated
pub proof fn lemma_ins_knots_ok(t: Seq<real>, k: int, x: real)
    requires knots_ok(t), ins_ok(t, k, x), xsep(t, x)
    ensures knots_ok(insk(t, k, x)), xsep(insk(t, k, x), x)
{
    let w = insk(t, k, x); lemma_insk(t, k, x);
    let e = if exists|j: int| 0 <= j < t.len() && #[trigger] t[j] == x { choose|j: int| 0 <= j < t.len() && #[trigger] t[j] == x } else { 0 };
    assert(w[k + 1] == x);
    assert forall|i: int, j: int| #![trigger w[i], w[j]] 0 <= i <= j < w.len() && ulps_eq_r(w[j] - w[i], 0real) implies w[i] == w[j] by {
        let (a, b) = (if i <= k { i } else if i == k + 1 { e } else { i - 1 }, if j <= k { j } else if j == k + 1 { e } else { j - 1 });
        if t[e] == x { assert(w[i] == t[a] && w[j] == t[b]); if a <= b { assert(t[a] == t[b]); } else { assert(t[b] <= t[a]); assert(t[a] <= t[b]); } }
        else { if i == k + 1 && j == k + 1 { } else if i == k + 1 { assert(xfar(t, x, j - 1)); } else if j == k + 1 { assert(xfar(t, x, i)); } else { assert(w[i] == t[a] && w[j] == t[b]); assert(t[a] == t[b]); } }
    }
    assert forall|i: int, j: int| #![trigger w[i], w[j]] 0 <= i < w.len() && 0 <= j < w.len() && ulps_eq_r(w[i], w[j]) implies w[i] == w[j] by {
        let (a, b) = (if i <= k { i } else if i == k + 1 { e } else { i - 1 }, if j <= k { j } else if j == k + 1 { e } else { j - 1 });
        ax_ulps_sym(w[i], w[j]);
        if t[e] == x { assert(w[i] == t[a] && w[j] == t[b]); assert(t[a] == t[b]); }
        else { if i == k + 1 && j == k + 1 { } else if i == k + 1 { assert(xfar(t, x, b)); } else if j == k + 1 { assert(xfar(t, x, a)); } else { assert(w[i] == t[a] && w[j] == t[b]); assert(t[a] == t[b]); } }
    }
}
pub open spec fn mixp(c: Seq<Point3>, a: real, i: int) -> Point3 { p3(a * cz(xs3(c), i) + (1real - a) * cz(xs3(c), i - 1), a * cz(ys3(c), i) + (1real - a) * cz(ys3(c), i - 1), a * cz(zs3(c), i) + (1real - a) * cz(zs3(c), i - 1)) }
/// the control points after the insertion
pub open spec fn ins_pts(c: Seq<Point3>, t: Seq<real>, k: int, x: real, p: int) -> Seq<Point3> { Seq::new(c.len() + 1, |i: int| mixp(c, alf(t, k, x, p, i), i)) }
pub proof fn lemma_ins_curve(c: Seq<Point3>, t: Seq<real>, k: int, x: real, p: int, u: real)
    requires ins_ok(t, k, x), knots_sorted(t), p >= 0, c.len() + p + 1 == t.len(), t[0] <= u <= t[t.len() - 1]
    ensures bcurve3(ins_pts(c, t, k, x, p), insk(t, k, x), p, u) == bcurve3(c, t, p, u)
{
    let d = ins_pts(c, t, k, x, p);
    theorem_insert(xs3(c), t, k, x, p, u); theorem_insert(ys3(c), t, k, x, p, u); theorem_insert(zs3(c), t, k, x, p, u);
    assert(xs3(d) =~= ins_c(xs3(c), t, k, x, p)); assert(ys3(d) =~= ins_c(ys3(c), t, k, x, p)); assert(zs3(d) =~= ins_c(zs3(c), t, k, x, p));
}
pub proof fn lemma_mix_ends(c: Seq<Point3>, i: int)
    ensures 0 <= i < c.len() ==> mixp(c, 1real, i) == c[i], 0 <= i - 1 < c.len() ==> mixp(c, 0real, i) == c[i - 1], i == c.len() ==> mixp(c, 1real, i) == p3(0real, 0real, 0real)
{
    if 0 <= i < c.len() { me1(c[i].x.v(), cz(xs3(c), i - 1)); me1(c[i].y.v(), cz(ys3(c), i - 1)); me1(c[i].z.v(), cz(zs3(c), i - 1)); }
    if i == c.len() { me1(0real, cz(xs3(c), i - 1)); me1(0real, cz(ys3(c), i - 1)); me1(0real, cz(zs3(c), i - 1)); }
    if 0 <= i - 1 < c.len() { me0(cz(xs3(c), i), c[i - 1].x.v()); me0(cz(ys3(c), i), c[i - 1].y.v()); me0(cz(zs3(c), i), c[i - 1].z.v()); }
}
proof fn me1(x: real, y: real) ensures 1real * x + (1real - 1real) * y == x { assert(0real * y == 0real); }
proof fn me0(x: real, y: real) ensures 0real * x + (1real - 0real) * y == y { assert(0real * x == 0real); }
pub proof fn lemma_mix_step(c: Seq<Point3>, q: Point3, r: Point3, a: real, i: int, s: Point3)
    requires s == p3(q.x.v() * (1real - a) + r.x.v() * a, q.y.v() * (1real - a) + r.y.v() * a, q.z.v() * (1real - a) + r.z.v() * a),
        q == (if 0 <= i - 1 < c.len() { c[i - 1] } else { p3(0real, 0real, 0real) }), r == (if 0 <= i < c.len() { c[i] } else { p3(0real, 0real, 0real) })
    ensures s == mixp(c, a, i)
{ let b = 1real - a; al_c(q.x.v(), b); al_c(q.y.v(), b); al_c(q.z.v(), b); al_c(r.x.v(), a); al_c(r.y.v(), a); al_c(r.z.v(), a); }
/// the knot x went in after the last knot <= x and the control points were recombined for it
pub open spec fn added(b0: BSplineCurve<Point3>, b1: BSplineCurve<Point3>, x: real) -> bool { let t = bk(b0); let k = kle(t, x) - 1; ins_ok(t, k, x) && bk(b1) == insk(t, k, x) && b1.control_points@ =~= ins_pts(b0.control_points@, t, k, x, b0.degree as int) }
pub proof fn lemma_add_idx(s: Seq<Float>, x: real, i: int)
    requires tsorted(vals(s)), 0 <= i <= s.len(), forall|j: int| 0 <= j < i ==> #[trigger] s[j].v() <= x, forall|j: int| i <= j < s.len() ==> #[trigger] s[j].v() > x
    ensures kle(vals(s), x) == i
{ let t = vals(s); assert forall|j: int| 0 <= j < i implies #[trigger] t[j] <= x by { assert(s[j].v() <= x); } assert forall|j: int| i <= j < t.len() implies #[trigger] t[j] > x by { assert(s[j].v() > x); } lemma_kle(t, x, i); }
pub proof fn lemma_insk_vals(s: Seq<Float>, x: Float, k: int) requires 0 <= k < s.len() ensures vals(s.insert(k + 1, x)) == insk(vals(s), k, x.v()) { assert(vals(s.insert(k + 1, x)) =~= insk(vals(s), k, x.v())); }
pub proof fn lemma_add_start(t: Seq<real>, x: real)
    requires knots_ok(t), t[0] <= x <= t[t.len() - 1]
    ensures ins_ok(t, kle(t, x) - 1, x), 1 <= kle(t, x) <= t.len(), forall|j: int| 0 <= j < kle(t, x) ==> #[trigger] t[j] <= x, forall|j: int| kle(t, x) <= j < t.len() ==> #[trigger] t[j] > x
{ lemma_nle(t, x, t.len() as int); if kle(t, x) == 0 { assert(t[0] > x); } }
pub proof fn lemma_mk_added(b0: BSplineCurve<Point3>, b1: BSplineCurve<Point3>, x: real, k: int)
    requires k == kle(bk(b0), x) - 1, ins_ok(bk(b0), k, x), bk(b1) == insk(bk(b0), k, x), b1.control_points@.len() == b0.control_points@.len() + 1, forall|j: int| 0 <= j < b1.control_points@.len() ==> #[trigger] b1.control_points@[j] == mixp(b0.control_points@, alf(bk(b0), k, x, b0.degree as int, j), j)
    ensures added(b0, b1, x)
{}
pub proof fn lemma_alf_ends(t: Seq<real>, k: int, x: real, p: int, i: int) ensures i + p <= k ==> alf(t, k, x, p, i) == 1real, i + p > k && i > k ==> alf(t, k, x, p, i) == 0real {}
pub proof fn lemma_alf_mid(t: Seq<real>, k: int, x: real, p: int, i: int) ensures i + p > k && i <= k ==> alf(t, k, x, p, i) == (x - t[i]) * rinv(t[i + p] - t[i]) {}
//@ fn BSplineCurve<Point3>::add_knot params=knot
    requires spl_ok(*old(self)), bk(*old(self))[0] <= knot.v() <= bk(*old(self))[bk(*old(self)).len() - 1], xsep(bk(*old(self)), knot.v()),
    ensures spl_ok(*final(self)), final(self).degree == old(self).degree,
        added(*old(self), *final(self), knot.v()),
//@ ghost start
    hide(nle); hide(alf); hide(tsep); hide(xsep); hide(mixp); hide(rinv_tol); hide(added); hide(tsorted); hide(ins_ok); hide(insk); hide(rinv);
    let ghost t = bk(*self); let ghost c0 = self.control_points@; let ghost x = knot.v(); let ghost k = kle(t, x) - 1;
    let ghost mut c1 = c0;
    assert(t.len() == self.knots.0@.len());
    proof { lemma_add_start(t, x); lemma_insk(t, k, x); lemma_ins_knots_ok(t, k, x); }
//@ ghost loop0.before
    proof { c1 = self.control_points@; lemma_add_idx(old(self).knots.0@, x, index as int); assert(index == k + 1); lemma_insk_vals(old(self).knots.0@, knot, k); assert(bk(*self) == insk(t, k, x)); assert(self.knots.0@.len() == t.len() + 1);
       assert(c1 =~= (if k + 1 > c0.len() { c0.push(p3(0real, 0real, 0real)) } else { c0.insert(k, c0[k]) }));
       assert forall|j: int| $e0 <= j < c1.len() implies #[trigger] c1[j] == mixp(c0, alf(t, k, x, p as int, j), j) by { lemma_mix_ends(c0, j); lemma_alf_ends(t, k, x, p as int, j); }
    }
//@ loop 0
    self.degree == old(self).degree, bk(*self) == insk(t, k, x), self.knots.0@.len() == t.len() + 1, self.control_points@.len() == c0.len() + 1, c1.len() == c0.len() + 1,
    forall|j: int| 0 <= j < $i0 ==> #[trigger] self.control_points@[j] == c1[j],
    forall|j: int| $i0 <= j < c1.len() ==> #[trigger] self.control_points@[j] == mixp(c0, alf(t, k, x, p as int, j), j),
//@ ghost loop0.start
    let ghost cs = self.control_points@;
    assert(self.knots.0@.len() == self.knots.0.len());
//@ ghost loop0.end
    proof {
        let j = $j0 as int; let w = insk(t, k, x);
        assert(self.knots.0@[j].v() == w[j] && self.knots.0@[j + p + 1].v() == w[j + p + 1]);
        lemma_rinv_tol(t, j, j + p); lemma_alf_mid(t, k, x, p as int, j);
        lemma_mix_step(c0, previous, cs[j], a.v(), j, self.control_points@[j]);
    }
//@ ghost loop0.after
    proof {
        assert forall|j: int| 0 <= j < c1.len() implies #[trigger] self.control_points@[j] == mixp(c0, alf(t, k, x, p as int, j), j) by { if j < $b0 { lemma_mix_ends(c0, j); lemma_alf_ends(t, k, x, p as int, j); } }
        lemma_mk_added(*old(self), *self, x, k);
    }
//@ raw
pub open spec fn klast(t: Seq<real>) -> real { t[t.len() - 1] }
/// same domain, same points
pub open spec fn same_curve(a: BSplineCurve<Point3>, b: BSplineCurve<Point3>) -> bool {
    bk(a)[0] == bk(b)[0] && klast(bk(a)) == klast(bk(b)) && a.degree == b.degree && forall|u: real| bk(b)[0] <= u <= klast(bk(b)) ==> #[trigger] bpt(a, u) == bpt(b, u)
}
pub proof fn lemma_added(b0: BSplineCurve<Point3>, b1: BSplineCurve<Point3>, x: real, o: BSplineCurve<Point3>)
    requires spl_ok(b0), added(b0, b1, x), b1.degree == b0.degree, same_curve(b0, o)
    ensures same_curve(b1, o), xsep(bk(b0), x) ==> xsep(bk(b1), x)
{
    hide(bspl_r); hide(kle); hide(ins_pts);
    let t = bk(b0); let k = kle(t, x) - 1; lemma_insk(t, k, x);
    assert forall|u: real| bk(o)[0] <= u <= klast(bk(o)) implies #[trigger] bpt(b1, u) == bpt(o, u) by { assert(bpt(b0, u) == bpt(o, u)); lemma_ins_curve(b0.control_points@, t, k, x, b0.degree as int, u); }
    if xsep(t, x) { lemma_ins_knots_ok(t, k, x); }
}
pub proof fn lemma_added_blk(b0: BSplineCurve<Point3>, b1: BSplineCurve<Point3>, x: real, t: Seq<real>, m: int)
    requires added(b0, b1, x), tsorted(t), m >= 0, bk(b0) == blk(t, x, m), klt(t, x) + m >= 1
    ensures bk(b1) == blk(t, x, m + 1)
{ hide(nle); hide(nlt); lemma_blk(t, x, m); }
/// the insertion that completes p + 1 equal knots doubles a control point
pub proof fn lemma_twin(b0: BSplineCurve<Point3>, b1: BSplineCurve<Point3>, x: real, t: Seq<real>)
    requires spl_ok(b0), added(b0, b1, x), tsorted(t), bk(b0) == blk(t, x, b0.degree as int), 1 <= klt(t, x), x < klast(t)
    ensures klt(t, x) < b1.control_points@.len(), b1.control_points@[klt(t, x) - 1] == b1.control_points@[klt(t, x)]
{
    hide(nle); hide(nlt); hide(mixp); hide(alf);
    let (a, p, c, w) = (klt(t, x), b0.degree as int, b0.control_points@, bk(b0)); let k = a + p - 1;
    lemma_mult(t, x); lemma_blk(t, x, p);
    assert(kle(t, x) < t.len());
    assert(w.len() == t.len() - mult(t, x) + p); assert(w.len() == c.len() + p + 1);
    assert(a < c.len() + 1);
    lemma_alf_ends(w, k, x, p, a - 1); lemma_alf_ends(w, k, x, p, a); lemma_alf_mid(w, k, x, p, a);
    if p >= 1 { assert(w[a] == x); let r = rinv(w[a + p] - w[a]); assert((x - w[a]) * r == 0real) by { assert(0real * r == 0real); } }
    assert(alf(w, k, x, p, a - 1) == 1real && alf(w, k, x, p, a) == 0real);
    lemma_mix_ends(c, a - 1); lemma_mix_ends(c, a);
    assert(ins_pts(c, w, k, x, p)[a - 1] == c[a - 1]); assert(ins_pts(c, w, k, x, p)[a] == c[a - 1]);
}
pub open spec fn imax(a: int, b: int) -> int { if a >= b { a } else { b } }
/// knots with both ends repeated at least p + 1 times
pub open spec fn clamped_k(t: Seq<real>, p: int) -> Seq<real> { let t1 = blk(t, t[0], imax(mult(t, t[0]), p + 1)); blk(t1, klast(t), imax(mult(t1, klast(t)), p + 1)) }
pub proof fn lemma_end_knots(t: Seq<real>, m: int)
    requires knots_sorted(t)
    ensures klt(t, t[0]) == 0, kle(t, klast(t)) == t.len(), m >= 1 ==> blk(t, t[0], m)[0] == t[0] && klast(blk(t, t[0], m)) == klast(t), mult(t, t[0]) >= 1, mult(t, klast(t)) >= 1
{
    hide(nle); hide(nlt);
    lemma_mult(t, t[0]); lemma_mult(t, klast(t));
    if klt(t, t[0]) > 0 { assert(t[0] < t[0]); } if kle(t, klast(t)) < t.len() { assert(t[t.len() - 1] > klast(t)); }
    if kle(t, t[0]) == 0 { assert(t[0] > t[0]); } if klt(t, klast(t)) == t.len() { assert(t[t.len() - 1] < klast(t)); }
    if m >= 1 { lemma_blk(t, t[0], m); if kle(t, t[0]) == t.len() { assert(t[t.len() - 1] == t[0]); } }
}
proof fn lemma_ends(b: BSplineCurve<Point3>, o: BSplineCurve<Point3>)
    requires spl_ok(b), b == o || same_curve(b, o)
    ensures same_curve(b, o), bk(b)[0] == bk(o)[0], klast(bk(b)) == klast(bk(o)), bk(b)[0] <= klast(bk(b)), b.degree == o.degree, tsorted(bk(b)), bk(b).len() >= 2
{ assert(bk(b)[0] <= bk(b)[bk(b).len() - 1]); }
//@ fn BSplineCurve<Point3>::clamp loops=2
    requires spl_ok(*old(self))
    ensures spl_ok(*final(self)), same_curve(*final(self), *old(self)), bk(*final(self)) == clamped_k(bk(*old(self)), old(self).degree as int),
//@ ghost start
    hide(nle); hide(nlt); hide(blk); hide(bpt); hide(added); hide(tsep); hide(cnt); hide(is_span); hide(bsp); hide(same_curve); hide(tsorted); hide(bspl_r); hide(rinv);
    let ghost o = *self; let ghost t = bk(o); let ghost p = o.degree as int; let ghost x0 = t[0]; let ghost xl = klast(t);
    let ghost m0 = imax(mult(t, x0), p + 1); let ghost t1 = blk(t, x0, m0); let ghost m1 = imax(mult(t1, xl), p + 1);
    let ghost lim = t.len();
    proof { lemma_ends(o, o); lemma_end_knots(t, m0); lemma_cnt_mult(t, x0); lemma_blk(t, x0, mult(t, x0)); lemma_blk(t, x0, m0); assert(xsep(t, x0)); assert(t.len() == self.knots.0@.len()); }
//@ loop 0
    spl_ok(*self), same_curve(*self, o), $b0 == mult(t, x0), $e0 == p, xsep(bk(*self), x0), bk(*self) == blk(t, x0, $i0 as int),
//@ ghost loop0.start
    let ghost b0 = *self;
    proof { assert(bk(b0)[0] == b0.knots.0@[0].v()); lemma_ends(b0, o); }
//@ ghost loop0.end
    proof { lemma_added(b0, *self, x0, o); lemma_added_blk(b0, *self, x0, t, $j0 as int); }
//@ ghost loop0.after
    proof { lemma_ends(*self, o); assert(bk(*self) == t1); lemma_end_knots(t1, 1); lemma_cnt_mult(t1, xl); lemma_blk(t1, xl, mult(t1, xl)); assert(t1.len() == self.knots.0@.len()); assert(xsep(t1, xl)); }
//@ loop 1
    spl_ok(*self), same_curve(*self, o), $b1 == mult(t1, xl), $e1 == p, xsep(bk(*self), xl), n == t1.len(), bk(*self) == blk(t1, xl, $i1 as int),
//@ ghost loop1.start
    let ghost b0 = *self;
    proof { lemma_ends(b0, o); lemma_blk(t1, xl, $i1 - 1); lemma_mult(t1, xl); assert(b0.knots.0@.len() == bk(b0).len()); assert(bk(b0)[n - 1] == b0.knots.0@[n - 1].v()); }
//@ ghost loop1.end
    proof { lemma_added(b0, *self, xl, o); lemma_added_blk(b0, *self, xl, t1, $j1 as int); }
//@ raw
// ---- the two halves of a refined curve
pub proof fn lemma_dotp_tail(b: Seq<real>, c: Seq<real>, m: int, n: int)
    requires 0 <= m <= n, forall|i: int| m <= i < n ==> #[trigger] b[i] == 0real
    ensures dotp(b, c, n) == dotp(b, c, m)
    decreases n
{ if m < n { lemma_dotp_tail(b, c, m, n - 1); assert(b[n - 1] == 0real); let x = c[n - 1]; assert(0real * x == 0real); } }
pub proof fn lemma_dotp_head(b: Seq<real>, c: Seq<real>, b2: Seq<real>, c2: Seq<real>, a: int, n: int)
    requires 0 <= a, 0 <= n, forall|i: int| 0 <= i < a ==> #[trigger] b[i] == 0real, forall|i: int| 0 <= i < n ==> #[trigger] b2[i] == b[a + i], forall|i: int| 0 <= i < n ==> #[trigger] c2[i] == c[a + i]
    ensures dotp(b, c, a + n) == dotp(b2, c2, n)
    decreases n
{ if n > 0 { lemma_dotp_head(b, c, b2, c2, a, n - 1); assert(b2[n - 1] == b[a + (n - 1)]); assert(c2[n - 1] == c[a + (n - 1)]); } else { lemma_dotp_tail(b, c, 0, a); } }
/// the first q + p + 1 knots carry the curve up to the knot x that they end with
pub proof fn lemma_prefix(c: Seq<real>, w: Seq<real>, p: int, q: int, u: real)
    requires tsorted(w), p >= 0, c.len() + p + 1 == w.len(), 0 < q <= c.len(), w[q] == w[q + p], w[0] <= u < w[q], w[q] < klast(w)
    ensures bspl_r(c.subrange(0, q), w.subrange(0, q + p + 1), p, u) == bspl_r(c, w, p, u)
{
    hide(bsp);
    let v = w.subrange(0, q + p + 1); let d = c.subrange(0, q); let n = c.len() as int;
    let s = lemma_span_exists(w, u);
    if s >= q { assert(w[q] <= w[s]); }
    assert forall|i: int| q <= i < n implies #[trigger] bsps(w, p, u, n)[i] == 0real by { lemma_bsp_support(w, i, p, u, s); }
    lemma_dotp_tail(bsps(w, p, u, n), c, q, n);
    assert forall|i: int| 0 <= i < q implies #[trigger] bsps(v, p, u, q)[i] == bsps(w, p, u, n)[i] by {
        assert forall|m: int| 0 <= m <= p implies #[trigger] is_span(v, u, i + m) == is_span(w, u, i + m) by { assert(v[i + m] == w[i + m] && v[i + m + 1] == w[i + m + 1]); assert(v[v.len() - 1] == w[q + p]); }
        lemma_bsp_local(v, w, i, i, p, u);
    }
    lemma_dotp_ext(bsps(v, p, u, q), bsps(w, p, u, n), d, c, q);
}
/// ... and the knots from q on carry it from there
pub proof fn lemma_suffix(c: Seq<real>, w: Seq<real>, p: int, q: int, u: real)
    requires tsorted(w), p >= 0, c.len() + p + 1 == w.len(), 0 <= q < c.len(), w[q] == w[q + p], w[q] <= u <= klast(w), w[q] < klast(w)
    ensures bspl_r(c.subrange(q, c.len() as int), w.subrange(q, w.len() as int), p, u) == bspl_r(c, w, p, u)
{
    hide(bsp);
    let v = w.subrange(q, w.len() as int); let d = c.subrange(q, c.len() as int); let n = c.len() as int;
    assert(w[0] <= w[q]);
    let s = lemma_span_exists(w, u);
    if s < q + p { assert(w[s + 1] <= w[q + p]); }
    assert forall|i: int| 0 <= i < q implies #[trigger] bsps(w, p, u, n)[i] == 0real by { lemma_bsp_support(w, i, p, u, s); }
    assert forall|i: int| 0 <= i < n - q implies #[trigger] bsps(v, p, u, n - q)[i] == bsps(w, p, u, n)[q + i] by {
        assert forall|m: int| 0 <= m <= p implies #[trigger] is_span(v, u, i + m) == is_span(w, u, q + i + m) by { assert(v[i + m] == w[q + i + m] && v[i + m + 1] == w[q + i + m + 1]); assert(v[v.len() - 1] == w[w.len() - 1]); }
        lemma_bsp_local(v, w, i, q + i, p, u);
    }
    lemma_dotp_head(bsps(w, p, u, n), c, bsps(v, p, u, n - q), d, q, n - q);
}
pub proof fn lemma_sub_knots_ok(w: Seq<real>, a: int, b: int)
    requires knots_ok(w), 0 <= a < b <= w.len(), w[a] < w[b - 1]
    ensures knots_ok(w.subrange(a, b))
{
    let v = w.subrange(a, b);
    assert forall|i: int, j: int| #![trigger v[i], v[j]] 0 <= i <= j < v.len() implies v[i] <= v[j] by { assert(w[a + i] <= w[a + j]); }
    assert forall|i: int, j: int| #![trigger v[i], v[j]] 0 <= i <= j < v.len() && ulps_eq_r(v[j] - v[i], 0real) implies v[i] == v[j] by { assert(v[i] == w[a + i] && v[j] == w[a + j]); }
    assert forall|i: int, j: int| #![trigger v[i], v[j]] 0 <= i < v.len() && 0 <= j < v.len() && ulps_eq_r(v[i], v[j]) implies v[i] == v[j] by { assert(v[i] == w[a + i] && v[j] == w[a + j]); }
}
/// value of a spline whose knots end (start) with p + 1 equal ones
pub proof fn lemma_end_value(c: Seq<real>, v: Seq<real>, p: int)
    requires knots_ok(v), p >= 0, c.len() >= 1, c.len() + p + 1 == v.len(), v[c.len() as int] == klast(v), v[c.len() - 1] < klast(v)
    ensures bspl_r(c, v, p, klast(v)) == c[c.len() - 1]
{
    hide(bsp);
    let n = c.len() as int; let b = bsps(v, p, klast(v), n);
    assert forall|i: int| 0 <= i < n implies #[trigger] b[i] == (if i == n - 1 { 1real } else { 0real }) by { lemma_end_basis(v, klast(v), n - 1, i, p); }
    lemma_dotp_unit(b, c, n, n - 1);
}
pub proof fn lemma_start_value(c: Seq<real>, v: Seq<real>, p: int)
    requires knots_ok(v), p >= 0, c.len() >= 1, c.len() + p + 1 == v.len(), v[p] == v[0], v[0] < v[p + 1]
    ensures bspl_r(c, v, p, v[0]) == c[0]
{
    hide(bsp);
    let n = c.len() as int; let b = bsps(v, p, v[0], n);
    assert(v[p + 1] <= klast(v));
    assert forall|i: int| 0 <= i < n implies #[trigger] b[i] == (if i == 0 { 1real } else { 0real }) by { lemma_start_basis(v, v[0], p, i, p); }
    lemma_dotp_unit(b, c, n, 0);
}
pub proof fn lemma_sub_vals(s: Seq<Float>, a: int, b: int) requires 0 <= a <= b <= s.len() ensures vals(s.subrange(a, b)) == vals(s).subrange(a, b) { assert(vals(s.subrange(a, b)) =~= vals(s).subrange(a, b)); }
pub proof fn lemma_sub_bcurve(c: Seq<Point3>, w: Seq<real>, p: int, a: int, b: int, v: Seq<real>, u: real)
    requires 0 <= a <= b <= c.len()
    ensures bcurve3(c.subrange(a, b), v, p, u) == p3(bspl_r(xs3(c).subrange(a, b), v, p, u), bspl_r(ys3(c).subrange(a, b), v, p, u), bspl_r(zs3(c).subrange(a, b), v, p, u))
{ assert(xs3(c.subrange(a, b)) =~= xs3(c).subrange(a, b)); assert(ys3(c.subrange(a, b)) =~= ys3(c).subrange(a, b)); assert(zs3(c.subrange(a, b)) =~= zs3(c).subrange(a, b)); }
/// b cut after its first q control points
pub open spec fn cut_at(b: BSplineCurve<Point3>, q: int, f: BSplineCurve<Point3>, r: BSplineCurve<Point3>) -> bool {
    let (c, w, p) = (b.control_points@, bk(b), b.degree as int);
    &&& f.degree == b.degree && r.degree == b.degree
    &&& f.control_points@ == c.subrange(0, q) && bk(f) == w.subrange(0, q + p + 1)
    &&& r.control_points@ == c.subrange(q, c.len() as int) && bk(r) == w.subrange(q, w.len() as int)
}
/// a place where the refined knots have p + 1 equal ones inside the domain
pub open spec fn cuttable(b: BSplineCurve<Point3>, q: int, x: real) -> bool { let (w, p) = (bk(b), b.degree as int); 0 < q < b.control_points@.len() && w[q] == x && w[q + p] == x && w[0] < x < w[q + p + 1] && x < klast(w) }
pub proof fn lemma_cut(b: BSplineCurve<Point3>, q: int, x: real, f: BSplineCurve<Point3>, r: BSplineCurve<Point3>)
    requires spl_ok(b), cuttable(b, q, x), cut_at(b, q, f, r)
    ensures spl_ok(f), spl_ok(r), bk(f)[0] == bk(b)[0], klast(bk(f)) == x, bk(r)[0] == x, klast(bk(r)) == klast(bk(b)),
        forall|u: real| bk(b)[0] <= u < x ==> #[trigger] bpt(f, u) == bpt(b, u),
        forall|u: real| x <= u <= klast(bk(b)) ==> #[trigger] bpt(r, u) == bpt(b, u),
        bk(b)[q - 1] < x && b.control_points@[q - 1] == b.control_points@[q] ==> bpt(f, x) == bpt(b, x)
{
    hide(bspl_r);
    let (c, w, p) = (b.control_points@, bk(b), b.degree as int); let n = c.len() as int;
    lemma_sub_knots_ok(w, 0, q + p + 1); lemma_sub_knots_ok(w, q, w.len() as int);
    assert forall|u: real| bk(b)[0] <= u < x implies #[trigger] bpt(f, u) == bpt(b, u) by {
        lemma_sub_bcurve(c, w, p, 0, q, bk(f), u);
        lemma_prefix(xs3(c), w, p, q, u); lemma_prefix(ys3(c), w, p, q, u); lemma_prefix(zs3(c), w, p, q, u);
    }
    assert forall|u: real| x <= u <= klast(bk(b)) implies #[trigger] bpt(r, u) == bpt(b, u) by {
        lemma_sub_bcurve(c, w, p, q, n, bk(r), u);
        lemma_suffix(xs3(c), w, p, q, u); lemma_suffix(ys3(c), w, p, q, u); lemma_suffix(zs3(c), w, p, q, u);
    }
    if bk(b)[q - 1] < x && c[q - 1] == c[q] {
        assert(bpt(r, x) == bpt(b, x));
        lemma_start_value(xs3(r.control_points@), bk(r), p); lemma_start_value(ys3(r.control_points@), bk(r), p); lemma_start_value(zs3(r.control_points@), bk(r), p);
        lemma_end_value(xs3(f.control_points@), bk(f), p); lemma_end_value(ys3(f.control_points@), bk(f), p); lemma_end_value(zs3(f.control_points@), bk(f), p);
        assert(f.control_points@[q - 1] == r.control_points@[0]);
    }
}
/// parameters within the tolerance after a knot stand for the knot
pub open spec fn snap(t: Seq<real>, u: real) -> real { let k = t[kle(t, u) - 1]; if near_r(u, k) { k } else { u } }
/// o, cut at the snapped x: both halves carry the original points
pub open spec fn halves(o: BSplineCurve<Point3>, x: real, f: BSplineCurve<Point3>, r: BSplineCurve<Point3>) -> bool {
    &&& f.degree == o.degree && r.degree == o.degree
    &&& bk(f)[0] == bk(o)[0] && klast(bk(f)) == x && bk(r)[0] == x && klast(bk(r)) == klast(bk(o))
    &&& forall|u: real| bk(o)[0] <= u < x ==> #[trigger] bpt(f, u) == bpt(o, u)
    &&& forall|u: real| x <= u <= klast(bk(o)) ==> #[trigger] bpt(r, u) == bpt(o, u)
    &&& mult(bk(o), x) <= o.degree ==> bpt(f, x) == bpt(o, x)
}
/// the knots of the halves
pub open spec fn half_knots(t: Seq<real>, x: real, p: int, f: Seq<real>, r: Seq<real>) -> bool { let w = blk(t, x, imax(mult(t, x), p + 1)); let k = kle(w, x); f == w.subrange(0, k) && r == w.subrange(k - p - 1, w.len() as int) }
pub open spec fn split_at(o: BSplineCurve<Point3>, u: real) -> real { snap(bk(o), u) }
pub open spec fn twin(b: BSplineCurve<Point3>, a: int) -> bool { 1 <= a < b.control_points@.len() && b.control_points@[a - 1] == b.control_points@[a] }
proof fn lemma_split_place(o: BSplineCurve<Point3>, b: BSplineCurve<Point3>, x: real, m: int)
    requires spl_ok(o), spl_ok(b), b.degree == o.degree, m == imax(mult(bk(o), x), o.degree + 1), bk(b) == blk(bk(o), x, m), bk(o)[0] < x < klast(bk(o))
    ensures cuttable(b, klt(bk(o), x) + m - 1 - o.degree, x), kle(bk(b), x) == klt(bk(o), x) + m, mult(bk(o), x) <= o.degree ==> bk(b)[klt(bk(o), x) + m - 1 - o.degree - 1] < x,
        is_span(bk(b), x, klt(bk(o), x) + m - 1), klt(bk(o), x) >= 1
{
    hide(nle); hide(nlt);
    let t = bk(o); lemma_mult(t, x); lemma_blk(t, x, m);
    if klt(t, x) == 0 { if kle(t, x) == 0 { assert(t[0] > x); } else { assert(t[0] == x); } }
    if kle(t, x) == t.len() { assert(klast(t) <= x); }
    let w = bk(b); let a = klt(t, x); assert(w[a + m] == t[kle(t, x)]); assert(w[0] == t[0]);
    assert(w[w.len() - 1] == klast(t));
}
proof fn lemma_cuttable(b: BSplineCurve<Point3>, q: int, x: real) requires cuttable(b, q, x), spl_ok(b) ensures 0 < q < b.control_points@.len(), bk(b)[0] < x < klast(bk(b)), q + b.degree + 1 < bk(b).len() {}
proof fn lemma_split_start(o: BSplineCurve<Point3>, u: real, i: int)
    requires spl_ok(o), is_span(bk(o), u, i), bk(o)[0] <= u < klast(bk(o))
    ensures split_at(o, u) == (if near_r(u, bk(o)[i]) { bk(o)[i] } else { u }), split_at(o, u) <= u,
        near_r(u, bk(o)[i]) ==> cnt(bk(o), bk(o)[i], bk(o).len() as int) == mult(bk(o), bk(o)[i]), !near_r(u, bk(o)[i]) ==> mult(bk(o), u) == 0,
{
    hide(nle); hide(nlt);
    let t = bk(o); assert(kle(t, u) == i + 1) by { assert forall|j: int| 0 <= j < i + 1 implies #[trigger] t[j] <= u by { assert(t[j] <= t[i]); } assert forall|j: int| i + 1 <= j < t.len() implies #[trigger] t[j] > u by { assert(t[i + 1] <= t[j]); } lemma_kle(t, u, i + 1); }
    if near_r(u, t[i]) { lemma_cnt_mult(t, t[i]); } else { lemma_mult(t, u); if mult(t, u) != 0 { assert(t[i] == u); } }
}
proof fn lemma_halves(o: BSplineCurve<Point3>, b: BSplineCurve<Point3>, x: real, q: int, f: BSplineCurve<Point3>, r: BSplineCurve<Point3>)
    requires same_curve(b, o), f.degree == o.degree, r.degree == o.degree, bk(o)[0] < x < klast(bk(o)),
        bk(f)[0] == bk(b)[0], klast(bk(f)) == x, bk(r)[0] == x, klast(bk(r)) == klast(bk(b)),
        forall|u: real| bk(b)[0] <= u < x ==> #[trigger] bpt(f, u) == bpt(b, u),
        forall|u: real| x <= u <= klast(bk(b)) ==> #[trigger] bpt(r, u) == bpt(b, u),
        mult(bk(o), x) <= o.degree ==> bpt(f, x) == bpt(b, x)
    ensures halves(o, x, f, r)
{
    hide(nle); hide(nlt); hide(bpt);
    assert forall|u: real| bk(o)[0] <= u < x implies #[trigger] bpt(f, u) == bpt(o, u) by { assert(bpt(f, u) == bpt(b, u)); }
    assert forall|u: real| x <= u <= klast(bk(o)) implies #[trigger] bpt(r, u) == bpt(o, u) by { assert(bpt(r, u) == bpt(b, u)); }
    if mult(bk(o), x) <= o.degree { assert(bpt(b, x) == bpt(o, x)); }
}
proof fn lemma_split_dom(o: BSplineCurve<Point3>, b: BSplineCurve<Point3>, x: real) requires same_curve(b, o), bk(o)[0] < x < klast(bk(o)) ensures bk(b)[0] <= x <= bk(b)[bk(b).len() - 1] {}
/// the state after j insertions
pub open spec fn split_state(o: BSplineCurve<Point3>, b: BSplineCurve<Point3>, x: real, m: int) -> bool { spl_ok(b) && b.degree == o.degree && same_curve(b, o) && xsep(bk(b), x) && bk(b) == blk(bk(o), x, m) && (m == o.degree + 1 && mult(bk(o), x) <= o.degree ==> twin(b, klt(bk(o), x))) }
proof fn lemma_split_init(o: BSplineCurve<Point3>, x: real)
    requires spl_ok(o), xsep(bk(o), x)
    ensures split_state(o, o, x, mult(bk(o), x)), mult(bk(o), x) >= 0
{ hide(nle); hide(nlt); lemma_mult(bk(o), x); lemma_blk(bk(o), x, mult(bk(o), x)); }
proof fn lemma_split_step(o: BSplineCurve<Point3>, b0: BSplineCurve<Point3>, b1: BSplineCurve<Point3>, x: real, m: int)
    requires spl_ok(o), bk(o)[0] < x < klast(bk(o)), m >= 0, split_state(o, b0, x, m), spl_ok(b1), b1.degree == b0.degree, added(b0, b1, x)
    ensures split_state(o, b1, x, m + 1)
{
    hide(nle); hide(nlt); hide(added); hide(bpt); hide(tsep); hide(blk);
    let t = bk(o); lemma_mult(t, x);
    if klt(t, x) == 0 { if kle(t, x) == 0 { assert(t[0] > x); } else { assert(t[0] == x); } }
    lemma_added(b0, b1, x, o); lemma_added_blk(b0, b1, x, t, m); if m == o.degree { lemma_twin(b0, b1, x, t); }
}
proof fn lemma_split_finish(o: BSplineCurve<Point3>, b: BSplineCurve<Point3>, x: real, m: int, f: BSplineCurve<Point3>, r: BSplineCurve<Point3>)
    requires spl_ok(o), bk(o)[0] < x < klast(bk(o)), m == imax(mult(bk(o), x), o.degree + 1), split_state(o, b, x, m), cut_at(b, klt(bk(o), x) + m - 1 - o.degree, f, r)
    ensures spl_ok(f), spl_ok(r), halves(o, x, f, r), half_knots(bk(o), x, o.degree as int, bk(f), bk(r))
{
    hide(nle); hide(nlt); hide(bpt); hide(tsep); hide(blk); hide(cuttable);
    let q = klt(bk(o), x) + m - 1 - o.degree;
    lemma_split_place(o, b, x, m); lemma_cuttable(b, q, x); lemma_cut(b, q, x, f, r); lemma_halves(o, b, x, q, f, r);
}
proof fn lemma_split_span(o: BSplineCurve<Point3>, b: BSplineCurve<Point3>, x: real, m: int)
    requires spl_ok(o), bk(o)[0] < x < klast(bk(o)), m == imax(mult(bk(o), x), o.degree + 1), split_state(o, b, x, m)
    ensures ({ let q = klt(bk(o), x) + m - 1 - o.degree; 0 < q < b.control_points@.len() && q + o.degree + 1 < bk(b).len() }), bk(b)[0] < x < klast(bk(b)), forall|k: int| #[trigger] is_span(bk(b), x, k) ==> k == klt(bk(o), x) + m - 1
{
    hide(nle); hide(nlt); hide(bpt); hide(tsep); hide(blk); hide(cuttable);
    let q = klt(bk(o), x) + m - 1 - o.degree;
    lemma_split_place(o, b, x, m); lemma_cuttable(b, q, x);
    assert forall|k: int| #[trigger] is_span(bk(b), x, k) implies k == klt(bk(o), x) + m - 1 by { lemma_span_unique(bk(b), x, klt(bk(o), x) + m - 1, k); }
}
//@ fn BSplineCurve<Point3>::split params=t ret=r loops=1
    requires spl_ok(*old(self)), bk(*old(self))[0] < split_at(*old(self), t.v()), bk(*old(self))[0] <= t.v() < klast(bk(*old(self))), xsep(bk(*old(self)), split_at(*old(self), t.v())),
    ensures spl_ok(*final(self)), spl_ok(r), halves(*old(self), split_at(*old(self), t.v()), *final(self), r), half_knots(bk(*old(self)), split_at(*old(self), t.v()), old(self).degree as int, bk(*final(self)), bk(r)),
//@ ghost start
    hide(nle); hide(nlt); hide(blk); hide(bpt); hide(added); hide(tsep); hide(tsorted); hide(cnt); hide(bsp); hide(halves); hide(half_knots); hide(same_curve); hide(snap); hide(twin);
    let ghost o = *self; let ghost g = bk(o); let ghost x = split_at(o, t.v()); let ghost dp = o.degree as int;
    let ghost m0 = imax(mult(g, x), dp + 1);
    let ghost u0 = t.v(); let ghost mut b = *self; let ghost q = klt(g, x) + m0 - 1 - dp;
    assert(g.len() == self.knots.0@.len()); assert(g[0] == self.knots.0@[0].v());
//@ ghost loop0.before
    proof { lemma_split_start(o, u0, index as int); assert(g[index as int] == self.knots.0@[index as int].v()); assert(p == dp); assert(s == mult(g, x)); assert(t.v() == x); lemma_split_init(o, x); }
//@ loop 0
    t.v() == x, split_state(o, *self, x, $i0 as int), $b0 == mult(g, x), $e0 == dp,
//@ ghost loop0.start
    let ghost b0 = *self;
    proof { lemma_split_dom(o, b0, x); }
//@ ghost loop0.end
    proof { lemma_split_step(o, b0, *self, x, $j0 as int); }
//@ ghost loop0.after
    proof { b = *self; assert($i0 == m0); lemma_split_span(o, b, x, m0); assert(bk(b)[0] == b.knots.0@[0].v()); assert(b.knots.0@.len() == bk(b).len()); }
//@ ghost return
    proof {
        assert(k - p == q);
        lemma_sub_vals(b.knots.0@, 0, k + 1); lemma_sub_vals(b.knots.0@, q, m as int);
        assert(__ret.control_points@ == b.control_points@.subrange(q, b.control_points@.len() as int)); assert(self.control_points@ == b.control_points@.subrange(0, q));
        assert(cut_at(b, q, *self, __ret));
        lemma_split_finish(o, b, x, m0, *self, __ret);
    }
//@ raw
// ---- decomposition into Bezier pieces
/// a spline over two full knots is the Bezier curve of the relative parameter
proof fn lemma_bez_basis(a: real, b: real, p: int, i: int, k: int, u: real)
    requires a < b, a <= u <= b, 0 <= k <= p, 0 <= i, i + k < 2 * p + 1
    ensures bsp(rrep(a, p + 1) + rrep(b, p + 1), i, k, u) == bern(k, i - (p - k), (u - a) * rinv(b - a))
    decreases k
{
    let t = rrep(a, p + 1) + rrep(b, p + 1); let v = (u - a) * rinv(b - a);
    if k == 0 { lemma_bsp0(t, i, u); assert(t[p] == a && t[p + 1] == b && t[t.len() - 1] == b); }
    else { lemma_bez_basis(a, b, p, i, k - 1, u); lemma_bez_basis(a, b, p, i + 1, k - 1, u); lemma_bez_step(a, b, p, i, k, u); }
}
proof fn lemma_bez_step(a: real, b: real, p: int, i: int, k: int, u: real)
    requires a < b, 1 <= k <= p, 0 <= i, i + k < 2 * p + 1, bsp(rrep(a, p + 1) + rrep(b, p + 1), i, k - 1, u) == bern(k - 1, i - (p - k) - 1, (u - a) * rinv(b - a)), bsp(rrep(a, p + 1) + rrep(b, p + 1), i + 1, k - 1, u) == bern(k - 1, i - (p - k), (u - a) * rinv(b - a))
    ensures bsp(rrep(a, p + 1) + rrep(b, p + 1), i, k, u) == bern(k, i - (p - k), (u - a) * rinv(b - a))
{
    hide(bsp); hide(rinv);
    let t = rrep(a, p + 1) + rrep(b, p + 1); let v = (u - a) * rinv(b - a); let j = i - (p - k);
    lemma_bsp_step(t, i, k, u); lemma_bern_step(k, j, v);
    let (f1, f0) = (bern(k - 1, j - 1, v), bern(k - 1, j, v));
    let (x, y) = ((u - t[i]) * rinv(t[i + k] - t[i]), (t[i + k + 1] - u) * rinv(t[i + k + 1] - t[i + 1]));
    if i <= p && j >= 1 { assert(t[i] == a && t[i + k] == b); assert(x == v); } else { lemma_bern_out(k - 1, j - 1, v); assert(x * 0real == 0real && v * 0real == 0real); }
    if i + 1 <= p && j >= 0 { assert(t[i + 1] == a && t[i + k + 1] == b); ia_co(u, a, b); assert(y == 1real - v); } else { lemma_bern_out(k - 1, j, v); let q = 1real - v; assert(y * 0real == 0real && q * 0real == 0real); }
}
proof fn lemma_bern_out(n: int, k: int, u: real) requires k < 0 || k > n ensures bern(n, k, u) == 0real {}
proof fn lemma_bez_coord(c: Seq<real>, a: real, b: real, p: int, u: real)
    requires a < b, a <= u <= b, p >= 0, c.len() == p + 1
    ensures bspl_r(c, rrep(a, p + 1) + rrep(b, p + 1), p, u) == bezier_r(c, (u - a) * rinv(b - a))
{
    hide(bsp); hide(bern); hide(rinv);
    let t = rrep(a, p + 1) + rrep(b, p + 1); let v = (u - a) * rinv(b - a); let n = p + 1;
    assert forall|i: int| 0 <= i < n implies #[trigger] bsps(t, p, u, n)[i] == bcoefs(p, v)[i] by { lemma_bez_basis(a, b, p, i, p, u); lemma_bern_closed(p, i, v); }
    lemma_dotp_ext(bsps(t, p, u, n), bcoefs(p, v), c, c, n);
}
proof fn lemma_bez_curve(c: Seq<Point3>, a: real, b: real, p: int, u: real)
    requires a < b, a <= u <= b, p >= 0, c.len() == p + 1
    ensures bcurve3(c, rrep(a, p + 1) + rrep(b, p + 1), p, u) == curve3(c, (u - a) * rinv(b - a))
{ lemma_bez_coord(xs3(c), a, b, p, u); lemma_bez_coord(ys3(c), a, b, p, u); lemma_bez_coord(zs3(c), a, b, p, u); }
/// the distinct values among the first m knots
pub open spec fn ddk(t: Seq<real>, m: int) -> Seq<real> decreases m { if m <= 0 { Seq::empty() } else { let d = ddk(t, m - 1); if d.len() > 0 && d[d.len() - 1] == t[m - 1] { d } else { d.push(t[m - 1]) } } }
pub open spec fn none_between(t: Seq<real>, a: real, b: real, m: int) -> bool { forall|j: int| 0 <= j < m ==> !(a < #[trigger] t[j] < b) }
pub proof fn lemma_ddk(t: Seq<real>, m: int)
    requires tsorted(t), 1 <= m <= t.len()
    ensures ddk(t, m).len() >= 1, ddk(t, m)[0] == t[0], ddk(t, m)[ddk(t, m).len() - 1] == t[m - 1],
        forall|i: int| 0 <= i < ddk(t, m).len() - 1 ==> #[trigger] ddk(t, m)[i] < ddk(t, m)[i + 1] && none_between(t, ddk(t, m)[i], ddk(t, m)[i + 1], m)
    decreases m
{
    if m > 1 {
        lemma_ddk(t, m - 1); let (d, e) = (ddk(t, m - 1), ddk(t, m)); let l = d.len() - 1;
        assert(t[m - 2] <= t[m - 1]);
        assert forall|i: int| 0 <= i < e.len() - 1 implies #[trigger] e[i] < e[i + 1] && none_between(t, e[i], e[i + 1], m) by {
            if i < l { assert(e[i] == d[i] && e[i + 1] == d[i + 1]); lemma_ddk_top(t, m - 1, i + 1); assert forall|j: int| 0 <= j < m implies !(e[i] < #[trigger] t[j] < e[i + 1]) by { if j == m - 1 { assert(d[i + 1] <= t[m - 2]); } } }
            else { assert(e[i] == t[m - 2] && e[i + 1] == t[m - 1]); assert forall|j: int| 0 <= j < m implies !(e[i] < #[trigger] t[j] < e[i + 1]) by { if j < m - 1 { assert(t[j] <= t[m - 2]); } } }
        }
    } else { assert(ddk(t, 0).len() == 0); }
}
proof fn lemma_ddk_top(t: Seq<real>, m: int, i: int)
    requires tsorted(t), 1 <= m <= t.len(), 0 <= i < ddk(t, m).len()
    ensures ddk(t, m)[i] <= t[m - 1]
    decreases m
{
    if m > 1 { assert(t[m - 2] <= t[m - 1]); if i < ddk(t, m - 1).len() { lemma_ddk_top(t, m - 1, i); } } else { assert(ddk(t, 0).len() == 0); }
}
proof fn lemma_ddk_mono(d: Seq<real>, i: int, j: int) requires 0 <= i <= j < d.len(), forall|k: int| 0 <= k < d.len() - 1 ==> #[trigger] d[k] < d[k + 1] ensures d[i] <= d[j], i < j ==> d[i] < d[j] decreases j - i { if i < j { lemma_ddk_mono(d, i, j - 1); assert(d[j - 1] < d[j - 1 + 1]); } }
proof fn lemma_between(t: Seq<real>, x: real, h: real)
    requires tsorted(t), x < h, none_between(t, x, h, t.len() as int)
    ensures kle(t, x) == klt(t, h)
{
    hide(nle); hide(nlt);
    lemma_mult(t, h); let k = klt(t, h);
    assert forall|j: int| 0 <= j < k implies #[trigger] t[j] <= x by { assert(t[j] < h); }
    assert forall|j: int| k <= j < t.len() implies #[trigger] t[j] > x by { if j < kle(t, h) { assert(t[j] == h); } else { assert(t[j] > h); } }
    lemma_kle(t, x, k);
}
/// counting on knots where another value was repeated
proof fn lemma_blk_above(t: Seq<real>, y: real, m: int, x: real)
    requires tsorted(t), m >= 0, x > y
    ensures klt(blk(t, y, m), x) == klt(t, x) + m - mult(t, y), kle(blk(t, y, m), x) == kle(t, x) + m - mult(t, y)
{
    hide(nle); hide(nlt);
    lemma_mult(t, y); lemma_mult(t, x); lemma_blk(t, y, m); let w = blk(t, y, m); let s = m - mult(t, y); let (a, b) = (klt(t, x) + s, kle(t, x) + s); let e = klt(t, y) + m;
    if klt(t, x) < kle(t, y) { assert(t[klt(t, x)] >= x) by { let q = klt(t, x); if q < kle(t, x) { assert(t[q] == x); } else { assert(t[q] > x); } } assert(t[klt(t, x)] <= y) by { let q = klt(t, x); if q < klt(t, y) { assert(t[q] < y); } else { assert(t[q] == y); } } }
    assert forall|j: int| 0 <= j < a implies #[trigger] w[j] < x by { if j < klt(t, y) { assert(t[j] < y); } else if j >= e { assert(t[j - s] < x); } }
    assert forall|j: int| a <= j < w.len() implies #[trigger] w[j] >= x by { let q = j - s; if q < kle(t, x) { assert(t[q] == x); } else { assert(t[q] > x); } }
    assert forall|j: int| 0 <= j < b implies #[trigger] w[j] <= x by { if j >= a { assert(t[j - s] == x); } else { assert(w[j] < x); } }
    assert forall|j: int| b <= j < w.len() implies #[trigger] w[j] > x by { assert(t[j - s] > x); }
    lemma_klt(w, x, a); lemma_kle(w, x, b);
}
proof fn lemma_blk_below(t: Seq<real>, y: real, m: int, x: real)
    requires tsorted(t), m >= 0, x < y
    ensures klt(blk(t, y, m), x) == klt(t, x), kle(blk(t, y, m), x) == kle(t, x)
{
    hide(nle); hide(nlt);
    lemma_mult(t, y); lemma_mult(t, x); lemma_blk(t, y, m); let w = blk(t, y, m); let (a, b) = (klt(t, x), kle(t, x)); let e = klt(t, y);
    if b > e { assert(t[e] <= x) by { if e < a { assert(t[e] < x); } else { assert(t[e] == x); } } assert(t[e] >= y) by { if e < kle(t, y) { assert(t[e] == y); } else { assert(t[e] > y); } } }
    assert forall|j: int| 0 <= j < a implies #[trigger] w[j] < x by { assert(t[j] < x); }
    assert forall|j: int| 0 <= j < b implies #[trigger] w[j] <= x by { if j >= a { assert(t[j] == x); } else { assert(t[j] < x); } }
    assert forall|j: int| b <= j < w.len() implies #[trigger] w[j] > x by { if j < e { assert(t[j] > x); } else if j >= e + m { assert(t[j - m + mult(t, y)] > y); } }
    assert forall|j: int| a <= j < w.len() implies #[trigger] w[j] >= x by { if j < b { assert(t[j] == x); } else { assert(w[j] > x); } }
    lemma_klt(w, x, a); lemma_kle(w, x, b);
}
/// no knot more often than degree + 1
pub open spec fn mults_ok(t: Seq<real>, p: int) -> bool { forall|j: int| 0 <= j < t.len() ==> mult(t, #[trigger] t[j]) <= p + 1 }
/// the first knots, up to hi which is full
pub open spec fn pre(w: Seq<real>, hi: real, p: int) -> Seq<real> { w.subrange(0, klt(w, hi)) + rrep(hi, p + 1) }
pub proof fn lemma_tc(t: Seq<real>, p: int)
    requires knots_sorted(t), mults_ok(t, p), p >= 0
    ensures ({ let w = clamped_k(t, p); tsorted(w) && w == pre(w, klast(t), p) && kle(w, t[0]) == p + 1 && klt(w, t[0]) == 0 && (forall|j: int| 0 <= j <= p ==> #[trigger] w[j] == t[0]) })
{
    hide(nle); hide(nlt);
    let (x0, xl) = (t[0], klast(t)); let t1 = blk(t, x0, p + 1);
    assert(mult(t, t[0]) <= p + 1); assert(mult(t, t[t.len() - 1]) <= p + 1);
    lemma_end_knots(t, p + 1); lemma_mult(t, x0); lemma_mult(t, xl); lemma_blk(t, x0, p + 1); lemma_blk_above(t, x0, p + 1, xl); lemma_end_knots(t1, p + 1);
    let w = blk(t1, xl, p + 1); lemma_mult(t1, xl); lemma_blk(t1, xl, p + 1); lemma_blk_below(t1, xl, p + 1, x0);
    assert(w == clamped_k(t, p));
    assert(w =~= pre(w, xl, p));
    assert(klt(t1, xl) >= kle(t1, x0)) by { let q = klt(t1, xl); if q < kle(t1, x0) { lemma_mult(t1, x0); assert(t1[q] <= x0) by { if q < klt(t1, x0) { assert(t1[q] < x0); } else { assert(t1[q] == x0); } } assert(t1[q] >= xl) by { if q < kle(t1, xl) { assert(t1[q] == xl); } else { assert(t1[q] > xl); } } } }
    assert forall|j: int| 0 <= j <= p implies #[trigger] w[j] == t[0] by { assert(w[j] == t1[j]); }
}
/// neighbouring distinct knots stay neighbours, interior ones keep their multiplicity
pub proof fn lemma_tc_at(t: Seq<real>, p: int, x: real, h: real)
    requires knots_sorted(t), mults_ok(t, p), p >= 0, t[0] <= x < h <= klast(t), none_between(t, x, h, t.len() as int)
    ensures ({ let w = clamped_k(t, p); kle(w, x) == klt(w, h) && (t[0] < x ==> mult(w, x) == mult(t, x)) })
{
    hide(nle); hide(nlt);
    let (x0, xl) = (t[0], klast(t)); let t1 = blk(t, x0, p + 1);
    assert(mult(t, t[0]) <= p + 1); assert(mult(t, t[t.len() - 1]) <= p + 1);
    lemma_end_knots(t, p + 1); lemma_mult(t, x0); lemma_mult(t, xl); lemma_blk(t, x0, p + 1); lemma_blk_above(t, x0, p + 1, xl); lemma_end_knots(t1, p + 1);
    let w = blk(t1, xl, p + 1); lemma_mult(t1, xl); lemma_blk(t1, xl, p + 1);
    assert(w == clamped_k(t, p));
    lemma_between(t, x, h);
    lemma_blk_below(t1, xl, p + 1, x); if h < xl { lemma_blk_below(t1, xl, p + 1, h); }
    lemma_blk_above(t, x0, p + 1, h); if x0 < x { lemma_blk_above(t, x0, p + 1, x); }
}
proof fn lemma_pre(w: Seq<real>, hi: real, p: int, x: real)
    requires tsorted(w), tsorted(pre(w, hi, p)), p >= 0, x < hi, kle(w, x) == klt(w, hi)
    ensures klt(pre(w, hi, p), x) == klt(w, x), kle(pre(w, hi, p), x) == kle(w, x), klast(pre(w, hi, p)) == hi, pre(w, hi, p).len() == klt(w, hi) + p + 1
{
    hide(nle); hide(nlt);
    lemma_mult(w, x); lemma_mult(w, hi); let b = pre(w, hi, p); let a = klt(w, hi); let c = klt(w, x);
    assert forall|j: int| 0 <= j < a implies #[trigger] b[j] <= x by { if j < c { assert(w[j] < x); } else { assert(w[j] == x); } }
    assert forall|j: int| 0 <= j < c implies #[trigger] b[j] < x by { assert(w[j] < x); }
    assert forall|j: int| c <= j < b.len() implies #[trigger] b[j] >= x by { if j < a { assert(w[j] == x); } }
    lemma_kle(b, x, a); lemma_klt(b, x, c);
}
proof fn lemma_pre_split(w: Seq<real>, hi: real, p: int, x: real, f: Seq<real>, r: Seq<real>)
    requires tsorted(w), tsorted(pre(w, hi, p)), p >= 0, x < hi, kle(w, x) == klt(w, hi), mult(w, x) <= p + 1, half_knots(pre(w, hi, p), x, p, f, r)
    ensures f == pre(w, x, p), r == rrep(x, p + 1) + rrep(hi, p + 1)
{
    hide(nle); hide(nlt);
    let b = pre(w, hi, p); lemma_pre(w, hi, p, x); lemma_mult(w, x); lemma_mult(w, hi); lemma_blk(b, x, p + 1);
    let v = blk(b, x, p + 1); assert(imax(mult(b, x), p + 1) == p + 1);
    assert(f =~= pre(w, x, p)); assert(r =~= rrep(x, p + 1) + rrep(hi, p + 1));
}
/// the part of the curve up to hi is still to be cut
pub open spec fn dstate(o: BSplineCurve<Point3>, b: BSplineCurve<Point3>, hi: real) -> bool {
    &&& spl_ok(b) && b.degree == o.degree && bk(b) == pre(clamped_k(bk(o), o.degree as int), hi, o.degree as int) && bk(b)[0] == bk(o)[0] && klast(bk(b)) == hi
    &&& forall|u: real| bk(o)[0] <= u < hi ==> #[trigger] bpt(b, u) == bpt(o, u)
    &&& hi == klast(bk(o)) || mult(bk(o), hi) <= o.degree ==> bpt(b, hi) == bpt(o, hi)
}
/// the Bezier piece over a..b: degree + 1 control points, the curve itself on a..b (at b when the curve is continuous there)
pub open spec fn piece_ok(o: BSplineCurve<Point3>, a: real, b: real, c: Seq<Point3>) -> bool {
    &&& c.len() == o.degree + 1
    &&& forall|u: real| a <= u && (u < b || u == b && (b == klast(bk(o)) || mult(bk(o), b) <= o.degree)) ==> curve3(c, (u - a) * rinv(b - a)) == #[trigger] bpt(o, u)
}
proof fn lemma_d_init(o: BSplineCurve<Point3>, b: BSplineCurve<Point3>)
    requires spl_ok(o), mults_ok(bk(o), o.degree as int), spl_ok(b), same_curve(b, o), bk(b) == clamped_k(bk(o), o.degree as int)
    ensures dstate(o, b, klast(bk(o)))
{
    hide(bpt); hide(nle); hide(nlt); lemma_tc(bk(o), o.degree as int);
    assert(bpt(b, klast(bk(o))) == bpt(o, klast(bk(o)))) by { assert(bk(o)[0] <= klast(bk(o))); }
}
proof fn lemma_d_pre(o: BSplineCurve<Point3>, b: BSplineCurve<Point3>, x: real, hi: real)
    requires spl_ok(o), mults_ok(bk(o), o.degree as int), dstate(o, b, hi), bk(o)[0] < x < hi <= klast(bk(o)), none_between(bk(o), x, hi, bk(o).len() as int), mult(bk(o), x) >= 1
    ensures split_at(b, x) == x, xsep(bk(b), x), bk(b)[0] < x < klast(bk(b))
{
    hide(bpt); hide(nle); hide(nlt);
    let p = o.degree as int; let w = clamped_k(bk(o), p); lemma_tc(bk(o), p); lemma_tc_at(bk(o), p, x, hi); lemma_pre(w, hi, p, x); lemma_mult(bk(b), x);
    assert(bk(b)[kle(bk(b), x) - 1] == x);
}
proof fn lemma_d_step(o: BSplineCurve<Point3>, b: BSplineCurve<Point3>, x: real, hi: real, f: BSplineCurve<Point3>, r: BSplineCurve<Point3>)
    requires spl_ok(o), mults_ok(bk(o), o.degree as int), dstate(o, b, hi), bk(o)[0] < x < hi <= klast(bk(o)), none_between(bk(o), x, hi, bk(o).len() as int), 1 <= mult(bk(o), x) <= o.degree + 1,
        spl_ok(f), spl_ok(r), halves(b, x, f, r), half_knots(bk(b), x, b.degree as int, bk(f), bk(r)),
    ensures dstate(o, f, x), piece_ok(o, x, hi, r.control_points@)
{
    hide(bpt); hide(nle); hide(nlt); hide(rinv); hide(bezier_r);
    let p = o.degree as int; let w = clamped_k(bk(o), p); lemma_tc(bk(o), p); lemma_tc_at(bk(o), p, x, hi); lemma_pre(w, hi, p, x); lemma_pre_split(w, hi, p, x, bk(f), bk(r));
    assert(mult(bk(b), x) == mult(bk(o), x));
    assert forall|u: real| bk(o)[0] <= u < x implies #[trigger] bpt(f, u) == bpt(o, u) by { assert(bpt(b, u) == bpt(o, u)); }
    assert(bpt(b, x) == bpt(o, x));
    assert(r.control_points@.len() == p + 1) by { assert(bk(r).len() == 2 * p + 2); }
    assert forall|u: real| x <= u && (u < hi || u == hi && (hi == klast(bk(o)) || mult(bk(o), hi) <= o.degree)) implies curve3(r.control_points@, (u - x) * rinv(hi - x)) == #[trigger] bpt(o, u) by {
        assert(bpt(b, u) == bpt(o, u)); assert(bpt(r, u) == bpt(b, u)); lemma_d_bpt(r, x, hi, u);
    }
}
proof fn lemma_d_bpt(r: BSplineCurve<Point3>, a: real, b: real, u: real)
    requires bk(r) == rrep(a, r.degree + 1) + rrep(b, r.degree + 1), r.control_points@.len() == r.degree + 1, a < b, a <= u <= b
    ensures bpt(r, u) == curve3(r.control_points@, (u - a) * rinv(b - a))
{ lemma_bez_curve(r.control_points@, a, b, r.degree as int, u); }
proof fn lemma_d_last(o: BSplineCurve<Point3>, b: BSplineCurve<Point3>, hi: real)
    requires spl_ok(o), mults_ok(bk(o), o.degree as int), dstate(o, b, hi), bk(o)[0] < hi <= klast(bk(o)), none_between(bk(o), bk(o)[0], hi, bk(o).len() as int)
    ensures piece_ok(o, bk(o)[0], hi, b.control_points@)
{
    hide(bpt); hide(nle); hide(nlt); hide(rinv); hide(bezier_r);
    let p = o.degree as int; let x = bk(o)[0]; let w = clamped_k(bk(o), p); lemma_tc(bk(o), p); lemma_tc_at(bk(o), p, x, hi);
    lemma_mult(w, hi);
    assert(bk(b) =~= rrep(x, p + 1) + rrep(hi, p + 1));
    assert forall|u: real| x <= u && (u < hi || u == hi && (hi == klast(bk(o)) || mult(bk(o), hi) <= o.degree)) implies curve3(b.control_points@, (u - x) * rinv(hi - x)) == #[trigger] bpt(o, u) by {
        assert(bpt(b, u) == bpt(o, u)); lemma_d_bpt(b, x, hi, u);
    }
}
/// knots closer than the tolerance are equal
pub open spec fn near_sep(t: Seq<real>) -> bool { forall|i: int, j: int| #![trigger t[i], t[j]] 0 <= i < t.len() && 0 <= j < t.len() && near_r(t[i], t[j]) ==> t[i] == t[j] }
proof fn lemma_ddk_mem(t: Seq<real>, m: int, i: int)
    requires 0 <= m <= t.len(), 0 <= i < ddk(t, m).len()
    ensures exists|j: int| 0 <= j < m && #[trigger] t[j] == ddk(t, m)[i]
    decreases m
{ if m > 0 { let d = ddk(t, m - 1); if i < d.len() { lemma_ddk_mem(t, m - 1, i); assert(ddk(t, m)[i] == d[i]); let j = choose|j: int| 0 <= j < m - 1 && #[trigger] t[j] == d[i]; assert(t[j] == ddk(t, m)[i]); } else { assert(t[m - 1] == ddk(t, m)[i]); } } }
/// what the loop needs of the distinct knot x below the distinct knot hi
proof fn lemma_dd(o: BSplineCurve<Point3>, d: Seq<real>, k: int)
    requires spl_ok(o), mults_ok(bk(o), o.degree as int), d == ddk(bk(o), bk(o).len() as int), 0 <= k < d.len() - 1
    ensures d[0] == bk(o)[0], d[d.len() - 1] == klast(bk(o)), bk(o)[0] <= d[k] < d[k + 1] <= klast(bk(o)), k > 0 ==> bk(o)[0] < d[k], none_between(bk(o), d[k], d[k + 1], bk(o).len() as int), 1 <= mult(bk(o), d[k]) <= o.degree + 1
{
    hide(nle); hide(nlt); hide(ddk);
    let t = bk(o); lemma_ddk(t, t.len() as int); lemma_ddk_mono(d, 0, k); lemma_ddk_mono(d, k + 1, d.len() - 1); lemma_ddk_mem(t, t.len() as int, k);
    assert(d[k] < d[k + 1]);
    let j = choose|j: int| 0 <= j < t.len() && #[trigger] t[j] == d[k]; assert(mult(t, t[j]) <= o.degree + 1); lemma_mult(t, d[k]);
    if mult(t, d[k]) < 1 { if j < klt(t, d[k]) { assert(t[j] < d[k]); } else { assert(t[j] > d[k]); } }
}
pub open spec fn pieces_ok(o: BSplineCurve<Point3>, d: Seq<real>, r: Seq<BezierCurve<Point3>>) -> bool { r.len() == d.len() - 1 && forall|i: int| 0 <= i < r.len() ==> piece_ok(o, d[i], d[i + 1], #[trigger] r[i].control_points@) }
/// the pieces above hi = d[d.len() - i + 1], last first
pub open spec fn tail_ok(o: BSplineCurve<Point3>, d: Seq<real>, r: Seq<BezierCurve<Point3>>, c: int) -> bool { r.len() == c && c <= d.len() - 1 && forall|j: int| 0 <= j < c ==> piece_ok(o, d[d.len() - 2 - j], d[d.len() - 1 - j], #[trigger] r[j].control_points@) }
proof fn lemma_tail(o: BSplineCurve<Point3>, d: Seq<real>, r: Seq<BezierCurve<Point3>>, c: int, s: Seq<BezierCurve<Point3>>)
    requires tail_ok(o, d, r, c), c < d.len() - 1, s.len() == c + 1, s.drop_last() == r, piece_ok(o, d[d.len() - 2 - c], d[d.len() - 1 - c], s[c].control_points@)
    ensures tail_ok(o, d, s, c + 1)
{
    hide(piece_ok);
    assert forall|j: int| 0 <= j < c + 1 implies piece_ok(o, d[d.len() - 2 - j], d[d.len() - 1 - j], #[trigger] s[j].control_points@) by { if j < c { assert(s[j] == r[j]); } }
}
proof fn lemma_tail_rev(o: BSplineCurve<Point3>, d: Seq<real>, r: Seq<BezierCurve<Point3>>)
    requires tail_ok(o, d, r, d.len() - 1)
    ensures pieces_ok(o, d, r.reverse())
{
    hide(piece_ok); let n = r.len() as int; let s = r.reverse();
    assert forall|i: int| 0 <= i < s.len() implies piece_ok(o, d[i], d[i + 1], #[trigger] s[i].control_points@) by { assert(s[i] == r[n - 1 - i]); }
}
//@ fn BSplineCurve<Point3>::to_piecewise_bezier ret=r loops=2
    requires spl_ok(*self), mults_ok(bk(*self), self.degree as int), near_sep(bk(*self)),
    ensures pieces_ok(*self, ddk(bk(*self), bk(*self).len() as int), r@)
//@ ghost start
    hide(nle); hide(nlt); hide(bpt); hide(blk); hide(clamped_k); hide(dstate); hide(piece_ok); hide(same_curve); hide(halves); hide(half_knots); hide(tsorted); hide(pre); hide(ddk); hide(mults_ok); hide(xsep); hide(split_at);
    let ghost o = *self; let ghost t = bk(o); let ghost d = ddk(t, t.len() as int);
    let ghost mut r1: Seq<BezierCurve<Point3>> = Seq::empty(); let ghost mut bl = *self;
    assert(t.len() == self.knots.0@.len());
//@ ghost loop0.before
    proof { lemma_d_init(o, bspline); lemma_ddk0(t); }
//@ loop 0
    vals(__dd@) == ddk(t, $i0 as int), dstate(o, bspline, klast(t)), 
//@ ghost loop0.start
    proof { if $j0 > 0 { lemma_ddk_1(t, $j0 as int); } }
//@ ghost loop0.end
    proof { lemma_ddk_s(t, $j0 as int); }
//@ ghost loop0.after
    proof { lemma_ddk_1(t, t.len() as int); }
//@ ghost loop1.before
    proof { assert(vals(knots@) == d); assert(knots@.len() == d.len()); lemma_dd(o, d, d.len() - 2); }
//@ loop 1
    $b1 == 2, $e1 == n, n == d.len(), n >= 2, $i1 <= n, vals(knots@) == d, dstate(o, bspline, d[n - $i1 + 1]), tail_ok(o, d, result@, $i1 - 2),
//@ ghost loop1.start
    let ghost b0 = bspline; let ghost r0 = result@; let ghost x = d[n - $j1]; let ghost hi = d[n - $j1 + 1];
    proof { lemma_dd(o, d, n - $j1); lemma_d_pre(o, b0, x, hi); lemma_d_at(o, b0, x, hi); assert(knots@[n - $j1].v() == x); }
//@ ghost loop1.end
    proof { let q = result@.last(); assert(result@.drop_last() =~= r0); lemma_d_step(o, b0, x, hi, bspline, piece); lemma_tail(o, d, r0, $j1 - 2, result@); }
//@ ghost loop1.after
    proof { r1 = result@; bl = bspline; lemma_dd(o, d, 0); lemma_d_last(o, bl, d[1]); }
//@ ghost return
    proof { let s1 = r1.push(BezierCurve { control_points: bl.control_points }); assert(s1.drop_last() =~= r1); lemma_tail(o, d, r1, d.len() - 2, s1); lemma_tail_rev(o, d, s1); }
//@ raw
proof fn lemma_d_at(o: BSplineCurve<Point3>, b: BSplineCurve<Point3>, x: real, hi: real)
    requires dstate(o, b, hi), bk(b)[0] < x < klast(bk(b)) ensures spl_ok(b), bk(b)[0] <= x < klast(bk(b)), b.degree == o.degree {}
proof fn lemma_ddk0(t: Seq<real>) ensures ddk(t, 0) == Seq::<real>::empty() {}
proof fn lemma_ddk_1(t: Seq<real>, m: int) requires knots_sorted(t), 1 <= m <= t.len() ensures ddk(t, m).len() >= 1, ddk(t, m)[ddk(t, m).len() - 1] == t[m - 1], m == t.len() ==> ddk(t, m).len() >= 2 { lemma_ddk(t, m); }
proof fn lemma_ddk_s(t: Seq<real>, m: int) requires 0 <= m < t.len() ensures ddk(t, m + 1) == (if ddk(t, m).len() > 0 && ddk(t, m)[ddk(t, m).len() - 1] == t[m] { ddk(t, m) } else { ddk(t, m).push(t[m]) }) {}
