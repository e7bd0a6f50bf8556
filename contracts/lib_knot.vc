//@ raw
// ---- knot sequences over the reals
pub open spec fn tsorted(t: Seq<real>) -> bool { forall|i: int, j: int| #![trigger t[i], t[j]] 0 <= i <= j < t.len() ==> t[i] <= t[j] }
/// distinct knots are further apart than the comparison tolerance of the crate
pub open spec fn tsep(t: Seq<real>) -> bool {
    &&& forall|i: int, j: int| #![trigger t[i], t[j]] 0 <= i <= j < t.len() && ulps_eq_r(t[j] - t[i], 0real) ==> t[i] == t[j]
    &&& forall|i: int, j: int| #![trigger t[i], t[j]] 0 <= i < t.len() && 0 <= j < t.len() && ulps_eq_r(t[i], t[j]) ==> t[i] == t[j]
}
pub open spec fn knots_ok(t: Seq<real>) -> bool { t.len() >= 2 && tsorted(t) && tsep(t) && t[0] < t[t.len() - 1] }
/// the non-empty span the parameter belongs to (the last one for the right end)
pub open spec fn is_span(t: Seq<real>, u: real, s: int) -> bool {
    &&& 0 <= s < t.len() - 1
    &&& t[s] <= u && t[s] < t[s + 1]
    &&& (u < t[s + 1] || (u >= t[t.len() - 1] && t[s + 1] == t[t.len() - 1]))
}
pub open spec fn rinv(d: real) -> real { if d == 0real { 0real } else { 1real / d } }
/// Cox-de Boor basis: degree k, i-th function, with 0/0 = 0 and the last span closed on the right
pub open spec fn bsp(t: Seq<real>, i: int, k: int, u: real) -> real
    decreases k
{
    if k <= 0 { if is_span(t, u, i) { 1real } else { 0real } }
    else { (u - t[i]) * rinv(t[i + k] - t[i]) * bsp(t, i, k - 1, u) + (t[i + k + 1] - u) * rinv(t[i + k + 1] - t[i + 1]) * bsp(t, i + 1, k - 1, u) }
}
pub open spec fn bsps(t: Seq<real>, p: int, u: real, n: int) -> Seq<real> { Seq::new(n as nat, |i: int| bsp(t, i, p, u)) }
/// one coordinate of a B-spline curve
pub open spec fn bspl_r(c: Seq<real>, t: Seq<real>, p: int, u: real) -> real { dotp(bsps(t, p, u, c.len() as int), c, c.len() as int) }

pub proof fn lemma_bsp0(t: Seq<real>, i: int, u: real) ensures bsp(t, i, 0, u) == (if is_span(t, u, i) { 1real } else { 0real }) {}
pub proof fn lemma_bsp_step(t: Seq<real>, i: int, k: int, u: real)
    requires k >= 1
    ensures bsp(t, i, k, u) == (u - t[i]) * rinv(t[i + k] - t[i]) * bsp(t, i, k - 1, u) + (t[i + k + 1] - u) * rinv(t[i + k + 1] - t[i + 1]) * bsp(t, i + 1, k - 1, u)
{}
pub proof fn lemma_span_unique(t: Seq<real>, u: real, s: int, i: int)
    requires tsorted(t), is_span(t, u, s), is_span(t, u, i)
    ensures s == i
{
    if s < i { assert(t[s + 1] <= t[i]); assert(t[i + 1] <= t[t.len() - 1]); }
    if i < s { assert(t[i + 1] <= t[s]); assert(t[s + 1] <= t[t.len() - 1]); }
}
/// local support
pub proof fn lemma_bsp_support(t: Seq<real>, i: int, k: int, u: real, s: int)
    requires tsorted(t), is_span(t, u, s), k >= 0, s < i || s > i + k
    ensures bsp(t, i, k, u) == 0real
    decreases k
{
    if k > 0 {
        lemma_bsp_support(t, i, k - 1, u, s);
        lemma_bsp_support(t, i + 1, k - 1, u, s);
        let a = (u - t[i]) * rinv(t[i + k] - t[i]); let b = (t[i + k + 1] - u) * rinv(t[i + k + 1] - t[i + 1]);
        assert(a * 0real + b * 0real == 0real) by(nonlinear_arith);
    } else if is_span(t, u, i) { lemma_span_unique(t, u, s, i); }
}
/// a basis function over an empty stretch of knots vanishes
pub proof fn lemma_bsp_empty(t: Seq<real>, i: int, k: int, u: real, s: int)
    requires tsorted(t), is_span(t, u, s), k >= 0, 0 <= i, i + k + 1 < t.len(), t[i] == t[i + k + 1]
    ensures bsp(t, i, k, u) == 0real
{
    if i <= s <= i + k { assert(t[i] <= t[s]); assert(t[s + 1] <= t[i + k + 1]); }
    lemma_bsp_support(t, i, k, u, s);
}
/// one application of the recurrence with the running factors used by the in-place algorithm
pub open spec fn lfac(t: Seq<real>, i: int, k: int, u: real) -> real { (u - t[i]) * rinv(t[i + k] - t[i]) }
pub open spec fn rinv_tol(d: real) -> real { if ulps_eq_r(d, 0real) { 0real } else { 1real / d } }
pub proof fn lemma_rinv_tol(t: Seq<real>, i: int, j: int)
    requires tsep(t), 0 <= i <= j < t.len()
    ensures rinv_tol(t[j] - t[i]) == rinv(t[j] - t[i])
{ if t[i] == t[j] { ax_ulps_refl(t[j] - t[i], 0real); } else { assert(!ulps_eq_r(t[j] - t[i], 0real)); } }
pub proof fn lemma_basis_init(t: Seq<real>, u: real, s: int, q: int, k: int, d: real, a: real)
    requires knots_ok(t), 0 <= q, k >= 1, q + k < t.len(), d == t[q + k] - t[q], a == rinv_tol(d) * (u - t[q])
    ensures a == lfac(t, q, k, u)
{ lemma_rinv_tol(t, q, q + k); let x = rinv(d); let y = u - t[q]; assert(x * y == y * x) by(nonlinear_arith); }
pub proof fn lemma_basis_step(t: Seq<real>, u: real, s: int, q: int, k: int, a0: real, b: real, a: real)
    requires knots_ok(t), is_span(t, u, s), 0 <= q, k >= 1, q + k + 1 < t.len(),
        a0 * bsp(t, q, k - 1, u) == lfac(t, q, k, u) * bsp(t, q, k - 1, u),
        b == rinv_tol(t[q + k + 1] - t[q + 1]) * (t[q + k + 1] - u), a == 1real - b,
    ensures a0 * bsp(t, q, k - 1, u) + b * bsp(t, q + 1, k - 1, u) == bsp(t, q, k, u),
        a * bsp(t, q + 1, k - 1, u) == lfac(t, q + 1, k, u) * bsp(t, q + 1, k - 1, u),
{
    let d1 = t[q + k + 1] - t[q + 1]; let f1 = bsp(t, q + 1, k - 1, u); let x = rinv(d1); let y = t[q + k + 1] - u; let z = u - t[q + 1];
    lemma_rinv_tol(t, q + 1, q + k + 1);
    lemma_bsp_step(t, q, k, u);
    assert(x * y == y * x) by(nonlinear_arith);
    if d1 == 0real {
        lemma_bsp_empty(t, q + 1, k - 1, u, s);
        assert(f1 == 0real);
        assert(a * f1 == 0real && (z * x) * f1 == 0real) by(nonlinear_arith) requires f1 == 0real;
    } else {
        assert(1real - x * y == z * x) by(nonlinear_arith) requires x == 1real / d1, d1 == y + z, d1 != 0real;
    }
}
// ---- multiplicities
pub open spec fn cnt(t: Seq<real>, x: real, m: int) -> int decreases m { if m <= 0 { 0 } else { cnt(t, x, m - 1) + (if ulps_eq_r(x, t[m - 1]) { 1int } else { 0 }) } }
pub proof fn lemma_cnt_bound(t: Seq<real>, x: real, m: int) requires m >= 0 ensures 0 <= cnt(t, x, m) <= m decreases m { if m > 0 { lemma_cnt_bound(t, x, m - 1); } }
pub proof fn lemma_cnt_block(t: Seq<real>, x: real, lo: int, hi: int, m: int)
    requires 0 <= lo <= hi <= t.len(), 0 <= m <= t.len(),
        forall|j: int| 0 <= j < t.len() ==> (ulps_eq_r(x, #[trigger] t[j]) <==> lo <= j < hi)
    ensures cnt(t, x, m) == (if m <= lo { 0 } else if m <= hi { m - lo } else { hi - lo })
    decreases m
{ if m > 0 { lemma_cnt_block(t, x, lo, hi, m - 1); assert(ulps_eq_r(x, t[m - 1]) <==> lo <= m - 1 < hi); } }
/// index of the first knot equal to the i-th
pub open spec fn first_eq(t: Seq<real>, i: int) -> int decreases i { if i <= 0 { 0 } else if t[i - 1] == t[i] { first_eq(t, i - 1) } else { i } }
pub proof fn lemma_first_eq(t: Seq<real>, i: int)
    requires tsorted(t), 0 <= i < t.len()
    ensures 0 <= first_eq(t, i) <= i, forall|j: int| first_eq(t, i) <= j <= i ==> #[trigger] t[j] == t[i], forall|j: int| 0 <= j < first_eq(t, i) ==> #[trigger] t[j] < t[i]
    decreases i
{
    if i > 0 && t[i - 1] == t[i] { lemma_first_eq(t, i - 1); }
    else if i > 0 { assert forall|j: int| 0 <= j < i implies #[trigger] t[j] < t[i] by { assert(t[j] <= t[i - 1]); assert(t[i - 1] <= t[i]); } }
}
pub proof fn lemma_last_mult(t: Seq<real>)
    requires knots_ok(t)
    ensures ({ let l = t.len() - 1; let f = first_eq(t, l);
        cnt(t, t[l], t.len() as int) == t.len() - f && 1 <= f <= l && t[f - 1] < t[f] && t[f] == t[l] })
{
    let l = t.len() - 1;
    lemma_first_eq(t, l);
    let f = first_eq(t, l);
    assert forall|j: int| 0 <= j < t.len() implies (ulps_eq_r(t[l], #[trigger] t[j]) <==> f <= j < t.len()) by {
        if f <= j { assert(t[j] == t[l]); ax_ulps_refl(t[l], t[j]); }
    }
    lemma_cnt_block(t, t[l], f, t.len() as int, t.len() as int);
}
//@ struct KnotVector
//@ fn inv_or_zero params=delta ret=r
    ensures r == fl(rinv_tol(delta.v())),
//@ ghost start
    proof { if delta.v() == 0real { ax_ulps_refl(delta.v(), 0real); } }
//@ fn KnotVector::deref as=trait:core::ops::Deref ret=r
    ensures r == &self.0
//@ ghost impl
 type Target = Vec<Float>;
//@ fn KnotVector::multiplicity params=i ret=r loops=1
    requires i < self.0@.len()
    ensures r == cnt(vals(self.0@), self.0@[i as int].v(), self.0@.len() as int), r <= self.0@.len()
//@ loop 0
    $n0 == self.0@.len(), $acc0 == cnt(vals(self.0@), self.0@[i as int].v(), $i0 as int), $acc0 <= $i0,
//@ fn KnotVector::span_index params=u ret=r loops=1
    requires knots_ok(vals(self.0@)), self.0@[0].v() <= u.v(),
    ensures is_span(vals(self.0@), u.v(), r as int),
//@ loop 0
    $n0 == self.0@.len(),
    !$hit0 ==> forall|j: int| $i0 <= j < $n0 ==> #[trigger] self.0@[j].v() > u.v(),
    $hit0 ==> self.0@[$i0 as int].v() <= u.v() && forall|j: int| $i0 < j < $n0 ==> #[trigger] self.0@[j].v() > u.v(),
//@ ghost start
    proof { let t = vals(self.0@); lemma_last_mult(t); assert(t[0] == self.0@[0].v()); }
//@ fn KnotVector::bspline_basis params=degree,u ret=r loops=2
    requires knots_ok(vals(self.0@)), self.0@[0].v() <= u.v() <= self.0@[self.0@.len() - 1].v(), degree + 2 <= self.0@.len(), 2 * self.0@.len() <= usize::MAX,
    ensures r@.len() == self.0@.len() - 1 - degree,
        forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i].v() == bsp(vals(self.0@), i, degree as int, u.v()),
//@ loop 0
    n == self.0@.len() - 1, values@.len() == n, is_span(t, u.v(), index as int), index < n,
    forall|i: int| 0 <= i <= n - $i0 ==> #[trigger] values@[i].v() == bsp(t, i, $i0 - 1, u.v()),
//@ loop 0.0
    n == self.0@.len() - 1, values@.len() == n, is_span(t, u.v(), index as int),
    a.v() * bsp(t, $i0_0 as int, $j0 - 1, u.v()) == lfac(t, $i0_0 as int, $j0 as int, u.v()) * bsp(t, $i0_0 as int, $j0 - 1, u.v()),
    forall|i: int| 0 <= i < $i0_0 ==> #[trigger] values@[i].v() == bsp(t, i, $j0 as int, u.v()),
    forall|i: int| $i0_0 <= i <= n - $j0 ==> #[trigger] values@[i].v() == bsp(t, i, $j0 - 1, u.v()),
//@ ghost start
    hide(bsp); hide(lfac);
    let ghost t = vals(self.0@);
    assert(t.len() == self.0@.len() && t[0] == self.0@[0].v());
//@ ghost loop0.before
    proof { assert forall|i: int| 0 <= i <= n - 1 implies #[trigger] values@[i].v() == bsp(t, i, 0, u.v()) by { lemma_bsp0(t, i, u.v()); if is_span(t, u.v(), i) { lemma_span_unique(t, u.v(), index as int, i); } } }
//@ ghost loop0.0.before
    proof {
        lemma_basis_init(t, u.v(), index as int, base as int, k as int, delta.v(), a.v());
        assert forall|i: int| 0 <= i < base implies #[trigger] values@[i].v() == bsp(t, i, k as int, u.v()) by {
            lemma_bsp_support(t, i, k as int, u.v(), index as int); lemma_bsp_support(t, i, k - 1, u.v(), index as int); }
    }
//@ ghost loop0.0.start
    let ghost v0 = values@; let ghost a0 = a.v(); let ghost q = $j0_0 as int; let ghost kk = $j0 as int;
//@ ghost loop0.0.end
    proof {
        assert(v0[q].v() == bsp(t, q, kk - 1, u.v()) && v0[q + 1].v() == bsp(t, q + 1, kk - 1, u.v()));
        lemma_basis_step(t, u.v(), index as int, q, kk, a0, b.v(), a.v());
        assert(values@ == v0.update(q, values@[q]));
    }
//@ ghost loop0.end
    proof {
        assert forall|i: int| 0 <= i <= n - $i0 implies #[trigger] values@[i].v() == bsp(t, i, $i0 - 1, u.v()) by {
            if i > max { lemma_bsp_support(t, i, k as int, u.v(), index as int); lemma_bsp_support(t, i, k - 1, u.v(), index as int); }
        }
    }
