//@ raw
// Bernstein polynomials: the triangular recurrence and the textbook closed form
pub open spec fn bern(n: int, k: int, u: real) -> real
    decreases n
{
    if k < 0 || k > n { 0real }
    else if n <= 0 { 1real }
    else { (1real - u) * bern(n - 1, k, u) + u * bern(n - 1, k - 1, u) }
}
pub open spec fn rpow(u: real, k: int) -> real decreases k { if k <= 0 { 1real } else { u * rpow(u, k - 1) } }
pub open spec fn binom(n: int, k: int) -> real decreases n {
    if k < 0 || k > n { 0real } else if n <= 0 { 1real } else { binom(n - 1, k) + binom(n - 1, k - 1) }
}
/// C(n,k) u^k (1-u)^(n-k)
pub open spec fn bcoef(n: int, k: int, u: real) -> real { binom(n, k) * rpow(u, k) * rpow(1real - u, n - k) }
pub open spec fn bcoefs(n: int, u: real) -> Seq<real> { Seq::new((n + 1) as nat, |k: int| bcoef(n, k, u)) }
/// Bezier coordinate: sum over the control values of the Bernstein weights
pub open spec fn bezier_r(c: Seq<real>, u: real) -> real { dotp(bcoefs(c.len() - 1, u), c, c.len() as int) }

pub proof fn lemma_bern_step(n: int, k: int, u: real)
    requires n >= 1
    ensures bern(n, k, u) == (1real - u) * bern(n - 1, k, u) + u * bern(n - 1, k - 1, u)
{}
pub proof fn lemma_binom_out(n: int, k: int)
    requires k < 0 || k > n
    ensures binom(n, k) == 0real
{}
pub proof fn lemma_bern_closed(n: int, k: int, u: real)
    requires n >= 0, 0 <= k <= n
    ensures bern(n, k, u) == bcoef(n, k, u)
    decreases n
{
    let w = 1real - u;
    if n > 0 {
        lemma_bern_step(n, k, u);
        let c0 = binom(n - 1, k); let c1 = binom(n - 1, k - 1);
        assert(binom(n, k) == c0 + c1);
        let pu = rpow(u, k); let pw = rpow(w, n - k);
        assert(bern(n - 1, k, u) * w == c0 * pu * pw) by {
            if k <= n - 1 {
                lemma_bern_closed(n - 1, k, u);
                let q = rpow(w, n - 1 - k);
                assert(pw == w * q);
                assert((c0 * pu * q) * w == c0 * pu * (w * q)) by(nonlinear_arith);
            } else { assert(c0 == 0real); assert(bern(n - 1, k, u) == 0real); assert(0real * w == 0real); assert(c0 * pu * pw == 0real) by(nonlinear_arith) requires c0 == 0real; }
        }
        assert(bern(n - 1, k - 1, u) * u == c1 * pu * pw) by {
            if k >= 1 {
                lemma_bern_closed(n - 1, k - 1, u);
                let q = rpow(u, k - 1);
                assert(pu == u * q);
                assert(n - 1 - (k - 1) == n - k);
                assert((c1 * q * pw) * u == c1 * (u * q) * pw) by(nonlinear_arith);
            } else { assert(c1 == 0real); assert(bern(n - 1, k - 1, u) == 0real); assert(c1 * pu * pw == 0real) by(nonlinear_arith) requires c1 == 0real; }
        }
        assert((c0 + c1) * pu * pw == c0 * pu * pw + c1 * pu * pw) by(nonlinear_arith);
        assert(w * bern(n - 1, k, u) == bern(n - 1, k, u) * w) by(nonlinear_arith);
        assert(u * bern(n - 1, k - 1, u) == bern(n - 1, k - 1, u) * u) by(nonlinear_arith);
    } else {
        assert(k == 0);
        assert(binom(0, 0) == 1real); assert(rpow(u, 0) == 1real); assert(rpow(w, 0) == 1real);
        assert(bern(0, 0, u) == 1real);
    }
}
/// the weights are non-negative on [0,1] and sum to one (so a Bezier point is a convex combination)
pub open spec fn bern_sum(n: int, u: real, m: int) -> real decreases m { if m <= 0 { 0real } else { bern_sum(n, u, m - 1) + bern(n, m - 1, u) } }
pub proof fn lemma_bern_nonneg(n: int, k: int, u: real)
    requires 0real <= u <= 1real
    ensures bern(n, k, u) >= 0real
    decreases n
{
    if 0 <= k <= n && n > 0 {
        lemma_bern_nonneg(n - 1, k, u); lemma_bern_nonneg(n - 1, k - 1, u);
        let a = bern(n - 1, k, u); let b = bern(n - 1, k - 1, u);
        assert((1real - u) * a >= 0real) by(nonlinear_arith) requires a >= 0real, u <= 1real;
        assert(u * b >= 0real) by(nonlinear_arith) requires b >= 0real, u >= 0real;
    }
}
pub proof fn lemma_bern_sum_rec(n: int, u: real, m: int)
    requires n >= 1, m >= 0
    ensures bern_sum(n, u, m) == (1real - u) * bern_sum(n - 1, u, m) + u * bern_sum(n - 1, u, m - 1)
    decreases m
{
    if m > 0 {
        lemma_bern_sum_rec(n, u, m - 1);
        lemma_bern_step(n, m - 1, u);
        let (w, s0, s1, a, b) = (1real - u, bern_sum(n - 1, u, m - 1), bern_sum(n - 1, u, m - 2), bern(n - 1, m - 1, u), bern(n - 1, m - 2, u));
        if m == 1 { assert(b == 0real); assert(s0 == 0real); assert(s1 == 0real); assert(bern_sum(n - 1, u, 0) == 0real); }
        assert(bern_sum(n - 1, u, m) == s0 + a);
        assert(m >= 2 ==> bern_sum(n - 1, u, m - 1) == s1 + b);
        assert(w * (s0 + a) == w * s0 + w * a) by(nonlinear_arith);
        assert(u * (s1 + b) == u * s1 + u * b) by(nonlinear_arith);
    } else {
        assert((1real - u) * 0real + u * 0real == 0real) by(nonlinear_arith);
    }
}
pub proof fn lemma_bern_sum_one(n: int, u: real)
    requires n >= 0
    ensures bern_sum(n, u, n + 1) == 1real
    decreases n
{
    if n > 0 {
        lemma_bern_sum_rec(n, u, n + 1);
        lemma_bern_sum_one(n - 1, u);
        assert(bern(n - 1, n, u) == 0real);
        assert(bern_sum(n - 1, u, n + 1) == bern_sum(n - 1, u, n) + bern(n - 1, n, u));
        assert((1real - u) * 1real + u * 1real == 1real) by(nonlinear_arith);
    } else { assert(bern_sum(0, u, 1) == bern_sum(0, u, 0) + bern(0, 0, u)); }
}
pub proof fn lemma_dotp_bern(b: Seq<real>, c: Seq<real>, u: real)
    requires c.len() >= 1, b.len() == c.len(), forall|k: int| 0 <= k < c.len() ==> #[trigger] b[k] == bern(c.len() - 1, k, u)
    ensures dotp(b, c, c.len() as int) == bezier_r(c, u)
{
    let d = bcoefs(c.len() - 1, u);
    assert forall|k: int| 0 <= k < c.len() implies #[trigger] b[k] == d[k] by { lemma_bern_closed(c.len() - 1, k, u); };
    lemma_dotp_ext(b, d, c, c, c.len() as int);
}
//@ fn bernstein params=n,u ret=r loops=2
    requires n >= 1,
    ensures r@.len() == n, forall|k: int| 0 <= k < n ==> #[trigger] r@[k].v() == bern(n - 1, k, u.v()),
//@ loop 0
    values@.len() == n, u1.v() == 1real - u.v(),
    forall|k: int| 0 <= k < $i0 ==> #[trigger] values@[k].v() == bern($i0 - 1, k, u.v()),
//@ loop 0.0
    values@.len() == n, u1.v() == 1real - u.v(),
    saved.v() == u.v() * bern($j0 - 1, $i0_0 - 1, u.v()),
    forall|k: int| 0 <= k < $i0_0 ==> #[trigger] values@[k].v() == bern($j0 as int, k, u.v()),
    forall|k: int| $i0_0 <= k < $j0 ==> #[trigger] values@[k].v() == bern($j0 - 1, k, u.v()),
//@ ghost loop0.0.start
    let ghost old0 = values@[$j0_0 as int].v();
    proof { lemma_bern_step($j0 as int, $j0_0 as int, u.v()); }
//@ ghost loop0.0.end
    proof { assert(old0 == bern($j0 - 1, $j0_0 as int, u.v()));
      assert(u.v() * old0 == u.v() * bern($j0 - 1, $i0_0 - 1, u.v())); }
//@ ghost loop0.end
    proof { lemma_bern_step($j0 as int, $j0 as int, u.v()); }
