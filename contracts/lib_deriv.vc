//@ raw
// ---- derivatives of the Cox-de Boor functions (product rule on the recurrence)
pub open spec fn bspd(t: Seq<real>, i: int, k: int, u: real) -> real
    decreases k
{
    if k <= 0 { 0real } else {
        let a = rinv(t[i + k] - t[i]); let b = rinv(t[i + k + 1] - t[i + 1]);
        a * bsp(t, i, k - 1, u) + (u - t[i]) * a * bspd(t, i, k - 1, u) - b * bsp(t, i + 1, k - 1, u) + (t[i + k + 1] - u) * b * bspd(t, i + 1, k - 1, u)
    }
}
/// second-order remainder: polynomial in h, no division by h
pub open spec fn brem(t: Seq<real>, i: int, k: int, u: real, h: real) -> real
    decreases k
{
    if k <= 0 { 0real } else {
        let a = rinv(t[i + k] - t[i]); let b = rinv(t[i + k + 1] - t[i + 1]);
        (u - t[i]) * a * brem(t, i, k - 1, u, h) + a * bspd(t, i, k - 1, u) + a * h * brem(t, i, k - 1, u, h)
        + (t[i + k + 1] - u) * b * brem(t, i + 1, k - 1, u, h) - b * bspd(t, i + 1, k - 1, u) - b * h * brem(t, i + 1, k - 1, u, h)
    }
}
pub proof fn lemma_lin3(e1: real, e2: real, e3: real, h: real, x: real)
    ensures (e1 + h * e2 + h * h * e3) * x == e1 * x + h * (e2 * x) + h * h * (e3 * x)
{ assert((e1 + h * e2 + h * h * e3) * x == e1 * x + h * (e2 * x) + h * h * (e3 * x)) by(nonlinear_arith); }
pub proof fn lemma_mul3(x: real, a: real, f: real)
    ensures (f * a) * x == x * a * f, a * f == f * a, x * a * f == x * (a * f)
{ assert((f * a) * x == x * a * f && a * f == f * a && x * a * f == x * (a * f)) by(nonlinear_arith); }
pub proof fn lemma_dist(a: real, b: real, c: real)
    ensures (a + b) * c == a * c + b * c, c * (a + b) == c * a + c * b, (a - b) * c == a * c - b * c, c * (a - b) == c * a - c * b
{ assert((a + b) * c == a * c + b * c && c * (a + b) == c * a + c * b && (a - b) * c == a * c - b * c && c * (a - b) == c * a - c * b) by(nonlinear_arith); }
pub proof fn lemma_half_q(f: real, d: real, r: real, h: real)
    ensures (f + h * d + h * h * r) * h == h * f + h * h * d + h * h * (h * r)
{ assert((f + h * d + h * h * r) * h == h * f + h * h * d + h * h * (h * r)) by(nonlinear_arith); }
pub proof fn lemma_half(x: real, a: real, f: real, d: real, r: real, h: real, s: real)
    requires s == 1real || s == 0real - 1real
    ensures (x + s * h) * a * (f + h * d + h * h * r) == x * a * f + h * (s * (a * f) + x * a * d) + h * h * (x * a * r + s * (a * d) + s * (a * h * r))
{
    let q = f + h * d + h * h * r; let af = f * a; let ad = d * a; let ar = r * a; let qa = af + h * ad + h * h * ar;
    lemma_lin3(f, d, r, h, a); assert(q * a == qa);
    lemma_lin3(af, ad, ar, h, x); lemma_half_q(af, ad, ar, h);
    lemma_mul3(x, a, f); lemma_mul3(x, a, d); lemma_mul3(x, a, r);
    lemma_mul3(x + s * h, a, q);
    assert((x + s * h) * a * q == qa * (x + s * h));
    lemma_dist(x, s * h, qa);
    assert(s * h * qa == s * (qa * h)) by(nonlinear_arith);
    assert(a * h * r == h * ar) by(nonlinear_arith) requires ar == r * a;
    let hr = h * ar; let hh = h * h;
    lemma_dist(s * af, x * a * d, h); lemma_dist(x * a * r, s * ad, hh); lemma_dist(x * a * r + s * ad, s * hr, hh);
    assert(s * (h * af + hh * ad + hh * hr) == h * (s * af) + hh * (s * ad) + hh * (s * hr)) by(nonlinear_arith) requires s == 1real || s == 0real - 1real;
}
/// inside one knot span the functions expand to first order with slope bspd
pub proof fn lemma_bsp_taylor(t: Seq<real>, i: int, k: int, u: real, h: real, s: int)
    requires tsorted(t), is_span(t, u, s), is_span(t, u + h, s), k >= 0
    ensures bsp(t, i, k, u + h) == bsp(t, i, k, u) + h * bspd(t, i, k, u) + h * h * brem(t, i, k, u, h)
    decreases k
{
    if k == 0 {
        if is_span(t, u, i) { lemma_span_unique(t, u, s, i); }
        if is_span(t, u + h, i) { lemma_span_unique(t, u + h, s, i); }
        assert(h * 0real == 0real && h * h * 0real == 0real) by(nonlinear_arith);
    } else {
        lemma_bsp_taylor(t, i, k - 1, u, h, s); lemma_bsp_taylor(t, i + 1, k - 1, u, h, s);
        let a = rinv(t[i + k] - t[i]); let b = rinv(t[i + k + 1] - t[i + 1]);
        let f0 = bsp(t, i, k - 1, u); let d0 = bspd(t, i, k - 1, u); let r0 = brem(t, i, k - 1, u, h);
        let f1 = bsp(t, i + 1, k - 1, u); let d1 = bspd(t, i + 1, k - 1, u); let r1 = brem(t, i + 1, k - 1, u, h);
        let x = u - t[i]; let y = t[i + k + 1] - u;
        lemma_taylor_sum(x, a, f0, d0, r0, y, b, f1, d1, r1, h);
    }
}
pub proof fn lemma_taylor_sum(x: real, a: real, f0: real, d0: real, r0: real, y: real, b: real, f1: real, d1: real, r1: real, h: real)
    ensures (x + h) * a * (f0 + h * d0 + h * h * r0) + (y - h) * b * (f1 + h * d1 + h * h * r1)
        == (x * a * f0 + y * b * f1) + h * (a * f0 + x * a * d0 - b * f1 + y * b * d1) + h * h * (x * a * r0 + a * d0 + a * h * r0 + y * b * r1 - b * d1 - b * h * r1)
{
    lemma_half(x, a, f0, d0, r0, h, 1real);
    lemma_half(y, b, f1, d1, r1, h, 0real - 1real);
    let hh = h * h;
    assert(1real * h == h && (0real - 1real) * h == 0real - h);
    lemma_dist(a * f0 + x * a * d0, y * b * d1 - b * f1, h);
    lemma_dist(x * a * r0 + a * d0 + a * h * r0, y * b * r1 - b * d1 - b * h * r1, hh);
}
/// m-fold product rule step: an = a n0, bn = b n1, cn = c n2
pub proof fn lemma_deriv_alg(kk: real, u: real, ti: real, ti1: real, tk: real, tk1: real, cA: real, cB: real, an: real, bn: real, cn: real)
    requires bn * (tk - ti) * cA == bn, bn * (tk1 - ti1) * cB == bn,
    ensures ({ let p = (u - ti) * an + (tk - u) * bn; let q = (u - ti1) * bn + (tk1 - u) * cn;
        cA * p + (u - ti) * cA * ((kk - 1real) * (an - bn)) - cB * q + (tk1 - u) * cB * ((kk - 1real) * (bn - cn)) == kk * cA * p - kk * cB * q })
{
    let x = u - ti; let y = tk1 - u; let m = kk - 1real;
    let p0 = x * an; let x1 = x * bn; let y1 = y * bn; let q2 = y * cn;
    let al = cA * p0; let be = cA * x1; let ga = cB * y1; let de = cB * q2;
    let p1 = (tk - u) * bn; let q1 = (u - ti1) * bn;
    let w = bn * (tk - ti); let v = bn * (tk1 - ti1);
    assert(p1 == w - x1) by { lemma_dist(tk - ti, x, bn); lemma_mul3(1real, tk - ti, bn); };
    assert(q1 == v - y1) by { lemma_dist(tk1 - ti1, y, bn); lemma_mul3(1real, tk1 - ti1, bn); };
    assert(cA * p1 == bn - be) by { lemma_dist(w, x1, cA); lemma_mul3(1real, cA, w); };
    assert(cB * q1 == bn - ga) by { lemma_dist(v, y1, cB); lemma_mul3(1real, cB, v); };
    let p = p0 + p1; let q = q1 + q2;
    lemma_dist(p0, p1, cA); lemma_dist(q1, q2, cB);
    lemma_term(x, cA, m, an, bn); lemma_term(y, cB, m, bn, cn);
    lemma_mul3(kk, cA, p); lemma_mul3(kk, cB, q);
    let s = al - be; let r = ga - de;
    assert(cA * p == s + bn && cB * q == bn - r);
    assert(s + bn + m * s - (bn - r) + m * r == (m + 1real) * (s + bn) - (m + 1real) * (bn - r)) by(nonlinear_arith);
}
pub proof fn lemma_term(x: real, c: real, m: real, a: real, b: real)
    ensures x * c * (m * (a - b)) == m * (c * (x * a) - c * (x * b))
{
    let d = a - b;
    assert(x * c * (m * d) == m * (c * (x * d))) by(nonlinear_arith);
    lemma_dist(a, b, x); lemma_dist(x * a, x * b, c);
}
pub proof fn lemma_rinv_cancel(t: Seq<real>, lo: int, hi: int, lo2: int, hi2: int, f: real)
    requires tsorted(t), 0 <= lo <= lo2 <= hi2 <= hi < t.len()
    ensures rinv(t[hi2] - t[lo2]) * f * (t[hi] - t[lo]) * rinv(t[hi] - t[lo]) == rinv(t[hi2] - t[lo2]) * f
{
    let d = t[hi] - t[lo]; let e = t[hi2] - t[lo2]; let r = rinv(e) * f;
    assert(t[lo] <= t[lo2] && t[lo2] <= t[hi2] && t[hi2] <= t[hi]);
    if d == 0real { assert(e == 0real); assert(0real * f == 0real); assert(0real * d * rinv(d) == 0real) by(nonlinear_arith); }
    else { assert(r * d * (1real / d) == r) by(nonlinear_arith) requires d != 0real; }
}
/// N'_{i,k} = k (N_{i,k-1}/(t_{i+k}-t_i) - N_{i+1,k-1}/(t_{i+k+1}-t_{i+1}))
pub proof fn theorem_bspd(t: Seq<real>, i: int, k: int, u: real)
    requires tsorted(t), k >= 1, 0 <= i, i + k + 1 < t.len()
    ensures bspd(t, i, k, u) == (k as real) * rinv(t[i + k] - t[i]) * bsp(t, i, k - 1, u) - (k as real) * rinv(t[i + k + 1] - t[i + 1]) * bsp(t, i + 1, k - 1, u)
    decreases k
{
    let cA = rinv(t[i + k] - t[i]); let cB = rinv(t[i + k + 1] - t[i + 1]);
    let p = bsp(t, i, k - 1, u); let q = bsp(t, i + 1, k - 1, u);
    if k == 1 {
        assert(bspd(t, i, 0, u) == 0real && bspd(t, i + 1, 0, u) == 0real);
        assert((u - t[i]) * cA * 0real == 0real && (t[i + k + 1] - u) * cB * 0real == 0real) by(nonlinear_arith);
    } else {
        theorem_bspd(t, i, k - 1, u); theorem_bspd(t, i + 1, k - 1, u);
        let a = rinv(t[i + k - 1] - t[i]); let b = rinv(t[i + k] - t[i + 1]); let c = rinv(t[i + k + 1] - t[i + 2]);
        let n0 = bsp(t, i, k - 2, u); let n1 = bsp(t, i + 1, k - 2, u); let n2 = bsp(t, i + 2, k - 2, u);
        lemma_rinv_cancel(t, i, i + k, i + 1, i + k, n1); lemma_rinv_cancel(t, i + 1, i + k + 1, i + 1, i + k, n1);
        lemma_bsp_step(t, i, k - 1, u); lemma_bsp_step(t, i + 1, k - 1, u);
        let kk = k as real; let m = (k - 1) as real;
        assert(m == kk - 1real);
        assert(bspd(t, i, k - 1, u) == m * (a * n0 - b * n1)) by { assert(m * a * n0 - m * b * n1 == m * (a * n0 - b * n1)) by(nonlinear_arith); };
        assert(bspd(t, i + 1, k - 1, u) == m * (b * n1 - c * n2)) by { assert(m * b * n1 - m * c * n2 == m * (b * n1 - c * n2)) by(nonlinear_arith); };
        let an = a * n0; let bn = b * n1; let cn = c * n2;
        lemma_mul3(u - t[i], a, n0); lemma_mul3(t[i + k] - u, b, n1); lemma_mul3(u - t[i + 1], b, n1); lemma_mul3(t[i + k + 1] - u, c, n2);
        lemma_deriv_alg(kk, u, t[i], t[i + 1], t[i + k], t[i + k + 1], cA, cB, an, bn, cn);
    }
}
pub open spec fn bspds(t: Seq<real>, p: int, u: real, n: int) -> Seq<real> { Seq::new(n as nat, |i: int| bspd(t, i, p, u)) }
pub open spec fn brems(t: Seq<real>, p: int, u: real, h: real, n: int) -> Seq<real> { Seq::new(n as nat, |i: int| brem(t, i, p, u, h)) }
/// slope of one coordinate of a spline
pub open spec fn bspl_d(c: Seq<real>, t: Seq<real>, p: int, u: real) -> real { dotp(bspds(t, p, u, c.len() as int), c, c.len() as int) }
pub proof fn lemma_dotp_lin(b0: Seq<real>, b1: Seq<real>, b2: Seq<real>, b3: Seq<real>, c: Seq<real>, h: real, m: int)
    requires forall|k: int| 0 <= k < m ==> #[trigger] b0[k] == b1[k] + h * b2[k] + h * h * b3[k]
    ensures dotp(b0, c, m) == dotp(b1, c, m) + h * dotp(b2, c, m) + h * h * dotp(b3, c, m)
    decreases m
{
    if m > 0 {
        lemma_dotp_lin(b0, b1, b2, b3, c, h, m - 1);
        let k = m - 1; let x = c[k]; let (d1, d2, d3) = (dotp(b1, c, k), dotp(b2, c, k), dotp(b3, c, k)); let (e1, e2, e3) = (b1[k], b2[k], b3[k]);
        assert(b0[k] == e1 + h * e2 + h * h * e3);
        assert((e1 + h * e2 + h * h * e3) * x == e1 * x + h * (e2 * x) + h * h * (e3 * x)) by(nonlinear_arith);
        assert(h * d2 + h * (e2 * x) == h * (d2 + e2 * x)) by(nonlinear_arith);
        assert(h * h * d3 + h * h * (e3 * x) == h * h * (d3 + e3 * x)) by(nonlinear_arith);
    } else { assert(h * 0real == 0real && h * h * 0real == 0real) by(nonlinear_arith); }
}
/// bspl_d is the derivative: first-order expansion inside a knot span with a division-free remainder
pub proof fn theorem_spline_slope(c: Seq<real>, t: Seq<real>, p: int, u: real, h: real, s: int)
    requires tsorted(t), is_span(t, u, s), is_span(t, u + h, s), p >= 0
    ensures bspl_r(c, t, p, u + h) == bspl_r(c, t, p, u) + h * bspl_d(c, t, p, u) + h * h * dotp(brems(t, p, u, h, c.len() as int), c, c.len() as int)
{
    let n = c.len() as int; let b0 = bsps(t, p, u + h, n);
    assert forall|k: int| 0 <= k < n implies #[trigger] b0[k] == bsps(t, p, u, n)[k] + h * bspds(t, p, u, n)[k] + h * h * brems(t, p, u, h, n)[k] by { lemma_bsp_taylor(t, k, p, u, h, s); }
    lemma_dotp_lin(b0, bsps(t, p, u, n), bspds(t, p, u, n), brems(t, p, u, h, n), c, h, n);
}
/// knots without the first and the last
pub open spec fn inner(t: Seq<real>) -> Seq<real> { t.subrange(1, t.len() - 1) }
/// scaled control value differences
pub open spec fn dvals(c: Seq<real>, t: Seq<real>, p: int) -> Seq<real> { Seq::new((c.len() - 1) as nat, |i: int| (c[i + 1] - c[i]) * (p as real) * rinv_tol(t[i + p + 1] - t[i + 1])) }
/// parameters where shrinking the knots does not change the span lookup
pub open spec fn der_dom(t: Seq<real>, n: int, p: int, u: real) -> bool { t[p] <= u && t[p] < t[n] && (u < t[n] || (u == t[n] && t[n] == t[t.len() - 1])) }
pub proof fn lemma_inner_span(t: Seq<real>, n: int, p: int, u: real, j: int)
    requires knots_ok(t), p >= 1, n >= p + 1, t.len() == n + p + 1, der_dom(t, n, p, u), 0 <= j < t.len() - 3
    ensures is_span(inner(t), u, j) == is_span(t, u, j + 1)
{
    let s = inner(t); let l = t.len() - 1;
    assert(s[j] == t[j + 1] && s[j + 1] == t[j + 2] && s[s.len() - 1] == t[l - 1]);
    assert(t[n] <= t[l - 1] && t[l - 1] <= t[l] && t[j + 2] <= t[l - 1]);
}
pub proof fn lemma_inner_bsp(t: Seq<real>, n: int, p: int, u: real, i: int, k: int)
    requires knots_ok(t), p >= 1, n >= p + 1, t.len() == n + p + 1, der_dom(t, n, p, u), 0 <= i, k >= 0, i + k + 1 < t.len() - 2
    ensures bsp(inner(t), i, k, u) == bsp(t, i + 1, k, u)
    decreases k
{
    if k == 0 { lemma_inner_span(t, n, p, u, i); }
    else { lemma_inner_bsp(t, n, p, u, i, k - 1); lemma_inner_bsp(t, n, p, u, i + 1, k - 1);
        lemma_bsp_step(inner(t), i, k, u); lemma_bsp_step(t, i + 1, k, u); }
}
/// summation by parts
pub open spec fn dsum(c: Seq<real>, t: Seq<real>, p: int, u: real, m: int) -> real decreases m
{ if m <= 0 { 0real } else { dsum(c, t, p, u, m - 1) + (c[m] - c[m - 1]) * (p as real) * rinv(t[m + p] - t[m]) * bsp(t, m, p - 1, u) } }
pub open spec fn ew(t: Seq<real>, p: int, u: real, i: int) -> real { (p as real) * rinv(t[i + p] - t[i]) * bsp(t, i, p - 1, u) }
pub proof fn lemma_parts(c: Seq<real>, t: Seq<real>, p: int, u: real, m: int)
    requires tsorted(t), p >= 1, 1 <= m <= c.len(), t.len() == c.len() + p + 1
    ensures dotp(bspds(t, p, u, c.len() as int), c, m) == dsum(c, t, p, u, m - 1) + c[0] * ew(t, p, u, 0) - c[m - 1] * ew(t, p, u, m)
    decreases m
{
    let b = bspds(t, p, u, c.len() as int);
    theorem_bspd(t, m - 1, p, u);
    let e0 = ew(t, p, u, m - 1); let e1 = ew(t, p, u, m); let x = c[m - 1];
    assert(b[m - 1] == e0 - e1);
    assert((e0 - e1) * x == x * e0 - x * e1) by(nonlinear_arith);
    if m > 1 {
        lemma_parts(c, t, p, u, m - 1);
        let y = c[m - 2]; let pr = p as real; let r = rinv(t[m - 1 + p] - t[m - 1]); let f = bsp(t, m - 1, p - 1, u);
        assert((x - y) * pr * r * f == x * (pr * r * f) - y * (pr * r * f)) by(nonlinear_arith);
    } else { assert(dotp(b, c, 0) == 0real); assert(dsum(c, t, p, u, 0) == 0real); }
}
pub proof fn lemma_dsum_dvals(c: Seq<real>, t: Seq<real>, p: int, u: real, m: int)
    requires knots_ok(t), p >= 1, c.len() >= p + 1, t.len() == c.len() + p + 1, der_dom(t, c.len() as int, p, u), 0 <= m <= c.len() - 1
    ensures dsum(c, t, p, u, m) == dotp(bsps(inner(t), p - 1, u, c.len() - 1), dvals(c, t, p), m)
    decreases m
{
    if m > 0 {
        lemma_dsum_dvals(c, t, p, u, m - 1);
        lemma_inner_bsp(t, c.len() as int, p, u, m - 1, p - 1);
        lemma_rinv_tol(t, m, m + p);
        assert(dvals(c, t, p)[m - 1] == (c[m] - c[m - 1]) * (p as real) * rinv(t[m + p] - t[m]));
        let x = dvals(c, t, p)[m - 1]; let f = bsp(t, m, p - 1, u);
        assert(x * f == f * x) by(nonlinear_arith);
    }
}
/// the spline of the differences over the inner knots is the derivative
pub proof fn theorem_spline_derivative(c: Seq<real>, t: Seq<real>, p: int, u: real, s: int)
    requires knots_ok(t), p >= 1, c.len() >= p + 1, t.len() == c.len() + p + 1, der_dom(t, c.len() as int, p, u), is_span(t, u, s)
    ensures bspl_r(dvals(c, t, p), inner(t), p - 1, u) == bspl_d(c, t, p, u)
{
    let n = c.len() as int; let l = t.len() - 1;
    lemma_parts(c, t, p, u, n);
    lemma_dsum_dvals(c, t, p, u, n - 1);
    assert(t[n] <= t[l]);
    if s <= p - 1 { assert(t[s + 1] <= t[p]); assert(false); }
    lemma_bsp_support(t, 0, p - 1, u, s);
    if s >= n { assert(t[n] <= t[s]); assert(t[s + 1] <= t[l]); assert(false); }
    lemma_bsp_support(t, n, p - 1, u, s);
    let a = (p as real) * rinv(t[p] - t[0]); let b = (p as real) * rinv(t[n + p] - t[n]);
    assert(a * 0real == 0real && b * 0real == 0real && c[0] * 0real == 0real && c[n - 1] * 0real == 0real) by(nonlinear_arith);
}
// ---- Bernstein
pub open spec fn bernd(n: int, k: int, u: real) -> real
    decreases n
{ if k < 0 || k > n { 0real } else if n <= 0 { 0real } else { (1real - u) * bernd(n - 1, k, u) - bern(n - 1, k, u) + u * bernd(n - 1, k - 1, u) + bern(n - 1, k - 1, u) } }
pub open spec fn bernrem(n: int, k: int, u: real, h: real) -> real
    decreases n
{ if k < 0 || k > n { 0real } else if n <= 0 { 0real } else { (1real - u - h) * bernrem(n - 1, k, u, h) - bernd(n - 1, k, u) + (u + h) * bernrem(n - 1, k - 1, u, h) + bernd(n - 1, k - 1, u) } }
pub proof fn lemma_bern_taylor(n: int, k: int, u: real, h: real)
    requires n >= 0
    ensures bern(n, k, u + h) == bern(n, k, u) + h * bernd(n, k, u) + h * h * bernrem(n, k, u, h)
    decreases n
{
    if k < 0 || k > n || n == 0 { assert(h * 0real == 0real && h * h * 0real == 0real) by(nonlinear_arith); }
    else {
        lemma_bern_taylor(n - 1, k, u, h); lemma_bern_taylor(n - 1, k - 1, u, h);
        lemma_bern_step(n, k, u); lemma_bern_step(n, k, u + h);
        let (f0, d0, r0) = (bern(n - 1, k, u), bernd(n - 1, k, u), bernrem(n - 1, k, u, h));
        let (f1, d1, r1) = (bern(n - 1, k - 1, u), bernd(n - 1, k - 1, u), bernrem(n - 1, k - 1, u, h));
        lemma_half(1real - u, 1real, f0, d0, r0, h, 0real - 1real);
        lemma_half(u, 1real, f1, d1, r1, h, 1real);
        let w = 1real - u; let hh = h * h;
        assert((w - h) * r0 == w * r0 - h * r0) by(nonlinear_arith); assert((u + h) * r1 == u * r1 + h * r1) by(nonlinear_arith);
        assert(w * 1real == w && u * 1real == u && 1real * h == h && (0real - 1real) * h == 0real - h && (w - h) * 1real == w - h && (u + h) * 1real == u + h);
        lemma_dist(w * d0 - f0, u * d1 + f1, h); 
        lemma_dist((w - h) * r0 - d0, (u + h) * r1 + d1, hh);
    }
}
pub proof fn theorem_bernd(n: int, k: int, u: real)
    requires n >= 1
    ensures bernd(n, k, u) == (n as real) * (bern(n - 1, k - 1, u) - bern(n - 1, k, u))
    decreases n
{
    let m = (n - 1) as real; let w = 1real - u;
    if k < 0 || k > n { assert((n as real) * (0real - 0real) == 0real) by(nonlinear_arith); }
    else if n == 1 {
        assert(bernd(0, k, u) == 0real && bernd(0, k - 1, u) == 0real);
        assert(w * 0real == 0real && u * 0real == 0real);
    } else {
        theorem_bernd(n - 1, k, u); theorem_bernd(n - 1, k - 1, u);
        let (a, b, c) = (bern(n - 2, k - 2, u), bern(n - 2, k - 1, u), bern(n - 2, k, u));
        lemma_bern_step(n - 1, k, u); lemma_bern_step(n - 1, k - 1, u);
        let f0 = bern(n - 1, k, u); let f1 = bern(n - 1, k - 1, u);
        assert(f0 == w * c + u * b && f1 == w * b + u * a);
        let bc = b - c; let ab = a - b;
        lemma_dist(b, c, w); lemma_dist(a, b, u);
        assert(w * (m * bc) == m * (w * bc)) by(nonlinear_arith); assert(u * (m * ab) == m * (u * ab)) by(nonlinear_arith);
        lemma_dist(w * bc, u * ab, m);
        let e = f1 - f0;
        assert(w * bc + u * ab == e);
        assert(m * e + e == (n as real) * e) by(nonlinear_arith) requires m == (n as real) - 1real;
    }
}
pub open spec fn bezier_d(c: Seq<real>, u: real) -> real { dotp(Seq::new(c.len(), |k: int| bernd(c.len() - 1, k, u)), c, c.len() as int) }
pub open spec fn bez_dvals(c: Seq<real>) -> Seq<real> { Seq::new((c.len() - 1) as nat, |i: int| (c[i + 1] - c[i]) * ((c.len() - 1) as real)) }
pub proof fn theorem_bezier_slope(c: Seq<real>, u: real, h: real)
    requires c.len() >= 1
    ensures bezier_r(c, u + h) == bezier_r(c, u) + h * bezier_d(c, u) + h * h * dotp(Seq::new(c.len(), |k: int| bernrem(c.len() - 1, k, u, h)), c, c.len() as int)
{
    let n = c.len() as int; let b0 = bcoefs(n - 1, u + h); let b1 = bcoefs(n - 1, u); let b2 = Seq::new(c.len(), |k: int| bernd(c.len() - 1, k, u)); let b3 = Seq::new(c.len(), |k: int| bernrem(c.len() - 1, k, u, h));
    assert forall|k: int| 0 <= k < n implies #[trigger] b0[k] == b1[k] + h * b2[k] + h * h * b3[k] by { lemma_bern_taylor(n - 1, k, u, h); lemma_bern_closed(n - 1, k, u); lemma_bern_closed(n - 1, k, u + h); }
    lemma_dotp_lin(b0, b1, b2, b3, c, h, n);
}
pub proof fn lemma_term2(n: real, f: real, g: real, x: real)
    ensures n * (f - g) * x == x * n * f - x * n * g
{ let d = f - g; let xn = x * n; assert(n * d * x == xn * d) by(nonlinear_arith) requires xn == x * n; lemma_dist(f, g, xn); }
pub proof fn lemma_bez_parts(c: Seq<real>, u: real, m: int)
    requires c.len() >= 2, 1 <= m <= c.len()
    ensures dotp(Seq::new(c.len(), |k: int| bernd(c.len() - 1, k, u)), c, m) == dotp(bcoefs(c.len() - 2, u), bez_dvals(c), m - 1) - c[m - 1] * ((c.len() - 1) as real) * bern(c.len() - 2, m - 1, u)
    decreases m
{
    let n = c.len() - 1; let b = Seq::new(c.len(), |k: int| bernd(c.len() - 1, k, u)); let nr = n as real; let x = c[m - 1];
    theorem_bernd(n, m - 1, u);
    let f0 = bern(n - 1, m - 2, u); let f1 = bern(n - 1, m - 1, u);
    assert(b[m - 1] == nr * (f0 - f1));
    if m > 1 {
        lemma_bez_parts(c, u, m - 1);
        let y = c[m - 2];
        lemma_bern_closed(n - 1, m - 2, u);
        assert(bez_dvals(c)[m - 2] == (x - y) * nr);
        lemma_term2(nr, f0, f1, x); lemma_term2(nr, f0, 0real, y);
        lemma_dist(x, y, nr); lemma_dist(x * nr, y * nr, f0);
        assert(f0 * ((x - y) * nr) == (x * nr) * f0 - (y * nr) * f0);
        assert(bcoefs(n - 1, u)[m - 2] == f0);
        assert(dotp(bcoefs(n - 1, u), bez_dvals(c), m - 1) == dotp(bcoefs(n - 1, u), bez_dvals(c), m - 2) + f0 * ((x - y) * nr));
        assert(dotp(b, c, m) == dotp(b, c, m - 1) + nr * (f0 - f1) * x);
    } else { assert(f0 == 0real); lemma_term2(nr, f0, f1, x); assert(x * nr * f0 == 0real) by(nonlinear_arith) requires f0 == 0real; assert(dotp(b, c, 1) == dotp(b, c, 0) + nr * (f0 - f1) * x); assert(dotp(b, c, 0) == 0real); }
}
pub proof fn theorem_bezier_derivative(c: Seq<real>, u: real)
    requires c.len() >= 2
    ensures bezier_r(bez_dvals(c), u) == bezier_d(c, u)
{
    let n = c.len() - 1;
    lemma_bez_parts(c, u, c.len() as int);
    assert(bern(n - 1, n, u) == 0real);
    assert(c[n] * (n as real) * 0real == 0real) by(nonlinear_arith);
}
pub open spec fn dpt(c: Seq<Point3>, i: int, n: real) -> Point3 { p3((c[i + 1].x.v() - c[i].x.v()) * n, (c[i + 1].y.v() - c[i].y.v()) * n, (c[i + 1].z.v() - c[i].z.v()) * n) }
pub open spec fn dpt2(c: Seq<Point3>, i: int, n: real, w: real) -> Point3 { p3((c[i + 1].x.v() - c[i].x.v()) * n * w, (c[i + 1].y.v() - c[i].y.v()) * n * w, (c[i + 1].z.v() - c[i].z.v()) * n * w) }
// ---- tensor product surfaces
pub open spec fn grow(g: spec_fn(int, int) -> real, i: int, m: int) -> Seq<real> { Seq::new(m as nat, |j: int| g(i, j)) }
pub open spec fn gcol(g: spec_fn(int, int) -> real, j: int, n: int) -> Seq<real> { Seq::new(n as nat, |i: int| g(i, j)) }
/// row sums
pub open spec fn rsum(b: Seq<real>, g: spec_fn(int, int) -> real, n: int, m: int) -> Seq<real> { Seq::new(n as nat, |i: int| dotp(b, grow(g, i, m), m)) }
pub open spec fn csum(a: Seq<real>, g: spec_fn(int, int) -> real, n: int, m: int) -> Seq<real> { Seq::new(m as nat, |j: int| dotp(a, gcol(g, j, n), n)) }
pub proof fn lemma_trow_dotp(a: Seq<real>, b: Seq<real>, g: spec_fn(int, int) -> real, i: int, k: int, m: int)
    requires 0 <= k <= m
    ensures trow(a, b, g, i, k) == a[i] * dotp(b, grow(g, i, m), k)
    decreases k
{
    if k > 0 {
        lemma_trow_dotp(a, b, g, i, k - 1, m);
        let d = dotp(b, grow(g, i, m), k - 1); let x = a[i]; let y = b[k - 1]; let z = g(i, k - 1);
        assert(grow(g, i, m)[k - 1] == z);
        assert(x * y * z == x * (y * z)) by(nonlinear_arith);
        lemma_dist(d, y * z, x);
    }
}
pub proof fn lemma_tsum_rows(a: Seq<real>, b: Seq<real>, g: spec_fn(int, int) -> real, k: int, n: int, m: int)
    requires 0 <= k <= n, m >= 0
    ensures tsum(a, b, g, k, m) == dotp(a, rsum(b, g, n, m), k)
    decreases k
{ if k > 0 { lemma_tsum_rows(a, b, g, k - 1, n, m); lemma_trow_dotp(a, b, g, k - 1, m, m); assert(rsum(b, g, n, m)[k - 1] == dotp(b, grow(g, k - 1, m), m)); } }
pub open spec fn tr(g: spec_fn(int, int) -> real) -> spec_fn(int, int) -> real { |i: int, j: int| g(j, i) }
/// swapping the order of summation
pub proof fn lemma_tsum_addcol(a: Seq<real>, b: Seq<real>, g: spec_fn(int, int) -> real, n: int, m: int)
    requires n >= 0, m >= 1
    ensures tsum(a, b, g, n, m) == tsum(a, b, g, n, m - 1) + trow(b, a, tr(g), m - 1, n)
    decreases n
{
    if n > 0 {
        lemma_tsum_addcol(a, b, g, n - 1, m);
        let x = a[n - 1]; let y = b[m - 1]; let z = g(n - 1, m - 1);
        assert(tr(g)(m - 1, n - 1) == z);
        assert(x * y * z == y * x * z) by(nonlinear_arith);
    }
}
pub proof fn lemma_tsum_zero(a: Seq<real>, b: Seq<real>, g: spec_fn(int, int) -> real, n: int)
    ensures tsum(a, b, g, n, 0) == 0real
    decreases n
{ if n > 0 { lemma_tsum_zero(a, b, g, n - 1); } }
pub proof fn lemma_tsum_swap(a: Seq<real>, b: Seq<real>, g: spec_fn(int, int) -> real, n: int, m: int)
    requires n >= 0, m >= 0
    ensures tsum(a, b, g, n, m) == tsum(b, a, tr(g), m, n)
    decreases m
{ if m > 0 { lemma_tsum_swap(a, b, g, n, m - 1); lemma_tsum_addcol(a, b, g, n, m); } else { lemma_tsum_zero(a, b, g, n); } }
pub proof fn lemma_dotp_diff(b: Seq<real>, c1: Seq<real>, c0: Seq<real>, d: Seq<real>, w: real, m: int)
    requires forall|k: int| 0 <= k < m ==> #[trigger] d[k] == (c1[k] - c0[k]) * w
    ensures dotp(b, d, m) == (dotp(b, c1, m) - dotp(b, c0, m)) * w
    decreases m
{
    if m > 0 {
        lemma_dotp_diff(b, c1, c0, d, w, m - 1);
        let y = b[m - 1]; let x1 = c1[m - 1]; let x0 = c0[m - 1]; let e = dotp(b, c1, m - 1) - dotp(b, c0, m - 1);
        let z = x1 - x0;
        assert(d[m - 1] == z * w);
        assert(y * (z * w) == (y * z) * w) by(nonlinear_arith);
        lemma_dist(x1, x0, y);
        lemma_dist(e, y * z, w);
    } else { assert(0real * w == 0real) by(nonlinear_arith); }
}
/// the control differences of a surface in the first direction
pub open spec fn gdiff(g: spec_fn(int, int) -> real, t: Seq<real>, p: int) -> spec_fn(int, int) -> real { |i: int, j: int| (g(i + 1, j) - g(i, j)) * (p as real) * rinv_tol(t[i + p + 1] - t[i + 1]) }
pub open spec fn gdiffv(g: spec_fn(int, int) -> real, t: Seq<real>, q: int) -> spec_fn(int, int) -> real { |i: int, j: int| (g(i, j + 1) - g(i, j)) * (q as real) * rinv_tol(t[j + q + 1] - t[j + 1]) }
/// the u-derivative surface: first-direction basis slopes times the second-direction basis
pub proof fn theorem_surface_derivative_u(g: spec_fn(int, int) -> real, d: spec_fn(int, int) -> real, n: int, m: int, tu: Seq<real>, tv: Seq<real>, p: int, q: int, u: real, v: real, s: int)
    requires knots_ok(tu), p >= 1, n >= p + 1, m >= 0, tu.len() == n + p + 1, der_dom(tu, n, p, u), is_span(tu, u, s),
        forall|i: int, j: int| 0 <= i < n - 1 && 0 <= j < m ==> #[trigger] d(i, j) == gdiff(g, tu, p)(i, j),
    ensures btensor(d, n - 1, m, inner(tu), tv, p - 1, q, u, v) == tsum(bspds(tu, p, u, n), bsps(tv, q, v, m), g, n, m)
{
    let b = bsps(tv, q, v, m); let c = rsum(b, g, n, m); let e = rsum(b, d, n - 1, m);
    assert forall|i: int| 0 <= i < n - 1 implies #[trigger] e[i] == dvals(c, tu, p)[i] by {
        let pr = p as real; let r = rinv_tol(tu[i + p + 1] - tu[i + 1]); let w = pr * r;
        let c1 = grow(g, i + 1, m); let c0 = grow(g, i, m); let dd = grow(d, i, m);
        assert forall|k: int| 0 <= k < m implies #[trigger] dd[k] == (c1[k] - c0[k]) * w by {
            assert(d(i, k) == gdiff(g, tu, p)(i, k));
            let z = c1[k] - c0[k];
            assert(z * pr * r == z * w) by(nonlinear_arith) requires w == pr * r;
        }
        lemma_dotp_diff(b, c1, c0, dd, w, m);
        let z = c[i + 1] - c[i];
        assert(z * pr * r == z * w) by(nonlinear_arith) requires w == pr * r;
    }
    lemma_tsum_rows(bsps(inner(tu), p - 1, u, n - 1), b, d, n - 1, n - 1, m);
    lemma_tsum_rows(bspds(tu, p, u, n), b, g, n, n, m);
    theorem_spline_derivative(c, tu, p, u, s);
    assert(e =~= dvals(c, tu, p));
}
pub proof fn lemma_tsum_gext(a: Seq<real>, b: Seq<real>, g: spec_fn(int, int) -> real, h: spec_fn(int, int) -> real, n: int, m: int)
    requires forall|i: int, j: int| 0 <= i < n && 0 <= j < m ==> #[trigger] g(i, j) == h(i, j)
    ensures tsum(a, b, g, n, m) == tsum(a, b, h, n, m)
    decreases n
{ if n > 0 { lemma_tsum_gext(a, b, g, h, n - 1, m); lemma_trow_gext(a, b, g, h, n - 1, m); } }
pub proof fn lemma_trow_gext(a: Seq<real>, b: Seq<real>, g: spec_fn(int, int) -> real, h: spec_fn(int, int) -> real, i: int, m: int)
    requires forall|j: int| 0 <= j < m ==> #[trigger] g(i, j) == h(i, j)
    ensures trow(a, b, g, i, m) == trow(a, b, h, i, m)
    decreases m
{ if m > 0 { lemma_trow_gext(a, b, g, h, i, m - 1); assert(g(i, m - 1) == h(i, m - 1)); } }
pub proof fn theorem_surface_derivative_v(g: spec_fn(int, int) -> real, d: spec_fn(int, int) -> real, n: int, m: int, tu: Seq<real>, tv: Seq<real>, p: int, q: int, u: real, v: real, s: int)
    requires knots_ok(tv), q >= 1, m >= q + 1, n >= 0, tv.len() == m + q + 1, der_dom(tv, m, q, v), is_span(tv, v, s),
        forall|i: int, j: int| 0 <= i < n && 0 <= j < m - 1 ==> #[trigger] d(i, j) == gdiffv(g, tv, q)(i, j),
    ensures btensor(d, n, m - 1, tu, inner(tv), p, q - 1, u, v) == tsum(bsps(tu, p, u, n), bspds(tv, q, v, m), g, n, m)
{
    let gt = tr(g); let dt = tr(d);
    assert forall|i: int, j: int| 0 <= i < m - 1 && 0 <= j < n implies #[trigger] dt(i, j) == gdiff(gt, tv, q)(i, j) by { assert(d(j, i) == gdiffv(g, tv, q)(j, i)); }
    theorem_surface_derivative_u(gt, dt, m, n, tv, tu, q, p, v, u, s);
    lemma_tsum_swap(bsps(tu, p, u, n), bsps(inner(tv), q - 1, v, m - 1), d, n, m - 1);
    lemma_tsum_swap(bsps(tu, p, u, n), bspds(tv, q, v, m), g, n, m);
}
pub proof fn lemma_exact_div(a: int, b: int)
    requires b > 0, a >= 0
    ensures (a * b) % b == 0, (a * b) / b == a, a >= 1 ==> a * b >= 1
{ vstd::arithmetic::div_mod::lemma_mod_multiples_basic(a, b); vstd::arithmetic::div_mod::lemma_div_by_multiple(a, b); if a >= 1 { assert(a * b >= b) by(nonlinear_arith) requires a >= 1, b >= 1; } }
pub open spec fn gpt(g: Grid<Point3>, i: int, j: int, n: real, w: real) -> Point3 { p3((g.at(i + 1, j).x.v() - g.at(i, j).x.v()) * n * w, (g.at(i + 1, j).y.v() - g.at(i, j).y.v()) * n * w, (g.at(i + 1, j).z.v() - g.at(i, j).z.v()) * n * w) }
pub open spec fn gptv(g: Grid<Point3>, i: int, j: int, n: real, w: real) -> Point3 { p3((g.at(i, j + 1).x.v() - g.at(i, j).x.v()) * n * w, (g.at(i, j + 1).y.v() - g.at(i, j).y.v()) * n * w, (g.at(i, j + 1).z.v() - g.at(i, j).z.v()) * n * w) }
pub proof fn lemma_cell(a: int, b: int, i: int, m: int)
    requires 0 <= a < i, 0 <= b < m
    ensures 0 <= a * m + b < i * m, a * m + b < a * m + m
{ assert(a * m + b < i * m && a * m >= 0) by(nonlinear_arith) requires 0 <= a < i, 0 <= b < m; }
