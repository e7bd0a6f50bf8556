//@ raw
// ---- knot insertion (Boehm): a basis function is a combination of two on the refined knots
pub open spec fn ins_ok(t: Seq<real>, k: int, x: real) -> bool { tsorted(t) && 0 <= k < t.len() && t[k] <= x && (k + 1 < t.len() ==> x < t[k + 1]) && (k + 1 == t.len() ==> x == t[k]) }
pub open spec fn insk(t: Seq<real>, k: int, x: real) -> Seq<real> { t.insert(k + 1, x) }
/// share of the old control point i in the new one
pub open spec fn alf(t: Seq<real>, k: int, x: real, p: int, i: int) -> real { if i + p <= k { 1real } else if i > k { 0real } else { (x - t[i]) * rinv(t[i + p] - t[i]) } }
pub proof fn lemma_insk(t: Seq<real>, k: int, x: real)
    requires ins_ok(t, k, x)
    ensures insk(t, k, x).len() == t.len() + 1, forall|j: int| 0 <= j < t.len() + 1 ==> #[trigger] insk(t, k, x)[j] == (if j <= k { t[j] } else if j == k + 1 { x } else { t[j - 1] }),
        tsorted(insk(t, k, x)), insk(t, k, x)[t.len() as int] == t[t.len() - 1], insk(t, k, x)[0] == t[0]
{
    let w = insk(t, k, x);
    assert forall|i: int, j: int| #![trigger w[i], w[j]] 0 <= i <= j < w.len() implies w[i] <= w[j] by {
        let a = if i <= k { i } else { i - 1 }; let b = if j <= k { j } else { j - 1 };
        assert(t[a] <= t[b]);
        if i == k + 1 && j > k + 1 { assert(t[k + 1] <= t[j - 1]); }
        if j == k + 1 && i <= k { assert(t[i] <= t[k]); }
    }
}
pub proof fn lemma_span_exists(t: Seq<real>, u: real) -> (s: int)
    requires knots_sorted(t), t[0] <= u <= t[t.len() - 1]
    ensures is_span(t, u, s)
{
    if u < t[t.len() - 1] { lemma_span_below(t, u, t.len() - 1) } else { let s = lemma_last_below(t, t.len() - 1); s }
}
pub open spec fn knots_sorted(t: Seq<real>) -> bool { t.len() >= 2 && tsorted(t) && t[0] < t[t.len() - 1] }
proof fn lemma_span_below(t: Seq<real>, u: real, m: int) -> (s: int)
    requires tsorted(t), 0 < m < t.len(), t[0] <= u < t[m] ensures 0 <= s < m, t[s] <= u < t[s + 1], is_span(t, u, s)
    decreases m
{ if t[m - 1] <= u { m - 1 } else { lemma_span_below(t, u, m - 1) } }
proof fn lemma_last_below(t: Seq<real>, m: int) -> (s: int)
    requires tsorted(t), 0 < m < t.len(), t[m] == t[t.len() - 1], t[0] < t[m] ensures 0 <= s < m, t[s] < t[s + 1], t[s + 1] == t[t.len() - 1]
    decreases m
{ if t[m - 1] < t[m] { m - 1 } else { lemma_last_below(t, m - 1) } }
/// a basis function only looks at its own knots
pub proof fn lemma_bsp_local(t: Seq<real>, w: Seq<real>, i: int, j: int, p: int, u: real)
    requires p >= 0, forall|m: int| 0 <= m <= p + 1 ==> #[trigger] t[i + m] == w[j + m], forall|m: int| 0 <= m <= p ==> #[trigger] is_span(t, u, i + m) == is_span(w, u, j + m)
    ensures bsp(t, i, p, u) == bsp(w, j, p, u)
    decreases p
{
    if p > 0 {
        lemma_bsp_local(t, w, i, j, p - 1, u);
        assert forall|m: int| 0 <= m <= p implies #[trigger] t[i + 1 + m] == w[j + 1 + m] by { assert(t[i + (m + 1)] == w[j + (m + 1)]); }
        assert forall|m: int| 0 <= m <= p - 1 implies #[trigger] is_span(t, u, i + 1 + m) == is_span(w, u, j + 1 + m) by { assert(is_span(t, u, i + (m + 1)) == is_span(w, u, j + (m + 1))); }
        lemma_bsp_local(t, w, i + 1, j + 1, p - 1, u);
        lemma_bsp_step(t, i, p, u); lemma_bsp_step(w, j, p, u);
        assert(t[i + 0] == w[j + 0]); assert(t[i + p] == w[j + p]); assert(t[i + (p + 1)] == w[j + (p + 1)]); assert(t[i + 1] == w[j + 1]);
    } else { assert(is_span(t, u, i + 0) == is_span(w, u, j + 0)); }
}
pub proof fn lemma_ins_before(t: Seq<real>, k: int, x: real, i: int, p: int, u: real)
    requires ins_ok(t, k, x), p >= 0, 0 <= i, i + p + 1 <= k
    ensures bsp(t, i, p, u) == bsp(insk(t, k, x), i, p, u)
{ lemma_insk(t, k, x); lemma_bsp_local(t, insk(t, k, x), i, i, p, u); }
pub proof fn lemma_ins_after(t: Seq<real>, k: int, x: real, i: int, p: int, u: real)
    requires ins_ok(t, k, x), p >= 0, k < i, i + p + 1 < t.len()
    ensures bsp(t, i, p, u) == bsp(insk(t, k, x), i + 1, p, u)
{
    let w = insk(t, k, x); lemma_insk(t, k, x);
    assert forall|m: int| 0 <= m <= p + 1 implies #[trigger] t[i + m] == w[i + 1 + m] by { }
    assert forall|m: int| 0 <= m <= p implies #[trigger] is_span(t, u, i + m) == is_span(w, u, i + 1 + m) by { assert(t[i + m] == w[i + 1 + m]); assert(t[i + m + 1] == w[i + 1 + m + 1]); }
    lemma_bsp_local(t, w, i, i + 1, p, u);
}
pub proof fn ia_inv(d: real) requires d != 0real ensures d * rinv(d) == 1real { assert(d * (1real / d) == 1real) by(nonlinear_arith) requires d != 0real; }
/// 1 - (x - b)/(d - b) = (d - x)/(d - b)
pub proof fn ia_co(x: real, b: real, d: real) requires d != b ensures 1real - (x - b) * rinv(d - b) == (d - x) * rinv(d - b)
{ ia_inv(d - b); let r = rinv(d - b); al_ds(d - b, x - b, r); assert((d - b) - (x - b) == d - x); }
/// (a q)(b r) = (b q)(a r)
pub proof fn ia_sw(a: real, q: real, b: real, r: real) ensures (a * q) * (b * r) == (b * q) * (a * r) { al_x(a, q, b, r); al_x(b, q, a, r); al_c(a, b); }
/// ((a r) (c q)) with a q = 1 is c r
pub proof fn ia_cancel(a: real, r: real, c: real, q: real) requires a * q == 1real ensures (a * r) * (c * q) == c * r { ia_sw(a, r, c, q); assert((c * r) * 1real == c * r); }
// the three coefficients
pub proof fn ia_x4(a: real, b: real, c: real, d: real) ensures (a - b) * (c - d) == a * c - a * d - b * c + b * d { al_ds(a, b, c - d); al_ls(a, c, d); al_ls(b, c, d); }
proof fn ia_id1(u: real, x: real, a: real, c: real) ensures (u - a) * (c - x) - (x - a) * (c - u) == (u - x) * (c - a) { ia_x4(u, a, c, x); ia_x4(x, a, c, u); ia_x4(u, x, c, a); al_c(u, x); al_c(a, x); al_c(a, u); }
proof fn ia_id2(u: real, x: real, b: real, d: real) ensures (d - u) * (x - b) - (d - x) * (u - b) == (x - u) * (d - b) { ia_x4(d, u, x, b); ia_x4(d, x, u, b); ia_x4(x, u, d, b); al_c(u, x); al_c(d, x); al_c(d, u); }
proof fn ia_id3(u: real, x: real, a: real, b: real) ensures (b - a) * (x - u) + (b - x) * (u - a) == (x - a) * (b - u) { ia_x4(b, a, x, u); ia_x4(b, x, u, a); ia_x4(x, a, b, u); al_c(x, u); al_c(a, u); al_c(a, x); al_c(b, x); }
proof fn ia_id4(u: real, x: real, a: real, b: real) ensures (b - a) * (u - x) + (x - a) * (b - u) == (b - x) * (u - a) { ia_x4(b, a, u, x); ia_x4(x, a, b, u); ia_x4(b, x, u, a); al_c(x, u); al_c(a, u); al_c(a, x); al_c(b, x); }
pub proof fn ia_mid(u: real, x: real, a: real, b: real, c: real, d: real)
    requires c != a, c != b, d != b
    ensures ((u - a) * rinv(c - a)) * ((c - x) * rinv(c - b)) + ((d - u) * rinv(d - b)) * ((x - b) * rinv(c - b)) == ((x - a) * rinv(c - a)) * ((c - u) * rinv(c - b)) + ((d - x) * rinv(d - b)) * ((u - b) * rinv(c - b))
{
    let (r1, r2, r3) = (rinv(c - a), rinv(c - b), rinv(d - b));
    ia_inv(c - a); ia_inv(d - b);
    al_x(u - a, r1, c - x, r2); al_x(x - a, r1, c - u, r2); al_x(d - u, r3, x - b, r2); al_x(d - x, r3, u - b, r2);
    let (s, v, y, z) = ((u - a) * (c - x), (x - a) * (c - u), (d - u) * (x - b), (d - x) * (u - b));
    ia_id1(u, x, a, c);
    ia_id2(u, x, b, d);
    al_ds(s, v, r1 * r2); al_ds(y, z, r3 * r2);
    al_x(u - x, c - a, r1, r2); al_x(x - u, d - b, r3, r2);
    al_c((u - x) * r1, (c - a) * r2); al_x(c - a, r2, u - x, r1); al_x(d - b, r2, x - u, r3);
    // ((u-x)(c-a))(r1 r2) = ((c-a) r1)((u-x) r2)
    al_c(u - x, c - a); al_x(c - a, u - x, r1, r2); al_c(x - u, d - b); al_x(d - b, x - u, r3, r2);
    assert(1real * ((u - x) * r2) == (u - x) * r2); assert(1real * ((x - u) * r2) == (x - u) * r2);
    al_d(u - x, x - u, r2); assert(0real * r2 == 0real);
}
pub proof fn ia_low(u: real, x: real, a: real, b: real)
    requires x != a, b != a
    ensures (b - u) * rinv(b - a) == (x - u) * rinv(x - a) + ((b - x) * rinv(b - a)) * ((u - a) * rinv(x - a))
{
    let (r, q) = (rinv(b - a), rinv(x - a)); ia_inv(b - a); ia_inv(x - a);
    // (x-u) q = ((b-a) r) ((x-u) q)
    assert(1real * ((x - u) * q) == (x - u) * q);
    al_x(b - a, r, x - u, q); al_x(b - x, r, u - a, q);
    let (s, v) = ((b - a) * (x - u), (b - x) * (u - a));
    ia_id3(u, x, a, b);
    al_d(s, v, r * q); al_c(r, q); al_x(x - a, b - u, q, r); assert(1real * ((b - u) * r) == (b - u) * r);
}
pub proof fn ia_high(u: real, x: real, a: real, b: real)
    requires b != a, b != x
    ensures (u - a) * rinv(b - a) == ((x - a) * rinv(b - a)) * ((b - u) * rinv(b - x)) + (u - x) * rinv(b - x)
{
    let (r, q) = (rinv(b - a), rinv(b - x)); ia_inv(b - a); ia_inv(b - x);
    assert(1real * ((u - x) * q) == (u - x) * q);
    al_x(b - a, r, u - x, q); al_x(x - a, r, b - u, q);
    let (s, v) = ((b - a) * (u - x), (x - a) * (b - u));
    ia_id4(u, x, a, b);
    al_d(s, v, r * q); al_c(r, q); al_x(b - x, u - a, q, r); assert(1real * ((u - a) * r) == (u - a) * r);
}
pub proof fn ia_comb(l: real, r: real, a0: real, b1: real, a1: real, b2: real, n0: real, n1: real, n2: real)
    ensures l * (a0 * n0 + b1 * n1) + r * (a1 * n1 + b2 * n2) == (l * a0) * n0 + (l * b1 + r * a1) * n1 + (r * b2) * n2
{ al_l(l, a0 * n0, b1 * n1); al_l(r, a1 * n1, b2 * n2); al_as(l, a0, n0); al_as(l, b1, n1); al_as(r, a1, n1); al_as(r, b2, n2); al_d(l * b1, r * a1, n1); }
pub open spec fn rfac(t: Seq<real>, i: int, p: int, u: real) -> real { (t[i + p + 1] - u) * rinv(t[i + p + 1] - t[i + 1]) }
proof fn lemma_ia0(t: Seq<real>, k: int, x: real, i: int, p: int, u: real, s: int)
    requires ins_ok(t, k, x), p >= 1, 0 <= i, i + p + 1 < t.len(), i <= k <= i + p, is_span(insk(t, k, x), u, s)
    ensures (lfac(t, i, p, u) * alf(t, k, x, p - 1, i)) * bsp(insk(t, k, x), i, p - 1, u) == (alf(t, k, x, p, i) * lfac(insk(t, k, x), i, p, u)) * bsp(insk(t, k, x), i, p - 1, u)
{
    let w = insk(t, k, x); lemma_insk(t, k, x); let a = t[i];
    if i + p <= k { }
    else if i + p == k + 1 {
        let rc = rinv(t[k + 1] - a);
        if x == a { assert(w[i + p] == x); lemma_bsp_empty(w, i, p - 1, u, s); let (m1, m2) = (lfac(t, i, p, u) * alf(t, k, x, p - 1, i), alf(t, k, x, p, i) * lfac(w, i, p, u)); assert(m1 * 0real == 0real && m2 * 0real == 0real); }
        else { ia_inv(x - a); ia_cancel(x - a, rc, u - a, rinv(x - a)); let l = lfac(t, i, p, u); assert(l * 1real == l); }
    } else { ia_sw(u - a, rinv(t[i + p] - a), x - a, rinv(t[i + p - 1] - a)); }
}
proof fn lemma_ia2(t: Seq<real>, k: int, x: real, i: int, p: int, u: real)
    requires ins_ok(t, k, x), p >= 1, 0 <= i, i + p + 1 < t.len(), i <= k <= i + p
    ensures rfac(t, i, p, u) * (1real - alf(t, k, x, p - 1, i + 2)) == (1real - alf(t, k, x, p, i + 1)) * rfac(insk(t, k, x), i + 1, p, u)
{
    let w = insk(t, k, x); lemma_insk(t, k, x); let (b, d) = (t[i + 1], t[i + p + 1]);
    assert(t[k + 1] <= d); assert(w[i + p + 2] == d);
    if i == k { let r = rfac(t, i, p, u); assert(r * 1real == 1real * r); }
    else if i == k - 1 {
        assert(t[k] <= x && x < d); ia_co(x, b, d); ia_inv(d - x); let r = rinv(d - b);
        ia_cancel(d - x, r, d - u, rinv(d - x)); let l = rfac(t, i, p, u); assert(l * 1real == l);
    } else {
        let e = t[i + 2]; assert(e <= t[k]); assert(b <= t[k]);
        ia_co(x, e, d); ia_co(x, b, d); ia_sw(d - u, rinv(d - b), d - x, rinv(d - e));
    }
}
proof fn lemma_ia1(t: Seq<real>, k: int, x: real, i: int, p: int, u: real, s: int)
    requires ins_ok(t, k, x), p >= 1, 0 <= i, i + p + 1 < t.len(), i <= k <= i + p, is_span(insk(t, k, x), u, s)
    ensures (lfac(t, i, p, u) * (1real - alf(t, k, x, p - 1, i + 1)) + rfac(t, i, p, u) * alf(t, k, x, p - 1, i + 1)) * bsp(insk(t, k, x), i + 1, p - 1, u) == (alf(t, k, x, p, i) * rfac(insk(t, k, x), i, p, u) + (1real - alf(t, k, x, p, i + 1)) * lfac(insk(t, k, x), i + 1, p, u)) * bsp(insk(t, k, x), i + 1, p - 1, u)
{
    let w = insk(t, k, x); lemma_insk(t, k, x);
    let (l, r, a1) = (lfac(t, i, p, u), rfac(t, i, p, u), alf(t, k, x, p - 1, i + 1));
    let (lw, rw, c0, c1) = (lfac(w, i + 1, p, u), rfac(w, i, p, u), alf(t, k, x, p, i), alf(t, k, x, p, i + 1));
    if i + p == k {
        let (a, b) = (t[i + 1], t[k + 1]);
        assert(a <= t[k]); assert(l * 0real == 0real); assert(r * 1real == r); assert(1real * rw == rw);
        if x == a { assert(w[i + 1] == a); assert(w[i + 1 + p] == x); lemma_bsp_empty(w, i + 1, p - 1, u, s); let (m1, m2) = (l * (1real - a1) + r * a1, c0 * rw + (1real - c1) * lw); assert(m1 * 0real == 0real && m2 * 0real == 0real); }
        else { ia_low(u, x, a, b); ia_co(x, a, b); }
    } else if i == k {
        let (a, b) = (t[k], t[k + p]); assert(t[k + 1] <= b);
        assert(l * 1real == l); assert(r * 0real == 0real); assert(1real * lw == lw);
        ia_high(u, x, a, b);
    } else {
        let (a, b, c, d) = (t[i], t[i + 1], t[i + p], t[i + p + 1]);
        assert(t[k + 1] <= c); assert(c <= d); assert(b <= t[k]); assert(a <= t[k]);
        ia_co(x, b, c); ia_co(x, b, d); ia_mid(u, x, a, b, c, d);
    }
}
/// N = alpha_i N'_i + (1 - alpha_(i+1)) N'_(i+1)
pub proof fn lemma_insert(t: Seq<real>, k: int, x: real, i: int, p: int, u: real, s: int)
    requires ins_ok(t, k, x), p >= 0, 0 <= i, i + p + 1 < t.len(), is_span(insk(t, k, x), u, s)
    ensures bsp(t, i, p, u) == alf(t, k, x, p, i) * bsp(insk(t, k, x), i, p, u) + (1real - alf(t, k, x, p, i + 1)) * bsp(insk(t, k, x), i + 1, p, u)
    decreases p
{
    let w = insk(t, k, x); let (n, m) = (bsp(w, i, p, u), bsp(w, i + 1, p, u));
    if i + p + 1 <= k { lemma_ins_before(t, k, x, i, p, u); assert(1real * n + 0real * m == n); }
    else if i > k { lemma_ins_after(t, k, x, i, p, u); assert(0real * n + 1real * m == m); }
    else if p == 0 {
        lemma_insk(t, k, x);
        lemma_bsp0(t, i, u); lemma_bsp0(w, i, u); lemma_bsp0(w, i + 1, u);
        assert(i == k); assert(1real * n + 1real * m == n + m); assert(t[k + 1] <= t[t.len() - 1]);
        assert(w[k] == t[k] && w[k + 1] == x && w[k + 2] == t[k + 1]);
    } else { lemma_insert(t, k, x, i, p - 1, u, s); lemma_insert(t, k, x, i + 1, p - 1, u, s); lemma_insert_step(t, k, x, i, p, u, s); }
}
pub open spec fn insert_at(t: Seq<real>, k: int, x: real, i: int, p: int, u: real) -> bool { bsp(t, i, p, u) == alf(t, k, x, p, i) * bsp(insk(t, k, x), i, p, u) + (1real - alf(t, k, x, p, i + 1)) * bsp(insk(t, k, x), i + 1, p, u) }
proof fn lemma_insert_step(t: Seq<real>, k: int, x: real, i: int, p: int, u: real, s: int)
    requires ins_ok(t, k, x), p >= 1, 0 <= i, i + p + 1 < t.len(), i <= k <= i + p, is_span(insk(t, k, x), u, s), insert_at(t, k, x, i, p - 1, u), insert_at(t, k, x, i + 1, p - 1, u)
    ensures insert_at(t, k, x, i, p, u)
{
    hide(bsp); hide(alf);
    let w = insk(t, k, x);
        lemma_bsp_step(t, i, p, u); lemma_bsp_step(w, i, p, u); lemma_bsp_step(w, i + 1, p, u);
        let (n0, n1, n2) = (bsp(w, i, p - 1, u), bsp(w, i + 1, p - 1, u), bsp(w, i + 2, p - 1, u));
        let (l, r) = (lfac(t, i, p, u), rfac(t, i, p, u));
        let (a0, a1, a2) = (alf(t, k, x, p - 1, i), alf(t, k, x, p - 1, i + 1), alf(t, k, x, p - 1, i + 2));
        let (c0, c1) = (alf(t, k, x, p, i), alf(t, k, x, p, i + 1));
        let (l0, r0, l1, r1) = (lfac(w, i, p, u), rfac(w, i, p, u), lfac(w, i + 1, p, u), rfac(w, i + 1, p, u));
        lemma_ia0(t, k, x, i, p, u, s); lemma_ia1(t, k, x, i, p, u, s); lemma_ia2(t, k, x, i, p, u);
        ia_comb(l, r, a0, 1real - a1, a1, 1real - a2, n0, n1, n2);
        ia_comb(c0, 1real - c1, l0, r0, l1, r1, n0, n1, n2);
        assert(bsp(t, i + 1, p - 1, u) == a1 * n1 + (1real - a2) * n2);
}
pub open spec fn cz(c: Seq<real>, i: int) -> real { if 0 <= i < c.len() { c[i] } else { 0real } }
/// the control values after the insertion
pub open spec fn ins_c(c: Seq<real>, t: Seq<real>, k: int, x: real, p: int) -> Seq<real> { Seq::new(c.len() + 1, |i: int| alf(t, k, x, p, i) * cz(c, i) + (1real - alf(t, k, x, p, i)) * cz(c, i - 1)) }
proof fn ia_tele(a: real, b: real, n0: real, n1: real, c: real, d: real)
    ensures (a * n0 + b * n1) * c + (d * (1real - a)) * n0 == n0 * (a * c + (1real - a) * d) + (c * b) * n1
{
    al_d(a * n0, b * n1, c); al_c(d, 1real - a); al_l(n0, a * c, (1real - a) * d);
    al_c(n0, a * c); al_c(n0, (1real - a) * d); al_ac(a, n0, c); al_ac(b, n1, c); al_c(b, c);
}
proof fn lemma_tele(c: Seq<real>, t: Seq<real>, k: int, x: real, p: int, u: real, s: int, m: int)
    requires ins_ok(t, k, x), p >= 0, c.len() + p + 1 == t.len(), is_span(insk(t, k, x), u, s), 0 <= m <= c.len()
    ensures dotp(bsps(t, p, u, c.len() as int), c, m) == dotp(bsps(insk(t, k, x), p, u, c.len() as int + 1), ins_c(c, t, k, x, p), m) + (cz(c, m - 1) * (1real - alf(t, k, x, p, m))) * bsp(insk(t, k, x), m, p, u)
    decreases m
{
    hide(bsp); hide(alf);
    let w = insk(t, k, x);
    if m > 0 {
        lemma_tele(c, t, k, x, p, u, s, m - 1);
        lemma_insert(t, k, x, m - 1, p, u, s);
        let (a, b) = (alf(t, k, x, p, m - 1), 1real - alf(t, k, x, p, m));
        ia_tele(a, b, bsp(w, m - 1, p, u), bsp(w, m, p, u), cz(c, m - 1), cz(c, m - 2));
        assert(bsps(t, p, u, c.len() as int)[m - 1] == bsp(t, m - 1, p, u));
        assert(bsps(w, p, u, c.len() as int + 1)[m - 1] == bsp(w, m - 1, p, u));
        assert(ins_c(c, t, k, x, p)[m - 1] == a * cz(c, m - 1) + (1real - a) * cz(c, m - 2));
    } else { let (q, b) = (1real - alf(t, k, x, p, 0), bsp(w, 0, p, u)); assert((0real * q) * b == 0real); }
}
/// inserting a knot leaves the curve unchanged
pub proof fn theorem_insert(c: Seq<real>, t: Seq<real>, k: int, x: real, p: int, u: real)
    requires ins_ok(t, k, x), knots_sorted(t), p >= 0, c.len() + p + 1 == t.len(), t[0] <= u <= t[t.len() - 1]
    ensures bspl_r(ins_c(c, t, k, x, p), insk(t, k, x), p, u) == bspl_r(c, t, p, u)
{
    hide(bsp); hide(alf);
    let w = insk(t, k, x); lemma_insk(t, k, x);
    let s = lemma_span_exists(w, u); let n = c.len() as int;
    lemma_tele(c, t, k, x, p, u, s, n);
    let (a, b) = (alf(t, k, x, p, n), bsp(w, n, p, u)); let d = cz(c, n - 1);
    assert(ins_c(c, t, k, x, p)[n] == a * 0real + (1real - a) * d);
    assert(bsps(w, p, u, n + 1)[n] == b);
    assert(a * 0real == 0real); al_c(1real - a, d); al_c(b, d * (1real - a));
}
