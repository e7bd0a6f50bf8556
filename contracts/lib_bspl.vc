//@ struct BSplineCurve
//@ struct BSplineSurface
//@ raw
pub open spec fn bcurve3(c: Seq<Point3>, t: Seq<real>, p: int, u: real) -> Point3 { p3(bspl_r(xs3(c), t, p, u), bspl_r(ys3(c), t, p, u), bspl_r(zs3(c), t, p, u)) }
pub open spec fn bcurve4(c: Seq<Point4>, t: Seq<real>, p: int, u: real) -> Point4 { p4(bspl_r(xs4(c), t, p, u), bspl_r(ys4(c), t, p, u), bspl_r(zs4(c), t, p, u), bspl_r(ws4(c), t, p, u)) }
pub proof fn lemma_dotp_bspl(b: Seq<real>, c: Seq<real>, t: Seq<real>, p: int, u: real)
    requires b.len() == c.len(), forall|k: int| 0 <= k < c.len() ==> #[trigger] b[k] == bsp(t, k, p, u)
    ensures dotp(b, c, c.len() as int) == bspl_r(c, t, p, u)
{ lemma_dotp_ext(b, bsps(t, p, u, c.len() as int), c, c, c.len() as int); }
/// in-domain parameter of a knot vector
pub open spec fn in_knots(t: Seq<real>, u: real) -> bool { t[0] <= u <= t[t.len() - 1] }
pub open spec fn btensor(g: spec_fn(int, int) -> real, n: int, m: int, tu: Seq<real>, tv: Seq<real>, p: int, q: int, u: real, v: real) -> real { tsum(bsps(tu, p, u, n), bsps(tv, q, v, m), g, n, m) }
pub proof fn lemma_btensor(bu: Seq<Float>, bv: Seq<Float>, g: spec_fn(int, int) -> real, n: int, m: int, tu: Seq<real>, tv: Seq<real>, p: int, q: int, u: real, v: real)
    requires bu.len() == n, bv.len() == m,
        forall|k: int| 0 <= k < n ==> #[trigger] bu[k].v() == bsp(tu, k, p, u),
        forall|k: int| 0 <= k < m ==> #[trigger] bv[k].v() == bsp(tv, k, q, v),
    ensures tsum(vals(bu), vals(bv), g, n, m) == btensor(g, n, m, tu, tv, p, q, u, v)
{
    let cu = bsps(tu, p, u, n); let cv = bsps(tv, q, v, m);
    assert forall|k: int| 0 <= k < n implies #[trigger] vals(bu)[k] == cu[k] by { assert(bu[k].v() == bsp(tu, k, p, u)); };
    assert forall|k: int| 0 <= k < m implies #[trigger] vals(bv)[k] == cv[k] by { assert(bv[k].v() == bsp(tv, k, q, v)); };
    lemma_tsum_ext(vals(bu), vals(bv), cu, cv, g, n, m);
}
// partition of unity and clamped end points
pub open spec fn bsp_sum(t: Seq<real>, k: int, u: real, a: int, m: int) -> real decreases m - a { if m <= a { 0real } else { bsp_sum(t, k, u, a, m - 1) + bsp(t, m - 1, k, u) } }
/// clamped at the right end: the last basis function is one there, all others zero
pub proof fn lemma_end_basis(t: Seq<real>, u: real, s: int, i: int, k: int)
    requires knots_ok(t), is_span(t, u, s), u == t[t.len() - 1], k >= 0, 0 <= i, i + k + 1 < t.len(), t[s + 1] == t[t.len() - 1]
    ensures bsp(t, i, k, u) == (if i == s { 1real } else { 0real })
    decreases k
{
    if k == 0 { if is_span(t, u, i) { lemma_span_unique(t, u, s, i); } }
    else {
        lemma_end_basis(t, u, s, i, k - 1); lemma_end_basis(t, u, s, i + 1, k - 1);
        lemma_bsp_step(t, i, k, u);
        let f0 = bsp(t, i, k - 1, u); let f1 = bsp(t, i + 1, k - 1, u);
        let a = (u - t[i]) * rinv(t[i + k] - t[i]); let b = (t[i + k + 1] - u) * rinv(t[i + k + 1] - t[i + 1]);
        if i == s {
            assert(t[i + k] == u) by { assert(t[s + 1] <= t[i + k]); assert(t[i + k] <= t[t.len() - 1]); }
            assert((u - t[i]) * (1real / (u - t[i])) == 1real) by(nonlinear_arith) requires u - t[i] != 0real;
            assert(f1 == 0real); assert(b * 0real == 0real) by(nonlinear_arith); assert(a * 1real == a) by(nonlinear_arith);
        } else if i + 1 == s {
            assert(t[i + k + 1] == u) by { assert(t[s + 1] <= t[i + k + 1] || k == 0); assert(t[i + k + 1] <= t[t.len() - 1]); if k >= 1 { assert(s + 1 <= i + k + 1); } }
            assert(f0 == 0real);
            assert(b == 0real) by(nonlinear_arith) requires b == (t[i + k + 1] - u) * rinv(t[i + k + 1] - t[i + 1]), t[i + k + 1] == u;
            assert(a * 0real == 0real && 0real * f1 == 0real) by(nonlinear_arith);
        } else {
            assert(f0 == 0real && f1 == 0real);
            assert(a * 0real + b * 0real == 0real) by(nonlinear_arith);
        }
    }
}
pub proof fn lemma_start_basis(t: Seq<real>, u: real, s: int, i: int, k: int)
    requires knots_ok(t), is_span(t, u, s), u == t[0], u < t[t.len() - 1], k >= 0, 0 <= i, i + k + 1 < t.len()
    ensures bsp(t, i, k, u) == (if i + k == s { 1real } else { 0real })
    decreases k
{
    if k == 0 { if is_span(t, u, i) { lemma_span_unique(t, u, s, i); } }
    else {
        lemma_start_basis(t, u, s, i, k - 1); lemma_start_basis(t, u, s, i + 1, k - 1);
        lemma_bsp_step(t, i, k, u);
        let f0 = bsp(t, i, k - 1, u); let f1 = bsp(t, i + 1, k - 1, u);
        let a = (u - t[i]) * rinv(t[i + k] - t[i]); let b = (t[i + k + 1] - u) * rinv(t[i + k + 1] - t[i + 1]);
        if i + k == s {
            assert(t[i + 1] == u) by { assert(t[i + 1] <= t[s]); assert(t[0] <= t[i + 1]); }
            assert(t[s + 1] - u > 0real);
            assert((t[s + 1] - u) * (1real / (t[s + 1] - u)) == 1real) by(nonlinear_arith) requires t[s + 1] - u != 0real;
            assert(f0 == 0real); assert(a * 0real == 0real && b * 1real == b) by(nonlinear_arith);
        } else if i + k - 1 == s {
            assert(t[i] == u) by { assert(t[i] <= t[s]); assert(t[0] <= t[i]); }
            assert(f1 == 0real);
            assert(a == 0real) by(nonlinear_arith) requires a == (u - t[i]) * rinv(t[i + k] - t[i]), t[i] == u;
            assert(b * 0real == 0real && 0real * f0 == 0real) by(nonlinear_arith);
        } else {
            assert(f0 == 0real && f1 == 0real);
            assert(a * 0real + b * 0real == 0real) by(nonlinear_arith);
        }
    }
}
/// a clamped spline starts at its first and ends at its last control value
pub proof fn theorem_clamped_ends(c: Seq<real>, t: Seq<real>, p: int)
    requires knots_ok(t), 0 <= p, t.len() == c.len() + p + 1, c.len() >= p + 1,
        forall|i: int| 0 <= i <= p ==> #[trigger] t[i] == t[0], t[p] < t[p + 1] || c.len() == 1,
        forall|i: int| c.len() <= i < t.len() ==> #[trigger] t[i] == t[t.len() - 1], t[c.len() - 1] < t[c.len() as int],
    ensures bspl_r(c, t, p, t[0]) == c[0], bspl_r(c, t, p, t[t.len() - 1]) == c[c.len() - 1]
{
    let l = t.len() - 1; let n = c.len() as int;
    assert(t[p] == t[0]);
    assert(t[n] == t[l]);
    let b0 = bsps(t, p, t[0], n); let b1 = bsps(t, p, t[l], n);
    if c.len() == 1 { assert(p + 1 == n || p == 0); assert(t[p] < t[p + 1]) by { assert(p == 0 || n == 1); assert(n - 1 == 0); assert(t[0] < t[l]); if p > 0 { assert(n >= p + 1); } } }
    assert(is_span(t, t[0], p)) by { assert(t[p + 1] <= t[l]); }
    assert(is_span(t, t[l], n - 1));
    assert forall|i: int| 0 <= i < n implies #[trigger] b0[i] == (if i == 0 { 1real } else { 0real }) by { lemma_start_basis(t, t[0], p, i, p); }
    assert forall|i: int| 0 <= i < n implies #[trigger] b1[i] == (if i == n - 1 { 1real } else { 0real }) by { lemma_end_basis(t, t[l], n - 1, i, p); }
    lemma_dotp_unit(b0, c, n, 0);
    lemma_dotp_unit(b1, c, n, n - 1);
}
//@ fn BSplineCurve<P>::degree ret=r implgen=<P>
    ensures r == self.degree
//@ fn BSplineCurve<Point3>::get_point params=u loops=1
    requires knots_ok(vals(self.knots.0@)), in_knots(vals(self.knots.0@), u.v()), self.control_points@.len() >= 1,
        self.knots.0@.len() == self.control_points@.len() + self.degree + 1, 2 * self.knots.0@.len() <= usize::MAX,
    ensures ret == bcurve3(self.control_points@, vals(self.knots.0@), self.degree as int, u.v()),
//@ loop 0
    point == p3(dotp(vals(basis@), xs3(self.control_points@), $i0 as int), dotp(vals(basis@), ys3(self.control_points@), $i0 as int), dotp(vals(basis@), zs3(self.control_points@), $i0 as int)),
//@ ghost loop0.after
    proof {
        lemma_dotp_bspl(vals(basis@), xs3(self.control_points@), vals(self.knots.0@), self.degree as int, u.v());
        lemma_dotp_bspl(vals(basis@), ys3(self.control_points@), vals(self.knots.0@), self.degree as int, u.v());
        lemma_dotp_bspl(vals(basis@), zs3(self.control_points@), vals(self.knots.0@), self.degree as int, u.v());
    }
//@ fn BSplineCurve<Point4>::get_point params=u loops=1
    requires knots_ok(vals(self.knots.0@)), in_knots(vals(self.knots.0@), u.v()), self.control_points@.len() >= 1,
        self.knots.0@.len() == self.control_points@.len() + self.degree + 1, 2 * self.knots.0@.len() <= usize::MAX,
        bcurve4(self.control_points@, vals(self.knots.0@), self.degree as int, u.v()).w.v() != 0real,
    ensures ({ let h = bcurve4(self.control_points@, vals(self.knots.0@), self.degree as int, u.v());
        &&& ret.x.v() * h.w.v() == h.x.v()
        &&& ret.y.v() * h.w.v() == h.y.v()
        &&& ret.z.v() * h.w.v() == h.z.v() }),
//@ loop 0
    point == p4(dotp(vals(basis@), xs4(self.control_points@), $i0 as int), dotp(vals(basis@), ys4(self.control_points@), $i0 as int), dotp(vals(basis@), zs4(self.control_points@), $i0 as int), dotp(vals(basis@), ws4(self.control_points@), $i0 as int)),
//@ ghost loop0.after
    proof {
        lemma_dotp_bspl(vals(basis@), xs4(self.control_points@), vals(self.knots.0@), self.degree as int, u.v());
        lemma_dotp_bspl(vals(basis@), ys4(self.control_points@), vals(self.knots.0@), self.degree as int, u.v());
        lemma_dotp_bspl(vals(basis@), zs4(self.control_points@), vals(self.knots.0@), self.degree as int, u.v());
        lemma_dotp_bspl(vals(basis@), ws4(self.control_points@), vals(self.knots.0@), self.degree as int, u.v());
        let h = bcurve4(self.control_points@, vals(self.knots.0@), self.degree as int, u.v());
        assert(point == h);
        assert((1real / h.w.v()) * h.x.v() * h.w.v() == h.x.v()) by(nonlinear_arith) requires h.w.v() != 0real;
        assert((1real / h.w.v()) * h.y.v() * h.w.v() == h.y.v()) by(nonlinear_arith) requires h.w.v() != 0real;
        assert((1real / h.w.v()) * h.z.v() * h.w.v() == h.z.v()) by(nonlinear_arith) requires h.w.v() != 0real;
    }
//@ raw
pub open spec fn bsurf_ok<P>(g: Grid<P>, ku: Seq<Float>, kv: Seq<Float>, p: int, q: int) -> bool {
    &&& g.nrows() >= 1 && g.ncols() >= 1
    &&& knots_ok(vals(ku)) && knots_ok(vals(kv))
    &&& ku.len() == g.nrows() + p + 1 && kv.len() == g.ncols() + q + 1
    &&& 2 * ku.len() <= usize::MAX && 2 * kv.len() <= usize::MAX
}
//@ fn BSplineSurface<Point3>::get_point params=u,v loops=2
    requires bsurf_ok(self.control_points, self.knots.0.0@, self.knots.1.0@, self.degree.0 as int, self.degree.1 as int), in_knots(vals(self.knots.0.0@), u.v()), in_knots(vals(self.knots.1.0@), v.v()),
    ensures ({ let g = self.control_points; let (n, m) = (g.nrows() as int, g.ncols() as int); let (tu, tv) = (vals(self.knots.0.0@), vals(self.knots.1.0@)); let (p, q) = (self.degree.0 as int, self.degree.1 as int);
        ret == p3(btensor(gx3(g), n, m, tu, tv, p, q, u.v(), v.v()), btensor(gy3(g), n, m, tu, tv, p, q, u.v(), v.v()), btensor(gz3(g), n, m, tu, tv, p, q, u.v(), v.v())) }),
//@ loop 0
    ({ let g = self.control_points; let (a, b, i, c) = (vals(basis_u@), vals(basis_v@), $i0 as int, m as int);
       point == p3(tsum(a, b, gx3(g), i, c), tsum(a, b, gy3(g), i, c), tsum(a, b, gz3(g), i, c)) }),
//@ loop 0.0
    ({ let g = self.control_points; let (a, b, i, c, j) = (vals(basis_u@), vals(basis_v@), $j0 as int, m as int, $i0_0 as int);
       point == p3(tsum(a, b, gx3(g), i, c) + trow(a, b, gx3(g), i, j), tsum(a, b, gy3(g), i, c) + trow(a, b, gy3(g), i, j), tsum(a, b, gz3(g), i, c) + trow(a, b, gz3(g), i, j)) }),
//@ ghost loop0.after
    proof { let g = self.control_points; let (tu, tv) = (vals(self.knots.0.0@), vals(self.knots.1.0@)); let (p, q) = (self.degree.0 as int, self.degree.1 as int);
        lemma_btensor(basis_u@, basis_v@, gx3(g), n as int, m as int, tu, tv, p, q, u.v(), v.v());
        lemma_btensor(basis_u@, basis_v@, gy3(g), n as int, m as int, tu, tv, p, q, u.v(), v.v());
        lemma_btensor(basis_u@, basis_v@, gz3(g), n as int, m as int, tu, tv, p, q, u.v(), v.v()); }
//@ fn BSplineSurface<Point4>::get_point params=u,v loops=2
    requires bsurf_ok(self.control_points, self.knots.0.0@, self.knots.1.0@, self.degree.0 as int, self.degree.1 as int), in_knots(vals(self.knots.0.0@), u.v()), in_knots(vals(self.knots.1.0@), v.v()),
        ({ let g = self.control_points; btensor(gw4(g), g.nrows() as int, g.ncols() as int, vals(self.knots.0.0@), vals(self.knots.1.0@), self.degree.0 as int, self.degree.1 as int, u.v(), v.v()) != 0real }),
    ensures ({ let g = self.control_points; let (n, m) = (g.nrows() as int, g.ncols() as int); let (tu, tv) = (vals(self.knots.0.0@), vals(self.knots.1.0@)); let (p, q) = (self.degree.0 as int, self.degree.1 as int);
        let w = btensor(gw4(g), n, m, tu, tv, p, q, u.v(), v.v());
        &&& ret.x.v() * w == btensor(gx4(g), n, m, tu, tv, p, q, u.v(), v.v())
        &&& ret.y.v() * w == btensor(gy4(g), n, m, tu, tv, p, q, u.v(), v.v())
        &&& ret.z.v() * w == btensor(gz4(g), n, m, tu, tv, p, q, u.v(), v.v()) }),
//@ loop 0
    ({ let g = self.control_points; let (a, b, i, c) = (vals(basis_u@), vals(basis_v@), $i0 as int, m as int);
       point == p4(tsum(a, b, gx4(g), i, c), tsum(a, b, gy4(g), i, c), tsum(a, b, gz4(g), i, c), tsum(a, b, gw4(g), i, c)) }),
//@ loop 0.0
    ({ let g = self.control_points; let (a, b, i, c, j) = (vals(basis_u@), vals(basis_v@), $j0 as int, m as int, $i0_0 as int);
       point == p4(tsum(a, b, gx4(g), i, c) + trow(a, b, gx4(g), i, j), tsum(a, b, gy4(g), i, c) + trow(a, b, gy4(g), i, j),
                   tsum(a, b, gz4(g), i, c) + trow(a, b, gz4(g), i, j), tsum(a, b, gw4(g), i, c) + trow(a, b, gw4(g), i, j)) }),
//@ ghost loop0.after
    proof { let g = self.control_points; let (tu, tv) = (vals(self.knots.0.0@), vals(self.knots.1.0@)); let (p, q) = (self.degree.0 as int, self.degree.1 as int);
        lemma_btensor(basis_u@, basis_v@, gx4(g), n as int, m as int, tu, tv, p, q, u.v(), v.v());
        lemma_btensor(basis_u@, basis_v@, gy4(g), n as int, m as int, tu, tv, p, q, u.v(), v.v());
        lemma_btensor(basis_u@, basis_v@, gz4(g), n as int, m as int, tu, tv, p, q, u.v(), v.v());
        lemma_btensor(basis_u@, basis_v@, gw4(g), n as int, m as int, tu, tv, p, q, u.v(), v.v());
        let w = point.w.v();
        assert((1real / w) * point.x.v() * w == point.x.v()) by(nonlinear_arith) requires w != 0real;
        assert((1real / w) * point.y.v() * w == point.y.v()) by(nonlinear_arith) requires w != 0real;
        assert((1real / w) * point.z.v() * w == point.z.v()) by(nonlinear_arith) requires w != 0real; }
