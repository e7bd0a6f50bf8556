//@ struct BezierCurve
//@ struct BezierSurface
//@ raw
pub open spec fn curve3(c: Seq<Point3>, u: real) -> Point3 { p3(bezier_r(xs3(c), u), bezier_r(ys3(c), u), bezier_r(zs3(c), u)) }
pub open spec fn curve4(c: Seq<Point4>, u: real) -> Point4 { p4(bezier_r(xs4(c), u), bezier_r(ys4(c), u), bezier_r(zs4(c), u), bezier_r(ws4(c), u)) }
pub open spec fn tensor(g: spec_fn(int, int) -> real, n: int, m: int, u: real, v: real) -> real { tsum(bcoefs(n - 1, u), bcoefs(m - 1, v), g, n, m) }
pub proof fn lemma_tensor(bu: Seq<Float>, bv: Seq<Float>, g: spec_fn(int, int) -> real, n: int, m: int, u: real, v: real)
    requires n >= 1, m >= 1, bu.len() == n, bv.len() == m,
        forall|k: int| 0 <= k < n ==> #[trigger] bu[k].v() == bern(n - 1, k, u),
        forall|k: int| 0 <= k < m ==> #[trigger] bv[k].v() == bern(m - 1, k, v),
    ensures tsum(vals(bu), vals(bv), g, n, m) == tensor(g, n, m, u, v)
{
    let cu = bcoefs(n - 1, u); let cv = bcoefs(m - 1, v);
    assert forall|k: int| 0 <= k < n implies #[trigger] vals(bu)[k] == cu[k] by { lemma_bern_closed(n - 1, k, u); assert(bu[k].v() == bern(n - 1, k, u)); };
    assert forall|k: int| 0 <= k < m implies #[trigger] vals(bv)[k] == cv[k] by { lemma_bern_closed(m - 1, k, v); assert(bv[k].v() == bern(m - 1, k, v)); };
    lemma_tsum_ext(vals(bu), vals(bv), cu, cv, g, n, m);
}
// end points: a Bezier curve starts at the first and ends at the last control value
pub proof fn lemma_bern_at0(n: int, k: int)
    requires n >= 0
    ensures bern(n, k, 0real) == (if k == 0 { 1real } else { 0real })
    decreases n
{ if n > 0 { lemma_bern_at0(n - 1, k); lemma_bern_at0(n - 1, k - 1); lemma_bern_step(n, k, 0real); } }
pub proof fn lemma_bern_at1(n: int, k: int)
    requires n >= 0
    ensures bern(n, k, 1real) == (if k == n { 1real } else { 0real })
    decreases n
{ if n > 0 { lemma_bern_at1(n - 1, k); lemma_bern_at1(n - 1, k - 1); lemma_bern_step(n, k, 1real); } }
pub proof fn theorem_bezier_ends(c: Seq<real>)
    requires c.len() >= 1
    ensures bezier_r(c, 0real) == c[0], bezier_r(c, 1real) == c[c.len() - 1]
{
    let n = c.len() - 1;
    let b0 = bcoefs(n, 0real); let b1 = bcoefs(n, 1real);
    assert forall|k: int| 0 <= k < c.len() implies #[trigger] b0[k] == (if k == 0 { 1real } else { 0real }) by { lemma_bern_closed(n, k, 0real); lemma_bern_at0(n, k); };
    assert forall|k: int| 0 <= k < c.len() implies #[trigger] b1[k] == (if k == n { 1real } else { 0real }) by { lemma_bern_closed(n, k, 1real); lemma_bern_at1(n, k); };
    lemma_dotp_unit(b0, c, c.len() as int, 0);
    lemma_dotp_unit(b1, c, c.len() as int, n);
}
// convex hull: inside [0,1] every coordinate stays between bounds of the control values
pub proof fn lemma_hull(c: Seq<real>, b: Seq<real>, u: real, m: int, lo: real, hi: real)
    requires 0real <= u <= 1real, 0 <= m <= c.len(), c.len() >= 1,
        forall|k: int| 0 <= k < c.len() ==> #[trigger] b[k] == bern(c.len() - 1, k, u),
        forall|k: int| 0 <= k < c.len() ==> lo <= #[trigger] c[k] <= hi,
    ensures lo * bern_sum(c.len() - 1, u, m) <= dotp(b, c, m) <= hi * bern_sum(c.len() - 1, u, m)
    decreases m
{
    if m > 0 {
        lemma_hull(c, b, u, m - 1, lo, hi);
        lemma_bern_nonneg(c.len() - 1, m - 1, u);
        let w = bern(c.len() - 1, m - 1, u); let x = c[m - 1]; let s = bern_sum(c.len() - 1, u, m - 1);
        assert(b[m - 1] == w);
        assert(lo * w <= w * x <= hi * w) by(nonlinear_arith) requires w >= 0real, lo <= x <= hi;
        assert(lo * (s + w) == lo * s + lo * w) by(nonlinear_arith);
        assert(hi * (s + w) == hi * s + hi * w) by(nonlinear_arith);
    } else { assert(lo * 0real == 0real && hi * 0real == 0real) by(nonlinear_arith); }
}
pub proof fn theorem_bezier_hull(c: Seq<real>, u: real, lo: real, hi: real)
    requires c.len() >= 1, 0real <= u <= 1real, forall|k: int| 0 <= k < c.len() ==> lo <= #[trigger] c[k] <= hi
    ensures lo <= bezier_r(c, u) <= hi
{
    let n = c.len() - 1;
    let b = bcoefs(n, u);
    assert forall|k: int| 0 <= k < c.len() implies #[trigger] b[k] == bern(n, k, u) by { lemma_bern_closed(n, k, u); };
    lemma_hull(c, b, u, c.len() as int, lo, hi);
    lemma_bern_sum_one(n, u);
    assert(lo * 1real == lo && hi * 1real == hi) by(nonlinear_arith);
}
//@ fn BezierCurve<Point3>::get_point params=u loops=1
    requires self.control_points@.len() >= 1,
    ensures ret == curve3(self.control_points@, u.v()),
//@ loop 0
    point == p3(dotp(vals(basis@), xs3(self.control_points@), $i0 as int), dotp(vals(basis@), ys3(self.control_points@), $i0 as int), dotp(vals(basis@), zs3(self.control_points@), $i0 as int)),
//@ ghost loop0.after
    proof {
        lemma_dotp_bern(vals(basis@), xs3(self.control_points@), u.v());
        lemma_dotp_bern(vals(basis@), ys3(self.control_points@), u.v());
        lemma_dotp_bern(vals(basis@), zs3(self.control_points@), u.v());
    }
//@ fn BezierCurve<Point4>::get_point params=u loops=1
    requires self.control_points@.len() >= 1, curve4(self.control_points@, u.v()).w.v() != 0real,
    ensures ({ let h = curve4(self.control_points@, u.v());
        &&& ret.x.v() * h.w.v() == h.x.v()
        &&& ret.y.v() * h.w.v() == h.y.v()
        &&& ret.z.v() * h.w.v() == h.z.v() }),
//@ loop 0
    point == p4(dotp(vals(basis@), xs4(self.control_points@), $i0 as int), dotp(vals(basis@), ys4(self.control_points@), $i0 as int), dotp(vals(basis@), zs4(self.control_points@), $i0 as int), dotp(vals(basis@), ws4(self.control_points@), $i0 as int)),
//@ ghost loop0.after
    proof {
        lemma_dotp_bern(vals(basis@), xs4(self.control_points@), u.v());
        lemma_dotp_bern(vals(basis@), ys4(self.control_points@), u.v());
        lemma_dotp_bern(vals(basis@), zs4(self.control_points@), u.v());
        lemma_dotp_bern(vals(basis@), ws4(self.control_points@), u.v());
        let h = curve4(self.control_points@, u.v());
        assert(point == h);
        assert((1real / h.w.v()) * h.x.v() * h.w.v() == h.x.v()) by(nonlinear_arith) requires h.w.v() != 0real;
        assert((1real / h.w.v()) * h.y.v() * h.w.v() == h.y.v()) by(nonlinear_arith) requires h.w.v() != 0real;
        assert((1real / h.w.v()) * h.z.v() * h.w.v() == h.z.v()) by(nonlinear_arith) requires h.w.v() != 0real;
    }
//@ fn BezierSurface<Point3>::get_point params=u,v loops=2
    requires self.control_points.nrows() >= 1, self.control_points.ncols() >= 1,
    ensures ret == p3(tensor(gx3(self.control_points), self.control_points.nrows() as int, self.control_points.ncols() as int, u.v(), v.v()),
                      tensor(gy3(self.control_points), self.control_points.nrows() as int, self.control_points.ncols() as int, u.v(), v.v()),
                      tensor(gz3(self.control_points), self.control_points.nrows() as int, self.control_points.ncols() as int, u.v(), v.v())),
//@ loop 0
    ({ let g = self.control_points; let (a, b, i, c) = (vals(basis_u@), vals(basis_v@), $i0 as int, m as int);
       point == p3(tsum(a, b, gx3(g), i, c), tsum(a, b, gy3(g), i, c), tsum(a, b, gz3(g), i, c)) }),
//@ loop 0.0
    ({ let g = self.control_points; let (a, b, i, c, j) = (vals(basis_u@), vals(basis_v@), $j0 as int, m as int, $i0_0 as int);
       point == p3(tsum(a, b, gx3(g), i, c) + trow(a, b, gx3(g), i, j), tsum(a, b, gy3(g), i, c) + trow(a, b, gy3(g), i, j), tsum(a, b, gz3(g), i, c) + trow(a, b, gz3(g), i, j)) }),
//@ ghost loop0.after
    proof { let g = self.control_points;
        lemma_tensor(basis_u@, basis_v@, gx3(g), n as int, m as int, u.v(), v.v());
        lemma_tensor(basis_u@, basis_v@, gy3(g), n as int, m as int, u.v(), v.v());
        lemma_tensor(basis_u@, basis_v@, gz3(g), n as int, m as int, u.v(), v.v()); }
//@ fn BezierSurface<Point4>::get_point params=u,v loops=2
    requires self.control_points.nrows() >= 1, self.control_points.ncols() >= 1,
        tensor(gw4(self.control_points), self.control_points.nrows() as int, self.control_points.ncols() as int, u.v(), v.v()) != 0real,
    ensures ({ let g = self.control_points; let (n, m) = (g.nrows() as int, g.ncols() as int); let w = tensor(gw4(g), n, m, u.v(), v.v());
        &&& ret.x.v() * w == tensor(gx4(g), n, m, u.v(), v.v())
        &&& ret.y.v() * w == tensor(gy4(g), n, m, u.v(), v.v())
        &&& ret.z.v() * w == tensor(gz4(g), n, m, u.v(), v.v()) }),
//@ loop 0
    ({ let g = self.control_points; let (a, b, i, c) = (vals(basis_u@), vals(basis_v@), $i0 as int, m as int);
       point == p4(tsum(a, b, gx4(g), i, c), tsum(a, b, gy4(g), i, c), tsum(a, b, gz4(g), i, c), tsum(a, b, gw4(g), i, c)) }),
//@ loop 0.0
    ({ let g = self.control_points; let (a, b, i, c, j) = (vals(basis_u@), vals(basis_v@), $j0 as int, m as int, $i0_0 as int);
       point == p4(tsum(a, b, gx4(g), i, c) + trow(a, b, gx4(g), i, j), tsum(a, b, gy4(g), i, c) + trow(a, b, gy4(g), i, j),
                   tsum(a, b, gz4(g), i, c) + trow(a, b, gz4(g), i, j), tsum(a, b, gw4(g), i, c) + trow(a, b, gw4(g), i, j)) }),
//@ ghost loop0.after
    proof { let g = self.control_points;
        lemma_tensor(basis_u@, basis_v@, gx4(g), n as int, m as int, u.v(), v.v());
        lemma_tensor(basis_u@, basis_v@, gy4(g), n as int, m as int, u.v(), v.v());
        lemma_tensor(basis_u@, basis_v@, gz4(g), n as int, m as int, u.v(), v.v());
        lemma_tensor(basis_u@, basis_v@, gw4(g), n as int, m as int, u.v(), v.v());
        let w = point.w.v();
        assert((1real / w) * point.x.v() * w == point.x.v()) by(nonlinear_arith) requires w != 0real;
        assert((1real / w) * point.y.v() * w == point.y.v()) by(nonlinear_arith) requires w != 0real;
        assert((1real / w) * point.z.v() * w == point.z.v()) by(nonlinear_arith) requires w != 0real; }
