//@ include div_total.rs float.rs points.rs std.rs grid.rs
//@ use lib_sum.vc lib_bern.vc
//@ assume lib_knot.vc lib_kv.vc lib_bspl.vc lib_bez.vc
//@ use lib_deriv.vc
//@ use lib_dfn.vc
//@ raw
/// exact partial derivatives (slopes of the basis functions against the control points)
pub open spec fn surf_du(s: BSplineSurface<Point3>, u: real, v: real) -> Point3 {
    let g = s.control_points; let (n, m) = (g.nrows() as int, g.ncols() as int); let a = bspds(vals(s.knots.0.0@), s.degree.0 as int, u, n); let b = bsps(vals(s.knots.1.0@), s.degree.1 as int, v, m);
    p3(tsum(a, b, gx3(g), n, m), tsum(a, b, gy3(g), n, m), tsum(a, b, gz3(g), n, m))
}
pub open spec fn surf_dv(s: BSplineSurface<Point3>, u: real, v: real) -> Point3 {
    let g = s.control_points; let (n, m) = (g.nrows() as int, g.ncols() as int); let a = bsps(vals(s.knots.0.0@), s.degree.0 as int, u, n); let b = bspds(vals(s.knots.1.0@), s.degree.1 as int, v, m);
    p3(tsum(a, b, gx3(g), n, m), tsum(a, b, gy3(g), n, m), tsum(a, b, gz3(g), n, m))
}
pub open spec fn par_ok(s: BSplineSurface<Point3>, p: Point2) -> bool {
    &&& der_dom(vals(s.knots.0.0@), s.control_points.nrows() as int, s.degree.0 as int, p.x.v()) && p.x.v() <= vals(s.knots.0.0@)[s.control_points.nrows() as int]
    &&& der_dom(vals(s.knots.1.0@), s.control_points.ncols() as int, s.degree.1 as int, p.y.v()) && p.y.v() <= vals(s.knots.1.0@)[s.control_points.ncols() as int]
}
pub open spec fn is_normal_of(r: Point3, du: Point3, dv: Point3) -> bool {
    let c = cross3(du, dv); let l = rsqrt(dot3(c, c));
    r.x.v() == c.x.v() / l && r.y.v() == c.y.v() / l && r.z.v() == c.z.v() / l
}
pub proof fn lemma_span_exists(t: Seq<real>, u: real, k: int) -> (s: int)
    requires knots_ok(t), t[0] <= u, u <= t[t.len() - 1], 0 <= k < t.len() - 1, t[k] <= u, forall|j: int| k < j < t.len() ==> #[trigger] t[j] > u || (u == t[t.len() - 1] && t[j] == u)
    ensures is_span(t, u, s)
    decreases k
{
    if t[k] < t[k + 1] { k }
    else if u < t[k + 1] { k }
    else { assert(t[k] == u && u == t[t.len() - 1]); if k == 0 { assert(false); } lemma_span_exists(t, u, k - 1) }
}
pub proof fn lemma_in_span(t: Seq<real>, u: real, k: int) -> (s: int)
    requires knots_ok(t), t[0] <= u, u <= t[t.len() - 1], 0 <= k <= t.len() - 1, forall|j: int| k < j < t.len() ==> #[trigger] t[j] > u || (u == t[t.len() - 1] && t[j] == u)
    ensures is_span(t, u, s)
    decreases k
{
    if k == t.len() - 1 || t[k] > u { lemma_in_span(t, u, k - 1) } else { lemma_span_exists(t, u, k) }
}
//@ fn BSplineSurface<Point3>::get_normals params=params ret=r loops=1 hint=out0:Vec3
    requires surf_ok(*self), self.degree.0 >= 1, self.degree.1 >= 1, self.control_points.nrows() * self.control_points.ncols() <= usize::MAX,
        self.control_points.nrows() >= self.degree.0 + 1, self.control_points.ncols() >= self.degree.1 + 1,
        forall|k: int| 0 <= k < params@.len() ==> par_ok(*self, #[trigger] params@[k]),
    ensures r@.len() == params@.len(),
        forall|k: int| 0 <= k < params@.len() ==> is_normal_of(#[trigger] r@[k], surf_du(*self, params@[k].x.v(), params@[k].y.v()), surf_dv(*self, params@[k].x.v(), params@[k].y.v())),
//@ loop 0
    $n0 == params@.len(), forall|k: int| 0 <= k < $i0 ==> is_normal_of(#[trigger] $out0@[k], surf_du(*self, params@[k].x.v(), params@[k].y.v()), surf_dv(*self, params@[k].x.v(), params@[k].y.v())),
//@ ghost start
    hide(par_ok); hide(surf_ok); hide(bsurf_ok); hide(is_der_u); hide(is_der_v); hide(tsum); hide(btensor); hide(bspds); hide(bsps); hide(gdiff); hide(gdiffv);
    proof { reveal(surf_ok); reveal(bsurf_ok); }
//@ ghost loop0.start
    proof {
        assert(is_der_u(*self, der_u)) by { reveal(is_der_u); } assert(is_der_v(*self, der_v)) by { reveal(is_der_v); }
        reveal(par_ok); reveal(bsurf_ok); reveal(surf_ok);
        let (a, b) = (params@[$j0 as int].x.v(), params@[$j0 as int].y.v());
        assert(par_ok(*self, params@[$j0 as int]));
        lemma_normal_step(*self, der_u, der_v, a, b);
    }
//@ raw
pub open spec fn is_der_u(s: BSplineSurface<Point3>, r: BSplineSurface<Point3>) -> bool {
    let g = s.control_points; let h = r.control_points; let t = vals(s.knots.0.0@); let p = s.degree.0 as int;
    &&& r.degree.0 == p - 1 && r.degree.1 == s.degree.1 && vals(r.knots.0.0@) =~= inner(t) && r.knots.1.0@ =~= s.knots.1.0@
    &&& h.nrows() == g.nrows() - 1 && h.ncols() == g.ncols()
    &&& forall|i: int, j: int| 0 <= i < h.nrows() && 0 <= j < h.ncols() ==> #[trigger] gx3(h)(i, j) == gdiff(gx3(g), t, p)(i, j)
    &&& forall|i: int, j: int| 0 <= i < h.nrows() && 0 <= j < h.ncols() ==> #[trigger] gy3(h)(i, j) == gdiff(gy3(g), t, p)(i, j)
    &&& forall|i: int, j: int| 0 <= i < h.nrows() && 0 <= j < h.ncols() ==> #[trigger] gz3(h)(i, j) == gdiff(gz3(g), t, p)(i, j)
}
pub open spec fn is_der_v(s: BSplineSurface<Point3>, r: BSplineSurface<Point3>) -> bool {
    let g = s.control_points; let h = r.control_points; let t = vals(s.knots.1.0@); let q = s.degree.1 as int;
    &&& r.degree.1 == q - 1 && r.degree.0 == s.degree.0 && vals(r.knots.1.0@) =~= inner(t) && r.knots.0.0@ =~= s.knots.0.0@
    &&& h.nrows() == g.nrows() && h.ncols() == g.ncols() - 1
    &&& forall|i: int, j: int| 0 <= i < h.nrows() && 0 <= j < h.ncols() ==> #[trigger] gx3(h)(i, j) == gdiffv(gx3(g), t, q)(i, j)
    &&& forall|i: int, j: int| 0 <= i < h.nrows() && 0 <= j < h.ncols() ==> #[trigger] gy3(h)(i, j) == gdiffv(gy3(g), t, q)(i, j)
    &&& forall|i: int, j: int| 0 <= i < h.nrows() && 0 <= j < h.ncols() ==> #[trigger] gz3(h)(i, j) == gdiffv(gz3(g), t, q)(i, j)
}
pub open spec fn surf_pt(s: BSplineSurface<Point3>, u: real, v: real) -> Point3 {
    let g = s.control_points; let (n, m) = (g.nrows() as int, g.ncols() as int); let (tu, tv) = (vals(s.knots.0.0@), vals(s.knots.1.0@)); let (p, q) = (s.degree.0 as int, s.degree.1 as int);
    p3(btensor(gx3(g), n, m, tu, tv, p, q, u, v), btensor(gy3(g), n, m, tu, tv, p, q, u, v), btensor(gz3(g), n, m, tu, tv, p, q, u, v))
}
pub proof fn lemma_normal_step(s: BSplineSurface<Point3>, du: BSplineSurface<Point3>, dv: BSplineSurface<Point3>, u: real, v: real)
    requires surf_ok(s), s.degree.0 >= 1, s.degree.1 >= 1, s.control_points.nrows() >= s.degree.0 + 1, s.control_points.ncols() >= s.degree.1 + 1, is_der_u(s, du), is_der_v(s, dv),
        der_dom(vals(s.knots.0.0@), s.control_points.nrows() as int, s.degree.0 as int, u), u <= vals(s.knots.0.0@)[s.control_points.nrows() as int],
        der_dom(vals(s.knots.1.0@), s.control_points.ncols() as int, s.degree.1 as int, v), v <= vals(s.knots.1.0@)[s.control_points.ncols() as int],
    ensures surf_ok(du), surf_ok(dv), surf_pt(du, u, v) == surf_du(s, u, v), surf_pt(dv, u, v) == surf_dv(s, u, v),
        in_knots(vals(du.knots.0.0@), u), in_knots(vals(du.knots.1.0@), v), in_knots(vals(dv.knots.0.0@), u), in_knots(vals(dv.knots.1.0@), v),
{
    let g = s.control_points; let (n, m) = (g.nrows() as int, g.ncols() as int); let (tu, tv) = (vals(s.knots.0.0@), vals(s.knots.1.0@)); let (p, q) = (s.degree.0 as int, s.degree.1 as int);
    assert(tu.len() == n + p + 1 && tv.len() == m + q + 1);
    assert(tu[0] <= tu[1] && tu[1] <= tu[p] && tu[n] <= tu[tu.len() - 2] && tu[tu.len() - 2] <= tu[tu.len() - 1]);
    assert(tv[0] <= tv[1] && tv[1] <= tv[q] && tv[m] <= tv[tv.len() - 2] && tv[tv.len() - 2] <= tv[tv.len() - 1]);
    lemma_inner_ok(tu); lemma_inner_ok(tv);
    let su = lemma_in_span(tu, u, tu.len() - 1); let sv = lemma_in_span(tv, v, tv.len() - 1);
    let h = du.control_points; let k = dv.control_points;
    assert(vals(dv.knots.0.0@) =~= tu && vals(du.knots.1.0@) =~= tv);
    assert(vals(du.knots.0.0@) == inner(tu)); assert(vals(dv.knots.1.0@) == inner(tv));
    assert(du.knots.0.0@.len() == vals(du.knots.0.0@).len() && dv.knots.1.0@.len() == vals(dv.knots.1.0@).len());
    assert forall|i: int, j: int| 0 <= i < n - 1 && 0 <= j < m implies #[trigger] gx3(h)(i, j) == gdiff(gx3(g), tu, p)(i, j) by {}
    theorem_surface_derivative_u(gx3(g), gx3(h), n, m, tu, tv, p, q, u, v, su);
    theorem_surface_derivative_u(gy3(g), gy3(h), n, m, tu, tv, p, q, u, v, su);
    theorem_surface_derivative_u(gz3(g), gz3(h), n, m, tu, tv, p, q, u, v, su);
    theorem_surface_derivative_v(gx3(g), gx3(k), n, m, tu, tv, p, q, u, v, sv);
    theorem_surface_derivative_v(gy3(g), gy3(k), n, m, tu, tv, p, q, u, v, sv);
    theorem_surface_derivative_v(gz3(g), gz3(k), n, m, tu, tv, p, q, u, v, sv);
}
