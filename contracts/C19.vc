//@ include div_total.rs float.rs points.rs std.rs grid.rs mat.rs
//@ set nl=off
//@ assume lib_util.vc lib_sum.vc lib_bern.vc lib_knot.vc lib_kv.vc lib_bspl.vc lib_bez.vc lib_deriv.vc lib_dfn.vc
//@ use lib_pred.vc
//@ assume lib_dist.vc lib_poly.vc
//@ use lib_search.vc
//@ raw
impl Curve for BezierCurve<Point3> {
    open spec fn dom(&self, u: real) -> bool { self.control_points@.len() >= 1 }
    open spec fn at(&self, u: real) -> Point3 { curve3(self.control_points@, u) }
    fn get_point(&self, u: Float) -> (r: Point3) { BezierCurve::<Point3>::get_point(self, u) }
}
pub open spec fn bs_ok(c: BSplineCurve<Point3>) -> bool {
    knots_ok(vals(c.knots.0@)) && c.control_points@.len() >= 1 && c.knots.0@.len() == c.control_points@.len() + c.degree + 1 && 2 * c.knots.0@.len() <= usize::MAX
}
impl Curve for BSplineCurve<Point3> {
    open spec fn dom(&self, u: real) -> bool { bs_ok(*self) && in_knots(vals(self.knots.0@), u) }
    open spec fn at(&self, u: real) -> Point3 { bcurve3(self.control_points@, vals(self.knots.0@), self.degree as int, u) }
    fn get_point(&self, u: Float) -> (r: Point3) { BSplineCurve::<Point3>::get_point(self, u) }
}
/// the ends of the knot vector are repeated, so that differentiating k times keeps the parameter range
pub open spec fn ends_rep(t: Seq<real>, k: int) -> bool { t.len() >= 2 * (k + 1) && t[k] == t[0] && t[t.len() - 1 - k] == t[t.len() - 1] }
pub proof fn lemma_ends(t: Seq<real>, k: int)
    requires knots_ok(t), k >= 1, ends_rep(t, k)
    ensures knots_ok(inner(t)), ends_rep(inner(t), k - 1), inner(t)[0] == t[0], inner(t)[inner(t).len() - 1] == t[t.len() - 1], inner(t).len() == t.len() - 2
{
    let n = t.len() as int;
    assert(t[0] <= t[1] && t[1] <= t[k] && t[n - 1 - k] <= t[n - 2] && t[n - 2] <= t[n - 1]);
    lemma_inner_ok(t);
    assert(inner(t)[k - 1] == t[k]); assert(inner(t)[0] == t[1]); assert(inner(t)[n - 2 - 1 - (k - 1)] == t[n - 1 - k]); assert(inner(t)[n - 3] == t[n - 2]);
}
pub proof fn lemma_far_sym(s: Seq<Point3>, p: Point3) requires far_ok(s, p) ensures forall|k: int| 0 <= k < s.len() ==> dist2_3(#[trigger] s[k], p) < rmaxval()
{ assert forall|k: int| 0 <= k < s.len() implies dist2_3(#[trigger] s[k], p) < rmaxval() by { lemma_sq3_nonneg(s[k], p); } }
//@ fn BezierCurve<Point3>::project params=point ret=r
    requires self.control_points@.len() >= 2, self.control_points@.len() * 4 < usize::MAX, far_ok(self.control_points@, point)
    ensures 0real <= r.v() <= 1real
//@ ghost start
    proof { lemma_far_sym(self.control_points@, point); }
//@ fn BSplineCurve<Point3>::project params=point ret=r
    requires bs_ok(*self), self.degree >= 1, self.control_points@.len() >= self.degree + 1, self.control_points@.len() * 4 < usize::MAX, far_ok(self.control_points@, point),
        self.degree >= 2 ==> ends_rep(vals(self.knots.0@), 2)
    ensures in_knots(vals(self.knots.0@), r.v())
//@ ghost start
    proof { lemma_far_sym(self.control_points@, point); let t = vals(self.knots.0@); if self.degree >= 2 { lemma_ends(t, 2); lemma_ends(inner(t), 1); } }
//@ raw
pub open spec fn in_ranges(s: BSplineSurface<Point3>, u: real, v: real) -> bool { in_knots(vals(s.knots.0.0@), u) && in_knots(vals(s.knots.1.0@), v) }
pub open spec fn surf_at(s: BSplineSurface<Point3>, u: real, v: real) -> Point3 {
    let g = s.control_points; let (n, m) = (g.nrows() as int, g.ncols() as int); let (tu, tv) = (vals(s.knots.0.0@), vals(s.knots.1.0@)); let (p, q) = (s.degree.0 as int, s.degree.1 as int);
    p3(btensor(gx3(g), n, m, tu, tv, p, q, u, v), btensor(gy3(g), n, m, tu, tv, p, q, u, v), btensor(gz3(g), n, m, tu, tv, p, q, u, v))
}
/// the sample points: a uniform division of both parameter ranges, four steps per control point
pub open spec fn sample(s: BSplineSurface<Point3>, i: int, j: int) -> Point3 {
    let (tu, tv) = (s.knots.0.0@, s.knots.1.0@);
    surf_at(s, udiv(tu[0].v(), tu[tu.len() - 1].v(), s.control_points.nrows() as int * 4, i), udiv(tv[0].v(), tv[tv.len() - 1].v(), s.control_points.ncols() as int * 4, j))
}
pub open spec fn samples_far(s: BSplineSurface<Point3>, p: Point3) -> bool { forall|i: int, j: int| 0 <= i <= s.control_points.nrows() * 4 && 0 <= j <= s.control_points.ncols() * 4 ==> dist2_3(p, #[trigger] sample(s, i, j)) < rmaxval() }
pub open spec fn hits(s: BSplineSurface<Point3>, p: Point3) -> bool { exists|i: int, j: int| 0 <= i <= s.control_points.nrows() * 4 && 0 <= j <= s.control_points.ncols() * 4 && dist2_3(p, #[trigger] sample(s, i, j)) == 0real }
/// the nearest sample found
pub open spec fn start_ok(s: BSplineSurface<Point3>, p: Point3, u: real, v: real) -> bool { samples_far(s, p) && hits(s, p) ==> dist2_3(p, surf_at(s, u, v)) == 0real }
pub proof fn lemma_start(s: BSplineSurface<Point3>, g: Grid<Point3>, p: Point3, r: int, c: int)
    requires g.nrows() == s.control_points.nrows() * 4 + 1, g.ncols() == s.control_points.ncols() * 4 + 1, 0 <= r < g.nrows(), 0 <= c < g.ncols(),
        forall|i: int, j: int| 0 <= i < g.nrows() && 0 <= j < g.ncols() ==> #[trigger] g.at(i, j) == sample(s, i, j),
        far_ok_grid(g, p) ==> first_nearest_grid(g, p, r, c)
    ensures samples_far(s, p) && hits(s, p) ==> dist2_3(p, sample(s, r, c)) == 0real
{
    if samples_far(s, p) && hits(s, p) {
        assert forall|i: int, j: int| 0 <= i < g.nrows() && 0 <= j < g.ncols() implies dist2_3(p, #[trigger] g.at(i, j)) < rmaxval() by { assert(g.at(i, j) == sample(s, i, j)); }
        let (i, j) = choose|i: int, j: int| 0 <= i <= s.control_points.nrows() * 4 && 0 <= j <= s.control_points.ncols() * 4 && dist2_3(p, #[trigger] sample(s, i, j)) == 0real;
        assert(g.at(i, j) == sample(s, i, j)); assert(g.at(r, c) == sample(s, r, c));
        lemma_dist_zero(p, g.at(r, c));
    }
}
pub proof fn lemma_dims(n: int, m: int)
    requires n >= 3, m >= 3
    ensures (n - 1) * m <= n * m, n * (m - 1) <= n * m, n * m <= (n * 4 + 1) * (m * 4 + 1), n * 4 + 1 <= (n * 4 + 1) * (m * 4 + 1), m * 4 + 1 <= (n * 4 + 1) * (m * 4 + 1)
{
    assert((n - 1) * m <= n * m) by(nonlinear_arith) requires m >= 3; assert(n * (m - 1) <= n * m) by(nonlinear_arith) requires n >= 3;
    assert(n * m <= (n * 4 + 1) * (m * 4 + 1)) by(nonlinear_arith) requires n >= 3, m >= 3;
    assert(n * 4 + 1 <= (n * 4 + 1) * (m * 4 + 1)) by(nonlinear_arith) requires n >= 3, m >= 3;
    assert(m * 4 + 1 <= (n * 4 + 1) * (m * 4 + 1)) by(nonlinear_arith) requires n >= 3, m >= 3;
}
//@ fn BSplineSurface<Point3>::project_points params=points ret=r loops=4 hint=out0:Point3 hint=out1:Point2 hint=__ret0:Option<Point2>
    requires surf_ok(*self), self.degree.0 >= 2, self.degree.1 >= 2, self.control_points.nrows() > self.degree.0, self.control_points.ncols() > self.degree.1,
        ends_rep(vals(self.knots.0.0@), 2), ends_rep(vals(self.knots.1.0@), 2),
        (self.control_points.nrows() * 4 + 1) * (self.control_points.ncols() * 4 + 1) <= usize::MAX
    ensures r@.len() == points@.len(), forall|k: int| 0 <= k < r@.len() ==> in_ranges(*self, (#[trigger] r@[k]).x.v(), r@[k].y.v()) && start_ok(*self, points@[k], r@[k].x.v(), r@[k].y.v()),
//@ ghost start
    proof { let t = vals(self.knots.0.0@); lemma_ends(t, 2); lemma_ends(inner(t), 1); let t = vals(self.knots.1.0@); lemma_ends(t, 2); lemma_ends(inner(t), 1);
        lemma_dims(self.control_points.nrows() as int, self.control_points.ncols() as int);
        let (a, b) = (self.control_points.nrows() as int * 4, self.control_points.ncols() as int * 4); let (ru, rv) = ((self.knots.0.0@[0], self.knots.0.0@[self.knots.0.0@.len() - 1]), (self.knots.1.0@[0], self.knots.1.0@[self.knots.1.0@.len() - 1]));
        assert forall|i: int| 0 <= i <= a implies in_knots(vals(self.knots.0.0@), #[trigger] udiv(ru.0.v(), ru.1.v(), a, i)) by { theorem_even(ru.0.v(), ru.1.v(), a, i); };
        assert forall|i: int| 0 <= i <= b implies in_knots(vals(self.knots.1.0@), #[trigger] udiv(rv.0.v(), rv.1.v(), b, i)) by { theorem_even(rv.0.v(), rv.1.v(), b, i); };
        lemma_rm_div(a + 1, b + 1); }
    let ghost w = self.control_points.ncols() * 4 + 1;
//@ loop 0
    $n0 == self.control_points.nrows() * 4 + 1, $out0@.len() == $i0 * w, v_parameters@.len() == w,
    forall|a: int, b: int| #![trigger $out0@[a * w + b]] 0 <= a < $i0 && 0 <= b < w ==> $out0@[a * w + b] == sample(*self, a, b),
//@ loop 0.0
    $n0_0 == w, $out0@.len() == $j0 * w + $i0_0, in_knots(vals(self.knots.0.0@), u.v()),
    forall|a: int, b: int| #![trigger $out0@[a * w + b]] 0 <= a < $j0 && 0 <= b < w ==> $out0@[a * w + b] == sample(*self, a, b),
    forall|b: int| #![trigger $out0@[$j0 * w + b]] 0 <= b < $i0_0 ==> $out0@[$j0 * w + b] == sample(*self, $j0 as int, b),
//@ ghost loop0.0.start
    let ghost old_p = $out0@;
//@ ghost loop0.0.end
    proof {
        assert(old_p.len() == $j0 * w + $j0_0);
        assert($out0@[$j0 * w + $j0_0] == sample(*self, $j0 as int, $j0_0 as int));
        assert forall|a: int, b: int| #![trigger $out0@[a * w + b]] 0 <= a < $j0 && 0 <= b < w implies $out0@[a * w + b] == sample(*self, a, b) by {
            lemma_rm(a, b, $j0 as int, w as int); assert($out0@[a * w + b] == old_p[a * w + b]); }
    }
//@ ghost loop0.start
    proof { lemma_rm_step($j0 as int, w as int); }
//@ loop 1
    forall|k: int| 0 <= k < $i1 ==> in_ranges(*self, (#[trigger] $out1@[k]).x.v(), $out1@[k].y.v()) && start_ok(*self, points@[k], $out1@[k].x.v(), $out1@[k].y.v()),
//@ ghost loop1.0.before
    proof { assert forall|i: int, j: int| 0 <= i < vertices.nrows() && 0 <= j < vertices.ncols() implies #[trigger] vertices.at(i, j) == sample(*self, i, j) by { lemma_rm(i, j, vertices.nrows() as int, w as int); }
        lemma_start(*self, vertices, *point, i as int, j as int); }
//@ loop 1.0
    in_ranges(*self, u.v(), v.v()), start_ok(*self, *point, u.v(), v.v()), match __ret0 { Some(q) => in_ranges(*self, q.x.v(), q.y.v()) && start_ok(*self, *point, q.x.v(), q.y.v()), None => true },
//@ ghost loop1.0.start
    proof { if samples_far(*self, *point) && hits(*self, *point) { lemma_dist_zero(*point, surf_at(*self, u.v(), v.v())); } }
//@ fn Polyline::nearest_vertex params=point ret=r
    requires self.vertices@.len() >= 1
    ensures r < self.vertices@.len(), far_ok(self.vertices@, point) ==> first_nearest(self.vertices@, point, r as int)
