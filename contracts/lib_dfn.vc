//@ raw
pub open spec fn surf_ok(s: BSplineSurface<Point3>) -> bool { bsurf_ok(s.control_points, s.knots.0.0@, s.knots.1.0@, s.degree.0 as int, s.degree.1 as int) }
pub proof fn lemma_inner_ok(t: Seq<real>) requires knots_ok(t), t.len() >= 4, t[1] < t[t.len() - 2] ensures knots_ok(inner(t))
{ let s = inner(t);
  assert forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i <= j < s.len() && ulps_eq_r(s[j] - s[i], 0real) implies s[i] == s[j] by { assert(s[i] == t[i + 1] && s[j] == t[j + 1]); }
  assert forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < s.len() && 0 <= j < s.len() && ulps_eq_r(s[i], s[j]) implies s[i] == s[j] by { assert(s[i] == t[i + 1] && s[j] == t[j + 1]); } }
//@ fn BezierCurve<P>::degree ret=r implgen=<P>
    requires self.control_points@.len() >= 1
    ensures r == self.control_points@.len() - 1
//@ fn BezierCurve<P>::derivative inst=P:Point3 ret=r loops=1 hint=out0:Point3
    requires self.control_points@.len() >= 1
    ensures r.control_points@.len() == self.control_points@.len() - 1,
        xs3(r.control_points@) =~= bez_dvals(xs3(self.control_points@)), ys3(r.control_points@) =~= bez_dvals(ys3(self.control_points@)), zs3(r.control_points@) =~= bez_dvals(zs3(self.control_points@)),
//@ loop 0
    forall|i: int| 0 <= i < $i0 ==> #[trigger] $out0@[i] == dpt(self.control_points@, i, (self.control_points@.len() - 1) as real),
//@ fn BSplineCurve<P>::derivative inst=P:Point3 ret=r loops=1 hint=out0:Point3
    requires self.degree >= 1, self.control_points@.len() >= 1, self.knots.0@.len() == self.control_points@.len() + self.degree + 1, self.knots.0@.len() <= usize::MAX
    ensures r.degree == self.degree - 1, vals(r.knots.0@) =~= inner(vals(self.knots.0@)),
        ({ let t = vals(self.knots.0@); let p = self.degree as int;
           xs3(r.control_points@) =~= dvals(xs3(self.control_points@), t, p) && ys3(r.control_points@) =~= dvals(ys3(self.control_points@), t, p) && zs3(r.control_points@) =~= dvals(zs3(self.control_points@), t, p) }),
//@ loop 0
    forall|i: int| 0 <= i < $i0 ==> #[trigger] $out0@[i] == dpt2(self.control_points@, i, self.degree as real, rinv_tol(vals(self.knots.0@)[i + self.degree + 1] - vals(self.knots.0@)[i + 1])),
//@ fn BSplineSurface<P>::uniform_clamped params=control_points,degree inst=P:Point3 ret=r
    requires degree.0 < control_points.nrows(), degree.1 < control_points.ncols(), degree.0 <= 255, degree.1 <= 255
    ensures r.control_points == control_points, r.degree.0 == degree.0, r.degree.1 == degree.1,
        vals(r.knots.0.0@) =~= uniform_seq(degree.0 as int, control_points.nrows() - degree.0), vals(r.knots.1.0@) =~= uniform_seq(degree.1 as int, control_points.ncols() - degree.1)
//@ fn BSplineSurface<P>::derivative_u inst=P:Point3 ret=r loops=2
    requires self.control_points.nrows() >= 1, self.control_points.ncols() >= 1, self.knots.0.0@.len() == self.control_points.nrows() + self.degree.0 + 1, self.control_points.nrows() * self.control_points.ncols() <= usize::MAX,
        self.degree.0 == 0 || self.control_points.nrows() >= 2,
    ensures self.degree.0 >= 1 ==> ({ let g = self.control_points; let h = r.control_points; let t = vals(self.knots.0.0@); let p = self.degree.0 as int;
            &&& r.degree.0 == p - 1 && r.degree.1 == self.degree.1 && vals(r.knots.0.0@) =~= inner(t) && r.knots.1.0@ =~= self.knots.1.0@
            &&& h.nrows() == g.nrows() - 1 && h.ncols() == g.ncols()
            &&& forall|i: int, j: int| 0 <= i < h.nrows() && 0 <= j < h.ncols() ==> #[trigger] gx3(h)(i, j) == gdiff(gx3(g), t, p)(i, j)
            &&& forall|i: int, j: int| 0 <= i < h.nrows() && 0 <= j < h.ncols() ==> #[trigger] gy3(h)(i, j) == gdiff(gy3(g), t, p)(i, j)
            &&& forall|i: int, j: int| 0 <= i < h.nrows() && 0 <= j < h.ncols() ==> #[trigger] gz3(h)(i, j) == gdiff(gz3(g), t, p)(i, j) }),
        // a surface of degree zero has the zero derivative
        self.degree.0 == 0 ==> forall|i: int, j: int| 0 <= i < r.control_points.nrows() && 0 <= j < r.control_points.ncols() ==> #[trigger] r.control_points.at(i, j) == p3(0real, 0real, 0real),
//@ loop 0
    n == self.control_points.nrows(), m == self.control_points.ncols(), u_spans@.len() == n - 1,
    points@.len() == $i0 * m,
    forall|a: int, b: int| #![trigger points@[a * m + b]] 0 <= a < $i0 && 0 <= b < m ==> points@[a * m + b] == gpt(self.control_points, a, b, p.v(), rinv_tol(vals(self.knots.0.0@)[a + self.degree.0 + 1] - vals(self.knots.0.0@)[a + 1])),
//@ loop 0.0
    n == self.control_points.nrows(), m == self.control_points.ncols(), u_spans@.len() == n - 1, i < n - 1,
    points@.len() == i * m + $i0_0,
    forall|a: int, b: int| #![trigger points@[a * m + b]] 0 <= a < i && 0 <= b < m ==> points@[a * m + b] == gpt(self.control_points, a, b, p.v(), rinv_tol(vals(self.knots.0.0@)[a + self.degree.0 + 1] - vals(self.knots.0.0@)[a + 1])),
    forall|b: int| #![trigger points@[i * m + b]] 0 <= b < $i0_0 ==> points@[i * m + b] == gpt(self.control_points, i as int, b, p.v(), rinv_tol(vals(self.knots.0.0@)[i + self.degree.0 + 1] - vals(self.knots.0.0@)[i + 1])),
//@ ghost loop0.0.start
    let ghost old_p = points@;
//@ ghost loop0.0.end
    proof {
        assert(points@[i * m + j] == gpt(self.control_points, i as int, j as int, p.v(), rinv_tol(vals(self.knots.0.0@)[i + self.degree.0 + 1] - vals(self.knots.0.0@)[i + 1])));
        assert forall|a: int, b: int| #![trigger points@[a * m + b]] 0 <= a < i && 0 <= b < m implies points@[a * m + b] == gpt(self.control_points, a, b, p.v(), rinv_tol(vals(self.knots.0.0@)[a + self.degree.0 + 1] - vals(self.knots.0.0@)[a + 1])) by {
            lemma_cell(a, b, i as int, m as int); assert(points@[a * m + b] == old_p[a * m + b]); }
    }
//@ ghost loop0.end
    proof { assert((i + 1) * m == i * m + m) by(nonlinear_arith); }
//@ ghost loop0.after
    proof { lemma_exact_div(n - 1, m as int); }
//@ fn BSplineSurface<P>::derivative_v inst=P:Point3 ret=r loops=2
    requires self.control_points.nrows() >= 1, self.control_points.ncols() >= 1, self.knots.1.0@.len() == self.control_points.ncols() + self.degree.1 + 1, self.control_points.nrows() * self.control_points.ncols() <= usize::MAX,
        self.degree.1 == 0 || self.control_points.ncols() >= 2,
    ensures self.degree.1 >= 1 ==> ({ let g = self.control_points; let h = r.control_points; let t = vals(self.knots.1.0@); let q = self.degree.1 as int;
            &&& r.degree.1 == q - 1 && r.degree.0 == self.degree.0 && vals(r.knots.1.0@) =~= inner(t) && r.knots.0.0@ =~= self.knots.0.0@
            &&& h.nrows() == g.nrows() && h.ncols() == g.ncols() - 1
            &&& forall|i: int, j: int| 0 <= i < h.nrows() && 0 <= j < h.ncols() ==> #[trigger] gx3(h)(i, j) == gdiffv(gx3(g), t, q)(i, j)
            &&& forall|i: int, j: int| 0 <= i < h.nrows() && 0 <= j < h.ncols() ==> #[trigger] gy3(h)(i, j) == gdiffv(gy3(g), t, q)(i, j)
            &&& forall|i: int, j: int| 0 <= i < h.nrows() && 0 <= j < h.ncols() ==> #[trigger] gz3(h)(i, j) == gdiffv(gz3(g), t, q)(i, j) }),
        // a surface of degree zero has the zero derivative
        self.degree.1 == 0 ==> forall|i: int, j: int| 0 <= i < r.control_points.nrows() && 0 <= j < r.control_points.ncols() ==> #[trigger] r.control_points.at(i, j) == p3(0real, 0real, 0real),
//@ ghost start
    proof { let (a, b) = (self.control_points.nrows() as int, self.control_points.ncols() as int); assert(a * (b - 1) <= a * b) by(nonlinear_arith) requires a >= 1, b >= 1; }
//@ loop 0
    n == self.control_points.nrows(), m == self.control_points.ncols(), v_spans@.len() == m - 1,
    points@.len() == $i0 * (m - 1),
    forall|a: int, b: int| #![trigger points@[a * (m - 1) + b]] 0 <= a < $i0 && 0 <= b < m - 1 ==> points@[a * (m - 1) + b] == gptv(self.control_points, a, b, q.v(), rinv_tol(vals(self.knots.1.0@)[b + self.degree.1 + 1] - vals(self.knots.1.0@)[b + 1])),
//@ loop 0.0
    n == self.control_points.nrows(), m == self.control_points.ncols(), v_spans@.len() == m - 1, i < n,
    points@.len() == i * (m - 1) + $i0_0,
    forall|a: int, b: int| #![trigger points@[a * (m - 1) + b]] 0 <= a < i && 0 <= b < m - 1 ==> points@[a * (m - 1) + b] == gptv(self.control_points, a, b, q.v(), rinv_tol(vals(self.knots.1.0@)[b + self.degree.1 + 1] - vals(self.knots.1.0@)[b + 1])),
    forall|b: int| #![trigger points@[i * (m - 1) + b]] 0 <= b < $i0_0 ==> points@[i * (m - 1) + b] == gptv(self.control_points, i as int, b, q.v(), rinv_tol(vals(self.knots.1.0@)[b + self.degree.1 + 1] - vals(self.knots.1.0@)[b + 1])),
//@ ghost loop0.0.start
    let ghost old_p = points@;
//@ ghost loop0.0.end
    proof {
        assert(points@[i * (m - 1) + j] == gptv(self.control_points, i as int, j as int, q.v(), rinv_tol(vals(self.knots.1.0@)[j + self.degree.1 + 1] - vals(self.knots.1.0@)[j + 1])));
        assert forall|a: int, b: int| #![trigger points@[a * (m - 1) + b]] 0 <= a < i && 0 <= b < m - 1 implies points@[a * (m - 1) + b] == gptv(self.control_points, a, b, q.v(), rinv_tol(vals(self.knots.1.0@)[b + self.degree.1 + 1] - vals(self.knots.1.0@)[b + 1])) by {
            lemma_cell(a, b, i as int, m - 1); assert(points@[a * (m - 1) + b] == old_p[a * (m - 1) + b]); }
    }
//@ ghost loop0.end
    proof { assert((i + 1) * (m - 1) == i * (m - 1) + (m - 1)) by(nonlinear_arith); }
//@ ghost loop0.after
    proof { lemma_exact_div(n as int, m - 1); }
