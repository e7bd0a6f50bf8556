//@ raw
pub open spec fn tau() -> real { 2real * rpi() }
pub open spec fn plane_ok(p: Plane) -> bool { unit3(p.u_axis) && unit3(p.v_axis) && dot3(p.u_axis, p.v_axis) == 0real }
/// t is the direction of (x, y) as an angle of [0, 2 pi)
pub open spec fn polar(x: real, y: real, t: real) -> bool {
    0real <= t < tau() && rsqrt(x * x + y * y) * rcos(t) == x && rsqrt(x * x + y * y) * rsin(t) == y
}
pub open spec fn angle_of(y: real, x: real) -> real { let a = ratan2(y, x); if a >= 0real { a } else { a + tau() } }
pub proof fn lemma_polar(x: real, y: real) ensures polar(x, y, angle_of(y, x))
{ ax_atan2(y, x); ax_pi(); ax_period(ratan2(y, x)); }
pub proof fn lemma_dot(a: Vec3, x: Vec3, y: Vec3, c: real, s: real)
    ensures dot3(vadd(vscale(x, c), vscale(y, s)), a) == dot3(x, a) * c + dot3(y, a) * s
{
    al_dist1(x.x.v(), y.x.v(), a.x.v(), c, s); al_dist1(x.y.v(), y.y.v(), a.y.v(), c, s); al_dist1(x.z.v(), y.z.v(), a.z.v(), c, s);
    al_d3(x.x.v() * a.x.v(), x.y.v() * a.y.v(), x.z.v() * a.z.v(), c); al_d3(y.x.v() * a.x.v(), y.y.v() * a.y.v(), y.z.v() * a.z.v(), s);
}
pub proof fn lemma_sym(a: Vec3, b: Vec3) ensures dot3(a, b) == dot3(b, a)
{ al_c(a.x.v(), b.x.v()); al_c(a.y.v(), b.y.v()); al_c(a.z.v(), b.z.v()); }
/// axis, reference direction and their cross product are orthonormal
pub proof fn lemma_frame(a: Vec3, r: Vec3)
    requires unit3(a), unit3(r), dot3(a, r) == 0real
    ensures unit3(cross3(a, r)), dot3(cross3(a, r), r) == 0real, dot3(cross3(a, r), a) == 0real, dot3(r, a) == 0real, dot3(r, cross3(a, r)) == 0real, dot3(a, cross3(a, r)) == 0real
{
    lemma_lagrange3(a.x.v(), a.y.v(), a.z.v(), r.x.v(), r.y.v(), r.z.v()); assert(1real * 1real == 1real && 0real * 0real == 0real);
    al_orth(a.x.v(), a.y.v(), a.z.v(), r.x.v(), r.y.v(), r.z.v());
    lemma_sym(a, r); lemma_sym(a, cross3(a, r)); lemma_sym(r, cross3(a, r));
}
pub proof fn lemma_unit_sqrt() ensures rsqrt(1real) == 1real
{ ax_rsqrt(1real); let r = rsqrt(1real); al_ls(r, r, 1real); al_ds(r, 1real, 1real); al_sq(r, -1real); assert((r - 1real) * (r + 1real) == 0real) by { al_l(r - 1real, r, 1real); al_ds(r, 1real, r); }
  assert(r + 1real >= 1real); assert(r - 1real == 0real) by(nonlinear_arith) requires (r - 1real) * (r + 1real) == 0real, r + 1real >= 1real; }
/// coordinates along two perpendicular unit vectors
pub proof fn lemma_coords(x: Vec3, y: Vec3, c: real, s: real)
    requires unit3(x), unit3(y), dot3(x, y) == 0real
    ensures dot3(vadd(vscale(x, c), vscale(y, s)), x) == c, dot3(vadd(vscale(x, c), vscale(y, s)), y) == s
{ lemma_sym(x, y); lemma_dot(x, x, y, c, s); lemma_dot(y, x, y, c, s); assert(0real * c == 0real && 0real * s == 0real && 1real * c == c && 1real * s == s); }
//@ fn Line::project params=point ret=r
    ensures r.v() == dot3(vsub(point, self.origin), self.direction),
        forall|u: real| unit3(self.direction) && point == #[trigger] line_at(*self, u) ==> r.v() == u,
//@ ghost start
    proof {
        assert forall|u: real| unit3(self.direction) && point == #[trigger] line_at(*self, u) implies dot3(vsub(point, self.origin), self.direction) == u by {
            lemma_dot(self.direction, self.direction, self.direction, u, 0real); assert(1real * u == u && 1real * 0real == 0real);
            let d = self.direction; assert(d.x.v() * 0real == 0real && d.y.v() * 0real == 0real && d.z.v() * 0real == 0real);
            assert(vadd(vscale(d, u), vscale(d, 0real)) == vsub(point, self.origin));
        }
    }
//@ fn Plane::project params=point ret=r
    ensures r.x.v() == dot3(vsub(point, self.origin), self.u_axis), r.y.v() == dot3(vsub(point, self.origin), self.v_axis),
        forall|u: real, v: real| plane_ok(*self) && point == #[trigger] plane_at(*self, u, v) ==> r.x.v() == u && r.y.v() == v,
//@ ghost start
    proof {
        assert forall|u: real, v: real| plane_ok(*self) && point == #[trigger] plane_at(*self, u, v) implies
            dot3(vsub(point, self.origin), self.u_axis) == u && dot3(vsub(point, self.origin), self.v_axis) == v by {
            lemma_coords(self.u_axis, self.v_axis, u, v); assert(vadd(vscale(self.u_axis, u), vscale(self.v_axis, v)) == vsub(point, self.origin));
        }
    }
//@ raw
/// in-plane coordinates of a point relative to a centre, along the reference direction and the direction a quarter turn on
pub open spec fn cx(o: Point3, r: Vec3, p: Point3) -> real { dot3(vsub(p, o), r) }
pub open spec fn cy(o: Point3, a: Vec3, r: Vec3, p: Point3) -> real { dot3(vsub(p, o), cross3(a, r)) }
pub proof fn lemma_cancel(k: real, a: real, b: real) requires k > 0real, k * a == k * b ensures a == b
{ assert(a == b) by(nonlinear_arith) requires k > 0real, k * a == k * b; }
pub proof fn lemma_pos_root(a: real, b: real) requires a >= 0real, b >= 0real, a * a == b * b ensures a == b
{ assert(a == b) by(nonlinear_arith) requires a >= 0real, b >= 0real, a * a == b * b; }
/// the polar angle of a point at distance k > 0 in direction t has the sine and cosine of t
pub proof fn lemma_angle(k: real, t: real, a: real)
    requires k > 0real, polar(k * rcos(t), k * rsin(t), a)
    ensures rcos(a) == rcos(t), rsin(a) == rsin(t)
{
    let (x, y) = (k * rcos(t), k * rsin(t)); let q = rsqrt(x * x + y * y);
    ax_pythagoras(t); al_x(k, rcos(t), k, rcos(t)); al_x(k, rsin(t), k, rsin(t)); al_l(k * k, rcos(t) * rcos(t), rsin(t) * rsin(t));
    assert((k * k) * 1real == k * k); assert(x * x + y * y == k * k);
    assert(k * k >= 0real) by(nonlinear_arith); ax_rsqrt(k * k);
    lemma_pos_root(q, k);
    lemma_cancel(k, rcos(a), rcos(t)); lemma_cancel(k, rsin(a), rsin(t));
}
/// the turned reference direction in coordinates
pub proof fn lemma_turn_coords(o: Point3, a: Vec3, r: Vec3, k: real, t: real, h: real, p: Point3)
    requires unit3(a), unit3(r), dot3(a, r) == 0real, vsub(p, o) == vadd(vscale(a, h), vscale(turn(a, r, t), k))
    ensures cx(o, r, p) == k * rcos(t), cy(o, a, r, p) == k * rsin(t), dot3(vsub(p, o), a) == h
{
    let w = cross3(a, r); let (c, s) = (rcos(t), rsin(t)); let d = vsub(p, o); let q = turn(a, r, t);
    lemma_frame(a, r); lemma_coords(r, w, c, s); lemma_dot(a, r, w, c, s); assert(0real * c == 0real && 0real * s == 0real);
    lemma_dot(r, a, q, h, k); lemma_dot(w, a, q, h, k); lemma_dot(a, a, q, h, k);
    assert(0real * h == 0real && 0real * k == 0real && 1real * h == h); al_c(c, k); al_c(s, k);
}
//@ fn Circle::project params=point ret=r
    requires circle_ok(*self)
    ensures polar(cx(self.center, self.ref_dir, point), cy(self.center, self.axis, self.ref_dir, point), r.v()),
        forall|t: real| self.radius.v() > 0real && point == #[trigger] circle_at(*self, t) ==> circle_at(*self, r.v()) == point,
//@ ghost start
    proof {
        let w = cross3(self.axis, self.ref_dir); lemma_frame(self.axis, self.ref_dir); lemma_unit_sqrt();
        assert(w.x.v() / 1real == w.x.v() && w.y.v() / 1real == w.y.v() && w.z.v() / 1real == w.z.v());
        let (x, y) = (cx(self.center, self.ref_dir, point), cy(self.center, self.axis, self.ref_dir, point));
        lemma_polar(x, y);
        assert forall|t: real| self.radius.v() > 0real && point == #[trigger] circle_at(*self, t) implies circle_at(*self, angle_of(y, x)) == point by {
            let k = self.radius.v(); let d = vsub(point, self.center); let q = vscale(turn(self.axis, self.ref_dir, t), k);
            let a = self.axis; assert(a.x.v() * 0real == 0real && a.y.v() * 0real == 0real && a.z.v() * 0real == 0real);
            assert(d == vadd(vscale(a, 0real), q));
            lemma_turn_coords(self.center, a, self.ref_dir, k, t, 0real, point);
            lemma_angle(k, t, angle_of(y, x));
        }
    }
//@ raw
pub open spec fn whole_turn(x: real, y: real) -> bool { x == y || x == y + tau() || x == y - tau() }
pub open spec fn full_angle(a: real) -> bool { 0real <= a < tau() }
//@ fn Circle::refine_parameter_range params=range,same_sense ret=r
    requires full_angle(range.0.v()), full_angle(range.1.v())
    ensures
        // the same end points, up to a full turn
        whole_turn(r.0.v(), range.0.v()), whole_turn(r.1.v(), range.1.v()),
        // running in the direction of the sense, over at most one full turn and not nothing
        same_sense ==> 0real < r.1.v() - r.0.v() <= tau(), !same_sense ==> 0real < r.0.v() - r.1.v() <= tau(),
//@ ghost start
    proof { ax_pi(); }
//@ fn Cylinder::project params=point ret=r
    requires cyl_ok(*self)
    ensures r.x.v() == dot3(vsub(point, self.origin), self.axis), polar(cx(self.origin, self.ref_dir, point), cy(self.origin, self.axis, self.ref_dir, point), r.y.v()),
        forall|h: real, t: real| self.radius.v() > 0real && point == #[trigger] cyl_at(*self, h, t) ==> r.x.v() == h && cyl_at(*self, r.x.v(), r.y.v()) == point,
//@ ghost start
    proof {
        let (x, y) = (cx(self.origin, self.ref_dir, point), cy(self.origin, self.axis, self.ref_dir, point));
        lemma_polar(x, y);
        assert forall|h: real, t: real| self.radius.v() > 0real && point == #[trigger] cyl_at(*self, h, t) implies
            dot3(vsub(point, self.origin), self.axis) == h && cyl_at(*self, h, angle_of(y, x)) == point by {
            let k = self.radius.v(); let d = vsub(point, self.origin);
            assert(d == vadd(vscale(self.axis, h), vscale(turn(self.axis, self.ref_dir, t), k)));
            lemma_turn_coords(self.origin, self.axis, self.ref_dir, k, t, h, point);
            lemma_angle(k, t, angle_of(y, x));
        }
    }
//@ raw
/// the central projection onto the plane z = 0 from the point d up the axis
pub open spec fn ring_x(c: Cylinder, p: Point3, d: real) -> real { cx(c.origin, c.ref_dir, p) * (d / (d - dot3(vsub(p, c.origin), c.axis))) }
pub open spec fn ring_y(c: Cylinder, p: Point3, d: real) -> real { cy(c.origin, c.axis, c.ref_dir, p) * (d / (d - dot3(vsub(p, c.origin), c.axis))) }
//@ fn Cylinder::project_to_ring params=point,d ret=r
    requires d.v() != dot3(vsub(point, self.origin), self.axis)
    ensures r.x.v() == ring_x(*self, point, d.v()), r.y.v() == ring_y(*self, point, d.v()),
//@ raw
pub open spec fn from_ring(c: Cylinder, p: Point2, d: real) -> Point3 {
    let q = c.radius.v() / rsqrt(dot2(p, p));
    vadd(vadd(vadd(c.origin, vscale(c.ref_dir, p.x.v() * q)), vscale(cross3(c.axis, c.ref_dir), p.y.v() * q)), vscale(c.axis, d * (1real - q)))
}
//@ fn Cylinder::generate_point_from_ring params=point,d ret=r
    requires dot2(point, point) > 0real
    ensures r == from_ring(*self, point, d.v())
//@ ghost start
    proof { ax_rsqrt(dot2(point, point)); lemma_sqrt_pos(dot2(point, point)); }
//@ raw
pub proof fn lemma_sqrt_pos(x: real) requires x > 0real ensures rsqrt(x) > 0real { ax_rsqrt(x); if rsqrt(x) == 0real { assert(0real * 0real == 0real); } }
pub proof fn lemma_divmul(a: real, b: real) requires b != 0real ensures (a / b) * b == a { assert((a / b) * b == a) by(nonlinear_arith) requires b != 0real; }
pub proof fn lemma_prod_pos(a: real, b: real) requires a > 0real, b > 0real ensures a * b > 0real { assert(a * b > 0real) by(nonlinear_arith) requires a > 0real, b > 0real; }
pub proof fn lemma_quot_pos(a: real, b: real) requires a > 0real, b > 0real ensures a / b > 0real { lemma_divmul(a, b); if a / b <= 0real { assert((a / b) * b <= 0real) by(nonlinear_arith) requires a / b <= 0real, b > 0real; } }
pub proof fn lemma_divuniq(a: real, b: real, q: real) requires b != 0real, q * b == a ensures a / b == q
{ lemma_divmul(a, b); al_ds(a / b, q, b); assert((a / b - q) * b == 0real); assert(a / b - q == 0real) by(nonlinear_arith) requires (a / b - q) * b == 0real, b != 0real; }
/// flattening a point of the cylinder below the centre of projection and lifting it back gives the point
pub proof fn theorem_ring(c: Cylinder, h: real, t: real, d: real)
    requires cyl_ok(c), c.radius.v() > 0real, d > 0real, h < d
    ensures ({ let p = cyl_at(c, h, t); let r = p2(ring_x(c, p, d), ring_y(c, p, d)); dot2(r, r) > 0real && from_ring(c, r, d) == p })
{
    let p = cyl_at(c, h, t); let k = c.radius.v(); let r = p2(ring_x(c, p, d), ring_y(c, p, d)); let (co, si) = (rcos(t), rsin(t));
    assert(vsub(p, c.origin) == vadd(vscale(c.axis, h), vscale(turn(c.axis, c.ref_dir, t), k)));
    lemma_turn_coords(c.origin, c.axis, c.ref_dir, k, t, h, p);
    let m = d / (d - h); lemma_quot_pos(d, d - h); lemma_divmul(d, d - h);
    assert(r.x.v() == (k * co) * m && r.y.v() == (k * si) * m);
    let km = k * m; lemma_prod_pos(k, m); al_ac(k, co, m); al_ac(k, si, m);
    assert(r.x.v() == km * co && r.y.v() == km * si);
    ax_pythagoras(t); al_x(km, co, km, co); al_x(km, si, km, si); al_l(km * km, co * co, si * si); assert((km * km) * 1real == km * km);
    assert(dot2(r, r) == km * km); lemma_prod_pos(km, km);
    ax_rsqrt(km * km); lemma_pos_root(rsqrt(km * km), km);
    let q = k / km;
    lemma_divmul(k, km);
    // q m = 1
    al_m(q, k, m); al_ac(q, k, m); al_c(q * m, k); al_c(q, k);
    assert((k * q) * m == k); al_as(k, q, m); assert(k * (q * m) == k); assert(k * 1real == k); lemma_cancel(k, q * m, 1real);
    // q = (d - h) / d
    al_ac(q, m, d - h); al_as(q, m, d - h); assert(q * (m * (d - h)) == q * d); assert((q * m) * (d - h) == 1real * (d - h)); assert(1real * (d - h) == d - h);
    assert(q * d == d - h); al_ls(d, 1real, q); al_c(d, q); assert(d * 1real == d); assert(d * (1real - q) == h);
    // in-plane part
    al_c(km, q); assert(q * km == k);
    al_ac(km, co, q); al_ac(km, si, q); assert(r.x.v() * q == k * co && r.y.v() * q == k * si);
    let (rd, w) = (c.ref_dir, cross3(c.axis, c.ref_dir));
    lemma_inplane(rd.x.v(), w.x.v(), co, si, k); lemma_inplane(rd.y.v(), w.y.v(), co, si, k); lemma_inplane(rd.z.v(), w.z.v(), co, si, k);
}
pub proof fn lemma_inplane(r: real, w: real, co: real, si: real, k: real) ensures r * (k * co) + w * (k * si) == (r * co + w * si) * k
{ al_d(r * co, w * si, k); al_m(r, co, k); al_m(w, si, k); al_c(k, co); al_c(k, si); }
/// circle: parameters that differ by a full turn give the same point, so the refined range keeps the end points
pub proof fn theorem_refined(c: Circle, t: real) ensures circle_at(c, t + tau()) == circle_at(c, t) { ax_period(t); }
