//@ include div_strict.rs float.rs points.rs std.rs trig.rs
//@ set nl=off
//@ assume lib_pred.vc
//@ use lib_alg.vc lib_prim.vc
//@ raw
/// a parametric curve: its evaluator is a function of the parameter
pub trait Curve {
    spec fn at(&self, u: real) -> Point3;
    fn get_point(&self, u: Float) -> (r: Point3) ensures r == self.at(u.v());
}
//@ struct SpinSurface
//@ struct SweepSurface
//@ struct Umbrella
//@ raw
/// the component along the unit axis, and the remainder
pub open spec fn along(a: Vec3, v: Vec3) -> Vec3 { vscale(a, dot3(v, a)) }
pub open spec fn across(a: Vec3, v: Vec3) -> Vec3 { vsub(v, along(a, v)) }
pub open spec fn revolved(o: Point3, a: Vec3, p: Point3, t: real) -> Point3 { let v = vsub(p, o); vadd(vadd(o, along(a, v)), turn(a, across(a, v), t)) }
pub proof fn lemma_across(a: Vec3, v: Vec3) requires unit3(a) ensures dot3(a, across(a, v)) == 0real
{
    let d = dot3(v, a);
    al_split(a.x.v(), a.y.v(), a.z.v(), v.x.v(), v.y.v(), v.z.v(), d);
    assert(1real * d == d);
}
//@ fn SpinSurface<C>::get_point implgen=<C:Curve> params=param,angle ret=r
    requires unit3(self.axis)
    ensures r == revolved(self.origin, self.axis, self.section.at(param.v()), angle.v())
//@ ghost start
    proof { let v = vsub(self.section.at(param.v()), self.origin); lemma_across(self.axis, v); lemma_turn(self.axis, across(self.axis, v), angle.v()); }
//@ fn SweepSurface<P,S>::get_point implgen=<P:Curve,S:Curve> params=p,s ret=r
    ensures r == vadd(self.path.at(p.v()), self.section.at(s.v()))
//@ raw
/// a cycloid of radius R/pi turned about the z axis
pub open spec fn umbrella_at(rad: real, t: real, f: real) -> Point3 {
    let r = rad / rpi(); p3(r * (t - rsin(t)) * rcos(f), r * (t - rsin(t)) * rsin(f), r * (1real + rcos(t)))
}
//@ fn Umbrella::get_point params=theta,phi ret=r
    ensures r == umbrella_at(self.radius.v(), theta.v(), phi.v())
//@ ghost start
    proof { ax_pi(); }
//@ raw
pub open spec fn len2(v: Vec3) -> real { dot3(v, v) }
pub proof fn lemma_dot_lin(a: Vec3, x: Vec3, y: Vec3, c: real, s: real)
    ensures dot3(vadd(vscale(x, c), vscale(y, s)), a) == dot3(x, a) * c + dot3(y, a) * s, dot3(a, x) == dot3(x, a)
{
    al_dist1(x.x.v(), y.x.v(), a.x.v(), c, s); al_dist1(x.y.v(), y.y.v(), a.y.v(), c, s); al_dist1(x.z.v(), y.z.v(), a.z.v(), c, s);
    al_d3(x.x.v() * a.x.v(), x.y.v() * a.y.v(), x.z.v() * a.z.v(), c); al_d3(y.x.v() * a.x.v(), y.y.v() * a.y.v(), y.z.v() * a.z.v(), s);
    assert((x.x.v() * c + y.x.v() * s) * a.x.v() == (x.x.v() * a.x.v()) * c + (y.x.v() * a.x.v()) * s);
    assert((x.y.v() * c + y.y.v() * s) * a.y.v() == (x.y.v() * a.y.v()) * c + (y.y.v() * a.y.v()) * s);
    assert((x.z.v() * c + y.z.v() * s) * a.z.v() == (x.z.v() * a.z.v()) * c + (y.z.v() * a.z.v()) * s);
    assert(a.x.v() * x.x.v() == x.x.v() * a.x.v() && a.y.v() * x.y.v() == x.y.v() * a.y.v() && a.z.v() * x.z.v() == x.z.v() * a.z.v()) by(nonlinear_arith);
}
/// turning keeps the length and stays perpendicular to the axis; angle zero is the identity; a full turn comes back
pub proof fn theorem_turn(a: Vec3, q: Vec3, t: real)
    requires unit3(a), dot3(a, q) == 0real
    ensures len2(turn(a, q, t)) == len2(q), dot3(turn(a, q, t), a) == 0real, turn(a, q, 0real) == q, turn(a, q, t + 2real * rpi()) == turn(a, q, t)
{
    let w = cross3(a, q); let (c, s) = (rcos(t), rsin(t)); let r = turn(a, q, t);
    ax_pythagoras(t); ax_zero(); ax_period(t);
    lemma_lagrange3(a.x.v(), a.y.v(), a.z.v(), q.x.v(), q.y.v(), q.z.v()); assert(1real * len2(q) == len2(q)); assert(0real * 0real == 0real);
    assert(len2(w) == len2(q));
    al_orth(a.x.v(), a.y.v(), a.z.v(), q.x.v(), q.y.v(), q.z.v()); assert(dot3(a, w) == 0real); assert(dot3(q, w) == 0real);
    lemma_dot_lin(a, q, w, c, s); lemma_dot_lin(a, w, q, c, s); assert(0real * c == 0real && 0real * s == 0real);
    al_sq_sum(q.x.v(), w.x.v(), c, s); al_sq_sum(q.y.v(), w.y.v(), c, s); al_sq_sum(q.z.v(), w.z.v(), c, s);
    al_d3(q.x.v() * q.x.v(), q.y.v() * q.y.v(), q.z.v() * q.z.v(), c * c);
    al_d3(q.x.v() * w.x.v(), q.y.v() * w.y.v(), q.z.v() * w.z.v(), c * s);
    al_d3(w.x.v() * w.x.v(), w.y.v() * w.y.v(), w.z.v() * w.z.v(), s * s);
    assert(0real * (c * s) == 0real);
    assert(len2(r) == len2(q) * (c * c) + 2real * (dot3(q, w) * (c * s)) + len2(w) * (s * s));
    al_d3(c * c, s * s, 0real, len2(q));
    assert(len2(q) * (c * c) == (c * c) * len2(q) && len2(q) * (s * s) == (s * s) * len2(q)) by(nonlinear_arith);
    assert(0real * len2(q) == 0real);
    let z = turn(a, q, 0real);
    assert(q.x.v() * 1real == q.x.v() && w.x.v() * 0real == 0real && q.y.v() * 1real == q.y.v() && w.y.v() * 0real == 0real && q.z.v() * 1real == q.z.v() && w.z.v() * 0real == 0real);
    assert(z.x == q.x && z.y == q.y && z.z == q.z);
}
/// circle points keep the radius and lie in the plane through the centre perpendicular to the axis
pub proof fn theorem_circle(c: Circle, t: real)
    requires circle_ok(c)
    ensures len2(vsub(circle_at(c, t), c.center)) == c.radius.v() * c.radius.v(), dot3(vsub(circle_at(c, t), c.center), c.axis) == 0real,
        circle_at(c, 0real) == vadd(c.center, vscale(c.ref_dir, c.radius.v())), circle_at(c, t + 2real * rpi()) == circle_at(c, t)
{
    theorem_turn(c.axis, c.ref_dir, t); let w = turn(c.axis, c.ref_dir, t); let k = c.radius.v();
    al_factor2(w.x.v(), w.y.v(), w.z.v(), k); al_factor1(w.x.v(), w.y.v(), w.z.v(), c.axis.x.v(), c.axis.y.v(), c.axis.z.v(), k);
    assert(1real * (k * k) == k * k); assert(0real * k == 0real);
    let d = vsub(circle_at(c, t), c.center);
    assert(d == vscale(w, k));
    lemma_comm(vscale(w, k), c.axis);
}
pub proof fn lemma_comm(a: Vec3, b: Vec3) ensures dot3(a, b) == dot3(b, a)
{ assert(a.x.v() * b.x.v() == b.x.v() * a.x.v() && a.y.v() * b.y.v() == b.y.v() * a.y.v() && a.z.v() * b.z.v() == b.z.v() * a.z.v()) by(nonlinear_arith); }
pub proof fn lemma_dot_add(x: Vec3, y: Vec3, a: Vec3) ensures dot3(vadd(x, y), a) == dot3(x, a) + dot3(y, a)
{ lemma_dot_lin(a, x, y, 1real, 1real); assert(vadd(vscale(x, 1real), vscale(y, 1real)) == vadd(x, y)); }
pub proof fn lemma_along(a: Vec3, k: real) requires unit3(a) ensures dot3(vscale(a, k), a) == k
{ lemma_dot_lin(a, a, a, k, 0real); assert(1real * k == k && 1real * 0real == 0real); let z = vadd(vscale(a, k), vscale(a, 0real)); assert(z == vscale(a, k)); }
pub proof fn lemma_len_add(x: Vec3, y: Vec3) ensures len2(vadd(x, y)) == len2(x) + 2real * dot3(x, y) + len2(y)
{
    al_sq(x.x.v(), y.x.v()); al_sq(x.y.v(), y.y.v()); al_sq(x.z.v(), y.z.v());
    assert((x.x.v() + y.x.v()) * (x.x.v() + y.x.v()) == x.x.v() * x.x.v() + 2real * (x.x.v() * y.x.v()) + y.x.v() * y.x.v());
    assert((x.y.v() + y.y.v()) * (x.y.v() + y.y.v()) == x.y.v() * x.y.v() + 2real * (x.y.v() * y.y.v()) + y.y.v() * y.y.v());
    assert((x.z.v() + y.z.v()) * (x.z.v() + y.z.v()) == x.z.v() * x.z.v() + 2real * (x.z.v() * y.z.v()) + y.z.v() * y.z.v());
}
/// revolution keeps the height along the axis, the distance from it, and at angle zero the point itself
pub proof fn theorem_revolution(o: Point3, a: Vec3, p: Point3, t: real)
    requires unit3(a)
    ensures ({ let (v, w) = (vsub(p, o), vsub(revolved(o, a, p, t), o)); dot3(w, a) == dot3(v, a) && len2(across(a, w)) == len2(across(a, v)) && len2(w) == len2(v) }),
        revolved(o, a, p, 0real) == p
{
    let (v, w) = (vsub(p, o), vsub(revolved(o, a, p, t), o)); let q = across(a, v); let r = turn(a, q, t); let h = along(a, v);
    lemma_across(a, v); theorem_turn(a, q, t);
    assert(w == vadd(h, r));
    lemma_dot_add(h, r, a); lemma_along(a, dot3(v, a));
    assert(dot3(w, a) == dot3(v, a));
    assert(across(a, w) == r);
    lemma_comm(a, q);
    lemma_len_add(h, r); lemma_len_add(h, q); assert(v == vadd(h, q));
    let k = dot3(v, a);
    al_factor1(a.x.v(), a.y.v(), a.z.v(), r.x.v(), r.y.v(), r.z.v(), k); al_factor1(a.x.v(), a.y.v(), a.z.v(), q.x.v(), q.y.v(), q.z.v(), k);
    lemma_comm(h, r); lemma_comm(h, q); lemma_comm(r, a); assert(0real * k == 0real);
    let z = revolved(o, a, p, 0real); theorem_turn(a, q, 0real);
    assert(z == p);
}
/// a cylinder point has the given height and its distance from the axis is the radius
pub proof fn theorem_cylinder(c: Cylinder, len: real, t: real)
    requires cyl_ok(c)
    ensures ({ let w = vsub(cyl_at(c, len, t), c.origin); dot3(w, c.axis) == len && len2(across(c.axis, w)) == c.radius.v() * c.radius.v() }),
        cyl_at(c, len, t + 2real * rpi()) == cyl_at(c, len, t), cyl_at(c, 0real, 0real) == vadd(c.origin, vscale(c.ref_dir, c.radius.v()))
{
    theorem_turn(c.axis, c.ref_dir, t); let k = c.radius.v(); let r = turn(c.axis, c.ref_dir, t); let y = vscale(r, k); let h = vscale(c.axis, len);
    let w = vsub(cyl_at(c, len, t), c.origin); assert(w == vadd(h, y));
    al_factor2(r.x.v(), r.y.v(), r.z.v(), k); al_factor1(r.x.v(), r.y.v(), r.z.v(), c.axis.x.v(), c.axis.y.v(), c.axis.z.v(), k); assert(0real * k == 0real); assert(1real * (k * k) == k * k);
    lemma_comm(y, c.axis);
    lemma_dot_add(h, y, c.axis); lemma_along(c.axis, len);
    assert(across(c.axis, w) == y);
    theorem_turn(c.axis, c.ref_dir, 0real); assert(c.axis.x.v() * 0real == 0real && c.axis.y.v() * 0real == 0real && c.axis.z.v() * 0real == 0real);
}
