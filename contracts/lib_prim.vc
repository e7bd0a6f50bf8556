//@ struct Line
//@ struct Circle
//@ struct Plane
//@ struct Cylinder
//@ raw
pub open spec fn vadd(a: Vec3, b: Vec3) -> Vec3 { p3(a.x.v() + b.x.v(), a.y.v() + b.y.v(), a.z.v() + b.z.v()) }
pub open spec fn vsub(a: Vec3, b: Vec3) -> Vec3 { p3(a.x.v() - b.x.v(), a.y.v() - b.y.v(), a.z.v() - b.z.v()) }
pub open spec fn vscale(a: Vec3, k: real) -> Vec3 { p3(a.x.v() * k, a.y.v() * k, a.z.v() * k) }
pub open spec fn unit3(a: Vec3) -> bool { dot3(a, a) == 1real }
/// the vector perpendicular to the unit axis, turned about it by the angle (right-handed)
pub open spec fn turn(axis: Vec3, q: Vec3, t: real) -> Vec3 { vadd(vscale(q, rcos(t)), vscale(cross3(axis, q), rsin(t))) }
pub open spec fn line_at(l: Line, u: real) -> Point3 { vadd(l.origin, vscale(l.direction, u)) }
pub open spec fn circle_ok(c: Circle) -> bool { unit3(c.axis) && unit3(c.ref_dir) && dot3(c.axis, c.ref_dir) == 0real }
pub open spec fn circle_at(c: Circle, t: real) -> Point3 { vadd(c.center, vscale(turn(c.axis, c.ref_dir, t), c.radius.v())) }
pub open spec fn plane_at(p: Plane, u: real, v: real) -> Point3 { vadd(vadd(p.origin, vscale(p.u_axis, u)), vscale(p.v_axis, v)) }
pub open spec fn cyl_ok(c: Cylinder) -> bool { unit3(c.axis) && unit3(c.ref_dir) && dot3(c.axis, c.ref_dir) == 0real }
pub open spec fn cyl_at(c: Cylinder, len: real, t: real) -> Point3 { vadd(vadd(c.origin, vscale(c.axis, len)), vscale(turn(c.axis, c.ref_dir, t), c.radius.v())) }
/// one component of the quaternion product with half-angle sine s and cosine c, for a unit axis a and dot product d = a.v, k = (a x v)
pub proof fn lemma_qrot1(v: real, a: real, k: real, s: real, c: real, sn: real, cs: real, bb: real, vb: real, b: real, cr: real)
    requires s * s + c * c == 1real, cs == 2real * (c * c) - 1real, sn == 2real * (s * c), bb == s * s, vb == 0real, b == a * s, cr == k * s
    ensures qrot1(v, b, cr, c, bb, vb) == v * cs + k * sn
{
    assert(vb * 2real == 0real); assert(b * (vb * 2real) == 0real) by { assert(b * 0real == 0real); }
    assert(c * c - s * s == cs);
    al_as(k, s, c * 2real); al_c(c, 2real); al_as(s, c, 2real); al_c(s * c, 2real);
}
/// the quaternion of a unit axis turns every perpendicular vector
pub proof fn lemma_turn(a: Vec3, v: Vec3, t: real)
    requires unit3(a), dot3(a, v) == 0real
    ensures qrot(axis_angle(a, t), v) == turn(a, v, t)
{
    let (s, c) = (rsin(t / 2real), rcos(t / 2real)); let q = axis_angle(a, t); let b = qvec(q); let k = cross3(a, v); let cr = cross3(b, v);
    ax_pythagoras(t / 2real); ax_half(t);
    al_factor2(a.x.v(), a.y.v(), a.z.v(), s);
    al_factor1(a.x.v(), a.y.v(), a.z.v(), v.x.v(), v.y.v(), v.z.v(), s);
    assert(0real * s == 0real); assert(1real * (s * s) == s * s);
    let (bb, vb) = (dot3(b, b), dot3(v, b));
    assert(bb == s * s); assert(vb == 0real);
    al_cr(a.y.v(), a.z.v(), v.y.v(), v.z.v(), s); al_cr(a.z.v(), a.x.v(), v.z.v(), v.x.v(), s); al_cr(a.x.v(), a.y.v(), v.x.v(), v.y.v(), s);
    lemma_qrot1(v.x.v(), a.x.v(), k.x.v(), s, c, rsin(t), rcos(t), bb, vb, b.x.v(), cr.x.v());
    lemma_qrot1(v.y.v(), a.y.v(), k.y.v(), s, c, rsin(t), rcos(t), bb, vb, b.y.v(), cr.y.v());
    lemma_qrot1(v.z.v(), a.z.v(), k.z.v(), s, c, rsin(t), rcos(t), bb, vb, b.z.v(), cr.z.v());
}
//@ fn Line::get_point params=u ret=r
    ensures r == line_at(*self, u.v())
//@ fn Circle::get_point params=angle ret=r
    requires circle_ok(*self)
    ensures r == circle_at(*self, angle.v())
//@ ghost start
    proof { lemma_turn(self.axis, self.ref_dir, angle.v()); }
//@ fn Plane::get_point params=u,v ret=r
    ensures r == plane_at(*self, u.v(), v.v())
//@ fn Cylinder::get_point params=length,angle ret=r
    requires cyl_ok(*self)
    ensures r == cyl_at(*self, length.v(), angle.v())
//@ ghost start
    proof { lemma_turn(self.axis, self.ref_dir, angle.v()); }
