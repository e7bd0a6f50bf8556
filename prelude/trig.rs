// Assumed facts about the real sine, cosine and two-argument arctangent (trusted mathematics).
pub axiom fn ax_pythagoras(t: real) ensures rsin(t) * rsin(t) + rcos(t) * rcos(t) == 1real;
pub axiom fn ax_zero() ensures rsin(0real) == 0real, rcos(0real) == 1real;
pub axiom fn ax_half(t: real) ensures rcos(t) == 2real * (rcos(t / 2real) * rcos(t / 2real)) - 1real, rsin(t) == 2real * (rsin(t / 2real) * rcos(t / 2real));
pub axiom fn ax_period(t: real) ensures rsin(t + 2real * rpi()) == rsin(t), rcos(t + 2real * rpi()) == rcos(t);
pub axiom fn ax_pi() ensures 3.14real < rpi() < 3.15real;
// polar form: atan2(y, x) in (-pi, pi], its cosine and sine are x and y over the radius; zero at the origin
pub axiom fn ax_atan2(y: real, x: real)
    ensures -rpi() < ratan2(y, x) <= rpi(),
        rsqrt(x * x + y * y) * rcos(ratan2(y, x)) == x, rsqrt(x * x + y * y) * rsin(ratan2(y, x)) == y, y >= 0real ==> ratan2(y, x) >= 0real, y < 0real ==> ratan2(y, x) < 0real;
// glam::DQuat as glam 0.2x computes it: from_axis_angle takes the half angle, the product with a vector is
//   v (w^2 - b.b) + b (2 v.b) + (b x v) (2 w)   with b = (x, y, z)
#[derive(Clone, Copy)]
pub struct Quat { pub x: Float, pub y: Float, pub z: Float, pub w: Float }
pub open spec fn qvec(q: Quat) -> Vec3 { Vec3 { x: q.x, y: q.y, z: q.z } }
pub open spec fn qrot1(v: real, b: real, cr: real, w: real, bb: real, vb: real) -> real { v * (w * w - bb) + b * (vb * 2real) + cr * (w * 2real) }
pub open spec fn qrot(q: Quat, v: Vec3) -> Vec3 {
    let b = qvec(q); let cr = cross3(b, v); let (w, bb, vb) = (q.w.v(), dot3(b, b), dot3(v, b));
    p3(qrot1(v.x.v(), b.x.v(), cr.x.v(), w, bb, vb), qrot1(v.y.v(), b.y.v(), cr.y.v(), w, bb, vb), qrot1(v.z.v(), b.z.v(), cr.z.v(), w, bb, vb))
}
pub open spec fn axis_angle(axis: Vec3, t: real) -> Quat { let s = rsin(t / 2real); Quat { x: fl(axis.x.v() * s), y: fl(axis.y.v() * s), z: fl(axis.z.v() * s), w: fl(rcos(t / 2real)) } }
impl Quat {
    #[verifier::external_body]
    pub fn from_axis_angle(axis: Vec3, angle: Float) -> (r: Quat) ensures r == axis_angle(axis, angle.v()) { unimplemented!() }
    #[verifier::external_body]
    pub fn mul_vec3(self, v: Vec3) -> (r: Vec3) ensures r == qrot(self, v) { unimplemented!() }
}
impl MulSpecImpl<Vec3> for Quat {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, rhs: Vec3) -> bool { true }
    open spec fn mul_spec(self, rhs: Vec3) -> Vec3 { qrot(self, rhs) }
}
impl core::ops::Mul<Vec3> for Quat { type Output = Vec3; #[verifier::external_body] fn mul(self, rhs: Vec3) -> Vec3 { unimplemented!() } }
