// glam::DMat2 (column-major): the inverse is specified only where the determinant does not vanish
#[derive(Clone, Copy)]
pub struct Mat2 { pub a: Float, pub b: Float, pub c: Float, pub d: Float }
pub open spec fn det2(m: Mat2) -> real { m.a.v() * m.d.v() - m.c.v() * m.b.v() }
impl Mat2 {
    // columns (m[0], m[1]) and (m[2], m[3])
    pub fn from_cols_array(m: &[Float; 4]) -> (r: Mat2) ensures r == (Mat2 { a: m@[0], b: m@[1], c: m@[2], d: m@[3] }) { Mat2 { a: m[0], b: m[1], c: m[2], d: m[3] } }
    pub fn determinant(&self) -> (r: Float) ensures r == fl(det2(*self)) { Float(Ghost(det2(*self))) }
    #[verifier::external_body]
    pub fn inverse(&self) -> (r: Mat2)
        ensures det2(*self) != 0real ==> r.a.v() == self.d.v() / det2(*self) && r.b.v() == -self.b.v() / det2(*self) && r.c.v() == -self.c.v() / det2(*self) && r.d.v() == self.a.v() / det2(*self)
    { unimplemented!() }
}
impl MulSpecImpl<Point2> for Mat2 {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, rhs: Point2) -> bool { true }
    open spec fn mul_spec(self, rhs: Point2) -> Point2 { p2(self.a.v() * rhs.x.v() + self.c.v() * rhs.y.v(), self.b.v() * rhs.x.v() + self.d.v() * rhs.y.v()) }
}
impl core::ops::Mul<Point2> for Mat2 { type Output = Point2;
    fn mul(self, rhs: Point2) -> Point2 { Point2 { x: Float(Ghost(self.a.0@ * rhs.x.0@ + self.c.0@ * rhs.y.0@)), y: Float(Ghost(self.b.0@ * rhs.x.0@ + self.d.0@ * rhs.y.0@)) } } }
