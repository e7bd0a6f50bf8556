// Exact-real stand-ins for glam DVec2/DVec3/DVec4 (documented glam 0.14 semantics).
pub type Vec2 = Point2;
pub type Vec3 = Point3;
pub type Vec4 = Point4;
#[derive(Clone, Copy)]
pub struct Point2 { pub x: Float, pub y: Float }
pub open spec fn p2(x: real, y: real) -> Point2 { Point2 { x: fl(x), y: fl(y) } }
impl AddSpecImpl<Point2> for Point2 {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, rhs: Point2) -> bool { true }
    open spec fn add_spec(self, rhs: Point2) -> Point2 { Point2 { x: Float(Ghost(self.x.0@ + rhs.x.0@)), y: Float(Ghost(self.y.0@ + rhs.y.0@)) } }
}
impl core::ops::Add<Point2> for Point2 { type Output = Point2;
    fn add(self, rhs: Point2) -> Point2 { Point2 { x: Float(Ghost(self.x.0@ + rhs.x.0@)), y: Float(Ghost(self.y.0@ + rhs.y.0@)) } } }
impl SubSpecImpl<Point2> for Point2 {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, rhs: Point2) -> bool { true }
    open spec fn sub_spec(self, rhs: Point2) -> Point2 { Point2 { x: Float(Ghost(self.x.0@ - rhs.x.0@)), y: Float(Ghost(self.y.0@ - rhs.y.0@)) } }
}
impl core::ops::Sub<Point2> for Point2 { type Output = Point2;
    fn sub(self, rhs: Point2) -> Point2 { Point2 { x: Float(Ghost(self.x.0@ - rhs.x.0@)), y: Float(Ghost(self.y.0@ - rhs.y.0@)) } } }
impl AddSpecImpl<&Point2> for Point2 {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, rhs: &Point2) -> bool { true }
    open spec fn add_spec(self, rhs: &Point2) -> Point2 { Point2 { x: Float(Ghost(self.x.0@ + rhs.x.0@)), y: Float(Ghost(self.y.0@ + rhs.y.0@)) } }
}
impl core::ops::Add<&Point2> for Point2 { type Output = Point2;
    fn add(self, rhs: &Point2) -> Point2 { Point2 { x: Float(Ghost(self.x.0@ + rhs.x.0@)), y: Float(Ghost(self.y.0@ + rhs.y.0@)) } } }
impl MulSpecImpl<Float> for Point2 {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, rhs: Float) -> bool { true }
    open spec fn mul_spec(self, rhs: Float) -> Point2 { Point2 { x: Float(Ghost(self.x.0@ * rhs.0@)), y: Float(Ghost(self.y.0@ * rhs.0@)) } }
}
impl core::ops::Mul<Float> for Point2 { type Output = Point2;
    fn mul(self, rhs: Float) -> Point2 { Point2 { x: Float(Ghost(self.x.0@ * rhs.0@)), y: Float(Ghost(self.y.0@ * rhs.0@)) } } }
impl MulSpecImpl<&Float> for Point2 {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, rhs: &Float) -> bool { true }
    open spec fn mul_spec(self, rhs: &Float) -> Point2 { Point2 { x: Float(Ghost(self.x.0@ * rhs.0@)), y: Float(Ghost(self.y.0@ * rhs.0@)) } }
}
impl core::ops::Mul<&Float> for Point2 { type Output = Point2;
    fn mul(self, rhs: &Float) -> Point2 { Point2 { x: Float(Ghost(self.x.0@ * rhs.0@)), y: Float(Ghost(self.y.0@ * rhs.0@)) } } }
impl MulSpecImpl<Point2> for Float {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, rhs: Point2) -> bool { true }
    open spec fn mul_spec(self, rhs: Point2) -> Point2 { Point2 { x: Float(Ghost(self.0@ * rhs.x.0@)), y: Float(Ghost(self.0@ * rhs.y.0@)) } }
}
impl core::ops::Mul<Point2> for Float { type Output = Point2;
    fn mul(self, rhs: Point2) -> Point2 { Point2 { x: Float(Ghost(self.0@ * rhs.x.0@)), y: Float(Ghost(self.0@ * rhs.y.0@)) } } }
impl MulSpecImpl<Point2> for &Float {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, rhs: Point2) -> bool { true }
    open spec fn mul_spec(self, rhs: Point2) -> Point2 { Point2 { x: Float(Ghost(self.0@ * rhs.x.0@)), y: Float(Ghost(self.0@ * rhs.y.0@)) } }
}
impl core::ops::Mul<Point2> for &Float { type Output = Point2;
    fn mul(self, rhs: Point2) -> Point2 { Point2 { x: Float(Ghost(self.0@ * rhs.x.0@)), y: Float(Ghost(self.0@ * rhs.y.0@)) } } }
impl DivSpecImpl<Float> for Point2 {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, rhs: Float) -> bool { vx_div_ok(rhs.0@) }
    open spec fn div_spec(self, rhs: Float) -> Point2 { Point2 { x: Float(Ghost(self.x.0@ / rhs.0@)), y: Float(Ghost(self.y.0@ / rhs.0@)) } }
}
impl core::ops::Div<Float> for Point2 { type Output = Point2;
    fn div(self, rhs: Float) -> Point2 { Point2 { x: Float(Ghost(self.x.0@ / rhs.0@)), y: Float(Ghost(self.y.0@ / rhs.0@)) } } }
impl NegSpecImpl for Point2 {
    open spec fn obeys_neg_spec() -> bool { true }
    open spec fn neg_req(self) -> bool { true }
    open spec fn neg_spec(self) -> Point2 { Point2 { x: Float(Ghost(-self.x.0@)), y: Float(Ghost(-self.y.0@)) } }
}
impl core::ops::Neg for Point2 { type Output = Point2;
    fn neg(self) -> Point2 { Point2 { x: Float(Ghost(-self.x.0@)), y: Float(Ghost(-self.y.0@)) } } }
impl NegSpecImpl for &Point2 {
    open spec fn obeys_neg_spec() -> bool { true }
    open spec fn neg_req(self) -> bool { true }
    open spec fn neg_spec(self) -> Point2 { Point2 { x: Float(Ghost(-self.x.0@)), y: Float(Ghost(-self.y.0@)) } }
}
impl core::ops::Neg for &Point2 { type Output = Point2;
    fn neg(self) -> Point2 { Point2 { x: Float(Ghost(-self.x.0@)), y: Float(Ghost(-self.y.0@)) } } }
pub open spec fn dot2(a: Point2, b: Point2) -> real { a.x.v() * b.x.v() + a.y.v() * b.y.v() }
pub open spec fn dist2_2(a: Point2, b: Point2) -> real { (a.x.v() - b.x.v()) * (a.x.v() - b.x.v()) + (a.y.v() - b.y.v()) * (a.y.v() - b.y.v()) }
impl Point2 {
    pub fn zero() -> (r: Point2) ensures r == p2(0real, 0real) { Point2 { x: Float(Ghost(0real)), y: Float(Ghost(0real)) } }
    pub fn default() -> (r: Point2) ensures r == p2(0real, 0real) { Point2 { x: Float(Ghost(0real)), y: Float(Ghost(0real)) } }
    pub fn new(x: Float, y: Float) -> (r: Point2) ensures r == (Point2 { x, y }) { Point2 { x, y } }
    pub fn dot(self, o: Point2) -> (r: Float) ensures r == fl(dot2(self, o)) { Float(Ghost(dot2(self, o))) }
    pub fn length_squared(self) -> (r: Float) ensures r == fl(dot2(self, self)) { Float(Ghost(dot2(self, self))) }
    #[verifier::external_body]
    pub fn length(self) -> (r: Float) ensures r == fl(rsqrt(dot2(self, self))) { unimplemented!() }
    pub fn distance_squared(self, o: Point2) -> (r: Float) ensures r == fl(dist2_2(self, o)) { Float(Ghost(dist2_2(self, o))) }
    pub fn distance(self, o: Point2) -> (r: Float) ensures r == fl(rsqrt(dist2_2(self, o))) { Float(Ghost(rsqrt(dist2_2(self, o)))) }
    pub fn lerp(self, o: Point2, s: Float) -> (r: Point2)
        ensures r.x.v() == self.x.v() + (o.x.v() - self.x.v()) * s.v(), r.y.v() == self.y.v() + (o.y.v() - self.y.v()) * s.v()
    { Point2 { x: Float(Ghost(self.x.0@ + (o.x.0@ - self.x.0@) * s.0@)), y: Float(Ghost(self.y.0@ + (o.y.0@ - self.y.0@) * s.0@)) } }
    #[verifier::external_body]
    pub fn normalize(self) -> (r: Point2)
        requires vx_div_ok(dot2(self, self))
        ensures r.x.v() == self.x.v() / rsqrt(dot2(self, self)), r.y.v() == self.y.v() / rsqrt(dot2(self, self))
    { unimplemented!() }
    pub fn vx_clone(&self) -> (r: Point2) ensures r == *self { *self }
    // "not a number" is an abstract property of the value here: it only says the point is undefined
    pub uninterp spec fn undef(self) -> bool;
    #[verifier::external_body]
    pub fn is_nan(self) -> (r: bool) ensures r == self.undef() { unimplemented!() }
    pub uninterp spec fn finite(self) -> bool;
    #[verifier::external_body]
    pub fn is_finite(self) -> (r: bool) ensures r == self.finite() { unimplemented!() }
    pub fn perp(self) -> (r: Point2) ensures r == p2(-self.y.v(), self.x.v()) { Point2 { x: Float(Ghost(-self.y.0@)), y: self.x } }
    pub fn perp_dot(self, o: Point2) -> (r: Float) ensures r == fl(self.x.v() * o.y.v() - self.y.v() * o.x.v()) { Float(Ghost(self.x.0@ * o.y.0@ - self.y.0@ * o.x.0@)) }
    pub fn extend(self, z: Float) -> (r: Point3) ensures r == (Point3 { x: self.x, y: self.y, z: z }) { Point3 { x: self.x, y: self.y, z } }
}
#[derive(Clone, Copy)]
pub struct Point3 { pub x: Float, pub y: Float, pub z: Float }
pub open spec fn p3(x: real, y: real, z: real) -> Point3 { Point3 { x: fl(x), y: fl(y), z: fl(z) } }
impl AddSpecImpl<Point3> for Point3 {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, rhs: Point3) -> bool { true }
    open spec fn add_spec(self, rhs: Point3) -> Point3 { Point3 { x: Float(Ghost(self.x.0@ + rhs.x.0@)), y: Float(Ghost(self.y.0@ + rhs.y.0@)), z: Float(Ghost(self.z.0@ + rhs.z.0@)) } }
}
impl core::ops::Add<Point3> for Point3 { type Output = Point3;
    fn add(self, rhs: Point3) -> Point3 { Point3 { x: Float(Ghost(self.x.0@ + rhs.x.0@)), y: Float(Ghost(self.y.0@ + rhs.y.0@)), z: Float(Ghost(self.z.0@ + rhs.z.0@)) } } }
impl SubSpecImpl<Point3> for Point3 {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, rhs: Point3) -> bool { true }
    open spec fn sub_spec(self, rhs: Point3) -> Point3 { Point3 { x: Float(Ghost(self.x.0@ - rhs.x.0@)), y: Float(Ghost(self.y.0@ - rhs.y.0@)), z: Float(Ghost(self.z.0@ - rhs.z.0@)) } }
}
impl core::ops::Sub<Point3> for Point3 { type Output = Point3;
    fn sub(self, rhs: Point3) -> Point3 { Point3 { x: Float(Ghost(self.x.0@ - rhs.x.0@)), y: Float(Ghost(self.y.0@ - rhs.y.0@)), z: Float(Ghost(self.z.0@ - rhs.z.0@)) } } }
impl AddSpecImpl<&Point3> for Point3 {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, rhs: &Point3) -> bool { true }
    open spec fn add_spec(self, rhs: &Point3) -> Point3 { Point3 { x: Float(Ghost(self.x.0@ + rhs.x.0@)), y: Float(Ghost(self.y.0@ + rhs.y.0@)), z: Float(Ghost(self.z.0@ + rhs.z.0@)) } }
}
impl core::ops::Add<&Point3> for Point3 { type Output = Point3;
    fn add(self, rhs: &Point3) -> Point3 { Point3 { x: Float(Ghost(self.x.0@ + rhs.x.0@)), y: Float(Ghost(self.y.0@ + rhs.y.0@)), z: Float(Ghost(self.z.0@ + rhs.z.0@)) } } }
impl MulSpecImpl<Float> for Point3 {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, rhs: Float) -> bool { true }
    open spec fn mul_spec(self, rhs: Float) -> Point3 { Point3 { x: Float(Ghost(self.x.0@ * rhs.0@)), y: Float(Ghost(self.y.0@ * rhs.0@)), z: Float(Ghost(self.z.0@ * rhs.0@)) } }
}
impl core::ops::Mul<Float> for Point3 { type Output = Point3;
    fn mul(self, rhs: Float) -> Point3 { Point3 { x: Float(Ghost(self.x.0@ * rhs.0@)), y: Float(Ghost(self.y.0@ * rhs.0@)), z: Float(Ghost(self.z.0@ * rhs.0@)) } } }
impl MulSpecImpl<&Float> for Point3 {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, rhs: &Float) -> bool { true }
    open spec fn mul_spec(self, rhs: &Float) -> Point3 { Point3 { x: Float(Ghost(self.x.0@ * rhs.0@)), y: Float(Ghost(self.y.0@ * rhs.0@)), z: Float(Ghost(self.z.0@ * rhs.0@)) } }
}
impl core::ops::Mul<&Float> for Point3 { type Output = Point3;
    fn mul(self, rhs: &Float) -> Point3 { Point3 { x: Float(Ghost(self.x.0@ * rhs.0@)), y: Float(Ghost(self.y.0@ * rhs.0@)), z: Float(Ghost(self.z.0@ * rhs.0@)) } } }
impl MulSpecImpl<Point3> for Float {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, rhs: Point3) -> bool { true }
    open spec fn mul_spec(self, rhs: Point3) -> Point3 { Point3 { x: Float(Ghost(self.0@ * rhs.x.0@)), y: Float(Ghost(self.0@ * rhs.y.0@)), z: Float(Ghost(self.0@ * rhs.z.0@)) } }
}
impl core::ops::Mul<Point3> for Float { type Output = Point3;
    fn mul(self, rhs: Point3) -> Point3 { Point3 { x: Float(Ghost(self.0@ * rhs.x.0@)), y: Float(Ghost(self.0@ * rhs.y.0@)), z: Float(Ghost(self.0@ * rhs.z.0@)) } } }
impl MulSpecImpl<Point3> for &Float {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, rhs: Point3) -> bool { true }
    open spec fn mul_spec(self, rhs: Point3) -> Point3 { Point3 { x: Float(Ghost(self.0@ * rhs.x.0@)), y: Float(Ghost(self.0@ * rhs.y.0@)), z: Float(Ghost(self.0@ * rhs.z.0@)) } }
}
impl core::ops::Mul<Point3> for &Float { type Output = Point3;
    fn mul(self, rhs: Point3) -> Point3 { Point3 { x: Float(Ghost(self.0@ * rhs.x.0@)), y: Float(Ghost(self.0@ * rhs.y.0@)), z: Float(Ghost(self.0@ * rhs.z.0@)) } } }
impl DivSpecImpl<Float> for Point3 {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, rhs: Float) -> bool { vx_div_ok(rhs.0@) }
    open spec fn div_spec(self, rhs: Float) -> Point3 { Point3 { x: Float(Ghost(self.x.0@ / rhs.0@)), y: Float(Ghost(self.y.0@ / rhs.0@)), z: Float(Ghost(self.z.0@ / rhs.0@)) } }
}
impl core::ops::Div<Float> for Point3 { type Output = Point3;
    fn div(self, rhs: Float) -> Point3 { Point3 { x: Float(Ghost(self.x.0@ / rhs.0@)), y: Float(Ghost(self.y.0@ / rhs.0@)), z: Float(Ghost(self.z.0@ / rhs.0@)) } } }
impl NegSpecImpl for Point3 {
    open spec fn obeys_neg_spec() -> bool { true }
    open spec fn neg_req(self) -> bool { true }
    open spec fn neg_spec(self) -> Point3 { Point3 { x: Float(Ghost(-self.x.0@)), y: Float(Ghost(-self.y.0@)), z: Float(Ghost(-self.z.0@)) } }
}
impl core::ops::Neg for Point3 { type Output = Point3;
    fn neg(self) -> Point3 { Point3 { x: Float(Ghost(-self.x.0@)), y: Float(Ghost(-self.y.0@)), z: Float(Ghost(-self.z.0@)) } } }
impl NegSpecImpl for &Point3 {
    open spec fn obeys_neg_spec() -> bool { true }
    open spec fn neg_req(self) -> bool { true }
    open spec fn neg_spec(self) -> Point3 { Point3 { x: Float(Ghost(-self.x.0@)), y: Float(Ghost(-self.y.0@)), z: Float(Ghost(-self.z.0@)) } }
}
impl core::ops::Neg for &Point3 { type Output = Point3;
    fn neg(self) -> Point3 { Point3 { x: Float(Ghost(-self.x.0@)), y: Float(Ghost(-self.y.0@)), z: Float(Ghost(-self.z.0@)) } } }
pub open spec fn dot3(a: Point3, b: Point3) -> real { a.x.v() * b.x.v() + a.y.v() * b.y.v() + a.z.v() * b.z.v() }
pub open spec fn dist2_3(a: Point3, b: Point3) -> real { (a.x.v() - b.x.v()) * (a.x.v() - b.x.v()) + (a.y.v() - b.y.v()) * (a.y.v() - b.y.v()) + (a.z.v() - b.z.v()) * (a.z.v() - b.z.v()) }
impl Point3 {
    pub fn zero() -> (r: Point3) ensures r == p3(0real, 0real, 0real) { Point3 { x: Float(Ghost(0real)), y: Float(Ghost(0real)), z: Float(Ghost(0real)) } }
    pub fn default() -> (r: Point3) ensures r == p3(0real, 0real, 0real) { Point3 { x: Float(Ghost(0real)), y: Float(Ghost(0real)), z: Float(Ghost(0real)) } }
    pub fn new(x: Float, y: Float, z: Float) -> (r: Point3) ensures r == (Point3 { x, y, z }) { Point3 { x, y, z } }
    pub fn dot(self, o: Point3) -> (r: Float) ensures r == fl(dot3(self, o)) { Float(Ghost(dot3(self, o))) }
    pub fn length_squared(self) -> (r: Float) ensures r == fl(dot3(self, self)) { Float(Ghost(dot3(self, self))) }
    #[verifier::external_body]
    pub fn length(self) -> (r: Float) ensures r == fl(rsqrt(dot3(self, self))) { unimplemented!() }
    pub fn distance_squared(self, o: Point3) -> (r: Float) ensures r == fl(dist2_3(self, o)) { Float(Ghost(dist2_3(self, o))) }
    pub fn distance(self, o: Point3) -> (r: Float) ensures r == fl(rsqrt(dist2_3(self, o))) { Float(Ghost(rsqrt(dist2_3(self, o)))) }
    pub fn lerp(self, o: Point3, s: Float) -> (r: Point3)
        ensures r.x.v() == self.x.v() + (o.x.v() - self.x.v()) * s.v(), r.y.v() == self.y.v() + (o.y.v() - self.y.v()) * s.v(), r.z.v() == self.z.v() + (o.z.v() - self.z.v()) * s.v()
    { Point3 { x: Float(Ghost(self.x.0@ + (o.x.0@ - self.x.0@) * s.0@)), y: Float(Ghost(self.y.0@ + (o.y.0@ - self.y.0@) * s.0@)), z: Float(Ghost(self.z.0@ + (o.z.0@ - self.z.0@) * s.0@)) } }
    #[verifier::external_body]
    pub fn normalize(self) -> (r: Point3)
        requires vx_div_ok(dot3(self, self))
        ensures r.x.v() == self.x.v() / rsqrt(dot3(self, self)), r.y.v() == self.y.v() / rsqrt(dot3(self, self)), r.z.v() == self.z.v() / rsqrt(dot3(self, self))
    { unimplemented!() }
    pub fn vx_clone(&self) -> (r: Point3) ensures r == *self { *self }
    // "not a number" is an abstract property of the value here: it only says the point is undefined
    pub uninterp spec fn undef(self) -> bool;
    #[verifier::external_body]
    pub fn is_nan(self) -> (r: bool) ensures r == self.undef() { unimplemented!() }
    pub uninterp spec fn finite(self) -> bool;
    #[verifier::external_body]
    pub fn is_finite(self) -> (r: bool) ensures r == self.finite() { unimplemented!() }
    pub fn cross(self, o: Point3) -> (r: Point3) ensures r == cross3(self, o) { Point3 {
        x: Float(Ghost(self.y.0@ * o.z.0@ - self.z.0@ * o.y.0@)), y: Float(Ghost(self.z.0@ * o.x.0@ - self.x.0@ * o.z.0@)), z: Float(Ghost(self.x.0@ * o.y.0@ - self.y.0@ * o.x.0@)) } }
    pub fn truncate(self) -> (r: Point2) ensures r == (Point2 { x: self.x, y: self.y }) { Point2 { x: self.x, y: self.y } }
    pub fn extend(self, w: Float) -> (r: Point4) ensures r == (Point4 { x: self.x, y: self.y, z: self.z, w: w }) { Point4 { x: self.x, y: self.y, z: self.z, w } }
}
pub open spec fn cross3(a: Point3, b: Point3) -> Point3 { p3(a.y.v() * b.z.v() - a.z.v() * b.y.v(), a.z.v() * b.x.v() - a.x.v() * b.z.v(), a.x.v() * b.y.v() - a.y.v() * b.x.v()) }
#[derive(Clone, Copy)]
pub struct Point4 { pub x: Float, pub y: Float, pub z: Float, pub w: Float }
pub open spec fn p4(x: real, y: real, z: real, w: real) -> Point4 { Point4 { x: fl(x), y: fl(y), z: fl(z), w: fl(w) } }
impl AddSpecImpl<Point4> for Point4 {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, rhs: Point4) -> bool { true }
    open spec fn add_spec(self, rhs: Point4) -> Point4 { Point4 { x: Float(Ghost(self.x.0@ + rhs.x.0@)), y: Float(Ghost(self.y.0@ + rhs.y.0@)), z: Float(Ghost(self.z.0@ + rhs.z.0@)), w: Float(Ghost(self.w.0@ + rhs.w.0@)) } }
}
impl core::ops::Add<Point4> for Point4 { type Output = Point4;
    fn add(self, rhs: Point4) -> Point4 { Point4 { x: Float(Ghost(self.x.0@ + rhs.x.0@)), y: Float(Ghost(self.y.0@ + rhs.y.0@)), z: Float(Ghost(self.z.0@ + rhs.z.0@)), w: Float(Ghost(self.w.0@ + rhs.w.0@)) } } }
impl SubSpecImpl<Point4> for Point4 {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, rhs: Point4) -> bool { true }
    open spec fn sub_spec(self, rhs: Point4) -> Point4 { Point4 { x: Float(Ghost(self.x.0@ - rhs.x.0@)), y: Float(Ghost(self.y.0@ - rhs.y.0@)), z: Float(Ghost(self.z.0@ - rhs.z.0@)), w: Float(Ghost(self.w.0@ - rhs.w.0@)) } }
}
impl core::ops::Sub<Point4> for Point4 { type Output = Point4;
    fn sub(self, rhs: Point4) -> Point4 { Point4 { x: Float(Ghost(self.x.0@ - rhs.x.0@)), y: Float(Ghost(self.y.0@ - rhs.y.0@)), z: Float(Ghost(self.z.0@ - rhs.z.0@)), w: Float(Ghost(self.w.0@ - rhs.w.0@)) } } }
impl AddSpecImpl<&Point4> for Point4 {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, rhs: &Point4) -> bool { true }
    open spec fn add_spec(self, rhs: &Point4) -> Point4 { Point4 { x: Float(Ghost(self.x.0@ + rhs.x.0@)), y: Float(Ghost(self.y.0@ + rhs.y.0@)), z: Float(Ghost(self.z.0@ + rhs.z.0@)), w: Float(Ghost(self.w.0@ + rhs.w.0@)) } }
}
impl core::ops::Add<&Point4> for Point4 { type Output = Point4;
    fn add(self, rhs: &Point4) -> Point4 { Point4 { x: Float(Ghost(self.x.0@ + rhs.x.0@)), y: Float(Ghost(self.y.0@ + rhs.y.0@)), z: Float(Ghost(self.z.0@ + rhs.z.0@)), w: Float(Ghost(self.w.0@ + rhs.w.0@)) } } }
impl MulSpecImpl<Float> for Point4 {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, rhs: Float) -> bool { true }
    open spec fn mul_spec(self, rhs: Float) -> Point4 { Point4 { x: Float(Ghost(self.x.0@ * rhs.0@)), y: Float(Ghost(self.y.0@ * rhs.0@)), z: Float(Ghost(self.z.0@ * rhs.0@)), w: Float(Ghost(self.w.0@ * rhs.0@)) } }
}
impl core::ops::Mul<Float> for Point4 { type Output = Point4;
    fn mul(self, rhs: Float) -> Point4 { Point4 { x: Float(Ghost(self.x.0@ * rhs.0@)), y: Float(Ghost(self.y.0@ * rhs.0@)), z: Float(Ghost(self.z.0@ * rhs.0@)), w: Float(Ghost(self.w.0@ * rhs.0@)) } } }
impl MulSpecImpl<&Float> for Point4 {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, rhs: &Float) -> bool { true }
    open spec fn mul_spec(self, rhs: &Float) -> Point4 { Point4 { x: Float(Ghost(self.x.0@ * rhs.0@)), y: Float(Ghost(self.y.0@ * rhs.0@)), z: Float(Ghost(self.z.0@ * rhs.0@)), w: Float(Ghost(self.w.0@ * rhs.0@)) } }
}
impl core::ops::Mul<&Float> for Point4 { type Output = Point4;
    fn mul(self, rhs: &Float) -> Point4 { Point4 { x: Float(Ghost(self.x.0@ * rhs.0@)), y: Float(Ghost(self.y.0@ * rhs.0@)), z: Float(Ghost(self.z.0@ * rhs.0@)), w: Float(Ghost(self.w.0@ * rhs.0@)) } } }
impl MulSpecImpl<Point4> for Float {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, rhs: Point4) -> bool { true }
    open spec fn mul_spec(self, rhs: Point4) -> Point4 { Point4 { x: Float(Ghost(self.0@ * rhs.x.0@)), y: Float(Ghost(self.0@ * rhs.y.0@)), z: Float(Ghost(self.0@ * rhs.z.0@)), w: Float(Ghost(self.0@ * rhs.w.0@)) } }
}
impl core::ops::Mul<Point4> for Float { type Output = Point4;
    fn mul(self, rhs: Point4) -> Point4 { Point4 { x: Float(Ghost(self.0@ * rhs.x.0@)), y: Float(Ghost(self.0@ * rhs.y.0@)), z: Float(Ghost(self.0@ * rhs.z.0@)), w: Float(Ghost(self.0@ * rhs.w.0@)) } } }
impl MulSpecImpl<Point4> for &Float {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, rhs: Point4) -> bool { true }
    open spec fn mul_spec(self, rhs: Point4) -> Point4 { Point4 { x: Float(Ghost(self.0@ * rhs.x.0@)), y: Float(Ghost(self.0@ * rhs.y.0@)), z: Float(Ghost(self.0@ * rhs.z.0@)), w: Float(Ghost(self.0@ * rhs.w.0@)) } }
}
impl core::ops::Mul<Point4> for &Float { type Output = Point4;
    fn mul(self, rhs: Point4) -> Point4 { Point4 { x: Float(Ghost(self.0@ * rhs.x.0@)), y: Float(Ghost(self.0@ * rhs.y.0@)), z: Float(Ghost(self.0@ * rhs.z.0@)), w: Float(Ghost(self.0@ * rhs.w.0@)) } } }
impl DivSpecImpl<Float> for Point4 {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, rhs: Float) -> bool { vx_div_ok(rhs.0@) }
    open spec fn div_spec(self, rhs: Float) -> Point4 { Point4 { x: Float(Ghost(self.x.0@ / rhs.0@)), y: Float(Ghost(self.y.0@ / rhs.0@)), z: Float(Ghost(self.z.0@ / rhs.0@)), w: Float(Ghost(self.w.0@ / rhs.0@)) } }
}
impl core::ops::Div<Float> for Point4 { type Output = Point4;
    fn div(self, rhs: Float) -> Point4 { Point4 { x: Float(Ghost(self.x.0@ / rhs.0@)), y: Float(Ghost(self.y.0@ / rhs.0@)), z: Float(Ghost(self.z.0@ / rhs.0@)), w: Float(Ghost(self.w.0@ / rhs.0@)) } } }
impl NegSpecImpl for Point4 {
    open spec fn obeys_neg_spec() -> bool { true }
    open spec fn neg_req(self) -> bool { true }
    open spec fn neg_spec(self) -> Point4 { Point4 { x: Float(Ghost(-self.x.0@)), y: Float(Ghost(-self.y.0@)), z: Float(Ghost(-self.z.0@)), w: Float(Ghost(-self.w.0@)) } }
}
impl core::ops::Neg for Point4 { type Output = Point4;
    fn neg(self) -> Point4 { Point4 { x: Float(Ghost(-self.x.0@)), y: Float(Ghost(-self.y.0@)), z: Float(Ghost(-self.z.0@)), w: Float(Ghost(-self.w.0@)) } } }
impl NegSpecImpl for &Point4 {
    open spec fn obeys_neg_spec() -> bool { true }
    open spec fn neg_req(self) -> bool { true }
    open spec fn neg_spec(self) -> Point4 { Point4 { x: Float(Ghost(-self.x.0@)), y: Float(Ghost(-self.y.0@)), z: Float(Ghost(-self.z.0@)), w: Float(Ghost(-self.w.0@)) } }
}
impl core::ops::Neg for &Point4 { type Output = Point4;
    fn neg(self) -> Point4 { Point4 { x: Float(Ghost(-self.x.0@)), y: Float(Ghost(-self.y.0@)), z: Float(Ghost(-self.z.0@)), w: Float(Ghost(-self.w.0@)) } } }
pub open spec fn dot4(a: Point4, b: Point4) -> real { a.x.v() * b.x.v() + a.y.v() * b.y.v() + a.z.v() * b.z.v() + a.w.v() * b.w.v() }
pub open spec fn dist2_4(a: Point4, b: Point4) -> real { (a.x.v() - b.x.v()) * (a.x.v() - b.x.v()) + (a.y.v() - b.y.v()) * (a.y.v() - b.y.v()) + (a.z.v() - b.z.v()) * (a.z.v() - b.z.v()) + (a.w.v() - b.w.v()) * (a.w.v() - b.w.v()) }
impl Point4 {
    pub fn zero() -> (r: Point4) ensures r == p4(0real, 0real, 0real, 0real) { Point4 { x: Float(Ghost(0real)), y: Float(Ghost(0real)), z: Float(Ghost(0real)), w: Float(Ghost(0real)) } }
    pub fn default() -> (r: Point4) ensures r == p4(0real, 0real, 0real, 0real) { Point4 { x: Float(Ghost(0real)), y: Float(Ghost(0real)), z: Float(Ghost(0real)), w: Float(Ghost(0real)) } }
    pub fn new(x: Float, y: Float, z: Float, w: Float) -> (r: Point4) ensures r == (Point4 { x, y, z, w }) { Point4 { x, y, z, w } }
    pub fn dot(self, o: Point4) -> (r: Float) ensures r == fl(dot4(self, o)) { Float(Ghost(dot4(self, o))) }
    pub fn length_squared(self) -> (r: Float) ensures r == fl(dot4(self, self)) { Float(Ghost(dot4(self, self))) }
    #[verifier::external_body]
    pub fn length(self) -> (r: Float) ensures r == fl(rsqrt(dot4(self, self))) { unimplemented!() }
    pub fn distance_squared(self, o: Point4) -> (r: Float) ensures r == fl(dist2_4(self, o)) { Float(Ghost(dist2_4(self, o))) }
    pub fn distance(self, o: Point4) -> (r: Float) ensures r == fl(rsqrt(dist2_4(self, o))) { Float(Ghost(rsqrt(dist2_4(self, o)))) }
    pub fn lerp(self, o: Point4, s: Float) -> (r: Point4)
        ensures r.x.v() == self.x.v() + (o.x.v() - self.x.v()) * s.v(), r.y.v() == self.y.v() + (o.y.v() - self.y.v()) * s.v(), r.z.v() == self.z.v() + (o.z.v() - self.z.v()) * s.v(), r.w.v() == self.w.v() + (o.w.v() - self.w.v()) * s.v()
    { Point4 { x: Float(Ghost(self.x.0@ + (o.x.0@ - self.x.0@) * s.0@)), y: Float(Ghost(self.y.0@ + (o.y.0@ - self.y.0@) * s.0@)), z: Float(Ghost(self.z.0@ + (o.z.0@ - self.z.0@) * s.0@)), w: Float(Ghost(self.w.0@ + (o.w.0@ - self.w.0@) * s.0@)) } }
    #[verifier::external_body]
    pub fn normalize(self) -> (r: Point4)
        requires vx_div_ok(dot4(self, self))
        ensures r.x.v() == self.x.v() / rsqrt(dot4(self, self)), r.y.v() == self.y.v() / rsqrt(dot4(self, self)), r.z.v() == self.z.v() / rsqrt(dot4(self, self)), r.w.v() == self.w.v() / rsqrt(dot4(self, self))
    { unimplemented!() }
    pub fn vx_clone(&self) -> (r: Point4) ensures r == *self { *self }
    // "not a number" is an abstract property of the value here: it only says the point is undefined
    pub uninterp spec fn undef(self) -> bool;
    #[verifier::external_body]
    pub fn is_nan(self) -> (r: bool) ensures r == self.undef() { unimplemented!() }
    pub uninterp spec fn finite(self) -> bool;
    #[verifier::external_body]
    pub fn is_finite(self) -> (r: bool) ensures r == self.finite() { unimplemented!() }
    pub fn truncate(self) -> (r: Point3) ensures r == (Point3 { x: self.x, y: self.y, z: self.z }) { Point3 { x: self.x, y: self.y, z: self.z } }
}
