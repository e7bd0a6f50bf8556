#!/usr/bin/env python3
"""Writes prelude/float.rs and prelude/points.rs (exact-real stand-ins for f64 and the glam types).
Run by hand when the shims change; the outputs are committed."""
import os
D = os.path.dirname(os.path.abspath(__file__))

def op(trait, fn, L, R, O, req, spec):
    return f"""impl {trait}SpecImpl<{R}> for {L} {{
    open spec fn obeys_{fn}_spec() -> bool {{ true }}
    open spec fn {fn}_req(self, rhs: {R}) -> bool {{ {req} }}
    open spec fn {fn}_spec(self, rhs: {R}) -> {O} {{ {spec} }}
}}
impl core::ops::{trait}<{R}> for {L} {{ type Output = {O};
    fn {fn}(self, rhs: {R}) -> {O} {{ {spec} }} }}
"""

f = '''// Exact-real stand-in for f64: a Float carries a mathematical real. Arithmetic needs no axiom (the
// result is constructed from the ghost reals); comparisons and the functions of std are external_body
// with the contract written next to them.
#[derive(Clone, Copy)]
pub struct Float(pub Ghost<real>);
pub struct F32(pub Ghost<real>);
impl Float {
    pub open spec fn v(self) -> real { self.0@ }
}
pub open spec fn fl(r: real) -> Float { Float(Ghost(r)) }
pub open spec fn rabs(x: real) -> real { if x < 0real { -x } else { x } }
pub open spec fn rmin(x: real, y: real) -> real { if y < x { y } else { x } }
pub open spec fn rmax(x: real, y: real) -> real { if x < y { y } else { x } }
pub open spec fn rclamp(x: real, lo: real, hi: real) -> real { if x < lo { lo } else if x > hi { hi } else { x } }
pub uninterp spec fn rsqrt(x: real) -> real;
pub broadcast axiom fn ax_rsqrt(x: real)
    requires x >= 0real
    ensures #[trigger] rsqrt(x) >= 0real, rsqrt(x) * rsqrt(x) == x;
pub uninterp spec fn rsin(x: real) -> real;
pub uninterp spec fn rcos(x: real) -> real;
pub uninterp spec fn ratan2(y: real, x: real) -> real;
pub uninterp spec fn rpi() -> real;
pub uninterp spec fn rceil(x: real) -> real;
pub uninterp spec fn rround(x: real) -> real;
pub uninterp spec fn rtrunc(x: real) -> real;
pub uninterp spec fn rfract(x: real) -> real;
pub uninterp spec fn rsignum(x: real) -> real;
pub uninterp spec fn rtan(x: real) -> real;
pub uninterp spec fn rasin(x: real) -> real;
pub uninterp spec fn racos(x: real) -> real;
pub uninterp spec fn ratan(x: real) -> real;
pub uninterp spec fn rexp(x: real) -> real;
pub uninterp spec fn rln(x: real) -> real;
pub uninterp spec fn rto_radians(x: real) -> real;
pub uninterp spec fn rto_degrees(x: real) -> real;
pub uninterp spec fn rcbrt(x: real) -> real;
pub uninterp spec fn rfloor(x: real) -> real;
#[verifier::external_body]
pub fn vx_lt0(x: Float) -> (r: bool) ensures r ==> x.v() <= 0real, !r ==> x.v() >= 0real { unimplemented!() }
'''
for (t, n, sym) in [("Add","add","+"),("Sub","sub","-"),("Mul","mul","*")]:
    for L in ["Float","&Float"]:
        for R in ["Float","&Float"]:
            f += op(t, n, L, R, "Float", "true", f"Float(Ghost(self.0@ {sym} rhs.0@))")
for L in ["Float","&Float"]:
    for R in ["Float","&Float"]:
        f += op("Div", "div", L, R, "Float", "vx_div_ok(rhs.0@)", "Float(Ghost(self.0@ / rhs.0@))")
def neg(T, spec):
    o = ""
    for L in [T, "&"+T]:
        o += f"""impl NegSpecImpl for {L} {{
    open spec fn obeys_neg_spec() -> bool {{ true }}
    open spec fn neg_req(self) -> bool {{ true }}
    open spec fn neg_spec(self) -> {T} {{ {spec} }}
}}
impl core::ops::Neg for {L} {{ type Output = {T};
    fn neg(self) -> {T} {{ {spec} }} }}
"""
    return o
f += neg("Float", "Float(Ghost(-self.0@))")
f += '''impl PartialEqSpecImpl for Float {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Float) -> bool { self.0@ == o.0@ }
}
impl PartialEq for Float { #[verifier::external_body] fn eq(&self, o: &Float) -> bool { unimplemented!() } }
impl PartialOrdSpecImpl for Float {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Float) -> Option<core::cmp::Ordering> {
       if self.0@ < o.0@ { Some(core::cmp::Ordering::Less) } else if self.0@ == o.0@ { Some(core::cmp::Ordering::Equal) } else { Some(core::cmp::Ordering::Greater) } }
}
impl PartialOrd for Float { #[verifier::external_body] fn partial_cmp(&self, o: &Float) -> Option<core::cmp::Ordering> { unimplemented!() } }
pub uninterp spec fn rmaxval() -> real;
pub broadcast axiom fn ax_rmaxval() ensures #[trigger] rmaxval() > 1000000000000000000000real;
impl Float {
    pub fn zero() -> (r: Float) ensures r == fl(0real) { Float(Ghost(0real)) }
    pub fn max_value() -> (r: Float) ensures r == fl(rmaxval()) { Float(Ghost(rmaxval())) }
    pub fn min_value() -> (r: Float) ensures r == fl(-rmaxval()) { Float(Ghost(-rmaxval())) }
    pub fn abs(self) -> (r: Float) ensures r == fl(rabs(self.v())) { Float(Ghost(rabs(self.0@))) }
    pub fn min(self, o: Float) -> (r: Float) ensures r == fl(rmin(self.v(), o.v())) { Float(Ghost(rmin(self.0@, o.0@))) }
    pub fn max(self, o: Float) -> (r: Float) ensures r == fl(rmax(self.v(), o.v())) { Float(Ghost(rmax(self.0@, o.0@))) }
    pub fn clamp(self, lo: Float, hi: Float) -> (r: Float)
        requires lo.v() <= hi.v()
        ensures r == fl(rclamp(self.v(), lo.v(), hi.v())) { Float(Ghost(rclamp(self.0@, lo.0@, hi.0@))) }
    pub fn sqrt(self) -> (r: Float) requires self.v() >= 0real ensures r == fl(rsqrt(self.v())) { Float(Ghost(rsqrt(self.0@))) }
    pub fn sin(self) -> (r: Float) ensures r == fl(rsin(self.v())) { Float(Ghost(rsin(self.0@))) }
    pub fn cos(self) -> (r: Float) ensures r == fl(rcos(self.v())) { Float(Ghost(rcos(self.0@))) }
    pub fn sin_cos(self) -> (r: (Float, Float)) ensures r == (fl(rsin(self.v())), fl(rcos(self.v()))) { (Float(Ghost(rsin(self.0@))), Float(Ghost(rcos(self.0@)))) }
    pub fn atan2(self, x: Float) -> (r: Float) ensures r == fl(ratan2(self.v(), x.v())) { Float(Ghost(ratan2(self.0@, x.0@))) }
    pub fn powi(self, n: i32) -> (r: Float) requires n == 2 ensures r == fl(self.v() * self.v()) { Float(Ghost(self.0@ * self.0@)) }
    // functions of std that need no facts beyond being functions (floor: with its defining inequality)
    pub fn ceil(self) -> (r: Float) ensures r == fl(rceil(self.v())) { Float(Ghost(rceil(self.0@))) }
    pub fn round(self) -> (r: Float) ensures r == fl(rround(self.v())) { Float(Ghost(rround(self.0@))) }
    pub fn trunc(self) -> (r: Float) ensures r == fl(rtrunc(self.v())) { Float(Ghost(rtrunc(self.0@))) }
    pub fn fract(self) -> (r: Float) ensures r == fl(rfract(self.v())) { Float(Ghost(rfract(self.0@))) }
    pub fn signum(self) -> (r: Float) ensures r == fl(rsignum(self.v())) { Float(Ghost(rsignum(self.0@))) }
    pub fn tan(self) -> (r: Float) ensures r == fl(rtan(self.v())) { Float(Ghost(rtan(self.0@))) }
    pub fn asin(self) -> (r: Float) ensures r == fl(rasin(self.v())) { Float(Ghost(rasin(self.0@))) }
    pub fn acos(self) -> (r: Float) ensures r == fl(racos(self.v())) { Float(Ghost(racos(self.0@))) }
    pub fn atan(self) -> (r: Float) ensures r == fl(ratan(self.v())) { Float(Ghost(ratan(self.0@))) }
    pub fn exp(self) -> (r: Float) ensures r == fl(rexp(self.v())) { Float(Ghost(rexp(self.0@))) }
    pub fn ln(self) -> (r: Float) ensures r == fl(rln(self.v())) { Float(Ghost(rln(self.0@))) }
    pub fn to_radians(self) -> (r: Float) ensures r == fl(rto_radians(self.v())) { Float(Ghost(rto_radians(self.0@))) }
    pub fn to_degrees(self) -> (r: Float) ensures r == fl(rto_degrees(self.v())) { Float(Ghost(rto_degrees(self.0@))) }
    pub fn cbrt(self) -> (r: Float) ensures r == fl(rcbrt(self.v())) { Float(Ghost(rcbrt(self.0@))) }
    pub fn floor(self) -> (r: Float) ensures r == fl(rfloor(self.v())) { Float(Ghost(rfloor(self.0@))) }
    pub fn hypot(self, o: Float) -> (r: Float) ensures r == fl(rsqrt(self.v() * self.v() + o.v() * o.v())) { Float(Ghost(rsqrt(self.0@ * self.0@ + o.0@ * o.0@))) }
    pub fn mul_add(self, a: Float, b: Float) -> (r: Float) ensures r == fl(self.v() * a.v() + b.v()) { Float(Ghost(self.0@ * a.0@ + b.0@)) }
    pub fn recip(self) -> (r: Float) requires vx_div_ok(self.v()) ensures r == fl(1real / self.v()) { Float(Ghost(1real / self.0@)) }
    pub fn copysign(self, o: Float) -> (r: Float) ensures r == fl(if o.v() >= 0real { rabs(self.v()) } else { -rabs(self.v()) }) { Float(Ghost(if o.0@ >= 0real { rabs(self.0@) } else { -rabs(self.0@) })) }
    pub fn is_sign_negative(self) -> (r: bool) ensures r ==> self.v() <= 0real, !r ==> self.v() >= 0real { vx_lt0(self) }
    pub fn is_sign_positive(self) -> (r: bool) ensures r ==> self.v() >= 0real, !r ==> self.v() <= 0real { !vx_lt0(self) }
    pub fn is_infinite(self) -> (r: bool) ensures !r { false }
    pub fn is_nan(self) -> (r: bool) ensures !r { false }
    pub uninterp spec fn finite(self) -> bool;
    #[verifier::external_body]
    pub fn is_finite(self) -> (r: bool) ensures r == self.finite() { unimplemented!() }
    // approx: the default abs_diff_eq of f64 is |a - b| <= epsilon
    #[verifier::external_body]
    pub fn abs_diff_eq(&self, o: &Float, eps: Float) -> (r: bool) ensures r == (rabs(self.v() - o.v()) <= eps.v()) { unimplemented!() }
    // approx::ulps_eq! with its default epsilon (f64::EPSILON) and 4 ulps, on exact reals: equal, or
    // within epsilon, or within an (unspecified) relative distance
    #[verifier::external_body]
    pub fn vx_ulps_eq(&self, o: &Float) -> (r: bool)
        ensures r == ulps_eq_r(self.v(), o.v())
    { unimplemented!() }
}
pub uninterp spec fn ulps_eq_r(a: real, b: real) -> bool;
pub broadcast axiom fn ax_ulps_refl(a: real, b: real)
    requires a == b
    ensures #[trigger] ulps_eq_r(a, b);
pub broadcast axiom fn ax_ulps_sym(a: real, b: real)
    ensures #[trigger] ulps_eq_r(a, b) == ulps_eq_r(b, a);
impl Clone for F32 { #[verifier::external_body] fn clone(&self) -> F32 { unimplemented!() } }
impl Copy for F32 {}
pub trait VxToFloat { spec fn vx_r(&self) -> real; fn to_float(&self) -> (r: Float) ensures r == fl(self.vx_r()); }
impl VxToFloat for usize { open spec fn vx_r(&self) -> real { (*self as int) as real } #[verifier::external_body] fn to_float(&self) -> Float { unimplemented!() } }
impl VxToFloat for u8 { open spec fn vx_r(&self) -> real { (*self as int) as real } #[verifier::external_body] fn to_float(&self) -> Float { unimplemented!() } }
impl VxToFloat for u32 { open spec fn vx_r(&self) -> real { (*self as int) as real } #[verifier::external_body] fn to_float(&self) -> Float { unimplemented!() } }
impl VxToFloat for i64 { open spec fn vx_r(&self) -> real { (*self as int) as real } #[verifier::external_body] fn to_float(&self) -> Float { unimplemented!() } }
impl VxToFloat for Float { open spec fn vx_r(&self) -> real { self.v() } fn to_float(&self) -> Float { *self } }
pub fn vx_pi() -> (r: Float) ensures r == fl(rpi()) { Float(Ghost(rpi())) }
pub fn vx_tau() -> (r: Float) ensures r == fl(2real * rpi()) { Float(Ghost(2real * rpi())) }
'''
open(os.path.join(D, "float.rs"), "w").write(f)

def P(name, cs):
    o = f"#[derive(Clone, Copy)]\npub struct {name} {{ " + ", ".join(f"pub {c}: Float" for c in cs) + " }\n"
    short = "p" + str(len(cs))
    o += f"pub open spec fn {short}(" + ", ".join(f"{c}: real" for c in cs) + f") -> {name} {{ {name} {{ " + ", ".join(f"{c}: fl({c})" for c in cs) + " } }\n"
    def mk(fmt):
        return f"{name} {{ " + ", ".join(f"{c}: Float(Ghost({fmt.format(c=c)}))" for c in cs) + " }"
    for (t, n, sym) in [("Add","add","+"),("Sub","sub","-")]:
        o += op(t, n, name, name, name, "true", mk("self.{c}.0@ %s rhs.{c}.0@" % sym))
    o += op("Add", "add", name, "&"+name, name, "true", mk("self.{c}.0@ + rhs.{c}.0@"))
    o += op("Mul", "mul", name, "Float", name, "true", mk("self.{c}.0@ * rhs.0@"))
    o += op("Mul", "mul", name, "&Float", name, "true", mk("self.{c}.0@ * rhs.0@"))
    o += op("Mul", "mul", "Float", name, name, "true", mk("self.0@ * rhs.{c}.0@"))
    o += op("Mul", "mul", "&Float", name, name, "true", mk("self.0@ * rhs.{c}.0@"))
    o += op("Div", "div", name, "Float", name, "vx_div_ok(rhs.0@)", mk("self.{c}.0@ / rhs.0@"))
    o += neg(name, mk("-self.{c}.0@"))
    dot = " + ".join(f"a.{c}.v() * b.{c}.v()" for c in cs)
    o += f"pub open spec fn dot{len(cs)}(a: {name}, b: {name}) -> real {{ {dot} }}\n"
    d2 = " + ".join(f"(a.{c}.v() - b.{c}.v()) * (a.{c}.v() - b.{c}.v())" for c in cs)
    o += f"pub open spec fn dist2_{len(cs)}(a: {name}, b: {name}) -> real {{ {d2} }}\n"
    n = len(cs)
    o += f"""impl {name} {{
    pub fn zero() -> (r: {name}) ensures r == {short}({", ".join("0real" for c in cs)}) {{ {mk("0real")} }}
    pub fn default() -> (r: {name}) ensures r == {short}({", ".join("0real" for c in cs)}) {{ {mk("0real")} }}
    pub fn new({", ".join(f"{c}: Float" for c in cs)}) -> (r: {name}) ensures r == ({name} {{ {", ".join(cs)} }}) {{ {name} {{ {", ".join(cs)} }} }}
    pub fn dot(self, o: {name}) -> (r: Float) ensures r == fl(dot{n}(self, o)) {{ Float(Ghost(dot{n}(self, o))) }}
    pub fn length_squared(self) -> (r: Float) ensures r == fl(dot{n}(self, self)) {{ Float(Ghost(dot{n}(self, self))) }}
    #[verifier::external_body]
    pub fn length(self) -> (r: Float) ensures r == fl(rsqrt(dot{n}(self, self))) {{ unimplemented!() }}
    pub fn distance_squared(self, o: {name}) -> (r: Float) ensures r == fl(dist2_{n}(self, o)) {{ Float(Ghost(dist2_{n}(self, o))) }}
    pub fn distance(self, o: {name}) -> (r: Float) ensures r == fl(rsqrt(dist2_{n}(self, o))) {{ Float(Ghost(rsqrt(dist2_{n}(self, o)))) }}
    pub fn lerp(self, o: {name}, s: Float) -> (r: {name})
        ensures {", ".join(f"r.{c}.v() == self.{c}.v() + (o.{c}.v() - self.{c}.v()) * s.v()" for c in cs)}
    {{ {mk("self.{c}.0@ + (o.{c}.0@ - self.{c}.0@) * s.0@")} }}
    #[verifier::external_body]
    pub fn normalize(self) -> (r: {name})
        requires vx_div_ok(dot{n}(self, self))
        ensures {", ".join(f"r.{c}.v() == self.{c}.v() / rsqrt(dot{n}(self, self))" for c in cs)}
    {{ unimplemented!() }}
    pub fn vx_clone(&self) -> (r: {name}) ensures r == *self {{ *self }}
    // "not a number" is an abstract property of the value here: it only says the point is undefined
    pub uninterp spec fn undef(self) -> bool;
    #[verifier::external_body]
    pub fn is_nan(self) -> (r: bool) ensures r == self.undef() {{ unimplemented!() }}
    pub uninterp spec fn finite(self) -> bool;
    #[verifier::external_body]
    pub fn is_finite(self) -> (r: bool) ensures r == self.finite() {{ unimplemented!() }}
"""
    if n == 2:
        o += f"""    pub fn perp(self) -> (r: {name}) ensures r == p2(-self.y.v(), self.x.v()) {{ {name} {{ x: Float(Ghost(-self.y.0@)), y: self.x }} }}
    pub fn perp_dot(self, o: {name}) -> (r: Float) ensures r == fl(self.x.v() * o.y.v() - self.y.v() * o.x.v()) {{ Float(Ghost(self.x.0@ * o.y.0@ - self.y.0@ * o.x.0@)) }}
    pub fn extend(self, z: Float) -> (r: Point3) ensures r == (Point3 {{ x: self.x, y: self.y, z: z }}) {{ Point3 {{ x: self.x, y: self.y, z }} }}
"""
    if n == 3:
        o += f"""    pub fn cross(self, o: {name}) -> (r: {name}) ensures r == cross3(self, o) {{ {name} {{
        x: Float(Ghost(self.y.0@ * o.z.0@ - self.z.0@ * o.y.0@)), y: Float(Ghost(self.z.0@ * o.x.0@ - self.x.0@ * o.z.0@)), z: Float(Ghost(self.x.0@ * o.y.0@ - self.y.0@ * o.x.0@)) }} }}
    pub fn truncate(self) -> (r: Point2) ensures r == (Point2 {{ x: self.x, y: self.y }}) {{ Point2 {{ x: self.x, y: self.y }} }}
    pub fn extend(self, w: Float) -> (r: Point4) ensures r == (Point4 {{ x: self.x, y: self.y, z: self.z, w: w }}) {{ Point4 {{ x: self.x, y: self.y, z: self.z, w }} }}
"""
    if n == 4:
        o += f"""    pub fn truncate(self) -> (r: Point3) ensures r == (Point3 {{ x: self.x, y: self.y, z: self.z }}) {{ Point3 {{ x: self.x, y: self.y, z: self.z }} }}
"""
    o += "}\n"
    return o

g = "// Exact-real stand-ins for glam DVec2/DVec3/DVec4 (documented glam 0.14 semantics).\n"
g += "pub type Vec2 = Point2;\npub type Vec3 = Point3;\npub type Vec4 = Point4;\n"
g += P("Point2", ["x","y"])
g += P("Point3", ["x","y","z"])
g += """pub open spec fn cross3(a: Point3, b: Point3) -> Point3 { p3(a.y.v() * b.z.v() - a.z.v() * b.y.v(), a.z.v() * b.x.v() - a.x.v() * b.z.v(), a.x.v() * b.y.v() - a.y.v() * b.x.v()) }
"""
g += P("Point4", ["x","y","z","w"])
open(os.path.join(D, "points.rs"), "w").write(g)
