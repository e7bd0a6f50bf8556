//@ raw
pub open spec fn near_r(a: real, b: real) -> bool { rabs(a - b) <= 0.0000001real }
//@ fn Tolerance::near as=impl:Float params=other ret=r
    ensures r == near_r(self.v(), other.v())
//@ raw
pub open spec fn o2(a: Point2, b: Point2, c: Point2) -> real { (b.x.v() - a.x.v()) * (c.y.v() - a.y.v()) - (b.y.v() - a.y.v()) * (c.x.v() - a.x.v()) }
/// squared distance of p to the point of the segment a..b at t
pub open spec fn sd2(a: Point2, b: Point2, p: Point2, t: real) -> real {
    let (dx, dy) = (a.x.v() + t * (b.x.v() - a.x.v()) - p.x.v(), a.y.v() + t * (b.y.v() - a.y.v()) - p.y.v());
    dx * dx + dy * dy
}
pub open spec fn sd3(a: Point3, b: Point3, p: Point3, t: real) -> real {
    let (dx, dy, dz) = (a.x.v() + t * (b.x.v() - a.x.v()) - p.x.v(), a.y.v() + t * (b.y.v() - a.y.v()) - p.y.v(), a.z.v() + t * (b.z.v() - a.z.v()) - p.z.v());
    dx * dx + dy * dy + dz * dz
}
/// d is the distance of p to the segment: the square of d is attained at some t in [0,1] and a lower bound for all of them
pub open spec fn seg_dist2(d: real, a: Point2, b: Point2, p: Point2) -> bool {
    &&& d >= 0real
    &&& forall|t: real| 0real <= t <= 1real ==> d * d <= #[trigger] sd2(a, b, p, t)
    &&& exists|t: real| 0real <= t <= 1real && d * d == #[trigger] sd2(a, b, p, t)
}
pub open spec fn seg_dist3(d: real, a: Point3, b: Point3, p: Point3) -> bool {
    &&& d >= 0real
    &&& forall|t: real| 0real <= t <= 1real ==> d * d <= #[trigger] sd3(a, b, p, t)
    &&& exists|t: real| 0real <= t <= 1real && d * d == #[trigger] sd3(a, b, p, t)
}
/// the squared distance is the quadratic N - 2tP + t*t*A
pub open spec fn quad(n: real, p: real, a: real, t: real) -> real { n - 2real * t * p + t * t * a }
pub proof fn lemma_sd2(a: Point2, b: Point2, p: Point2, t: real)
    ensures sd2(a, b, p, t) == quad(dist2_2(p, a), dot2(sub2(p, a), sub2(b, a)), dist2_2(b, a), t)
{
    let (px, py) = (p.x.v() - a.x.v(), p.y.v() - a.y.v()); let (ux, uy) = (b.x.v() - a.x.v(), b.y.v() - a.y.v());
    assert(a.x.v() + t * (b.x.v() - a.x.v()) - p.x.v() == t * ux - px);
    assert(a.y.v() + t * (b.y.v() - a.y.v()) - p.y.v() == t * uy - py);
    lemma_quad1(t, ux, px); lemma_quad1(t, uy, py);
    lemma_ldist(t * t, ux * ux, uy * uy); lemma_ldist(2real * t, px * ux, py * uy);
}
pub proof fn lemma_sd3(a: Point3, b: Point3, p: Point3, t: real)
    ensures sd3(a, b, p, t) == quad(dist2_3(p, a), dot3(sub3(p, a), sub3(b, a)), dist2_3(b, a), t)
{
    let (px, py, pz) = (p.x.v() - a.x.v(), p.y.v() - a.y.v(), p.z.v() - a.z.v()); let (ux, uy, uz) = (b.x.v() - a.x.v(), b.y.v() - a.y.v(), b.z.v() - a.z.v());
    lemma_quad1(t, ux, px); lemma_quad1(t, uy, py); lemma_quad1(t, uz, pz);
    lemma_ldist(t * t, ux * ux, uy * uy); lemma_ldist(2real * t, px * ux, py * uy);
    lemma_ldist(t * t, ux * ux + uy * uy, uz * uz); lemma_ldist(2real * t, px * ux + py * uy, pz * uz);
}
proof fn lemma_quad1(t: real, u: real, p: real)
    ensures (t * u - p) * (t * u - p) == p * p - 2real * t * (p * u) + t * t * (u * u)
{
    let a = t * u;
    assert((a - p) * (a - p) == a * a - 2real * (a * p) + p * p) by(nonlinear_arith);
    assert(a * p == t * (p * u)) by(nonlinear_arith) requires a == t * u;
    assert(a * a == t * t * (u * u)) by(nonlinear_arith) requires a == t * u;
    assert(2real * t * (p * u) == 2real * (t * (p * u))) by(nonlinear_arith);
}
pub proof fn lemma_ldist(a: real, x: real, y: real) ensures a * (x + y) == a * x + a * y { assert(a * (x + y) == a * x + a * y) by(nonlinear_arith); }
pub open spec fn sub2(a: Point2, b: Point2) -> Point2 { p2(a.x.v() - b.x.v(), a.y.v() - b.y.v()) }
pub open spec fn sub3(a: Point3, b: Point3) -> Point3 { p3(a.x.v() - b.x.v(), a.y.v() - b.y.v(), a.z.v() - b.z.v()) }
/// where the minimum of the quadratic over [0,1] lies
pub proof fn lemma_quad_start(n: real, p: real, a: real, t: real)
    requires p <= 0real, a >= 0real, 0real <= t <= 1real
    ensures quad(n, p, a, t) >= n, quad(n, p, a, 0real) == n
{ assert(t * p <= 0real) by(nonlinear_arith) requires p <= 0real, t >= 0real; assert(t * t * a >= 0real) by(nonlinear_arith) requires a >= 0real, t >= 0real; assert(2real * t * p == 2real * (t * p)) by(nonlinear_arith); assert(0real * 0real * a == 0real) by(nonlinear_arith); assert(2real * 0real * p == 0real) by(nonlinear_arith); }
pub proof fn lemma_quad_end(n: real, p: real, a: real, t: real)
    requires p >= a, a >= 0real, 0real <= t <= 1real
    ensures quad(n, p, a, t) >= quad(n, p, a, 1real), quad(n, p, a, 1real) == n - 2real * p + a
{
    let s = 1real - t;
    lemma_quad1(1real, 1real, s); // (1-s)^2
    assert(t * t == 1real - 2real * s + s * s) by(nonlinear_arith) requires s == 1real - t;
    assert(t * t * a == a - 2real * s * a + s * s * a) by(nonlinear_arith) requires t * t == 1real - 2real * s + s * s;
    assert(2real * t * p == 2real * p - 2real * s * p) by(nonlinear_arith) requires s == 1real - t;
    assert(s * s * a >= 0real) by(nonlinear_arith) requires a >= 0real;
    assert(s * p >= s * a) by(nonlinear_arith) requires s >= 0real, p >= a;
    assert(2real * s * p == 2real * (s * p) && 2real * s * a == 2real * (s * a)) by(nonlinear_arith);
    assert(2real * 1real * p == 2real * p); assert(1real * 1real * a == a) by(nonlinear_arith);
}
pub proof fn lemma_quad_mid(n: real, p: real, a: real, t: real)
    requires 0real < p < a, 0real <= t <= 1real
    ensures quad(n, p, a, t) >= quad(n, p, a, p / a), quad(n, p, a, p / a) == n - p * p / a, 0real <= p / a <= 1real, quad(n, p, a, p / a) * a == n * a - p * p
{
    let m = p / a;
    assert(m * a == p) by(nonlinear_arith) requires m == p / a, a > 0real;
    assert(0real <= m <= 1real) by(nonlinear_arith) requires m * a == p, 0real < p < a;
    assert(p * p / a == m * p) by(nonlinear_arith) requires m == p / a, a > 0real;
    assert(m * m * a == m * p) by(nonlinear_arith) requires m * a == p;
    assert(quad(n, p, a, m) == n - m * p) by(nonlinear_arith) requires m * m * a == m * p, quad(n, p, a, m) == n - 2real * m * p + m * m * a;
    let d = t - m;
    assert(d * d * a >= 0real) by(nonlinear_arith) requires a > 0real;
    assert(quad(n, p, a, t) - (n - m * p) == d * d * a) by(nonlinear_arith) requires d == t - m, m * a == p, quad(n, p, a, t) == n - 2real * t * p + t * t * a;
    assert((n - m * p) * a == n * a - p * p) by(nonlinear_arith) requires m * a == p;
}
proof fn lemma_sqd(p: real, q: real) ensures (p - q) * (p - q) == p * p - 2real * (p * q) + q * q { assert((p - q) * (p - q) == p * p - 2real * (p * q) + q * q) by(nonlinear_arith); }
proof fn lemma_mulsq(x: real, v: real) ensures (x * v) * (x * v) == (x * x) * (v * v) { assert((x * v) * (x * v) == (x * x) * (v * v)) by(nonlinear_arith); }
proof fn lemma_swap4(x: real, v: real, y: real, u: real) ensures (x * v) * (y * u) == (x * u) * (y * v) { assert((x * v) * (y * u) == (x * u) * (y * v)) by(nonlinear_arith); }
proof fn lemma_sq3(p: real, q: real, r: real) ensures (p + q + r) * (p + q + r) == p * p + q * q + r * r + 2real * (p * q) + 2real * (p * r) + 2real * (q * r) { assert((p + q + r) * (p + q + r) == p * p + q * q + r * r + 2real * (p * q) + 2real * (p * r) + 2real * (q * r)) by(nonlinear_arith); }
proof fn lemma_mul33(a: real, b: real, c: real, x: real, y: real, z: real) ensures (a + b + c) * (x + y + z) == a * x + a * y + a * z + b * x + b * y + b * z + c * x + c * y + c * z { assert((a + b + c) * (x + y + z) == a * x + a * y + a * z + b * x + b * y + b * z + c * x + c * y + c * z) by(nonlinear_arith); }
/// Lagrange: |u x v|^2 == |u|^2 |v|^2 - (u.v)^2
proof fn lemma_cross_sq(x: real, v: real, y: real, u: real)
    ensures (x * v - y * u) * (x * v - y * u) == (x * x) * (v * v) + (y * y) * (u * u) - 2real * ((x * u) * (y * v))
{ lemma_sqd(x * v, y * u); lemma_mulsq(x, v); lemma_mulsq(y, u); lemma_swap4(x, v, y, u); }
pub proof fn lemma_lagrange2(x: real, y: real, u: real, v: real)
    ensures (x * v - y * u) * (x * v - y * u) == (x * x + y * y) * (u * u + v * v) - (x * u + y * v) * (x * u + y * v)
{
    lemma_cross_sq(x, v, y, u); lemma_sq3(x * u, y * v, 0real); lemma_mulsq(x, u); lemma_mulsq(y, v);
    lemma_mul33(x * x, y * y, 0real, u * u, v * v, 0real);
}
pub proof fn lemma_lagrange3(x: real, y: real, z: real, u: real, v: real, w: real)
    ensures (y * w - z * v) * (y * w - z * v) + (z * u - x * w) * (z * u - x * w) + (x * v - y * u) * (x * v - y * u) == (x * x + y * y + z * z) * (u * u + v * v + w * w) - (x * u + y * v + z * w) * (x * u + y * v + z * w)
{
    lemma_cross_sq(y, w, z, v); lemma_cross_sq(z, u, x, w); lemma_cross_sq(x, v, y, u);
    lemma_sq3(x * u, y * v, z * w); lemma_mulsq(x, u); lemma_mulsq(y, v); lemma_mulsq(z, w);
    lemma_mul33(x * x, y * y, z * z, u * u, v * v, w * w);
}
/// a quotient of a distance by a length
pub proof fn lemma_quot(c: real, l: real, a: real, m: real)
    requires l * l == a, a > 0real, l >= 0real, c >= 0real, c * c == m * a
    ensures c / l >= 0real, (c / l) * (c / l) == m, l > 0real
{
    assert(l > 0real) by(nonlinear_arith) requires l * l == a, a > 0real, l >= 0real;
    let q = c / l;
    assert(q * l == c) by(nonlinear_arith) requires q == c / l, l > 0real;
    assert(q >= 0real) by(nonlinear_arith) requires q * l == c, c >= 0real, l > 0real;
    assert((q * q) * a == m * a) by(nonlinear_arith) requires q * l == c, l * l == a, c * c == m * a;
    assert(q * q == m) by(nonlinear_arith) requires (q * q) * a == m * a, a > 0real;
}
pub proof fn lemma_sq_nonneg(x: real) ensures x * x >= 0real { assert(x * x >= 0real) by(nonlinear_arith); }
