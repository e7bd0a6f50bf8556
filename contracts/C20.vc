//@ include div_strict.rs float.rs points.rs std.rs
//@ set nl=off
//@ use lib_pred.vc lib_dist.vc
//@ raw
/// signed double area of the triangle p, a, b
pub open spec fn tri(p: Point2, a: Point2, b: Point2) -> real { (a.x.v() - p.x.v()) * (b.y.v() - p.y.v()) - (a.y.v() - p.y.v()) * (b.x.v() - p.x.v()) }
pub open spec fn tol_in(x: real) -> bool { x >= 0real || near_r(x, 0real) }
//@ fn Point2::is_inside_triangle params=a,b,c ret=r
    ensures r == (tol_in(tri(*self, a, b)) && tol_in(tri(*self, b, c)) && tol_in(tri(*self, c, a)))
//@ fn is_inside_triangle params=a,b,c,p ret=r
    ensures r == (tri(p, a, b) >= 0real && tri(p, b, c) >= 0real && tri(p, c, a) >= 0real)
//@ raw
/// for a counter-clockwise triangle the three sign conditions say exactly that p is a convex combination of the corners
pub open spec fn comb2(l: real, m: real, n: real, a: Point2, b: Point2, c: Point2) -> Point2 { p2(l * a.x.v() + m * b.x.v() + n * c.x.v(), l * a.y.v() + m * b.y.v() + n * c.y.v()) }
pub open spec fn in_hull(p: Point2, a: Point2, b: Point2, c: Point2) -> bool {
    exists|l: real, m: real, n: real| l >= 0real && m >= 0real && n >= 0real && l + m + n == 1real && p == #[trigger] comb2(l, m, n, a, b, c)
}
proof fn lemma_bary_x(px: real, py: real, ax: real, ay: real, bx: real, by: real, cx: real, cy: real)
    ensures
        ((bx - px) * (cy - py) - (by - py) * (cx - px)) * (ax - px) + ((cx - px) * (ay - py) - (cy - py) * (ax - px)) * (bx - px) + ((ax - px) * (by - py) - (ay - py) * (bx - px)) * (cx - px) == 0real,
{
    let (ux, uy, vx, vy, wx, wy) = (ax - px, ay - py, bx - px, by - py, cx - px, cy - py);
    lemma_tri_zero(ux, uy, vx, vy, wx, wy);
}
proof fn lemma_tri_zero(ux: real, uy: real, vx: real, vy: real, wx: real, wy: real)
    ensures (vx * wy - vy * wx) * ux + (wx * uy - wy * ux) * vx + (ux * vy - uy * vx) * wx == 0real
{
    assert((vx * wy - vy * wx) * ux == vx * wy * ux - vy * wx * ux) by(nonlinear_arith);
    assert((wx * uy - wy * ux) * vx == wx * uy * vx - wy * ux * vx) by(nonlinear_arith);
    assert((ux * vy - uy * vx) * wx == ux * vy * wx - uy * vx * wx) by(nonlinear_arith);
    assert(vx * wy * ux == wy * ux * vx && vy * wx * ux == ux * vy * wx && wx * uy * vx == uy * vx * wx) by(nonlinear_arith);
}
proof fn lemma_bary_sum(px: real, py: real, ax: real, ay: real, bx: real, by: real, cx: real, cy: real)
    ensures ((ax - px) * (by - py) - (ay - py) * (bx - px)) + ((bx - px) * (cy - py) - (by - py) * (cx - px)) + ((cx - px) * (ay - py) - (cy - py) * (ax - px)) == (bx - ax) * (cy - ay) - (by - ay) * (cx - ax)
{
    lemma_exp2(ax, px, by, py); lemma_exp2(ay, py, bx, px); lemma_exp2(bx, px, cy, py); lemma_exp2(by, py, cx, px); lemma_exp2(cx, px, ay, py); lemma_exp2(cy, py, ax, px);
    lemma_exp2(bx, ax, cy, ay); lemma_exp2(by, ay, cx, ax);
    lemma_comm(px, ay); lemma_comm(px, by); lemma_comm(px, cy); lemma_comm(py, ax); lemma_comm(py, bx); lemma_comm(py, cx); lemma_comm(px, py); lemma_comm(ax, ay); lemma_comm(ax, by); lemma_comm(ax, cy); lemma_comm(bx, ay); lemma_comm(cx, ay);
}
proof fn lemma_exp2(a: real, b: real, c: real, d: real) ensures (a - b) * (c - d) == a * c - a * d - b * c + b * d { assert((a - b) * (c - d) == a * c - a * d - b * c + b * d) by(nonlinear_arith); }
proof fn lemma_comm(a: real, b: real) ensures a * b == b * a { assert(a * b == b * a) by(nonlinear_arith); }
/// l a + m b + n c == p from the three areas
proof fn lemma_bary_coord(l: real, m: real, n: real, s: real, a: real, b: real, c: real, p: real)
    requires s > 0real, l + m + n == s, l * (a - p) + m * (b - p) + n * (c - p) == 0real
    ensures p == (l / s) * a + (m / s) * b + (n / s) * c
{
    lemma_exp2(a, p, l, 0real); lemma_exp2(b, p, m, 0real); lemma_exp2(c, p, n, 0real);
    lemma_comm(l, a - p); lemma_comm(m, b - p); lemma_comm(n, c - p); lemma_comm(a, l); lemma_comm(b, m); lemma_comm(c, n);
    assert((l + m + n) * p == l * p + m * p + n * p) by(nonlinear_arith); lemma_comm(p, l); lemma_comm(p, m); lemma_comm(p, n);
    assert(l * a + m * b + n * c == s * p);
    lemma_div_mul(l, s); lemma_div_mul(m, s); lemma_div_mul(n, s);
    let (x, y, z) = (l / s, m / s, n / s);
    assert(l * a == s * (x * a)) by(nonlinear_arith) requires x * s == l;
    assert(m * b == s * (y * b)) by(nonlinear_arith) requires y * s == m;
    assert(n * c == s * (z * c)) by(nonlinear_arith) requires z * s == n;
    assert(s * (x * a) + s * (y * b) + s * (z * c) == s * (x * a + y * b + z * c)) by(nonlinear_arith);
    assert(p == x * a + y * b + z * c) by(nonlinear_arith) requires s * p == s * (x * a + y * b + z * c), s > 0real;
}
proof fn lemma_nonneg_div(l: real, s: real) requires l >= 0real, s > 0real ensures l / s >= 0real { lemma_div_mul(l, s); assert(l / s >= 0real) by(nonlinear_arith) requires (l / s) * s == l, l >= 0real, s > 0real; }
proof fn lemma_frac_sum(l: real, m: real, n: real, s: real) requires s > 0real, l + m + n == s ensures l / s + m / s + n / s == 1real {
    lemma_div_mul(l, s); lemma_div_mul(m, s); lemma_div_mul(n, s);
    assert((l / s + m / s + n / s) * s == (l / s) * s + (m / s) * s + (n / s) * s) by(nonlinear_arith);
    let x = l / s + m / s + n / s; assert(x == 1real) by(nonlinear_arith) requires x * s == s, s > 0real;
}
pub proof fn theorem_inside_is_hull(p: Point2, a: Point2, b: Point2, c: Point2)
    requires tri(a, b, c) > 0real, tri(p, a, b) >= 0real, tri(p, b, c) >= 0real, tri(p, c, a) >= 0real
    ensures in_hull(p, a, b, c)
{
    let (l, m, n, s) = (tri(p, b, c), tri(p, c, a), tri(p, a, b), tri(a, b, c));
    lemma_bary_sum(p.x.v(), p.y.v(), a.x.v(), a.y.v(), b.x.v(), b.y.v(), c.x.v(), c.y.v());
    lemma_bary_x(p.x.v(), p.y.v(), a.x.v(), a.y.v(), b.x.v(), b.y.v(), c.x.v(), c.y.v());
    lemma_bary_x(p.y.v(), p.x.v(), a.y.v(), a.x.v(), b.y.v(), b.x.v(), c.y.v(), c.x.v());
    lemma_neg3(p.x.v(), p.y.v(), a.x.v(), a.y.v(), b.x.v(), b.y.v(), c.x.v(), c.y.v());
    lemma_bary_coord(l, m, n, s, a.x.v(), b.x.v(), c.x.v(), p.x.v());
    lemma_bary_coord(l, m, n, s, a.y.v(), b.y.v(), c.y.v(), p.y.v());
    lemma_nonneg_div(l, s); lemma_nonneg_div(m, s); lemma_nonneg_div(n, s); lemma_frac_sum(l, m, n, s);
    assert(p == comb2(l / s, m / s, n / s, a, b, c));
}
proof fn lemma_neg3(px: real, py: real, ax: real, ay: real, bx: real, by: real, cx: real, cy: real)
    ensures ({ let (l, m, n) = ((bx - px) * (cy - py) - (by - py) * (cx - px), (cx - px) * (ay - py) - (cy - py) * (ax - px), (ax - px) * (by - py) - (ay - py) * (bx - px));
        l * (ay - py) + m * (by - py) + n * (cy - py) == 0real })
{
    lemma_tri_zero(ay - py, ax - px, by - py, bx - px, cy - py, cx - px);
    let (l, m, n) = ((bx - px) * (cy - py) - (by - py) * (cx - px), (cx - px) * (ay - py) - (cy - py) * (ax - px), (ax - px) * (by - py) - (ay - py) * (bx - px));
    lemma_comm(bx - px, cy - py); lemma_comm(by - py, cx - px); lemma_comm(cx - px, ay - py); lemma_comm(cy - py, ax - px); lemma_comm(ax - px, by - py); lemma_comm(ay - py, bx - px);
    let (l2, m2, n2) = ((by - py) * (cx - px) - (bx - px) * (cy - py), (cy - py) * (ax - px) - (cx - px) * (ay - py), (ay - py) * (bx - px) - (ax - px) * (by - py));
    assert(l2 == -l && m2 == -m && n2 == -n);
    assert(l2 * (ay - py) == -(l * (ay - py))) by(nonlinear_arith) requires l2 == -l;
    assert(m2 * (by - py) == -(m * (by - py))) by(nonlinear_arith) requires m2 == -m;
    assert(n2 * (cy - py) == -(n * (cy - py))) by(nonlinear_arith) requires n2 == -n;
}
/// a combination of the corners passes the sign conditions: tri(p, a, b) == n * tri(a, b, c) etc.
proof fn lemma_tri_comb(l: real, m: real, n: real, a: Point2, b: Point2, c: Point2)
    requires l + m + n == 1real
    ensures tri(comb2(l, m, n, a, b, c), a, b) == n * tri(a, b, c)
{
    let p = comb2(l, m, n, a, b, c);
    let (ux, uy, vx, vy) = (b.x.v() - a.x.v(), b.y.v() - a.y.v(), c.x.v() - a.x.v(), c.y.v() - a.y.v());
    // p - a == m u + n v
    lemma_affine(l, m, n, a.x.v(), b.x.v(), c.x.v()); lemma_affine(l, m, n, a.y.v(), b.y.v(), c.y.v());
    let (qx, qy) = (m * ux + n * vx, m * uy + n * vy);
    assert(a.x.v() - p.x.v() == -qx && a.y.v() - p.y.v() == -qy && b.x.v() - p.x.v() == ux - qx && b.y.v() - p.y.v() == uy - qy);
    lemma_exp2(0real, qx, uy, qy); lemma_exp2(0real, qy, ux, qx); lemma_comm(qx, qy);
    assert(tri(p, a, b) == qy * ux - qx * uy);
    assert(qy * ux == m * uy * ux + n * (vy * ux)) by(nonlinear_arith) requires qy == m * uy + n * vy;
    assert(qx * uy == m * ux * uy + n * (vx * uy)) by(nonlinear_arith) requires qx == m * ux + n * vx;
    assert(m * uy * ux == m * ux * uy) by(nonlinear_arith);
    lemma_comm(vy, ux); lemma_comm(vx, uy);
    lemma_exp2(n, 0real, ux * vy, uy * vx);
    assert(n * (vy * ux) == n * (ux * vy) && n * (vx * uy) == n * (uy * vx));
}
proof fn lemma_affine(l: real, m: real, n: real, a: real, b: real, c: real)
    requires l + m + n == 1real
    ensures l * a + m * b + n * c - a == m * (b - a) + n * (c - a)
{ lemma_exp2(m, 0real, b, a); lemma_exp2(n, 0real, c, a); assert((l + m + n) * a == l * a + m * a + n * a) by(nonlinear_arith); assert(1real * a == a); }
pub proof fn theorem_hull_is_inside(p: Point2, a: Point2, b: Point2, c: Point2)
    requires tri(a, b, c) >= 0real, in_hull(p, a, b, c)
    ensures tri(p, a, b) >= 0real, tri(p, b, c) >= 0real, tri(p, c, a) >= 0real
{
    let (l, m, n) = choose|l: real, m: real, n: real| l >= 0real && m >= 0real && n >= 0real && l + m + n == 1real && p == #[trigger] comb2(l, m, n, a, b, c);
    lemma_tri_comb(l, m, n, a, b, c); lemma_tri_comb(m, n, l, b, c, a); lemma_tri_comb(n, l, m, c, a, b);
    assert(comb2(m, n, l, b, c, a) == p && comb2(n, l, m, c, a, b) == p);
    lemma_bary_sum(a.x.v(), a.y.v(), a.x.v(), a.y.v(), b.x.v(), b.y.v(), c.x.v(), c.y.v());
    lemma_bary_sum(b.x.v(), b.y.v(), a.x.v(), a.y.v(), b.x.v(), b.y.v(), c.x.v(), c.y.v());
    lemma_bary_sum(c.x.v(), c.y.v(), a.x.v(), a.y.v(), b.x.v(), b.y.v(), c.x.v(), c.y.v());
    assert(tri(b, c, a) == tri(a, b, c) && tri(c, a, b) == tri(a, b, c));
    let s = tri(a, b, c);
    assert(l * s >= 0real) by(nonlinear_arith) requires l >= 0real, s >= 0real;
    assert(m * s >= 0real) by(nonlinear_arith) requires m >= 0real, s >= 0real;
    assert(n * s >= 0real) by(nonlinear_arith) requires n >= 0real, s >= 0real;
}
//@ raw
pub open spec fn boxes_meet(a: Point2, b: Point2, c: Point2, d: Point2) -> bool {
    &&& rmin(a.x.v(), b.x.v()) <= rmax(c.x.v(), d.x.v()) && rmin(c.x.v(), d.x.v()) <= rmax(a.x.v(), b.x.v())
    &&& rmin(a.y.v(), b.y.v()) <= rmax(c.y.v(), d.y.v()) && rmin(c.y.v(), d.y.v()) <= rmax(a.y.v(), b.y.v())
}
/// a and b do not lie strictly on one side of the line cd
pub open spec fn not_one_side(x: real, y: real) -> bool { !(x > 0real && y > 0real) && !(x < 0real && y < 0real) }
pub open spec fn seg_test(a: Point2, b: Point2, c: Point2, d: Point2) -> bool {
    boxes_meet(a, b, c, d) && not_one_side(tri(a, c, d), tri(b, c, d)) && not_one_side(tri(c, a, b), tri(d, a, b))
}
pub proof fn lemma_sign(x: real, y: real) ensures x * y < 0real <==> ((x > 0real && y < 0real) || (x < 0real && y > 0real)), (-x) * y == -(x * y), x * (-y) == -(x * y), (-x) * (-y) == x * y
{ assert(x * y < 0real <==> ((x > 0real && y < 0real) || (x < 0real && y > 0real))) by(nonlinear_arith); assert((-x) * y == -(x * y)) by(nonlinear_arith); assert(x * (-y) == -(x * y)) by(nonlinear_arith); assert((-x) * (-y) == x * y) by(nonlinear_arith); }
/// the sign of a product of two floats, available wherever the code multiplies
pub broadcast proof fn lemma_sign_b(x: Float, y: Float) ensures (#[trigger] vstd::std_specs::ops::MulSpec::mul_spec(x, y)).v() < 0real <==> ((x.v() > 0real && y.v() < 0real) || (x.v() < 0real && y.v() > 0real)), vstd::std_specs::ops::MulSpec::mul_spec(x, y).v() > 0real <==> ((x.v() > 0real && y.v() > 0real) || (x.v() < 0real && y.v() < 0real)) { lemma_sign(x.v(), y.v()); lemma_sign(x.v(), -y.v()); }
/// the orientation of three points is alternating
pub proof fn lemma_tri_alt(p: Point2, a: Point2, b: Point2)
    ensures tri(p, b, a) == -tri(p, a, b), tri(a, b, p) == tri(p, a, b), tri(b, p, a) == tri(p, a, b), tri(a, p, b) == -tri(p, a, b), tri(b, a, p) == -tri(p, a, b)
{
    lemma_comm(a.x.v() - p.x.v(), b.y.v() - p.y.v()); lemma_comm(a.y.v() - p.y.v(), b.x.v() - p.x.v());
    lemma_bary_sum(p.x.v(), p.y.v(), p.x.v(), p.y.v(), a.x.v(), a.y.v(), b.x.v(), b.y.v());
    lemma_bary_sum(a.x.v(), a.y.v(), p.x.v(), p.y.v(), a.x.v(), a.y.v(), b.x.v(), b.y.v());
    lemma_bary_sum(b.x.v(), b.y.v(), p.x.v(), p.y.v(), a.x.v(), a.y.v(), b.x.v(), b.y.v());
    lemma_comm(p.x.v() - a.x.v(), b.y.v() - a.y.v()); lemma_comm(p.y.v() - a.y.v(), b.x.v() - a.x.v());
    lemma_comm(p.x.v() - b.x.v(), a.y.v() - b.y.v()); lemma_comm(p.y.v() - b.y.v(), a.x.v() - b.x.v());
}
proof fn lemma_tri_all(p: Point2, a: Point2, b: Point2)
    ensures tri(p, a, b) == (a.x.v() - p.x.v()) * (b.y.v() - p.y.v()) - (a.y.v() - p.y.v()) * (b.x.v() - p.x.v()),
        tri(p, b, a) == -tri(p, a, b), tri(a, b, p) == tri(p, a, b), tri(b, p, a) == tri(p, a, b), tri(a, p, b) == -tri(p, a, b), tri(b, a, p) == -tri(p, a, b),
        tri(b, p, a) == (p.x.v() - b.x.v()) * (a.y.v() - b.y.v()) - (p.y.v() - b.y.v()) * (a.x.v() - b.x.v()),
        tri(p, b, a) == (b.x.v() - p.x.v()) * (a.y.v() - p.y.v()) - (b.y.v() - p.y.v()) * (a.x.v() - p.x.v()),
        tri(p, a, b) == (p.x.v() - a.x.v()) * (p.y.v() - b.y.v()) - (p.y.v() - a.y.v()) * (p.x.v() - b.x.v()),
        tri(p, b, a) == (p.x.v() - b.x.v()) * (p.y.v() - a.y.v()) - (p.y.v() - b.y.v()) * (p.x.v() - a.x.v()),
{
    lemma_tri_alt(p, a, b);
    lemma_negneg(p.x.v(), a.x.v(), p.y.v(), b.y.v()); lemma_negneg(p.y.v(), a.y.v(), p.x.v(), b.x.v());
    lemma_negneg(p.x.v(), b.x.v(), p.y.v(), a.y.v()); lemma_negneg(p.y.v(), b.y.v(), p.x.v(), a.x.v());
}
proof fn lemma_negneg(a: real, b: real, c: real, d: real) ensures (a - b) * (c - d) == (b - a) * (d - c) { lemma_exp2(a, b, c, d); lemma_exp2(b, a, d, c); }
//@ fn is_segments_intersect params=a,b,c,d ret=r
    ensures r == seg_test(a, b, c, d)
//@ ghost start
    broadcast use lemma_sign_b;
    proof { lemma_tri_all(a, c, d); lemma_tri_all(b, c, d); lemma_tri_all(c, a, b); lemma_tri_all(d, a, b); }
//@ raw
/// the point of the segment at s
pub open spec fn on_seg(a: Point2, b: Point2, s: real) -> Point2 { p2(a.x.v() + s * (b.x.v() - a.x.v()), a.y.v() + s * (b.y.v() - a.y.v())) }
pub open spec fn share(a: Point2, b: Point2, c: Point2, d: Point2) -> bool {
    exists|s: real, t: real| 0real <= s <= 1real && 0real <= t <= 1real && #[trigger] on_seg(a, b, s) == #[trigger] on_seg(c, d, t)
}
proof fn lemma_between(a: real, b: real, s: real) requires 0real <= s <= 1real ensures rmin(a, b) <= a + s * (b - a) <= rmax(a, b)
{ assert(b >= a ==> 0real <= s * (b - a) <= b - a) by(nonlinear_arith) requires 0real <= s <= 1real; assert(b <= a ==> 0real >= s * (b - a) >= b - a) by(nonlinear_arith) requires 0real <= s <= 1real; }
/// the orientation is affine along a segment
proof fn lemma_tri_affine(a: Point2, b: Point2, c: Point2, d: Point2, s: real)
    ensures tri(on_seg(a, b, s), c, d) == tri(a, c, d) + s * (tri(b, c, d) - tri(a, c, d))
{
    let q = on_seg(a, b, s);
    let (ux, uy) = (b.x.v() - a.x.v(), b.y.v() - a.y.v()); let (wx, wy) = (d.x.v() - c.x.v(), d.y.v() - c.y.v());
    // tri(p, c, d) == (c - p) x (d - c)
    lemma_tri_edge(q, c, d); lemma_tri_edge(a, c, d); lemma_tri_edge(b, c, d);
    lemma_exp2(c.x.v() - a.x.v(), s * ux, wy, 0real); lemma_exp2(c.y.v() - a.y.v(), s * uy, wx, 0real);
    lemma_exp2(c.x.v() - a.x.v(), ux, wy, 0real); lemma_exp2(c.y.v() - a.y.v(), uy, wx, 0real);
    assert(s * ux * wy == s * (ux * wy)) by(nonlinear_arith); assert(s * uy * wx == s * (uy * wx)) by(nonlinear_arith);
    lemma_exp2(s, 0real, uy * wx, ux * wy);
    assert(tri(b, c, d) - tri(a, c, d) == uy * wx - ux * wy);
}
proof fn lemma_tri_edge(p: Point2, c: Point2, d: Point2)
    ensures tri(p, c, d) == (c.x.v() - p.x.v()) * (d.y.v() - c.y.v()) - (c.y.v() - p.y.v()) * (d.x.v() - c.x.v())
{
    let (x, y) = (c.x.v() - p.x.v(), c.y.v() - p.y.v()); let (wx, wy) = (d.x.v() - c.x.v(), d.y.v() - c.y.v());
    lemma_ldist(x, y, wy); lemma_ldist(y, x, wx); lemma_comm(x, y);
    assert(d.y.v() - p.y.v() == y + wy && d.x.v() - p.x.v() == x + wx);
}
proof fn lemma_on_own(a: Point2, b: Point2, s: real) ensures tri(on_seg(a, b, s), a, b) == 0real {
    lemma_tri_affine(a, b, a, b, s); lemma_tri_edge(a, a, b); lemma_tri_edge(b, a, b);
    lemma_comm(a.x.v() - b.x.v(), b.y.v() - a.y.v()); assert((a.x.v() - b.x.v()) * (b.y.v() - a.y.v()) == (a.y.v() - b.y.v()) * (b.x.v() - a.x.v())) by(nonlinear_arith);
    assert(0real * (b.y.v() - a.y.v()) == 0real && 0real * (b.x.v() - a.x.v()) == 0real); assert(s * (0real - 0real) == 0real);
}
proof fn lemma_mix(x: real, y: real, s: real) requires 0real <= s <= 1real, x + s * (y - x) == 0real ensures not_one_side(x, y)
{
    assert(x + s * (y - x) == (1real - s) * x + s * y) by(nonlinear_arith);
    assert((x > 0real && y > 0real) ==> (1real - s) * x + s * y > 0real) by(nonlinear_arith) requires 0real <= s <= 1real;
    assert((x < 0real && y < 0real) ==> (1real - s) * x + s * y < 0real) by(nonlinear_arith) requires 0real <= s <= 1real;
}
/// never misses: two segments sharing a point pass the test
pub proof fn theorem_share_detected(a: Point2, b: Point2, c: Point2, d: Point2)
    requires share(a, b, c, d)
    ensures seg_test(a, b, c, d)
{
    let (s, t) = choose|s: real, t: real| 0real <= s <= 1real && 0real <= t <= 1real && #[trigger] on_seg(a, b, s) == #[trigger] on_seg(c, d, t);
    let q = on_seg(a, b, s);
    lemma_between(a.x.v(), b.x.v(), s); lemma_between(a.y.v(), b.y.v(), s); lemma_between(c.x.v(), d.x.v(), t); lemma_between(c.y.v(), d.y.v(), t);
    lemma_on_own(a, b, s); lemma_on_own(c, d, t);
    lemma_tri_affine(a, b, c, d, s); lemma_tri_affine(c, d, a, b, t);
    lemma_mix(tri(a, c, d), tri(b, c, d), s); lemma_mix(tri(c, a, b), tri(d, a, b), t);
}
/// never invents: a positive answer for segments that are not parallel means they share a point
proof fn lemma_ratio(x: real, y: real) requires not_one_side(x, y), x != y ensures ({ let s = x / (x - y); 0real <= s <= 1real && x + s * (y - x) == 0real && s * (x - y) == x })
{
    let s = x / (x - y); let w = x - y;
    assert(s * w == x) by(nonlinear_arith) requires s == x / w, w != 0real;
    assert(s * (y - x) == -(s * w)) by(nonlinear_arith) requires w == x - y;
    assert(0real <= s <= 1real) by(nonlinear_arith) requires s * w == x, w == x - y, w != 0real, !(x > 0real && y > 0real), !(x < 0real && y < 0real);
}
/// a vector with zero cross product against two independent directions is zero
proof fn lemma_indep(qx: real, qy: real, ux: real, uy: real, wx: real, wy: real)
    requires qx * uy - qy * ux == 0real, qx * wy - qy * wx == 0real, ux * wy - uy * wx != 0real
    ensures qx == 0real, qy == 0real
{
    let k = ux * wy - uy * wx;
    let (e, f) = (qx * uy - qy * ux, qx * wy - qy * wx);
    // ux f - wx e == qx k,  uy f - wy e == qy k
    lemma_exp2(ux, 0real, qx * wy, qy * wx); lemma_exp2(wx, 0real, qx * uy, qy * ux); lemma_exp2(uy, 0real, qx * wy, qy * wx); lemma_exp2(wy, 0real, qx * uy, qy * ux);
    lemma_exp2(qx, 0real, ux * wy, uy * wx); lemma_exp2(qy, 0real, ux * wy, uy * wx);
    lemma_perm3(ux, qx, wy); lemma_perm3(ux, qy, wx); lemma_perm3(wx, qx, uy); lemma_perm3(uy, qx, wy); lemma_perm3(uy, qy, wx); lemma_perm3(wy, qy, ux);
    lemma_perm3(wx, qy, ux); lemma_perm3(wy, qx, uy); lemma_perm3(qx, uy, wx); lemma_perm3(qy, ux, wy);
    lemma_comm(uy, wx); lemma_comm(ux, wy);
    assert(ux * f == 0real && wx * e == 0real && uy * f == 0real && wy * e == 0real);
    assert(qx * k == ux * f - wx * e); assert(qy * k == uy * f - wy * e);
    lemma_zero_prod(qx, k); lemma_zero_prod(qy, k);
}
/// every order of a product of three
proof fn lemma_perm3(a: real, b: real, c: real) ensures a * (b * c) == b * (a * c), a * (b * c) == c * (a * b), a * (b * c) == a * (c * b), b * (a * c) == b * (c * a), c * (a * b) == c * (b * a)
{ assert(a * (b * c) == b * (a * c)) by(nonlinear_arith); assert(a * (b * c) == c * (a * b)) by(nonlinear_arith); lemma_comm(a, b); lemma_comm(b, c); lemma_comm(a, c); }
proof fn lemma_zero_prod(x: real, k: real) requires x * k == 0real, k != 0real ensures x == 0real { assert(x == 0real) by(nonlinear_arith) requires x * k == 0real, k != 0real; }
pub proof fn theorem_test_is_share(a: Point2, b: Point2, c: Point2, d: Point2)
    requires seg_test(a, b, c, d), (b.x.v() - a.x.v()) * (d.y.v() - c.y.v()) - (b.y.v() - a.y.v()) * (d.x.v() - c.x.v()) != 0real
    ensures share(a, b, c, d)
{
    let (ux, uy) = (b.x.v() - a.x.v(), b.y.v() - a.y.v()); let (wx, wy) = (d.x.v() - c.x.v(), d.y.v() - c.y.v());
    let (oa, ob, oc, od) = (tri(a, c, d), tri(b, c, d), tri(c, a, b), tri(d, a, b));
    lemma_tri_edge(a, c, d); lemma_tri_edge(b, c, d); lemma_tri_edge(c, a, b); lemma_tri_edge(d, a, b);
    lemma_exp2(c.x.v() - a.x.v(), c.x.v() - b.x.v(), wy, 0real); lemma_exp2(c.y.v() - a.y.v(), c.y.v() - b.y.v(), wx, 0real);
    lemma_exp2(a.x.v() - c.x.v(), a.x.v() - d.x.v(), uy, 0real); lemma_exp2(a.y.v() - c.y.v(), a.y.v() - d.y.v(), ux, 0real);
    assert((c.x.v() - a.x.v()) - (c.x.v() - b.x.v()) == ux && (c.y.v() - a.y.v()) - (c.y.v() - b.y.v()) == uy);
    assert((a.x.v() - c.x.v()) - (a.x.v() - d.x.v()) == wx && (a.y.v() - c.y.v()) - (a.y.v() - d.y.v()) == wy);
    assert(oa - ob == ux * wy - uy * wx);
    lemma_comm(wx, uy); lemma_comm(wy, ux);
    assert(oc - od == wx * uy - wy * ux);
    lemma_ratio(oa, ob); lemma_ratio(oc, od);
    let s = oa / (oa - ob); let t = oc / (oc - od);
    let p = on_seg(a, b, s); let q = on_seg(c, d, t);
    lemma_tri_affine(a, b, c, d, s); lemma_tri_affine(c, d, a, b, t);
    lemma_on_own(a, b, s); lemma_on_own(c, d, t);
    assert(tri(p, c, d) == 0real && tri(q, a, b) == 0real && tri(p, a, b) == 0real && tri(q, c, d) == 0real);
    lemma_tri_edge(p, c, d); lemma_tri_edge(q, c, d); lemma_tri_edge(p, a, b); lemma_tri_edge(q, a, b);
    let (qx, qy) = (q.x.v() - p.x.v(), q.y.v() - p.y.v());
    lemma_exp2(c.x.v() - p.x.v(), c.x.v() - q.x.v(), wy, 0real); lemma_exp2(c.y.v() - p.y.v(), c.y.v() - q.y.v(), wx, 0real);
    lemma_exp2(a.x.v() - p.x.v(), a.x.v() - q.x.v(), uy, 0real); lemma_exp2(a.y.v() - p.y.v(), a.y.v() - q.y.v(), ux, 0real);
    assert((c.x.v() - p.x.v()) - (c.x.v() - q.x.v()) == qx && (c.y.v() - p.y.v()) - (c.y.v() - q.y.v()) == qy);
    assert((a.x.v() - p.x.v()) - (a.x.v() - q.x.v()) == qx && (a.y.v() - p.y.v()) - (a.y.v() - q.y.v()) == qy);
    lemma_indep(qx, qy, ux, uy, wx, wy);
    assert(p == q);
    assert(on_seg(a, b, s) == on_seg(c, d, t));
}
