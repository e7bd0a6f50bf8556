//@ raw
// polynomial identities over the reals, in steps small enough for the solver
pub proof fn al_ac(a: real, b: real, c: real) ensures (a * b) * c == (a * c) * b { assert((a * b) * c == (a * c) * b) by(nonlinear_arith); }
pub proof fn al_as(a: real, b: real, c: real) ensures (a * b) * c == a * (b * c) { assert((a * b) * c == a * (b * c)) by(nonlinear_arith); }
pub proof fn al_c(a: real, b: real) ensures a * b == b * a { assert(a * b == b * a) by(nonlinear_arith); }
pub proof fn al_m(y: real, x: real, s: real) ensures y * (x * s) == (x * y) * s { assert(y * (x * s) == (x * y) * s) by(nonlinear_arith); }
pub proof fn al_d(a: real, b: real, c: real) ensures (a + b) * c == a * c + b * c { assert((a + b) * c == a * c + b * c) by(nonlinear_arith); }
pub proof fn al_ds(a: real, b: real, c: real) ensures (a - b) * c == a * c - b * c { assert((a - b) * c == a * c - b * c) by(nonlinear_arith); }
pub proof fn al_l(a: real, b: real, c: real) ensures a * (b + c) == a * b + a * c { assert(a * (b + c) == a * b + a * c) by(nonlinear_arith); }
pub proof fn al_ls(a: real, b: real, c: real) ensures a * (b - c) == a * b - a * c { assert(a * (b - c) == a * b - a * c) by(nonlinear_arith); }
pub proof fn al_x(a: real, b: real, c: real, d: real) ensures (a * b) * (c * d) == (a * c) * (b * d) { assert((a * b) * (c * d) == (a * c) * (b * d)) by(nonlinear_arith); }
pub proof fn al_d3(a: real, b: real, c: real, k: real) ensures (a + b + c) * k == a * k + b * k + c * k { assert((a + b + c) * k == a * k + b * k + c * k) by(nonlinear_arith); }
pub proof fn al_sq(p: real, q: real) ensures (p + q) * (p + q) == p * p + 2real * (p * q) + q * q { assert((p + q) * (p + q) == p * p + 2real * (p * q) + q * q) by(nonlinear_arith); }
pub proof fn al_dist1(p: real, q: real, w: real, c: real, s: real) ensures (p * c + q * s) * w == (p * w) * c + (q * w) * s { al_d(p * c, q * s, w); al_ac(p, c, w); al_ac(q, s, w); }
pub proof fn al_factor2(x1: real, x2: real, x3: real, s: real) ensures (x1 * s) * (x1 * s) + (x2 * s) * (x2 * s) + (x3 * s) * (x3 * s) == (x1 * x1 + x2 * x2 + x3 * x3) * (s * s)
{ al_x(x1, s, x1, s); al_x(x2, s, x2, s); al_x(x3, s, x3, s); al_d3(x1 * x1, x2 * x2, x3 * x3, s * s); }
pub proof fn al_factor1(x1: real, x2: real, x3: real, y1: real, y2: real, y3: real, s: real) ensures y1 * (x1 * s) + y2 * (x2 * s) + y3 * (x3 * s) == (x1 * y1 + x2 * y2 + x3 * y3) * s
{ al_m(y1, x1, s); al_m(y2, x2, s); al_m(y3, x3, s); al_d3(x1 * y1, x2 * y2, x3 * y3, s); }
pub proof fn al_cr(a: real, b: real, c: real, d: real, s: real) ensures (a * s) * d - (b * s) * c == (a * d - b * c) * s { al_ac(a, s, d); al_ac(b, s, c); al_ds(a * d, b * c, s); }
pub proof fn al_split1(x: real, y: real, d: real) ensures x * (y - x * d) == y * x - (x * x) * d { al_ls(x, y, x * d); al_c(x, y); al_m(x, x, d); }
pub proof fn al_split(x1: real, x2: real, x3: real, y1: real, y2: real, y3: real, d: real)
    ensures x1 * (y1 - x1 * d) + x2 * (y2 - x2 * d) + x3 * (y3 - x3 * d) == (y1 * x1 + y2 * x2 + y3 * x3) - (x1 * x1 + x2 * x2 + x3 * x3) * d
{ al_split1(x1, y1, d); al_split1(x2, y2, d); al_split1(x3, y3, d); al_d3(x1 * x1, x2 * x2, x3 * x3, d); }
pub proof fn al_sq_sum(x: real, y: real, c: real, s: real) ensures (x * c + y * s) * (x * c + y * s) == (x * x) * (c * c) + 2real * ((x * y) * (c * s)) + (y * y) * (s * s)
{ al_sq(x * c, y * s); al_x(x, c, x, c); al_x(x, c, y, s); al_x(y, s, y, s); }
proof fn al_orth1(a1: real, a2: real, a3: real, b1: real, b2: real, b3: real)
    ensures a1 * (a2 * b3 - a3 * b2) + a2 * (a3 * b1 - a1 * b3) + a3 * (a1 * b2 - a2 * b1) == 0real
{
    al_ls(a1, a2 * b3, a3 * b2); al_ls(a2, a3 * b1, a1 * b3); al_ls(a3, a1 * b2, a2 * b1);
    al_m(a1, a2, b3); al_m(a1, a3, b2); al_m(a2, a3, b1); al_m(a2, a1, b3); al_m(a3, a1, b2); al_m(a3, a2, b1); al_c(a1, a2); al_c(a1, a3); al_c(a2, a3);
}
pub proof fn al_orth(a1: real, a2: real, a3: real, b1: real, b2: real, b3: real)
    ensures a1 * (a2 * b3 - a3 * b2) + a2 * (a3 * b1 - a1 * b3) + a3 * (a1 * b2 - a2 * b1) == 0real, b1 * (a2 * b3 - a3 * b2) + b2 * (a3 * b1 - a1 * b3) + b3 * (a1 * b2 - a2 * b1) == 0real
{
    al_orth1(a1, a2, a3, b1, b2, b3); al_orth1(b1, b2, b3, a1, a2, a3);
    al_c(a2, b3); al_c(a3, b2); al_c(a3, b1); al_c(a1, b3); al_c(a1, b2); al_c(a2, b1);
    al_ls(b1, a2 * b3, a3 * b2); al_ls(b2, a3 * b1, a1 * b3); al_ls(b3, a1 * b2, a2 * b1); al_ls(b1, b2 * a3, b3 * a2); al_ls(b2, b3 * a1, b1 * a3); al_ls(b3, b1 * a2, b2 * a1);
}
