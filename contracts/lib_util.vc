//@ raw
pub open spec fn udiv(b: real, e: real, n: int, i: int) -> real { if i >= n { e } else { b + (i as real) * ((e - b) / (n as real)) } }
/// evenly spaced from the exact begin to the exact end
pub proof fn theorem_even(b: real, e: real, n: int, i: int)
    requires n >= 1, 0 <= i <= n
    ensures udiv(b, e, n, 0) == b, udiv(b, e, n, n) == e, udiv(b, e, n, i) == b + (i as real) * ((e - b) / (n as real)),
        b <= e ==> b <= udiv(b, e, n, i) <= e, e <= b ==> e <= udiv(b, e, n, i) <= b,
{
    let m = n as real; let d = e - b; let s = d / m; let x = i as real;
    assert(m >= 1real && x >= 0real && x <= m);
    assert(m * s == d) by(nonlinear_arith) requires s == d / m, m >= 1real;
    if d >= 0real { assert(s >= 0real) by(nonlinear_arith) requires s == d / m, m >= 1real, d >= 0real; assert(0real <= x * s <= m * s) by(nonlinear_arith) requires s >= 0real, 0real <= x <= m; }
    if d <= 0real { assert(s <= 0real) by(nonlinear_arith) requires s == d / m, m >= 1real, d <= 0real; assert(0real >= x * s >= m * s) by(nonlinear_arith) requires s <= 0real, 0real <= x <= m; }
    assert(0real * s == 0real);
}
/// position of a cell in a row-major table
pub proof fn lemma_rm(a: int, b: int, i: int, m: int)
    requires 0 <= a < i, 0 <= b < m
    ensures 0 <= a * m + b < i * m, a * m + b < a * m + m, a * m + m <= i * m
{ assert(a * m + b < i * m && a * m >= 0 && a * m + m <= i * m) by(nonlinear_arith) requires 0 <= a < i, 0 <= b < m; }
pub proof fn lemma_rm_step(a: int, m: int)
    ensures (a + 1) * m == a * m + m
{ assert((a + 1) * m == a * m + m) by(nonlinear_arith); }
pub proof fn lemma_rm_div(a: int, b: int)
    requires b > 0, a >= 1
    ensures (a * b) % b == 0, (a * b) / b == a, a * b >= 1
{ vstd::arithmetic::div_mod::lemma_mod_multiples_basic(a, b); vstd::arithmetic::div_mod::lemma_div_by_multiple(a, b); assert(a * b >= b) by(nonlinear_arith) requires a >= 1, b >= 1; }
//@ fn uniform_divide params=range,division ret=r loops=1
    requires division >= 1, division < usize::MAX
    ensures r@.len() == division + 1, forall|i: int| 0 <= i <= division ==> #[trigger] r@[i].v() == udiv(range.0.v(), range.1.v(), division as int, i),
        r@[0] == range.0, r@[division as int] == range.1,
//@ loop 0
    parameters@.len() == $i0 + 1, forall|i: int| 0 <= i <= $i0 ==> #[trigger] parameters@[i].v() == udiv(range.0.v(), range.1.v(), division as int, i), u == parameters@[$i0 as int], parameters@[0] == range.0,
    $e0 == division - 1, step.v() == (range.1.v() - range.0.v()) / (division as real),
//@ ghost loop0.start
    assert(parameters@[$j0 as int].v() == udiv(range.0.v(), range.1.v(), division as int, $j0 as int));
//@ ghost loop0.end
    proof { let s = step.v(); let k = $j0 as int; let x = k as real; assert((x + 1real) * s == x * s + s) by(nonlinear_arith); assert((k + 1) as real == x + 1real);
        let (b, e, n) = (range.0.v(), range.1.v(), division as int);
        assert(udiv(b, e, n, k) == b + x * s); assert(udiv(b, e, n, k + 1) == b + (x + 1real) * s);
        assert(u.v() == udiv(b, e, n, k + 1));
    }
