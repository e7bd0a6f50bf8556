// division by zero is excluded by precondition: an accepted function never divides by zero
pub open spec fn vx_div_ok(b: real) -> bool { b != 0real }
