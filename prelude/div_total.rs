// division by zero is allowed and yields an arbitrary real (IEEE: +-inf or NaN)
pub open spec fn vx_div_ok(b: real) -> bool { true }
