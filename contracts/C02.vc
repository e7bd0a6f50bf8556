//@ include div_strict.rs float.rs points.rs std.rs grid.rs
//@ use lib_sum.vc lib_knot.vc lib_bspl.vc
