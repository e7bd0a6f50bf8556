//@ include div_strict.rs float.rs points.rs std.rs
//@ set nl=off
//@ use lib_pred.vc lib_dist.vc
//@ use lib_poly.vc
