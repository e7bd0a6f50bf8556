//@ include div_strict.rs float.rs points.rs std.rs trig.rs
//@ set nl=off
//@ assume lib_pred.vc lib_alg.vc lib_prim.vc
//@ use lib_proj.vc
