//@ raw
pub open spec fn crossdot(a: Point3, b: Point3) -> real { dot3(cross3(a, b), cross3(a, b)) }
proof fn lemma_cross_is(a: Point3, u: Point3)
    ensures dot3(cross3(a, u), cross3(a, u)) == dot3(a, a) * dot3(u, u) - dot3(a, u) * dot3(a, u)
{ lemma_lagrange3(a.x.v(), a.y.v(), a.z.v(), u.x.v(), u.y.v(), u.z.v()); }
proof fn lemma_div_mul(c: real, a: real) requires a > 0real ensures (c / a) * a == c { assert((c / a) * a == c) by(nonlinear_arith) requires a > 0real; }
/// N - P*P/A is what the cross product gives, as a multiple of A
proof fn lemma_mid_value(n: real, p: real, a: real) requires a > 0real ensures (n - p * p / a) * a == n * a - p * p { lemma_div_mul(p * p, a); lemma_ldist(a, n - p * p / a, p * p / a); assert((n - p * p / a) * a == a * (n - p * p / a)) by(nonlinear_arith); assert(a * n == n * a) by(nonlinear_arith); assert((p * p / a) * a == a * (p * p / a)) by(nonlinear_arith); }
/// the three cases of the point-segment distance (used for plane and space alike)
proof fn lemma_seg2(d: real, a: Point2, b: Point2, p: Point2, n: real, pr: real, aa: real)
    requires d >= 0real, n == dist2_2(p, a), pr == dot2(sub2(p, a), sub2(b, a)), aa == dist2_2(b, a),
        (pr <= 0real && d * d == n) || (pr > 0real && pr >= aa && d * d == n - 2real * pr + aa) || (0real < pr < aa && d * d == n - pr * pr / aa)
    ensures seg_dist2(d, a, b, p)
{
    let bx = b.x.v() - a.x.v(); let by = b.y.v() - a.y.v(); lemma_sq_nonneg(bx); lemma_sq_nonneg(by);
    let m = if pr <= 0real { 0real } else if pr >= aa { 1real } else { pr / aa };
    lemma_sd2(a, b, p, m);
    if pr <= 0real { lemma_quad_start(n, pr, aa, 0real); } else if pr >= aa { lemma_quad_end(n, pr, aa, 1real); } else { lemma_quad_mid(n, pr, aa, 0real); }
    assert(d * d == sd2(a, b, p, m));
    assert forall|t: real| 0real <= t <= 1real implies d * d <= #[trigger] sd2(a, b, p, t) by {
        lemma_sd2(a, b, p, t);
        if pr <= 0real { lemma_quad_start(n, pr, aa, t); } else if pr >= aa { lemma_quad_end(n, pr, aa, t); } else { lemma_quad_mid(n, pr, aa, t); }
    }
}
proof fn lemma_seg3(d: real, a: Point3, b: Point3, p: Point3, n: real, pr: real, aa: real)
    requires d >= 0real, n == dist2_3(p, a), pr == dot3(sub3(p, a), sub3(b, a)), aa == dist2_3(b, a),
        (pr <= 0real && d * d == n) || (pr > 0real && pr >= aa && d * d == n - 2real * pr + aa) || (0real < pr < aa && d * d == n - pr * pr / aa)
    ensures seg_dist3(d, a, b, p)
{
    let bx = b.x.v() - a.x.v(); let by = b.y.v() - a.y.v(); let bz = b.z.v() - a.z.v(); lemma_sq_nonneg(bx); lemma_sq_nonneg(by); lemma_sq_nonneg(bz);
    let m = if pr <= 0real { 0real } else if pr >= aa { 1real } else { pr / aa };
    lemma_sd3(a, b, p, m);
    if pr <= 0real { lemma_quad_start(n, pr, aa, 0real); } else if pr >= aa { lemma_quad_end(n, pr, aa, 1real); } else { lemma_quad_mid(n, pr, aa, 0real); }
    assert(d * d == sd3(a, b, p, m));
    assert forall|t: real| 0real <= t <= 1real implies d * d <= #[trigger] sd3(a, b, p, t) by {
        lemma_sd3(a, b, p, t);
        if pr <= 0real { lemma_quad_start(n, pr, aa, t); } else if pr >= aa { lemma_quad_end(n, pr, aa, t); } else { lemma_quad_mid(n, pr, aa, t); }
    }
}
/// the distance from the other end: |p-b|^2 == |p-a|^2 - 2 (p-a).(b-a) + |b-a|^2
proof fn lemma_far2(a: Point2, b: Point2, p: Point2) ensures dist2_2(p, b) == dist2_2(p, a) - 2real * dot2(sub2(p, a), sub2(b, a)) + dist2_2(b, a)
{ lemma_sqd(p.x.v() - a.x.v(), b.x.v() - a.x.v()); lemma_sqd(p.y.v() - a.y.v(), b.y.v() - a.y.v()); }
proof fn lemma_far3(a: Point3, b: Point3, p: Point3) ensures dist2_3(p, b) == dist2_3(p, a) - 2real * dot3(sub3(p, a), sub3(b, a)) + dist2_3(b, a)
{ lemma_sqd(p.x.v() - a.x.v(), b.x.v() - a.x.v()); lemma_sqd(p.y.v() - a.y.v(), b.y.v() - a.y.v()); lemma_sqd(p.z.v() - a.z.v(), b.z.v() - a.z.v()); }
pub proof fn lemma_seg2_all(a: Point2, b: Point2, p: Point2)
    ensures
        dist2_2(p, a) >= 0real, dist2_2(b, a) >= 0real, dist2_2(p, b) >= 0real,
        ({ let ap = sub2(p, a); let ab = sub2(b, a); let pr = dot2(ap, ab); let cr = ap.x.v() * ab.y.v() - ap.y.v() * ab.x.v();
           &&& pr <= 0real ==> seg_dist2(rsqrt(dist2_2(p, a)), a, b, p)
           &&& 0real < pr && pr >= dist2_2(b, a) ==> seg_dist2(rsqrt(dist2_2(p, b)), a, b, p)
           &&& 0real < pr && pr < dist2_2(b, a) ==> rsqrt(dist2_2(b, a)) > 0real && seg_dist2(rabs(cr) / rsqrt(dist2_2(b, a)), a, b, p) })
{
    broadcast use ax_rsqrt;
    let ap = sub2(p, a); let ab = sub2(b, a); let pr = dot2(ap, ab); let cr = ap.x.v() * ab.y.v() - ap.y.v() * ab.x.v();
    let n = dist2_2(p, a); let aa = dist2_2(b, a);
    lemma_sq_nonneg(ap.x.v()); lemma_sq_nonneg(ap.y.v()); lemma_sq_nonneg(ab.x.v()); lemma_sq_nonneg(ab.y.v()); lemma_sq_nonneg(p.x.v() - b.x.v()); lemma_sq_nonneg(p.y.v() - b.y.v());
    lemma_far2(a, b, p);
    if pr <= 0real { lemma_seg2(rsqrt(n), a, b, p, n, pr, aa); }
    else if pr >= aa { lemma_seg2(rsqrt(dist2_2(p, b)), a, b, p, n, pr, aa); }
    else {
        lemma_lagrange2(ap.x.v(), ap.y.v(), ab.x.v(), ab.y.v());
        lemma_mid_value(n, pr, aa);
        assert(rabs(cr) * rabs(cr) == cr * cr) by { if cr < 0real { assert((-cr) * (-cr) == cr * cr) by(nonlinear_arith); } }
        lemma_quot(rabs(cr), rsqrt(aa), aa, n - pr * pr / aa);
        lemma_seg2(rabs(cr) / rsqrt(aa), a, b, p, n, pr, aa);
    }
}
pub proof fn lemma_seg3_all(a: Point3, b: Point3, p: Point3)
    ensures
        dist2_3(p, a) >= 0real, dist2_3(b, a) >= 0real, dist2_3(p, b) >= 0real,
        ({ let ap = sub3(p, a); let ab = sub3(b, a); let pr = dot3(ap, ab);
           &&& pr <= 0real ==> seg_dist3(rsqrt(dist2_3(p, a)), a, b, p)
           &&& 0real < pr && pr >= dist2_3(b, a) ==> seg_dist3(rsqrt(dist2_3(p, b)), a, b, p)
           &&& 0real < pr && pr < dist2_3(b, a) ==> rsqrt(dist2_3(b, a)) > 0real && seg_dist3(rsqrt(crossdot(ap, ab)) / rsqrt(dist2_3(b, a)), a, b, p) })
{
    broadcast use ax_rsqrt;
    let ap = sub3(p, a); let ab = sub3(b, a); let pr = dot3(ap, ab);
    let n = dist2_3(p, a); let aa = dist2_3(b, a);
    lemma_sq_nonneg(ap.x.v()); lemma_sq_nonneg(ap.y.v()); lemma_sq_nonneg(ap.z.v()); lemma_sq_nonneg(ab.x.v()); lemma_sq_nonneg(ab.y.v()); lemma_sq_nonneg(ab.z.v());
    lemma_sq_nonneg(p.x.v() - b.x.v()); lemma_sq_nonneg(p.y.v() - b.y.v()); lemma_sq_nonneg(p.z.v() - b.z.v());
    lemma_far3(a, b, p);
    if pr <= 0real { lemma_seg3(rsqrt(n), a, b, p, n, pr, aa); }
    else if pr >= aa { lemma_seg3(rsqrt(dist2_3(p, b)), a, b, p, n, pr, aa); }
    else {
        lemma_cross_is(ap, ab);
        let c = cross3(ap, ab); lemma_sq_nonneg(c.x.v()); lemma_sq_nonneg(c.y.v()); lemma_sq_nonneg(c.z.v());
        lemma_mid_value(n, pr, aa);
        lemma_quot(rsqrt(crossdot(ap, ab)), rsqrt(aa), aa, n - pr * pr / aa);
        lemma_seg3(rsqrt(crossdot(ap, ab)) / rsqrt(aa), a, b, p, n, pr, aa);
    }
}
//@ fn Point2::distance_to_line_segment params=a,b ret=r
    ensures seg_dist2(r.v(), a, b, *self)
//@ ghost start
    broadcast use ax_rsqrt; proof { lemma_seg2_all(a, b, *self); lemma_seg2_all(b, a, *self); }
//@ fn distance_to_line_segment params=a,b,p ret=r
    ensures seg_dist3(r.v(), a, b, p)
//@ ghost start
    broadcast use ax_rsqrt; proof { lemma_seg3_all(a, b, p); lemma_seg3_all(b, a, p);
    let c = cross3(sub3(p, a), sub3(b, a)); lemma_sq_nonneg(c.x.v()); lemma_sq_nonneg(c.y.v()); lemma_sq_nonneg(c.z.v()); }
