//@ struct Polyline
//@ raw
pub open spec fn slen(v: Seq<Point3>, i: int) -> real { rsqrt(dist2_3(v[i + 1], v[i])) }
/// travelled length up to vertex k
pub open spec fn psum(v: Seq<Point3>, k: int) -> real decreases k { if k <= 0 { 0real } else { psum(v, k - 1) + slen(v, k - 1) } }
pub open spec fn poly_wf(p: Polyline) -> bool {
    &&& p.vertices@.len() >= 2 && p.segment_lengths@.len() == p.vertices@.len() - 1
    &&& forall|i: int| 0 <= i < p.segment_lengths@.len() ==> #[trigger] p.segment_lengths@[i].v() == slen(p.vertices@, i)
    &&& p.length.v() == psum(p.vertices@, p.vertices@.len() - 1)
}
/// the point of segment k at ratio m
pub open spec fn seg_pt(v: Seq<Point3>, k: int, m: real) -> Point3 { p3(v[k].x.v() + (v[k + 1].x.v() - v[k].x.v()) * m, v[k].y.v() + (v[k + 1].y.v() - v[k].y.v()) * m, v[k].z.v() + (v[k + 1].z.v() - v[k].z.v()) * m) }
pub open spec fn at_arc(v: Seq<Point3>, s: real, q: Point3, k: int, m: real) -> bool { 0 <= k < v.len() - 1 && 0real <= m <= 1real && s == psum(v, k) + m * slen(v, k) && q == seg_pt(v, k, m) }
/// q is the point reached after travelling the length s along the segments
pub open spec fn arc(v: Seq<Point3>, s: real, q: Point3) -> bool { exists|k: int, m: real| #[trigger] at_arc(v, s, q, k, m) }
pub proof fn lemma_sq3_nonneg(a: Point3, b: Point3) ensures dist2_3(a, b) >= 0real, dist2_3(a, b) == dist2_3(b, a), dist2_3(a, b) == 0real ==> a == b
{
    let (x, y, z) = (a.x.v() - b.x.v(), a.y.v() - b.y.v(), a.z.v() - b.z.v());
    lemma_sq_nonneg(x); lemma_sq_nonneg(y); lemma_sq_nonneg(z);
    assert(x * x == (-x) * (-x) && y * y == (-y) * (-y) && z * z == (-z) * (-z)) by(nonlinear_arith);
    if dist2_3(a, b) == 0real {
        assert(x == 0real) by(nonlinear_arith) requires x * x == 0real;
        assert(y == 0real) by(nonlinear_arith) requires y * y == 0real;
        assert(z == 0real) by(nonlinear_arith) requires z * z == 0real;
        assert(a.x.0@ == b.x.0@); assert(a.y.0@ == b.y.0@); assert(a.z.0@ == b.z.0@);
        assert(a == b);
    }
}
pub proof fn lemma_slen(v: Seq<Point3>, i: int)
    ensures slen(v, i) >= 0real, slen(v, i) * slen(v, i) == dist2_3(v[i + 1], v[i]), slen(v, i) == rsqrt(dist2_3(v[i], v[i + 1])), slen(v, i) == 0real ==> v[i] == v[i + 1]
{ broadcast use ax_rsqrt; lemma_sq3_nonneg(v[i + 1], v[i]); if slen(v, i) == 0real { assert(0real * 0real == 0real); } }
pub proof fn lemma_psum_mono(v: Seq<Point3>, a: int, b: int)
    requires 0 <= a <= b < v.len()
    ensures psum(v, a) <= psum(v, b), psum(v, a) == psum(v, b) ==> v[a] == v[b], psum(v, a) >= 0real
    decreases b
{ if a < b { lemma_psum_mono(v, a, b - 1); lemma_slen(v, b - 1); } else if a > 0 { lemma_psum_nn(v, a); } }
proof fn lemma_psum_nn(v: Seq<Point3>, a: int) requires 0 <= a < v.len() ensures psum(v, a) >= 0real decreases a { if a > 0 { lemma_psum_nn(v, a - 1); lemma_slen(v, a - 1); } }
proof fn lemma_seg_ends(v: Seq<Point3>, k: int, m: real)
    requires 0 <= k < v.len() - 1
    ensures m == 0real ==> seg_pt(v, k, m) == v[k], m == 1real ==> seg_pt(v, k, m) == v[k + 1], v[k] == v[k + 1] ==> seg_pt(v, k, m) == v[k]
{
    let (x, y, z) = (v[k + 1].x.v() - v[k].x.v(), v[k + 1].y.v() - v[k].y.v(), v[k + 1].z.v() - v[k].z.v());
    assert(x * 0real == 0real && y * 0real == 0real && z * 0real == 0real && x * 1real == x && y * 1real == y && z * 1real == z && 0real * m == 0real);
    let q = seg_pt(v, k, m);
    if m == 0real || v[k] == v[k + 1] { assert(q.x.0@ == v[k].x.0@ && q.y.0@ == v[k].y.0@ && q.z.0@ == v[k].z.0@); assert(q == v[k]); }
    if m == 1real { assert(q.x.0@ == v[k + 1].x.0@ && q.y.0@ == v[k + 1].y.0@ && q.z.0@ == v[k + 1].z.0@); assert(q == v[k + 1]); }
}
/// the travelled length determines the point
pub proof fn theorem_arc_unique(v: Seq<Point3>, s: real, q: Point3, r: Point3)
    requires arc(v, s, q), arc(v, s, r)
    ensures q == r
{
    let (a, m) = choose|k: int, m: real| #[trigger] at_arc(v, s, q, k, m);
    let (b, n) = choose|k: int, m: real| #[trigger] at_arc(v, s, r, k, m);
    if a <= b { lemma_unique(v, s, q, r, a, m, b, n); } else { lemma_unique(v, s, r, q, b, n, a, m); }
}
proof fn lemma_unique(v: Seq<Point3>, s: real, q: Point3, r: Point3, a: int, m: real, b: int, n: real)
    requires at_arc(v, s, q, a, m), at_arc(v, s, r, b, n), a <= b
    ensures q == r
{
    lemma_slen(v, a); lemma_slen(v, b); lemma_seg_ends(v, a, m); lemma_seg_ends(v, b, n);
    let (x, y) = (slen(v, a), slen(v, b));
    if a == b {
        assert(m == n || x == 0real) by(nonlinear_arith) requires m * x == n * x;
    } else {
        lemma_psum_mono(v, a + 1, b);
        assert(psum(v, a + 1) == psum(v, a) + x);
        assert(m * x <= x) by(nonlinear_arith) requires 0real <= m <= 1real, x >= 0real;
        assert(n * y >= 0real) by(nonlinear_arith) requires 0real <= n, y >= 0real;
        assert(m * x == x && n * y == 0real);
        assert(m == 1real || x == 0real) by(nonlinear_arith) requires m * x == x;
        assert(n == 0real || y == 0real) by(nonlinear_arith) requires n * y == 0real;
    }
}
pub proof fn lemma_arc_ends(v: Seq<Point3>)
    requires v.len() >= 2
    ensures arc(v, 0real, v[0]), arc(v, psum(v, v.len() - 1), v[v.len() - 1])
{
    let k = v.len() - 2;
    lemma_seg_ends(v, 0, 0real); lemma_seg_ends(v, k, 1real);
    assert(0real * slen(v, 0) == 0real && 1real * slen(v, k) == slen(v, k));
    assert(psum(v, k + 1) == psum(v, k) + slen(v, k));
    assert(at_arc(v, 0real, v[0], 0, 0real)); assert(at_arc(v, psum(v, v.len() - 1), v[v.len() - 1], k, 1real));
}
proof fn lemma_zero_len(v: Seq<Point3>, k: int)
    requires v.len() >= 2, psum(v, v.len() - 1) <= 0real, 0 <= k < v.len()
    ensures v[k] == v[0], psum(v, v.len() - 1) == 0real
{ lemma_psum_mono(v, 0, v.len() - 1); lemma_psum_mono(v, 0, k); lemma_psum_mono(v, k, v.len() - 1); }
/// dist of p to the point of the segment
pub proof fn lemma_seg_sd(v: Seq<Point3>, k: int, m: real, p: Point3)
    ensures dist2_3(p, seg_pt(v, k, m)) == sd3(v[k], v[k + 1], p, m)
{
    let q = seg_pt(v, k, m);
    lemma_comm(m, v[k + 1].x.v() - v[k].x.v()); lemma_comm(m, v[k + 1].y.v() - v[k].y.v()); lemma_comm(m, v[k + 1].z.v() - v[k].z.v());
    lemma_sq3_nonneg(p, q);
}
proof fn lemma_comm(a: real, b: real) ensures a * b == b * a { assert(a * b == b * a) by(nonlinear_arith); }
/// q is nearest to p among all points of the polyline
pub open spec fn nearest(v: Seq<Point3>, p: Point3, q: Point3) -> bool { forall|k: int, t: real| 0 <= k < v.len() - 1 && 0real <= t <= 1real ==> dist2_3(p, q) <= #[trigger] sd3(v[k], v[k + 1], p, t) }
/// the clamped foot of the perpendicular minimises the distance on one segment
pub proof fn lemma_foot(a: Point3, b: Point3, p: Point3, l: real, off: real, t: real)
    requires l > 0real, l * l == dist2_3(b, a), off == rclamp(dot3(sub3(p, a), sub3(b, a)) / l, 0real, l), 0real <= t <= 1real
    ensures 0real <= off / l <= 1real, (off / l) * l == off, sd3(a, b, p, off / l) <= sd3(a, b, p, t)
{
    let n = dist2_3(p, a); let pr = dot3(sub3(p, a), sub3(b, a)); let aa = dist2_3(b, a); let x = pr / l; let m = off / l;
    assert(x * l == pr) by(nonlinear_arith) requires x == pr / l, l > 0real;
    assert(m * l == off) by(nonlinear_arith) requires m == off / l, l > 0real;
    assert(0real <= m <= 1real) by(nonlinear_arith) requires m * l == off, l > 0real, 0real <= off <= l;
    assert(aa > 0real) by(nonlinear_arith) requires l * l == aa, l > 0real;
    lemma_sd3(a, b, p, t); lemma_sd3(a, b, p, m);
    if x <= 0real {
        assert(pr <= 0real) by(nonlinear_arith) requires x * l == pr, x <= 0real, l > 0real;
        assert(m == 0real) by(nonlinear_arith) requires m * l == off, off == 0real, l > 0real;
        lemma_quad_start(n, pr, aa, t);
    } else if x >= l {
        assert(pr >= aa) by(nonlinear_arith) requires x * l == pr, x >= l, l > 0real, l * l == aa;
        assert(m == 1real) by(nonlinear_arith) requires m * l == off, off == l, l > 0real;
        lemma_quad_end(n, pr, aa, t);
    } else {
        assert(0real < pr < aa) by(nonlinear_arith) requires x * l == pr, 0real < x < l, l * l == aa;
        assert(m * aa == pr) by(nonlinear_arith) requires m * l == x, x * l == pr, l * l == aa;
        let z = pr / aa;
        assert(z * aa == pr) by(nonlinear_arith) requires z == pr / aa, aa > 0real;
        assert(z == m) by(nonlinear_arith) requires z * aa == m * aa, aa > 0real;
        lemma_quad_mid(n, pr, aa, t);
    }
}
/// the outcome of the projection: k is a nearest segment (its distance d bounds all others)
pub open spec fn best_seg(v: Seq<Point3>, p: Point3, k: int, d: real, n: int) -> bool {
    &&& 0 <= k < n && seg_dist3(d, v[k], v[k + 1], p)
    &&& forall|j: int, t: real| 0 <= j < n && 0real <= t <= 1real ==> d * d <= #[trigger] sd3(v[j], v[j + 1], p, t)
}
proof fn lemma_best_step(v: Seq<Point3>, p: Point3, k: int, d: real, n: int, e: real)
    requires n >= 0, n == 0 || best_seg(v, p, k, d, n), seg_dist3(e, v[n], v[n + 1], p)
    ensures n == 0 || e < d ==> best_seg(v, p, n, e, n + 1), n > 0 && !(e < d) ==> best_seg(v, p, k, d, n + 1)
{
    if n > 0 {
        assert(e < d ==> e * e <= d * d) by(nonlinear_arith) requires e >= 0real, d >= 0real;
        assert(e >= d ==> e * e >= d * d) by(nonlinear_arith) requires e >= 0real, d >= 0real;
    }
}
proof fn lemma_bound(v: Seq<Point3>, p: Point3, k: int, d: real)
    requires seg_dist3(d, v[k], v[k + 1], p), dist2_3(v[k], p) < rmaxval()
    ensures d < rmaxval()
{
    broadcast use ax_rmaxval;
    let m = rmaxval();
    lemma_sd3(v[k], v[k + 1], p, 0real); lemma_sq3_nonneg(v[k], p);
    let (pr, aa) = (dot3(sub3(p, v[k]), sub3(v[k + 1], v[k])), dist2_3(v[k + 1], v[k]));
    assert(quad(dist2_3(p, v[k]), pr, aa, 0real) == dist2_3(p, v[k])) by { assert(2real * 0real * pr == 0real && 0real * 0real * aa == 0real) by(nonlinear_arith); }
    assert(d * d <= dist2_3(v[k], p));
    assert(d < m) by(nonlinear_arith) requires d * d < m, m > 1real, d >= 0real;
}
pub open spec fn foot_off(v: Seq<Point3>, p: Point3, k: int) -> real { if slen(v, k) > 0real { rclamp(dot3(sub3(p, v[k]), sub3(v[k + 1], v[k])) / slen(v, k), 0real, slen(v, k)) } else { 0real } }
pub open spec fn foot_ratio(v: Seq<Point3>, p: Point3, k: int) -> real { rclamp((psum(v, k) + foot_off(v, p, k)) / psum(v, v.len() - 1), 0real, 1real) }
proof fn lemma_project(v: Seq<Point3>, p: Point3, k: int, d: real)
    requires v.len() >= 2, best_seg(v, p, k, d, v.len() - 1), psum(v, v.len() - 1) != 0real,
    ensures exists|q: Point3| #[trigger] arc(v, foot_ratio(v, p, k) * psum(v, v.len() - 1), q) && nearest(v, p, q)
{
    let l = slen(v, k); let big = psum(v, v.len() - 1); let off = foot_off(v, p, k); let s = psum(v, k) + off; let r = foot_ratio(v, p, k);
    lemma_slen(v, k); lemma_psum_mono(v, 0, k); lemma_psum_mono(v, k + 1, v.len() - 1); lemma_psum_mono(v, 0, v.len() - 1);
    assert(psum(v, k + 1) == psum(v, k) + l);
    let m = if l > 0real { off / l } else { 0real };
    let q = seg_pt(v, k, m);
    let w = choose|t: real| 0real <= t <= 1real && d * d == #[trigger] sd3(v[k], v[k + 1], p, t);
    if l > 0real { lemma_foot(v[k], v[k + 1], p, l, off, w); }
    else {
        lemma_seg_ends(v, k, m); lemma_seg_ends(v, k, w); lemma_seg_sd(v, k, w, p); lemma_seg_sd(v, k, m, p);
        assert(0real * l == 0real);
    }
    lemma_seg_sd(v, k, m, p);
    assert(dist2_3(p, q) <= d * d);
    assert(at_arc(v, s, q, k, m));
    let x = s / big;
    assert(x * big == s) by(nonlinear_arith) requires x == s / big, big > 0real;
    assert(0real <= x <= 1real) by(nonlinear_arith) requires x * big == s, 0real <= s <= big, big > 0real;
    assert(arc(v, r * big, q));
    assert(nearest(v, p, q));
}
proof fn lemma_project_zero(v: Seq<Point3>, p: Point3)
    requires v.len() >= 2, psum(v, v.len() - 1) == 0real
    ensures exists|q: Point3| #[trigger] arc(v, 0real * psum(v, v.len() - 1), q) && nearest(v, p, q)
{
    lemma_arc_ends(v);
    assert forall|k: int, t: real| 0 <= k < v.len() - 1 && 0real <= t <= 1real implies dist2_3(p, v[0]) <= #[trigger] sd3(v[k], v[k + 1], p, t) by {
        lemma_zero_len(v, k); lemma_zero_len(v, k + 1); lemma_seg_sd(v, k, t, p); lemma_seg_ends(v, k, t); }
    assert(arc(v, 0real * psum(v, v.len() - 1), v[0]) && nearest(v, p, v[0]));
}
/// projecting and evaluating gives the nearest point of the polyline
pub proof fn theorem_project(v: Seq<Point3>, p: Point3, r: real, x: Point3)
    requires exists|q: Point3| #[trigger] arc(v, r * psum(v, v.len() - 1), q) && nearest(v, p, q), 0real <= r <= 1real,
        arc(v, rclamp(r, 0real, 1real) * psum(v, v.len() - 1), x)
    ensures nearest(v, p, x)
{ let q = choose|q: Point3| #[trigger] arc(v, r * psum(v, v.len() - 1), q) && nearest(v, p, q); theorem_arc_unique(v, r * psum(v, v.len() - 1), q, x); }
proof fn lemma_at(v: Seq<Point3>, s: real, k: int, len: real, q: Point3)
    requires 0 <= k < v.len() - 1, s == psum(v, k) + len, 0real <= len <= slen(v, k), slen(v, k) > 0real, q == seg_pt(v, k, len / slen(v, k))
    ensures arc(v, s, q)
{
    let l = slen(v, k); let m = len / l;
    assert(m * l == len) by(nonlinear_arith) requires m == len / l, l > 0real;
    assert(0real <= m <= 1real) by(nonlinear_arith) requires m * l == len, 0real <= len <= l, l > 0real;
    assert(at_arc(v, s, q, k, m));
}
//@ fn Polyline::new params=vertices ret=r loops=2 hint=out0:Float
    requires vertices@.len() >= 2
    ensures poly_wf(r), r.vertices@ == vertices@
//@ ghost start
    assert forall|i: int| 0 <= i < vertices@.len() - 1 implies #[trigger] slen(vertices@, i) == rsqrt(dist2_3(vertices@[i], vertices@[i + 1])) by { lemma_slen(vertices@, i); };
//@ loop 0
    forall|i: int| 0 <= i < $i0 ==> #[trigger] $out0@[i].v() == slen(vertices@, i),
//@ loop 1
    $acc1.v() == psum(vertices@, $i1 as int), $n1 == vertices@.len() - 1, $n1 == segment_lengths@.len(),
//@ ghost loop1.start
    proof { let k = $j1 as int; assert(segment_lengths@[k].v() == slen(vertices@, k)); assert(psum(vertices@, k + 1) == psum(vertices@, k) + slen(vertices@, k)); }
//@ fn Polyline::start ret=r
    requires self.vertices@.len() >= 1
    ensures r == self.vertices@[0]
//@ fn Polyline::end ret=r
    requires self.vertices@.len() >= 1
    ensures r == self.vertices@[self.vertices@.len() - 1]
//@ fn Polyline::get_point params=t ret=r loops=1
    requires poly_wf(*self)
    ensures arc(self.vertices@, rclamp(t.v(), 0real, 1real) * self.length.v(), r)
//@ ghost start
    let ghost v = self.vertices@; let ghost big = self.length.v();
    proof { lemma_arc_ends(v); lemma_psum_mono(v, 0, v.len() - 1); assert(0real * big == 0real && 1real * big == big);
        assert(0real <= t.v() < 1real ==> (t.v() * big >= 0real && (t.v() * big >= big ==> big == 0real))) by(nonlinear_arith) requires big >= 0real; }
//@ loop 0
    v == self.vertices@, big == self.length.v(), 0real < t.v() < 1real, psum(v, $i0 as int) + length.v() == t.v() * big, length.v() >= 0real,
//@ ghost loop0.start
    proof { let k = $j0 as int; assert(self.segment_lengths@[k].v() == slen(v, k)); lemma_slen(v, k); assert(psum(v, k + 1) == psum(v, k) + slen(v, k));
        if 0real <= length.v() && length.v() <= slen(v, k) && slen(v, k) > 0real { lemma_at(v, t.v() * big, k, length.v(), seg_pt(v, k, length.v() / slen(v, k))); } }
//@ ghost loop0.after
    proof { assert(t.v() * big >= big); assert(big == 0real); assert(t.v() * 0real == 0real); }
//@ fn Polyline::project params=point ret=r loops=2
    requires poly_wf(*self), forall|k: int| 0 <= k < self.vertices@.len() ==> dist2_3(#[trigger] self.vertices@[k], point) < rmaxval()
    ensures 0real <= r.v() <= 1real, exists|q: Point3| #[trigger] arc(self.vertices@, r.v() * self.length.v(), q) && nearest(self.vertices@, point, q)
//@ ghost start
    let ghost v = self.vertices@;
//@ loop 0
    v == self.vertices@, $i0 == 0 ==> min.v() == rmaxval(), $i0 > 0 ==> best_seg(v, point, min_index as int, min.v(), $i0 as int),
//@ ghost loop0.start
    let ghost omi = min_index; let ghost omin = min.v();
//@ ghost loop0.end
    proof { lemma_best_step(v, point, if $j0 == 0 { 0 } else { omi as int }, omin, $j0 as int, distance.v()); lemma_bound(v, point, $j0 as int, distance.v()); }
//@ ghost loop0.after
    proof { lemma_slen(v, min_index as int); lemma_psum_mono(v, 0, v.len() - 1);
        if psum(v, v.len() - 1) == 0real { lemma_project_zero(v, point); } else { lemma_project(v, point, min_index as int, min.v()); } }
//@ loop 1
    $acc1.v() == psum(v, $i1 as int),
//@ ghost loop1.start
    proof { let k = $j1 as int; assert(self.segment_lengths@[k].v() == slen(v, k)); assert(psum(v, k + 1) == psum(v, k) + slen(v, k)); }
