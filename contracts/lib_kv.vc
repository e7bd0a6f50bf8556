//@ raw
/// values repeated by their multiplicities, in order
pub open spec fn expand(v: Seq<real>, m: Seq<usize>, k: int) -> Seq<real> decreases k { if k <= 0 { Seq::empty() } else { expand(v, m, k - 1) + Seq::new(m[k - 1] as nat, |i: int| v[k - 1]) } }
pub open spec fn usum(m: Seq<usize>, k: int) -> int decreases k { if k <= 0 { 0 } else { usum(m, k - 1) + m[k - 1] } }
pub proof fn lemma_usum_mono(m: Seq<usize>, a: int, b: int) requires a <= b <= m.len() ensures usum(m, a) <= usum(m, b) decreases b - a { if a < b { lemma_usum_mono(m, a, b - 1); if b <= 0 { assert(usum(m, a) == 0); } } }
pub open spec fn rrep(x: real, n: int) -> Seq<real> { Seq::new(n as nat, |i: int| x) }
pub open spec fn uniform_seq(p: int, d: int) -> Seq<real> { Seq::new((2 * p + 1 + d) as nat, |i: int| if i <= p { 0real } else if i < p + d { ((i - p) as real) * (1real / (d as real)) } else { 1real }) }
pub proof fn theorem_expand_sorted(v: Seq<real>, m: Seq<usize>, k: int)
    requires 0 <= k <= v.len(), k <= m.len(), tsorted(v)
    ensures tsorted(expand(v, m, k)), k > 0 ==> forall|i: int| 0 <= i < expand(v, m, k).len() ==> #[trigger] expand(v, m, k)[i] <= v[k - 1],
        expand(v, m, k).len() == usum(m, k), k <= 0 ==> expand(v, m, k).len() == 0
    decreases k
{
    if k > 0 {
        theorem_expand_sorted(v, m, k - 1);
        let e = expand(v, m, k - 1); let f = expand(v, m, k);
        assert forall|i: int| 0 <= i < f.len() implies #[trigger] f[i] <= v[k - 1] by { if i < e.len() { assert(f[i] == e[i]); if k > 1 { assert(e[i] <= v[k - 2]); assert(v[k - 2] <= v[k - 1]); } } }
        assert forall|i: int, j: int| #![trigger f[i], f[j]] 0 <= i <= j < f.len() implies f[i] <= f[j] by { if j < e.len() { assert(f[i] == e[i] && f[j] == e[j]); } else { assert(f[j] == v[k - 1]); } }
    }
}
pub proof fn theorem_bezier_sorted(p: int) requires p >= 0 ensures tsorted(rrep(0real, p + 1) + rrep(1real, p + 1)) {}
pub proof fn theorem_uniform_sorted(p: int, d: int)
    requires p >= 0, d >= 1
    ensures tsorted(uniform_seq(p, d))
{
    let t = uniform_seq(p, d); let s = 1real / (d as real); let w = d as real;
    assert(w >= 1real);
    assert(s > 0real && w * s == 1real) by(nonlinear_arith) requires s == 1real / w, w >= 1real;
    assert forall|i: int, j: int| #![trigger t[i], t[j]] 0 <= i <= j < t.len() implies t[i] <= t[j] by {
        let x = (i - p) as real; let y = (j - p) as real;
        assert(x <= y);
        assert(x * s <= y * s) by(nonlinear_arith) requires x <= y, s > 0real;
        if p < i < p + d { assert(x * s >= 0real) by(nonlinear_arith) requires x >= 0real, s > 0real; assert(x * s <= 1real) by(nonlinear_arith) requires x <= w, s > 0real, w * s == 1real; }
        if p < j < p + d { assert(y * s >= 0real) by(nonlinear_arith) requires y >= 0real, s > 0real; assert(y * s <= 1real) by(nonlinear_arith) requires y <= w, s > 0real, w * s == 1real; }
    }
}
/// normalised knots start at 0, end at 1 and keep the order
pub proof fn theorem_normalized(t: Seq<real>, n: Seq<real>)
    requires knots_ok(t), n.len() == t.len(), forall|i: int| 0 <= i < t.len() ==> #[trigger] n[i] == (t[i] - t[0]) / (t[t.len() - 1] - t[0])
    ensures n[0] == 0real, n[n.len() - 1] == 1real, tsorted(n)
{
    let l = t[t.len() - 1] - t[0];
    assert(n[0] == (t[0] - t[0]) / l);
    assert((t[0] - t[0]) / l == 0real) by(nonlinear_arith) requires l > 0real;
    assert(n[n.len() - 1] == l / l);
    assert(l / l == 1real) by(nonlinear_arith) requires l > 0real;
    assert forall|i: int, j: int| #![trigger n[i], n[j]] 0 <= i <= j < n.len() implies n[i] <= n[j] by {
        let x = t[i] - t[0]; let y = t[j] - t[0];
        assert(x <= y) by { assert(t[i] <= t[j]); }
        assert(x / l <= y / l) by(nonlinear_arith) requires l > 0real, x <= y;
    }
}
/// multiplicity of sorted, separated knots counts exactly the equal ones
pub open spec fn cnt_eq(t: Seq<real>, x: real, m: int) -> int decreases m { if m <= 0 { 0 } else { cnt_eq(t, x, m - 1) + (if x == t[m - 1] { 1int } else { 0 }) } }
pub proof fn theorem_multiplicity(t: Seq<real>, i: int, m: int)
    requires tsep(t), 0 <= i < t.len(), 0 <= m <= t.len()
    ensures cnt(t, t[i], m) == cnt_eq(t, t[i], m)
    decreases m
{ if m > 0 { theorem_multiplicity(t, i, m - 1); if t[i] == t[m - 1] { ax_ulps_refl(t[i], t[m - 1]); } } }
//@ fn KnotVector::new params=knots ret=r
    requires knots@.len() > 1
    ensures r.0@ == knots@
//@ fn KnotVector::from params=vec ret=r
    ensures r.0@ == vec@
//@ fn KnotVector::from_values_and_multiplicities params=values,multiplicities ret=r loops=3 hint=sum0:usize
    requires usum(multiplicities@, multiplicities@.len() as int) <= usize::MAX
    ensures vals(r.0@) =~= expand(vals(values@), multiplicities@, if values@.len() < multiplicities@.len() { values@.len() as int } else { multiplicities@.len() as int })
//@ loop 0
    $n0 == multiplicities@.len(), $acc0 == usum(multiplicities@, $i0 as int), $acc0 <= usize::MAX,
//@ ghost loop0.start
    proof { lemma_usum_mono(multiplicities@, $i0 as int, multiplicities@.len() as int); }
//@ ghost start
    broadcast use lemma_vals_push;
    let ghost lim = if values@.len() < multiplicities@.len() { values@.len() as int } else { multiplicities@.len() as int };
//@ loop 1
    $n1 == lim, vals(knots@) =~= expand(vals(values@), multiplicities@, $i1 as int),
//@ loop 1.0
    $n1_0 == multiplicities@[$j1 as int], vals(knots@) =~= expand(vals(values@), multiplicities@, $j1 as int) + rrep(values@[$j1 as int].v(), $i1_0 as int),
//@ fn KnotVector::normalize ret=r loops=1 into=KnotVector hint=out0:Float
    requires self.0@.len() >= 1, self.0@[self.0@.len() - 1].v() != self.0@[0].v()
    ensures r.0@.len() == self.0@.len(), forall|i: int| 0 <= i < self.0@.len() ==> #[trigger] r.0@[i].v() == (self.0@[i].v() - self.0@[0].v()) / (self.0@[self.0@.len() - 1].v() - self.0@[0].v())
//@ loop 0
    $n0 == self.0@.len(), forall|i: int| 0 <= i < $i0 ==> #[trigger] $out0@[i].v() == (self.0@[i].v() - self.0@[0].v()) / (self.0@[self.0@.len() - 1].v() - self.0@[0].v()),
//@ fn KnotVector::shrink ret=r
    requires self.0@.len() >= 2
    ensures r.0@ =~= self.0@.subrange(1, self.0@.len() - 1)
//@ fn KnotVector::spans params=degree ret=r loops=1 hint=out0:Float
    requires degree < usize::MAX
    ensures r@.len() == (if self.0@.len() > degree { self.0@.len() - degree } else { 0 }), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i].v() == self.0@[i + degree].v() - self.0@[i].v()
//@ loop 0
    forall|i: int| 0 <= i < $i0 ==> #[trigger] $out0@[i].v() == self.0@[i + degree].v() - self.0@[i].v(),
//@ fn KnotVector::bezier_knot params=degree ret=r loops=2
    requires degree * 2 + 2 <= usize::MAX
    ensures vals(r.0@) =~= rrep(0real, degree + 1) + rrep(1real, degree + 1)
//@ loop 0
    $n0 == degree + 1, vals(knots@) =~= rrep(0real, $i0 as int),
//@ loop 1
    $n1 == degree + 1, vals(knots@) =~= rrep(0real, degree + 1) + rrep(1real, $i1 as int),
//@ ghost start
    broadcast use lemma_vals_push;
//@ fn KnotVector::uniform_knot params=degree,division ret=r loops=3
    requires degree * 2 + 2 <= usize::MAX, division >= 1
    ensures vals(r.0@) =~= uniform_seq(degree as int, division as int)
//@ loop 0
    $n0 == degree + 1, vals(knots@) =~= rrep(0real, $i0 as int),
//@ loop 1
    vals(knots@) =~= uniform_seq(degree as int, division as int).subrange(0, degree + $i1),
//@ loop 2
    $n2 == degree + 1, vals(knots@) =~= uniform_seq(degree as int, division as int).subrange(0, degree + division + $i2),
//@ ghost start
    broadcast use lemma_vals_push;
//@ fn KnotVector::add_knot params=knot ret=r loops=1
    requires tsorted(vals(old(self).0@))
    ensures r <= old(self).0@.len(), final(self).0@ == old(self).0@.insert(r as int, knot), tsorted(vals(final(self).0@)),
        forall|j: int| 0 <= j < r ==> #[trigger] old(self).0@[j].v() <= knot.v(),
        forall|j: int| r <= j < old(self).0@.len() ==> #[trigger] old(self).0@[j].v() > knot.v(),
//@ ghost start
    let ghost t0 = old(self).0@;
    assert(forall|i: int, j: int| #![trigger t0[i], t0[j]] 0 <= i <= j < t0.len() ==> t0[i].v() <= t0[j].v()) by { assert forall|i: int, j: int| #![trigger t0[i], t0[j]] 0 <= i <= j < t0.len() implies t0[i].v() <= t0[j].v() by { assert(vals(t0)[i] <= vals(t0)[j]); } }
//@ loop 0
    self.0@ == t0, $n0 == t0.len(),
    !$hit0 ==> forall|j: int| $i0 <= j < $n0 ==> #[trigger] t0[j].v() > knot.v(),
    $hit0 ==> t0[$i0 as int].v() <= knot.v() && forall|j: int| $i0 < j < $n0 ==> #[trigger] t0[j].v() > knot.v(),
//@ fn KnotVector::sub_vec params=range ret=r inst=I:Range<usize>
    requires range.start <= range.end <= self.0@.len()
    ensures r.0@ =~= self.0@.subrange(range.start as int, range.end as int)
//@ fn KnotVector::range ret=r
    requires self.0@.len() >= 1
    ensures r.0 == self.0@[0], r.1 == self.0@[self.0@.len() - 1]
