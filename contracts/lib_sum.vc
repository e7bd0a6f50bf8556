//@ raw
// finite sums over real sequences, one coordinate at a time
pub open spec fn dotp(b: Seq<real>, c: Seq<real>, m: int) -> real
    decreases m
{ if m <= 0 { 0real } else { dotp(b, c, m - 1) + b[m - 1] * c[m - 1] } }
pub open spec fn trow(bu: Seq<real>, bv: Seq<real>, g: spec_fn(int, int) -> real, i: int, m: int) -> real
    decreases m
{ if m <= 0 { 0real } else { trow(bu, bv, g, i, m - 1) + bu[i] * bv[m - 1] * g(i, m - 1) } }
pub open spec fn tsum(bu: Seq<real>, bv: Seq<real>, g: spec_fn(int, int) -> real, n: int, m: int) -> real
    decreases n
{ if n <= 0 { 0real } else { tsum(bu, bv, g, n - 1, m) + trow(bu, bv, g, n - 1, m) } }
pub open spec fn xs3(s: Seq<Point3>) -> Seq<real> { Seq::new(s.len(), |i: int| s[i].x.v()) }
pub open spec fn ys3(s: Seq<Point3>) -> Seq<real> { Seq::new(s.len(), |i: int| s[i].y.v()) }
pub open spec fn zs3(s: Seq<Point3>) -> Seq<real> { Seq::new(s.len(), |i: int| s[i].z.v()) }
pub open spec fn xs4(s: Seq<Point4>) -> Seq<real> { Seq::new(s.len(), |i: int| s[i].x.v()) }
pub open spec fn ys4(s: Seq<Point4>) -> Seq<real> { Seq::new(s.len(), |i: int| s[i].y.v()) }
pub open spec fn zs4(s: Seq<Point4>) -> Seq<real> { Seq::new(s.len(), |i: int| s[i].z.v()) }
pub open spec fn ws4(s: Seq<Point4>) -> Seq<real> { Seq::new(s.len(), |i: int| s[i].w.v()) }
pub open spec fn vals(s: Seq<Float>) -> Seq<real> { Seq::new(s.len(), |i: int| s[i].v()) }
pub open spec fn gx3(g: Grid<Point3>) -> spec_fn(int, int) -> real { |i: int, j: int| g.at(i, j).x.v() }
pub open spec fn gy3(g: Grid<Point3>) -> spec_fn(int, int) -> real { |i: int, j: int| g.at(i, j).y.v() }
pub open spec fn gz3(g: Grid<Point3>) -> spec_fn(int, int) -> real { |i: int, j: int| g.at(i, j).z.v() }
pub open spec fn gx4(g: Grid<Point4>) -> spec_fn(int, int) -> real { |i: int, j: int| g.at(i, j).x.v() }
pub open spec fn gy4(g: Grid<Point4>) -> spec_fn(int, int) -> real { |i: int, j: int| g.at(i, j).y.v() }
pub open spec fn gz4(g: Grid<Point4>) -> spec_fn(int, int) -> real { |i: int, j: int| g.at(i, j).z.v() }
pub open spec fn gw4(g: Grid<Point4>) -> spec_fn(int, int) -> real { |i: int, j: int| g.at(i, j).w.v() }
pub proof fn lemma_dotp_ext(b: Seq<real>, b2: Seq<real>, c: Seq<real>, c2: Seq<real>, m: int)
    requires forall|i: int| 0 <= i < m ==> #[trigger] b[i] == b2[i], forall|i: int| 0 <= i < m ==> #[trigger] c[i] == c2[i]
    ensures dotp(b, c, m) == dotp(b2, c2, m)
    decreases m
{ if m > 0 { lemma_dotp_ext(b, b2, c, c2, m - 1); assert(b[m - 1] == b2[m - 1]); assert(c[m - 1] == c2[m - 1]); } }
pub broadcast proof fn lemma_vals_push(s: Seq<Float>, x: Float) ensures #[trigger] vals(s.push(x)) == vals(s).push(x.v()) { assert(vals(s.push(x)) =~= vals(s).push(x.v())); }
pub proof fn lemma_trow_ext(bu: Seq<real>, bv: Seq<real>, cu: Seq<real>, cv: Seq<real>, g: spec_fn(int, int) -> real, i: int, m: int)
    requires bu[i] == cu[i], forall|k: int| 0 <= k < m ==> #[trigger] bv[k] == cv[k]
    ensures trow(bu, bv, g, i, m) == trow(cu, cv, g, i, m)
    decreases m
{ if m > 0 { lemma_trow_ext(bu, bv, cu, cv, g, i, m - 1); assert(bv[m - 1] == cv[m - 1]); } }
pub proof fn lemma_tsum_ext(bu: Seq<real>, bv: Seq<real>, cu: Seq<real>, cv: Seq<real>, g: spec_fn(int, int) -> real, n: int, m: int)
    requires forall|k: int| 0 <= k < n ==> #[trigger] bu[k] == cu[k], forall|k: int| 0 <= k < m ==> #[trigger] bv[k] == cv[k]
    ensures tsum(bu, bv, g, n, m) == tsum(cu, cv, g, n, m)
    decreases n
{ if n > 0 { assert(bu[n - 1] == cu[n - 1]); lemma_tsum_ext(bu, bv, cu, cv, g, n - 1, m); lemma_trow_ext(bu, bv, cu, cv, g, n - 1, m); } }
pub proof fn lemma_dotp_unit(b: Seq<real>, c: Seq<real>, m: int, e: int)
    requires forall|k: int| 0 <= k < m ==> #[trigger] b[k] == (if k == e { 1real } else { 0real })
    ensures dotp(b, c, m) == (if 0 <= e < m { c[e] } else { 0real })
    decreases m
{ if m > 0 { lemma_dotp_unit(b, c, m - 1, e); assert(b[m - 1] == (if m - 1 == e { 1real } else { 0real })); } }
