//@ raw
pub type Edge = (usize, usize);
pub open spec fn range(a: int, b: int) -> Seq<usize> { Seq::new((if b > a { b - a } else { 0 }) as nat, |i: int| (a + i) as usize) }
/// the directed edges along a vertex list
pub open spec fn path(s: Seq<usize>) -> Seq<Edge> { Seq::new((if s.len() > 0 { s.len() - 1 } else { 0 }) as nat, |i: int| (s[i], s[i + 1])) }
/// the directed edges of a cyclic vertex list
pub open spec fn ring(s: Seq<usize>) -> Seq<Edge> { path(s.push(s[0])) }
/// the sum of a weight over directed edges. An indicator as weight counts an edge, the cross product measures area.
pub open spec fn wsum(s: Seq<Edge>, w: spec_fn(Edge) -> real) -> real decreases s.len() { if s.len() == 0 { 0real } else { wsum(s.drop_last(), w) + w(s.last()) } }
pub open spec fn loops_ok(points: Seq<Point2>, polygons: Seq<usize>) -> bool {
    polygons.len() >= 2 && polygons.last() <= points.len() && (forall|j: int| 0 <= j < polygons.len() - 1 ==> polygons[j] < #[trigger] polygons[j + 1])
}
pub proof fn lemma_mono(points: Seq<Point2>, polygons: Seq<usize>, i: int, j: int)
    requires loops_ok(points, polygons), 0 <= i <= j < polygons.len() ensures polygons[i] <= polygons[j], i < j ==> polygons[i] < polygons[j], polygons[j] <= points.len() decreases j - i
{ if i < j { lemma_mono(points, polygons, i, j - 1); assert(polygons[j - 1] < polygons[j - 1 + 1]); } lemma_le(points, polygons, j); }
pub proof fn lemma_le(points: Seq<Point2>, polygons: Seq<usize>, j: int)
    requires loops_ok(points, polygons), 0 <= j < polygons.len() ensures polygons[j] <= points.len() decreases polygons.len() - j
{ if j < polygons.len() - 1 { assert(polygons[j] < polygons[j + 1]); lemma_le(points, polygons, j + 1); } }
pub proof fn lemma_wsum_cat(a: Seq<Edge>, b: Seq<Edge>, w: spec_fn(Edge) -> real) ensures wsum(a + b, w) == wsum(a, w) + wsum(b, w) decreases b.len()
{ if b.len() > 0 { assert((a + b).drop_last() =~= a + b.drop_last()); assert((a + b).last() == b.last()); lemma_wsum_cat(a, b.drop_last(), w); } else { assert(a + b =~= a); } }
pub proof fn lemma_wsum_one(e: Edge, w: spec_fn(Edge) -> real) ensures wsum(seq![e], w) == w(e) { assert(seq![e].drop_last() =~= Seq::<Edge>::empty()); assert(wsum(seq![e].drop_last(), w) == 0real); }
