//@ raw
/// between the two ends of a range, whichever is larger
pub open spec fn within(x: real, range: (Float, Float)) -> bool { (range.0.v() <= x <= range.1.v()) || (range.1.v() <= x <= range.0.v()) }
/// a parametric curve: defined on a set of parameters, where its evaluator is a function of the parameter
pub trait Curve {
    spec fn dom(&self, u: real) -> bool;
    spec fn at(&self, u: real) -> Point3;
    fn get_point(&self, u: Float) -> (r: Point3) requires self.dom(u.v()) ensures r == self.at(u.v());
}
/// r is the first entry at minimal distance
pub open spec fn first_nearest(s: Seq<Point3>, p: Point3, r: int) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> dist2_3(p, s[r]) <= #[trigger] dist2_3(p, s[i])
    &&& forall|i: int| 0 <= i < r ==> dist2_3(p, s[r]) < #[trigger] dist2_3(p, s[i])
}
pub open spec fn far_ok(s: Seq<Point3>, p: Point3) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] dist2_3(p, s[i]) < rmaxval() }
pub open spec fn rdist(x: real, y: real) -> real { if x >= y { x - y } else { y - x } }
//@ fn clamp_in_range params=value,range ret=r
    ensures within(r.v(), range), within(value.v(), range) ==> r.v() == value.v(),
        // the nearest value of the range
        forall|x: real| within(x, range) ==> rdist(r.v(), value.v()) <= #[trigger] rdist(x, value.v()),
//@ raw
pub proof fn lemma_range_at(a: real, b: real, t: real)
    ensures 0real <= t <= 1real ==> ((a <= a + (b - a) * t <= b) || (b <= a + (b - a) * t <= a)), t == 0real ==> a + (b - a) * t == a, t == 1real ==> a + (b - a) * t == b
{
    if b >= a { assert(0real <= t <= 1real ==> 0real <= (b - a) * t <= b - a) by(nonlinear_arith) requires b >= a; }
    else { assert(0real <= t <= 1real ==> 0real >= (b - a) * t >= b - a) by(nonlinear_arith) requires b < a; }
    assert((b - a) * 0real == 0real && (b - a) * 1real == b - a);
}
//@ fn range_at params=range,ratio ret=r
    ensures r.v() == range.0.v() + (range.1.v() - range.0.v()) * ratio.v(), 0real <= ratio.v() <= 1real ==> within(r.v(), range),
        ratio.v() == 0real ==> r.v() == range.0.v(), ratio.v() == 1real ==> r.v() == range.1.v(),
//@ ghost start
    proof { lemma_range_at(range.0.v(), range.1.v(), ratio.v()); }
//@ fn find_nearest_point params=points,point ret=r loops=1
    requires points@.len() >= 1
    ensures r < points@.len(), far_ok(points@, point) ==> first_nearest(points@, point, r as int),
//@ loop 0
    $n0 == points@.len(), min_index < points@.len(), min_index <= $i0,
    far_ok(points@, point) ==> ({
        &&& $i0 == 0 ==> min_index == 0 && min.v() == rmaxval()
        &&& $i0 > 0 ==> min_index < $i0 && min.v() == dist2_3(point, points@[min_index as int])
        &&& forall|i: int| 0 <= i < $i0 ==> min.v() <= #[trigger] dist2_3(point, points@[i])
        &&& forall|i: int| 0 <= i < min_index ==> min.v() < #[trigger] dist2_3(point, points@[i]) }),
//@ ghost loop0.start
    assert(far_ok(points@, point) ==> dist2_3(point, points@[$j0 as int]) < rmaxval());
//@ raw
/// r is the first entry (in row order) at minimal distance
pub open spec fn first_nearest_grid(g: Grid<Point3>, p: Point3, r: int, c: int) -> bool {
    &&& 0 <= r < g.nrows() && 0 <= c < g.ncols()
    &&& forall|i: int, j: int| 0 <= i < g.nrows() && 0 <= j < g.ncols() ==> dist2_3(p, g.at(r, c)) <= dist2_3(p, #[trigger] g.at(i, j))
    &&& forall|i: int, j: int| 0 <= i < g.nrows() && 0 <= j < g.ncols() && (i < r || (i == r && j < c)) ==> dist2_3(p, g.at(r, c)) < dist2_3(p, #[trigger] g.at(i, j))
}
pub open spec fn far_ok_grid(g: Grid<Point3>, p: Point3) -> bool { forall|i: int, j: int| 0 <= i < g.nrows() && 0 <= j < g.ncols() ==> dist2_3(p, #[trigger] g.at(i, j)) < rmaxval() }
pub open spec fn before(i: int, j: int, r: int, c: int) -> bool { i < r || (i == r && j < c) }
/// state of the scan when every entry before (r, c) has been seen
pub open spec fn scan(g: Grid<Point3>, p: Point3, r: int, c: int, m: real, mi: (usize, usize)) -> bool {
    &&& r == 0 && c == 0 ==> m == rmaxval() && mi == (0usize, 0usize)
    &&& before(0, 0, r, c) ==> before(mi.0 as int, mi.1 as int, r, c) && m == dist2_3(p, g.at(mi.0 as int, mi.1 as int))
    &&& forall|i: int, j: int| 0 <= i < g.nrows() && 0 <= j < g.ncols() && before(i, j, r, c) ==> m <= dist2_3(p, #[trigger] g.at(i, j))
    &&& forall|i: int, j: int| 0 <= i < g.nrows() && 0 <= j < g.ncols() && before(i, j, mi.0 as int, mi.1 as int) ==> m < dist2_3(p, #[trigger] g.at(i, j))
}
//@ fn find_nearest_point_in_grid params=grid,point ret=r loops=2
    requires grid.nrows() >= 1, grid.ncols() >= 1
    ensures r.0 < grid.nrows(), r.1 < grid.ncols(), far_ok_grid(*grid, point) ==> first_nearest_grid(*grid, point, r.0 as int, r.1 as int),
//@ loop 0
    rows == grid.nrows(), cols == grid.ncols(), min_index.0 < rows, min_index.1 < cols,
    far_ok_grid(*grid, point) ==> scan(*grid, point, $i0 as int, 0, min.v(), min_index),
//@ loop 0.0
    rows == grid.nrows(), cols == grid.ncols(), min_index.0 < rows, min_index.1 < cols, i < rows,
    far_ok_grid(*grid, point) ==> scan(*grid, point, i as int, $i0_0 as int, min.v(), min_index),
//@ raw
pub open spec fn attained<T, F: Fn(&T) -> Float>(items: Seq<T>, key: F, v: Float) -> bool { exists|i: int| 0 <= i < items.len() && #[trigger] key.ensures((&items[i],), v) }
//@ fn get_min_max_by_key params=items,key ret=r loops=1 generics=T,F:Fn(&T)->Float
    requires items@.len() >= 1,
        forall|i: int| 0 <= i < items@.len() ==> key.requires((#[trigger] &items@[i],)),
        forall|i: int, v: Float| 0 <= i < items@.len() && #[trigger] key.ensures((&items@[i],), v) ==> -rmaxval() < v.v() < rmaxval(),
        // the key is a function of the item
        forall|i: int, v: Float, w: Float| 0 <= i < items@.len() && #[trigger] key.ensures((&items@[i],), v) && #[trigger] key.ensures((&items@[i],), w) ==> v == w,
    ensures
        forall|i: int, v: Float| 0 <= i < items@.len() && #[trigger] key.ensures((&items@[i],), v) ==> r.0.v() <= v.v() <= r.1.v(),
        attained(items@, key, r.0),
        attained(items@, key, r.1),
//@ loop 0
    $n0 == items@.len(), $i0 == 0 ==> min_value.v() == rmaxval() && max_value.v() == -rmaxval(),
    forall|i: int, v: Float| 0 <= i < $i0 && #[trigger] key.ensures((&items@[i],), v) ==> min_value.v() <= v.v() <= max_value.v(),
    $i0 > 0 ==> exists|i: int| 0 <= i < $i0 && #[trigger] key.ensures((&items@[i],), min_value),
    $i0 > 0 ==> exists|i: int| 0 <= i < $i0 && #[trigger] key.ensures((&items@[i],), max_value),
//@ ghost loop0.start
    let ghost omx = max_value; let ghost omn = min_value;
//@ ghost loop0.end
    assert(max_value != omx ==> key.ensures((&items@[$j0 as int],), max_value)); assert(min_value != omn ==> key.ensures((&items@[$j0 as int],), min_value));
    assert($j0 == 0 ==> key.ensures((&items@[$j0 as int],), max_value) && key.ensures((&items@[$j0 as int],), min_value));
//@ ghost loop0.after
    assert(attained(items@, key, max_value)); assert(attained(items@, key, min_value));
//@ raw
/// the point is one of the sampled curve points
pub open spec fn sampled<C: Curve>(c: C, range: (Float, Float), division: int, p: Point3) -> bool { exists|j: int| 0 <= j <= division && dist2_3(p, c.at(#[trigger] udiv(range.0.v(), range.1.v(), division, j))) == 0real }
pub open spec fn covers<C: Curve>(c: C, range: (Float, Float)) -> bool { forall|u: real| within(u, range) ==> #[trigger] c.dom(u) }
pub proof fn lemma_dist_zero(p: Point3, q: Point3) requires dist2_3(p, q) <= 0real ensures dist2_3(p, q) == 0real, dot3(sub3(q, p), sub3(q, p)) == 0real
{ let (x, y, z) = (p.x.v() - q.x.v(), p.y.v() - q.y.v(), p.z.v() - q.z.v()); lemma_sq_nonneg(x); lemma_sq_nonneg(y); lemma_sq_nonneg(z);
  assert(x * x == (-x) * (-x) && y * y == (-y) * (-y) && z * z == (-z) * (-z)) by(nonlinear_arith); }
//@ fn find_nearest_parameter params=curve,der1,der2,point,range,division,trials ret=r loops=2 hint=out0:Point3
    requires division >= 1, division < usize::MAX, covers(*curve, range), covers(*der1, range), covers(*der2, range),
    ensures within(r.v(), range),
        // without refinement: the nearest of the samples
        trials == 0 && (forall|x: real| within(x, range) ==> dist2_3(point, #[trigger] curve.at(x)) < rmaxval()) ==>
            forall|j: int| 0 <= j <= division ==> dist2_3(point, curve.at(r.v())) <= dist2_3(point, curve.at(#[trigger] udiv(range.0.v(), range.1.v(), division as int, j))),
        // a sampled point is found
        (forall|x: real| within(x, range) ==> dist2_3(point, #[trigger] curve.at(x)) < rmaxval()) && sampled(*curve, range, division as int, point) ==> dist2_3(point, curve.at(r.v())) == 0real,
//@ ghost start
    let ghost mut sam: Seq<Point3> = Seq::empty(); let ghost good = forall|x: real| within(x, range) ==> dist2_3(point, #[trigger] curve.at(x)) < rmaxval();
    proof { assert forall|i: int| 0 <= i <= division implies within(#[trigger] udiv(range.0.v(), range.1.v(), division as int, i), range) by { theorem_even(range.0.v(), range.1.v(), division as int, i); }; }
//@ loop 0
    forall|i: int| 0 <= i < $i0 ==> #[trigger] $out0@[i] == curve.at(parameters@[i].v()),
//@ ghost loop0.start
    assert(within(parameters@[$j0 as int].v(), range));
//@ ghost loop0.after
    proof { sam = $out0@; if good { assert forall|i: int| 0 <= i < sam.len() implies dist2_3(point, #[trigger] sam[i]) < rmaxval() by { assert(within(parameters@[i].v(), range)); }; } }
//@ ghost loop1.before
    proof { assert(good ==> forall|j: int| 0 <= j <= division ==> dist2_3(point, curve.at(u.v())) <= dist2_3(point, #[trigger] sam[j])); 
        if good { assert forall|j: int| 0 <= j <= division implies dist2_3(point, curve.at(u.v())) <= dist2_3(point, curve.at(#[trigger] udiv(range.0.v(), range.1.v(), division as int, j))) by { assert(sam[j] == curve.at(parameters@[j].v())); } } }
//@ loop 1
    within(u.v(), range), good && $i1 > 0 ==> !sampled(*curve, range, division as int, point),
    $i1 == 0 && good ==> forall|j: int| 0 <= j <= division ==> dist2_3(point, curve.at(u.v())) <= dist2_3(point, curve.at(#[trigger] udiv(range.0.v(), range.1.v(), division as int, j))),
//@ ghost loop1.start
    proof { if $j1 == 0 && good && sampled(*curve, range, division as int, point) { lemma_dist_zero(point, curve.at(u.v())); } }
//@ ghost loop1.after
    proof { if dist2_3(point, curve.at(u.v())) <= 0real { lemma_dist_zero(point, curve.at(u.v())); } }
