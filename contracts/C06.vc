//@ include div_strict.rs float.rs points.rs std.rs grid.rs
//@ use lib_util.vc
//@ raw
/// a parametric surface: its evaluator is a function of the parameters
pub trait Surface {
    spec fn sp(&self, u: Float, v: Float) -> Point3;
    fn get_point(&self, u: Float, v: Float) -> (r: Point3) ensures r == self.sp(u, v);
    spec fn sn(&self, params: Seq<Point2>) -> Seq<Vec3>;
    fn get_normals(&self, params: &[Point2]) -> (r: Vec<Vec3>) ensures r@ == self.sn(params@), r@.len() == 0 || r@.len() == params@.len();
}
//@ struct TriangleMesh
//@ struct SurfacePatch
//@ raw
pub open spec fn cell(row: int, col: int, cols: int) -> int { (row * (cols - 1) + col) * 6 }
pub open spec fn vid(row: int, col: int, cols: int) -> int { row * cols + col }
/// the k-th index entry of the two triangles of a cell
pub open spec fn tri_entry(row: int, col: int, cols: int, k: int) -> int {
    if k == 0 { vid(row, col, cols) } else if k == 1 { vid(row + 1, col, cols) } else if k == 2 { vid(row, col + 1, cols) }
    else if k == 3 { vid(row, col + 1, cols) } else if k == 4 { vid(row + 1, col, cols) } else { vid(row + 1, col + 1, cols) }
}
pub open spec fn cell_ok(t: Seq<u32>, row: int, col: int, cols: int) -> bool {
    let b = cell(row, col, cols);
    b + 6 <= t.len() && t[b] == tri_entry(row, col, cols, 0) && t[b + 1] == tri_entry(row, col, cols, 1) && t[b + 2] == tri_entry(row, col, cols, 2)
    && t[b + 3] == tri_entry(row, col, cols, 3) && t[b + 4] == tri_entry(row, col, cols, 4) && t[b + 5] == tri_entry(row, col, cols, 5)
}
pub open spec fn grid_tris(t: Seq<u32>, rows: int, cols: int) -> bool {
    &&& t.len() == (rows - 1) * (cols - 1) * 6
    &&& forall|r: int, c: int| 0 <= r < rows - 1 && 0 <= c < cols - 1 ==> #[trigger] cell_ok(t, r, c, cols)
}
pub proof fn lemma_vid(rows: int, cols: int, row: int, col: int)
    requires 0 <= row < rows, 0 <= col < cols
    ensures 0 <= vid(row, col, cols) < rows * cols, row * cols >= 0, row * cols + cols <= rows * cols
{ assert(0 <= row * cols + col < rows * cols && row * cols >= 0 && row * cols + cols <= rows * cols) by(nonlinear_arith) requires 0 <= row < rows, 0 <= col < cols; }
/// only valid vertices, and the six directed edges of a cell: the diagonal is shared inside the cell in opposite directions
pub open spec fn edge(t: Seq<u32>, tri: int, k: int) -> (u32, u32) { (t[tri * 3 + k], t[tri * 3 + (if k == 2 { 0 } else { k + 1 })]) }
pub open spec fn opposite(a: (u32, u32), b: (u32, u32)) -> bool { a.0 == b.1 && a.1 == b.0 }
pub proof fn theorem_grid_edges(t: Seq<u32>, rows: int, cols: int, r: int, c: int)
    requires grid_tris(t, rows, cols), 0 <= r < rows - 1, 0 <= c < cols - 1
    ensures ({ let a = 2 * (r * (cols - 1) + c); let b = a + 1;
        // every entry is a vertex
        &&& forall|k: int| 0 <= k < 6 ==> 0 <= #[trigger] t[3 * a + k] < rows * cols
        // diagonal
        &&& opposite(edge(t, a, 1), edge(t, b, 0))
        // left edge with the cell to the left, top edge with the cell above
        &&& c > 0 ==> opposite(edge(t, a, 0), edge(t, 2 * (r * (cols - 1) + c - 1) + 1, 2))
        &&& r > 0 ==> opposite(edge(t, a, 2), edge(t, 2 * ((r - 1) * (cols - 1) + c) + 1, 1)) })
{
    let a = 2 * (r * (cols - 1) + c);
    assert(cell_ok(t, r, c, cols));
    assert(3 * a == cell(r, c, cols));
    lemma_vid(rows, cols, r, c); lemma_vid(rows, cols, r + 1, c); lemma_vid(rows, cols, r, c + 1); lemma_vid(rows, cols, r + 1, c + 1);
    assert forall|k: int| 0 <= k < 6 implies 0 <= #[trigger] t[3 * a + k] < rows * cols by { assert(t[cell(r, c, cols) + k] == tri_entry(r, c, cols, k)); }
    if c > 0 { assert(cell_ok(t, r, c - 1, cols)); }
    if r > 0 { assert(cell_ok(t, r - 1, c, cols)); }
}
//@ fn create_triangles params=grid ret=r loops=2
    requires grid.nrows() >= 1, grid.ncols() >= 1, grid.nrows() * grid.ncols() <= 0x1_0000_0000, (grid.nrows() - 1) * (grid.ncols() - 1) * 6 <= usize::MAX
    ensures grid_tris(r@, grid.nrows() as int, grid.ncols() as int)
//@ loop 0
    rows == grid.nrows(), cols == grid.ncols(), $e0 == rows - 1,
    triangles@.len() == $i0 * (cols - 1) * 6, forall|a: int, b: int| 0 <= a < $i0 && 0 <= b < cols - 1 ==> #[trigger] cell_ok(triangles@, a, b, cols as int),
//@ loop 0.0
    rows == grid.nrows(), cols == grid.ncols(), row < rows - 1,
    triangles@.len() == (row * (cols - 1) + $i0_0) * 6, forall|a: int, b: int| 0 <= a < row && 0 <= b < cols - 1 ==> #[trigger] cell_ok(triangles@, a, b, cols as int),
    forall|b: int| 0 <= b < $i0_0 ==> #[trigger] cell_ok(triangles@, row as int, b, cols as int),
//@ ghost loop0.0.start
    let ghost t0 = triangles@;
    proof { let (a, b, n, m) = (row as int, $j0_0 as int, rows as int, cols as int);
        lemma_vid(n, m, a, b); lemma_vid(n, m, a + 1, b); lemma_vid(n, m, a, b + 1); lemma_vid(n, m, a + 1, b + 1); 
        assert((a + 1) * m == a * m + m) by(nonlinear_arith); }
//@ ghost loop0.0.end
    proof {
        assert(cell_ok(triangles@, row as int, col as int, cols as int));
        assert forall|a: int, b: int| 0 <= a < row && 0 <= b < cols - 1 implies #[trigger] cell_ok(triangles@, a, b, cols as int) by {
            assert(cell_ok(t0, a, b, cols as int)); lemma_cell_le(a, b, row as int, col as int, cols as int); }
        assert forall|b: int| 0 <= b < $i0_0 implies #[trigger] cell_ok(triangles@, row as int, b, cols as int) by {
            if b < col { assert(cell_ok(t0, row as int, b, cols as int)); } }
    }
//@ ghost loop0.end
    proof { let m = cols - 1; let a = row as int; assert((a + 1) * m * 6 == (a * m + m) * 6) by(nonlinear_arith); }
//@ raw
pub proof fn lemma_cell_le(a: int, b: int, row: int, col: int, cols: int)
    requires 0 <= a < row, 0 <= b < cols - 1, 0 <= col
    ensures 0 <= cell(a, b, cols), cell(a, b, cols) + 6 <= cell(row, col, cols)
{ let m = cols - 1; assert(a * m + b + 1 <= row * m && a * m >= 0) by(nonlinear_arith) requires 0 <= a < row, 0 <= b < m; }
pub open spec fn patch_ok<S: Surface>(p: SurfacePatch<S>) -> bool {
    let (n, m) = (p.parameter_division.0 as int, p.parameter_division.1 as int);
    1 <= n && 1 <= m && (n + 1) * (m + 1) <= 0x1_0000_0000 && n * m * 6 <= usize::MAX
}
/// the vertex belonging to the i-th and j-th parameter
pub open spec fn patch_param<S: Surface>(p: SurfacePatch<S>, i: int, j: int) -> Point2 {
    Point2 { x: fl(udiv(p.parameter_range.0.0.v(), p.parameter_range.0.1.v(), p.parameter_division.0 as int, i)), y: fl(udiv(p.parameter_range.1.0.v(), p.parameter_range.1.1.v(), p.parameter_division.1 as int, j)) }
}
pub open spec fn psp<S: Surface>(p: SurfacePatch<S>, i: int, j: int) -> Point3 { p.surface.sp(patch_param(p, i, j).x, patch_param(p, i, j).y) }
//@ fn SurfacePatch<S>::get_points implgen=<S:~Surface> params=params ret=r loops=1
    ensures r@.len() == params@.len(), forall|k: int| 0 <= k < r@.len() ==> #[trigger] r@[k] == self.surface.sp(params@[k].x, params@[k].y)
//@ loop 0
    $n0 == params@.len(), forall|k: int| 0 <= k < $i0 ==> #[trigger] $out0@[k] == self.surface.sp(params@[k].x, params@[k].y),
//@ fn SurfacePatch<S>::get_point_grid implgen=<S:~Surface> ret=r loops=2
    requires patch_ok(*self)
    ensures r.nrows() == self.parameter_division.0 + 1, r.ncols() == self.parameter_division.1 + 1,
        forall|i: int, j: int| #![trigger r.at(i, j)] 0 <= i <= self.parameter_division.0 && 0 <= j <= self.parameter_division.1 ==> r.at(i, j) == psp(*self, i, j)
//@ ghost start
    let ghost w = self.parameter_division.1 + 1;
//@ loop 0
    u_div == self.parameter_division.0, v_div == self.parameter_division.1, w == v_div + 1,
    $n0 == u_div + 1, $s0@.len() == $n0, v_parameters@.len() == w,
    forall|i: int| #![trigger $s0@[i]] 0 <= i <= u_div ==> fl($s0@[i].v()) == patch_param(*self, i, 0).x,
    forall|j: int| #![trigger v_parameters@[j]] 0 <= j < w ==> fl(v_parameters@[j].v()) == patch_param(*self, 0, j).y,
    forall|a: int, b: int| #![trigger $out0@[a * w + b]] 0 <= a < $i0 && 0 <= b < w ==> $out0@[a * w + b] == psp(*self, a, b),
    $out0@.len() == $i0 * w,
//@ loop 0.0
    u_div == self.parameter_division.0, v_div == self.parameter_division.1, w == v_div + 1,
    $n0 == u_div + 1, $s0@.len() == $n0, v_parameters@.len() == w,
    forall|i: int| #![trigger $s0@[i]] 0 <= i <= u_div ==> fl($s0@[i].v()) == patch_param(*self, i, 0).x,
    forall|j: int| #![trigger v_parameters@[j]] 0 <= j < w ==> fl(v_parameters@[j].v()) == patch_param(*self, 0, j).y,
    forall|a: int, b: int| #![trigger $out0@[a * w + b]] 0 <= a < $j0 && 0 <= b < w ==> $out0@[a * w + b] == psp(*self, a, b),
    forall|b: int| #![trigger $out0@[$j0 * w + b]] 0 <= b < $i0_0 ==> $out0@[$j0 * w + b] == psp(*self, $j0 as int, b),
    $out0@.len() == $j0 * w + $i0_0, $n0_0 == w, $s0_0@ == v_parameters@, $j0 < $n0, fl(u.v()) == patch_param(*self, $j0 as int, 0).x,
//@ ghost loop0.0.start
    let ghost old_p = $out0@;
//@ ghost loop0.0.end
    proof {
        assert(old_p.len() == $j0 * w + $j0_0);
        assert($out0@[$j0 * w + $j0_0] == psp(*self, $j0 as int, $j0_0 as int));
        assert forall|a: int, b: int| #![trigger $out0@[a * w + b]] 0 <= a < $j0 && 0 <= b < w implies $out0@[a * w + b] == psp(*self, a, b) by {
            lemma_rm(a, b, $j0 as int, w as int); assert($out0@[a * w + b] == old_p[a * w + b]); }
    }
//@ ghost loop0.start
    proof { lemma_rm_step($j0 as int, w as int); }
//@ ghost loop0.after
    proof { lemma_rm_div(u_div + 1, w as int); }
//@ raw
pub open spec fn param_seq<S: Surface>(p: SurfacePatch<S>) -> Seq<Point2> {
    let (n, m) = (p.parameter_division.0 + 1, p.parameter_division.1 + 1);
    Seq::new((n * m) as nat, |k: int| patch_param(p, k / m, k % m))
}
pub proof fn lemma_rm_split(k: int, n: int, m: int)
    requires 0 <= k < n * m, m >= 1
    ensures 0 <= k / m < n, 0 <= k % m < m, (k / m) * m + k % m == k
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(k, m); vstd::arithmetic::div_mod::lemma_mod_bound(k, m);
    let q = k / m; let c = k % m; assert(m * q == q * m) by(nonlinear_arith);
    assert(0 <= q < n) by(nonlinear_arith) requires q * m + c == k, 0 <= c < m, 0 <= k < n * m;
}
/// (r, c) is one of the up to four grid neighbours of (row, col)
pub open spec fn nbr(r: int, c: int, row: int, col: int, n: int, m: int) -> bool {
    0 <= r < n && 0 <= c < m && (((r == row - 1 || r == row + 1) && c == col) || (r == row && (c == col - 1 || c == col + 1)))
}
pub open spec fn adj(q: int, k: int, n: int, m: int) -> bool { 0 <= q < n * m && nbr(q / m, q % m, k / m, k % m, n, m) }
/// what the repair of undefined normals does to the k-th normal
pub open spec fn repaired(o: Seq<Vec3>, f: Seq<Vec3>, k: int, n: int, m: int) -> bool {
    if !o[k].undef() { f[k] == o[k] }
    else {
        &&& f[k].undef() ==> f[k] == o[k] && forall|q: int| #[trigger] adj(q, k, n, m) ==> o[q].undef()
        &&& !f[k].undef() ==> exists|q: int| #[trigger] adj(q, k, n, m) && f[q] == f[k]
    }
}
pub proof fn lemma_adj(r: int, c: int, k: int, n: int, m: int)
    requires m >= 1, n >= 1, 0 <= k < n * m, nbr(r, c, k / m, k % m, n, m)
    ensures adj(r * m + c, k, n, m), r * m + c != k, 0 <= r * m + c < n * m
{
    lemma_rm(r, c, n, m); lemma_rm_split(k, n, m);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(r * m + c, m, r, c);
}
/// index i of the table at position (row, col), neighbours listed in l
pub open spec fn nbrs_of(l: Seq<(usize, usize)>, i: int, n: int, m: int) -> bool {
    &&& forall|t: int| 0 <= t < l.len() ==> #[trigger] isnbr(l[t], i, n, m)
    &&& forall|r: int, c: int| #[trigger] nbr(r, c, i / m, i % m, n, m) ==> exists|t: int| 0 <= t < l.len() && #[trigger] is_rc(l[t], r, c)
}
pub open spec fn is_rc(p: (usize, usize), r: int, c: int) -> bool { p.0 == r && p.1 == c }
pub open spec fn isnbr(p: (usize, usize), i: int, n: int, m: int) -> bool { nbr(p.0 as int, p.1 as int, i / m, i % m, n, m) }
pub open spec fn val_at(f: Seq<Vec3>, p: (usize, usize), m: int) -> Vec3 { f[p.0 * m + p.1] }
pub open spec fn search(f: Seq<Vec3>, l: Seq<(usize, usize)>, upto: int, found: Option<Vec3>, m: int) -> bool {
    match found {
        None => forall|t: int| 0 <= t < upto ==> (#[trigger] val_at(f, l[t], m)).undef(),
        Some(x) => !x.undef() && exists|t: int| 0 <= t < l.len() && x == #[trigger] val_at(f, l[t], m),
    }
}
pub open spec fn upto(o: Seq<Vec3>, f: Seq<Vec3>, i: int, n: int, m: int) -> bool {
    &&& o.len() == f.len() && (o.len() == 0 || o.len() == n * m)
    &&& forall|k: int| 0 <= k < i ==> #[trigger] repaired(o, f, k, n, m)
    &&& forall|k: int| i <= k < o.len() ==> #[trigger] f[k] == o[k]
}
pub proof fn lemma_keep(o: Seq<Vec3>, f: Seq<Vec3>, i: int, n: int, m: int)
    requires upto(o, f, i, n, m), 0 <= i < o.len(), !f[i].undef()
    ensures upto(o, f, i + 1, n, m)
{ assert(repaired(o, f, i, n, m)); }
pub proof fn lemma_none(o: Seq<Vec3>, f: Seq<Vec3>, l: Seq<(usize, usize)>, i: int, n: int, m: int)
    requires upto(o, f, i, n, m), 0 <= i < o.len(), n >= 1, m >= 1, f[i].undef(), nbrs_of(l, i, n, m), search(f, l, l.len() as int, None, m)
    ensures upto(o, f, i + 1, n, m)
{
    assert(repaired(o, f, i, n, m)) by {
        assert forall|q: int| #[trigger] adj(q, i, n, m) implies o[q].undef() by {
            lemma_rm_split(q, n, m);
            assert(nbr(q / m, q % m, i / m, i % m, n, m));
            let t = choose|t: int| 0 <= t < l.len() && #[trigger] is_rc(l[t], q / m, q % m);
            assert(val_at(f, l[t], m) == f[q]);
            if q < i { assert(repaired(o, f, q, n, m)); }
        }
    }
}
pub proof fn lemma_some(o: Seq<Vec3>, f: Seq<Vec3>, l: Seq<(usize, usize)>, x: Vec3, i: int, n: int, m: int)
    requires upto(o, f, i, n, m), 0 <= i < o.len(), n >= 1, m >= 1, f[i].undef(), nbrs_of(l, i, n, m), search(f, l, l.len() as int, Some(x), m)
    ensures upto(o, f.update(i, x), i + 1, n, m)
{
    let g = f.update(i, x);
    let t = choose|t: int| 0 <= t < l.len() && x == #[trigger] val_at(f, l[t], m);
    assert(isnbr(l[t], i, n, m));
    lemma_adj(l[t].0 as int, l[t].1 as int, i, n, m);
    let q = l[t].0 * m + l[t].1;
    assert(adj(q, i, n, m) && g[q] == x && g[i] == x);
    assert(repaired(o, g, i, n, m));
    assert forall|k: int| 0 <= k < i + 1 implies #[trigger] repaired(o, g, k, n, m) by {
        if k < i {
            assert(repaired(o, f, k, n, m));
            if o[k].undef() && !f[k].undef() {
                let q = choose|q: int| #[trigger] adj(q, k, n, m) && f[q] == f[k];
                assert(g[q] == g[k]);
            }
        }
    }
}
//@ fn SurfacePatch<S>::get_triangle_mesh implgen=<S:~Surface> ret=r hint=fm1.0:Vec3 isolate
    requires patch_ok(*self)
    ensures ({ let (n, m) = (self.parameter_division.0 + 1, self.parameter_division.1 + 1);
        &&& r.vertices@.len() == n * m
        &&& forall|i: int, j: int| 0 <= i < n && 0 <= j < m ==> #[trigger] rm_at(r.vertices@, i, j, m) == psp(*self, i, j)
        &&& grid_tris(r.triangles@, n, m) }),
      ({ let (n, m) = (self.parameter_division.0 + 1, self.parameter_division.1 + 1); let o = self.surface.sn(param_seq(*self));
        r.normals@.len() == o.len() && forall|k: int| 0 <= k < o.len() ==> #[trigger] repaired(o, r.normals@, k, n, m) }),
//@ ghost start
    hide(search); hide(grid_tris); hide(upto); hide(udiv); hide(rm_at);
    let ghost w = self.parameter_division.1 + 1;
//@ loop 0
    u_div == self.parameter_division.0, v_div == self.parameter_division.1, w == v_div + 1,
    $n0 == u_div + 1, $s0@.len() == $n0, v_parameters@.len() == w,
    forall|i: int| #![trigger $s0@[i]] 0 <= i <= u_div ==> fl($s0@[i].v()) == patch_param(*self, i, 0).x,
    forall|j: int| #![trigger v_parameters@[j]] 0 <= j < w ==> fl(v_parameters@[j].v()) == patch_param(*self, 0, j).y,
    forall|a: int, b: int| #![trigger $out0@[a * w + b]] 0 <= a < $i0 && 0 <= b < w ==> $out0@[a * w + b] == patch_param(*self, a, b),
    $out0@.len() == $i0 * w,
//@ loop 0.0
    u_div == self.parameter_division.0, v_div == self.parameter_division.1, w == v_div + 1,
    $n0 == u_div + 1, $s0@.len() == $n0, v_parameters@.len() == w,
    forall|i: int| #![trigger $s0@[i]] 0 <= i <= u_div ==> fl($s0@[i].v()) == patch_param(*self, i, 0).x,
    forall|j: int| #![trigger v_parameters@[j]] 0 <= j < w ==> fl(v_parameters@[j].v()) == patch_param(*self, 0, j).y,
    forall|a: int, b: int| #![trigger $out0@[a * w + b]] 0 <= a < $j0 && 0 <= b < w ==> $out0@[a * w + b] == patch_param(*self, a, b),
    forall|b: int| #![trigger $out0@[$j0 * w + b]] 0 <= b < $i0_0 ==> $out0@[$j0 * w + b] == patch_param(*self, $j0 as int, b),
    $out0@.len() == $j0 * w + $i0_0, $n0_0 == w, $s0_0@ == v_parameters@, $j0 < $n0, fl(u.v()) == patch_param(*self, $j0 as int, 0).x,
//@ ghost loop0.0.start
    let ghost old_p = $out0@;
//@ ghost loop0.0.end
    proof {
        assert(old_p.len() == $j0 * w + $j0_0);
        assert($out0@[$j0 * w + $j0_0] == patch_param(*self, $j0 as int, $j0_0 as int));
        assert forall|a: int, b: int| #![trigger $out0@[a * w + b]] 0 <= a < $j0 && 0 <= b < w implies $out0@[a * w + b] == patch_param(*self, a, b) by {
            lemma_rm(a, b, $j0 as int, w as int); assert($out0@[a * w + b] == old_p[a * w + b]); }
    }
//@ ghost loop0.start
    proof { lemma_rm_step($j0 as int, w as int); }
//@ ghost loop0.after
    proof { lemma_rm_div(u_div + 1, w as int); 
        assert forall|k: int| 0 <= k < $out0@.len() implies #[trigger] $out0@[k] == param_seq(*self)[k] by { lemma_rm_split(k, u_div + 1, w as int); }
        assert($out0@ =~= param_seq(*self)); }
//@ ghost loop1.before
    assert forall|i: int, j: int| 0 <= i < grid.nrows() && 0 <= j < grid.ncols() implies #[trigger] grid.at(i, j) == psp(*self, i, j) by {
        lemma_rm(i, j, grid.nrows() as int, grid.ncols() as int); assert(params@[i * w + j] == patch_param(*self, i, j)); }
    let ghost o = normals@;
    let ghost (gn, gm) = (u_div + 1, v_div + 1);
    assert(upto(o, normals@, 0, gn, gm)) by { reveal(upto); }
//@ loop 1
    o.len() == normals@.len(), o.len() == 0 || o.len() == gn * gm, 1 <= gn, 1 <= gm, gm == v_div + 1, gn == u_div + 1, grid.nrows() == gn, grid.ncols() == gm, $e1 == o.len(), gn * gm <= 0x1_0000_0000, upto(o, normals@, $i1 as int, gn, gm),
//@ ghost loop1.start
    proof { lemma_rm_split($j1 as int, gn, gm); }
    let ghost before = normals@;
    let ghost mut nl: Seq<(usize, usize)> = seq![];
    let ghost mut fnd: Option<Vec3> = None;
//@ ghost loop1.0.before
    proof { nl = $s1_0@; assert(search(before, nl, 0, None, gm)) by { reveal(search); }
    assert(nbrs_of(nl, $j1 as int, gn, gm)) by {
        assert forall|r: int, c: int| #[trigger] nbr(r, c, $j1 as int / gm, $j1 as int % gm, gn, gm) implies exists|t: int| 0 <= t < nl.len() && #[trigger] is_rc(nl[t], r, c) by {
            let (row, col) = ($j1 as int / gm, $j1 as int % gm);
            let a = if row > 0 { 1int } else { 0 }; let b = if row < gn - 1 { 1int } else { 0 }; let d = if col > 0 { 1int } else { 0 };
            if r == row - 1 { assert(is_rc(nl[0], r, c)); } else if r == row + 1 { assert(is_rc(nl[a], r, c)); } else if c == col - 1 { assert(is_rc(nl[a + b], r, c)); } else { assert(is_rc(nl[a + b + d], r, c)); }
        } } }
//@ loop 1.0
    before == normals@, $s1_0@ == nl, $n1_0 == nl.len(), nbrs_of(nl, $j1 as int, gn, gm), search(before, nl, $i1_0 as int, $fm1_0, gm),
    $j1 < o.len(), o.len() == before.len(), o.len() == gn * gm, 1 <= gn, 1 <= gm, gm == v_div + 1, gn * gm <= 0x1_0000_0000, grid.ncols() == gm,
//@ ghost loop1.0.start
    proof { let t = $i1_0 - 1; assert(isnbr(nl[t], $j1 as int, gn, gm)); lemma_adj(nl[t].0 as int, nl[t].1 as int, $j1 as int, gn, gm); 
        assert(nl[t].0 * gm <= nl[t].0 * gm + nl[t].1);  }
//@ ghost loop1.0.end
    reveal(search); assert(val_at(before, nl[$i1_0 - 1], gm) == before[nl[$i1_0 - 1].0 * gm + nl[$i1_0 - 1].1]);
//@ ghost loop1.0.after
    proof { fnd = $fm1_0; assert(search(before, nl, nl.len() as int, fnd, gm)) by { reveal(search); } }
//@ ghost loop1.after
    proof { assert(forall|k: int| 0 <= k < o.len() ==> #[trigger] repaired(o, normals@, k, gn, gm)) by { reveal(upto); } }
//@ ghost loop1.end
    proof { assert(before[$j1 as int] == o[$j1 as int]) by { reveal(upto); }
        if !before[$j1 as int].undef() { lemma_keep(o, before, $j1 as int, gn, gm); }
        else if fnd is None { lemma_none(o, before, nl, $j1 as int, gn, gm); }
        else { lemma_some(o, before, nl, fnd->0, $j1 as int, gn, gm); assert(normals@ =~= before.update($j1 as int, fnd->0)); }
    }
