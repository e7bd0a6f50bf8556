// grid::Grid<T> 0.4: row-major table; grid[i] is the i-th row
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Grid<T> { v: Vec<T> }
pub open spec fn rm_at<T>(s: Seq<T>, i: int, j: int, m: int) -> T { s[i * m + j] }
impl<T> Grid<T> {
    pub uninterp spec fn nrows(&self) -> nat;
    pub uninterp spec fn ncols(&self) -> nat;
    pub uninterp spec fn at(&self, i: int, j: int) -> T;
    #[verifier::external_body]
    pub fn size(&self) -> (r: (usize, usize)) ensures r.0 == self.nrows(), r.1 == self.ncols() { unimplemented!() }
    #[verifier::external_body]
    pub fn rows(&self) -> (r: usize) ensures r == self.nrows() { unimplemented!() }
    #[verifier::external_body]
    pub fn cols(&self) -> (r: usize) ensures r == self.ncols() { unimplemented!() }
    pub uninterp spec fn row(&self, i: int) -> &[T];
    // from_vec panics unless the length is a multiple of cols (and treats an empty vector specially)
    #[verifier::external_body]
    pub fn from_vec(v: Vec<T>, cols: usize) -> (r: Grid<T>)
        requires cols > 0, v@.len() > 0, v@.len() % cols as nat == 0
        ensures r.ncols() == cols, r.nrows() * cols == v@.len(), r.nrows() == v@.len() as int / cols as int,
            forall|i: int, j: int| #![trigger r.at(i, j)] 0 <= i < r.nrows() && 0 <= j < cols ==> r.at(i, j) == v@[i * cols + j]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn into_vec(self) -> (r: Vec<T>)
        ensures r@.len() == self.nrows() * self.ncols(),
            forall|i: int, j: int| #![trigger self.at(i, j)] #![trigger rm_at(r@, i, j, self.ncols() as int)] 0 <= i < self.nrows() && 0 <= j < self.ncols() ==> rm_at(r@, i, j, self.ncols() as int) == self.at(i, j)
    { unimplemented!() }
}
pub broadcast axiom fn ax_grid_row<T>(g: Grid<T>, i: int)
    requires 0 <= i < g.nrows()
    ensures (#[trigger] g.row(i))@.len() == g.ncols(),
        forall|j: int| 0 <= j < g.ncols() ==> g.row(i)@[j] == #[trigger] g.at(i, j);
impl<T> IndexSpecImpl<usize> for Grid<T> {
    open spec fn index_req(&self, i: &usize) -> bool { *i < self.nrows() }
}
impl<T> core::ops::Index<usize> for Grid<T> {
    type Output = [T];
    #[verifier::external_body]
    fn index(&self, i: usize) -> (r: &[T])
        ensures r@.len() == self.ncols(), forall|j: int| 0 <= j < self.ncols() ==> r@[j] == #[trigger] self.at(i as int, j)
    { unimplemented!() }
}
