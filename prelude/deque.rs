// Sorting, binary search, integer remainders and the two-ended queue (lowered to Vec: both are sequences). Documented std behaviour.
pub use core::cmp::Ordering;
pub trait VxRem: Sized {
    spec fn rem_req(self, n: Self) -> bool;
    spec fn rem_ens(self, n: Self, r: Self) -> bool;
    fn vx_rem_euclid(self, n: Self) -> (r: Self) requires self.rem_req(n) ensures self.rem_ens(n, r);
}
impl VxRem for usize {
    open spec fn rem_req(self, n: usize) -> bool { n > 0 }
    open spec fn rem_ens(self, n: usize, r: usize) -> bool { r == self as int % n as int }
    fn vx_rem_euclid(self, n: usize) -> (r: usize) { self % n }
}
pub trait VxCmp { spec fn cmp_of(&self, o: &Self) -> core::cmp::Ordering; fn vx_cmp(&self, o: &Self) -> (r: core::cmp::Ordering) ensures r == self.cmp_of(o); }
impl VxCmp for usize {
    open spec fn cmp_of(&self, o: &usize) -> core::cmp::Ordering { if *self < *o { core::cmp::Ordering::Less } else if *self == *o { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater } }
    fn vx_cmp(&self, o: &usize) -> (r: core::cmp::Ordering) { if *self < *o { core::cmp::Ordering::Less } else if *self == *o { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater } }
}
/// std's sort leaves no item greater than its successor
#[verifier::external_body]
pub fn vx_assume_ordered(o: core::cmp::Ordering) ensures o != core::cmp::Ordering::Greater { }
pub open spec fn sorted(s: Seq<usize>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] <= s[j] }
pub trait VxDeque<T> {
    spec fn dv(&self) -> Seq<T>;
    /// some permutation
    fn vx_permute(&mut self) ensures final(self).dv().to_multiset() == old(self).dv().to_multiset();
    fn push_back(&mut self, x: T) ensures final(self).dv() == old(self).dv().push(x);
    fn push_front(&mut self, x: T) ensures final(self).dv() == seq![x] + old(self).dv();
    fn pop_back(&mut self) -> (r: Option<T>)
        ensures old(self).dv().len() == 0 ==> r is None && final(self).dv() == old(self).dv(),
            old(self).dv().len() > 0 ==> r == Some(old(self).dv().last()) && final(self).dv() == old(self).dv().drop_last();
    fn pop_front(&mut self) -> (r: Option<T>)
        ensures old(self).dv().len() == 0 ==> r is None && final(self).dv() == old(self).dv(),
            old(self).dv().len() > 0 ==> r == Some(old(self).dv()[0]) && final(self).dv() == old(self).dv().skip(1);
    /// the item is replaced by the first one, which leaves the queue
    fn swap_remove_front(&mut self, i: usize) -> (r: Option<T>)
        ensures i >= old(self).dv().len() ==> r is None && final(self).dv() == old(self).dv(),
            i < old(self).dv().len() ==> r == Some(old(self).dv()[i as int]) && final(self).dv() == old(self).dv().update(i as int, old(self).dv()[0]).skip(1);
    fn swap_remove_back(&mut self, i: usize) -> (r: Option<T>)
        ensures i >= old(self).dv().len() ==> r is None && final(self).dv() == old(self).dv(),
            i < old(self).dv().len() ==> r == Some(old(self).dv()[i as int]) && final(self).dv() == old(self).dv().update(i as int, old(self).dv().last()).drop_last();
}
impl<T> VxDeque<T> for Vec<T> {
    open spec fn dv(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_permute(&mut self) { }
    #[verifier::external_body]
    fn push_back(&mut self, x: T) { }
    #[verifier::external_body]
    fn push_front(&mut self, x: T) { }
    #[verifier::external_body]
    fn pop_back(&mut self) -> (r: Option<T>) { unimplemented!() }
    #[verifier::external_body]
    fn pop_front(&mut self) -> (r: Option<T>) { unimplemented!() }
    #[verifier::external_body]
    fn swap_remove_front(&mut self, i: usize) -> (r: Option<T>) { unimplemented!() }
    #[verifier::external_body]
    fn swap_remove_back(&mut self, i: usize) -> (r: Option<T>) { unimplemented!() }
}
pub trait VxSort { spec fn uv(&self) -> Seq<usize>; fn vx_sort(&mut self) ensures sorted(final(self).uv()), final(self).uv().to_multiset() == old(self).uv().to_multiset(), final(self).uv().len() == old(self).uv().len(); }
impl VxSort for Vec<usize> {
    open spec fn uv(&self) -> Seq<usize> { self@ }
    #[verifier::external_body]
    fn vx_sort(&mut self) { }
}
pub trait VxSearch { spec fn bv(&self) -> Seq<usize>; fn vx_binary_search(&self, x: &usize) -> (r: core::result::Result<usize, usize>)
    ensures match r { Ok(i) => i < self.bv().len() && self.bv()[i as int] == *x, Err(_) => sorted(self.bv()) ==> !self.bv().contains(*x) }; }
impl VxSearch for Vec<usize> {
    open spec fn bv(&self) -> Seq<usize> { self@ }
    #[verifier::external_body]
    fn vx_binary_search(&self, x: &usize) -> (r: core::result::Result<usize, usize>) { unimplemented!() }
}
impl VxSearch for [usize] {
    open spec fn bv(&self) -> Seq<usize> { self@ }
    #[verifier::external_body]
    fn vx_binary_search(&self, x: &usize) -> (r: core::result::Result<usize, usize>) { unimplemented!() }
}
