// std shims: slices and vectors. Contracts are the documented behaviour of the std functions they stand for.
pub fn vx_assert(b: bool) requires b { }
#[verifier::external_body]
pub fn vx_unreachable() -> !
    requires false
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_vec_repeat<T>(x: T, n: usize) -> (v: Vec<T>)
    ensures v@.len() == n, forall|i: int| 0 <= i < n ==> v@[i] == x
{ unimplemented!() }
pub fn vx_min(a: usize, b: usize) -> (r: usize) ensures r == (if a < b { a } else { b }) { if a < b { a } else { b } }
pub fn vx_range_len(a: usize, b: usize) -> (r: usize) ensures r == (if a < b { b - a } else { 0int }) { if a < b { b - a } else { 0 } }
pub fn vx_windows_len(n: usize, k: usize) -> (r: usize)
    requires k > 0 // slice::windows panics on 0
    ensures r == (if n >= k { n - k + 1 } else { 0int })
{ if n >= k { n - k + 1 } else { 0 } }
pub fn vx_chunks_len(n: usize, k: usize) -> (r: usize)
    requires k > 0
    ensures r == (if n % k == 0 { n as int / k as int } else { n as int / k as int + 1 }), n % k == 0 ==> r * k == n
{
    proof { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n as int, k as int);
            vstd::arithmetic::mul::lemma_mul_is_commutative((n as int) / (k as int), k as int);
            assert((n as int) / (k as int) <= n as int) by { vstd::arithmetic::div_mod::lemma_div_is_ordered_by_denominator(n as int, 1, k as int); };
            if n % k != 0 { assert(k >= 2); assert(((n as int) / (k as int)) < (n as int)) by { vstd::arithmetic::div_mod::lemma_div_decreases(n as int, k as int); } } }
    if n % k == 0 { n / k } else { n / k + 1 }
}
pub fn vx_chunks_exact_len(n: usize, k: usize) -> (r: usize)
    requires k > 0
    ensures r == n as int / k as int
{ n / k }
pub trait VxSeq<T> {
    spec fn vx_view(&self) -> Seq<T>;
    fn vx_slice(&self, lo: usize, hi: usize) -> (r: &[T])
        requires lo <= hi <= self.vx_view().len()
        ensures r@ == self.vx_view().subrange(lo as int, hi as int);
    fn vx_chunk(&self, i: usize, k: usize) -> (r: &[T])
        requires k > 0, i * k < self.vx_view().len()
        ensures r@ == self.vx_view().subrange(i * k, if i * k + k <= self.vx_view().len() { i * k + k } else { self.vx_view().len() as int });
}
impl<T> VxSeq<T> for Vec<T> {
    open spec fn vx_view(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_slice(&self, lo: usize, hi: usize) -> (r: &[T]) { unimplemented!() }
    #[verifier::external_body]
    fn vx_chunk(&self, i: usize, k: usize) -> (r: &[T]) { unimplemented!() }
}
impl<T> VxSeq<T> for [T] {
    open spec fn vx_view(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_slice(&self, lo: usize, hi: usize) -> (r: &[T]) { unimplemented!() }
    #[verifier::external_body]
    fn vx_chunk(&self, i: usize, k: usize) -> (r: &[T]) { unimplemented!() }
}
// by-value iteration over a vector of Copy items reads them in order
pub trait VxMove<T> {
    spec fn vx_mview(&self) -> Seq<T>;
    fn vx_move(&self, i: usize) -> (r: T)
        requires i < self.vx_mview().len()
        ensures r == self.vx_mview()[i as int];
}
impl<T> VxMove<T> for Vec<T> {
    open spec fn vx_mview(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_move(&self, i: usize) -> (r: T) { unimplemented!() }
}
impl<T, const N: usize> VxMove<T> for [T; N] {
    open spec fn vx_mview(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_move(&self, i: usize) -> (r: T) { unimplemented!() }
}
pub trait VxToVec<T> { spec fn vx_tview(&self) -> Seq<T>; fn vx_to_vec(&self) -> (r: Vec<T>) ensures r@ == self.vx_tview(); }
impl<T> VxToVec<T> for [T] { open spec fn vx_tview(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_to_vec(&self) -> (r: Vec<T>) { unimplemented!() } }
impl<T> VxToVec<T> for Vec<T> { open spec fn vx_tview(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_to_vec(&self) -> (r: Vec<T>) { unimplemented!() } }
pub trait VxClone { fn vx_clone(&self) -> (r: Self) where Self: Sized ensures r == *self; }
impl<T> VxClone for T { #[verifier::external_body] fn vx_clone(&self) -> (r: Self) { unimplemented!() } }
#[verifier::external_body]
pub fn vx_extend_from_slice<T>(v: &mut Vec<T>, s: &[T])
    ensures final(v)@ == old(v)@ + s@
{ unimplemented!() }
// rand::random::<f64>(): any value of [0, 1)
#[verifier::external_body]
pub fn vx_random() -> (r: Float) ensures 0real <= r.v() < 1real { unimplemented!() }
pub trait VxReverse<T> { spec fn rev_view(&self) -> Seq<T>; fn vx_reverse(&mut self) ensures final(self).rev_view() == old(self).rev_view().reverse(); }
impl<T> VxReverse<T> for Vec<T> {
    open spec fn rev_view(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_reverse(&mut self) { }
}
