verus! {
// ---- the im crate: a Vector is a sequence
#[verifier::external_body]
#[verifier::reject_recursive_types(A)]
pub struct Vector<A> { v: Vec<A> }
impl<A> View for Vector<A> { type V = Seq<A>; uninterp spec fn view(&self) -> Seq<A>; }
/// Two vectors with the same elements are equal (its Eq compares elements).
pub axiom fn ax_vector_ext<A>(a: Vector<A>, b: Vector<A>) requires a@ == b@ ensures a == b;
/// A vector may hold any sequence.
pub axiom fn ax_vector_of<A>(s: Seq<A>) -> (v: Vector<A>) ensures v@ == s;
impl<A> Vector<A> {
  #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Seq::<A>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
  #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
  #[verifier::external_body] pub fn get(&self, i: usize) -> (r: Option<&A>) ensures r == (if i < self@.len() { Some(&self@[i as int]) } else { None }) { unimplemented!() }
  #[verifier::external_body] pub fn push_back(&mut self, a: A) ensures final(self)@ == old(self)@.push(a) { unimplemented!() }
  #[verifier::external_body] pub fn push_front(&mut self, a: A) ensures final(self)@ == seq![a] + old(self)@ { unimplemented!() }
  #[verifier::external_body] pub fn pop_back(&mut self) -> (r: Option<A>)
    ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@, old(self)@.len() > 0 ==> r == Some(old(self)@.last()) && final(self)@ == old(self)@.drop_last() { unimplemented!() }
  #[verifier::external_body] pub fn pop_front(&mut self) -> (r: Option<A>)
    ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@, old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.skip(1) { unimplemented!() }
  #[verifier::external_body] pub fn last(&self) -> (r: Option<&A>) ensures r == (if self@.len() > 0 { Some(&self@[self@.len() - 1]) } else { None }) { unimplemented!() }
  #[verifier::external_body] pub fn back(&self) -> (r: Option<&A>) ensures r == (if self@.len() > 0 { Some(&self@[self@.len() - 1]) } else { None }) { unimplemented!() }
  #[verifier::external_body] pub fn front(&self) -> (r: Option<&A>) ensures r == (if self@.len() > 0 { Some(&self@[0]) } else { None }) { unimplemented!() }
  #[verifier::external_body] pub fn head(&self) -> (r: Option<&A>) ensures r == (if self@.len() > 0 { Some(&self@[0]) } else { None }) { unimplemented!() }
  #[verifier::external_body] pub fn unit(a: A) -> (r: Self) ensures r@ == seq![a] { unimplemented!() }
  #[verifier::external_body] pub fn truncate(&mut self, n: usize) ensures final(self)@ == (if n < old(self)@.len() { old(self)@.take(n as int) } else { old(self)@ }) { unimplemented!() }
  #[verifier::external_body] pub fn contains(&self, a: &A) -> (r: bool) where A: PartialEq ensures r == self@.contains(*a) { unimplemented!() }
}
impl<A> std::ops::Index<usize> for Vector<A> {
  type Output = A;
  #[verifier::external_body] fn index(&self, i: usize) -> (r: &A) ensures *r == self@[i as int] { unimplemented!() }
}
impl<A> vstd::std_specs::core::IndexSpecImpl<usize> for Vector<A> { open spec fn index_req(&self, i: &usize) -> bool { *i < self@.len() } }
impl<A> VxExtend<A> for Vector<A> { open spec fn vx_ext(o: &Self, s: Seq<A>, n: &Self) -> bool { n@ == o@ + s } #[verifier::external_body] fn vx_extend<C: VxIntoIterator<Item = A>>(&mut self, c: C) { unimplemented!() } }
impl<A: Clone> Clone for Vector<A> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<A> VxIntoIterator for Vector<A> { type Item = A; open spec fn vx_seq(self) -> Seq<A> { self@ } #[verifier::external_body] fn vx_into_iter(self) -> It<A> { unimplemented!() } }
impl<'a, A> VxIntoIterator for &'a Vector<A> { type Item = &'a A; open spec fn vx_seq(self) -> Seq<&'a A> { vx_ref_seq(self@) } #[verifier::external_body] fn vx_into_iter(self) -> It<&'a A> { unimplemented!() } }
impl<'a, A: 'a> VxIter<'a> for Vector<A> { type Ref = &'a A; open spec fn vx_iter_seq(&'a self) -> Seq<&'a A> { vx_ref_seq(self@) } #[verifier::external_body] fn vx_iter(&'a self) -> It<&'a A> { unimplemented!() } }
impl<A> VxFrom<A> for Vector<A> { open spec fn vx_from(s: Seq<A>, r: Self) -> bool { r@ == s } }
impl<A> VxAtMut<A> for Vector<A> { #[verifier::external_body] fn vx_at_mut(&mut self, i: usize) -> (r: &mut A) { unimplemented!() } }
} // verus!
