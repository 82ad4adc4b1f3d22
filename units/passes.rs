@use utils.rs
@use base.rs
@subst dyn:Any VxAny
@dropbound Error
use std::cell::RefCell; use std::any::{Any, TypeId};
verus! {
#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct ExRefCell<T: ?Sized>(std::cell::RefCell<T>);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExTypeId(std::any::TypeId);
/// `dyn Any`
#[verifier::external_body]
pub struct VxAny { v: () }
#[verifier::external_trait_specification]
pub trait ExAny: 'static { type ExternalTraitSpecificationFor: Any; }
@type src/grammar/passes/mod.rs PassContext reject=T,NT,AK,AV
@trait src/grammar/passes/mod.rs Pass
  spec fn pass_pre(g: &Grammar<T, NT, AK, AV>) -> bool;
  spec fn pass_ok(g: &Grammar<T, NT, AK, AV>, r: Result<Self, Self::Error>) -> bool;
@method run_pass -> r
  requires Self::pass_pre(pass_map.grammar)
  ensures Self::pass_ok(pass_map.grammar, r)
@end
pub assume_specification<T>[std::cell::RefCell::<T>::new](v: T) -> std::cell::RefCell<T>;
@fn src/grammar/passes/mod.rs PassContext::new -> r
  ensures r.grammar == grammar
@end
@fn src/grammar/passes/mod.rs PassContext::grammar -> r
  ensures r == self.grammar
@end
@fn src/grammar/passes/mod.rs PassContext::get_pass trusted -> r
  requires P::pass_pre(self.grammar)
  ensures match r { Ok(p) => P::pass_ok(self.grammar, Ok(*p)), Err(e) => P::pass_ok(self.grammar, Err(e)) }
@end
} // verus!
