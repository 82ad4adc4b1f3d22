@include ../lib/std.rs
@use utils.rs
@use base.rs
@subst dyn:Any VxAny
@subst RefCell VxCell
@dropbound Error
use std::any::{Any, TypeId};
verus! {
@include any.rs
/// RefCell as state owned by whoever may borrow it: see DESIGN.md.
pub struct VxCell<T> { pub v: T }
impl<T> VxCell<T> {
  pub fn new(v: T) -> (r: Self) ensures r.v == v { VxCell { v } }
  pub fn borrow(&self) -> (r: &T) ensures *r == self.v { &self.v }
  pub fn borrow_mut(&mut self) -> (r: &mut T) ensures *r == old(self).v, final(self).v == *final(r) { &mut self.v }
}
pub trait VxRcDowncast: Sized { fn downcast<P: Any>(self) -> (r: Result<Rc<P>, Rc<VxAny>>) where Self: VxInner ensures match r { Ok(p) => any_is(self.vx_inner(), *p), Err(_) => any_ty(self.vx_inner()) != tid::<P>() }; }
pub trait VxInner { spec fn vx_inner(&self) -> VxAny; }
impl VxInner for Rc<VxAny> { open spec fn vx_inner(&self) -> VxAny { **self } }
impl VxRcDowncast for Rc<VxAny> { #[verifier::external_body] fn downcast<P: Any>(self) -> (r: Result<Rc<P>, Rc<VxAny>>) { unimplemented!() } }

@type src/grammar/passes/mod.rs NoCurrentValue
@type src/grammar/passes/mod.rs PassContext reject=T,NT,AK,AV
/// An entry of a pass that is being computed.
pub open spec fn running(a: VxAny) -> bool { any_ty(a) == tid::<NoCurrentValue>() }
/// The value is what its pass promises of its results.
pub uninterp spec fn any_pass_ok<T, NT, AK, AV>(g: &Grammar<T, NT, AK, AV>, a: VxAny) -> bool;
pub axiom fn ax_any_pass_ok<T, NT, AK, AV, P: Pass<T, NT, AK, AV>>(g: &Grammar<T, NT, AK, AV>)
  ensures forall|a: VxAny| any_ty(a) == tid::<P>() ==> #[trigger] any_pass_ok(g, a) == P::pass_ok(g, Ok(any_val::<P>(a)));
/// NoCurrentValue is private to the module and is no pass.
pub axiom fn ax_not_pass<T, NT, AK, AV, P: Pass<T, NT, AK, AV>>() ensures tid::<P>() != tid::<NoCurrentValue>();
pub open spec fn pm<'a, T, NT, AK, AV>(c: PassContext<'a, T, NT, AK, AV>) -> Map<TypeId, Rc<VxAny>> { c.passes.v@ }
pub open spec fn ent<'a, T, NT, AK, AV>(c: PassContext<'a, T, NT, AK, AV>, t: TypeId) -> Option<VxAny> { if pm(c).contains_key(t) { Some(*pm(c)[t]) } else { None } }
pub open spec fn ctx_wf<'a, T, NT, AK, AV>(c: PassContext<'a, T, NT, AK, AV>) -> bool {
  forall|t: TypeId| match #[trigger] ent(c, t) { Some(a) => running(a) || (any_ty(a) == t && any_pass_ok(c.grammar, a)), None => true }
}
/// What any number of requests may do: what is stored stays as it is, and what is new is finished.
pub open spec fn later<'a, T, NT, AK, AV>(c: PassContext<'a, T, NT, AK, AV>, d: PassContext<'a, T, NT, AK, AV>) -> bool {
  d.grammar == c.grammar
  && (forall|t: TypeId| #![trigger ent(c, t)] #![trigger ent(d, t)] match ent(c, t) { Some(a) => ent(d, t) == Some(a), None => match ent(d, t) { Some(a) => !running(a), None => true } })
}
/// The body of a pass reaches the context only through requests, so its frame is this relation's closure: the relation itself.
pub proof fn lemma_later<'a, T, NT, AK, AV>(a: PassContext<'a, T, NT, AK, AV>, b: PassContext<'a, T, NT, AK, AV>, c: PassContext<'a, T, NT, AK, AV>)
  ensures later(a, a), later(a, b) && later(b, c) ==> later(a, c)
{}
@trait src/grammar/passes/mod.rs Pass
  spec fn pass_pre(g: &Grammar<T, NT, AK, AV>) -> bool;
  spec fn pass_ok(g: &Grammar<T, NT, AK, AV>, r: Result<Self, Self::Error>) -> bool;
@method run_pass -> r
  requires Self::pass_pre(old(pass_map).grammar), ctx_wf(*old(pass_map)),
    ent(*old(pass_map), tid::<Self>()) is Some, running(ent(*old(pass_map), tid::<Self>())->Some_0),
  ensures ctx_wf(*final(pass_map)), later(*old(pass_map), *final(pass_map)), Self::pass_ok(old(pass_map).grammar, r)
.mutable pass_map
@end
@fn src/grammar/passes/mod.rs PassContext::new -> r
  ensures r.grammar == grammar, forall|t: TypeId| #[trigger] ent(r, t) is None, ctx_wf(r)
@end
@fn src/grammar/passes/mod.rs PassContext::grammar -> r
  ensures r == self.grammar
@end
@fn src/grammar/passes/mod.rs PassContext::get_pass -> r
  requires ctx_wf(*old(self)), P::pass_pre(old(self).grammar)
  ensures
    ctx_wf(*final(self)), later(*old(self), *final(self)),
    // a request of a running pass does not return
    ent(*old(self), tid::<P>()) is Some ==> !running(ent(*old(self), tid::<P>())->Some_0),
    // a finished pass is not run again
    ent(*old(self), tid::<P>()) is Some ==> r is Ok && forall|t: TypeId| #[trigger] ent(*final(self), t) == ent(*old(self), t),
    match r {
      Ok(p) => P::pass_ok(old(self).grammar, Ok(*p)) && ent(*final(self), tid::<P>()) is Some && any_is(ent(*final(self), tid::<P>())->Some_0, *p),
      Err(e) => P::pass_ok(old(self).grammar, Err(e)) && ent(*final(self), tid::<P>()) is None,
    },
.mutable self
.start
  proof { ax_not_pass::<T, NT, AK, AV, P>(); ax_any_pass_ok::<T, NT, AK, AV, P>(self.grammar); }
  let ghost mut mid = *self;
.before_call run_pass
  assert(forall|t: TypeId| t != tid::<P>() ==> #[trigger] ent(*self, t) == ent(*old(self), t));
.after_let result
  proof { mid = *self; }
.before_return 1
  assert(forall|t: TypeId| t != tid::<P>() ==> #[trigger] ent(*self, t) == ent(mid, t));
.before_let any_pass_ref
  assert(forall|t: TypeId| t != tid::<P>() ==> #[trigger] ent(*self, t) == ent(mid, t));
.guards
.unsize
.refuse panic
.before_call vx_refuse
  // nothing else is reported
  assert(ent(*old(self), tid::<P>()) is Some && running(ent(*old(self), tid::<P>())->Some_0));
@end
} // verus!
