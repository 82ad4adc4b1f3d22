// Model of `dyn Any`: a value of some type, known only by its TypeId.  Trusted (see DESIGN.md).
#[verifier::external_trait_specification]
pub trait ExAny: 'static { type ExternalTraitSpecificationFor: Any; }
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExTypeId(std::any::TypeId);
/// Two types are the same iff their identifiers are.
pub uninterp spec fn tid<T: ?Sized>() -> TypeId;
pub assume_specification<T: 'static + ?Sized>[TypeId::of::<T>]() -> (r: TypeId) ensures r == tid::<T>();
#[verifier::external_body]
pub struct VxAny { v: () }
pub uninterp spec fn any_ty(a: VxAny) -> TypeId;
pub uninterp spec fn any_val<T>(a: VxAny) -> T;
pub open spec fn any_is<T>(a: VxAny, x: T) -> bool { any_ty(a) == tid::<T>() && any_val::<T>(a) == x }
/// A value of type T is known by its type and the value.
pub axiom fn ax_any_ext<T>(a: VxAny, b: VxAny)
  requires any_ty(a) == tid::<T>(), any_ty(b) == tid::<T>(), any_val::<T>(a) == any_val::<T>(b)
  ensures a == b;
#[verifier::external]
impl std::fmt::Debug for VxAny { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
impl VxAny {
  #[verifier::external_body]
  pub fn type_id(&self) -> (r: TypeId) ensures r == any_ty(*self) { unimplemented!() }
  #[verifier::external_body]
  pub fn downcast_ref<T: Any>(&self) -> (r: Option<&T>)
    ensures match r { Some(x) => any_is(*self, *x), None => any_ty(*self) != tid::<T>() }
  { unimplemented!() }
  #[verifier::external_body]
  pub fn downcast_mut<T: Any>(&mut self) -> (r: Option<&mut T>)
    ensures match r { Some(x) => any_is(*old(self), *x) && any_is(*final(self), *final(x)), None => any_ty(*old(self)) != tid::<T>() && *final(self) == *old(self) }
  { unimplemented!() }
}
/// `&T` to `&dyn Trait`, `Box<T>` to `Box<dyn Trait>`, `Rc<T>` to `Rc<dyn Trait>`.
pub trait VxUnsize<U> { spec fn vx_us(&self, r: &U) -> bool; fn vx_un(&self) -> (r: &U) ensures self.vx_us(r); }
impl<T: Any> VxUnsize<VxAny> for T {
  open spec fn vx_us(&self, r: &VxAny) -> bool { any_is(*r, *self) }
  #[verifier::external_body] fn vx_un(&self) -> (r: &VxAny) { unimplemented!() }
}
pub fn vx_unsize<U, T: VxUnsize<U>>(x: &T) -> (r: &U) ensures x.vx_us(r) { x.vx_un() }
#[verifier::external_body]
pub fn vx_box_unsize<U, T: VxUnsize<U>>(x: T) -> (r: Box<U>) ensures x.vx_us(&*r) { unimplemented!() }
#[verifier::external_body]
pub fn vx_rc_unsize<U, T: VxUnsize<U>>(x: T) -> (r: Rc<U>) ensures x.vx_us(&*r) { unimplemented!() }
