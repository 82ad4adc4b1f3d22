@include ../lib/std.rs
@subst dyn:Any VxAny
@subst dyn:TypeKeyObjectTrait VxKeyObj
@subst BTreeMap VxKeyMap
use std::any::{Any, TypeId};
verus! {
@include any.rs
/// `dyn TypeKeyObjectTrait`: a key of some key type.
#[verifier::external_body]
pub struct VxKeyObj { v: () }
pub uninterp spec fn ko_ty(a: VxKeyObj) -> TypeId;
pub uninterp spec fn ko_val<T>(a: VxKeyObj) -> T;
/// The type of the values stored under it.
pub uninterp spec fn ko_vty(a: VxKeyObj) -> TypeId;
/// The order of two keys of the same type: that type's Ord.
pub uninterp spec fn val_ord(a: VxKeyObj, b: VxKeyObj) -> Ordering;
pub axiom fn ax_val_ord<T: TypeKey>(a: VxKeyObj, b: VxKeyObj)
  requires ko_ty(a) == tid::<T>(), ko_ty(b) == tid::<T>()
  ensures val_ord(a, b) == vx_ord(ko_val::<T>(a), ko_val::<T>(b));
/// Every key type's Ord is lawful.
pub axiom fn ax_val_lawful(a: VxKeyObj, b: VxKeyObj, c: VxKeyObj)
  requires ko_ty(a) == ko_ty(b), ko_ty(b) == ko_ty(c)
  ensures (val_ord(a, b) is Equal) == (a == b), (val_ord(a, b) is Less) == (val_ord(b, a) is Greater),
    val_ord(a, b) is Less && val_ord(b, c) is Less ==> val_ord(a, c) is Less;
/// A key is its type and its value.
pub uninterp spec fn kobj<T: TypeKey>(x: T) -> VxKeyObj;
pub broadcast axiom fn ax_kobj<T: TypeKey>(x: T)
  ensures ko_ty(#[trigger] kobj(x)) == tid::<T>(), ko_val::<T>(kobj(x)) == x, ko_vty(kobj(x)) == tid::<T::ValueType>();
pub broadcast axiom fn ax_kobj_ext<T: TypeKey>(a: VxKeyObj)
  requires ko_ty(a) == tid::<T>()
  ensures a == kobj::<T>(#[trigger] ko_val::<T>(a));

/// A key as `Any`.
pub uninterp spec fn any_of(a: VxKeyObj) -> VxAny;
pub broadcast axiom fn ax_any_of<T>(a: VxKeyObj)
  ensures any_ty(any_of(a)) == ko_ty(a), #[trigger] any_val::<T>(any_of(a)) == ko_val::<T>(a);

/// Keys are ordered by type first.
pub open spec fn key_ord(a: VxKeyObj, b: VxKeyObj) -> Ordering {
  vx_lex(vx_ord(ko_ty(a), ko_ty(b)), val_ord(a, b))
}
/// That order is lawful, and finds equal exactly equal keys of the same type.
pub proof fn lemma_key_ord(a: VxKeyObj, b: VxKeyObj, c: VxKeyObj)
  ensures (key_ord(a, b) is Equal) == (a == b), (key_ord(a, b) is Less) == (key_ord(b, a) is Greater),
    key_ord(a, b) is Less && key_ord(b, c) is Less ==> key_ord(a, c) is Less
{
  let (x, y, z) = (ko_ty(a), ko_ty(b), ko_ty(c));
  ax_ord_eq(x, y); ax_ord_eq(y, z); ax_ord_eq(x, z); ax_ord_eq(y, x);
  ax_ord_anti(x, y); ax_ord_anti(y, x);
  if vx_ord(x, y) is Less && vx_ord(y, z) is Less { ax_ord_trans(x, y, z); }
  if x == y { ax_val_lawful(a, b, b); ax_val_lawful(b, a, a); }
  if x == y && y == z { ax_val_lawful(a, b, c); }
}
pub trait VxLawful: Sized {
  spec fn o(a: Self, b: Self) -> Ordering;
  proof fn laws(a: Self, b: Self, c: Self)
    ensures (Self::o(a, b) is Equal) == (a == b), (Self::o(a, b) is Less) == (Self::o(b, a) is Greater),
      Self::o(a, b) is Less && Self::o(b, c) is Less ==> Self::o(a, c) is Less;
  /// What the map calls.
  fn vx_order(&self, x: &Self) -> (r: Ordering) ensures r == Self::o(*self, *x);
}
/// Borrow for keys: the borrowed form is compared like the key.
pub trait VxBorrows<Q: VxLawful>: VxLawful {
  spec fn borrowed(a: Self) -> Q;
  proof fn same_order(a: Self, b: Self) ensures Self::o(a, b) == Q::o(Self::borrowed(a), Self::borrowed(b)), (a == b) == (Self::borrowed(a) == Self::borrowed(b));
  fn vx_borrowed(&self) -> (r: &Q) ensures *r == Self::borrowed(*self);
}
/// BTreeMap over keys whose order is proved lawful.
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct VxKeyMap<K, V> { m: BTreeMap<K, V> }
impl<K, V> View for VxKeyMap<K, V> { type V = Map<K, V>; uninterp spec fn view(&self) -> Map<K, V>; }
impl<K: VxLawful, V> VxKeyMap<K, V> {
  #[verifier::external_body]
  pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
  #[verifier::external_body]
  pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
    ensures final(self)@ == old(self)@.insert(k, v), r == (if old(self)@.contains_key(k) { Some(old(self)@[k]) } else { None })
  { unimplemented!() }
  #[verifier::external_body]
  pub fn get<Q: VxLawful>(&self, q: &Q) -> (r: Option<&V>) where K: VxBorrows<Q>
    ensures match r { Some(v) => exists|k: K| #[trigger] self@.contains_key(k) && K::borrowed(k) == *q && *v == self@[k], None => forall|k: K| #[trigger] self@.contains_key(k) ==> K::borrowed(k) != *q }
  { unimplemented!() }
  #[verifier::external_body]
  pub fn contains_key<Q: VxLawful>(&self, q: &Q) -> (r: bool) where K: VxBorrows<Q>
    ensures r == exists|k: K| #[trigger] self@.contains_key(k) && K::borrowed(k) == *q
  { unimplemented!() }
  #[verifier::external_body]
  pub fn remove<Q: VxLawful>(&mut self, q: &Q) -> (r: Option<V>) where K: VxBorrows<Q>
    ensures match r { Some(v) => exists|k: K| #[trigger] old(self)@.contains_key(k) && K::borrowed(k) == *q && v == old(self)@[k] && final(self)@ == old(self)@.remove(k), None => final(self)@ == old(self)@ && forall|k: K| #[trigger] old(self)@.contains_key(k) ==> K::borrowed(k) != *q }
  { unimplemented!() }
  #[verifier::external_body]
  pub fn vx_get_mut<Q: VxLawful>(&mut self, q: &Q) -> (r: Option<&mut V>) where K: VxBorrows<Q>
    ensures match r {
      Some(v) => exists|k: K| #[trigger] old(self)@.contains_key(k) && K::borrowed(k) == *q && *v == old(self)@[k] && final(self)@ == old(self)@.insert(k, *final(v)),
      None => final(self)@ == old(self)@ && forall|k: K| #[trigger] old(self)@.contains_key(k) ==> K::borrowed(k) != *q }
  { unimplemented!() }
  #[verifier::external_body]
  pub fn append(&mut self, o: &mut Self)
    ensures final(self)@ == old(self)@.union_prefer_right(old(o)@), final(o)@ == Map::<K, V>::empty()
  { unimplemented!() }
  #[verifier::external_body]
  pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == Map::<K, V>::empty()) { unimplemented!() }
}

@trait src/utils/type_map.rs TypeKey
@end
@trait src/utils/type_map.rs TypeKeyObjectTrait
  spec fn obj(&self) -> VxKeyObj;
@method as_any -> r
  ensures *r == any_of(self.obj())
@method cmp_concrete -> r
  ensures r == key_ord(self.obj(), *other)
@end
/// A trait object calls its own type's methods.
impl TypeKeyObjectTrait for VxKeyObj {
  open spec fn obj(&self) -> VxKeyObj { *self }
  #[verifier::external_body] fn as_any(&self) -> (r: &VxAny) { unimplemented!() }
  #[verifier::external_body] fn cmp_concrete(&self, other: &VxKeyObj) -> (r: Ordering) { unimplemented!() }
}
impl<T: TypeKeyObjectTrait> VxUnsize<VxKeyObj> for T {
  open spec fn vx_us(&self, r: &VxKeyObj) -> bool { *r == self.obj() }
  #[verifier::external_body] fn vx_un(&self) -> (r: &VxKeyObj) { unimplemented!() }
}
@impl src/utils/type_map.rs TypeKeyObjectTrait for T
  open spec fn obj(&self) -> VxKeyObj { kobj(*self) }
@method as_any
.end
  proof { ax_kobj(*self); ax_any_of::<T>(kobj(*self)); ax_any_ext::<T>(*vx_tail, any_of(kobj(*self))); }
.unsize
@method cmp_concrete
.start
  proof {
    ax_kobj(*self); ax_any_of::<T>(*other);
    if ko_ty(*other) == tid::<T>() { ax_val_ord::<T>(kobj(*self), *other); }
    ax_ord_eq(tid::<T>(), ko_ty(*other));
  }
@end
@impl src/utils/type_map.rs Ord for dyn TypeKeyObjectTrait +inherent
@method cmp -> r
  ensures r == key_ord(*self, *other)
@end
@impl src/utils/type_map.rs PartialOrd for dyn TypeKeyObjectTrait +inherent
@method partial_cmp -> r
  ensures r == Some(key_ord(*self, *other))
@end
@impl src/utils/type_map.rs PartialEq for dyn TypeKeyObjectTrait +inherent
@method eq -> r
  ensures r == (*self == *other)
.start
  proof { lemma_key_ord(*self, *other, *self); }
@end
@type src/utils/type_map.rs TypeKeyObject
@impl src/utils/type_map.rs Ord for TypeKeyObject +inherent
@method cmp -> r
  ensures r == key_ord(*self.0, *other.0)
@end
@impl src/utils/type_map.rs PartialOrd for TypeKeyObject +inherent
@method partial_cmp -> r
  ensures r == Some(key_ord(*self.0, *other.0))
@end
@impl src/utils/type_map.rs PartialEq for TypeKeyObject +inherent
@method eq -> r
  ensures r == (*self == *other)
@end
@impl src/utils/type_map.rs Borrow<dynTypeKeyObjectTrait> for TypeKeyObject +inherent
@method borrow -> r
  ensures *r == *self.0
.unsize
@end
impl VxLawful for VxKeyObj {
  open spec fn o(a: Self, b: Self) -> Ordering { key_ord(a, b) }
  proof fn laws(a: Self, b: Self, c: Self) { lemma_key_ord(a, b, c); }
  fn vx_order(&self, x: &Self) -> (r: Ordering) { self.vx_cmp(x) }
}
impl VxLawful for TypeKeyObject {
  open spec fn o(a: Self, b: Self) -> Ordering { key_ord(*a.0, *b.0) }
  proof fn laws(a: Self, b: Self, c: Self) { lemma_key_ord(*a.0, *b.0, *c.0); }
  fn vx_order(&self, x: &Self) -> (r: Ordering) { self.vx_cmp(x) }
}
impl VxBorrows<VxKeyObj> for TypeKeyObject {
  open spec fn borrowed(a: Self) -> VxKeyObj { *a.0 }
  proof fn same_order(a: Self, b: Self) {}
  fn vx_borrowed(&self) -> (r: &VxKeyObj) { self.borrow() }
}
@type src/utils/type_map.rs TypeMap
/// Every value is of the type its key says.
pub open spec fn tm_wf(m: TypeMap) -> bool { forall|k: TypeKeyObject| #[trigger] m.0@.contains_key(k) ==> any_ty(*m.0@[k]) == ko_vty(*k.0) }
pub open spec fn mk(o: VxKeyObj) -> TypeKeyObject { TypeKeyObject(Box::new(o)) }
/// The entry of a key of any type.
pub open spec fn entry(m: TypeMap, o: VxKeyObj) -> Option<VxAny> { if m.0@.contains_key(mk(o)) { Some(*m.0@[mk(o)]) } else { None } }
/// What is stored under a key of type T.
pub open spec fn stored<T: TypeKey>(m: TypeMap, x: T) -> Option<T::ValueType> {
  match entry(m, kobj(x)) { Some(a) => Some(any_val::<T::ValueType>(a)), None => None }
}
pub proof fn lemma_entries(m: TypeMap)
  ensures forall|k: TypeKeyObject| #![trigger m.0@.contains_key(k)] #![trigger m.0@[k]] m.0@.contains_key(k) ==> entry(m, *k.0) == Some(*m.0@[k]),
{
  assert forall|k: TypeKeyObject| #![trigger m.0@.contains_key(k)] #![trigger m.0@[k]] m.0@.contains_key(k) implies entry(m, *k.0) == Some(*m.0@[k]) by { assert(mk(*k.0) == k); }
}
@fn src/utils/type_map.rs TypeMap::new -> r
  ensures tm_wf(r), forall|o: VxKeyObj| #[trigger] entry(r, o) is None
@end
@fn src/utils/type_map.rs TypeMap::insert
  requires tm_wf(*old(self))
  ensures tm_wf(*final(self)), stored(*final(self), key) == Some(value),
    forall|o: VxKeyObj| o != kobj(key) ==> #[trigger] entry(*final(self), o) == entry(*old(self), o)
.unsize
.start
  proof { ax_kobj(key); }
  let ghost gk = key;
.end
  proof { lemma_entries(*old(self)); lemma_entries(*self); }
@end
@fn src/utils/type_map.rs TypeMap::get -> r
  requires tm_wf(*self)
  ensures match r { Some(v) => stored(*self, *key) == Some(*v), None => stored(*self, *key) is None }
.desugar map
.unsize
.start
  proof { ax_kobj(*key); lemma_entries(*self); }
@end
@fn src/utils/type_map.rs TypeMap::get_mut -> r
  requires tm_wf(*old(self))
  ensures tm_wf(*final(self)),
    match r { Some(v) => stored(*old(self), *key) == Some(*v) && stored(*final(self), *key) == Some(*final(v)), None => stored(*old(self), *key) is None && stored(*final(self), *key) is None },
    forall|o: VxKeyObj| o != kobj(*key) ==> #[trigger] entry(*final(self), o) == entry(*old(self), o)
.desugar map
.unsize
.start
  proof { ax_kobj(*key); lemma_entries(*self); }
@end
@fn src/utils/type_map.rs TypeMap::merge
  requires tm_wf(*old(self)), tm_wf(*old(other))
  ensures tm_wf(*final(self)), tm_wf(*final(other)),
    forall|o: VxKeyObj| #[trigger] entry(*final(self), o) == (if entry(*old(other), o) is Some { entry(*old(other), o) } else { entry(*old(self), o) }),
    forall|o: VxKeyObj| #[trigger] entry(*final(other), o) is None
.end
  proof { lemma_entries(*old(self)); lemma_entries(*old(other)); lemma_entries(*self); }
@end
/// Keys of different types have different entries, and so have different keys of one type.
proof fn lemma_types<T: TypeKey, U: TypeKey>(x: T, y: U)
  ensures tid::<T>() != tid::<U>() ==> kobj(x) != kobj(y)
{ ax_kobj(x); ax_kobj(y); }
proof fn lemma_keys<T: TypeKey>(x: T, y: T)
  ensures (kobj(x) == kobj(y)) == (x == y)
{ ax_kobj(x); ax_kobj(y); }
} // verus!
