@include ../lib/std.rs
@rename from vx_from_t
verus! {
@type src/utils.rs WasChanged derive=Clone,Copy,PartialEq,Eq
@type src/utils/mergeables.rs Value derive=Clone
@type src/utils/mergeables.rs ValueRef
@type src/utils/mergeables.rs ValueCow
@type src/utils/mergeables.rs MergableMap reject=K,V
@impl src/utils/mergeables.rs Clone for ValueRef
@method clone -> r
  ensures r == *self
@end
impl<'a, K, V> Copy for ValueRef<'a, K, V> {}
/// `merge_rel(a, b, c, w)`: merging `b` into `a` may give `c` and report `w`.
@trait src/utils/mergeables.rs Mergable
  spec fn merge_rel(a: &Self, b: &Self, c: &Self, w: WasChanged) -> bool;
@method merge -> r
  ensures Self::merge_rel(old(self), other, final(self), r)
@end
@fn src/utils/mergeables.rs Value::key -> r
  ensures *r == self.key
@end
@fn src/utils/mergeables.rs Value::value -> r
  ensures *r == self.value
@end
@fn src/utils/mergeables.rs Value::value_mut -> r
  ensures *r == old(self).value, final(self).value == *final(r), final(self).key == old(self).key
@end
@fn src/utils/mergeables.rs ValueRef::key -> r
  ensures *r == *self.key
@end
@fn src/utils/mergeables.rs ValueRef::value -> r
  ensures *r == *self.value
@end
@fn src/utils/mergeables.rs ValueRef::to_value -> r
  ensures r.key == *self.key, r.value == *self.value
@end
pub open spec fn cow_val<K, V>(c: ValueCow<'_, K, V>) -> (K, V) {
  match c { ValueCow::Owned(o) => (o.key, o.value), ValueCow::Borrowed(b) => (*b.key, *b.value) }
}
@fn src/utils/mergeables.rs ValueCow::as_ref -> r
  ensures (*r.key, *r.value) == cow_val(*self)
@end
@fn src/utils/mergeables.rs ValueCow::key -> r
  ensures *r == cow_val(*self).0
@end
@fn src/utils/mergeables.rs ValueCow::value -> r
  ensures *r == cow_val(*self).1
@end
@fn src/utils/mergeables.rs ValueCow::to_owned -> r
  ensures (r.key, r.value) == cow_val(*self)
@end
@fn src/utils/mergeables.rs ValueCow::into_owned -> r
  ensures (r.key, r.value) == cow_val(self)
@end
@impl src/utils/mergeables.rs From<&'aValue<K,V>> for ValueRef
  open spec fn vx_conv(t: &'a Value<K, V>) -> Self { ValueRef { key: &t.key, value: &t.value } }
@end
@impl src/utils/mergeables.rs From<&'aValue<K,V>> for ValueCow
  open spec fn vx_conv(t: &'a Value<K, V>) -> Self { ValueCow::Borrowed(ValueRef { key: &t.key, value: &t.value }) }
@end
@impl src/utils/mergeables.rs From<ValueRef<'a,K,V>> for ValueCow
  open spec fn vx_conv(t: ValueRef<'a, K, V>) -> Self { ValueCow::Borrowed(t) }
@end
@impl src/utils/mergeables.rs From<Value<K,V>> for ValueCow
  open spec fn vx_conv(t: Value<K, V>) -> Self { ValueCow::Owned(t) }
@end
/// What an insertion of (k, v) does: the whole of the property.
pub open spec fn mm_ins<K, V: Mergable>(a: Map<K, V>, k: K, v: V, b: Map<K, V>, w: WasChanged) -> bool {
  if a.contains_key(k) { b == a.insert(k, b[k]) && V::merge_rel(&a[k], &v, &b[k], w) } else { b == a.insert(k, v) && w is Changed }
}
@fn src/utils/mergeables.rs MergableMap::new -> r
  ensures r.map@ == Map::<K, V>::empty()
@end
@impl src/utils/mergeables.rs Default for MergableMap +inherent
@method default -> r
  ensures r.map@ == Map::<K, V>::empty()
@end
@fn src/utils/mergeables.rs MergableMap::insert -> r
  ensures mm_ins(old(self).map@, val.key, val.value, final(self).map@, r)
@end
@fn src/utils/mergeables.rs MergableMap::get_entry -> r
  ensures match r { Some(e) => self.map@.contains_key(*key) && *e.key == *key && *e.value == self.map@[*key], None => !self.map@.contains_key(*key) }
.desugar map
@end
@fn src/utils/mergeables.rs MergableMap::insert_cow -> r
  ensures ({ let (k, v) = cow_val(val.vx_into_spec()); mm_ins(old(self).map@, k, v, final(self).map@, r) })
@end
} // verus!
