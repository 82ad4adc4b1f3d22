// Model of the parts of std (and imbl) that the extracted code uses.  Everything
// here is trusted; DESIGN.md lists it.  Iterators are modelled as eager sequences.
#![allow(unused_imports, unused_variables, unused_mut, dead_code, non_camel_case_types, unused_parens, unused_braces, non_snake_case, path_statements, unused_assignments, unreachable_code)]
use vstd::prelude::*;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;
use std::rc::Rc;
use vstd::laws_cmp::obeys_cmp;
use std::cmp::Ordering;
use std::cmp;

verus! {
broadcast use {vstd::std_specs::btree::group_btree_axioms, vxlib::group_vx};
use vxlib::*;
pub mod vxlib {
use super::*;

pub open spec fn vx_id<T>(a: T) -> bool { true }
pub open spec fn vx_same<T>(a: T, b: T) -> bool { a == b }
pub open spec fn vx_cloned<T>(a: T) -> T { a }

// ---- assumption: every key type's Ord is a lawful total order consistent with equality
pub broadcast axiom fn ax_obeys_cmp<T: Ord>() ensures #[trigger] obeys_cmp::<T>();

pub broadcast proof fn lemma_vec_len<T>(v: Vec<T>) ensures #[trigger] v@.len() <= usize::MAX
{ broadcast use vstd::std_specs::vec::axiom_spec_len; assert(vstd::std_specs::vec::spec_vec_len(&v) == v@.len()); }

// ---- comparison: every Ord is a lawful total order whose Equal is equality
pub uninterp spec fn vx_ord<T>(a: T, b: T) -> std::cmp::Ordering;
pub broadcast axiom fn ax_ord_eq<T>(a: T, b: T) ensures (#[trigger] vx_ord(a, b) is Equal) == (a == b);
pub broadcast axiom fn ax_ord_anti<T>(a: T, b: T) ensures (#[trigger] vx_ord(a, b) is Less) == (vx_ord(b, a) is Greater);
pub axiom fn ax_ord_trans<T>(a: T, b: T, c: T) requires vx_ord(a, b) is Less, vx_ord(b, c) is Less ensures vx_ord(a, c) is Less;
pub broadcast axiom fn ax_ord_usize(a: usize, b: usize) ensures (#[trigger] vx_ord(a, b) is Less) == (a < b);
pub trait VxCmp {
    fn vx_cmp(&self, o: &Self) -> (r: std::cmp::Ordering) where Self: Sized ensures r == vx_ord(*self, *o);
    fn vx_partial_cmp(&self, o: &Self) -> (r: Option<std::cmp::Ordering>) where Self: Sized ensures r == Some(vx_ord(*self, *o));
}
impl<T: Ord> VxCmp for T {
    #[verifier::external_body] fn vx_cmp(&self, o: &Self) -> (r: std::cmp::Ordering) { unimplemented!() }
    #[verifier::external_body] fn vx_partial_cmp(&self, o: &Self) -> (r: Option<std::cmp::Ordering>) { unimplemented!() }
}
pub open spec fn vx_lex(a: std::cmp::Ordering, b: std::cmp::Ordering) -> std::cmp::Ordering { if a is Equal { b } else { a } }
pub trait VxThen: Sized {
    spec fn vx_o(self) -> std::cmp::Ordering;
    fn vx_then_with<F: FnOnce() -> std::cmp::Ordering>(self, f: F) -> (r: std::cmp::Ordering)
        requires call_requires(f, ())
        ensures self.vx_o() is Equal ==> call_ensures(f, (), r), !(self.vx_o() is Equal) ==> r == self.vx_o();
}
impl VxThen for std::cmp::Ordering {
    open spec fn vx_o(self) -> std::cmp::Ordering { self }
    #[verifier::external_body]
    fn vx_then_with<F: FnOnce() -> std::cmp::Ordering>(self, f: F) -> (r: std::cmp::Ordering) { unimplemented!() }
}

// ---- the order in which a BTreeSet yields its elements (a map yields its keys in this order)
pub uninterp spec fn vx_set_seq<T>(s: Set<T>) -> Seq<T>;
pub broadcast axiom fn ax_set_seq<T>(s: Set<T>)
    ensures (#[trigger] vx_set_seq(s)).no_duplicates(), vx_set_seq(s).to_set() == s, vx_set_seq(s).len() == s.len();
/// It is the ascending order of the elements.
pub axiom fn ax_set_seq_ord<T>(s: Set<T>, i: int, j: int)
    requires 0 <= i < j < vx_set_seq(s).len() ensures vx_ord(vx_set_seq(s)[i], vx_set_seq(s)[j]) is Less;
pub broadcast proof fn ax_set_seq_contains<T>(s: Set<T>, x: T)
    ensures #[trigger] vx_set_seq(s).contains(x) == s.contains(x)
{ ax_set_seq(s); }
pub broadcast proof fn ax_set_seq_index<T>(s: Set<T>, i: int)
    requires 0 <= i < vx_set_seq(s).len()
    ensures s.contains(#[trigger] vx_set_seq(s)[i])
{ ax_set_seq_contains(s, vx_set_seq(s)[i]); assert(vx_set_seq(s).contains(vx_set_seq(s)[i])); }

pub open spec fn vx_ref_seq<'a, T>(s: Seq<T>) -> Seq<&'a T> { Seq::new(s.len(), |i: int| &s[i]) }
pub open spec fn vx_deref_seq<'a, T>(s: Seq<&'a T>) -> Seq<T> { Seq::new(s.len(), |i: int| *s[i]) }
pub broadcast proof fn lemma_deref_ref<'a, T>(s: Seq<T>) ensures #[trigger] vx_deref_seq(vx_ref_seq::<'a, T>(s)) == s { assert(vx_deref_seq(vx_ref_seq::<'a, T>(s)) =~= s); }
pub open spec fn vx_map_seq<K, V>(m: Map<K, V>) -> Seq<(K, V)> {
    Seq::new(vx_set_seq(m.dom()).len(), |i: int| (vx_set_seq(m.dom())[i], m[vx_set_seq(m.dom())[i]]))
}
pub open spec fn vx_map_ref_seq<'a, K, V>(m: Map<K, V>) -> Seq<(&'a K, &'a V)> {
    Seq::new(vx_set_seq(m.dom()).len(), |i: int| (&vx_set_seq(m.dom())[i], &m[vx_set_seq(m.dom())[i]]))
}
pub open spec fn vx_map_vals_seq<'a, K, V>(m: Map<K, V>) -> Seq<&'a V> {
    Seq::new(vx_set_seq(m.dom()).len(), |i: int| &m[vx_set_seq(m.dom())[i]])
}
pub broadcast proof fn lemma_ref_contains<'a, T>(s: Seq<T>, x: &'a T) ensures #[trigger] vx_ref_seq::<'a, T>(s).contains(x) == s.contains(*x)
{ if s.contains(*x) { let i = s.index_of(*x); assert(vx_ref_seq::<'a, T>(s)[i] == x); } if vx_ref_seq::<'a, T>(s).contains(x) { let i = vx_ref_seq::<'a, T>(s).index_of(x); assert(s[i] == *x); } }
pub broadcast proof fn lemma_deref_contains<'a, T>(s: Seq<&'a T>, x: T) ensures #[trigger] vx_deref_seq(s).contains(x) == s.contains(&x)
{ if s.contains(&x) { let i = s.index_of(&x); assert(vx_deref_seq(s)[i] == x); } if vx_deref_seq(s).contains(x) { let i = vx_deref_seq(s).index_of(x); assert(s[i] == &x); } }
pub broadcast proof fn lemma_add_contains<T>(a: Seq<T>, b: Seq<T>, x: T) ensures #[trigger] (a + b).contains(x) == (a.contains(x) || b.contains(x))
{
    if a.contains(x) { let i = a.index_of(x); assert((a + b)[i] == x); }
    if b.contains(x) { let i = b.index_of(x); assert((a + b)[a.len() + i] == x); }
    if (a + b).contains(x) { let i = (a + b).index_of(x); if i < a.len() { assert(a[i] == x); } else { assert(b[i - a.len()] == x); } }
}
pub broadcast proof fn lemma_map_ref_contains<'a, K, V>(m: Map<K, V>, p: (&'a K, &'a V)) ensures #[trigger] vx_map_ref_seq(m).contains(p) == (m.contains_key(*p.0) && m[*p.0] == *p.1)
{
    broadcast use {ax_set_seq_contains, ax_set_seq_index};
    let s = vx_set_seq(m.dom());
    if m.contains_key(*p.0) && m[*p.0] == *p.1 { assert(s.contains(*p.0)); let i = s.index_of(*p.0); assert(vx_map_ref_seq(m)[i] == p); }
    if vx_map_ref_seq(m).contains(p) { let i = vx_map_ref_seq(m).index_of(p); assert(s.contains(s[i])); }
}
pub broadcast proof fn lemma_map_contains<K, V>(m: Map<K, V>, p: (K, V)) ensures #[trigger] vx_map_seq(m).contains(p) == (m.contains_key(p.0) && m[p.0] == p.1)
{
    broadcast use {ax_set_seq_contains, ax_set_seq_index};
    let s = vx_set_seq(m.dom());
    if m.contains_key(p.0) && m[p.0] == p.1 { assert(s.contains(p.0)); let i = s.index_of(p.0); assert(vx_map_seq(m)[i] == p); }
    if vx_map_seq(m).contains(p) { let i = vx_map_seq(m).index_of(p); assert(s.contains(s[i])); }
}
pub broadcast proof fn lemma_map_vals_contains<'a, K, V>(m: Map<K, V>, v: &'a V) ensures #[trigger] vx_map_vals_seq(m).contains(v) == exists|k: K| #[trigger] m.contains_key(k) && m[k] == *v
{
    broadcast use {ax_set_seq_contains, ax_set_seq_index};
    let s = vx_set_seq(m.dom());
    if exists|k: K| #[trigger] m.contains_key(k) && m[k] == *v { let k = choose|k: K| #[trigger] m.contains_key(k) && m[k] == *v; assert(s.contains(k)); let i = s.index_of(k); assert(vx_map_vals_seq(m)[i] == v); }
    if vx_map_vals_seq(m).contains(v) { let i = vx_map_vals_seq(m).index_of(v); assert(s.contains(s[i])); assert(m.contains_key(s[i])); }
}
pub open spec fn vx_map_of<K, V>(s: Seq<(K, V)>) -> Map<K, V> decreases s.len() {
    if s.len() == 0 { Map::empty() } else { vx_map_of(s.drop_last()).insert(s.last().0, s.last().1) }
}

/// The elements at the first n positions.
pub open spec fn vx_pre<T>(s: Seq<T>, n: int) -> Set<T> { s.take(n).to_set() }
pub proof fn vx_step<T>(s: Seq<T>, n: int)
    requires 0 < n <= s.len()
    ensures vx_pre(s, n) == vx_pre(s, n - 1).insert(s[n - 1]), s.contains(s[n - 1]), s.to_set().contains(s[n - 1])
{
    let a = s.take(n); let b = s.take(n - 1);
    assert forall|x: T| #[trigger] a.to_set().contains(x) == b.to_set().insert(s[n - 1]).contains(x) by {
        if a.contains(x) { let i = a.index_of(x); if i < n - 1 { assert(b[i] == x); } }
        if b.contains(x) { let i = b.index_of(x); assert(a[i] == x); }
        assert(a[n - 1] == s[n - 1]);
    }
    assert(vx_pre(s, n) =~= vx_pre(s, n - 1).insert(s[n - 1]));
}
pub proof fn vx_ends<T>(s: Seq<T>)
    ensures vx_pre(s, 0) == Set::<T>::empty(), vx_pre(s, s.len() as int) == s.to_set()
{ assert(s.take(s.len() as int) =~= s); assert(vx_pre(s, 0) =~= Set::<T>::empty()); }

pub broadcast proof fn vx_uncons<T>(s: Seq<T>)
    requires s.len() > 0
    ensures s.to_set() == (#[trigger] s.skip(1).to_set()).insert(s[0])
{
    let b = s.skip(1);
    assert forall|x: T| s.to_set().contains(x) == b.to_set().insert(s[0]).contains(x) by {
        if s.contains(x) { let i = s.index_of(x); if i > 0 { assert(b[i - 1] == x); } }
        if b.contains(x) { let i = b.index_of(x); assert(s[i + 1] == x); }
    }
    assert(s.to_set() =~= b.to_set().insert(s[0]));
}

// ---- iterators
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct It<T> { v: std::vec::IntoIter<T> }
impl<T> View for It<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
impl<T: Clone> Clone for It<T> { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }

pub open spec fn vx_filter_map_rel<T, U>(s: Seq<T>, f: spec_fn(T, Option<U>) -> bool, r: Seq<U>) -> bool {
    exists|o: Seq<Option<U>>| #![trigger vx_somes(o)] o.len() == s.len() && (forall|i: int| #![trigger o[i]] #![trigger s[i]] 0 <= i < s.len() ==> f(s[i], o[i])) && r == vx_somes(o)
}
pub open spec fn vx_somes<U>(o: Seq<Option<U>>) -> Seq<U> decreases o.len() {
    if o.len() == 0 { Seq::empty() } else { match o.last() { Some(x) => vx_somes(o.drop_last()).push(x), None => vx_somes(o.drop_last()) } }
}
pub broadcast proof fn lemma_somes_contains<U>(o: Seq<Option<U>>, x: U)
    ensures #[trigger] vx_somes(o).contains(x) == o.contains(Some(x))
    decreases o.len()
{
    if o.len() > 0 {
        lemma_somes_contains(o.drop_last(), x);
        let p = o.drop_last();
        if vx_somes(o).contains(x) {
            let i = vx_somes(o).index_of(x);
            if i < vx_somes(p).len() { assert(vx_somes(p)[i] == x); assert(vx_somes(p).contains(x)); let j = p.index_of(Some(x)); assert(o[j] == Some(x)); } else { assert(o[o.len() - 1] == Some(x)); }
        }
        if o.contains(Some(x)) {
            let j = o.index_of(Some(x));
            if j < p.len() { assert(p[j] == Some(x)); assert(p.contains(Some(x))); let i = vx_somes(p).index_of(x); assert(vx_somes(o)[i] == x); } else { assert(vx_somes(o)[vx_somes(p).len() as int] == x); }
        }
    }
}

pub trait VxFrom<T>: Sized { spec fn vx_from(s: Seq<T>, r: Self) -> bool; }
impl<T: Ord> VxFrom<T> for BTreeSet<T> { open spec fn vx_from(s: Seq<T>, r: Self) -> bool { r@ == s.to_set() } }
impl<K: Ord, V> VxFrom<(K, V)> for BTreeMap<K, V> { open spec fn vx_from(s: Seq<(K, V)>, r: Self) -> bool { r@ == vx_map_of(s) } }
impl<T> VxFrom<T> for Vec<T> { open spec fn vx_from(s: Seq<T>, r: Self) -> bool { r@ == s } }
impl<T, C: VxFrom<T>> VxFrom<Option<T>> for Option<C> {
    open spec fn vx_from(s: Seq<Option<T>>, r: Self) -> bool {
        match r {
            Some(c) => (forall|i: int| 0 <= i < s.len() ==> s[i] is Some) && C::vx_from(vx_somes(s), c),
            None => exists|i: int| 0 <= i < s.len() && s[i] is None,
        }
    }
}

pub trait VxIntoIterator: Sized {
    type Item;
    spec fn vx_seq(self) -> Seq<Self::Item>;
    fn vx_into_iter(self) -> (r: It<Self::Item>) ensures r@ == self.vx_seq();
}
impl<T> VxIntoIterator for It<T> { type Item = T; open spec fn vx_seq(self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_into_iter(self) -> It<T> { unimplemented!() } }
impl<T> VxIntoIterator for Vec<T> { type Item = T; open spec fn vx_seq(self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_into_iter(self) -> It<T> { unimplemented!() } }
impl<'a, T> VxIntoIterator for &'a Vec<T> { type Item = &'a T; open spec fn vx_seq(self) -> Seq<&'a T> { vx_ref_seq(self@) } #[verifier::external_body] fn vx_into_iter(self) -> It<&'a T> { unimplemented!() } }
impl<T> VxIntoIterator for BTreeSet<T> { type Item = T; open spec fn vx_seq(self) -> Seq<T> { vx_set_seq(self@) } #[verifier::external_body] fn vx_into_iter(self) -> It<T> { unimplemented!() } }
impl<'a, T> VxIntoIterator for &'a BTreeSet<T> { type Item = &'a T; open spec fn vx_seq(self) -> Seq<&'a T> { vx_ref_seq(vx_set_seq(self@)) } #[verifier::external_body] fn vx_into_iter(self) -> It<&'a T> { unimplemented!() } }
impl<K, V> VxIntoIterator for BTreeMap<K, V> { type Item = (K, V); open spec fn vx_seq(self) -> Seq<(K, V)> { vx_map_seq(self@) } #[verifier::external_body] fn vx_into_iter(self) -> It<(K, V)> { unimplemented!() } }
impl<'a, T> VxIntoIterator for &'a [T] { type Item = &'a T; open spec fn vx_seq(self) -> Seq<&'a T> { vx_ref_seq(self@) } #[verifier::external_body] fn vx_into_iter(self) -> It<&'a T> { unimplemented!() } }
impl<'a, K, V> VxIntoIterator for &'a BTreeMap<K, V> { type Item = (&'a K, &'a V); open spec fn vx_seq(self) -> Seq<(&'a K, &'a V)> { vx_map_ref_seq(self@) } #[verifier::external_body] fn vx_into_iter(self) -> It<(&'a K, &'a V)> { unimplemented!() } }
impl<T> VxIntoIterator for Option<T> { type Item = T; open spec fn vx_seq(self) -> Seq<T> { match self { Some(x) => seq![x], None => Seq::empty() } } #[verifier::external_body] fn vx_into_iter(self) -> It<T> { unimplemented!() } }
impl VxIntoIterator for std::ops::Range<usize> { type Item = usize; open spec fn vx_seq(self) -> Seq<usize> { Seq::new((if self.end >= self.start { self.end - self.start } else { 0 }) as nat, |i: int| (self.start + i) as usize) } #[verifier::external_body] fn vx_into_iter(self) -> It<usize> { unimplemented!() } }

pub trait VxIter<'a> {
    type Ref;
    spec fn vx_iter_seq(&'a self) -> Seq<Self::Ref>;
    fn vx_iter(&'a self) -> (r: It<Self::Ref>) ensures r@ == self.vx_iter_seq();
}
impl<'a, T: 'a> VxIter<'a> for Vec<T> { type Ref = &'a T; open spec fn vx_iter_seq(&'a self) -> Seq<&'a T> { vx_ref_seq(self@) } #[verifier::external_body] fn vx_iter(&'a self) -> It<&'a T> { unimplemented!() } }
impl<'a, T: 'a> VxIter<'a> for BTreeSet<T> { type Ref = &'a T; open spec fn vx_iter_seq(&'a self) -> Seq<&'a T> { vx_ref_seq(vx_set_seq(self@)) } #[verifier::external_body] fn vx_iter(&'a self) -> It<&'a T> { unimplemented!() } }
impl<'a, K: 'a, V: 'a> VxIter<'a> for BTreeMap<K, V> { type Ref = (&'a K, &'a V); open spec fn vx_iter_seq(&'a self) -> Seq<(&'a K, &'a V)> { vx_map_ref_seq(self@) } #[verifier::external_body] fn vx_iter(&'a self) -> It<(&'a K, &'a V)> { unimplemented!() } }
impl<'a, T: 'a> VxIter<'a> for Option<T> { type Ref = &'a T; open spec fn vx_iter_seq(&'a self) -> Seq<&'a T> { match self { Some(x) => seq![x], None => Seq::empty() } } #[verifier::external_body] fn vx_iter(&'a self) -> It<&'a T> { unimplemented!() } }

pub trait VxMapIter<K, V> {
    spec fn vx_m(&self) -> Map<K, V>;
    fn vx_keys(&self) -> (r: It<&K>) ensures r@ == vx_ref_seq(vx_set_seq(self.vx_m().dom()));
    fn vx_values(&self) -> (r: It<&V>) ensures r@ == vx_map_vals_seq(self.vx_m());
    fn vx_into_values(self) -> (r: It<V>) where Self: Sized ensures r@.len() == self.vx_m().len(), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == self.vx_m()[vx_set_seq(self.vx_m().dom())[i]];
    fn vx_into_keys(self) -> (r: It<K>) where Self: Sized ensures r@ == vx_set_seq(self.vx_m().dom());
}
impl<K, V> VxMapIter<K, V> for BTreeMap<K, V> {
    open spec fn vx_m(&self) -> Map<K, V> { self@ }
    #[verifier::external_body] fn vx_keys(&self) -> (r: It<&K>) { unimplemented!() }
    #[verifier::external_body] fn vx_values(&self) -> (r: It<&V>) { unimplemented!() }
    #[verifier::external_body] fn vx_into_values(self) -> (r: It<V>) { unimplemented!() }
    #[verifier::external_body] fn vx_into_keys(self) -> (r: It<K>) { unimplemented!() }
}

pub trait VxMapAccess<K, V>: View<V = Map<K, V>> + Sized {
    fn vx_get_mut(&mut self, k: &K) -> (r: Option<&mut V>) where K: Ord
        ensures match r {
            Some(v) => old(self)@.contains_key(*k) && *v == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(v)),
            None => !old(self)@.contains_key(*k) && final(self)@ == old(self)@,
        };
    fn vx_get_key_value(&self, k: &K) -> (r: Option<(&K, &V)>) where K: Ord
        ensures match r { Some(p) => self@.contains_key(*k) && *p.0 == *k && *p.1 == self@[*k], None => !self@.contains_key(*k) };
}
impl<K, V> VxMapAccess<K, V> for BTreeMap<K, V> {
    #[verifier::external_body] fn vx_get_mut(&mut self, k: &K) -> (r: Option<&mut V>) { unimplemented!() }
    #[verifier::external_body] fn vx_get_key_value(&self, k: &K) -> (r: Option<(&K, &V)>) { unimplemented!() }
}
/// From and Into.
pub trait VxConv<T>: Sized { spec fn vx_conv(t: T) -> Self; fn vx_from_t(t: T) -> (r: Self) ensures r == Self::vx_conv(t); }
pub trait VxInto<U>: Sized { spec fn vx_into_spec(self) -> U; fn vx_into(self) -> (r: U) ensures r == self.vx_into_spec(); }
impl<T, U: VxConv<T>> VxInto<U> for T { open spec fn vx_into_spec(self) -> U { U::vx_conv(self) } fn vx_into(self) -> (r: U) { U::vx_from_t(self) } }

impl<T> It<T> {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.skip(1)
    { unimplemented!() }
    #[verifier::external_body]
    fn map_raw<U, F: FnMut(T) -> U>(self, f: F) -> (r: It<U>)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (#[trigger] self@[i],)),
        ensures r@.len() == self@.len(), forall|i: int| #![trigger r@[i]] #![trigger self@[i]] 0 <= i < self@.len() ==> call_ensures(f, (self@[i],), r@[i])
    { unimplemented!() }
    pub fn map<U, F: FnMut(T) -> U>(self, f: F) -> (r: It<U>)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (#[trigger] self@[i],)),
        ensures r@.len() == self@.len(), forall|i: int| #![trigger r@[i]] #![trigger self@[i]] 0 <= i < self@.len() ==> call_ensures(f, (self@[i],), r@[i]),
            forall|y: U| #[trigger] r@.contains(y) ==> exists|x: T| self@.contains(x) && call_ensures(f, (x,), y),
            forall|x: T| #[trigger] self@.contains(x) ==> exists|y: U| r@.contains(y) && call_ensures(f, (x,), y),
    {
        let ghost s = self@;
        let r = self.map_raw(f);
        proof {
            assert forall|y: U| #[trigger] r@.contains(y) implies exists|x: T| s.contains(x) && call_ensures(f, (x,), y) by { let i = r@.index_of(y); assert(s.contains(s[i])); }
            assert forall|x: T| #[trigger] s.contains(x) implies exists|y: U| r@.contains(y) && call_ensures(f, (x,), y) by { let i = s.index_of(x); assert(r@.contains(r@[i])); }
        }
        r
    }
    #[verifier::external_body]
    fn filter_raw<F: FnMut(&T) -> bool>(self, f: F) -> (r: It<T>)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (&#[trigger] self@[i],)),
        ensures vx_filter_map_rel(self@, |x: T, o: Option<T>| match o { Some(y) => x == y && call_ensures(f, (&x,), true), None => call_ensures(f, (&x,), false) }, r@)
    { unimplemented!() }
    pub fn filter<F: FnMut(&T) -> bool>(self, f: F) -> (r: It<T>)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (&#[trigger] self@[i],)),
        ensures vx_filter_map_rel(self@, |x: T, o: Option<T>| match o { Some(y) => x == y && call_ensures(f, (&x,), true), None => call_ensures(f, (&x,), false) }, r@),
            forall|y: T| #[trigger] r@.contains(y) ==> self@.contains(y) && call_ensures(f, (&y,), true),
            forall|x: T| #[trigger] self@.contains(x) ==> (r@.contains(x) && call_ensures(f, (&x,), true)) || call_ensures(f, (&x,), false),
    {
        let ghost s = self@;
        let r = self.filter_raw(f);
        proof {
            let g = |x: T, o: Option<T>| match o { Some(y) => x == y && call_ensures(f, (&x,), true), None => call_ensures(f, (&x,), false) };
            let o = choose|o: Seq<Option<T>>| #![trigger vx_somes(o)] o.len() == s.len() && (forall|i: int| #![trigger o[i]] #![trigger s[i]] 0 <= i < s.len() ==> g(s[i], o[i])) && r@ == vx_somes(o);
            assert forall|y: T| #[trigger] r@.contains(y) implies s.contains(y) && call_ensures(f, (&y,), true) by { lemma_somes_contains(o, y); let i = o.index_of(Some(y)); assert(g(s[i], o[i])); }
            assert forall|x: T| #[trigger] s.contains(x) implies (r@.contains(x) && call_ensures(f, (&x,), true)) || call_ensures(f, (&x,), false) by { let i = s.index_of(x); assert(g(s[i], o[i])); lemma_somes_contains(o, x); if o[i] is Some { assert(o.contains(Some(x))); } }
        }
        r
    }
    #[verifier::external_body]
    fn filter_map_raw<U, F: FnMut(T) -> Option<U>>(self, f: F) -> (r: It<U>)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (#[trigger] self@[i],)),
        ensures vx_filter_map_rel(self@, |x: T, o: Option<U>| call_ensures(f, (x,), o), r@)
    { unimplemented!() }
    pub fn filter_map<U, F: FnMut(T) -> Option<U>>(self, f: F) -> (r: It<U>)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (#[trigger] self@[i],)),
        ensures vx_filter_map_rel(self@, |x: T, o: Option<U>| call_ensures(f, (x,), o), r@),
            forall|y: U| #[trigger] r@.contains(y) ==> exists|x: T| self@.contains(x) && call_ensures(f, (x,), Some(y)),
            forall|x: T| #[trigger] self@.contains(x) ==> exists|o: Option<U>| #[trigger] call_ensures(f, (x,), o) && (o is Some ==> r@.contains(o->Some_0)),
    {
        let ghost s = self@;
        let r = self.filter_map_raw(f);
        proof {
            let g = |x: T, o: Option<U>| call_ensures(f, (x,), o);
            let o = choose|o: Seq<Option<U>>| #![trigger vx_somes(o)] o.len() == s.len() && (forall|i: int| #![trigger o[i]] #![trigger s[i]] 0 <= i < s.len() ==> g(s[i], o[i])) && r@ == vx_somes(o);
            assert forall|y: U| #[trigger] r@.contains(y) implies exists|x: T| s.contains(x) && call_ensures(f, (x,), Some(y)) by { lemma_somes_contains(o, y); let i = o.index_of(Some(y)); assert(g(s[i], o[i])); assert(s.contains(s[i])); }
            assert forall|x: T| #[trigger] s.contains(x) implies exists|o: Option<U>| #[trigger] call_ensures(f, (x,), o) && (o is Some ==> r@.contains(o->Some_0)) by { let i = s.index_of(x); let c = o[i]; assert(g(s[i], o[i])); assert(call_ensures(f, (x,), c)); if c is Some { lemma_somes_contains(o, c->Some_0); assert(o.contains(Some(c->Some_0))); assert(r@.contains(o[i]->Some_0)); } }
        }
        r
    }
    #[verifier::external_body]
    fn flat_map_raw<C: VxIntoIterator, F: FnMut(T) -> C>(self, f: F) -> (r: It<C::Item>)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (#[trigger] self@[i],)),
        ensures exists|o: Seq<C>| o.len() == self@.len() && (forall|i: int| #![trigger o[i]] #![trigger self@[i]] 0 <= i < self@.len() ==> call_ensures(f, (self@[i],), o[i])) && r@ == #[trigger] vx_flat(o)
    { unimplemented!() }
    pub fn flat_map<C: VxIntoIterator, F: FnMut(T) -> C>(self, f: F) -> (r: It<C::Item>)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (#[trigger] self@[i],)),
        ensures exists|o: Seq<C>| o.len() == self@.len() && (forall|i: int| #![trigger o[i]] #![trigger self@[i]] 0 <= i < self@.len() ==> call_ensures(f, (self@[i],), o[i])) && r@ == #[trigger] vx_flat(o),
            forall|y: C::Item| #[trigger] r@.contains(y) ==> exists|x: T, c: C| #[trigger] self@.contains(x) && call_ensures(f, (x,), c) && #[trigger] c.vx_seq().contains(y),
            forall|x: T| #[trigger] self@.contains(x) ==> exists|c: C| call_ensures(f, (x,), c) && (forall|y: C::Item| #[trigger] c.vx_seq().contains(y) ==> r@.contains(y)),
    {
        let ghost s = self@;
        let r = self.flat_map_raw(f);
        proof {
            let o = choose|o: Seq<C>| o.len() == s.len() && (forall|i: int| #![trigger o[i]] #![trigger s[i]] 0 <= i < s.len() ==> call_ensures(f, (s[i],), o[i])) && r@ == #[trigger] vx_flat(o);
            assert forall|y: C::Item| #[trigger] r@.contains(y) implies exists|x: T, c: C| #[trigger] s.contains(x) && call_ensures(f, (x,), c) && #[trigger] c.vx_seq().contains(y) by {
                lemma_flat_contains(o, y);
                let i = choose|i: int| 0 <= i < o.len() && (#[trigger] o[i]).vx_seq().contains(y);
                assert(s.contains(s[i]) && call_ensures(f, (s[i],), o[i]) && o[i].vx_seq().contains(y));
            }
            assert forall|x: T| #[trigger] s.contains(x) implies exists|c: C| call_ensures(f, (x,), c) && (forall|y: C::Item| #[trigger] c.vx_seq().contains(y) ==> r@.contains(y)) by {
                let i = s.index_of(x); let c = o[i];
                assert(call_ensures(f, (x,), c));
                assert forall|y: C::Item| #[trigger] c.vx_seq().contains(y) implies r@.contains(y) by { lemma_flat_contains(o, y); assert(o[i].vx_seq().contains(y)); }
            }
        }
        r
    }
    #[verifier::external_body]
    pub fn chain<C: VxIntoIterator<Item = T>>(self, o: C) -> (r: It<T>) ensures r@ == self@ + o.vx_seq(), self@.len() == 0 ==> r@ == o.vx_seq() { unimplemented!() }
    #[verifier::external_body]
    pub fn enumerate(self) -> (r: It<(usize, T)>) ensures r@ == Seq::new(self@.len(), |i: int| (i as usize, self@[i])), self@.len() <= usize::MAX { unimplemented!() }
    #[verifier::external_body]
    pub fn collect<C: VxFrom<T>>(self) -> (r: C) ensures C::vx_from(self@, r) { unimplemented!() }
    #[verifier::external_body]
    pub fn any<F: FnMut(T) -> bool>(&mut self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < old(self)@.len() ==> call_requires(f, (#[trigger] old(self)@[i],)),
        ensures r ==> exists|i: int| 0 <= i < old(self)@.len() && call_ensures(f, (#[trigger] old(self)@[i],), true),
            !r ==> forall|i: int| 0 <= i < old(self)@.len() ==> call_ensures(f, (#[trigger] old(self)@[i],), false),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn all<F: FnMut(T) -> bool>(&mut self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < old(self)@.len() ==> call_requires(f, (#[trigger] old(self)@[i],)),
        ensures !r ==> exists|i: int| 0 <= i < old(self)@.len() && call_ensures(f, (#[trigger] old(self)@[i],), false),
            r ==> forall|i: int| 0 <= i < old(self)@.len() ==> call_ensures(f, (#[trigger] old(self)@[i],), true),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn skip(self, n: usize) -> (r: It<T>) ensures r@ == (if n <= self@.len() { self@.skip(n as int) } else { Seq::empty() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn take(self, n: usize) -> (r: It<T>) ensures r@ == (if n <= self@.len() { self@.take(n as int) } else { self@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn rev(self) -> (r: It<T>) ensures r@ == self@.reverse() { unimplemented!() }
    #[verifier::external_body]
    pub fn zip<C: VxIntoIterator>(self, o: C) -> (r: It<(T, C::Item)>)
        ensures r@ == Seq::new((if self@.len() <= o.vx_seq().len() { self@.len() } else { o.vx_seq().len() }), |i: int| (self@[i], o.vx_seq()[i])) { unimplemented!() }
    #[verifier::external_body]
    pub fn nth(&mut self, n: usize) -> (r: Option<T>)
        ensures n < old(self)@.len() ==> r == Some(old(self)@[n as int]) && final(self)@ == old(self)@.skip(n + 1),
            n >= old(self)@.len() ==> r is None && final(self)@ == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn next_back(&mut self) -> (r: Option<T>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Some(old(self)@.last()) && final(self)@ == old(self)@.drop_last() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn eq<C: VxIntoIterator<Item = T>>(self, o: C) -> (r: bool) where T: PartialEq ensures r == (self@ == o.vx_seq()) { unimplemented!() }
    #[verifier::external_body]
    pub fn flatten(self) -> (r: It<T::Item>) where T: VxIntoIterator ensures r@ == vx_flat(self@) { unimplemented!() }
    /// The first element that satisfies `f`, which rejects all elements before it.
    #[verifier::external_body]
    pub fn find<F: FnMut(&T) -> bool>(&mut self, f: F) -> (r: Option<T>)
        requires forall|i: int| 0 <= i < old(self)@.len() ==> call_requires(f, (&#[trigger] old(self)@[i],)),
        ensures match r {
            Some(x) => exists|i: int| 0 <= i < old(self)@.len() && x == #[trigger] old(self)@[i] && call_ensures(f, (&x,), true) && final(self)@ == old(self)@.skip(i + 1)
                && forall|j: int| 0 <= j < i ==> call_ensures(f, (&#[trigger] old(self)@[j],), false),
            None => final(self)@ == Seq::<T>::empty() && forall|j: int| 0 <= j < old(self)@.len() ==> call_ensures(f, (&#[trigger] old(self)@[j],), false),
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn find_map<U, F: FnMut(T) -> Option<U>>(&mut self, f: F) -> (r: Option<U>)
        requires forall|i: int| 0 <= i < old(self)@.len() ==> call_requires(f, (#[trigger] old(self)@[i],)),
        ensures match r {
            Some(x) => exists|i: int| 0 <= i < old(self)@.len() && call_ensures(f, (#[trigger] old(self)@[i],), Some(x)) && final(self)@ == old(self)@.skip(i + 1)
                && forall|j: int| 0 <= j < i ==> call_ensures(f, (#[trigger] old(self)@[j],), None),
            None => final(self)@ == Seq::<T>::empty() && forall|j: int| 0 <= j < old(self)@.len() ==> call_ensures(f, (#[trigger] old(self)@[j],), None),
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn position<F: FnMut(T) -> bool>(&mut self, f: F) -> (r: Option<usize>)
        requires forall|i: int| 0 <= i < old(self)@.len() ==> call_requires(f, (#[trigger] old(self)@[i],)),
        ensures match r {
            Some(i) => i < old(self)@.len() && call_ensures(f, (old(self)@[i as int],), true) && final(self)@ == old(self)@.skip(i + 1)
                && forall|j: int| 0 <= j < i ==> call_ensures(f, (#[trigger] old(self)@[j],), false),
            None => final(self)@ == Seq::<T>::empty() && forall|j: int| 0 <= j < old(self)@.len() ==> call_ensures(f, (#[trigger] old(self)@[j],), false),
        }
    { unimplemented!() }
    /// The elements before the first one that `f` rejects.
    #[verifier::external_body]
    pub fn take_while<F: FnMut(&T) -> bool>(self, f: F) -> (r: It<T>)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (&#[trigger] self@[i],)),
        ensures r@.len() <= self@.len(), r@ == self@.take(r@.len() as int), forall|j: int| 0 <= j < r@.len() ==> call_ensures(f, (&#[trigger] r@[j],), true),
            r@.len() < self@.len() ==> call_ensures(f, (&self@[r@.len() as int],), false)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn skip_while<F: FnMut(&T) -> bool>(self, f: F) -> (r: It<T>)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (&#[trigger] self@[i],)),
        ensures r@.len() <= self@.len(), r@ == self@.skip(self@.len() - r@.len()), forall|j: int| 0 <= j < self@.len() - r@.len() ==> call_ensures(f, (&#[trigger] self@[j],), true),
            r@.len() > 0 ==> call_ensures(f, (&r@[0],), false)
    { unimplemented!() }
    /// The accumulators, one before each element and one at the end.
    #[verifier::external_body]
    pub fn fold<B, F: FnMut(B, T) -> B>(self, init: B, f: F) -> (r: B)
        requires forall|b: B, i: int| 0 <= i < self@.len() ==> #[trigger] call_requires(f, (b, self@[i])),
        ensures exists|a: Seq<B>| #[trigger] vx_id(a) && a.len() == self@.len() + 1 && a[0] == init && r == a.last()
            && forall|i: int| 0 <= i < self@.len() ==> call_ensures(f, (a[i], #[trigger] self@[i]), a[i + 1])
    { unimplemented!() }
    #[verifier::external_body]
    pub fn min(self) -> (r: Option<T>) where T: Ord
        ensures match r { Some(x) => self@.contains(x) && forall|i: int| 0 <= i < self@.len() ==> !(vx_ord(#[trigger] self@[i], x) is Less), None => self@.len() == 0 } { unimplemented!() }
    #[verifier::external_body]
    pub fn max(self) -> (r: Option<T>) where T: Ord
        ensures match r { Some(x) => self@.contains(x) && forall|i: int| 0 <= i < self@.len() ==> !(vx_ord(x, #[trigger] self@[i]) is Less), None => self@.len() == 0 } { unimplemented!() }
    #[verifier::external_body]
    pub fn count(self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn last(self) -> (r: Option<T>) ensures r == (if self@.len() == 0 { None } else { Some(self@.last()) }) { unimplemented!() }
    #[verifier::external_body]
    pub fn inspect<F: FnMut(&T)>(self, f: F) -> (r: It<T>)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (&#[trigger] self@[i],)),
        // what it yields is always taken to its end (DESIGN.md, iterators)
        ensures r@ == self@, forall|i: int| 0 <= i < self@.len() ==> call_ensures(f, (&#[trigger] self@[i],), ()) { unimplemented!() }
}
pub trait VxCloned: Sized {
    type R;
    spec fn vx_cl(self, r: Self::R) -> bool;
    fn vx_cloned(self) -> (r: Self::R) ensures self.vx_cl(r);
    fn vx_copied(self) -> (r: Self::R) ensures self.vx_cl(r);
}
impl<'a, T: Clone> VxCloned for It<&'a T> { type R = It<T>; open spec fn vx_cl(self, r: It<T>) -> bool { r@ == vx_deref_seq(self@) } #[verifier::external_body] fn vx_cloned(self) -> (r: It<T>) { unimplemented!() } #[verifier::external_body] fn vx_copied(self) -> (r: It<T>) { unimplemented!() } }
impl<'a, T: Clone> VxCloned for Option<&'a T> { type R = Option<T>; open spec fn vx_cl(self, r: Option<T>) -> bool { r == (match self { Some(x) => Some(*x), None => None }) } #[verifier::external_body] fn vx_cloned(self) -> (r: Option<T>) { unimplemented!() } #[verifier::external_body] fn vx_copied(self) -> (r: Option<T>) { unimplemented!() } }
pub open spec fn vx_cat<T>(o: Seq<Seq<T>>) -> Seq<T> decreases o.len() {
    if o.len() == 0 { Seq::empty() } else { vx_cat(o.drop_last()) + o.last() }
}
pub open spec fn vx_seqs<C: VxIntoIterator>(o: Seq<C>) -> Seq<Seq<C::Item>> { Seq::new(o.len(), |i: int| o[i].vx_seq()) }
pub open spec fn vx_flat<C: VxIntoIterator>(o: Seq<C>) -> Seq<C::Item> { vx_cat(vx_seqs(o)) }
pub broadcast proof fn lemma_cat_contains<T>(o: Seq<Seq<T>>, x: T)
    ensures #[trigger] vx_cat(o).contains(x) == exists|i: int| 0 <= i < o.len() && (#[trigger] o[i]).contains(x)
    decreases o.len()
{
    if o.len() > 0 {
        let p = o.drop_last();
        lemma_cat_contains(p, x);
        if vx_cat(o).contains(x) {
            let k = vx_cat(o).index_of(x);
            if k < vx_cat(p).len() { assert(vx_cat(p)[k] == x); assert(vx_cat(p).contains(x)); let i = choose|i: int| 0 <= i < p.len() && (#[trigger] p[i]).contains(x); assert(o[i].contains(x)); }
            else { assert(o.last()[k - vx_cat(p).len()] == x); assert(o[o.len() - 1].contains(x)); }
        }
        if exists|i: int| 0 <= i < o.len() && (#[trigger] o[i]).contains(x) {
            let i = choose|i: int| 0 <= i < o.len() && (#[trigger] o[i]).contains(x);
            if i < p.len() { assert(p[i].contains(x)); assert(vx_cat(p).contains(x)); let k = vx_cat(p).index_of(x); assert(vx_cat(o)[k] == x); }
            else { let k = o.last().index_of(x); assert(vx_cat(o)[vx_cat(p).len() + k] == x); }
        }
    }
}
pub broadcast proof fn lemma_flat_contains<C: VxIntoIterator>(o: Seq<C>, x: C::Item)
    ensures #[trigger] vx_flat(o).contains(x) == exists|i: int| 0 <= i < o.len() && (#[trigger] o[i]).vx_seq().contains(x)
{
    lemma_cat_contains(vx_seqs(o), x);
    if vx_flat(o).contains(x) { let i = choose|i: int| 0 <= i < vx_seqs(o).len() && (#[trigger] vx_seqs(o)[i]).contains(x); assert(o[i].vx_seq().contains(x)); }
    if exists|i: int| 0 <= i < o.len() && (#[trigger] o[i]).vx_seq().contains(x) { let i = choose|i: int| 0 <= i < o.len() && (#[trigger] o[i]).vx_seq().contains(x); assert(vx_seqs(o)[i].contains(x)); }
}
/// A map collected from pairs: the last pair of a key counts.
pub broadcast proof fn lemma_map_of<K, V>(s: Seq<(K, V)>, k: K)
    ensures #[trigger] vx_map_of(s).contains_key(k) == exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k
    decreases s.len()
{
    if s.len() > 0 {
        let p = s.drop_last();
        lemma_map_of(p, k);
        if vx_map_of(s).contains_key(k) {
            if vx_map_of(p).contains_key(k) { let i = choose|i: int| 0 <= i < p.len() && (#[trigger] p[i]).0 == k; assert(s[i].0 == k); } else { assert(s[s.len() - 1].0 == k); }
        }
        if exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k {
            let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k;
            if i < p.len() { assert(p[i].0 == k); }
        }
    }
}
pub broadcast proof fn lemma_map_of_last<K, V>(s: Seq<(K, V)>, i: int)
    requires 0 <= i < s.len(), forall|j: int| i < j < s.len() ==> (#[trigger] s[j]).0 != s[i].0
    ensures #![trigger vx_map_of(s), s[i]] vx_map_of(s).contains_key(s[i].0), vx_map_of(s)[s[i].0] == s[i].1
    decreases s.len()
{
    let p = s.drop_last();
    if i < p.len() {
        assert forall|j: int| i < j < p.len() implies (#[trigger] p[j]).0 != p[i].0 by { assert(s[j].0 != s[i].0); }
        lemma_map_of_last(p, i);
        assert(s[s.len() - 1].0 != s[i].0);
    }
}
#[verifier::external_body]
pub fn vx_iter_once<T>(x: T) -> (r: It<T>) ensures r@ == seq![x] { unimplemented!() }
#[verifier::external_body]
pub fn vx_iter_empty<T>() -> (r: It<T>) ensures r@ == Seq::<T>::empty() { unimplemented!() }
#[verifier::external_body]
pub fn vx_iter_repeat<T: Clone>(x: T) -> (r: It<T>) { unimplemented!() }

pub trait VxExtend<T> {
    spec fn vx_ext(o: &Self, s: Seq<T>, n: &Self) -> bool;
    fn vx_extend<C: VxIntoIterator<Item = T>>(&mut self, c: C) ensures Self::vx_ext(old(self), c.vx_seq(), final(self));
}
impl<T: Ord> VxExtend<T> for BTreeSet<T> { open spec fn vx_ext(o: &Self, s: Seq<T>, n: &Self) -> bool { n@ == o@.union(s.to_set()) } #[verifier::external_body] fn vx_extend<C: VxIntoIterator<Item = T>>(&mut self, c: C) { unimplemented!() } }
impl<T> VxExtend<T> for Vec<T> { open spec fn vx_ext(o: &Self, s: Seq<T>, n: &Self) -> bool { n@ == o@ + s } #[verifier::external_body] fn vx_extend<C: VxIntoIterator<Item = T>>(&mut self, c: C) { unimplemented!() } }

// ---- further methods of sets, vectors, options, orders
pub trait VxSetOps<T>: View<V = Set<T>> + Sized {
    fn vx_union<'a>(&'a self, o: &'a Self) -> (r: It<&'a T>) ensures r@ == vx_ref_seq(vx_set_seq(self@.union(o@)));
    fn vx_difference<'a>(&'a self, o: &'a Self) -> (r: It<&'a T>) ensures r@ == vx_ref_seq(vx_set_seq(self@.difference(o@)));
    fn vx_intersection<'a>(&'a self, o: &'a Self) -> (r: It<&'a T>) ensures r@ == vx_ref_seq(vx_set_seq(self@.intersect(o@)));
    fn vx_is_subset(&self, o: &Self) -> (r: bool) ensures r == self@.subset_of(o@);
    fn vx_is_superset(&self, o: &Self) -> (r: bool) ensures r == o@.subset_of(self@);
    fn vx_is_disjoint(&self, o: &Self) -> (r: bool) ensures r == self@.disjoint(o@);
    fn vx_pop_first(&mut self) -> (r: Option<T>)
        ensures match r { Some(x) => old(self)@.contains(x) && final(self)@ == old(self)@.remove(x), None => old(self)@ == Set::<T>::empty() && final(self)@ == old(self)@ };
    fn vx_pop_last(&mut self) -> (r: Option<T>)
        ensures match r { Some(x) => old(self)@.contains(x) && final(self)@ == old(self)@.remove(x), None => old(self)@ == Set::<T>::empty() && final(self)@ == old(self)@ };
}
impl<T: Ord> VxSetOps<T> for BTreeSet<T> {
    #[verifier::external_body] fn vx_union<'a>(&'a self, o: &'a Self) -> (r: It<&'a T>) { unimplemented!() }
    #[verifier::external_body] fn vx_difference<'a>(&'a self, o: &'a Self) -> (r: It<&'a T>) { unimplemented!() }
    #[verifier::external_body] fn vx_intersection<'a>(&'a self, o: &'a Self) -> (r: It<&'a T>) { unimplemented!() }
    #[verifier::external_body] fn vx_is_subset(&self, o: &Self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_is_superset(&self, o: &Self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_is_disjoint(&self, o: &Self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_pop_first(&mut self) -> (r: Option<T>) { unimplemented!() }
    #[verifier::external_body] fn vx_pop_last(&mut self) -> (r: Option<T>) { unimplemented!() }
}
pub trait VxRetain<T> {
    spec fn vx_ret<F: FnMut(&T) -> bool>(o: &Self, f: F, n: &Self) -> bool;
    spec fn vx_has(&self, x: T) -> bool;
    fn vx_retain<F: FnMut(&T) -> bool>(&mut self, f: F)
        requires forall|x: T| old(self).vx_has(x) ==> #[trigger] call_requires(f, (&x,))
        ensures Self::vx_ret(old(self), f, final(self));
}
impl<T> VxRetain<T> for Vec<T> {
    open spec fn vx_ret<F: FnMut(&T) -> bool>(o: &Self, f: F, n: &Self) -> bool {
        vx_filter_map_rel(o@, |x: T, y: Option<T>| match y { Some(y) => x == y && call_ensures(f, (&x,), true), None => call_ensures(f, (&x,), false) }, n@)
    }
    open spec fn vx_has(&self, x: T) -> bool { self@.contains(x) }
    #[verifier::external_body] fn vx_retain<F: FnMut(&T) -> bool>(&mut self, f: F) { unimplemented!() }
}
impl<T: Ord> VxRetain<T> for BTreeSet<T> {
    open spec fn vx_ret<F: FnMut(&T) -> bool>(o: &Self, f: F, n: &Self) -> bool {
        n@.subset_of(o@) && forall|x: T| #![trigger n@.contains(x)] #![trigger o@.contains(x)] o@.contains(x) ==> call_ensures(f, (&x,), n@.contains(x))
    }
    open spec fn vx_has(&self, x: T) -> bool { self@.contains(x) }
    #[verifier::external_body] fn vx_retain<F: FnMut(&T) -> bool>(&mut self, f: F) { unimplemented!() }
}
pub assume_specification<T: PartialEq> [<[T]>::contains] (s: &[T], x: &T) -> (r: bool) ensures r == s@.contains(*x);
pub assume_specification<T> [<[T]>::reverse] (s: &mut [T]) ensures final(s)@ == old(s)@.reverse();
pub assume_specification<T, P: FnOnce(&T) -> bool> [Option::<T>::filter] (o: Option<T>, f: P) -> (r: Option<T>)
    requires forall|x: T| #![trigger call_requires(f, (&x,))] o == Some(x) ==> call_requires(f, (&x,))
    ensures match o { None => r is None, Some(x) => (r == o && call_ensures(f, (&x,), true)) || (r is None && call_ensures(f, (&x,), false)) };
pub assume_specification<T> [Option::<T>::or] (o: Option<T>, p: Option<T>) -> (r: Option<T>) ensures r == (if o is Some { o } else { p });
pub assume_specification<T, U> [Option::<T>::and] (o: Option<T>, p: Option<U>) -> (r: Option<U>) ensures r == (if o is Some { p } else { None });
pub assume_specification<T> [bool::then_some] (b: bool, x: T) -> (r: Option<T>) ensures r == (if b { Some(x) } else { None });
pub assume_specification [std::cmp::Ordering::then] (a: std::cmp::Ordering, b: std::cmp::Ordering) -> (r: std::cmp::Ordering) ensures r == vx_lex(a, b);
pub assume_specification [std::cmp::Ordering::reverse] (a: std::cmp::Ordering) -> (r: std::cmp::Ordering) ensures r == (match a { Ordering::Less => Ordering::Greater, Ordering::Equal => Ordering::Equal, Ordering::Greater => Ordering::Less });
pub assume_specification<T: Ord> [std::cmp::max::<T>] (a: T, b: T) -> (r: T) ensures r == (if vx_ord(a, b) is Greater { a } else { b });
pub assume_specification<T: Ord> [std::cmp::min::<T>] (a: T, b: T) -> (r: T) ensures r == (if vx_ord(a, b) is Greater { b } else { a });

impl<K: Ord, V> VxExtend<(K, V)> for BTreeMap<K, V> { open spec fn vx_ext(o: &Self, s: Seq<(K, V)>, n: &Self) -> bool { n@ == o@.union_prefer_right(vx_map_of(s)) } #[verifier::external_body] fn vx_extend<C: VxIntoIterator<Item = (K, V)>>(&mut self, c: C) { unimplemented!() } }
// ---- the anyhow crate: an error is opaque
pub mod anyhow {
use vstd::prelude::*;
#[verifier::external_body]
pub struct Error { v: () }
pub type Result<T> = core::result::Result<T, Error>;
}
#[verifier::external_body]
pub fn vx_any_error() -> anyhow::Error { unimplemented!() }

// ---- small things
pub trait VxAtMut<T>: View<V = Seq<T>> + Sized {
    fn vx_at_mut(&mut self, i: usize) -> (r: &mut T) requires i < old(self)@.len() ensures *r == old(self)@[i as int], final(self)@ == old(self)@.update(i as int, *final(r));
}
impl<T> VxAtMut<T> for Vec<T> { #[verifier::external_body] fn vx_at_mut(&mut self, i: usize) -> (r: &mut T) { &mut self[i] } }
#[verifier::external_body]
pub fn vx_eq<T: PartialEq>(a: &T, b: &T) -> (r: bool) ensures r == (*a == *b) { unimplemented!() }
pub trait VxClone: Sized { fn vx_clone(&self) -> (r: Self) ensures r == *self; }
impl<T: Clone> VxClone for T { #[verifier::external_body] fn vx_clone(&self) -> (r: T) { unimplemented!() } }
pub fn vx_assert(b: bool) requires b {}
/// A documented refusal: the caller is stopped when the condition does not hold.
#[verifier::external_body]
pub fn vx_refuse_unless(b: bool) ensures b { unimplemented!() }
#[verifier::external_body]
pub fn vx_refuse() -> (r: !) { unimplemented!() }
pub fn vx_use<T>(x: &T) {}
#[verifier::external_body]
pub fn vx_panic() -> (r: !) requires false { unimplemented!() }
#[verifier::external_body]
pub fn vx_mem_swap<T>(a: &mut T, b: &mut T) ensures *final(a) == *old(b), *final(b) == *old(a) { unimplemented!() }
#[verifier::external_body]
pub fn vx_mem_replace<T>(a: &mut T, b: T) -> (r: T) ensures *final(a) == b, r == *old(a) { unimplemented!() }
pub trait VxDefault: Sized { spec fn vx_is_default(r: Self) -> bool; }
impl<T> VxDefault for BTreeSet<T> { open spec fn vx_is_default(r: Self) -> bool { r@ == Set::<T>::empty() } }
impl<K, V> VxDefault for BTreeMap<K, V> { open spec fn vx_is_default(r: Self) -> bool { r@ == Map::<K, V>::empty() } }
impl<T> VxDefault for Vec<T> { open spec fn vx_is_default(r: Self) -> bool { r@ == Seq::<T>::empty() } }
#[verifier::external_body]
pub fn vx_mem_take<T: VxDefault>(a: &mut T) -> (r: T) ensures r == *old(a), T::vx_is_default(*final(a)) { unimplemented!() }
#[verifier::external_body]
pub fn vx_mem_drop<T>(a: T) { unimplemented!() }

// ---- shared pointers: a pointer is its content; writing through one that is shared copies first
#[verifier::external_body]
pub fn vx_rc_make_mut<T: Clone>(this: &mut std::rc::Rc<T>) -> (r: &mut T) ensures *r == **old(this), **final(this) == *final(r) { unimplemented!() }
#[verifier::external_body]
pub fn vx_arc_make_mut<T: Clone>(this: &mut std::sync::Arc<T>) -> (r: &mut T) ensures *r == **old(this), **final(this) == *final(r) { unimplemented!() }
/// Whether there is no other pointer is not known.
#[verifier::external_body]
pub fn vx_rc_get_mut<T>(this: &mut std::rc::Rc<T>) -> (r: Option<&mut T>) ensures match r { Some(r) => *r == **old(this) && **final(this) == *final(r), None => *final(this) == *old(this) } { unimplemented!() }
#[verifier::external_body]
pub fn vx_rc_unwrap_or_clone<T: Clone>(this: std::rc::Rc<T>) -> (r: T) ensures r == *this { unimplemented!() }
#[verifier::external_body]
pub fn vx_rc_ptr_eq<T>(a: &std::rc::Rc<T>, b: &std::rc::Rc<T>) -> (r: bool) ensures r ==> *a == *b { unimplemented!() }
pub trait VxAsRef<U: ?Sized> { spec fn vx_ar(&self, r: &U) -> bool; fn as_ref(&self) -> (r: &U) ensures self.vx_ar(r); }
impl VxAsRef<str> for str { open spec fn vx_ar(&self, r: &str) -> bool { r == self } fn as_ref(&self) -> (r: &str) { self } }

// ---- BTreeMap's Entry
pub mod btree_map {
use super::*;
use vstd::prelude::*;
use std::collections::btree_map as sbm;
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct OccupiedEntry<'a, K, V>(sbm::OccupiedEntry<'a, K, V>);
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct VacantEntry<'a, K, V>(sbm::VacantEntry<'a, K, V>);
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub enum Entry<'a, K, V> { Vacant(VacantEntry<'a, K, V>), Occupied(OccupiedEntry<'a, K, V>) }

impl<'a, K: Ord, V> OccupiedEntry<'a, K, V> {
  pub uninterp spec fn vkey(self) -> K;
  pub uninterp spec fn cur(self) -> V;
  #[verifier::prophetic] pub uninterp spec fn fin(self) -> Option<V>;
  #[verifier::external_body] pub fn vx_get_mut(&mut self) -> (r: &mut V)
    ensures *r == old(self).cur(), final(self).cur() == *final(r), final(self).fin() == old(self).fin(), final(self).vkey() == old(self).vkey()
  { self.0.get_mut() }
  #[verifier::external_body] pub fn get(&self) -> (r: &V) ensures *r == self.cur() { self.0.get() }
  #[verifier::external_body] pub fn key(&self) -> (r: &K) ensures *r == self.vkey() { self.0.key() }
  #[verifier::external_body] pub fn into_mut(self) -> (r: &'a mut V) ensures *r == self.cur(), self.fin() == Some(*final(r)) { self.0.into_mut() }
  #[verifier::external_body] pub fn insert(&mut self, v: V) -> (r: V)
    ensures r == old(self).cur(), final(self).cur() == v, final(self).fin() == old(self).fin(), final(self).vkey() == old(self).vkey()
  { self.0.insert(v) }
  #[verifier::external_body] pub fn remove_entry(self) -> (r: (K, V)) ensures r.0 == self.vkey(), r.1 == self.cur(), self.fin() == None::<V> { self.0.remove_entry() }
  #[verifier::external_body] pub fn remove(self) -> (r: V) ensures r == self.cur(), self.fin() == None::<V> { self.0.remove() }
}
impl<'a, K: Ord, V> VacantEntry<'a, K, V> {
  pub uninterp spec fn vkey(self) -> K;
  #[verifier::prophetic] pub uninterp spec fn fin(self) -> Option<V>;
  #[verifier::external_body] pub fn key(&self) -> (r: &K) ensures *r == self.vkey() { self.0.key() }
  #[verifier::external_body] pub fn into_key(self) -> (r: K) ensures r == self.vkey(), self.fin() == None::<V> { self.0.into_key() }
  #[verifier::external_body] pub fn insert(self, v: V) -> (r: &'a mut V) ensures *r == v, self.fin() == Some(*final(r)) { self.0.insert(v) }
}
impl<'a, K: Ord, V> Entry<'a, K, V> {
  #[verifier::prophetic] pub open spec fn fin(self) -> Option<V> { match self { Entry::Vacant(e) => e.fin(), Entry::Occupied(e) => e.fin() } }
  pub open spec fn vkey(self) -> K { match self { Entry::Vacant(e) => e.vkey(), Entry::Occupied(e) => e.vkey() } }
  pub open spec fn vcur(self) -> Option<V> { match self { Entry::Vacant(e) => None, Entry::Occupied(e) => Some(e.cur()) } }
  #[verifier::external_body]
  pub fn or_insert_with<F: FnOnce() -> V>(self, f: F) -> (r: &'a mut V)
    requires self is Vacant ==> call_requires(f, ())
    ensures match self { Entry::Vacant(e) => call_ensures(f, (), *r) && e.fin() == Some(*final(r)), Entry::Occupied(e) => *r == e.cur() && e.fin() == Some(*final(r)) }
  { unimplemented!() }
  #[verifier::external_body]
  pub fn or_insert(self, v: V) -> (r: &'a mut V)
    ensures match self { Entry::Vacant(e) => *r == v && e.fin() == Some(*final(r)), Entry::Occupied(e) => *r == e.cur() && e.fin() == Some(*final(r)) }
  { unimplemented!() }
  #[verifier::external_body]
  pub fn or_default(self) -> (r: &'a mut V) where V: VxDefault
    ensures match self { Entry::Vacant(e) => V::vx_is_default(*r) && e.fin() == Some(*final(r)), Entry::Occupied(e) => *r == e.cur() && e.fin() == Some(*final(r)) }
  { unimplemented!() }
  #[verifier::external_body]
  pub fn key(&self) -> (r: &K) ensures *r == self.vkey() { unimplemented!() }
}
pub broadcast axiom fn ax_occ_resolved<'a, K: Ord, V>(e: OccupiedEntry<'a, K, V>)
  requires #[trigger] has_resolved(e)
  ensures e.fin() == Some(e.cur());
pub broadcast axiom fn ax_vac_resolved<'a, K: Ord, V>(e: VacantEntry<'a, K, V>)
  requires #[trigger] has_resolved(e)
  ensures e.fin() == None::<V>;

pub trait VxEntry<K, V>: View<V = Map<K, V>> + Sized {
  fn vx_entry(&mut self, key: K) -> (r: Entry<'_, K, V>) where K: Ord
  ensures match r {
    Entry::Occupied(o) => o.vkey() == key && old(self)@.contains_key(key) && o.cur() == old(self)@[key]
       && final(self)@ == (match o.fin() { Some(v) => old(self)@.insert(key, v), None => old(self)@.remove(key) }),
    Entry::Vacant(o) => o.vkey() == key && !old(self)@.contains_key(key)
       && final(self)@ == (match o.fin() { Some(v) => old(self)@.insert(key, v), None => old(self)@ }),
  };
}
impl<K: Ord, V> VxEntry<K, V> for BTreeMap<K, V> {
  #[verifier::external_body]
  fn vx_entry(&mut self, key: K) -> (r: Entry<'_, K, V>) { unimplemented!() }
}
}
pub use btree_map::VxEntry;
pub broadcast group group_vx { ax_ord_eq, ax_ord_anti, ax_ord_usize, lemma_vec_len, btree_map::ax_occ_resolved, btree_map::ax_vac_resolved, ax_obeys_cmp, ax_set_seq_contains, ax_set_seq_index, lemma_somes_contains, lemma_cat_contains, lemma_flat_contains, lemma_map_of, lemma_map_of_last, vx_uncons, lemma_deref_ref, lemma_ref_contains, lemma_deref_contains, lemma_add_contains, lemma_map_ref_contains, lemma_map_contains, lemma_map_vals_contains }

} // mod vxlib
} // verus!
