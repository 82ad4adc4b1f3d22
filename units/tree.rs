@include ../lib/std.rs
@use utils.rs
@use base.rs
@use im.rs
@subst RwLock VxLock
@dropbound Debug
@inline src/utils.rs change_iter
@inline src/parsers/tree.rs TreeHandle::with
@inline src/parsers/tree.rs TreeHandle::with_mut
@inline src/parsers/tree.rs Leaf::with_leaf
@inline src/parsers/tree.rs Branch::with_branch
verus! {
// vx-thread read ref
// vx-thread write mut
/// A lock is its identity; what it guards is passed along (DESIGN.md, "state behind a lock").
#[verifier::external_body]
#[verifier::reject_recursive_types(X)]
pub struct VxLock<X> { p: std::marker::PhantomData<X> }
/// The contents of the lock `of`.
#[verifier::reject_recursive_types(X)]
pub struct VxTok<X> { pub v: X, pub of: Ghost<VxLock<X>> }
pub struct VxNever {}
impl<X> VxLock<X> {
  /// What the lock was made with.
  pub uninterp spec fn first(self) -> X;
  #[verifier::external_body] pub fn new(x: X) -> (r: Self) ensures r.first() == x { unimplemented!() }
  #[verifier::external_body] pub fn read<'t>(&self, t: &'t VxTok<X>) -> (r: Result<&'t X, VxNever>) requires t.of@ == *self ensures r is Ok, *r->Ok_0 == t.v { unimplemented!() }
  #[verifier::external_body] pub fn write<'t>(&self, t: &'t mut VxTok<X>) -> (r: Result<&'t mut X, VxNever>) requires old(t).of@ == *self ensures r is Ok, *r->Ok_0 == old(t).v, final(t).v == *final(r->Ok_0), final(t).of == old(t).of { unimplemented!() }
}
impl std::fmt::Debug for VxNever { #[verifier::external_body] fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() } }

@type src/parsers/tree.rs LeafData reject=T,V
@type src/parsers/tree.rs BranchData reject=AK
@type src/parsers/tree.rs NodeContentInner reject=T,AK,V
@type src/parsers/tree.rs AltSet reject=T,AK,V
@type src/parsers/tree.rs NodeData
@type src/parsers/tree.rs Inner reject=T,AK,V
pub type Content<T, AK, V> = NodeContentInner<T, AK, V>;
/// Keys behind an `Arc` are looked up by what they point at.
pub axiom fn ax_arc_ord<K: Ord>() ensures vstd::std_specs::btree::borrowed_key_ordering_matches::<Arc<K>, K>();
pub broadcast axiom fn ax_arc_key<K, V>(m: Map<Arc<K>, V>, k: &K) ensures #[trigger] vstd::std_specs::btree::contains_borrowed_key::<Arc<K>, V, K>(m, k) == m.contains_key(Arc::new(*k));
pub broadcast axiom fn ax_arc_val<K, V>(m: Map<Arc<K>, V>, k: &K, v: V) ensures #[trigger] vstd::std_specs::btree::maps_borrowed_key_to_value::<Arc<K>, V, K>(m, k, v) == (m.contains_key(Arc::new(*k)) && m[Arc::new(*k)] == v);
impl<T: PartialEq, AK: PartialEq, V: PartialEq> PartialEq for NodeContentInner<T, AK, V> { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }
impl<T: Eq, AK: Eq, V: Eq> Eq for NodeContentInner<T, AK, V> {}
impl<T: PartialOrd, AK: PartialOrd, V: PartialOrd> PartialOrd for NodeContentInner<T, AK, V> { #[verifier::external_body] fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { unimplemented!() } }
impl<T: Ord, AK: Ord, V: Ord> Ord for NodeContentInner<T, AK, V> { #[verifier::external_body] fn cmp(&self, o: &Self) -> std::cmp::Ordering { unimplemented!() } }
pub trait VxVecMut<A>: View<V = Seq<A>> + Sized {
  fn vx_get_mut(&mut self, i: usize) -> (r: Option<&mut A>)
    ensures match r { Some(a) => i < old(self)@.len() && *a == old(self)@[i as int] && final(self)@ == old(self)@.update(i as int, *final(a)), None => i >= old(self)@.len() && final(self)@ == old(self)@ };
}
impl<A> VxVecMut<A> for Vec<A> { #[verifier::external_body] fn vx_get_mut(&mut self, i: usize) -> (r: Option<&mut A>) { unimplemented!() } }
@fn src/parsers/tree.rs NodeContentInner::as_leaf -> r
  ensures r == (match *self { NodeContentInner::Leaf(l) => Some(&l), NodeContentInner::Branch(_) => None })
@end
@fn src/parsers/tree.rs NodeContentInner::as_branch -> r
  ensures r == (match *self { NodeContentInner::Leaf(_) => None, NodeContentInner::Branch(b) => Some(&b) })
@end

// ---- the alternatives
/// The contents of the alternatives, by number.
pub open spec fn alts<T, AK, V>(s: AltSet<T, AK, V>) -> Seq<Content<T, AK, V>> { Seq::new(s.id_to_value@.len(), |i: int| *s.id_to_value@[i]) }
/// The two directions of the table agree.
pub open spec fn alts_wf<T, AK, V>(s: AltSet<T, AK, V>) -> bool {
  &&& forall|i: int| 0 <= i < s.id_to_value@.len() ==> s.value_to_id@.contains_key(#[trigger] s.id_to_value@[i]) && s.value_to_id@[s.id_to_value@[i]] == i
  &&& forall|k: Arc<Content<T, AK, V>>| #[trigger] s.value_to_id@.contains_key(k) ==> s.value_to_id@[k] < s.id_to_value@.len() && s.id_to_value@[s.value_to_id@[k] as int] == k
}
/// Equal contents are one alternative.
pub proof fn lemma_alts<T, AK, V>(s: AltSet<T, AK, V>)
  requires alts_wf(s)
  ensures forall|i: int, j: int| #![trigger alts(s)[i], alts(s)[j]] 0 <= i < alts(s).len() && 0 <= j < alts(s).len() ==> (i == j) == (alts(s)[i] == alts(s)[j])
{
  assert forall|i: int, j: int| #![trigger alts(s)[i], alts(s)[j]] 0 <= i < alts(s).len() && 0 <= j < alts(s).len() implies (i == j) == (alts(s)[i] == alts(s)[j]) by {
    assert(*s.id_to_value@[i] == alts(s)[i]); assert(*s.id_to_value@[j] == alts(s)[j]);
  }
}
@fn src/parsers/tree.rs AltSet::new -> r
  ensures alts_wf(r), alts(r).len() == 0
@end
@fn src/parsers/tree.rs AltSet::get -> r
  requires index < alts(*self).len()
  ensures *r == alts(*self)[index as int]
.desugar unwrap_or_else
@end
@fn src/parsers/tree.rs AltSet::add -> r
  requires alts_wf(*old(self))
  ensures
    alts_wf(*final(self)), r < alts(*final(self)).len(), alts(*final(self))[r as int] == content,
    alts(*final(self)) == alts(*old(self)) || (r == alts(*old(self)).len() && alts(*final(self)) == alts(*old(self)).push(content)),
    (alts(*final(self)) == alts(*old(self))) == alts(*old(self)).contains(content),
.start
  proof { broadcast use {ax_arc_key, ax_arc_val}; ax_arc_ord::<Content<T, AK, V>>(); }
@end

// ---- nodes and alternatives
pub open spec fn nset<T, AK, V>(i: Inner<T, AK, V>, n: int) -> Set<usize> { i.nodes@[n].alternatives@ }
pub open spec fn ialts<T, AK, V>(i: Inner<T, AK, V>) -> Seq<Content<T, AK, V>> { alts(i.alternatives) }
/// The children of a content are among the first `n` nodes.
pub open spec fn kids_in<T, AK, V>(c: Content<T, AK, V>, n: int) -> bool { match c { NodeContentInner::Leaf(_) => true, NodeContentInner::Branch(b) => forall|k: int| 0 <= k < b.nodes@.len() ==> (#[trigger] b.nodes@[k]) < n } }
pub open spec fn inner_wf<T, AK, V>(i: Inner<T, AK, V>) -> bool {
  &&& alts_wf(i.alternatives)
  &&& forall|n: int, a: usize| 0 <= n < i.nodes@.len() && #[trigger] nset(i, n).contains(a) ==> a < ialts(i).len()
  &&& forall|a: int| 0 <= a < ialts(i).len() ==> kids_in(#[trigger] ialts(i)[a], i.nodes@.len() as int)
}
/// What any operation may do: nothing that is there changes, but nodes may get more alternatives.
pub open spec fn grows<T, AK, V>(a: Inner<T, AK, V>, b: Inner<T, AK, V>) -> bool {
  &&& a.nodes@.len() <= b.nodes@.len() && ialts(a).len() <= ialts(b).len()
  &&& forall|i: int| #![trigger ialts(a)[i]] #![trigger ialts(b)[i]] 0 <= i < ialts(a).len() ==> ialts(b)[i] == ialts(a)[i]
  &&& forall|n: int, x: usize| #![trigger nset(a, n).contains(x)] #![trigger nset(b, n).contains(x)] 0 <= n < a.nodes@.len() && nset(a, n).contains(x) ==> nset(b, n).contains(x)
}
/// No node of `a` has other alternatives in `b`, except `m`.
pub open spec fn frame<T, AK, V>(a: Inner<T, AK, V>, b: Inner<T, AK, V>, m: int) -> bool { forall|n: int| #![trigger nset(a, n)] #![trigger nset(b, n)] 0 <= n < a.nodes@.len() && n != m ==> nset(b, n) == nset(a, n) }
pub proof fn lemma_grows<T, AK, V>(a: Inner<T, AK, V>, b: Inner<T, AK, V>, c: Inner<T, AK, V>) ensures grows(a, a), grows(a, b) && grows(b, c) ==> grows(a, c)
{
  if grows(a, b) && grows(b, c) {
    assert forall|i: int| #![trigger ialts(a)[i]] #![trigger ialts(c)[i]] 0 <= i < ialts(a).len() implies ialts(c)[i] == ialts(a)[i] by { assert(ialts(b)[i] == ialts(a)[i]); }
    assert forall|n: int, x: usize| #![trigger nset(a, n).contains(x)] #![trigger nset(c, n).contains(x)] 0 <= n < a.nodes@.len() && nset(a, n).contains(x) implies nset(c, n).contains(x) by { assert(nset(b, n).contains(x)); }
  }
}
pub proof fn lemma_kids<T, AK, V>(a: Inner<T, AK, V>, b: Inner<T, AK, V>)
  requires inner_wf(a), a.nodes@.len() <= b.nodes@.len()
  ensures forall|i: int| 0 <= i < ialts(a).len() ==> kids_in(#[trigger] ialts(a)[i], b.nodes@.len() as int)
{
  assert forall|i: int| 0 <= i < ialts(a).len() implies kids_in(#[trigger] ialts(a)[i], b.nodes@.len() as int) by { assert(kids_in(ialts(a)[i], a.nodes@.len() as int)); }
}
/// C11 over histories: whatever happens to a tree, an alternative keeps its contents, two alternatives are one exactly if
/// their contents are equal, and a node keeps what it was given.
pub proof fn c11_history<T, AK, V>(s: Seq<Inner<T, AK, V>>, i: int, j: int)
  requires 0 <= i <= j < s.len(), forall|k: int| 0 <= k < s.len() ==> inner_wf(#[trigger] s[k]), forall|k: int| 0 <= k < s.len() - 1 ==> grows(#[trigger] s[k], s[k + 1])
  ensures
    grows(s[i], s[j]),
    forall|a: int| #![trigger ialts(s[j])[a]] 0 <= a < ialts(s[i]).len() ==> ialts(s[j])[a] == ialts(s[i])[a],
    forall|a: int, b: int| #![trigger ialts(s[j])[a], ialts(s[j])[b]] 0 <= a < ialts(s[j]).len() && 0 <= b < ialts(s[j]).len() ==> (a == b) == (ialts(s[j])[a] == ialts(s[j])[b]),
  decreases j - i
{
  lemma_grows(s[i], s[i], s[i]);
  if i < j { c11_history(s, i, j - 1); assert(grows(s[j - 1], s[j - 1 + 1])); lemma_grows(s[i], s[j - 1], s[j]); }
  assert(inner_wf(s[j]));
  lemma_alts(s[j].alternatives);
}
@fn src/parsers/tree.rs Inner::new -> r
  ensures inner_wf(r), r.nodes@.len() == 0, ialts(r).len() == 0
@end
@fn src/parsers/tree.rs Inner::get_node -> r
  requires index < self.nodes@.len()
  ensures *r == self.nodes@[index as int]
.desugar unwrap_or_else
@end
@fn src/parsers/tree.rs Inner::get_node_mut -> r
  requires index < old(self).nodes@.len()
  ensures *r == old(self).nodes@[index as int], final(self).nodes@ == old(self).nodes@.update(index as int, *final(r)), final(self).alternatives == old(self).alternatives
.desugar unwrap_or_else
@end
@fn src/parsers/tree.rs Inner::get_alt -> r
  requires index < ialts(*self).len()
  ensures *r == ialts(*self)[index as int]
@end
@fn src/parsers/tree.rs Inner::make_node -> r
  requires inner_wf(*old(self))
  ensures
    inner_wf(*final(self)), grows(*old(self), *final(self)), frame(*old(self), *final(self), -1),
    final(self).alternatives == old(self).alternatives, r == old(self).nodes@.len(), final(self).nodes@.len() == r + 1, nset(*final(self), r as int) == Set::<usize>::empty(),
.end
  proof {
    assert forall|n: int| #![trigger nset(*old(self), n)] #![trigger nset(*self, n)] 0 <= n < old(self).nodes@.len() implies nset(*self, n) == nset(*old(self), n) by {}
    assert forall|n: int, a: usize| 0 <= n < self.nodes@.len() && #[trigger] nset(*self, n).contains(a) implies a < ialts(*self).len() by { if n < old(self).nodes@.len() { assert(nset(*old(self), n).contains(a)); } }
    lemma_kids(*old(self), *self);
  }
@end
@fn src/parsers/tree.rs Inner::make_alt -> r
  requires inner_wf(*old(self)), kids_in(content, old(self).nodes@.len() as int)
  ensures
    inner_wf(*final(self)), grows(*old(self), *final(self)), final(self).nodes == old(self).nodes,
    r < ialts(*final(self)).len(), ialts(*final(self))[r as int] == content,
    ialts(*final(self)) == ialts(*old(self)) || (r == ialts(*old(self)).len() && ialts(*final(self)) == ialts(*old(self)).push(content)),
    (ialts(*final(self)) == ialts(*old(self))) == ialts(*old(self)).contains(content),
.end
  proof {
    assert forall|n: int, a: usize| 0 <= n < self.nodes@.len() && #[trigger] nset(*self, n).contains(a) implies a < ialts(*self).len() by { assert(nset(*old(self), n).contains(a)); }
    assert forall|i: int| 0 <= i < ialts(*self).len() implies kids_in(#[trigger] ialts(*self)[i], self.nodes@.len() as int) by { if i < ialts(*old(self)).len() { assert(kids_in(ialts(*old(self))[i], self.nodes@.len() as int)); } }
  }
@end
@fn src/parsers/tree.rs Inner::add_node_alt -> r
  requires inner_wf(*old(self)), node_index < old(self).nodes@.len(), alt_index < ialts(*old(self)).len()
  ensures
    inner_wf(*final(self)), grows(*old(self), *final(self)), frame(*old(self), *final(self), node_index as int),
    final(self).alternatives == old(self).alternatives, final(self).nodes@.len() == old(self).nodes@.len(),
    nset(*final(self), node_index as int) == nset(*old(self), node_index as int).insert(alt_index),
    (r is Changed) == !nset(*old(self), node_index as int).contains(alt_index),
.end
  proof {
    assert forall|n: int| #![trigger nset(*old(self), n)] #![trigger nset(*self, n)] 0 <= n < old(self).nodes@.len() && n != node_index implies nset(*self, n) == nset(*old(self), n) by {}
    assert forall|n: int, a: usize| 0 <= n < self.nodes@.len() && #[trigger] nset(*self, n).contains(a) implies a < ialts(*self).len() by { if n != node_index { assert(nset(*old(self), n).contains(a)); } else { if a != alt_index { assert(nset(*old(self), n).contains(a)); } } }
    lemma_kids(*old(self), *self);
  }
@end

// ---- handles
pub type Tok<T, AK, V> = VxTok<Inner<T, AK, V>>;
@type src/parsers/tree.rs TreeOwner reject=T,AK,V
@type src/parsers/tree.rs TreeHandle reject=T,AK,V
@type src/parsers/tree.rs Node reject=T,AK,V eq
@type src/parsers/tree.rs Alternative reject=T,AK,V eq
@type src/parsers/tree.rs Leaf reject=T,AK,V eq
@type src/parsers/tree.rs Branch reject=T,AK,V eq
@type src/parsers/tree.rs NodeContent reject=T,AK,V eq
impl<'a, T, AK, V> Clone for TreeHandle<'a, T, AK, V> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<'a, T, AK, V> Clone for Node<'a, T, AK, V> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for NodeData { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r.alternatives@ == self.alternatives@ { unimplemented!() } }
/// An address. Of a type whose values are its places, distinct values have distinct addresses.
#[verifier::external_body]
#[derive(PartialEq, Eq, PartialOrd, Ord)]
pub struct VxPtr { p: usize }
pub uninterp spec fn vx_place<X>(x: X) -> int;
pub uninterp spec fn vx_placed<X>() -> bool;
pub broadcast axiom fn ax_placed<X>(a: VxLock<X>, b: VxLock<X>) ensures vx_placed::<VxLock<X>>(), (#[trigger] vx_place(a) == #[trigger] vx_place(b)) == (a == b);
pub uninterp spec fn vx_ptr_v(p: VxPtr) -> int;
#[verifier::external_body] pub fn vx_addr<X>(x: &X) -> (r: VxPtr) ensures vx_placed::<X>() ==> vx_ptr_v(r) == vx_place(*x) { unimplemented!() }
#[verifier::external_body] pub fn vx_ptr_eq<X>(a: &X, b: &X) -> (r: bool) ensures vx_placed::<X>() ==> r == (vx_place(*a) == vx_place(*b)) { unimplemented!() }
pub open spec fn int_cmp(a: int, b: int) -> std::cmp::Ordering { if a < b { std::cmp::Ordering::Less } else if a == b { std::cmp::Ordering::Equal } else { std::cmp::Ordering::Greater } }
impl VxPtr { #[verifier::external_body] pub fn vx_cmp(&self, o: &Self) -> (r: std::cmp::Ordering) ensures r == int_cmp(vx_ptr_v(*self), vx_ptr_v(*o)) { unimplemented!() } }

@fn src/parsers/tree.rs cmp_raw_refs -> r
  ensures vx_placed::<T>() ==> r == int_cmp(vx_place(*a), vx_place(*b))
@end
@impl src/parsers/tree.rs Ord for TreeHandle +inherent
@method cmp -> r
  ensures r == int_cmp(vx_place(*self.0), vx_place(*other.0)), (r is Equal) == (*self == *other)
.start
  proof { ax_placed(*self.0, *other.0); }
@end
@fn src/parsers/tree.rs TreeHandle::is_same -> r
  ensures r == (*self == *other)
.start
  proof { ax_placed(*self.0, *other.0); }
@end
@impl src/parsers/tree.rs PartialOrd for TreeHandle +inherent
@method partial_cmp -> r
  ensures r == Some(int_cmp(vx_place(*self.0), vx_place(*other.0)))
@end
@impl src/parsers/tree.rs PartialEq for TreeHandle +inherent
@method eq -> r
  ensures r == (*self == *other)
@end

// ---- operations; `vx_t` is what the lock of the tree guards
pub open spec fn h_ok<T, AK, V>(h: TreeHandle<'_, T, AK, V>, t: Tok<T, AK, V>) -> bool { t.of@ == *h.0 && inner_wf(t.v) }
pub open spec fn n_ok<T, AK, V>(n: Node<'_, T, AK, V>, t: Tok<T, AK, V>) -> bool { h_ok(n.inner, t) && n.index < t.v.nodes@.len() }
pub open spec fn a_ok<T, AK, V>(n: Alternative<'_, T, AK, V>, t: Tok<T, AK, V>) -> bool { h_ok(n.inner, t) && n.index < ialts(t.v).len() }
/// The tree is still one, the same one, and has grown.
pub open spec fn t_step<T, AK, V>(a: Tok<T, AK, V>, b: Tok<T, AK, V>) -> bool { b.of@ == a.of@ && inner_wf(b.v) && grows(a.v, b.v) }
@impl src/parsers/tree.rs Default for TreeOwner +inherent
@method default -> r
  ensures inner_wf(r.inner.first()), r.inner.first().nodes@.len() == 0, ialts(r.inner.first()).len() == 0
@end
@fn src/parsers/tree.rs TreeOwner::new -> r
  ensures inner_wf(r.inner.first()), r.inner.first().nodes@.len() == 0, ialts(r.inner.first()).len() == 0
@end
@fn src/parsers/tree.rs TreeOwner::handle -> r
  ensures *r.0 == self.inner
@end
@fn src/parsers/tree.rs Node::handle -> r
  ensures r == self.inner
@end
@fn src/parsers/tree.rs Alternative::handle -> r
  ensures r == self.inner
@end
@fn src/parsers/tree.rs Leaf::handle -> r
  ensures r == self.inner
@end
@fn src/parsers/tree.rs Branch::handle -> r
  ensures r == self.inner
@end
@fn src/parsers/tree.rs TreeHandle::make_node -> r
  requires h_ok(*self, *old(vx_t))
  ensures
    t_step(*old(vx_t), *final(vx_t)), frame(old(vx_t).v, final(vx_t).v, -1), final(vx_t).v.alternatives == old(vx_t).v.alternatives,
    r.inner == *self, r.index == old(vx_t).v.nodes@.len(), final(vx_t).v.nodes@.len() == r.index + 1, nset(final(vx_t).v, r.index as int) == Set::<usize>::empty(),
.thread vx_t: &mut Tok<T, AK, V>
.guards
.pass -make_node
@end
@fn src/parsers/tree.rs TreeHandle::make_alt -> r
  requires h_ok(*self, *old(vx_t)), kids_in(content, old(vx_t).v.nodes@.len() as int)
  ensures
    t_step(*old(vx_t), *final(vx_t)), final(vx_t).v.nodes == old(vx_t).v.nodes,
    r.inner == *self, r.index < ialts(final(vx_t).v).len(), ialts(final(vx_t).v)[r.index as int] == content,
    ialts(final(vx_t).v) == ialts(old(vx_t).v) || (r.index == ialts(old(vx_t).v).len() && ialts(final(vx_t).v) == ialts(old(vx_t).v).push(content)),
    (ialts(final(vx_t).v) == ialts(old(vx_t).v)) == ialts(old(vx_t).v).contains(content),
.thread vx_t: &mut Tok<T, AK, V>
.guards
.pass -make_alt
@end
/// The content of a leaf.
pub open spec fn leaf_c<T, AK, V>(k: T, v: V) -> Content<T, AK, V> { NodeContentInner::Leaf(LeafData { kind: k, value: Arc::new(v) }) }
@fn src/parsers/tree.rs TreeHandle::make_leaf_alt -> r
  requires h_ok(*self, *old(vx_t))
  ensures
    t_step(*old(vx_t), *final(vx_t)), final(vx_t).v.nodes == old(vx_t).v.nodes,
    r.inner == *self, r.index < ialts(final(vx_t).v).len(), ialts(final(vx_t).v)[r.index as int] == leaf_c::<T, AK, V>(kind, value),
.thread vx_t: &mut Tok<T, AK, V>
@end
@fn src/parsers/tree.rs Node::add_alt -> r
  requires n_ok(*self, *old(vx_t)), alt.inner == self.inner ==> a_ok(*alt, *old(vx_t))
  ensures
    alt.inner == self.inner,
    t_step(*old(vx_t), *final(vx_t)), frame(old(vx_t).v, final(vx_t).v, self.index as int),
    final(vx_t).v.alternatives == old(vx_t).v.alternatives, final(vx_t).v.nodes@.len() == old(vx_t).v.nodes@.len(),
    nset(final(vx_t).v, self.index as int) == nset(old(vx_t).v, self.index as int).insert(alt.index),
    (r is Changed) == !nset(old(vx_t).v, self.index as int).contains(alt.index),
.thread vx_t: &mut Tok<T, AK, V>
.guards
.refuse 1
@end
@fn src/parsers/tree.rs TreeHandle::make_leaf_node -> r
  requires h_ok(*self, *old(vx_t))
  ensures
    t_step(*old(vx_t), *final(vx_t)), frame(old(vx_t).v, final(vx_t).v, -1),
    r.inner == *self, r.index == old(vx_t).v.nodes@.len(), final(vx_t).v.nodes@.len() == r.index + 1,
    exists|a: usize| a < ialts(final(vx_t).v).len() && ialts(final(vx_t).v)[a as int] == leaf_c::<T, AK, V>(kind, value) && nset(final(vx_t).v, r.index as int) == #[trigger] Set::<usize>::empty().insert(a),
.thread vx_t: &mut Tok<T, AK, V>
@end
/// The numbers of the nodes.
pub open spec fn idxs<T, AK, V>(s: Seq<Node<'_, T, AK, V>>) -> Seq<usize> { Seq::new(s.len(), |i: int| s[i].index) }
pub open spec fn is_branch<T, AK, V>(c: Content<T, AK, V>, a: AK, k: Seq<usize>) -> bool { c is Branch && c->Branch_0.action == a && c->Branch_0.nodes@ == k }
pub proof fn vx_is_vector(v: Vector<usize>) {}
@fn src/parsers/tree.rs TreeHandle::make_branch_alt -> r
  requires h_ok(*self, *old(vx_t)), forall|i: int| 0 <= i < nodes.vx_seq().len() && (#[trigger] nodes.vx_seq()[i]).inner == *self ==> n_ok(nodes.vx_seq()[i], *old(vx_t))
  ensures
    forall|i: int| 0 <= i < nodes.vx_seq().len() ==> (#[trigger] nodes.vx_seq()[i]).inner == *self,
    t_step(*old(vx_t), *final(vx_t)), final(vx_t).v.nodes == old(vx_t).v.nodes,
    r.inner == *self, r.index < ialts(final(vx_t).v).len(), is_branch(ialts(final(vx_t).v)[r.index as int], action, idxs(nodes.vx_seq())),
.thread vx_t: &mut Tok<T, AK, V>
.refuse 1
.closure 1
 ensures n.inner == *self
.after_let node_indexes
  proof {
    vx_is_vector(node_indexes);
    assert(node_indexes@ =~= idxs(nodes.vx_seq()));
    assert forall|k: int| 0 <= k < node_indexes@.len() implies (#[trigger] node_indexes@[k]) < vx_t.v.nodes@.len() by { assert(nodes.vx_seq()[k].inner == *self); }
  }
@end
@fn src/parsers/tree.rs TreeHandle::make_branch_node -> r
  requires h_ok(*self, *old(vx_t)), forall|i: int| 0 <= i < nodes.vx_seq().len() && (#[trigger] nodes.vx_seq()[i]).inner == *self ==> n_ok(nodes.vx_seq()[i], *old(vx_t))
  ensures
    forall|i: int| 0 <= i < nodes.vx_seq().len() ==> (#[trigger] nodes.vx_seq()[i]).inner == *self,
    t_step(*old(vx_t), *final(vx_t)), frame(old(vx_t).v, final(vx_t).v, -1),
    r.inner == *self, r.index == old(vx_t).v.nodes@.len(), final(vx_t).v.nodes@.len() == r.index + 1,
    exists|a: usize| a < ialts(final(vx_t).v).len() && is_branch(ialts(final(vx_t).v)[a as int], action, idxs(nodes.vx_seq())) && nset(final(vx_t).v, r.index as int) == #[trigger] Set::<usize>::empty().insert(a),
.thread vx_t: &mut Tok<T, AK, V>
@end
@fn src/parsers/tree.rs Node::alts -> r
  requires n_ok(*self, *vx_t)
  ensures
    forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).inner == self.inner && nset(vx_t.v, self.index as int).contains(r@[i].index),
    forall|a: usize| #[trigger] nset(vx_t.v, self.index as int).contains(a) ==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i]).index == a,
    forall|i: int, j: int| #![trigger r@[i], r@[j]] 0 <= i < j < r@.len() ==> r@[i].index != r@[j].index,
.thread vx_t: &Tok<T, AK, V>
.guards
.after_let alt_indexes
  let ghost vx_q = vx_set_seq(alt_indexes@);
  proof {
    ax_set_seq(alt_indexes@);
    assert forall|a: usize| #[trigger] nset(vx_t.v, self.index as int).contains(a) implies exists|i: int| 0 <= i < vx_q.len() && #[trigger] vx_q[i] == a by { ax_set_seq_contains(alt_indexes@, a); }
    assert forall|i: int| 0 <= i < vx_q.len() implies nset(vx_t.v, self.index as int).contains(#[trigger] vx_q[i]) by { ax_set_seq_index(alt_indexes@, i); }
  }
.end
  proof {
    assert forall|a: usize| #[trigger] nset(vx_t.v, self.index as int).contains(a) implies exists|i: int| 0 <= i < vx_tail@.len() && (#[trigger] vx_tail@[i]).index == a by { let i = choose|i: int| 0 <= i < vx_q.len() && #[trigger] vx_q[i] == a; assert(vx_tail@[i].index == a); }
    assert forall|i: int, j: int| #![trigger vx_tail@[i], vx_tail@[j]] 0 <= i < j < vx_tail@.len() implies vx_tail@[i].index != vx_tail@[j].index by { assert(vx_q[i] != vx_q[j]); }
  }
@end
@fn src/parsers/tree.rs Node::add_all -> r
  requires n_ok(*self, *old(vx_t)), other.inner == self.inner ==> n_ok(*other, *old(vx_t))
  ensures
    other.inner == self.inner,
    t_step(*old(vx_t), *final(vx_t)), frame(old(vx_t).v, final(vx_t).v, self.index as int),
    final(vx_t).v.alternatives == old(vx_t).v.alternatives, final(vx_t).v.nodes@.len() == old(vx_t).v.nodes@.len(),
    nset(final(vx_t).v, self.index as int) =~= nset(old(vx_t).v, self.index as int).union(nset(old(vx_t).v, other.index as int)),
    (r is Changed) == !nset(old(vx_t).v, other.index as int).subset_of(nset(old(vx_t).v, self.index as int)),
.thread vx_t: &mut Tok<T, AK, V>
.guards
.refuse 1
.loop 1
 invariant
   inner_wf(*inner), inner_wf(old(vx_t).v), grows(old(vx_t).v, *inner), frame(old(vx_t).v, *inner, self.index as int),
   inner.alternatives == old(vx_t).v.alternatives, inner.nodes@.len() == old(vx_t).v.nodes@.len(), self.index < inner.nodes@.len(), other.index < inner.nodes@.len(),
   vx_s1 == vx_ref_seq(vx_set_seq(nset(old(vx_t).v, other.index as int))),
   nset(*inner, self.index as int) =~= nset(old(vx_t).v, self.index as int).union(vx_pre(vx_set_seq(nset(old(vx_t).v, other.index as int)), vx_n1)),
   (changed_h1 is Changed) == exists|i: int| 0 <= i < vx_n1 && !nset(old(vx_t).v, self.index as int).contains(*#[trigger] vx_s1[i]),
.loop_start 1
  proof {
    ax_set_seq_index(nset(old(vx_t).v, other.index as int), vx_n1 - 1);
    assert(nset(old(vx_t).v, other.index as int).contains(*vx_s1[vx_n1 - 1])); vx_step(vx_set_seq(nset(old(vx_t).v, other.index as int)), vx_n1);
    lemma_grows(old(vx_t).v, *inner, *inner);
  }
  let ghost vx_i0 = *inner;
.loop_end 1
  proof { lemma_grows(old(vx_t).v, vx_i0, *inner); }
.before_loop 1
  proof { vx_ends(vx_set_seq(nset(old(vx_t).v, other.index as int))); ax_set_seq(nset(old(vx_t).v, other.index as int)); lemma_grows(old(vx_t).v, *inner, *inner); }
.after_loop 1
  proof {
    let s = nset(old(vx_t).v, other.index as int);
    assert forall|x: usize| s.contains(x) implies exists|i: int| 0 <= i < vx_set_seq(s).len() && #[trigger] vx_set_seq(s)[i] == x by { ax_set_seq_contains(s, x); }
    if changed_h1 is Changed { } else { assert forall|x: usize| s.contains(x) implies nset(old(vx_t).v, self.index as int).contains(x) by { let i = choose|i: int| 0 <= i < vx_set_seq(s).len() && #[trigger] vx_set_seq(s)[i] == x; assert(*vx_s1[i] == x); } }
  }
@end
@fn src/parsers/tree.rs Alternative::content -> r
  requires a_ok(*self, *vx_t)
  ensures
    r == (match ialts(vx_t.v)[self.index as int] { NodeContentInner::Leaf(_) => NodeContent::Leaf(Leaf { index: self.index, inner: self.inner }), NodeContentInner::Branch(_) => NodeContent::Branch(Branch { index: self.index, inner: self.inner }) }),
.thread vx_t: &Tok<T, AK, V>
.guards
@end
@fn src/parsers/tree.rs Leaf::kind -> r
  requires h_ok(self.inner, *vx_t), self.index < ialts(vx_t.v).len(), ialts(vx_t.v)[self.index as int] is Leaf
  ensures r == ialts(vx_t.v)[self.index as int]->Leaf_0.kind
.thread vx_t: &Tok<T, AK, V>
.guards
@end
@fn src/parsers/tree.rs Leaf::value -> r
  requires h_ok(self.inner, *vx_t), self.index < ialts(vx_t.v).len(), ialts(vx_t.v)[self.index as int] is Leaf
  ensures r == ialts(vx_t.v)[self.index as int]->Leaf_0.value
.thread vx_t: &Tok<T, AK, V>
.guards
@end
@fn src/parsers/tree.rs Branch::action -> r
  requires h_ok(self.inner, *vx_t), self.index < ialts(vx_t.v).len(), ialts(vx_t.v)[self.index as int] is Branch
  ensures r == ialts(vx_t.v)[self.index as int]->Branch_0.action
.thread vx_t: &Tok<T, AK, V>
.guards
@end
@fn src/parsers/tree.rs Branch::nodes -> r
  requires h_ok(self.inner, *vx_t), self.index < ialts(vx_t.v).len(), ialts(vx_t.v)[self.index as int] is Branch
  ensures
    r@.len() == ialts(vx_t.v)[self.index as int]->Branch_0.nodes@.len(),
    forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).inner == self.inner && r@[i].index == ialts(vx_t.v)[self.index as int]->Branch_0.nodes@[i] && n_ok(r@[i], *vx_t),
.thread vx_t: &Tok<T, AK, V>
.guards
@end
} // verus!
