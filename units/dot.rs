@use utils.rs
@use im.rs
@use tree.rs
@subst RwLock VxLock
@dropbound Debug
@inline src/utils.rs change_iter
@inline src/parsers/tree.rs TreeHandle::with
@inline src/parsers/tree.rs TreeHandle::with_mut
verus! {
// ---- what is reachable (dot output)
@type src/parsers/tree.rs DotNode derive=Copy,Clone,Eq,PartialEq,Ord,PartialOrd
/// The forest as a graph.
pub open spec fn d_edge<T, AK, V>(i: Inner<T, AK, V>, x: DotNode, y: DotNode) -> bool {
  match (x, y) {
    (DotNode::Node(n), DotNode::Alt(a)) => n < i.nodes@.len() && nset(i, n as int).contains(a),
    (DotNode::Alt(a), DotNode::Node(n)) => a < ialts(i).len() && ialts(i)[a as int] is Branch && ialts(i)[a as int]->Branch_0.nodes@.contains(n),
    _ => false,
  }
}
pub open spec fn d_valid<T, AK, V>(i: Inner<T, AK, V>, x: DotNode) -> bool { match x { DotNode::Node(n) => n < i.nodes@.len(), DotNode::Alt(a) => a < ialts(i).len() } }
pub open spec fn d_path<T, AK, V>(i: Inner<T, AK, V>, p: Seq<DotNode>, x: DotNode, y: DotNode) -> bool { p.len() > 0 && p[0] == x && p.last() == y && forall|k: int| 0 <= k < p.len() - 1 ==> #[trigger] d_edge(i, p[k], p[k + 1]) }
pub open spec fn d_reach<T, AK, V>(i: Inner<T, AK, V>, x: DotNode, y: DotNode) -> bool { exists|p: Seq<DotNode>| d_path(i, p, x, y) }
pub open spec fn d_closed<T, AK, V>(i: Inner<T, AK, V>, x: DotNode, s: Set<DotNode>) -> bool { forall|y: DotNode| #[trigger] d_edge(i, x, y) ==> s.contains(y) }
pub proof fn lemma_d_step<T, AK, V>(i: Inner<T, AK, V>, r: DotNode, x: DotNode, y: DotNode)
  requires inner_wf(i), d_reach(i, r, x), d_valid(i, x), d_edge(i, x, y)
  ensures d_reach(i, r, y), d_valid(i, y)
{
  let p = choose|p: Seq<DotNode>| d_path(i, p, r, x);
  let q = p.push(y);
  assert forall|k: int| 0 <= k < q.len() - 1 implies #[trigger] d_edge(i, q[k], q[k + 1]) by { if k < p.len() - 1 { assert(d_edge(i, p[k], p[k + 1])); } else { assert(q[k] == x && q[k + 1] == y); } }
  assert(d_path(i, q, r, y));
  match (x, y) {
    (DotNode::Alt(a), DotNode::Node(n)) => { assert(kids_in(ialts(i)[a as int], i.nodes@.len() as int)); let s = ialts(i)[a as int]->Branch_0.nodes@; let k = s.index_of(n); assert(s[k] == n); }
    (DotNode::Node(n), DotNode::Alt(a)) => { assert(nset(i, n as int).contains(a)); }
    _ => {}
  }
}
pub proof fn lemma_d_refl<T, AK, V>(i: Inner<T, AK, V>, r: DotNode) ensures d_reach(i, r, r) { assert(d_path(i, seq![r], r, r)); }
pub proof fn lemma_d_all<T, AK, V>(i: Inner<T, AK, V>, r: DotNode, s: Set<DotNode>)
  requires s.contains(r), forall|x: DotNode| s.contains(x) ==> #[trigger] d_closed(i, x, s)
  ensures forall|y: DotNode| #[trigger] d_reach(i, r, y) ==> s.contains(y)
{
  assert forall|y: DotNode| #[trigger] d_reach(i, r, y) implies s.contains(y) by {
    let p = choose|p: Seq<DotNode>| d_path(i, p, r, y);
    lemma_d_path(i, r, s, p, p.len() - 1);
  }
}
pub proof fn lemma_d_path<T, AK, V>(i: Inner<T, AK, V>, r: DotNode, s: Set<DotNode>, p: Seq<DotNode>, n: int)
  requires s.contains(r), forall|x: DotNode| s.contains(x) ==> #[trigger] d_closed(i, x, s), 0 <= n < p.len(), p[0] == r, forall|k: int| 0 <= k < p.len() - 1 ==> #[trigger] d_edge(i, p[k], p[k + 1])
  ensures s.contains(p[n])
  decreases n
{
  if n > 0 { lemma_d_path(i, r, s, p, n - 1); assert(d_closed(i, p[n - 1], s)); assert(d_edge(i, p[n - 1], p[n - 1 + 1])); }
}
/// Everything there is.
pub open spec fn d_univ(n: nat, a: nat) -> Set<DotNode> decreases n + a {
  if n > 0 { d_univ((n - 1) as nat, a).insert(DotNode::Node((n - 1) as usize)) } else if a > 0 { d_univ(n, (a - 1) as nat).insert(DotNode::Alt((a - 1) as usize)) } else { Set::empty() }
}
pub proof fn lemma_univ(n: nat, a: nat)
  requires n <= usize::MAX + 1, a <= usize::MAX + 1
  ensures forall|k: usize| k < n ==> #[trigger] d_univ(n, a).contains(DotNode::Node(k)), forall|k: usize| k < a ==> #[trigger] d_univ(n, a).contains(DotNode::Alt(k))
  decreases n + a
{
  if n > 0 { lemma_univ((n - 1) as nat, a); } else if a > 0 { lemma_univ(n, (a - 1) as nat); }
  assert forall|k: usize| k < n implies #[trigger] d_univ(n, a).contains(DotNode::Node(k)) by { if k < n - 1 { assert(d_univ((n - 1) as nat, a).contains(DotNode::Node(k))); } }
  assert forall|k: usize| k < a implies #[trigger] d_univ(n, a).contains(DotNode::Alt(k)) by { if n > 0 { assert(d_univ((n - 1) as nat, a).contains(DotNode::Alt(k))); } else if k < a - 1 { assert(d_univ(n, (a - 1) as nat).contains(DotNode::Alt(k))); } }
}
pub open spec fn d_all<T, AK, V>(i: Inner<T, AK, V>) -> Set<DotNode> { d_univ(i.nodes@.len(), ialts(i).len()) }
/// The state of the walk: `s0` was seen before this round.
pub open spec fn d_inv<T, AK, V>(i: Inner<T, AK, V>, r: DotNode, seen: Set<DotNode>, curr: Set<DotNode>, next: Set<DotNode>, s0: Set<DotNode>) -> bool {
  &&& seen.contains(r) && curr.subset_of(s0) && s0.subset_of(seen) && next.subset_of(seen)
  &&& forall|x: DotNode| #[trigger] seen.contains(x) ==> d_reach(i, r, x) && d_valid(i, x)
  &&& forall|x: DotNode| #[trigger] seen.contains(x) && !curr.contains(x) && !next.contains(x) ==> d_closed(i, x, seen)
  &&& forall|x: DotNode| #[trigger] next.contains(x) ==> !s0.contains(x)
  &&& forall|x: DotNode| #[trigger] seen.contains(x) ==> s0.contains(x) || next.contains(x)
}
pub proof fn lemma_d_add<T, AK, V>(i: Inner<T, AK, V>, r: DotNode, seen: Set<DotNode>, curr: Set<DotNode>, next: Set<DotNode>, s0: Set<DotNode>, x: DotNode, y: DotNode)
  requires inner_wf(i), d_inv(i, r, seen, curr, next, s0), seen.contains(x), d_edge(i, x, y)
  ensures
    !seen.contains(y) ==> d_inv(i, r, seen.insert(y), curr, next.insert(y), s0),
    forall|z: DotNode| #[trigger] d_closed(i, z, seen) ==> d_closed(i, z, seen.insert(y)),
{ lemma_d_step(i, r, x, y); assert forall|z: DotNode| #[trigger] d_closed(i, z, seen) implies d_closed(i, z, seen.insert(y)) by {} }
pub proof fn lemma_d_bound<T, AK, V>(i: Inner<T, AK, V>, seen: Set<DotNode>)
  requires forall|x: DotNode| seen.contains(x) ==> #[trigger] d_valid(i, x)
  ensures seen.subset_of(d_all(i)), seen.len() <= d_all(i).len()
{
  vstd::std_specs::vec::axiom_spec_len(&i.nodes);
  vstd::std_specs::vec::axiom_spec_len(&i.alternatives.id_to_value);
  lemma_univ(i.nodes@.len(), ialts(i).len());
  assert forall|x: DotNode| seen.contains(x) implies #[trigger] d_all(i).contains(x) by { assert(seen.contains(x)); assert(d_valid(i, x)); match x { DotNode::Node(k) => { assert(d_all(i).contains(DotNode::Node(k))); } DotNode::Alt(k) => { assert(d_all(i).contains(DotNode::Alt(k))); } } }
  vstd::set_lib::lemma_len_subset(seen, d_all(i));
}
pub proof fn lemma_d_round<T, AK, V>(i: Inner<T, AK, V>, r: DotNode, seen: Set<DotNode>, curr: Set<DotNode>, next: Set<DotNode>, s0: Set<DotNode>)
  requires inner_wf(i), d_inv(i, r, seen, curr, next, s0), forall|x: DotNode| #[trigger] curr.contains(x) ==> d_closed(i, x, seen)
  ensures d_inv(i, r, seen, next, Set::empty(), seen), seen.subset_of(d_all(i)), seen.len() <= d_all(i).len(), next.len() > 0 ==> seen.len() > s0.len(), next.len() == 0 ==> seen == s0
{
  lemma_d_bound(i, seen);
  assert(seen =~= s0.union(next));
  assert(s0.disjoint(next));
  vstd::set_lib::lemma_set_disjoint_lens(s0, next);
  if next.len() == 0 { assert(next =~= Set::empty()); assert(seen =~= s0); }
}
pub proof fn vx_push_dup<X>(s: Seq<X>, x: X)
  ensures s.no_duplicates() && !s.contains(x) ==> s.push(x).no_duplicates(), forall|y: X| #[trigger] s.push(x).contains(y) == (s.contains(y) || y == x)
{
  let q = s.push(x);
  assert forall|y: X| #[trigger] q.contains(y) == (s.contains(y) || y == x) by { if s.contains(y) { let i = s.index_of(y); assert(q[i] == y); } assert(q[s.len() as int] == x); if q.contains(y) { let i = q.index_of(y); if i < s.len() { assert(s[i] == y); } } }
  if s.no_duplicates() && !s.contains(x) { assert forall|i: int, j: int| 0 <= i < q.len() && 0 <= j < q.len() && i != j implies q[i] != q[j] by { if i < s.len() && j < s.len() { assert(s[i] != s[j]); } else if i < s.len() { assert(s.contains(s[i])); } else { assert(s.contains(s[j])); } } }
}
@fn src/parsers/tree.rs collect_nodes_and_alts -> r
  requires n_ok(*node, *vx_t)
  ensures
    r.0@.no_duplicates(), forall|n: usize| r.0@.contains(n) == #[trigger] d_reach(vx_t.v, DotNode::Node(node.index), DotNode::Node(n)),
    r.1@.no_duplicates(), forall|a: usize| r.1@.contains(a) == #[trigger] d_reach(vx_t.v, DotNode::Node(node.index), DotNode::Alt(a)),
.thread vx_t: &Tok<T, AK, V>
.guards
.after_let handle
  let ghost vx_r = DotNode::Node(node.index);
.before_loop 1
  let ghost mut vx_s0 = seen@;
  proof { lemma_d_refl(vx_t.v, vx_r); assert(d_inv(vx_t.v, vx_r, seen@, curr@, next@, seen@)); lemma_d_bound(vx_t.v, seen@); }
.loop 1
  invariant n_ok(*node, *vx_t), handle == node.inner, vx_r == DotNode::Node(node.index), vx_s0 == seen@, next@ == Set::<DotNode>::empty(), d_inv(vx_t.v, vx_r, seen@, curr@, next@, seen@), seen@.len() <= d_all(vx_t.v).len(),
  decreases d_all(vx_t.v).len() - seen@.len(), curr@.len()
.loop 2
  invariant n_ok(*node, *vx_t), handle == node.inner, vx_s2 == vx_ref_seq(vx_set_seq(curr@)), d_inv(vx_t.v, vx_r, seen@, curr@, next@, vx_s0),
    forall|k: int| 0 <= k < vx_n2 ==> d_closed(vx_t.v, *#[trigger] vx_s2[k], seen@),
.loop_start 2
  proof { ax_set_seq_index(curr@, vx_n2 - 1); assert(seen@.contains(*curr_item)); assert(d_valid(vx_t.v, *curr_item)); }
.loop 3
  invariant n_ok(*node, *vx_t), d_inv(vx_t.v, vx_r, seen@, curr@, next@, vx_s0), 0 < vx_n2 <= vx_s2.len(), curr_item == vx_s2[vx_n2 - 1], *curr_item == DotNode::Node(*node_id), *node_id < vx_t.v.nodes@.len(), seen@.contains(*curr_item),
    vx_s3 == vx_ref_seq(vx_set_seq(nset(vx_t.v, *node_id as int))),
    forall|k: int| 0 <= k < vx_n2 - 1 ==> d_closed(vx_t.v, *#[trigger] vx_s2[k], seen@),
    forall|k: int| 0 <= k < vx_n3 ==> seen@.contains(DotNode::Alt(*#[trigger] vx_s3[k])),
.loop_start 3
  proof { ax_set_seq_index(nset(vx_t.v, *node_id as int), vx_n3 - 1); lemma_d_add(vx_t.v, vx_r, seen@, curr@, next@, vx_s0, *curr_item, DotNode::Alt(*alt_id)); }
.after_loop 3
  proof {
    assert forall|y: DotNode| #[trigger] d_edge(vx_t.v, *curr_item, y) implies seen@.contains(y) by { let a = y->Alt_0; ax_set_seq_contains(nset(vx_t.v, *node_id as int), a); let k = choose|k: int| 0 <= k < vx_s3.len() && #[trigger] vx_set_seq(nset(vx_t.v, *node_id as int))[k] == a; assert(*vx_s3[k] == a); }
    assert(d_closed(vx_t.v, *curr_item, seen@));
  }
.loop 4
  invariant n_ok(*node, *vx_t), d_inv(vx_t.v, vx_r, seen@, curr@, next@, vx_s0), 0 < vx_n2 <= vx_s2.len(), curr_item == vx_s2[vx_n2 - 1], *curr_item == DotNode::Alt(*alt_id), *alt_id < ialts(vx_t.v).len(), ialts(vx_t.v)[*alt_id as int] == NodeContentInner::<T, AK, V>::Branch(*branch_data), seen@.contains(*curr_item),
    vx_s4 == vx_ref_seq(branch_data.nodes@),
    forall|k: int| 0 <= k < vx_n2 - 1 ==> d_closed(vx_t.v, *#[trigger] vx_s2[k], seen@),
    forall|k: int| 0 <= k < vx_n4 ==> seen@.contains(DotNode::Node(*#[trigger] vx_s4[k])),
.loop_start 4
  proof { assert(branch_data.nodes@[vx_n4 - 1] == *node_id); lemma_d_add(vx_t.v, vx_r, seen@, curr@, next@, vx_s0, *curr_item, DotNode::Node(*node_id)); }
.after_loop 4
  proof {
    assert forall|y: DotNode| #[trigger] d_edge(vx_t.v, *curr_item, y) implies seen@.contains(y) by { let n = y->Node_0; let k = branch_data.nodes@.index_of(n); assert(branch_data.nodes@[k] == n); assert(*vx_s4[k] == n); }
    assert(d_closed(vx_t.v, *curr_item, seen@));
  }
.after_loop 2
  proof {
    assert forall|x: DotNode| #[trigger] curr@.contains(x) implies d_closed(vx_t.v, x, seen@) by { ax_set_seq_contains(curr@, x); let k = choose|k: int| 0 <= k < vx_s2.len() && #[trigger] vx_set_seq(curr@)[k] == x; assert(*vx_s2[k] == x); }
    lemma_d_round(vx_t.v, vx_r, seen@, curr@, next@, vx_s0);
  }
.loop_end 1
  proof { vx_s0 = seen@; }
.before_let nodes
  let ghost vx_seen = seen@;
  proof {
    assert(curr@ =~= Set::<DotNode>::empty());
    assert forall|x: DotNode| vx_seen.contains(x) implies #[trigger] d_closed(vx_t.v, x, vx_seen) by {}
    lemma_d_all(vx_t.v, vx_r, vx_seen); ax_set_seq(vx_seen);
  }
.loop 5
  invariant
    vx_s5 == vx_set_seq(vx_seen), vx_s5.no_duplicates(),
    forall|y: DotNode| #[trigger] d_reach(vx_t.v, vx_r, y) == vx_seen.contains(y),
    nodes@.no_duplicates(), forall|n: usize| #[trigger] nodes@.contains(n) == vx_pre(vx_s5, vx_n5).contains(DotNode::Node(n)),
    alts@.no_duplicates(), forall|n: usize| #[trigger] alts@.contains(n) == vx_pre(vx_s5, vx_n5).contains(DotNode::Alt(n)),
.loop_start 5
  proof {
    assert(!vx_pre(vx_s5, vx_n5 - 1).contains(item)) by { if vx_pre(vx_s5, vx_n5 - 1).contains(item) { let k = vx_s5.take(vx_n5 - 1).index_of(item); assert(vx_s5[k] == vx_s5[vx_n5 - 1]); } }
  }
  let ghost vx_a = alts@; let ghost vx_b = nodes@;
.loop_end 5
  proof {
    match item {
      DotNode::Node(k) => { vx_push_dup(vx_b, k); assert(nodes@ == vx_b.push(k)); }
      DotNode::Alt(k) => { vx_push_dup(vx_a, k); assert(alts@ == vx_a.push(k)); }
    }
  }
@end

// ---- the dot crate's interface
/// How a value is written with `{:?}` / `{}`.
pub uninterp spec fn vx_dbg<X>(x: X) -> Seq<char>;
pub uninterp spec fn vx_disp<X>(x: X) -> Seq<char>;
pub broadcast axiom fn ax_dbg_ref<X>(x: &X) ensures #[trigger] vx_dbg::<&X>(x) == vx_dbg::<X>(*x);
pub broadcast axiom fn ax_disp_ref<X>(x: &X) ensures #[trigger] vx_disp::<&X>(x) == vx_disp::<X>(*x);
pub struct VxFmt { pub v: String }
impl VxFmt {
  #[verifier::external_body] pub fn new() -> (r: Self) ensures r.v@ == Seq::<char>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn lit(self, s: &str) -> (r: Self) ensures r.v@ == self.v@ + s@ { unimplemented!() }
  #[verifier::external_body] pub fn dbg<X>(self, x: &X) -> (r: Self) ensures r.v@ == self.v@ + vx_dbg(*x) { unimplemented!() }
  #[verifier::external_body] pub fn disp<X>(self, x: &X) -> (r: Self) ensures r.v@ == self.v@ + vx_disp(*x) { unimplemented!() }
  #[verifier::external_body] pub fn end(self) -> (r: String) ensures r@ == self.v@ { unimplemented!() }
}
pub open spec fn is_digit(c: char) -> bool { '0' <= c && c <= '9' }
/// Numbers are written in digits, and different numbers differently.
pub broadcast axiom fn ax_disp_usize(n: usize) ensures (#[trigger] vx_disp::<usize>(n)).len() > 0, forall|i: int| 0 <= i < vx_disp(n).len() ==> is_digit(#[trigger] vx_disp(n)[i]);
pub broadcast axiom fn ax_disp_inj(n: usize, m: usize) ensures (#[trigger] vx_disp::<usize>(n) == #[trigger] vx_disp::<usize>(m)) == (n == m);
pub open spec fn id_char(c: char) -> bool { ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') || c == '_' }
/// What the dot crate accepts as an identifier.
pub open spec fn id_ok(s: Seq<char>) -> bool { s.len() > 0 && id_char(s[0]) && forall|i: int| 0 < i < s.len() ==> id_char(#[trigger] s[i]) || is_digit(s[i]) }
pub trait VxText: Sized { spec fn vx_text(self) -> Seq<char>; }
impl<'x> VxText for &'x str { open spec fn vx_text(self) -> Seq<char> { self@ } }
impl VxText for String { open spec fn vx_text(self) -> Seq<char> { self@ } }
pub mod dot {
  use super::*;
  verus! {
  #[verifier::external_body]
  #[verifier::reject_recursive_types(N)]
  pub struct Nodes<'a, N> { p: &'a [N] }
  impl<'a, N> View for Nodes<'a, N> { type V = Seq<N>; uninterp spec fn view(&self) -> Seq<N>; }
  impl<'a, N> VxFrom<N> for Nodes<'a, N> { open spec fn vx_from(s: Seq<N>, r: Self) -> bool { r@ == s } }
  pub type Edges<'a, E> = Nodes<'a, E>;
  #[verifier::external_body]
  pub struct Id<'a> { p: &'a str }
  impl<'a> View for Id<'a> { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
  impl<'a> Id<'a> { #[verifier::external_body] pub fn new<N: VxText>(n: N) -> (r: Result<Id<'a>, ()>) ensures (r is Ok) == id_ok(n.vx_text()), r is Ok ==> r->Ok_0@ == n.vx_text() { unimplemented!() } }
  /// `render` lists what `nodes` and `edges` of the printer return, with the ids and labels of its labeller; writing to memory does not fail.
  #[verifier::external_body]
  pub fn render<'a, T, AK, V>(g: &DotPrinter<'a, T, AK, V>, w: &mut std::io::Cursor<Vec<u8>>, t: &Tok<T, AK, V>) -> (r: Result<(), VxNever>)
    requires dp_ok(*g, *t)
    ensures r is Ok, cur_of(*old(w))@.len() == 0 ==> cur_of(*final(w))@ == vx_utf8(dot_of(t.v, g.nodes@, g.alts@)) { unimplemented!() }
  #[verifier::external_body]
  pub struct LabelText<'a> { p: &'a str }
  impl<'a> View for LabelText<'a> { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
  /// What is shown for a text in which backslashes have a meaning, or which is a piece of HTML: not, in general, the text.
  pub uninterp spec fn shown_escaped(s: Seq<char>) -> Seq<char>;
  pub uninterp spec fn shown_html(s: Seq<char>) -> Seq<char>;
  impl<'a> LabelText<'a> {
    #[verifier::external_body] pub fn label<S: VxText>(s: S) -> (r: LabelText<'a>) ensures r@ == s.vx_text() { unimplemented!() }
    #[verifier::external_body] pub fn escaped<S: VxText>(s: S) -> (r: LabelText<'a>) ensures r@ == shown_escaped(s.vx_text()) { unimplemented!() }
    #[verifier::external_body] pub fn html<S: VxText>(s: S) -> (r: LabelText<'a>) ensures r@ == shown_html(s.vx_text()) { unimplemented!() }
  }
  }
}
@type src/parsers/tree.rs DotPrinter reject=T,AK,V
@type src/parsers/tree.rs DotEdge
pub open spec fn dp_ok<T, AK, V>(d: DotPrinter<'_, T, AK, V>, t: Tok<T, AK, V>) -> bool {
  &&& h_ok(d.handle, t)
  &&& forall|i: int| 0 <= i < d.nodes@.len() ==> d_valid(t.v, DotNode::Node(#[trigger] d.nodes@[i]))
  &&& forall|i: int| 0 <= i < d.alts@.len() ==> d_valid(t.v, DotNode::Alt(#[trigger] d.alts@[i]))
}
pub proof fn lemma_d_reach_valid<T, AK, V>(i: Inner<T, AK, V>, r: DotNode, y: DotNode)
  requires inner_wf(i), d_valid(i, r), d_reach(i, r, y)
  ensures d_valid(i, y)
{
  let p = choose|p: Seq<DotNode>| d_path(i, p, r, y);
  lemma_d_path_valid(i, r, p, p.len() - 1);
}
pub proof fn lemma_d_path_valid<T, AK, V>(i: Inner<T, AK, V>, r: DotNode, p: Seq<DotNode>, n: int)
  requires inner_wf(i), d_valid(i, r), 0 <= n < p.len(), p[0] == r, forall|k: int| 0 <= k < p.len() - 1 ==> #[trigger] d_edge(i, p[k], p[k + 1])
  ensures d_valid(i, p[n])
  decreases n
{
  if n > 0 {
    lemma_d_path_valid(i, r, p, n - 1); assert(d_edge(i, p[n - 1], p[n - 1 + 1]));
    let x = p[n - 1]; let y = p[n]; lemma_d_refl(i, x); lemma_d_step(i, x, x, y);
  }
}
@fn src/parsers/tree.rs DotPrinter::new -> r
  requires n_ok(*node, *vx_t)
  ensures
    dp_ok(r, *vx_t), r.handle == node.inner,
    r.nodes@.no_duplicates(), forall|n: usize| r.nodes@.contains(n) == #[trigger] d_reach(vx_t.v, DotNode::Node(node.index), DotNode::Node(n)),
    r.alts@.no_duplicates(), forall|a: usize| r.alts@.contains(a) == #[trigger] d_reach(vx_t.v, DotNode::Node(node.index), DotNode::Alt(a)),
.thread vx_t: &Tok<T, AK, V>
.end
  proof {
    assert forall|i: int| 0 <= i < vx_tail.nodes@.len() implies d_valid(vx_t.v, DotNode::Node(#[trigger] vx_tail.nodes@[i])) by { assert(vx_tail.nodes@.contains(vx_tail.nodes@[i])); lemma_d_reach_valid(vx_t.v, DotNode::Node(node.index), DotNode::Node(vx_tail.nodes@[i])); }
    assert forall|i: int| 0 <= i < vx_tail.alts@.len() implies d_valid(vx_t.v, DotNode::Alt(#[trigger] vx_tail.alts@[i])) by { assert(vx_tail.alts@.contains(vx_tail.alts@[i])); lemma_d_reach_valid(vx_t.v, DotNode::Node(node.index), DotNode::Alt(vx_tail.alts@[i])); }
  }
@end
pub open spec fn nodes_of(s: Seq<usize>) -> Seq<DotNode> { Seq::new(s.len(), |i: int| DotNode::Node(s[i])) }
pub open spec fn alts_of(s: Seq<usize>) -> Seq<DotNode> { Seq::new(s.len(), |i: int| DotNode::Alt(s[i])) }
pub open spec fn from_to(x: DotNode, s: Seq<DotNode>) -> Seq<DotEdge> { Seq::new(s.len(), |i: int| (x, s[i])) }
pub open spec fn kids_of<T, AK, V>(i: Inner<T, AK, V>, a: int) -> Seq<usize> { if ialts(i)[a] is Branch { ialts(i)[a]->Branch_0.nodes@ } else { Seq::empty() } }
pub open spec fn edges_n<T, AK, V>(i: Inner<T, AK, V>, s: Seq<usize>) -> Seq<Seq<DotEdge>> { Seq::new(s.len(), |k: int| from_to(DotNode::Node(s[k]), alts_of(vx_set_seq(nset(i, s[k] as int))))) }
pub open spec fn edges_a<T, AK, V>(i: Inner<T, AK, V>, s: Seq<usize>) -> Seq<Seq<DotEdge>> { Seq::new(s.len(), |k: int| from_to(DotNode::Alt(s[k]), nodes_of(kids_of(i, s[k] as int)))) }
@impl src/parsers/tree.rs GraphWalk for DotPrinter +inherent
@method nodes -> r
  ensures r@ == nodes_of(self.nodes@) + alts_of(self.alts@)
@method edges -> r
  requires dp_ok(*self, *vx_t)
  ensures r@ == vx_cat(edges_n(vx_t.v, self.nodes@)) + vx_cat(edges_a(vx_t.v, self.alts@))
.thread vx_t: &'a Tok<T, AK, V>
.guards
.loop 1
  invariant
    dp_ok(*self, *vx_t), vx_s1 == self.nodes@,
    vx_o1@ == vx_cat(edges_n(vx_t.v, self.nodes@.take(vx_n1))),
.loop_start 1
  proof { assert(node_id == self.nodes@[vx_n1 - 1]); assert(d_valid(vx_t.v, DotNode::Node(self.nodes@[vx_n1 - 1]))); }
.loop_end 1
  proof {
    assert(vx_e1@ =~= from_to(DotNode::Node(node_id), alts_of(vx_set_seq(nset(vx_t.v, node_id as int)))));
    let w = edges_n(vx_t.v, self.nodes@.take(vx_n1));
    assert(w.drop_last() =~= edges_n(vx_t.v, self.nodes@.take(vx_n1 - 1)));
    assert(w.last() == vx_e1@);
  }
.after_loop 1
  proof { assert(self.nodes@.take(vx_n1) =~= self.nodes@); }
.loop 2
  invariant
    dp_ok(*self, *vx_t), vx_s2 == self.alts@,
    vx_o2@ == vx_cat(edges_a(vx_t.v, self.alts@.take(vx_n2))),
.loop_start 2
  proof { assert(alt_id == self.alts@[vx_n2 - 1]); assert(d_valid(vx_t.v, DotNode::Alt(self.alts@[vx_n2 - 1]))); }
.loop_end 2
  proof {
    assert(vx_e2@ =~= from_to(DotNode::Alt(alt_id), nodes_of(kids_of(vx_t.v, alt_id as int))));
    let w = edges_a(vx_t.v, self.alts@.take(vx_n2));
    assert(w.drop_last() =~= edges_a(vx_t.v, self.alts@.take(vx_n2 - 1)));
    assert(w.last() == vx_e2@);
  }
.after_loop 2
  proof { assert(self.alts@.take(vx_n2) =~= self.alts@); }
@method source -> r
  ensures r == edge.0
@method target -> r
  ensures r == edge.1
@end
/// The identifier of a node or an alternative.
pub open spec fn id_of(n: DotNode) -> Seq<char> { match n { DotNode::Node(k) => "n"@ + vx_disp(k), DotNode::Alt(k) => "a"@ + vx_disp(k) } }
pub open spec fn label_of<T, AK, V>(c: Content<T, AK, V>) -> Seq<char> { match c { NodeContentInner::Branch(b) => vx_dbg(b.action), NodeContentInner::Leaf(l) => vx_dbg(l.kind) + "("@ + vx_dbg(l.value) + ")"@ } }
/// Different things have different identifiers.
pub proof fn lemma_ids(x: DotNode, y: DotNode) ensures (id_of(x) == id_of(y)) == (x == y), id_ok(id_of(x))
{
  reveal_strlit("n"); reveal_strlit("a");
  let kx = match x { DotNode::Node(k) => k, DotNode::Alt(k) => k }; let ky = match y { DotNode::Node(k) => k, DotNode::Alt(k) => k };
  ax_disp_usize(kx); ax_disp_usize(ky); ax_disp_inj(kx, ky);
  if id_of(x) == id_of(y) { assert(id_of(x)[0] == id_of(y)[0]); assert(id_of(x).skip(1) =~= vx_disp(kx)); assert(id_of(y).skip(1) =~= vx_disp(ky)); }
  assert forall|i: int| 0 < i < id_of(x).len() implies id_char(#[trigger] id_of(x)[i]) || is_digit(id_of(x)[i]) by { assert(id_of(x)[i] == vx_disp(kx)[i - 1]); }
}
@impl src/parsers/tree.rs Labeller for DotPrinter +inherent
@method graph_id
.start
  proof { reveal_strlit("G"); }
@method node_id -> r
  ensures r@ == id_of(*n)
.start
  proof { broadcast use ax_disp_ref; lemma_ids(*n, *n); }
@method node_shape
@method node_label -> r
  requires h_ok(self.handle, *vx_t), d_valid(vx_t.v, *node)
  ensures match *node { DotNode::Node(_) => true, DotNode::Alt(a) => r@ == label_of(ialts(vx_t.v)[a as int]) }
.thread vx_t: &'a Tok<T, AK, V>
.guards
@end

// ---- the whole text
use std::io::Cursor;
// vx-thread dot::render ref
#[verifier::external_type_specification] #[verifier::external_body] #[verifier::reject_recursive_types(X)] pub struct ExCursor<X>(std::io::Cursor<X>);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExUtf8(std::string::FromUtf8Error);
pub uninterp spec fn cur_of<X>(c: std::io::Cursor<X>) -> X;
pub assume_specification<X>[ std::io::Cursor::<X>::new ](x: X) -> (r: std::io::Cursor<X>) ensures cur_of(r) == x;
pub assume_specification<X>[ std::io::Cursor::<X>::into_inner ](c: std::io::Cursor<X>) -> (r: X) ensures r == cur_of(c);
pub uninterp spec fn vx_utf8(s: Seq<char>) -> Seq<u8>;
pub assume_specification[ String::from_utf8 ](v: Vec<u8>) -> (r: Result<String, std::string::FromUtf8Error>) ensures forall|t: Seq<char>| v@ == #[trigger] vx_utf8(t) ==> r is Ok && r->Ok_0@ == t;
/// What the dot crate writes for a graph with these nodes and edges, given what the labeller says of each.
pub uninterp spec fn dot_text(nodes: Seq<DotNode>, edges: Seq<DotEdge>, id: spec_fn(DotNode) -> Seq<char>, label: spec_fn(DotNode) -> Seq<char>) -> Seq<char>;
/// What is written beside the point of a node; the property says nothing about it.
pub uninterp spec fn point_label(n: usize) -> Seq<char>;
pub open spec fn dot_label<T, AK, V>(i: Inner<T, AK, V>) -> spec_fn(DotNode) -> Seq<char> { |x: DotNode| match x { DotNode::Node(n) => point_label(n), DotNode::Alt(a) => label_of(ialts(i)[a as int]) } }
pub open spec fn dot_of<T, AK, V>(i: Inner<T, AK, V>, nodes: Seq<usize>, alts: Seq<usize>) -> Seq<char> { dot_text(nodes_of(nodes) + alts_of(alts), vx_cat(edges_n(i, nodes)) + vx_cat(edges_a(i, alts)), |x: DotNode| id_of(x), dot_label(i)) }
@fn src/parsers/tree.rs Node::to_dot -> r
  requires n_ok(*self, *vx_t)
  ensures exists|nodes: Seq<usize>, alts: Seq<usize>| r@ == #[trigger] dot_of(vx_t.v, nodes, alts)
    && nodes.no_duplicates() && (forall|n: usize| nodes.contains(n) == #[trigger] d_reach(vx_t.v, DotNode::Node(self.index), DotNode::Node(n)))
    && alts.no_duplicates() && (forall|a: usize| alts.contains(a) == #[trigger] d_reach(vx_t.v, DotNode::Node(self.index), DotNode::Alt(a)))
.thread vx_t: &Tok<T, AK, V>
@end
} // verus!
