@use utils.rs
@use base.rs
@use passes.rs
verus! {
// Void has no values; Verus has no empty types, so it is an opaque type here.
#[verifier::external_body]
pub struct Void { v: () }
impl Clone for Void { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
@type src/utils.rs TreeValue
@type src/utils.rs TreeNode
impl<L: Clone, V: Clone> Clone for TreeNode<L, V> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
@type src/grammar/passes/nullable/nullables.rs InternalNullableInfo reject=T,NT,AK,AV
@type src/grammar/passes/nullable/nullables.rs GrammarNullableInfo reject=NT
@type src/grammar/passes/nullable/nullables.rs NonTermNullableInfo
@type src/grammar/passes/nullable/nullables.rs NullableError
@impl src/grammar/passes/nullable/nullables.rs Ord for InternalNullableInfo +inherent
@method cmp -> r
  ensures r == vx_ord(self.nullable_actions, other.nullable_actions)
@end
@impl src/grammar/passes/nullable/nullables.rs PartialOrd for InternalNullableInfo +inherent
@method partial_cmp -> r
  ensures r == Some(vx_ord(self.nullable_actions, other.nullable_actions))
@end
@impl src/grammar/passes/nullable/nullables.rs PartialEq for InternalNullableInfo +inherent
@method eq -> r
  ensures r == (self.nullable_actions == other.nullable_actions)
@end

// ---- what it means to derive the empty string
/// `nt` derives the empty string by a derivation tree of height at most `h`.
pub open spec fn null_h<T, NT, AK, AV>(g: &Grammar<T, NT, AK, AV>, nt: NT, h: nat) -> bool decreases h, 0nat {
  h > 0 && g.rule_set@.contains_key(nt) && exists|i: int| 0 <= i < g.rule_set@[nt].prods@.len() && elems_null_h(g, (#[trigger] g.rule_set@[nt].prods@[i]).elements@, (h - 1) as nat)
}
pub open spec fn elems_null_h<T, NT, AK, AV>(g: &Grammar<T, NT, AK, AV>, s: Seq<ProdElement<T, NT>>, h: nat) -> bool decreases h, 1nat {
  forall|j: int| 0 <= j < s.len() ==> match (#[trigger] s[j]).element { Elem::NonTerm(nt) => null_h(g, nt, h), Elem::Term(_) => false }
}
pub open spec fn nullable<T, NT, AK, AV>(g: &Grammar<T, NT, AK, AV>, nt: NT) -> bool { exists|h: nat| null_h(g, nt, h) }
/// Every symbol is a nonterminal that derives the empty string.
pub open spec fn elems_null<T, NT, AK, AV>(g: &Grammar<T, NT, AK, AV>, s: Seq<ProdElement<T, NT>>) -> bool {
  forall|j: int| 0 <= j < s.len() ==> match (#[trigger] s[j]).element { Elem::NonTerm(nt) => nullable(g, nt), Elem::Term(_) => false }
}
pub proof fn lemma_null_mono<T, NT, AK, AV>(g: &Grammar<T, NT, AK, AV>, nt: NT, h: nat, k: nat)
  requires null_h(g, nt, h), h <= k
  ensures null_h(g, nt, k)
  decreases h
{
  let i = choose|i: int| 0 <= i < g.rule_set@[nt].prods@.len() && elems_null_h(g, (#[trigger] g.rule_set@[nt].prods@[i]).elements@, (h - 1) as nat);
  let s = g.rule_set@[nt].prods@[i].elements@;
  assert forall|j: int| 0 <= j < s.len() implies match (#[trigger] s[j]).element { Elem::NonTerm(nt) => null_h(g, nt, (k - 1) as nat), Elem::Term(_) => false } by {
    match s[j].element { Elem::NonTerm(b) => { lemma_null_mono(g, b, (h - 1) as nat, (k - 1) as nat); } Elem::Term(_) => {} }
  }
  assert(elems_null_h(g, s, (k - 1) as nat));
}
pub proof fn lemma_elems_height<T, NT, AK, AV>(g: &Grammar<T, NT, AK, AV>, s: Seq<ProdElement<T, NT>>) -> (h: nat)
  requires elems_null(g, s)
  ensures elems_null_h(g, s, h)
  decreases s.len()
{
  if s.len() == 0 { 0 } else {
    let p = s.drop_last();
    assert forall|j: int| 0 <= j < p.len() implies match (#[trigger] p[j]).element { Elem::NonTerm(nt) => nullable(g, nt), Elem::Term(_) => false } by { assert(p[j] == s[j]); }
    let a = lemma_elems_height(g, p);
    let l = s[s.len() - 1];
    let b = match l.element { Elem::NonTerm(nt) => choose|h: nat| null_h(g, nt, h), Elem::Term(_) => 0nat };
    let m = if a > b { a } else { b };
    assert forall|j: int| 0 <= j < s.len() implies match (#[trigger] s[j]).element { Elem::NonTerm(nt) => null_h(g, nt, m), Elem::Term(_) => false } by {
      if j < p.len() { assert(p[j] == s[j]); match s[j].element { Elem::NonTerm(nt) => { lemma_null_mono(g, nt, a, m); } Elem::Term(_) => {} } }
      else { match s[j].element { Elem::NonTerm(nt) => { lemma_null_mono(g, nt, b, m); } Elem::Term(_) => {} } }
    }
    m
  }
}
/// Production number `i` of the rule of `k`.
pub open spec fn nth_prod<'a, T, NT, AK, AV>(g: &'a Grammar<T, NT, AK, AV>, k: NT, i: int) -> Prod<'a, T, NT, AK, AV> { mk_prod(g, &g.rule_set@[k].head, &g.rule_set@[k].prods@[i]) }
pub open spec fn has_nth<T, NT, AK, AV>(g: &Grammar<T, NT, AK, AV>, k: NT, i: int) -> bool { g.rule_set@.contains_key(k) && 0 <= i < g.rule_set@[k].prods@.len() }
pub broadcast proof fn lemma_g_prods<'a, T, NT, AK, AV>(g: &'a Grammar<T, NT, AK, AV>, p: Prod<'a, T, NT, AK, AV>)
  ensures #[trigger] g_prods(g).contains(p) == exists|k: NT, i: int| #[trigger] has_nth(g, k, i) && p == nth_prod(g, k, i)
{
  let dom = g.rule_set@.dom();
  let o = Seq::new(g_rules(g).len(), |i: int| rule_prods(g_rules(g)[i]));
  lemma_cat_contains(o, p);
  if g_prods(g).contains(p) {
    let a = choose|a: int| 0 <= a < o.len() && (#[trigger] o[a]).contains(p);
    let k = vx_set_seq(dom)[a];
    ax_set_seq_index(dom, a);
    let i = o[a].index_of(p);
    assert(has_nth(g, k, i) && p == nth_prod(g, k, i));
  }
  if exists|k: NT, i: int| #[trigger] has_nth(g, k, i) && p == nth_prod(g, k, i) {
    let (k, i) = choose|k: NT, i: int| #[trigger] has_nth(g, k, i) && p == nth_prod(g, k, i);
    ax_set_seq_contains(dom, k);
    let a = vx_set_seq(dom).index_of(k);
    assert(o[a][i] == p);
    assert(o[a].contains(p));
  }
}
/// A production all of whose symbols vanish makes its head vanish.
pub proof fn lemma_null_prod<'a, T, NT, AK, AV>(g: &'a Grammar<T, NT, AK, AV>, p: Prod<'a, T, NT, AK, AV>)
  requires g_wf(g), g_prods(g).contains(p), elems_null(g, p.prod.elements@)
  ensures nullable(g, *p.head)
{
  lemma_g_prods(g, p);
  let (k, i) = choose|k: NT, i: int| #[trigger] has_nth(g, k, i) && p == nth_prod(g, k, i);
  let h = lemma_elems_height(g, p.prod.elements@);
  assert(g.rule_set@[k].prods@[i] == *p.prod);
  assert(null_h(g, k, h + 1));
}

// ---- the fixed point
pub open spec fn all_keys<T, NT>(d: Set<NT>, s: Seq<ProdElement<T, NT>>) -> bool {
  forall|j: int| 0 <= j < s.len() ==> match (#[trigger] s[j]).element { Elem::NonTerm(nt) => d.contains(nt), Elem::Term(_) => false }
}
@fn src/grammar/passes/nullable/nullables.rs is_prod_nullable -> r
  ensures r == all_keys(nullables@.dom(), prod.prod.elements@)
.loop 1
  invariant
    vx_s1 == elem_refs(prod.prod.elements@),
    forall|j: int| 0 <= j < vx_n1 ==> match (#[trigger] prod.prod.elements@[j]).element { Elem::NonTerm(nt) => nullables@.contains_key(nt), Elem::Term(_) => false },
@end
@fn src/grammar/passes/nullable/nullables.rs get_only -> r
  requires op.vx_seq().len() == 1
  ensures r == op.vx_seq()[0]
@end
pub open spec fn in_act<'a, T, NT, AK, AV>(m: Map<NT, InternalNullableInfo<'a, T, NT, AK, AV>>, nt: NT, p: Prod<'a, T, NT, AK, AV>) -> bool { m.contains_key(nt) && m[nt].nullable_actions@.contains(p) }
@fn src/grammar/passes/nullable/nullables.rs InternalNullableInfo::new -> r
  ensures r.nullable_actions@ == Set::<Prod<T, NT, AK, AV>>::empty()
@end
pub open spec fn null_sound<'a, T, NT, AK, AV>(g: &'a Grammar<T, NT, AK, AV>, m: Map<NT, InternalNullableInfo<'a, T, NT, AK, AV>>) -> bool {
  &&& forall|nt: NT, p: Prod<'a, T, NT, AK, AV>| #[trigger] in_act(m, nt, p) ==> g_prods(g).contains(p) && *p.head == nt && elems_null(g, p.prod.elements@)
  &&& forall|nt: NT| #[trigger] m.contains_key(nt) ==> nullable(g, nt)
}
pub open spec fn null_complete<'a, T, NT, AK, AV>(g: &'a Grammar<T, NT, AK, AV>, m: Map<NT, InternalNullableInfo<'a, T, NT, AK, AV>>) -> bool {
  forall|p: Prod<'a, T, NT, AK, AV>| #[trigger] g_prods(g).contains(p) && all_keys(m.dom(), p.prod.elements@) ==> in_act(m, *p.head, p)
}
/// The nonterminals that derive the empty string, each with its productions that do.
pub open spec fn null_map<'a, T, NT, AK, AV>(g: &'a Grammar<T, NT, AK, AV>, m: Map<NT, InternalNullableInfo<'a, T, NT, AK, AV>>) -> bool {
  &&& forall|nt: NT| #[trigger] m.contains_key(nt) == nullable(g, nt)
  &&& forall|nt: NT, p: Prod<'a, T, NT, AK, AV>| #[trigger] in_act(m, nt, p) == (g_prods(g).contains(p) && *p.head == nt && elems_null(g, p.prod.elements@))
  &&& forall|nt: NT| #[trigger] m.contains_key(nt) ==> m[nt].nullable_actions@.len() > 0
}
pub proof fn lemma_null_least<'a, T, NT, AK, AV>(g: &'a Grammar<T, NT, AK, AV>, m: Map<NT, InternalNullableInfo<'a, T, NT, AK, AV>>, nt: NT, h: nat)
  requires g_wf(g), null_complete(g, m), null_h(g, nt, h)
  ensures m.contains_key(nt), m[nt].nullable_actions@.len() > 0
  decreases h
{
  let i = choose|i: int| 0 <= i < g.rule_set@[nt].prods@.len() && elems_null_h(g, (#[trigger] g.rule_set@[nt].prods@[i]).elements@, (h - 1) as nat);
  let p = nth_prod(g, nt, i);
  assert(has_nth(g, nt, i));
  lemma_g_prods(g, p);
  let s = p.prod.elements@;
  assert forall|j: int| 0 <= j < s.len() implies match (#[trigger] s[j]).element { Elem::NonTerm(b) => m.dom().contains(b), Elem::Term(_) => false } by {
    match s[j].element { Elem::NonTerm(b) => { lemma_null_least(g, m, b, (h - 1) as nat); } Elem::Term(_) => {} }
  }
  assert(in_act(m, nt, p));
}
pub proof fn lemma_null_map<'a, T, NT, AK, AV>(g: &'a Grammar<T, NT, AK, AV>, m: Map<NT, InternalNullableInfo<'a, T, NT, AK, AV>>)
  requires g_wf(g), null_sound(g, m), null_complete(g, m)
  ensures null_map(g, m)
{
  assert forall|nt: NT| nullable(g, nt) implies m.contains_key(nt) && m[nt].nullable_actions@.len() > 0 by {
    let h = choose|h: nat| null_h(g, nt, h);
    lemma_null_least(g, m, nt, h);
  }
  assert forall|nt: NT, p: Prod<'a, T, NT, AK, AV>| g_prods(g).contains(p) && *p.head == nt && elems_null(g, p.prod.elements@) implies #[trigger] in_act(m, nt, p) by {
    assert(all_keys(m.dom(), p.prod.elements@));
  }
}
/// The productions not yet found to vanish.
pub open spec fn undone<'a, T, NT, AK, AV>(g: &'a Grammar<T, NT, AK, AV>, m: Map<NT, InternalNullableInfo<'a, T, NT, AK, AV>>) -> Set<Prod<'a, T, NT, AK, AV>> {
  g_prods(g).to_set().filter(|p: Prod<'a, T, NT, AK, AV>| !in_act(m, *p.head, p))
}
@fn src/grammar/passes/nullable/nullables.rs inner_calculate_nullables -> r
  requires g_wf(g)
  ensures null_map(g, r@)
.loop 1
  invariant
    g_wf(g), prods@ == g_prods(g),
    null_sound(g, nullable_nts@),
  decreases undone(g, nullable_nts@).len()
.loop_start 1
  let ghost ms = nullable_nts@;
.loop 2
  invariant
    undone(g, nullable_nts@).len() <= undone(g, ms).len(),
    changed ==> undone(g, nullable_nts@).len() < undone(g, ms).len(),
    g_wf(g), prods@ == g_prods(g), vx_s2 == vx_ref_seq(prods@),
    null_sound(g, nullable_nts@),
    !changed ==> forall|i: int| 0 <= i < vx_n2 ==> all_keys(nullable_nts@.dom(), (#[trigger] prods@[i]).prod.elements@) ==> in_act(nullable_nts@, *prods@[i].head, prods@[i]),
.loop_start 2
  let ghost m0 = nullable_nts@;
  proof { assert(g_prods(g).contains(*prod)); }
.loop_end 2
  proof {
    let p = *prod;
    if all_keys(m0.dom(), p.prod.elements@) {
      assert(elems_null(g, p.prod.elements@));
      lemma_null_prod(g, p);
      assert forall|nt: NT, q: Prod<T, NT, AK, AV>| #[trigger] in_act(nullable_nts@, nt, q) implies in_act(m0, nt, q) || (nt == *p.head && q == p) by {
        if nt != *p.head { assert(m0.contains_key(nt)); }
      }
      assert forall|nt: NT| #[trigger] nullable_nts@.contains_key(nt) implies nullable(g, nt) by { if nt != *p.head { assert(m0.contains_key(nt)); } }
      assert(in_act(nullable_nts@, *p.head, p));
      let (a, b) = (undone(g, m0), undone(g, nullable_nts@));
      assert forall|q: Prod<T, NT, AK, AV>| b.contains(q) implies a.remove(p).contains(q) by { if in_act(m0, *q.head, q) { assert(in_act(nullable_nts@, *q.head, q)); } }
      vstd::set_lib::lemma_len_subset(b, a.remove(p));
      assert(in_act(m0, *p.head, p) || a.contains(p));
    }
    if !changed {
      assert(nullable_nts@.dom() =~= m0.dom());
      assert forall|i: int| 0 <= i < vx_n2 && all_keys(nullable_nts@.dom(), (#[trigger] prods@[i]).prod.elements@) implies in_act(nullable_nts@, *prods@[i].head, prods@[i]) by {
        if i < vx_n2 - 1 { assert(in_act(m0, *prods@[i].head, prods@[i])); }
      }
    }
  }
.before_return 1
  proof {
    assert forall|p: Prod<T, NT, AK, AV>| #[trigger] g_prods(g).contains(p) && all_keys(nullable_nts@.dom(), p.prod.elements@) implies in_act(nullable_nts@, *p.head, p) by {
      let i = prods@.index_of(p); assert(prods@[i] == p);
    }
    lemma_null_map(g, nullable_nts@);
  }
@end

// ---- the result
/// Production number `i` of the rule of `k` derives the empty string.
pub open spec fn null_nth<T, NT, AK, AV>(g: &Grammar<T, NT, AK, AV>, k: NT, i: int) -> bool { has_nth(g, k, i) && elems_null(g, g.rule_set@[k].prods@[i].elements@) }
/// Some nonterminal has two nullable productions.
pub open spec fn ambiguous<T, NT, AK, AV>(g: &Grammar<T, NT, AK, AV>) -> bool { exists|k: NT, i: int, j: int| #[trigger] null_nth(g, k, i) && #[trigger] null_nth(g, k, j) && i != j }
/// No rule holds the same production (key, value and elements) twice.  The code tells such productions apart by their address, which contracts cannot see.
pub open spec fn distinct_prods<T, NT, AK, AV>(g: &Grammar<T, NT, AK, AV>) -> bool { forall|k: NT, i: int, j: int| #[trigger] has_nth(g, k, i) && #[trigger] has_nth(g, k, j) && i != j ==> g.rule_set@[k].prods@[i] != g.rule_set@[k].prods@[j] }
/// The entries of an empty-derivation tree: one per named nonterminal, holding that nonterminal's own tree.
pub open spec fn null_fields<T, NT, AK>(m: Map<NT, NonTermNullableInfo<NT, AK>>, s: Seq<ProdElement<T, NT>>) -> Map<Name, TreeValue<ProdKey<NT, AK>, Void>> decreases s.len() {
  if s.len() == 0 { Map::empty() } else {
    match (s.last().identifier, s.last().element) {
      (Some(id), Elem::NonTerm(nt)) => null_fields(m, s.drop_last()).insert(id, TreeValue::Node(Box::new(m[nt].nullable_action))),
      _ => null_fields(m, s.drop_last()),
    }
  }
}
pub open spec fn named_in<T, NT, AK>(m: Map<NT, NonTermNullableInfo<NT, AK>>, s: Seq<ProdElement<T, NT>>) -> bool {
  forall|j: int| 0 <= j < s.len() ==> match ((#[trigger] s[j]).identifier, s[j].element) { (Some(id), Elem::NonTerm(nt)) => m.contains_key(nt), _ => true }
}
pub proof fn lemma_fields_keep<T, NT, AK>(m: Map<NT, NonTermNullableInfo<NT, AK>>, n: Map<NT, NonTermNullableInfo<NT, AK>>, s: Seq<ProdElement<T, NT>>)
  requires named_in(m, s), forall|nt: NT| #[trigger] m.contains_key(nt) ==> n.contains_key(nt) && n[nt] == m[nt]
  ensures named_in(n, s), null_fields(m, s) == null_fields(n, s)
  decreases s.len()
{
  if s.len() > 0 {
    let p = s.drop_last();
    assert forall|j: int| 0 <= j < p.len() implies match ((#[trigger] p[j]).identifier, p[j].element) { (Some(id), Elem::NonTerm(nt)) => m.contains_key(nt), _ => true } by { assert(p[j] == s[j]); }
    lemma_fields_keep(m, n, p);
    assert(s.last() == s[s.len() - 1]);
    assert forall|j: int| 0 <= j < s.len() implies match ((#[trigger] s[j]).identifier, s[j].element) { (Some(id), Elem::NonTerm(nt)) => n.contains_key(nt), _ => true } by { }
  }
}
pub open spec fn null_tree<T, NT, AK, AV>(m: Map<NT, NonTermNullableInfo<NT, AK>>, nt: NT, p: ProdInner<T, NT, AK, AV>) -> bool {
  m[nt].nullable_action.action_name == (ProdKey { head: nt, action_key: p.action_key }) && named_in(m, p.elements@) && m[nt].nullable_action.params@ == null_fields(m, p.elements@)
}
pub open spec fn null_info<T, NT, AK, AV>(g: &Grammar<T, NT, AK, AV>, m: Map<NT, NonTermNullableInfo<NT, AK>>) -> bool {
  &&& forall|nt: NT| #[trigger] m.contains_key(nt) == nullable(g, nt)
  &&& forall|nt: NT, i: int| #[trigger] null_nth(g, nt, i) ==> null_tree(m, nt, g.rule_set@[nt].prods@[i])
}
pub open spec fn the_prods<'a, 'b, T, NT, AK, AV>(g: &'a Grammar<T, NT, AK, AV>, a: Map<&'b NT, &'b Prod<'a, T, NT, AK, AV>>) -> bool {
  forall|nt: &'b NT, i: int| #[trigger] null_nth(g, *nt, i) ==> a.contains_key(nt) && *a[nt] == nth_prod(g, *nt, i)
}
@fn src/utils.rs TreeNode::new -> r
  ensures r.action_name == action, r.params == params
@end

pub proof fn lemma_one<A>(s: Set<A>, a: A, b: A) requires s.len() == 1, s.contains(a), s.contains(b) ensures a == b
{ if a != b { assert(s.remove(a).contains(b)); assert(s.remove(a).len() == 0); } }
pub proof fn lemma_two<A>(s: Set<A>) -> (r: (A, A)) requires s.len() > 1 ensures s.contains(r.0), s.contains(r.1), r.0 != r.1
{ let a = s.choose(); let t = s.remove(a); assert(t.len() == s.len() - 1); (a, t.choose()) }
pub open spec fn acts<'a, T, NT, AK, AV>(m: Map<NT, InternalNullableInfo<'a, T, NT, AK, AV>>, nt: NT) -> Set<Prod<'a, T, NT, AK, AV>> { m[nt].nullable_actions@ }
pub proof fn lemma_act_nth<'a, T, NT, AK, AV>(g: &'a Grammar<T, NT, AK, AV>, m: Map<NT, InternalNullableInfo<'a, T, NT, AK, AV>>, k: NT, p: Prod<'a, T, NT, AK, AV>) -> (i: int)
  requires g_wf(g), null_map(g, m), in_act(m, k, p)
  ensures null_nth(g, k, i), p == nth_prod(g, k, i)
{
  lemma_g_prods(g, p);
  let (k2, i) = choose|k2: NT, i: int| #[trigger] has_nth(g, k2, i) && p == nth_prod(g, k2, i);
  i
}
pub proof fn lemma_nth_act<'a, T, NT, AK, AV>(g: &'a Grammar<T, NT, AK, AV>, m: Map<NT, InternalNullableInfo<'a, T, NT, AK, AV>>, k: NT, i: int)
  requires g_wf(g), null_map(g, m), null_nth(g, k, i)
  ensures in_act(m, k, nth_prod(g, k, i)), *nth_prod(g, k, i).head == k
{ assert(has_nth(g, k, i)); lemma_g_prods(g, nth_prod(g, k, i)); }
pub proof fn lemma_ambiguous<'a, T, NT, AK, AV>(g: &'a Grammar<T, NT, AK, AV>, m: Map<NT, InternalNullableInfo<'a, T, NT, AK, AV>>, k: NT)
  requires g_wf(g), null_map(g, m), m.contains_key(k), acts(m, k).len() > 1
  ensures ambiguous(g)
{
  let (p, q) = lemma_two(acts(m, k));
  let i = lemma_act_nth(g, m, k, p);
  let j = lemma_act_nth(g, m, k, q);
  assert(null_nth(g, k, i) && null_nth(g, k, j) && i != j);
}
pub proof fn lemma_unambiguous<'a, T, NT, AK, AV>(g: &'a Grammar<T, NT, AK, AV>, m: Map<NT, InternalNullableInfo<'a, T, NT, AK, AV>>)
  requires g_wf(g), distinct_prods(g), null_map(g, m), forall|k: NT| #[trigger] m.contains_key(k) ==> acts(m, k).len() == 1
  ensures !ambiguous(g)
{
  if ambiguous(g) {
    let (k, i, j) = choose|k: NT, i: int, j: int| #[trigger] null_nth(g, k, i) && #[trigger] null_nth(g, k, j) && i != j;
    lemma_nth_act(g, m, k, i); lemma_nth_act(g, m, k, j);
    lemma_one(acts(m, k), nth_prod(g, k, i), nth_prod(g, k, j));
    assert(has_nth(g, k, i) && has_nth(g, k, j));
  }
}
/// `a` maps each nullable nonterminal to its nullable production.
pub open spec fn act_map<'a, 'b, T, NT, AK, AV>(m: Map<NT, InternalNullableInfo<'a, T, NT, AK, AV>>, a: Map<&'b NT, &'b Prod<'a, T, NT, AK, AV>>) -> bool {
  forall|nt: &'b NT| m.contains_key(*nt) ==> #[trigger] a.contains_key(nt) && in_act(m, *nt, *a[nt])
}
pub open spec fn act_map_on<'a, 'b, T, NT, AK, AV>(m: Map<NT, InternalNullableInfo<'a, T, NT, AK, AV>>, d: Set<NT>, a: Map<&'b NT, &'b Prod<'a, T, NT, AK, AV>>) -> bool {
  forall|nt: &'b NT| d.contains(*nt) ==> #[trigger] a.contains_key(nt) && in_act(m, *nt, *a[nt])
}
pub open spec fn has_both<A, V>(s: Set<A>, m: Map<A, V>, a: A) -> bool { s.contains(a) && m.contains_key(a) }
/// The trees found so far.
pub open spec fn trees_ok<'a, 'b, T, NT, AK, AV>(a: Map<&'b NT, &'b Prod<'a, T, NT, AK, AV>>, n: Map<NT, NonTermNullableInfo<NT, AK>>) -> bool {
  forall|nt: NT| #[trigger] n.contains_key(nt) ==> null_tree(n, nt, *a[&nt].prod)
}
pub proof fn lemma_ready<'a, 'b, T, NT, AK, AV>(g: &'a Grammar<T, NT, AK, AV>, m: Map<NT, InternalNullableInfo<'a, T, NT, AK, AV>>, a: Map<&'b NT, &'b Prod<'a, T, NT, AK, AV>>, n: Map<NT, NonTermNullableInfo<NT, AK>>, nt: NT, h: nat) -> (r: NT)
  requires g_wf(g), null_map(g, m), forall|k: NT| #[trigger] m.contains_key(k) ==> acts(m, k).len() == 1, act_map(m, a), null_h(g, nt, h), !n.contains_key(nt)
  ensures m.contains_key(r), !n.contains_key(r), named_in(n, a[&r].prod.elements@)
  decreases h
{
  assert(nullable(g, nt));
  let i = choose|i: int| 0 <= i < g.rule_set@[nt].prods@.len() && elems_null_h(g, (#[trigger] g.rule_set@[nt].prods@[i]).elements@, (h - 1) as nat);
  let s = g.rule_set@[nt].prods@[i].elements@;
  assert forall|j: int| 0 <= j < s.len() implies match (#[trigger] s[j]).element { Elem::NonTerm(b) => nullable(g, b), Elem::Term(_) => false } by {
    match s[j].element { Elem::NonTerm(b) => { assert(null_h(g, b, (h - 1) as nat)); } Elem::Term(_) => {} }
  }
  assert(null_nth(g, nt, i));
  lemma_nth_act(g, m, nt, i);
  assert(a.contains_key(&nt));
  lemma_one(acts(m, nt), nth_prod(g, nt, i), *a[&nt]);
  if named_in(n, s) { nt } else {
    let j = choose|j: int| 0 <= j < s.len() && !match ((#[trigger] s[j]).identifier, s[j].element) { (Some(id), Elem::NonTerm(b)) => n.contains_key(b), _ => true };
    match s[j].element { Elem::NonTerm(b) => lemma_ready(g, m, a, n, b, (h - 1) as nat), Elem::Term(_) => nt }
  }
}
@fn src/grammar/passes/nullable/nullables.rs calculate_nullables -> r
  requires g_wf(g), distinct_prods(g)
  ensures match r { Err(e) => ambiguous(g), Ok(i) => !ambiguous(g) && null_info(g, i.nonterm_info@) }
.loop 1
  invariant
    g_wf(g), null_map(g, inner_info@), vx_s1 == vx_map_vals_seq(inner_info@),
    forall|i: int| 0 <= i < vx_n1 ==> (#[trigger] vx_s1[i]).nullable_actions@.len() == 1,
.loop_start 1
  let ghost k = choose|k: NT| #[trigger] inner_info@.contains_key(k) && inner_info@[k] == *info;
  proof { assert(vx_map_vals_seq(inner_info@).contains(info)); assert(inner_info@.contains_key(k) && inner_info@[k] == *info); }
.before_return 1
  proof { lemma_ambiguous(g, inner_info@, k); }
.after_loop 1
  proof {
    assert forall|k: NT| #[trigger] inner_info@.contains_key(k) implies acts(inner_info@, k).len() == 1 by {
      assert(vx_s1.contains(&inner_info@[k])); let i = vx_s1.index_of(&inner_info@[k]); assert(vx_s1[i].nullable_actions@.len() == 1);
    }
    lemma_unambiguous(g, inner_info@);
  }
.loop 2
  invariant
    null_map(g, inner_info@), vx_s2 == vx_map_ref_seq(inner_info@),
    forall|k: NT| #[trigger] inner_info@.contains_key(k) ==> acts(inner_info@, k).len() == 1,
    act_map_on(inner_info@, vx_pre(vx_set_seq(inner_info@.dom()), vx_n2), nullable_action_map@),
.before_loop 2
  proof { vx_ends(vx_set_seq(inner_info@.dom())); }
.loop_start 2
  proof { vx_step(vx_set_seq(inner_info@.dom()), vx_n2); ax_set_seq(info.nullable_actions@); assert(inner_info@.contains_key(*nt) && *info == inner_info@[*nt]); ax_set_seq_index(info.nullable_actions@, 0); assert(acts(inner_info@, *nt).len() == 1); }
.after_loop 2
  proof { ax_set_seq(inner_info@.dom()); assert(act_map(inner_info@, nullable_action_map@)); }
.loop 3
  invariant
    g_wf(g), null_map(g, inner_info@), act_map(inner_info@, nullable_action_map@),
    forall|k: NT| #[trigger] inner_info@.contains_key(k) ==> acts(inner_info@, k).len() == 1,
    forall|k: NT| #[trigger] remaining_nullables@.contains(k) == (inner_info@.contains_key(k) && !nullable_infos@.contains_key(k)),
    forall|k: NT| #[trigger] nullable_infos@.contains_key(k) ==> inner_info@.contains_key(k),
    trees_ok(nullable_action_map@, nullable_infos@),
  ensures remaining_nullables@.len() == 0,
  decreases remaining_nullables@.len()
.loop_start 3
  let ghost rem0 = remaining_nullables@;
  let ghost infos0 = nullable_infos@;
.loop 4
  invariant
    null_map(g, inner_info@), act_map(inner_info@, nullable_action_map@),
    vx_s4 == vx_ref_seq(vx_set_seq(rem0)), remaining_nullables@ == rem0,
    forall|k: NT| #[trigger] rem0.contains(k) == (inner_info@.contains_key(k) && !infos0.contains_key(k)),
    forall|k: NT| #[trigger] infos0.contains_key(k) ==> nullable_infos@.contains_key(k),
    forall|k: NT| #[trigger] nullable_infos@.contains_key(k) ==> inner_info@.contains_key(k) && (infos0.contains_key(k) || vx_pre(vx_set_seq(rem0), vx_n4).contains(k)),
    trees_ok(nullable_action_map@, nullable_infos@),
    forall|i: int| 0 <= i < vx_n4 && named_in(infos0, nullable_action_map@[#[trigger] vx_s4[i]].prod.elements@) ==> nullable_infos@.contains_key(*vx_s4[i]),
.before_loop 4
  proof { vx_ends(vx_set_seq(rem0)); ax_set_seq(rem0); }
.loop_start 4
  proof { vx_step(vx_set_seq(rem0), vx_n4); assert(rem0.contains(*null_nt)); }
  let ghost infos1 = nullable_infos@;
.loop_end 4
  proof {
    let s = prod.prod.elements@;
    assert(s.take(s.len() as int) =~= s);
    assert(!infos1.contains_key(*null_nt)) by {
      if infos1.contains_key(*null_nt) {
        let q = vx_set_seq(rem0); ax_set_seq(rem0);
        assert(q.take(vx_n4 - 1).contains(*null_nt)); let j = q.take(vx_n4 - 1).index_of(*null_nt); assert(q[j] == q[vx_n4 - 1]);
      }
    }
    lemma_fields_keep(infos1, nullable_infos@, s);
    let gh = lemma_act_nth(g, inner_info@, *null_nt, **prod);
    assert forall|k: NT| #[trigger] nullable_infos@.contains_key(k) implies null_tree(nullable_infos@, k, *nullable_action_map@[&k].prod) by {
      if k != *null_nt { assert(infos1.contains_key(k)); lemma_fields_keep(infos1, nullable_infos@, nullable_action_map@[&k].prod.elements@); }
    }
  }
.loop 5
  invariant
    vx_s5 == vx_ref_seq(prod.prod.elements@),
    named_in(nullable_infos@, prod.prod.elements@.take(vx_n5)),
    nullable_tree_fields@ == null_fields(nullable_infos@, prod.prod.elements@.take(vx_n5)),
    forall|k: NT| #[trigger] infos0.contains_key(k) ==> nullable_infos@.contains_key(k),
    nullable_infos@ == infos1,
.loop_start 5
  proof {
    let s = prod.prod.elements@;
    assert(s.take(vx_n5).drop_last() =~= s.take(vx_n5 - 1)); assert(s.take(vx_n5).last() == s[vx_n5 - 1]);
    assert forall|j: int| 0 <= j < vx_n5 - 1 implies s.take(vx_n5)[j] == #[trigger] s.take(vx_n5 - 1)[j] by {}
  }
.loop_end 5
  proof {
    let s = prod.prod.elements@;
    assert forall|j: int| 0 <= j < vx_n5 implies match ((#[trigger] s.take(vx_n5)[j]).identifier, s.take(vx_n5)[j].element) { (Some(id), Elem::NonTerm(nt)) => nullable_infos@.contains_key(nt), _ => true } by {
      if j < vx_n5 - 1 { assert(s.take(vx_n5 - 1)[j] == s.take(vx_n5)[j]); }
    }
  }
.after_loop 4
  proof {
    if rem0.len() > 0 {
      let k0 = rem0.choose(); assert(rem0.contains(k0)); assert(nullable(g, k0));
      let h = choose|h: nat| null_h(g, k0, h);
      let r = lemma_ready(g, inner_info@, nullable_action_map@, infos0, k0, h);
      assert(rem0.contains(r)); assert(vx_set_seq(rem0).contains(r)); let i = vx_set_seq(rem0).index_of(r);
      assert(vx_s4[i] == &r);
      assert(has_both(rem0, nullable_infos@, r));
    }
  }
.after_loop 6
  proof {
    ax_set_seq(nullable_infos@.dom());
    if rem0.len() > 0 {
      let r = choose|r: NT| #[trigger] has_both(rem0, nullable_infos@, r);
      assert(remaining_nullables@.subset_of(rem0.remove(r))) by {
        assert forall|k: NT| remaining_nullables@.contains(k) implies rem0.remove(r).contains(k) by {}
      }
      vstd::set_lib::lemma_len_subset(remaining_nullables@, rem0.remove(r));
    }
  }
.after_loop 3
  proof {
    assert forall|k: NT| #[trigger] nullable_infos@.contains_key(k) == nullable(g, k) by { assert(!remaining_nullables@.contains(k)); }
    assert forall|nt: NT, i: int| #[trigger] null_nth(g, nt, i) implies null_tree(nullable_infos@, nt, g.rule_set@[nt].prods@[i]) by {
      lemma_nth_act(g, inner_info@, nt, i);
      assert(nullable_action_map@.contains_key(&nt));
      lemma_one(acts(inner_info@, nt), nth_prod(g, nt, i), *nullable_action_map@[&nt]);
      assert(nullable_infos@.contains_key(nt));
    }
  }
.loop 6
  invariant
    nullable_infos@ == infos2, vx_s6 == vx_ref_seq(vx_set_seq(infos2.dom())),
    forall|k: NT| #[trigger] remaining_nullables@.contains(k) == (rem0.contains(k) && !vx_pre(vx_set_seq(infos2.dom()), vx_n6).contains(k)),
.before_loop 6
  let ghost infos2 = nullable_infos@;
  proof { vx_ends(vx_set_seq(infos2.dom())); ax_set_seq(infos2.dom()); }
.loop_start 6
  proof { vx_step(vx_set_seq(infos2.dom()), vx_n6); }
@end

// ---- what the pass reports
@type src/grammar/passes/nullable.rs Nullable reject=NT
@fn src/grammar/passes/nullable/nullables.rs GrammarNullableInfo::nonterm_info -> r
  ensures *r == self.nonterm_info
@end
@fn src/grammar/passes/nullable/nullables.rs GrammarNullableInfo::is_nullable -> r
  ensures r == self.nonterm_info@.contains_key(*nt)
@end
@fn src/grammar/passes/nullable/nullables.rs GrammarNullableInfo::is_prod_nullable -> r
  ensures r == all_keys(self.nonterm_info@.dom(), prod.prod.elements@)
@end
@fn src/grammar/passes/nullable/nullables.rs GrammarNullableInfo::get_nullable_action -> r
  ensures match r { Some(a) => self.nonterm_info@.contains_key(*nt) && *a == self.nonterm_info@[*nt].nullable_action, None => !self.nonterm_info@.contains_key(*nt) }
.desugar map
@end
@fn src/grammar/passes/nullable/nullables.rs GrammarNullableInfo::get_nullable_set -> r
  ensures r@ =~= self.nonterm_info@.dom()
.start
  proof { ax_set_seq(self.nonterm_info@.dom()); }
@end
@fn src/grammar/passes/nullable/nullables.rs NonTermNullableInfo::nullable_action -> r
  ensures *r == self.nullable_action
@end
@fn src/grammar/passes/nullable.rs Nullable::is_nullable -> r
  ensures r == self.0.nonterm_info@.contains_key(*nt)
@end
@fn src/grammar/passes/nullable.rs Nullable::get_nullable_set -> r
  ensures r@ =~= self.0.nonterm_info@.dom()
@end
@fn src/grammar/passes/nullable.rs Nullable::is_prod_nullable -> r
  ensures r == all_keys(self.0.nonterm_info@.dom(), prod.prod.elements@)
@end
@fn src/grammar/passes/nullable.rs Nullable::get_nullable_info -> r
  ensures *r == self.0
@end
@impl src/grammar/passes/nullable.rs Pass<T,NT,AK,AV> for Nullable
  open spec fn pass_pre(g: &Grammar<T, NT, AK, AV>) -> bool { g_wf(g) && distinct_prods(g) }
  open spec fn pass_ok(g: &Grammar<T, NT, AK, AV>, r: Result<Self, Self::Error>) -> bool {
    match r { Err(e) => ambiguous(g), Ok(n) => !ambiguous(g) && null_info(g, n.0.nonterm_info@) }
  }
@method run_pass -> r
.desugar result_map
@end
/// So `is_nullable` and `is_prod_nullable` answer the question asked: does it derive the empty string?
pub proof fn lemma_info_exact<T, NT, AK, AV>(g: &Grammar<T, NT, AK, AV>, m: Map<NT, NonTermNullableInfo<NT, AK>>, nt: NT, s: Seq<ProdElement<T, NT>>)
  requires null_info(g, m)
  ensures m.contains_key(nt) == nullable(g, nt), all_keys(m.dom(), s) == elems_null(g, s)
{
  if all_keys(m.dom(), s) { assert forall|j: int| 0 <= j < s.len() implies match (#[trigger] s[j]).element { Elem::NonTerm(b) => nullable(g, b), Elem::Term(_) => false } by {} }
  if elems_null(g, s) { assert forall|j: int| 0 <= j < s.len() implies match (#[trigger] s[j]).element { Elem::NonTerm(b) => m.dom().contains(b), Elem::Term(_) => false } by {
    match s[j].element { Elem::NonTerm(b) => { assert(m.contains_key(b) == nullable(g, b)); } _ => {} } } }
}
} // verus!
