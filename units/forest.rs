@use utils.rs
@use base.rs
@use grammar_check.rs
@use builder.rs
@use start.rs
@use state.rs
@use derive.rs
@use im.rs
@use tree.rs
@use parsers.rs
@dropbound Debug
@inline src/utils.rs change_iter
@inline src/utils.rs change_loop
verus! {
@type src/parsers/earley/state.rs EarleyStateKey reject=T,NT,AK,AV
@type src/parsers/earley/state.rs EarleyState reject=T,NT,AK,AV,V
@type src/parsers/earley/state.rs EarleyStateSet reject=T,NT,AK,AV,V
impl<'a, T, NT: Ord, AK, AV> PartialEq for EarleyStateKey<'a, T, NT, AK, AV> { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }
impl<'a, T, NT: Ord, AK, AV> Eq for EarleyStateKey<'a, T, NT, AK, AV> {}
impl<'a, T, NT: Ord, AK, AV> PartialOrd for EarleyStateKey<'a, T, NT, AK, AV> { #[verifier::external_body] fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { unimplemented!() } }
impl<'a, T, NT: Ord, AK, AV> Ord for EarleyStateKey<'a, T, NT, AK, AV> { #[verifier::external_body] fn cmp(&self, o: &Self) -> std::cmp::Ordering { unimplemented!() } }
impl<'a, T, NT, AK, AV> Clone for EarleyStateKey<'a, T, NT, AK, AV> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub type Key<'a, T, NT, AK, AV> = EarleyStateKey<'a, T, NT, AK, AV>;
pub type SElem<T, NT> = Elem<StreamTerminal<T>, StartNonTerminal<NT>>;

// ---- keys
pub open spec fn k_elems<T, NT, AK, AV>(k: Key<'_, T, NT, AK, AV>) -> Seq<ProdElement<StreamTerminal<T>, StartNonTerminal<NT>>> { k.prod_state.prod.prod.elements@ }
/// What `k` expects next.
pub open spec fn k_next<T, NT, AK, AV>(k: Key<'_, T, NT, AK, AV>) -> Option<SElem<T, NT>> { if k.prod_state.index < k_elems(k).len() { Some(k_elems(k)[k.prod_state.index as int].element) } else { None } }
pub open spec fn k_adv<'a, T, NT, AK, AV>(k: Key<'a, T, NT, AK, AV>, co: Seq<usize>, r: Key<'a, T, NT, AK, AV>) -> bool {
  r.prod_state.prod == k.prod_state.prod && r.prod_state.index == k.prod_state.index + 1 && r.origin_index == k.origin_index && r.child_origins@ == co
}
pub open spec fn k_init<'a, T, NT, AK, AV>(p: Prod<'a, StreamTerminal<T>, StartNonTerminal<NT>, StartActionKey<AK>, StartActionValue<AV>>, n: int, r: Key<'a, T, NT, AK, AV>) -> bool {
  r.prod_state.prod == p && r.prod_state.index == 0 && r.origin_index == n && r.child_origins@.len() == 0
}
/// The production the wrapper adds ends in the end of the stream; every other one has an action of the original grammar.
pub open spec fn p_shape<T, NT, AK, AV>(p: ProdInner<StreamTerminal<T>, StartNonTerminal<NT>, StartActionKey<AK>, StartActionValue<AV>>) -> bool {
  p.action_key is Start ==> p.elements@.len() > 0 && p.elements@.last().element == (Elem::<StreamTerminal<T>, StartNonTerminal<NT>>::Term(StreamTerminal::EndOfStream))
}
pub open spec fn k_wf<T, NT, AK, AV>(k: Key<'_, T, NT, AK, AV>) -> bool {
  &&& k.prod_state.index <= k_elems(k).len() && p_shape(*k.prod_state.prod.prod)
  &&& k.prod_state.index > 0 ==> k_elems(k)[k.prod_state.index - 1].element != (Elem::<StreamTerminal<T>, StartNonTerminal<NT>>::Term(StreamTerminal::EndOfStream))
}
pub open spec fn k_scan<'a, T, NT, AK, AV>(k: Key<'a, T, NT, AK, AV>, t: T, r: Key<'a, T, NT, AK, AV>) -> bool {
  k_next(k) == Some(Elem::<StreamTerminal<T>, StartNonTerminal<NT>>::Term(StreamTerminal::Term(t))) && k_adv(k, k.child_origins@, r)
}
/// `x` is complete, `z` waits for its head, and `r` is `z` past it.
pub open spec fn k_comp<'a, T, NT, AK, AV>(x: Key<'a, T, NT, AK, AV>, z: Key<'a, T, NT, AK, AV>, r: Key<'a, T, NT, AK, AV>) -> bool {
  k_next(x) is None && k_next(z) == Some(Elem::<StreamTerminal<T>, StartNonTerminal<NT>>::NonTerm(*x.prod_state.prod.head)) && k_adv(z, z.child_origins@.push(x.origin_index), r)
}
/// `r` starts production `i` of the nonterminal `x` expects, at `n`.
pub open spec fn k_pred<'a, T, NT, AK, AV>(g: &'a StartGrammar<T, NT, AK, AV>, x: Key<'a, T, NT, AK, AV>, n: int, i: int, r: Key<'a, T, NT, AK, AV>) -> bool {
  match k_next(x) {
    Some(Elem::NonTerm(b)) => g.rule_set@.contains_key(b) && 0 <= i < g.rule_set@[b].prods@.len() && k_init(mk_prod(g, &g.rule_set@[b].head, &g.rule_set@[b].prods@[i]), n, r),
    _ => false,
  }
}
pub open spec fn is_final<T, NT, AK, AV>(k: Key<'_, T, NT, AK, AV>) -> bool { k_next(k) == Some(Elem::<StreamTerminal<T>, StartNonTerminal<NT>>::Term(StreamTerminal::EndOfStream)) }

@fn src/parsers/earley/state.rs EarleyStateKey::is_final_key -> r
  ensures r == is_final(*self)
.desugar and_then map_or
@end

// ---- states
/// One value for each element passed, all of the tree `h`.
pub open spec fn v_wf<'a, T, NT, AK, AV, V>(k: Key<'a, T, NT, AK, AV>, v: Seq<Node<'a, T, AK, V>>, h: TreeHandle<'a, T, AK, V>) -> bool {
  v.len() == k.prod_state.index && forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).inner == h
}
pub open spec fn s_wf<'a, T, NT, AK, AV, V>(s: EarleyState<'a, T, NT, AK, AV, V>, h: TreeHandle<'a, T, AK, V>) -> bool { k_wf(s.key) && v_wf(s.key, s.value@, h) }
@fn src/parsers/earley/state.rs EarleyState::from_prod_start -> r
  ensures k_init(prod, index as int, r.key), r.value@.len() == 0
@end
@fn src/parsers/earley/state.rs EarleyState::prod_state -> r
  ensures *r == self.key.prod_state
@end
@fn src/parsers/earley/state.rs EarleyState::create_next_value -> r
  ensures r@ == self.value@.push(node)
@end
@fn src/parsers/earley/state.rs EarleyState::create_next_child_origins -> r
  ensures r@ == self.key.child_origins@.push(child_origin)
@end
/// The values are nodes that are there.
pub open spec fn v_in<T, AK, V>(v: Seq<Node<'_, T, AK, V>>, i: Inner<T, AK, V>) -> bool { forall|k: int| 0 <= k < v.len() ==> (#[trigger] v[k]).index < i.nodes@.len() }
/// Node `n` has one alternative, `a`.
pub open spec fn one_alt<T, AK, V>(i: Inner<T, AK, V>, n: usize, a: usize) -> bool { n < i.nodes@.len() && a < ialts(i).len() && nset(i, n as int) == Set::<usize>::empty().insert(a) }
pub open spec fn leaf_node<T, AK, V>(i: Inner<T, AK, V>, n: usize, k: T, v: V) -> bool { exists|a: usize| #[trigger] one_alt(i, n, a) && ialts(i)[a as int] == leaf_c::<T, AK, V>(k, v) }
pub open spec fn branch_node<T, AK, V>(i: Inner<T, AK, V>, n: usize, c: AK, ks: Seq<usize>) -> bool { exists|a: usize| #[trigger] one_alt(i, n, a) && is_branch(ialts(i)[a as int], c, ks) }
/// A branch with these children is an alternative of `n`.
pub open spec fn has_branch<T, AK, V>(i: Inner<T, AK, V>, n: usize, c: AK, ks: Seq<usize>) -> bool { exists|a: usize| #[trigger] nset(i, n as int).contains(a) && a < ialts(i).len() && is_branch(ialts(i)[a as int], c, ks) }
/// The number of the last value.
pub open spec fn last_n<T, AK, V>(v: Seq<Node<'_, T, AK, V>>) -> usize { v.last().index }
/// `v` is `u` with one value more.
pub open spec fn v_next<'a, T, AK, V>(u: Seq<Node<'a, T, AK, V>>, v: Seq<Node<'a, T, AK, V>>) -> bool { v.len() == u.len() + 1 && v.drop_last() == u }
/// The action of a state that is not the start's.
pub open spec fn k_act<T, NT, AK, AV>(k: Key<'_, T, NT, AK, AV>) -> AK { k.prod_state.prod.prod.action_key->ActionKey_0 }
/// What is there keeps its meaning.
pub proof fn lemma_keep<T, AK, V>(i: Inner<T, AK, V>, j: Inner<T, AK, V>, n: usize)
  requires grows(i, j), n < i.nodes@.len(), nset(j, n as int) == nset(i, n as int)
  ensures
    forall|k: T, v: V| #[trigger] leaf_node(i, n, k, v) ==> leaf_node(j, n, k, v),
    forall|c: AK, ks: Seq<usize>| #[trigger] branch_node(i, n, c, ks) ==> branch_node(j, n, c, ks),
{
  assert forall|k: T, v: V| #[trigger] leaf_node(i, n, k, v) implies leaf_node(j, n, k, v) by { let a = choose|a: usize| #[trigger] one_alt(i, n, a) && ialts(i)[a as int] == leaf_c::<T, AK, V>(k, v); assert(one_alt(j, n, a)); assert(ialts(j)[a as int] == ialts(i)[a as int]); }
  assert forall|c: AK, ks: Seq<usize>| #[trigger] branch_node(i, n, c, ks) implies branch_node(j, n, c, ks) by { let a = choose|a: usize| #[trigger] one_alt(i, n, a) && is_branch(ialts(i)[a as int], c, ks); assert(one_alt(j, n, a)); assert(ialts(j)[a as int] == ialts(i)[a as int]); }
}
pub proof fn lemma_has<T, AK, V>(i: Inner<T, AK, V>, j: Inner<T, AK, V>, n: usize, c: AK, ks: Seq<usize>)
  requires grows(i, j), n < i.nodes@.len(), has_branch(i, n, c, ks)
  ensures has_branch(j, n, c, ks)
{
  let a = choose|a: usize| #[trigger] nset(i, n as int).contains(a) && a < ialts(i).len() && is_branch(ialts(i)[a as int], c, ks);
  assert(nset(j, n as int).contains(a)); assert(ialts(j)[a as int] == ialts(i)[a as int]);
}
@fn src/parsers/earley/state.rs EarleyState::scan -> r
  requires s_wf(*self, *tree_handle), h_ok(*tree_handle, *old(vx_t))
  ensures
    match r {
      Some(s) => k_scan(self.key, next_token.kind, s.key) && s_wf(s, *tree_handle) && v_next(self.value@, s.value@) && last_n(s.value@) == old(vx_t).v.nodes@.len() && leaf_node(final(vx_t).v, last_n(s.value@), next_token.kind, next_token.value),
      None => k_next(self.key) != Some(Elem::<StreamTerminal<T>, StartNonTerminal<NT>>::Term(StreamTerminal::Term(next_token.kind))),
    },
    t_step(*old(vx_t), *final(vx_t)), frame(old(vx_t).v, final(vx_t).v, -1), final(vx_t).v.nodes@.len() == old(vx_t).v.nodes@.len() + (if r is Some { 1int } else { 0 }),
.thread vx_t: &mut Tok<T, AK, V>
.desugar and_then filter map
.steps
.end
  proof {
    lemma_grows(old(vx_t).v, vx_t.v, vx_t.v);
    if vx_tail is Some {
      let s = vx_tail->Some_0;
      assert(s.value@.drop_last() =~= self.value@);
      let n = last_n(s.value@);
      let a = choose|a: usize| a < ialts(vx_t.v).len() && ialts(vx_t.v)[a as int] == leaf_c::<T, AK, V>(next_token.kind, next_token.value) && nset(vx_t.v, n as int) == #[trigger] Set::<usize>::empty().insert(a);
      assert(one_alt(vx_t.v, n, a));
    }
  }
@end

pub open spec fn g_shape<T, NT, AK, AV>(g: &StartGrammar<T, NT, AK, AV>) -> bool {
  forall|b: StartNonTerminal<NT>, i: int| g.rule_set@.contains_key(b) && 0 <= i < g.rule_set@[b].prods@.len() ==> p_shape(#[trigger] g.rule_set@[b].prods@[i])
}
@fn src/parsers/earley/state.rs EarleyState::predict -> r
  requires g_shape(grammar), k_wf(self.key)
  ensures
    forall|s: EarleyState<'a, T, NT, AK, AV, V>| #[trigger] r@.contains(s) ==> k_wf(s.key) && s.value@.len() == 0 && exists|i: int| #[trigger] k_pred(grammar, self.key, prev_states@.len() as int, i, s.key),
    forall|i: int, y: Key<'a, T, NT, AK, AV>| #[trigger] k_pred(grammar, self.key, prev_states@.len() as int, i, y) ==> exists|s: EarleyState<'a, T, NT, AK, AV, V>| #[trigger] r@.contains(s) && s.key == y,
.steps
.closure 1
  -> (vx_r: Option<&StartNonTerminal<NT>>) ensures vx_r == (match **nt { Elem::NonTerm(b) => Some(&b), Elem::Term(_) => None })
.closure 2
  -> (vx_r: Option<Rule<'a, StreamTerminal<T>, StartNonTerminal<NT>, StartActionKey<AK>, StartActionValue<AV>>>) ensures vx_r == (if grammar.rule_set@.contains_key(*nt) { Some(mk_rule(grammar, &grammar.rule_set@[*nt])) } else { None })
.closure 3
  -> (vx_r: It<Prod<'a, StreamTerminal<T>, StartNonTerminal<NT>, StartActionKey<AK>, StartActionValue<AV>>>) ensures vx_r@ == rule_prods(r)
.closure 4
  -> (vx_r: EarleyState<'a, T, NT, AK, AV, V>) ensures k_init(p, prev_states@.len() as int, vx_r.key), vx_r.value@.len() == 0
.end
  proof {
    let n = prev_states@.len() as int;
    assert forall|s: EarleyState<'a, T, NT, AK, AV, V>| #[trigger] vx_tail@.contains(s) implies k_wf(s.key) && s.value@.len() == 0 && exists|i: int| #[trigger] k_pred(grammar, self.key, n, i, s.key) by {
      assert(vx_0_7@.contains(s));
      let p = choose|p: Prod<'a, StreamTerminal<T>, StartNonTerminal<NT>, StartActionKey<AK>, StartActionValue<AV>>| vx_0_6@.contains(p) && k_init(p, n, s.key) && s.value@.len() == 0;
      let r = choose|r: Rule<'a, StreamTerminal<T>, StartNonTerminal<NT>, StartActionKey<AK>, StartActionValue<AV>>| #[trigger] vx_0_5@.contains(r) && rule_prods(r).contains(p);
      let b = choose|b: &StartNonTerminal<NT>| vx_0_4@.contains(b) && grammar.rule_set@.contains_key(*b) && r == mk_rule(grammar, &grammar.rule_set@[*b]);
      let e = choose|e: &&SElem<T, NT>| #[trigger] vx_0_3@.contains(e) && (match **e { Elem::NonTerm(c) => b == &c, Elem::Term(_) => false });
      assert(k_next(self.key) == Some(**e));
      let i = rule_prods(r).index_of(p);
      assert(p_shape(grammar.rule_set@[*b].prods@[i]));
      assert(k_pred(grammar, self.key, n, i, s.key));
    }
    assert forall|i: int, y: Key<'a, T, NT, AK, AV>| #[trigger] k_pred(grammar, self.key, n, i, y) implies exists|s: EarleyState<'a, T, NT, AK, AV, V>| #[trigger] vx_tail@.contains(s) && s.key == y by {
      let b = match k_next(self.key) { Some(Elem::NonTerm(b)) => b, _ => arbitrary() };
      assert(vx_0_3@.len() == 1);
      let e = vx_0_3@[0];
      assert(vx_0_3@.contains(e));
      assert(vx_0_4@.contains(&b));
      let r = mk_rule(grammar, &grammar.rule_set@[b]);
      assert(vx_0_5@.contains(r));
      let p = rule_prods(r)[i];
      assert(rule_prods(r).contains(p));
      assert(vx_0_6@.contains(p));
      let s = choose|s: EarleyState<'a, T, NT, AK, AV, V>| vx_0_7@.contains(s) && k_init(p, n, s.key);
      assert(s.key.child_origins@ =~= y.child_origins@);
      ax_vector_ext(s.key.child_origins, y.child_origins);
      assert(s.key == y);
      assert(vx_tail@.contains(s));
    }
  }
@end

// ---- sets of states
pub open spec fn set_wf<'a, T, NT, AK, AV, V>(s: &EarleyStateSet<'a, T, NT, AK, AV, V>, h: TreeHandle<'a, T, AK, V>) -> bool {
  forall|k: Key<'a, T, NT, AK, AV>| #[trigger] s.states@.contains_key(k) ==> k_wf(k) && v_wf(k, s.states@[k]@, h)
}
pub open spec fn keys<'a, T, NT, AK, AV, V>(s: &EarleyStateSet<'a, T, NT, AK, AV, V>) -> Set<Key<'a, T, NT, AK, AV>> { s.states@.dom() }
@fn src/parsers/earley/state.rs EarleyStateSet::new -> r
  ensures r.states@ == Map::<Key<'a, T, NT, AK, AV>, Vector<Node<'a, T, AK, V>>>::empty()
@end
@fn src/parsers/earley/state.rs EarleyStateSet::is_empty -> r
  ensures r == (keys(self) == Set::<Key<'a, T, NT, AK, AV>>::empty())
@end
pub open spec fn keys_differ<'a, T, NT, AK, AV, V>(s: Seq<EarleyState<'a, T, NT, AK, AV, V>>) -> bool { forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> s[i].key != s[j].key }
@fn src/parsers/earley/state.rs EarleyStateSet::states -> r
  ensures forall|s: EarleyState<'a, T, NT, AK, AV, V>| #[trigger] r@.contains(s) == (self.states@.contains_key(s.key) && self.states@[s.key] == s.value),
    forall|i: int| 0 <= i < r@.len() ==> self.states@.contains_key((#[trigger] r@[i]).key) && self.states@[r@[i].key] == r@[i].value,
    keys_differ(r@),
.steps
.closure 1
  -> (vx_r: EarleyState<'a, T, NT, AK, AV, V>) ensures vx_r.key == *vx_p0.0 && vx_r.value == *vx_p0.1
.end
  proof {
    assert forall|s: EarleyState<'a, T, NT, AK, AV, V>| #[trigger] vx_tail@.contains(s) == (self.states@.contains_key(s.key) && self.states@[s.key] == s.value) by {
      if self.states@.contains_key(s.key) && self.states@[s.key] == s.value { assert(vx_0_1@.contains((&s.key, &s.value))); }
    }
    assert forall|i: int| 0 <= i < vx_tail@.len() implies self.states@.contains_key((#[trigger] vx_tail@[i]).key) && self.states@[vx_tail@[i].key] == vx_tail@[i].value by { assert(vx_tail@.contains(vx_tail@[i])); }
    let d = vx_set_seq(self.states@.dom());
    ax_set_seq(self.states@.dom());
    assert forall|i: int, j: int| #![trigger vx_tail@[i], vx_tail@[j]] 0 <= i < j < vx_tail@.len() implies vx_tail@[i].key != vx_tail@[j].key by { assert(*vx_0_1@[i].0 == d[i] && *vx_0_1@[j].0 == d[j]); }
  }
@end
@fn src/parsers/earley/state.rs EarleyStateSet::get_final -> r
  requires forall|k: Key<'a, T, NT, AK, AV>| self.states@.contains_key(k) && #[trigger] is_final(k) ==> self.states@[k]@.len() == 1
  ensures match r {
    Some(n) => exists|k: Key<'a, T, NT, AK, AV>| self.states@.contains_key(k) && #[trigger] is_final(k) && self.states@[k]@ == seq![*n],
    None => forall|k: Key<'a, T, NT, AK, AV>| self.states@.contains_key(k) ==> !#[trigger] is_final(k),
  }
.loop 1
  invariant forall|i: int| 0 <= i < vx_n1 ==> !is_final(*#[trigger] vx_s1[i].0)
.before_return 1
  proof { assert(vx_s1.contains((k, v))); assert(v@ =~= seq![v@[0]]); }
.after_loop 1
  proof { assert forall|k: Key<'a, T, NT, AK, AV>| self.states@.contains_key(k) implies !#[trigger] is_final(k) by { assert(vx_s1.contains((&k, &self.states@[k]))); } }
@end
/// `v` may be merged into `e`: they differ in the last value at most.
pub open spec fn ins_ok<'a, T, AK, V>(e: Seq<Node<'a, T, AK, V>>, v: Seq<Node<'a, T, AK, V>>, t: Tok<T, AK, V>) -> bool {
  &&& e.len() == v.len() && (e.len() > 0 ==> e.drop_last() == v.drop_last())
  &&& forall|i: int| 0 <= i < e.len() ==> n_ok(#[trigger] e[i], t) && v[i].inner == e[i].inner
  &&& forall|i: int| 0 <= i < v.len() ==> n_ok(#[trigger] v[i], t)
}
/// Node `n` of `b` has what nodes `n` and `m` of `a` have, and nothing else has changed.
pub open spec fn merged<T, AK, V>(a: Inner<T, AK, V>, b: Inner<T, AK, V>, n: usize, m: usize) -> bool {
  &&& grows(a, b) && b.alternatives == a.alternatives && b.nodes@.len() == a.nodes@.len() && frame(a, b, n as int)
  &&& nset(b, n as int) =~= nset(a, n as int).union(nset(a, m as int))
}
/// Node `m` has an alternative that `n` hasn't.
pub open spec fn more<T, AK, V>(a: Inner<T, AK, V>, n: usize, m: usize) -> bool { !nset(a, m as int).subset_of(nset(a, n as int)) }
@fn src/parsers/earley/state.rs EarleyStateSet::insert -> r
  requires old(self).states@.contains_key(state.key) ==> ins_ok(old(self).states@[state.key]@, state.value@, *old(vx_t))
  ensures
    old(self).states@.contains_key(state.key) ==> final(self).states@ == old(self).states@ && final(vx_t).of@ == old(vx_t).of@ && (inner_wf(old(vx_t).v) ==> inner_wf(final(vx_t).v)),
    old(self).states@.contains_key(state.key) && state.value@.len() == 0 ==> *final(vx_t) == *old(vx_t),
    old(self).states@.contains_key(state.key) && state.value@.len() > 0 ==> merged(old(vx_t).v, final(vx_t).v, last_n(old(self).states@[state.key]@), last_n(state.value@)),
    !old(self).states@.contains_key(state.key) ==> final(self).states@ == old(self).states@.insert(state.key, state.value) && r is Changed && *final(vx_t) == *old(vx_t),
    old(self).states@.contains_key(state.key) && r is Changed ==> state.value@.len() > 0 && more(old(vx_t).v, last_n(old(self).states@[state.key]@), last_n(state.value@)),
.thread vx_t: &mut Tok<T, AK, V>
.start
  let ghost v0 = old(self).states@[state.key];
.loop 1
  invariant existing_nodes@ == vx_s1, vx_t1 == vx_ref_seq(state.value@), vx_s1.len() == vx_t1.len(), vx_s1 == v0@, ins_ok(v0@, state.value@, *old(vx_t)),
    vx_s1.len() == 0 ==> *vx_t == *old(vx_t),
    vx_t.of@ == old(vx_t).of@, inner_wf(old(vx_t).v) ==> inner_wf(vx_t.v), grows(old(vx_t).v, vx_t.v), vx_t.v.alternatives == old(vx_t).v.alternatives, vx_t.v.nodes@.len() == old(vx_t).v.nodes@.len(),
    vx_n1 < vx_s1.len() ==> frame(old(vx_t).v, vx_t.v, -1),
    vx_n1 == vx_s1.len() && vx_n1 > 0 ==> merged(old(vx_t).v, vx_t.v, last_n(v0@), last_n(state.value@)),
    changed_h1 is Changed ==> vx_n1 == vx_s1.len() && vx_n1 > 0 && more(old(vx_t).v, last_n(v0@), last_n(state.value@)),
.before_loop 1
  proof { lemma_grows(old(vx_t).v, vx_t.v, vx_t.v); }
.loop_start 1
  let ghost i0 = vx_t.v;
  proof {
    let k = vx_n1 - 1;
    assert(n_ok(v0@[k], *old(vx_t))); assert(n_ok(state.value@[k], *old(vx_t)));
    assert(vx_t1[k] == &state.value@[k]);
    if vx_n1 < vx_s1.len() { assert(v0@.drop_last()[k] == v0@[k] && state.value@.drop_last()[k] == state.value@[k]); }
  }
.loop_end 1
  proof {
    assert(existing_nodes@ =~= vx_s1);
    lemma_grows(old(vx_t).v, i0, vx_t.v);
    let k = vx_n1 - 1;
    let (n, m) = (v0@[k].index, state.value@[k].index);
    assert(nset(i0, n as int) == nset(old(vx_t).v, n as int) && nset(i0, m as int) == nset(old(vx_t).v, m as int));
    assert forall|x: int| #![trigger nset(old(vx_t).v, x)] #![trigger nset(vx_t.v, x)] 0 <= x < old(vx_t).v.nodes@.len() && x != n implies nset(vx_t.v, x) == nset(old(vx_t).v, x) by { assert(nset(i0, x) == nset(old(vx_t).v, x)); }
    if n == m { assert(nset(vx_t.v, n as int) =~= nset(old(vx_t).v, n as int)); }
    assert(vx_n1 < vx_s1.len() ==> frame(old(vx_t).v, vx_t.v, -1));
  }
.after_loop 1
  proof { ax_vector_ext(*existing_nodes, v0); }
.end
  proof { if old(self).states@.contains_key(state.key) { assert(self.states@ =~= old(self).states@); } }
@end
pub open spec fn all_wf<'a, T, NT, AK, AV, V>(s: Seq<EarleyState<'a, T, NT, AK, AV, V>>, h: TreeHandle<'a, T, AK, V>) -> bool { forall|i: int| 0 <= i < s.len() ==> s_wf(#[trigger] s[i], h) }
@fn src/parsers/earley/state.rs EarleyStateSet::from_states -> r
  requires keys_differ(iter.vx_seq())
  ensures
    *final(vx_t) == *old(vx_t),
    forall|k: Key<'a, T, NT, AK, AV>| #[trigger] r.states@.contains_key(k) ==> exists|i: int| 0 <= i < iter.vx_seq().len() && (#[trigger] iter.vx_seq()[i]).key == k && iter.vx_seq()[i].value == r.states@[k],
    forall|i: int| 0 <= i < iter.vx_seq().len() ==> r.states@.contains_key((#[trigger] iter.vx_seq()[i]).key),
.thread vx_t: &mut Tok<T, AK, V>
.pass insert
.loop 1
  invariant
    *vx_t == *old(vx_t), vx_s1 == iter.vx_seq(),
    forall|k: Key<'a, T, NT, AK, AV>| #[trigger] state_set.states@.contains_key(k) ==> exists|i: int| 0 <= i < vx_n1 && (#[trigger] vx_s1[i]).key == k && vx_s1[i].value == state_set.states@[k],
    forall|i: int| 0 <= i < vx_n1 ==> state_set.states@.contains_key((#[trigger] vx_s1[i]).key),
.loop_start 1
  proof { assert(vx_s1[vx_n1 - 1] == state); }
@end
pub open spec fn start_prod<'a, T, NT, AK, AV>(g: &'a StartGrammar<T, NT, AK, AV>) -> Prod<'a, StreamTerminal<T>, StartNonTerminal<NT>, StartActionKey<AK>, StartActionValue<AV>> {
  mk_prod(g, &g.rule_set@[StartNonTerminal::Start].head, &g.rule_set@[StartNonTerminal::Start].prods@[0])
}
/// The set of the one state `x` at the start of `sp`.
pub proof fn lemma_new_start<'a, T, NT, AK, AV, V>(sp: Prod<'a, StreamTerminal<T>, StartNonTerminal<NT>, StartActionKey<AK>, StartActionValue<AV>>, x: EarleyState<'a, T, NT, AK, AV, V>, ss: Seq<EarleyState<'a, T, NT, AK, AV, V>>, m: Map<Key<'a, T, NT, AK, AV>, Vector<Node<'a, T, AK, V>>>)
  requires
    ss.len() == 1, x == ss[0], k_init(sp, 0, x.key), x.value@.len() == 0, p_shape(*sp.prod),
    forall|k: Key<'a, T, NT, AK, AV>| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < ss.len() && (#[trigger] ss[i]).key == k && ss[i].value == m[k],
    forall|i: int| 0 <= i < ss.len() ==> m.contains_key((#[trigger] ss[i]).key),
  ensures
    forall|h: TreeHandle<'a, T, AK, V>, k: Key<'a, T, NT, AK, AV>| #[trigger] m.contains_key(k) ==> k_wf(k) && #[trigger] v_wf(k, m[k]@, h),
    forall|k: Key<'a, T, NT, AK, AV>| #[trigger] m.contains_key(k) == k_init(sp, 0, k),
{
  assert(m.contains_key(ss[0].key));
  assert forall|k: Key<'a, T, NT, AK, AV>| #[trigger] m.contains_key(k) implies k == x.key && m[k] == x.value by {}
  assert forall|k: Key<'a, T, NT, AK, AV>| k_init(sp, 0, k) implies #[trigger] m.contains_key(k) by {
    assert(x.key.child_origins@ =~= k.child_origins@);
    ax_vector_ext(x.key.child_origins, k.child_origins);
    assert(x.key == k);
  }
}
@fn src/parsers/earley/state.rs EarleyStateSet::new_start -> r
  requires has_start(grammar), grammar.start_symbol == StartNonTerminal::<NT>::Start, g_wf(grammar), g_shape(grammar)
  ensures
    *final(vx_t) == *old(vx_t),
    forall|h: TreeHandle<'a, T, AK, V>| set_wf(&r, h),
    forall|k: Key<'a, T, NT, AK, AV>| #[trigger] r.states@.contains_key(k) == k_init(start_prod(grammar), 0, k),
.thread vx_t: &mut Tok<T, AK, V>
.steps
.closure 1
  -> (vx_r: EarleyState<'a, T, NT, AK, AV, V>) ensures k_init(prod, 0, vx_r.key), vx_r.value@.len() == 0
.before_call from_states
  proof {
    let sp = start_prod(grammar);
    let sr = mk_rule(grammar, &grammar.rule_set@[StartNonTerminal::Start]);
    assert(vx_0_1@ =~= seq![sp]);
    assert(p_shape(grammar.rule_set@[StartNonTerminal::Start].prods@[0]));
    assert(k_init(vx_0_1@[0], 0, vx_0_2@[0].key));
  }
.end
  proof { lemma_new_start(start_prod(grammar), vx_0_2@[0], vx_0_2@, vx_tail.states@); }
@end
/// `x` in `s` is scanned to `y` in `r`.
pub open spec fn shifted<'a, T, NT, AK, AV, V>(s: &EarleyStateSet<'a, T, NT, AK, AV, V>, t: T, x: Key<'a, T, NT, AK, AV>, y: Key<'a, T, NT, AK, AV>, v: Seq<Node<'a, T, AK, V>>) -> bool {
  s.states@.contains_key(x) && k_scan(x, t, y) && v_next(s.states@[x]@, v)
}
/// Scanning keeps keys apart.
pub proof fn lemma_scan_inj<'a, T, NT, AK, AV>(x: Key<'a, T, NT, AK, AV>, y: Key<'a, T, NT, AK, AV>, t: T, z: Key<'a, T, NT, AK, AV>)
  requires k_scan(x, t, z), k_scan(y, t, z)
  ensures x == y
{ ax_vector_ext(x.child_origins, y.child_origins); }
@fn src/parsers/earley/state.rs EarleyStateSet::shift -> r
  requires set_wf(self, *tree_handle), h_ok(*tree_handle, *old(vx_t))
  ensures
    t_step(*old(vx_t), *final(vx_t)), frame(old(vx_t).v, final(vx_t).v, -1),
    set_wf(&r, *tree_handle),
    forall|y: Key<'a, T, NT, AK, AV>| #[trigger] r.states@.contains_key(y) ==> exists|x: Key<'a, T, NT, AK, AV>| #[trigger] shifted(self, token.kind, x, y, r.states@[y]@),
    forall|x: Key<'a, T, NT, AK, AV>, y: Key<'a, T, NT, AK, AV>| self.states@.contains_key(x) && #[trigger] k_scan(x, token.kind, y) ==> r.states@.contains_key(y),
    forall|y: Key<'a, T, NT, AK, AV>| #[trigger] r.states@.contains_key(y) ==> old(vx_t).v.nodes@.len() <= last_n(r.states@[y]@) < final(vx_t).v.nodes@.len() && leaf_node(final(vx_t).v, last_n(r.states@[y]@), token.kind, token.value),
    forall|x: Key<'a, T, NT, AK, AV>, y: Key<'a, T, NT, AK, AV>| #[trigger] r.states@.contains_key(x) && #[trigger] r.states@.contains_key(y) && last_n(r.states@[x]@) == last_n(r.states@[y]@) ==> x == y,
.thread vx_t: &mut Tok<T, AK, V>
.steps
.start
  let ghost n0 = vx_t.v.nodes@.len();
  proof { lemma_grows(vx_t.v, vx_t.v, vx_t.v); }
.loop 1
  invariant
    h_ok(*tree_handle, *vx_t), t_step(*old(vx_t), *vx_t), frame(old(vx_t).v, vx_t.v, -1), n0 == old(vx_t).v.nodes@.len(), vx_t.v.nodes@.len() == n0 + vx_o1@.len(), vx_s1 == vx_r1@,
    forall|i: int| 0 <= i < vx_o1@.len() ==> s_wf(#[trigger] vx_o1@[i], *tree_handle) && last_n(vx_o1@[i].value@) == n0 + i && leaf_node(vx_t.v, last_n(vx_o1@[i].value@), token.kind, token.value),
    forall|i: int| 0 <= i < vx_o1@.len() ==> exists|k: int| 0 <= k < vx_n1 && shifted(self, token.kind, (#[trigger] vx_s1[k]).key, (#[trigger] vx_o1@[i]).key, vx_o1@[i].value@),
    forall|k: int, y: Key<'a, T, NT, AK, AV>| 0 <= k < vx_n1 && #[trigger] k_scan(vx_s1[k].key, token.kind, y) ==> exists|i: int| 0 <= i < vx_o1@.len() && (#[trigger] vx_o1@[i]).key == y,
    keys_differ(vx_o1@), keys_differ(vx_r1@),
.loop_start 1
  let ghost i0 = vx_t.v;
  let ghost ob = vx_o1@;
  proof { assert(vx_s1[vx_n1 - 1] == state); assert(set_wf(self, *tree_handle)); assert(self.states@.contains_key(state.key)); assert(s_wf(state, *tree_handle)); }
.loop_end 1
  proof {
    lemma_grows(old(vx_t).v, i0, vx_t.v);
    let m = vx_n1 - 1;
    assert forall|x: int| #![trigger nset(old(vx_t).v, x)] #![trigger nset(vx_t.v, x)] 0 <= x < old(vx_t).v.nodes@.len() && x != -1 implies nset(vx_t.v, x) == nset(old(vx_t).v, x) by { assert(nset(i0, x) == nset(old(vx_t).v, x)); }
    assert forall|i: int| 0 <= i < vx_o1@.len() implies s_wf(#[trigger] vx_o1@[i], *tree_handle) && last_n(vx_o1@[i].value@) == n0 + i && leaf_node(vx_t.v, last_n(vx_o1@[i].value@), token.kind, token.value) by {
      if i < ob.len() { assert(vx_o1@[i] == ob[i]); let n = last_n(ob[i].value@); assert(nset(vx_t.v, n as int) == nset(i0, n as int)); lemma_keep(i0, vx_t.v, n); }
    }
    assert forall|i: int| 0 <= i < vx_o1@.len() implies exists|k: int| 0 <= k < vx_n1 && shifted(self, token.kind, (#[trigger] vx_s1[k]).key, (#[trigger] vx_o1@[i]).key, vx_o1@[i].value@) by {
      if i < ob.len() { assert(vx_o1@[i] == ob[i]); let k = choose|k: int| 0 <= k < m && shifted(self, token.kind, (#[trigger] vx_s1[k]).key, ob[i].key, ob[i].value@); assert(shifted(self, token.kind, vx_s1[k].key, vx_o1@[i].key, vx_o1@[i].value@)); }
      else { assert(shifted(self, token.kind, vx_s1[m].key, vx_o1@[i].key, vx_o1@[i].value@)); }
    }
    assert forall|k: int, y: Key<'a, T, NT, AK, AV>| 0 <= k < vx_n1 && #[trigger] k_scan(vx_s1[k].key, token.kind, y) implies exists|i: int| 0 <= i < vx_o1@.len() && (#[trigger] vx_o1@[i]).key == y by {
      if k < m { let i = choose|i: int| 0 <= i < ob.len() && (#[trigger] ob[i]).key == y; assert(vx_o1@[i].key == y); }
      else { let s = vx_o1@.last(); ax_vector_ext(s.key.child_origins, y.child_origins); assert(s.key == y); assert(vx_o1@[vx_o1@.len() - 1].key == y); }
    }
    assert forall|i: int, j: int| #![trigger vx_o1@[i], vx_o1@[j]] 0 <= i < j < vx_o1@.len() implies vx_o1@[i].key != vx_o1@[j].key by {
      if j < ob.len() { assert(vx_o1@[i] == ob[i] && vx_o1@[j] == ob[j]); }
      else {
        let k = choose|k: int| 0 <= k < m && shifted(self, token.kind, (#[trigger] vx_s1[k]).key, ob[i].key, ob[i].value@);
        assert(vx_s1[k] == vx_r1@[k] && vx_s1[m] == vx_r1@[m]);
        if vx_o1@[i].key == vx_o1@[j].key { lemma_scan_inj(vx_s1[k].key, vx_s1[m].key, token.kind, vx_o1@[j].key); }
      }
    }
  }
.end
  proof {
    assert forall|y: Key<'a, T, NT, AK, AV>| #[trigger] vx_tail.states@.contains_key(y) implies s_wf(EarleyState { key: y, value: vx_tail.states@[y] }, *tree_handle)
      && (exists|x: Key<'a, T, NT, AK, AV>| #[trigger] shifted(self, token.kind, x, y, vx_tail.states@[y]@))
      && n0 <= last_n(vx_tail.states@[y]@) < vx_t.v.nodes@.len() && leaf_node(vx_t.v, last_n(vx_tail.states@[y]@), token.kind, token.value) by {
      let i = choose|i: int| 0 <= i < vx_o1@.len() && (#[trigger] vx_o1@[i]).key == y && vx_o1@[i].value == vx_tail.states@[y];
      assert(s_wf(vx_o1@[i], *tree_handle));
    }
    assert forall|x: Key<'a, T, NT, AK, AV>, y: Key<'a, T, NT, AK, AV>| self.states@.contains_key(x) && #[trigger] k_scan(x, token.kind, y) implies vx_tail.states@.contains_key(y) by {
      let st = EarleyState { key: x, value: self.states@[x] };
      assert(vx_0_1@.contains(st));
      let k = vx_0_1@.index_of(st);
      assert(vx_r1@[k].key == x);
      let i = choose|i: int| 0 <= i < vx_o1@.len() && (#[trigger] vx_o1@[i]).key == y;
      assert(vx_tail.states@.contains_key(vx_o1@[i].key));
    }
    assert forall|x: Key<'a, T, NT, AK, AV>, y: Key<'a, T, NT, AK, AV>| #[trigger] vx_tail.states@.contains_key(x) && #[trigger] vx_tail.states@.contains_key(y) && last_n(vx_tail.states@[x]@) == last_n(vx_tail.states@[y]@) implies x == y by {
      let i = choose|i: int| 0 <= i < vx_o1@.len() && (#[trigger] vx_o1@[i]).key == x && vx_o1@[i].value == vx_tail.states@[x];
      let j = choose|i: int| 0 <= i < vx_o1@.len() && (#[trigger] vx_o1@[i]).key == y && vx_o1@[i].value == vx_tail.states@[y];
      assert(last_n(vx_o1@[i].value@) == n0 + i && last_n(vx_o1@[j].value@) == n0 + j);
    }
  }
@end
/// The set at position `i`, where `cur` is the one after `prev`.
pub open spec fn set_at<'b, 'a, T, NT, AK, AV, V>(prev: Seq<EarleyStateSet<'a, T, NT, AK, AV, V>>, cur: &'b EarleyStateSet<'a, T, NT, AK, AV, V>, i: int) -> &'b EarleyStateSet<'a, T, NT, AK, AV, V> { if i == prev.len() { cur } else { &prev[i] } }
/// `k` steps over `e` to `p`.
pub open spec fn k_step<'a, T, NT, AK, AV>(k: Key<'a, T, NT, AK, AV>, e: ProdElement<StreamTerminal<T>, StartNonTerminal<NT>>, p: ProdState<'a, StreamTerminal<T>, StartNonTerminal<NT>, StartActionKey<AK>, StartActionValue<AV>>) -> bool {
  k.prod_state.index < k_elems(k).len() && e == k_elems(k)[k.prod_state.index as int] && p.prod == k.prod_state.prod && p.index == k.prod_state.index + 1
}
/// `s` waits for the head of `x`, and `p` is past it.
pub open spec fn c_step<'a, T, NT, AK, AV, V>(x: Key<'a, T, NT, AK, AV>, s: EarleyState<'a, T, NT, AK, AV, V>, p: ProdState<'a, StreamTerminal<T>, StartNonTerminal<NT>, StartActionKey<AK>, StartActionValue<AV>>, h: TreeHandle<'a, T, AK, V>) -> bool {
  s_wf(s, h) && k_next(x) is None && k_next(s.key) == Some(Elem::<StreamTerminal<T>, StartNonTerminal<NT>>::NonTerm(*x.prod_state.prod.head)) && p.prod == s.key.prod_state.prod && p.index == s.key.prod_state.index + 1
}
/// `s` is a state of `os` past the head of `x`, whose values are `xv`.
pub open spec fn comp_ent<'a, T, NT, AK, AV, V>(os: &EarleyStateSet<'a, T, NT, AK, AV, V>, x: Key<'a, T, NT, AK, AV>, xv: Seq<usize>, s: EarleyState<'a, T, NT, AK, AV, V>, i: Inner<T, AK, V>) -> bool {
  &&& exists|z: Key<'a, T, NT, AK, AV>| os.states@.contains_key(z) && #[trigger] k_comp(x, z, s.key) && v_next(os.states@[z]@, s.value@)
  &&& branch_node(i, last_n(s.value@), k_act(x), xv)
}
@fn src/parsers/earley/state.rs EarleyState::complete -> r
  requires
    s_wf(*self, *tree_handle), self.key.origin_index <= prev_states@.len(), set_wf(curr_state, *tree_handle),
    forall|i: int| 0 <= i < prev_states@.len() ==> set_wf(#[trigger] &prev_states@[i], *tree_handle),
    h_ok(*tree_handle, *old(vx_t)), v_in(self.value@, old(vx_t).v),
  ensures
    all_wf(r@, *tree_handle),
    t_step(*old(vx_t), *final(vx_t)), frame(old(vx_t).v, final(vx_t).v, -1), final(vx_t).v.nodes@.len() == old(vx_t).v.nodes@.len() + r@.len(),
    k_next(self.key) is Some ==> r@.len() == 0,
    forall|i: int| 0 <= i < r@.len() ==> comp_ent(set_at(prev_states@, curr_state, self.key.origin_index as int), self.key, idxs(self.value@), #[trigger] r@[i], final(vx_t).v) && last_n(r@[i].value@) == old(vx_t).v.nodes@.len() + i,
    forall|z: Key<'a, T, NT, AK, AV>, y: Key<'a, T, NT, AK, AV>| keys(set_at(prev_states@, curr_state, self.key.origin_index as int)).contains(z) && #[trigger] k_comp(self.key, z, y) ==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i]).key == y,
.thread vx_t: &mut Tok<T, AK, V>
.steps
.desugar map
.start
  let ghost n0 = vx_t.v.nodes@.len();
  let ghost os = set_at(prev_states@, curr_state, self.key.origin_index as int);
  proof { lemma_grows(vx_t.v, vx_t.v, vx_t.v); }
.closure 1
  -> (vx_r: Option<(EarleyState<'a, T, NT, AK, AV, V>, &'a ProdElement<StreamTerminal<T>, StartNonTerminal<NT>>, ProdState<'a, StreamTerminal<T>, StartNonTerminal<NT>, StartActionKey<AK>, StartActionValue<AV>>)>) requires k_wf(state.key) ensures match vx_r { Some((s, e, p)) => s == state && k_step(s.key, *e, p), None => k_next(state.key) is None }
.closure 2
  -> (vx_r: Option<(EarleyState<'a, T, NT, AK, AV, V>, &'a StartNonTerminal<NT>, ProdState<'a, StreamTerminal<T>, StartNonTerminal<NT>, StartActionKey<AK>, StartActionValue<AV>>)>) ensures match vx_r { Some((s, n, p)) => s == vx_p0.0 && vx_p0.1.element == (Elem::<StreamTerminal<T>, StartNonTerminal<NT>>::NonTerm(*n)) && p == vx_p0.2, None => vx_p0.1.element is Term }
.closure 3
  -> (vx_r: bool) ensures vx_r == (*vx_p0.1 == *self.key.prod_state.prod.head)
.after_let vx_r1
  proof {
    assert(*origin_state == *os);
    assert forall|i: int| 0 <= i < vx_r1@.len() implies c_step(self.key, (#[trigger] vx_r1@[i]).0, vx_r1@[i].2, *tree_handle) && keys(os).contains(vx_r1@[i].0.key) && os.states@[vx_r1@[i].0.key] == vx_r1@[i].0.value by {
      let c = vx_r1@[i];
      assert(vx_r1@.contains(c));
      let b = choose|b: (EarleyState<'a, T, NT, AK, AV, V>, &'a ProdElement<StreamTerminal<T>, StartNonTerminal<NT>>, ProdState<'a, StreamTerminal<T>, StartNonTerminal<NT>, StartActionKey<AK>, StartActionValue<AV>>)| vx_0_3@.contains(b) && c.0 == b.0 && b.1.element == (Elem::<StreamTerminal<T>, StartNonTerminal<NT>>::NonTerm(*c.1)) && c.2 == b.2;
      let a = choose|a: EarleyState<'a, T, NT, AK, AV, V>| vx_0_2@.contains(a) && b.0 == a && k_step(a.key, *b.1, b.2);
      assert(os.states@.contains_key(a.key));
    }
    assert forall|z: Key<'a, T, NT, AK, AV>, y: Key<'a, T, NT, AK, AV>| keys(os).contains(z) && #[trigger] k_comp(self.key, z, y) implies exists|i: int| 0 <= i < vx_r1@.len() && (#[trigger] vx_r1@[i]).0.key == z by {
      let a = EarleyState { key: z, value: os.states@[z] };
      assert(vx_0_2@.contains(a));
      let b = choose|b: (EarleyState<'a, T, NT, AK, AV, V>, &'a ProdElement<StreamTerminal<T>, StartNonTerminal<NT>>, ProdState<'a, StreamTerminal<T>, StartNonTerminal<NT>, StartActionKey<AK>, StartActionValue<AV>>)| vx_0_3@.contains(b) && b.0 == a && k_step(a.key, *b.1, b.2);
      assert(vx_0_3@.contains(b));
      let c = choose|c: (EarleyState<'a, T, NT, AK, AV, V>, &'a StartNonTerminal<NT>, ProdState<'a, StreamTerminal<T>, StartNonTerminal<NT>, StartActionKey<AK>, StartActionValue<AV>>)| vx_0_4@.contains(c) && c.0 == b.0 && b.1.element == (Elem::<StreamTerminal<T>, StartNonTerminal<NT>>::NonTerm(*c.1)) && c.2 == b.2;
      assert(vx_0_4@.contains(c));
      assert(vx_r1@.contains(c));
      let i = vx_r1@.index_of(c);
      assert(vx_r1@[i].0.key == z);
    }
  }
.loop 1
  invariant
    h_ok(*tree_handle, *vx_t), t_step(*old(vx_t), *vx_t), frame(old(vx_t).v, vx_t.v, -1), n0 == old(vx_t).v.nodes@.len(), vx_t.v.nodes@.len() == n0 + vx_n1, vx_o1@.len() == vx_n1, vx_s1 == vx_r1@, k_next(self.key) is None,
    all_wf(vx_o1@, *tree_handle),
    forall|i: int| 0 <= i < vx_n1 ==> k_comp(self.key, vx_r1@[i].0.key, (#[trigger] vx_o1@[i]).key) && v_next(vx_r1@[i].0.value@, vx_o1@[i].value@) && last_n(vx_o1@[i].value@) == n0 + i && branch_node(vx_t.v, last_n(vx_o1@[i].value@), k_act(self.key), idxs(self.value@)),
.loop_start 1
  let ghost i0 = vx_t.v;
  let ghost ob = vx_o1@;
  proof { assert(vx_r1@[vx_n1 - 1] == vx_s1[vx_n1 - 1]); assert(c_step(self.key, vx_r1@[vx_n1 - 1].0, vx_r1@[vx_n1 - 1].2, *tree_handle)); }
.loop_end 1
  proof {
    lemma_grows(old(vx_t).v, i0, vx_t.v);
    assert forall|x: int| #![trigger nset(old(vx_t).v, x)] #![trigger nset(vx_t.v, x)] 0 <= x < old(vx_t).v.nodes@.len() && x != -1 implies nset(vx_t.v, x) == nset(old(vx_t).v, x) by { assert(nset(i0, x) == nset(old(vx_t).v, x)); }
    assert forall|i: int| 0 <= i < vx_n1 implies s_wf(#[trigger] vx_o1@[i], *tree_handle) && k_comp(self.key, vx_r1@[i].0.key, vx_o1@[i].key) && v_next(vx_r1@[i].0.value@, vx_o1@[i].value@) && last_n(vx_o1@[i].value@) == n0 + i && branch_node(vx_t.v, last_n(vx_o1@[i].value@), k_act(self.key), idxs(self.value@)) by {
      if i < ob.len() { assert(vx_o1@[i] == ob[i]); assert(s_wf(ob[i], *tree_handle)); let n = last_n(ob[i].value@); assert(nset(vx_t.v, n as int) == nset(i0, n as int)); lemma_keep(i0, vx_t.v, n); }
      else {
        let s = vx_o1@[i];
        let n = last_n(s.value@);
        assert(s.value@.drop_last() =~= vx_r1@[i].0.value@);
        let a = choose|a: usize| a < ialts(vx_t.v).len() && is_branch(ialts(vx_t.v)[a as int], k_act(self.key), idxs(self.value@)) && nset(vx_t.v, n as int) == #[trigger] Set::<usize>::empty().insert(a);
        assert(one_alt(vx_t.v, n, a));
      }
    }
  }
.after_loop 1
  proof {
    if k_next(self.key) is None {
      assert forall|i: int| 0 <= i < vx_o1@.len() implies comp_ent(os, self.key, idxs(self.value@), #[trigger] vx_o1@[i], vx_t.v) by { assert(k_comp(self.key, vx_r1@[i].0.key, vx_o1@[i].key)); assert(keys(os).contains(vx_r1@[i].0.key)); }
      assert forall|z: Key<'a, T, NT, AK, AV>, y: Key<'a, T, NT, AK, AV>| keys(os).contains(z) && #[trigger] k_comp(self.key, z, y) implies exists|i: int| 0 <= i < vx_o1@.len() && (#[trigger] vx_o1@[i]).key == y by {
        let i = choose|i: int| 0 <= i < vx_r1@.len() && (#[trigger] vx_r1@[i]).0.key == z;
        let s = vx_o1@[i];
        ax_vector_ext(s.key.child_origins, y.child_origins);
        assert(s.key == y);
      }
    }
  }
@end
// ---- what the values mean
pub type St<'a, T, NT, AK, AV, V> = Map<Key<'a, T, NT, AK, AV>, Vector<Node<'a, T, AK, V>>>;
/// The states of all positions.
pub open spec fn maps<'a, T, NT, AK, AV, V>(prev: Seq<EarleyStateSet<'a, T, NT, AK, AV, V>>, cur: &EarleyStateSet<'a, T, NT, AK, AV, V>) -> Seq<St<'a, T, NT, AK, AV, V>> { Seq::new(prev.len() + 1, |i: int| set_at(prev, cur, i).states@) }
pub open spec fn has<'a, T, NT, AK, AV, V>(m: Seq<St<'a, T, NT, AK, AV, V>>, j: int, y: Key<'a, T, NT, AK, AV>) -> bool { 0 <= j < m.len() && m[j].contains_key(y) }
pub open spec fn vals<'a, T, NT, AK, AV, V>(m: Seq<St<'a, T, NT, AK, AV, V>>, j: int, y: Key<'a, T, NT, AK, AV>) -> Seq<Node<'a, T, AK, V>> { m[j][y]@ }
/// The node of the element `y` passed last.
pub open spec fn own<'a, T, NT, AK, AV, V>(m: Seq<St<'a, T, NT, AK, AV, V>>, j: int, y: Key<'a, T, NT, AK, AV>) -> usize { last_n(vals(m, j, y)) }
/// The element passed last.
pub open spec fn k_last<T, NT, AK, AV>(k: Key<'_, T, NT, AK, AV>) -> SElem<T, NT> { k_elems(k)[k.prod_state.index - 1].element }
pub open spec fn from_scan<'a, T, NT, AK, AV, V>(m: Seq<St<'a, T, NT, AK, AV, V>>, j: int, y: Key<'a, T, NT, AK, AV>, x: Key<'a, T, NT, AK, AV>, t: T) -> bool { has(m, j - 1, x) && k_scan(x, t, y) && v_next(vals(m, j - 1, x), vals(m, j, y)) }
/// `x` is complete at `j`, and is what `y` is past.
pub open spec fn comp_src<'a, T, NT, AK, AV, V>(m: Seq<St<'a, T, NT, AK, AV, V>>, j: int, y: Key<'a, T, NT, AK, AV>, z: Key<'a, T, NT, AK, AV>, x: Key<'a, T, NT, AK, AV>, i: Inner<T, AK, V>, a: usize) -> bool { has(m, j, x) && k_comp(x, z, y) && is_branch(ialts(i)[a as int], k_act(x), idxs(vals(m, j, x))) }
/// Every alternative of `n` is a parse of what `y` is past.
pub open spec fn alts_ok<'a, T, NT, AK, AV, V>(m: Seq<St<'a, T, NT, AK, AV, V>>, j: int, y: Key<'a, T, NT, AK, AV>, z: Key<'a, T, NT, AK, AV>, i: Inner<T, AK, V>, n: usize) -> bool {
  forall|a: usize| #[trigger] nset(i, n as int).contains(a) ==> exists|x: Key<'a, T, NT, AK, AV>| #[trigger] comp_src(m, j, y, z, x, i, a)
}
pub open spec fn from_comp<'a, T, NT, AK, AV, V>(m: Seq<St<'a, T, NT, AK, AV, V>>, j: int, y: Key<'a, T, NT, AK, AV>, z: Key<'a, T, NT, AK, AV>, o: int) -> bool { o <= j && has(m, o, z) && k_next(z) is Some && k_next(z)->Some_0 is NonTerm && o <= usize::MAX && k_adv(z, z.child_origins@.push(o as usize), y) && v_next(vals(m, o, z), vals(m, j, y)) }
pub open spec fn st_ok<'a, T, NT, AK, AV, V>(m: Seq<St<'a, T, NT, AK, AV, V>>, i: Inner<T, AK, V>, h: TreeHandle<'a, T, AK, V>, j: int, y: Key<'a, T, NT, AK, AV>) -> bool {
  &&& k_wf(y) && v_wf(y, vals(m, j, y), h) && v_in(vals(m, j, y), i) && y.origin_index <= j
  &&& y.prod_state.index == 0 ==> y.origin_index == j && y.child_origins@.len() == 0
  &&& y.prod_state.index > 0 ==> {
    ||| exists|x: Key<'a, T, NT, AK, AV>, t: T| #[trigger] from_scan(m, j, y, x, t)
    ||| exists|z: Key<'a, T, NT, AK, AV>, o: int| #[trigger] from_comp(m, j, y, z, o) && alts_ok(m, j, y, z, i, own(m, j, y))
  }
}
/// All states have values that mean parses of what they are past.
pub open spec fn tree_ok<'a, T, NT, AK, AV, V>(m: Seq<St<'a, T, NT, AK, AV, V>>, i: Inner<T, AK, V>, h: TreeHandle<'a, T, AK, V>) -> bool { forall|j: int, y: Key<'a, T, NT, AK, AV>| #[trigger] has(m, j, y) ==> st_ok(m, i, h, j, y) }
/// No two states share a node.
pub open spec fn apart<'a, T, NT, AK, AV, V>(m: Seq<St<'a, T, NT, AK, AV, V>>) -> bool {
  forall|j: int, y: Key<'a, T, NT, AK, AV>, k: int, z: Key<'a, T, NT, AK, AV>| #[trigger] has(m, j, y) && #[trigger] has(m, k, z) && y.prod_state.index > 0 && z.prod_state.index > 0 && own(m, j, y) == own(m, k, z) ==> j == k && y == z
}
pub open spec fn grown_by<'a, T, NT, AK, AV, V>(m: Seq<St<'a, T, NT, AK, AV, V>>, i: Inner<T, AK, V>, j: int, x: Key<'a, T, NT, AK, AV>, y: Key<'a, T, NT, AK, AV>) -> bool { has_branch(i, own(m, j, y), k_act(x), idxs(vals(m, j, x))) }
/// Every state complete at `j` is an alternative of the states past it.
pub open spec fn grown<'a, T, NT, AK, AV, V>(m: Seq<St<'a, T, NT, AK, AV, V>>, i: Inner<T, AK, V>, j: int) -> bool {
  forall|x: Key<'a, T, NT, AK, AV>, z: Key<'a, T, NT, AK, AV>, y: Key<'a, T, NT, AK, AV>| has(m, j, x) && has(m, x.origin_index as int, z) && has(m, j, y) && #[trigger] k_comp(x, z, y) ==> grown_by(m, i, j, x, y)
}
/// The states past a token hold it.
pub open spec fn leaves<'a, T, NT, AK, AV, V>(m: Seq<St<'a, T, NT, AK, AV, V>>, w: Seq<Token<T, V>>, i: Inner<T, AK, V>) -> bool {
  forall|j: int, y: Key<'a, T, NT, AK, AV>| #[trigger] has(m, j, y) && y.prod_state.index > 0 && k_last(y) is Term ==> 0 < j <= w.len() && leaf_node(i, own(m, j, y), w[j - 1].kind, w[j - 1].value) && k_last(y) == Elem::<StreamTerminal<T>, StartNonTerminal<NT>>::Term(StreamTerminal::Term(w[j - 1].kind))
}
/// `n` has all states of `m`, with the same values.
pub open spec fn ext<'a, T, NT, AK, AV, V>(m: Seq<St<'a, T, NT, AK, AV, V>>, n: Seq<St<'a, T, NT, AK, AV, V>>) -> bool { m.len() <= n.len() && forall|j: int, y: Key<'a, T, NT, AK, AV>| #![trigger has(m, j, y)] #![trigger has(n, j, y)] has(m, j, y) ==> has(n, j, y) && n[j][y] == m[j][y] }
/// The states past a token are the same, with the same alternatives.
pub open spec fn leaf_keep<'a, T, NT, AK, AV, V>(m: Seq<St<'a, T, NT, AK, AV, V>>, i: Inner<T, AK, V>, n: Seq<St<'a, T, NT, AK, AV, V>>, k: Inner<T, AK, V>) -> bool {
  forall|j: int, y: Key<'a, T, NT, AK, AV>| #![trigger has(m, j, y)] #![trigger has(n, j, y)] has(n, j, y) && y.prod_state.index > 0 && k_last(y) is Term ==> has(m, j, y) && n[j][y] == m[j][y] && nset(k, own(m, j, y) as int) == nset(i, own(m, j, y) as int)
}
pub proof fn lemma_own_in<'a, T, NT, AK, AV, V>(m: Seq<St<'a, T, NT, AK, AV, V>>, i: Inner<T, AK, V>, h: TreeHandle<'a, T, AK, V>, j: int, y: Key<'a, T, NT, AK, AV>)
  requires tree_ok(m, i, h), has(m, j, y), y.prod_state.index > 0
  ensures own(m, j, y) < i.nodes@.len(), vals(m, j, y).len() > 0
{ let v = vals(m, j, y); assert(v[v.len() - 1].index < i.nodes@.len()); }
pub proof fn lemma_leaf_keep<'a, T, NT, AK, AV, V>(m: Seq<St<'a, T, NT, AK, AV, V>>, n: Seq<St<'a, T, NT, AK, AV, V>>, w: Seq<Token<T, V>>, i: Inner<T, AK, V>, k: Inner<T, AK, V>)
  requires leaves(m, w, i), leaf_keep(m, i, n, k), grows(i, k)
  ensures leaves(n, w, k)
{
  assert forall|j: int, y: Key<'a, T, NT, AK, AV>| #[trigger] has(n, j, y) && y.prod_state.index > 0 && k_last(y) is Term implies 0 < j <= w.len() && leaf_node(k, own(n, j, y), w[j - 1].kind, w[j - 1].value) && k_last(y) == Elem::<StreamTerminal<T>, StartNonTerminal<NT>>::Term(StreamTerminal::Term(w[j - 1].kind)) by {
    assert(has(m, j, y));
    lemma_keep(i, k, own(m, j, y));
  }
}
/// A state keeps its meaning if its node keeps its alternatives.
pub proof fn lemma_st_keep<'a, T, NT, AK, AV, V>(m: Seq<St<'a, T, NT, AK, AV, V>>, i: Inner<T, AK, V>, n: Seq<St<'a, T, NT, AK, AV, V>>, k: Inner<T, AK, V>, h: TreeHandle<'a, T, AK, V>, j: int, y: Key<'a, T, NT, AK, AV>)
  requires tree_ok(m, i, h), has(m, j, y), ext(m, n), inner_wf(i), grows(i, k), y.prod_state.index > 0 ==> nset(k, own(m, j, y) as int) == nset(i, own(m, j, y) as int)
  ensures st_ok(n, k, h, j, y), has(n, j, y), n[j][y] == m[j][y]
{
  assert(st_ok(m, i, h, j, y));
  assert(has(n, j, y) && n[j][y] == m[j][y]);
  if y.prod_state.index > 0 {
    lemma_own_in(m, i, h, j, y);
    if exists|x: Key<'a, T, NT, AK, AV>, t: T| #[trigger] from_scan(m, j, y, x, t) {
      let (x, t) = choose|x: Key<'a, T, NT, AK, AV>, t: T| #[trigger] from_scan(m, j, y, x, t);
      assert(has(n, j - 1, x));
      assert(from_scan(n, j, y, x, t));
    } else {
      let (z, o) = choose|z: Key<'a, T, NT, AK, AV>, o: int| #[trigger] from_comp(m, j, y, z, o) && alts_ok(m, j, y, z, i, own(m, j, y));
      assert(has(n, o, z));
      assert(from_comp(n, j, y, z, o));
      assert forall|a: usize| #[trigger] nset(k, own(n, j, y) as int).contains(a) implies exists|x: Key<'a, T, NT, AK, AV>| #[trigger] comp_src(n, j, y, z, x, k, a) by {
        assert(nset(i, own(m, j, y) as int).contains(a));
        let x = choose|x: Key<'a, T, NT, AK, AV>| #[trigger] comp_src(m, j, y, z, x, i, a);
        assert(has(n, j, x));
        assert(ialts(k)[a as int] == ialts(i)[a as int]);
        assert(comp_src(n, j, y, z, x, k, a));
      }
      assert(alts_ok(n, j, y, z, k, own(n, j, y)));
    }
  }
}
/// New nodes change nothing.
pub proof fn lemma_new_nodes<'a, T, NT, AK, AV, V>(m: Seq<St<'a, T, NT, AK, AV, V>>, i: Inner<T, AK, V>, k: Inner<T, AK, V>, h: TreeHandle<'a, T, AK, V>)
  requires tree_ok(m, i, h), inner_wf(i), grows(i, k), frame(i, k, -1)
  ensures tree_ok(m, k, h), leaf_keep(m, i, m, k)
{
  assert forall|j: int, y: Key<'a, T, NT, AK, AV>| #[trigger] has(m, j, y) implies st_ok(m, k, h, j, y) by {
    if y.prod_state.index > 0 { lemma_own_in(m, i, h, j, y); assert(nset(k, own(m, j, y) as int) == nset(i, own(m, j, y) as int)); }
    lemma_st_keep(m, i, m, k, h, j, y);
  }
  assert forall|j: int, y: Key<'a, T, NT, AK, AV>| #[trigger] has(m, j, y) && y.prod_state.index > 0 && k_last(y) is Term implies nset(k, own(m, j, y) as int) == nset(i, own(m, j, y) as int) by { lemma_own_in(m, i, h, j, y); }
}
pub proof fn lemma_grown_mono<'a, T, NT, AK, AV, V>(m: Seq<St<'a, T, NT, AK, AV, V>>, i: Inner<T, AK, V>, n: Seq<St<'a, T, NT, AK, AV, V>>, k: Inner<T, AK, V>, h: TreeHandle<'a, T, AK, V>, j: int)
  requires grown(m, i, j), tree_ok(m, i, h), grows(i, k), ext(m, n), forall|p: int, y: Key<'a, T, NT, AK, AV>| 0 <= p <= j && #[trigger] has(n, p, y) ==> has(m, p, y), 0 <= j < m.len()
  ensures grown(n, k, j)
{
  assert forall|x: Key<'a, T, NT, AK, AV>, z: Key<'a, T, NT, AK, AV>, y: Key<'a, T, NT, AK, AV>| has(n, j, x) && has(n, x.origin_index as int, z) && has(n, j, y) && #[trigger] k_comp(x, z, y) implies grown_by(n, k, j, x, y) by {
    assert(has(m, j, x) && has(m, j, y));
    assert(st_ok(m, i, h, j, x));
    assert(has(m, x.origin_index as int, z));
    assert(grown_by(m, i, j, x, y));
    lemma_own_in(m, i, h, j, y);
    lemma_has(i, k, own(m, j, y), k_act(x), idxs(vals(m, j, x)));
  }
}
// ---- entries to be inserted
/// `s` is past `x`, for which `z` waited.
pub open spec fn cent<'a, T, NT, AK, AV, V>(m: Seq<St<'a, T, NT, AK, AV, V>>, j: int, s: EarleyState<'a, T, NT, AK, AV, V>, i: Inner<T, AK, V>, x: Key<'a, T, NT, AK, AV>, z: Key<'a, T, NT, AK, AV>) -> bool {
  has(m, j, x) && has(m, x.origin_index as int, z) && x.origin_index <= j && k_comp(x, z, s.key) && v_next(vals(m, x.origin_index as int, z), s.value@) && branch_node(i, last_n(s.value@), k_act(x), idxs(vals(m, j, x)))
}
/// `s` is at the start of what `x` expects.
pub open spec fn pent<'a, T, NT, AK, AV, V>(g: &'a StartGrammar<T, NT, AK, AV>, m: Seq<St<'a, T, NT, AK, AV, V>>, j: int, s: EarleyState<'a, T, NT, AK, AV, V>, x: Key<'a, T, NT, AK, AV>, p: int) -> bool { has(m, j, x) && s.value@.len() == 0 && k_pred(g, x, j, p, s.key) }
pub open spec fn ent<'a, T, NT, AK, AV, V>(g: &'a StartGrammar<T, NT, AK, AV>, m: Seq<St<'a, T, NT, AK, AV, V>>, h: TreeHandle<'a, T, AK, V>, j: int, s: EarleyState<'a, T, NT, AK, AV, V>, i: Inner<T, AK, V>) -> bool {
  &&& s_wf(s, h) && s.key.origin_index <= j
  &&& {
    ||| s.value@.len() == 0 && exists|x: Key<'a, T, NT, AK, AV>, p: int| #[trigger] pent(g, m, j, s, x, p)
    ||| s.value@.len() > 0 && exists|x: Key<'a, T, NT, AK, AV>, z: Key<'a, T, NT, AK, AV>| #[trigger] cent(m, j, s, i, x, z)
  }
}
pub proof fn lemma_ent_keep<'a, T, NT, AK, AV, V>(g: &'a StartGrammar<T, NT, AK, AV>, m: Seq<St<'a, T, NT, AK, AV, V>>, h: TreeHandle<'a, T, AK, V>, j: int, s: EarleyState<'a, T, NT, AK, AV, V>, i: Inner<T, AK, V>, n: Seq<St<'a, T, NT, AK, AV, V>>, k: Inner<T, AK, V>)
  requires ent(g, m, h, j, s, i), ext(m, n), grows(i, k), s.value@.len() > 0 ==> nset(k, last_n(s.value@) as int) == nset(i, last_n(s.value@) as int)
  ensures ent(g, n, h, j, s, k)
{
  if s.value@.len() == 0 {
    let (x, p) = choose|x: Key<'a, T, NT, AK, AV>, p: int| #[trigger] pent(g, m, j, s, x, p);
    assert(has(n, j, x)); assert(pent(g, n, j, s, x, p));
  } else {
    let (x, z) = choose|x: Key<'a, T, NT, AK, AV>, z: Key<'a, T, NT, AK, AV>| #[trigger] cent(m, j, s, i, x, z);
    assert(has(n, j, x)); assert(has(n, x.origin_index as int, z));
    lemma_keep(i, k, last_n(s.value@));
    assert(cent(n, j, s, k, x, z));
  }
}
pub open spec fn put<'a, T, NT, AK, AV, V>(m: Seq<St<'a, T, NT, AK, AV, V>>, s: EarleyState<'a, T, NT, AK, AV, V>) -> Seq<St<'a, T, NT, AK, AV, V>> { m.update(m.len() - 1, m.last().insert(s.key, s.value)) }
/// Two ways to be past the same element of the same state.
pub proof fn lemma_same_pred<'a, T, NT, AK, AV>(a: Key<'a, T, NT, AK, AV>, ao: usize, b: Key<'a, T, NT, AK, AV>, bo: usize, y: Key<'a, T, NT, AK, AV>)
  requires k_adv(a, a.child_origins@.push(ao), y), k_adv(b, b.child_origins@.push(bo), y)
  ensures a == b, ao == bo
{
  assert(y.child_origins@.last() == ao && y.child_origins@.last() == bo);
  assert(y.child_origins@.drop_last() =~= a.child_origins@ && y.child_origins@.drop_last() =~= b.child_origins@);
  ax_vector_ext(a.child_origins, b.child_origins);
}
/// What holds of a new entry itself.
pub proof fn lemma_put_new_st<'a, T, NT, AK, AV, V>(g: &'a StartGrammar<T, NT, AK, AV>, m: Seq<St<'a, T, NT, AK, AV, V>>, h: TreeHandle<'a, T, AK, V>, s: EarleyState<'a, T, NT, AK, AV, V>, i: Inner<T, AK, V>, n: Seq<St<'a, T, NT, AK, AV, V>>)
  requires
    m.len() > 0, tree_ok(m, i, h), ent(g, m, h, m.len() - 1, s, i), ext(m, n), has(n, m.len() - 1, s.key), vals(n, m.len() - 1, s.key) == s.value@,
  ensures
    st_ok(n, i, h, m.len() - 1, s.key),
{
  let q = m.len() - 1;
  let y = s.key;
  if s.value@.len() == 0 {
    let (x, p) = choose|x: Key<'a, T, NT, AK, AV>, p: int| #[trigger] pent(g, m, q, s, x, p);
  } else {
    let (x, z) = choose|x: Key<'a, T, NT, AK, AV>, z: Key<'a, T, NT, AK, AV>| #[trigger] cent(m, q, s, i, x, z);
    let o = x.origin_index as int;
    assert(st_ok(m, i, h, o, z));
    assert(has(n, q, x)); assert(has(n, o, z));
    let v = s.value@;
    let a = choose|a: usize| #[trigger] one_alt(i, last_n(v), a) && is_branch(ialts(i)[a as int], k_act(x), idxs(vals(m, q, x)));
    assert forall|k: int| 0 <= k < v.len() implies (#[trigger] v[k]).index < i.nodes@.len() by { if k < v.len() - 1 { assert(v.drop_last()[k] == v[k]); assert(vals(m, o, z)[k].index < i.nodes@.len()); } }
    assert(from_comp(n, q, y, z, o));
    assert forall|b: usize| #[trigger] nset(i, own(n, q, y) as int).contains(b) implies exists|x: Key<'a, T, NT, AK, AV>| #[trigger] comp_src(n, q, y, z, x, i, b) by { assert(b == a); assert(comp_src(n, q, y, z, x, i, b)); }
    assert(alts_ok(n, q, y, z, i, own(n, q, y)));
  }
}
/// No state shares the node of a new entry.
pub proof fn lemma_put_new_apart<'a, T, NT, AK, AV, V>(m: Seq<St<'a, T, NT, AK, AV, V>>, s: EarleyState<'a, T, NT, AK, AV, V>)
  requires
    m.len() > 0, apart(m), !m.last().contains_key(s.key), s.value@.len() == 0 ==> s.key.prod_state.index == 0,
    s.value@.len() > 0 ==> forall|j: int, y: Key<'a, T, NT, AK, AV>| #[trigger] has(m, j, y) && y.prod_state.index > 0 ==> own(m, j, y) < last_n(s.value@),
  ensures
    apart(put(m, s)), ext(m, put(m, s)),
    forall|j: int, y: Key<'a, T, NT, AK, AV>| #[trigger] has(put(m, s), j, y) == (has(m, j, y) || (j == m.len() - 1 && y == s.key)),
    vals(put(m, s), m.len() - 1, s.key) == s.value@,
{
  let n = put(m, s);
  let q = m.len() - 1;
  assert(n[q] == m[q].insert(s.key, s.value));
  assert(n.len() == m.len());
  assert forall|j: int, y: Key<'a, T, NT, AK, AV>| #[trigger] has(n, j, y) == (has(m, j, y) || (j == q && y == s.key)) by { if 0 <= j < q { assert(n[j] == m[j]); } }
  assert forall|j: int, y: Key<'a, T, NT, AK, AV>| #[trigger] has(m, j, y) implies has(n, j, y) && n[j][y] == m[j][y] by {}
  assert(ext(m, n));
  assert forall|j: int, y: Key<'a, T, NT, AK, AV>, k: int, z: Key<'a, T, NT, AK, AV>| #[trigger] has(n, j, y) && #[trigger] has(n, k, z) && y.prod_state.index > 0 && z.prod_state.index > 0 && own(n, j, y) == own(n, k, z) implies j == k && y == z by {
    if has(m, j, y) && has(m, k, z) { assert(own(n, j, y) == own(m, j, y) && own(n, k, z) == own(m, k, z)); }
    else if has(m, j, y) { assert(own(n, j, y) == own(m, j, y)); }
    else if has(m, k, z) { assert(own(n, k, z) == own(m, k, z)); }
  }
}
pub proof fn lemma_put_new<'a, T, NT, AK, AV, V>(g: &'a StartGrammar<T, NT, AK, AV>, m: Seq<St<'a, T, NT, AK, AV, V>>, h: TreeHandle<'a, T, AK, V>, s: EarleyState<'a, T, NT, AK, AV, V>, i: Inner<T, AK, V>)
  requires
    m.len() > 0, inner_wf(i), tree_ok(m, i, h), apart(m), ent(g, m, h, m.len() - 1, s, i), !m.last().contains_key(s.key),
    s.value@.len() > 0 ==> forall|j: int, y: Key<'a, T, NT, AK, AV>| #[trigger] has(m, j, y) && y.prod_state.index > 0 ==> own(m, j, y) < last_n(s.value@),
  ensures
    tree_ok(put(m, s), i, h), apart(put(m, s)), ext(m, put(m, s)), leaf_keep(m, i, put(m, s), i),
    forall|j: int, y: Key<'a, T, NT, AK, AV>| #[trigger] has(put(m, s), j, y) == (has(m, j, y) || (j == m.len() - 1 && y == s.key)),
    vals(put(m, s), m.len() - 1, s.key) == s.value@,
{
  let n = put(m, s);
  let q = m.len() - 1;
  lemma_grows(i, i, i);
  if s.value@.len() == 0 { let (x, p) = choose|x: Key<'a, T, NT, AK, AV>, p: int| #[trigger] pent(g, m, q, s, x, p); assert(s.key.prod_state.index == 0); }
  else {
    let (x, z) = choose|x: Key<'a, T, NT, AK, AV>, z: Key<'a, T, NT, AK, AV>| #[trigger] cent(m, q, s, i, x, z);
    assert(k_last(s.key) is NonTerm);
  }
  lemma_put_new_apart(m, s);
  lemma_put_new_st(g, m, h, s, i, n);
  assert forall|j: int, y: Key<'a, T, NT, AK, AV>| #[trigger] has(n, j, y) implies st_ok(n, i, h, j, y) by { if has(m, j, y) { lemma_st_keep(m, i, n, i, h, j, y); } }
}
/// An entry for a state that is there agrees with it in all values but the last.
pub proof fn lemma_put_ok<'a, T, NT, AK, AV, V>(g: &'a StartGrammar<T, NT, AK, AV>, m: Seq<St<'a, T, NT, AK, AV, V>>, h: TreeHandle<'a, T, AK, V>, s: EarleyState<'a, T, NT, AK, AV, V>, t: Tok<T, AK, V>)
  requires m.len() > 0, h_ok(h, t), tree_ok(m, t.v, h), ent(g, m, h, m.len() - 1, s, t.v), m.last().contains_key(s.key)
  ensures
    ins_ok(vals(m, m.len() - 1, s.key), s.value@, t),
    s.value@.len() > 0 ==> s.key.prod_state.index > 0 && k_last(s.key) is NonTerm,
    s.value@.len() > 0 ==> forall|x: Key<'a, T, NT, AK, AV>, z: Key<'a, T, NT, AK, AV>| #[trigger] cent(m, m.len() - 1, s, t.v, x, z) ==> from_comp(m, m.len() - 1, s.key, z, x.origin_index as int) && alts_ok(m, m.len() - 1, s.key, z, t.v, own(m, m.len() - 1, s.key)),
{
  let i = t.v;
  let q = m.len() - 1;
  let y = s.key;
  assert(has(m, q, y));
  assert(st_ok(m, i, h, q, y));
  let v = s.value@;
  let e = vals(m, q, y);
  if v.len() > 0 {
    let (x, z) = choose|x: Key<'a, T, NT, AK, AV>, z: Key<'a, T, NT, AK, AV>| #[trigger] cent(m, q, s, i, x, z);
    let o = x.origin_index as int;
    assert(st_ok(m, i, h, o, z));
    if exists|x: Key<'a, T, NT, AK, AV>, t: T| #[trigger] from_scan(m, q, y, x, t) { let (x, t) = choose|x: Key<'a, T, NT, AK, AV>, t: T| #[trigger] from_scan(m, q, y, x, t); assert(false); }
    let (z1, o1) = choose|z: Key<'a, T, NT, AK, AV>, o: int| #[trigger] from_comp(m, q, y, z, o) && alts_ok(m, q, y, z, i, own(m, q, y));
    lemma_same_pred(z, x.origin_index, z1, o1 as usize, y);
    assert forall|k: int| 0 <= k < v.len() implies n_ok(#[trigger] v[k], t) by { if k < v.len() - 1 { assert(v.drop_last()[k] == v[k]); assert(vals(m, o, z)[k].index < i.nodes@.len()); } else { let a = choose|a: usize| #[trigger] one_alt(i, last_n(v), a) && is_branch(ialts(i)[a as int], k_act(x), idxs(vals(m, q, x))); } }
    assert forall|x: Key<'a, T, NT, AK, AV>, z: Key<'a, T, NT, AK, AV>| #[trigger] cent(m, q, s, i, x, z) implies from_comp(m, q, y, z, x.origin_index as int) && alts_ok(m, q, y, z, i, own(m, q, y)) by { lemma_same_pred(z, x.origin_index, z1, o1 as usize, y); }
  }
  assert forall|k: int| 0 <= k < e.len() implies n_ok(#[trigger] e[k], t) && v[k].inner == e[k].inner by { assert(e[k].index < i.nodes@.len()); assert(v[k].inner == h); }
}
pub proof fn lemma_put_old<'a, T, NT, AK, AV, V>(g: &'a StartGrammar<T, NT, AK, AV>, m: Seq<St<'a, T, NT, AK, AV, V>>, h: TreeHandle<'a, T, AK, V>, s: EarleyState<'a, T, NT, AK, AV, V>, t: Tok<T, AK, V>, k: Inner<T, AK, V>)
  requires
    m.len() > 0, h_ok(h, t), tree_ok(m, t.v, h), apart(m), ent(g, m, h, m.len() - 1, s, t.v), m.last().contains_key(s.key), s.value@.len() > 0,
    merged(t.v, k, own(m, m.len() - 1, s.key), last_n(s.value@)),
  ensures tree_ok(m, k, h), leaf_keep(m, t.v, m, k)
{
  let i = t.v;
  let q = m.len() - 1;
  let y0 = s.key;
  lemma_put_ok(g, m, h, s, t);
  assert(has(m, q, y0));
  lemma_own_in(m, i, h, q, y0);
  let n0 = own(m, q, y0);
  assert forall|j: int, y: Key<'a, T, NT, AK, AV>| #[trigger] has(m, j, y) && y.prod_state.index > 0 && !(j == q && y == y0) implies nset(k, own(m, j, y) as int) == nset(i, own(m, j, y) as int) by { lemma_own_in(m, i, h, j, y); assert(own(m, j, y) != n0); }
  assert forall|j: int, y: Key<'a, T, NT, AK, AV>| #[trigger] has(m, j, y) implies st_ok(m, k, h, j, y) by {
    if !(j == q && y == y0) { lemma_st_keep(m, i, m, k, h, j, y); }
    else {
      assert(st_ok(m, i, h, j, y));
      let (x, z) = choose|x: Key<'a, T, NT, AK, AV>, z: Key<'a, T, NT, AK, AV>| #[trigger] cent(m, q, s, i, x, z);
      let b = choose|a: usize| #[trigger] one_alt(i, last_n(s.value@), a) && is_branch(ialts(i)[a as int], k_act(x), idxs(vals(m, q, x)));
      assert(from_comp(m, j, y, z, x.origin_index as int) && alts_ok(m, j, y, z, i, n0));
      assert forall|a: usize| #[trigger] nset(k, n0 as int).contains(a) implies exists|x: Key<'a, T, NT, AK, AV>| #[trigger] comp_src(m, j, y, z, x, k, a) by {
        if nset(i, n0 as int).contains(a) {
          let x1 = choose|x: Key<'a, T, NT, AK, AV>| #[trigger] comp_src(m, j, y, z, x, i, a);
          assert(ialts(k)[a as int] == ialts(i)[a as int]);
          assert(comp_src(m, j, y, z, x1, k, a));
        } else {
          assert(nset(i, last_n(s.value@) as int).contains(a)); assert(a == b);
          assert(ialts(k)[a as int] == ialts(i)[a as int]);
          assert(comp_src(m, j, y, z, x, k, a));
        }
      }
      assert(alts_ok(m, j, y, z, k, n0));
    }
  }
}
/// What `s` adds is there.
pub open spec fn done<'a, T, NT, AK, AV, V>(m: Seq<St<'a, T, NT, AK, AV, V>>, i: Inner<T, AK, V>, i1: Inner<T, AK, V>, s: EarleyState<'a, T, NT, AK, AV, V>) -> bool {
  m.last().contains_key(s.key) && (s.value@.len() > 0 ==> s.key.prod_state.index > 0 && forall|c: AK, ks: Seq<usize>| #[trigger] branch_node(i1, last_n(s.value@), c, ks) ==> has_branch(i, own(m, m.len() - 1, s.key), c, ks))
}
// ---- closing a set
pub open spec fn o_ok<'a, T, NT, AK, AV, V>(s: &EarleyStateSet<'a, T, NT, AK, AV, V>, n: int) -> bool { forall|k: Key<'a, T, NT, AK, AV>| #[trigger] keys(s).contains(k) ==> k.origin_index <= n }
/// The sets of the earlier positions.
pub open spec fn prev_ok<'a, T, NT, AK, AV, V>(prev: Seq<EarleyStateSet<'a, T, NT, AK, AV, V>>, h: TreeHandle<'a, T, AK, V>) -> bool {
  forall|i: int| 0 <= i < prev.len() ==> set_wf(#[trigger] &prev[i], h) && o_ok(&prev[i], i)
}
/// The keys waiting at `i`, when `s` are those at the current position.
pub open spec fn waiting<'a, T, NT, AK, AV, V>(prev: Seq<EarleyStateSet<'a, T, NT, AK, AV, V>>, s: ISet<Key<'a, T, NT, AK, AV>>, i: int, z: Key<'a, T, NT, AK, AV>) -> bool { if i == prev.len() { s.contains(z) } else { keys(&prev[i]).contains(z) } }
pub open spec fn pc_closed<'a, T, NT, AK, AV, V>(g: &'a StartGrammar<T, NT, AK, AV>, prev: Seq<EarleyStateSet<'a, T, NT, AK, AV, V>>, s: ISet<Key<'a, T, NT, AK, AV>>) -> bool {
  &&& forall|x: Key<'a, T, NT, AK, AV>, i: int, y: Key<'a, T, NT, AK, AV>| s.contains(x) && #[trigger] k_pred(g, x, prev.len() as int, i, y) ==> s.contains(y)
  &&& forall|x: Key<'a, T, NT, AK, AV>, z: Key<'a, T, NT, AK, AV>, y: Key<'a, T, NT, AK, AV>| s.contains(x) && waiting(prev, s, x.origin_index as int, z) && #[trigger] k_comp(x, z, y) ==> s.contains(y)
}
pub open spec fn ikeys<'a, T, NT, AK, AV, V>(s: &EarleyStateSet<'a, T, NT, AK, AV, V>) -> ISet<Key<'a, T, NT, AK, AV>> { ISet::new(|k: Key<'a, T, NT, AK, AV>| keys(s).contains(k)) }
pub open spec fn key_in<'a, T, NT, AK, AV, V>(out: Seq<EarleyState<'a, T, NT, AK, AV, V>>, y: Key<'a, T, NT, AK, AV>) -> bool { exists|k: int| 0 <= k < out.len() && (#[trigger] out[k]).key == y }
pub open spec fn comp_at<'a, T, NT, AK, AV, V>(s: EarleyState<'a, T, NT, AK, AV, V>, i: Inner<T, AK, V>, y: Key<'a, T, NT, AK, AV>, c: AK, ks: Seq<usize>) -> bool { s.key == y && s.value@.len() > 0 && branch_node(i, last_n(s.value@), c, ks) }
pub open spec fn comp_in<'a, T, NT, AK, AV, V>(out: Seq<EarleyState<'a, T, NT, AK, AV, V>>, i: Inner<T, AK, V>, y: Key<'a, T, NT, AK, AV>, c: AK, ks: Seq<usize>) -> bool { exists|k: int| 0 <= k < out.len() && comp_at(#[trigger] out[k], i, y, c, ks) }
/// `out` is sorted by the nodes made for the entries, which are `i0`'s number at least.
pub open spec fn fresh<'a, T, NT, AK, AV, V>(out: Seq<EarleyState<'a, T, NT, AK, AV, V>>, i0: Inner<T, AK, V>, i: Inner<T, AK, V>) -> bool {
  &&& forall|k: int| 0 <= k < out.len() && (#[trigger] out[k]).value@.len() > 0 ==> i0.nodes@.len() <= last_n(out[k].value@) < i.nodes@.len()
  &&& forall|k: int, l: int| #![trigger out[k], out[l]] 0 <= k < l < out.len() && out[k].value@.len() > 0 && out[l].value@.len() > 0 ==> last_n(out[k].value@) < last_n(out[l].value@)
}
/// `out` are the entries that follow from the first `c` states `xs` at the last position of `m`.
pub open spec fn flat_ok<'a, T, NT, AK, AV, V>(g: &'a StartGrammar<T, NT, AK, AV>, m: Seq<St<'a, T, NT, AK, AV, V>>, h: TreeHandle<'a, T, AK, V>, i0: Inner<T, AK, V>, xs: Seq<EarleyState<'a, T, NT, AK, AV, V>>, c: int, out: Seq<EarleyState<'a, T, NT, AK, AV, V>>, i: Inner<T, AK, V>) -> bool {
  &&& fresh(out, i0, i)
  &&& forall|k: int| 0 <= k < out.len() ==> ent(g, m, h, m.len() - 1, #[trigger] out[k], i)
  &&& forall|k: int, p: int, y: Key<'a, T, NT, AK, AV>| 0 <= k < c && #[trigger] k_pred(g, xs[k].key, m.len() - 1, p, y) ==> key_in(out, y)
  &&& forall|k: int, z: Key<'a, T, NT, AK, AV>, y: Key<'a, T, NT, AK, AV>| 0 <= k < c && has(m, xs[k].key.origin_index as int, z) && #[trigger] k_comp(xs[k].key, z, y) ==> comp_in(out, i, y, k_act(xs[k].key), idxs(xs[k].value@))
}
pub proof fn lemma_val_len<'a, T, NT, AK, AV, V>(m: Seq<St<'a, T, NT, AK, AV, V>>, i: Inner<T, AK, V>, h: TreeHandle<'a, T, AK, V>, j: int, y: Key<'a, T, NT, AK, AV>)
  requires tree_ok(m, i, h), has(m, j, y)
  ensures vals(m, j, y).len() == y.prod_state.index, y.origin_index <= j
{ assert(st_ok(m, i, h, j, y)); }
pub proof fn lemma_flat<'a, T, NT, AK, AV, V>(g: &'a StartGrammar<T, NT, AK, AV>, m: Seq<St<'a, T, NT, AK, AV, V>>, os: &EarleyStateSet<'a, T, NT, AK, AV, V>, h: TreeHandle<'a, T, AK, V>, i0: Inner<T, AK, V>, xs: Seq<EarleyState<'a, T, NT, AK, AV, V>>, c: int, o1: Seq<EarleyState<'a, T, NT, AK, AV, V>>, i1: Inner<T, AK, V>, a: Seq<EarleyState<'a, T, NT, AK, AV, V>>, b: Seq<EarleyState<'a, T, NT, AK, AV, V>>, o2: Seq<EarleyState<'a, T, NT, AK, AV, V>>, i2: Inner<T, AK, V>)
  requires
    m.len() > 0, tree_ok(m, i1, h), inner_wf(i1), grows(i0, i1), grows(i1, i2), frame(i1, i2, -1), flat_ok(g, m, h, i0, xs, c, o1, i1), o2 == o1 + (a + b), 0 <= c < xs.len(),
    m.last().contains_key(xs[c].key), m.last()[xs[c].key] == xs[c].value, xs[c].key.origin_index <= m.len() - 1, os.states@ == m[xs[c].key.origin_index as int],
    forall|s: EarleyState<'a, T, NT, AK, AV, V>| #[trigger] a.contains(s) ==> k_wf(s.key) && s.value@.len() == 0 && exists|i: int| #[trigger] k_pred(g, xs[c].key, m.len() - 1, i, s.key),
    forall|i: int, y: Key<'a, T, NT, AK, AV>| #[trigger] k_pred(g, xs[c].key, m.len() - 1, i, y) ==> exists|s: EarleyState<'a, T, NT, AK, AV, V>| #[trigger] a.contains(s) && s.key == y,
    all_wf(b, h), i2.nodes@.len() == i1.nodes@.len() + b.len(),
    k_next(xs[c].key) is Some ==> b.len() == 0,
    forall|i: int| 0 <= i < b.len() ==> comp_ent(os, xs[c].key, idxs(xs[c].value@), #[trigger] b[i], i2) && last_n(b[i].value@) == i1.nodes@.len() + i,
    forall|z: Key<'a, T, NT, AK, AV>, y: Key<'a, T, NT, AK, AV>| keys(os).contains(z) && #[trigger] k_comp(xs[c].key, z, y) ==> exists|i: int| 0 <= i < b.len() && (#[trigger] b[i]).key == y,
  ensures flat_ok(g, m, h, i0, xs, c + 1, o2, i2), tree_ok(m, i2, h)
{
  hide(tree_ok); hide(inner_wf); hide(st_ok); hide(k_wf); hide(leaf_keep);
  lemma_new_nodes(m, i1, i2, h);
  let q = m.len() - 1;
  let x = xs[c].key;
  let o = x.origin_index as int;
  let n1 = o1.len() as int;
  let na = a.len() as int;
  assert(forall|k: int| 0 <= k < n1 ==> o2[k] == o1[k]);
  assert(forall|k: int| 0 <= k < na ==> #[trigger] o2[n1 + k] == a[k]);
  assert(forall|k: int| 0 <= k < b.len() ==> #[trigger] o2[n1 + na + k] == b[k]);
  assert forall|k: int| 0 <= k < na implies (#[trigger] a[k]).value@.len() == 0 by { assert(a.contains(a[k])); }
  assert forall|k: int| 0 <= k < b.len() implies (#[trigger] b[k]).value@.len() > 0 && last_n(b[k].value@) == i1.nodes@.len() + k by { assert(comp_ent(os, x, idxs(xs[c].value@), b[k], i2)); }
  assert forall|k: int| 0 <= k < o2.len() implies ent(g, m, h, q, #[trigger] o2[k], i2) && (o2[k].value@.len() > 0 ==> i0.nodes@.len() <= last_n(o2[k].value@) < i2.nodes@.len()) by {
    let s = o2[k];
    if k < n1 {
      assert(ent(g, m, h, q, o1[k], i1));
      assert(o1[k].value@.len() > 0 ==> last_n(o1[k].value@) < i1.nodes@.len());
      if s.value@.len() > 0 { assert(nset(i2, last_n(s.value@) as int) == nset(i1, last_n(s.value@) as int)); }
      lemma_ent_keep(g, m, h, q, s, i1, m, i2);
    } else if k < n1 + na {
      assert(a[k - n1] == s); assert(a.contains(s));
      let i = choose|i: int| #[trigger] k_pred(g, x, q, i, s.key);
      assert(has(m, q, x));
      assert(pent(g, m, q, s, x, i));
    } else {
      let l = k - n1 - na;
      assert(b[l] == s); assert(s_wf(b[l], h));
      assert(comp_ent(os, x, idxs(xs[c].value@), b[l], i2));
      let z = choose|z: Key<'a, T, NT, AK, AV>| os.states@.contains_key(z) && #[trigger] k_comp(x, z, s.key) && v_next(os.states@[z]@, s.value@);
      assert(has(m, q, x)); assert(has(m, o, z));
      lemma_val_len(m, i1, h, o, z);
      assert(cent(m, q, s, i2, x, z));
    }
  }
  assert forall|k: int, l: int| #![trigger o2[k], o2[l]] 0 <= k < l < o2.len() && o2[k].value@.len() > 0 && o2[l].value@.len() > 0 implies last_n(o2[k].value@) < last_n(o2[l].value@) by {
    if n1 <= l < n1 + na { assert(a[l - n1] == o2[l]); } else if n1 <= k < n1 + na { assert(a[k - n1] == o2[k]); }
    else if l < n1 { assert(o1[k] == o2[k] && o1[l] == o2[l]); }
    else { assert(b[l - n1 - na] == o2[l]); if k < n1 { assert(o1[k] == o2[k]); } else { assert(b[k - n1 - na] == o2[k]); } }
  }
  assert forall|k: int, p: int, y: Key<'a, T, NT, AK, AV>| 0 <= k < c + 1 && #[trigger] k_pred(g, xs[k].key, m.len() - 1, p, y) implies key_in(o2, y) by {
    if k < c { assert(key_in(o1, y)); let l = choose|l: int| 0 <= l < o1.len() && (#[trigger] o1[l]).key == y; assert(o2[l].key == y); }
    else { let s = choose|s: EarleyState<'a, T, NT, AK, AV, V>| #[trigger] a.contains(s) && s.key == y; let l = a.index_of(s); assert(o2[n1 + l] == a[l]); assert(o2[n1 + l].key == y); }
  }
  assert forall|k: int, z: Key<'a, T, NT, AK, AV>, y: Key<'a, T, NT, AK, AV>| 0 <= k < c + 1 && has(m, xs[k].key.origin_index as int, z) && #[trigger] k_comp(xs[k].key, z, y) implies comp_in(o2, i2, y, k_act(xs[k].key), idxs(xs[k].value@)) by {
    if k < c {
      assert(comp_in(o1, i1, y, k_act(xs[k].key), idxs(xs[k].value@)));
      let l = choose|l: int| 0 <= l < o1.len() && comp_at(#[trigger] o1[l], i1, y, k_act(xs[k].key), idxs(xs[k].value@));
      let n = last_n(o1[l].value@);
      assert(nset(i2, n as int) == nset(i1, n as int));
      lemma_keep(i1, i2, n);
      assert(comp_at(o2[l], i2, y, k_act(xs[k].key), idxs(xs[k].value@)));
    } else {
      assert(keys(os).contains(z));
      let l = choose|i: int| 0 <= i < b.len() && (#[trigger] b[i]).key == y;
      assert(comp_ent(os, x, idxs(xs[c].value@), b[l], i2));
      assert(o2[n1 + na + l] == b[l]);
      assert(comp_at(o2[n1 + na + l], i2, y, k_act(x), idxs(xs[c].value@)));
    }
  }
}
/// The first `c` entries `s` have been put into `m0`, which has become `m`.
pub open spec fn ins_inv<'a, T, NT, AK, AV, V>(g: &'a StartGrammar<T, NT, AK, AV>, m0: Seq<St<'a, T, NT, AK, AV, V>>, h: TreeHandle<'a, T, AK, V>, i0: Inner<T, AK, V>, i1: Inner<T, AK, V>, s: Seq<EarleyState<'a, T, NT, AK, AV, V>>, c: int, m: Seq<St<'a, T, NT, AK, AV, V>>, t: Tok<T, AK, V>) -> bool {
  &&& m.len() == m0.len() && m0.len() > 0 && ext(m0, m) && h_ok(h, t) && grows(i1, t.v) && fresh(s, i0, i1) && tree_ok(m, t.v, h) && apart(m) && leaf_keep(m0, i1, m, t.v)
  &&& forall|k: int| c <= k < s.len() ==> ent(g, m, h, m.len() - 1, #[trigger] s[k], t.v) && (s[k].value@.len() > 0 ==> nset(t.v, last_n(s[k].value@) as int) == nset(i1, last_n(s[k].value@) as int))
  &&& forall|k: int, j: int, y: Key<'a, T, NT, AK, AV>| #![trigger s[k], has(m, j, y)] c <= k < s.len() && s[k].value@.len() > 0 && has(m, j, y) && y.prod_state.index > 0 ==> own(m, j, y) < last_n(s[k].value@)
  &&& forall|k: int| 0 <= k < c ==> done(m, t.v, i1, #[trigger] s[k])
}
pub proof fn lemma_done_keep<'a, T, NT, AK, AV, V>(m: Seq<St<'a, T, NT, AK, AV, V>>, h: TreeHandle<'a, T, AK, V>, i: Inner<T, AK, V>, i1: Inner<T, AK, V>, s: EarleyState<'a, T, NT, AK, AV, V>, n: Seq<St<'a, T, NT, AK, AV, V>>, k: Inner<T, AK, V>)
  requires done(m, i, i1, s), tree_ok(m, i, h), ext(m, n), m.len() == n.len(), m.len() > 0, grows(i, k)
  ensures done(n, k, i1, s)
{
  let q = m.len() - 1;
  assert(has(m, q, s.key)); assert(has(n, q, s.key));
  if s.value@.len() > 0 {
    lemma_own_in(m, i, h, q, s.key);
    assert forall|c: AK, ks: Seq<usize>| #[trigger] branch_node(i1, last_n(s.value@), c, ks) implies has_branch(k, own(n, q, s.key), c, ks) by { lemma_has(i, k, own(m, q, s.key), c, ks); }
  }
}
pub proof fn lemma_branch_has<T, AK, V>(i: Inner<T, AK, V>, j: Inner<T, AK, V>, n: usize)
  requires grows(i, j)
  ensures forall|c: AK, ks: Seq<usize>| #[trigger] branch_node(i, n, c, ks) ==> has_branch(j, n, c, ks)
{
  assert forall|c: AK, ks: Seq<usize>| #[trigger] branch_node(i, n, c, ks) implies has_branch(j, n, c, ks) by {
    let b = choose|b: usize| #[trigger] one_alt(i, n, b) && is_branch(ialts(i)[b as int], c, ks);
    assert(nset(i, n as int).contains(b));
    assert(nset(j, n as int).contains(b));
    assert(ialts(j)[b as int] == ialts(i)[b as int]);
  }
}
pub proof fn lemma_ins_new<'a, T, NT, AK, AV, V>(g: &'a StartGrammar<T, NT, AK, AV>, m0: Seq<St<'a, T, NT, AK, AV, V>>, h: TreeHandle<'a, T, AK, V>, i0: Inner<T, AK, V>, i1: Inner<T, AK, V>, s: Seq<EarleyState<'a, T, NT, AK, AV, V>>, c: int, m: Seq<St<'a, T, NT, AK, AV, V>>, t: Tok<T, AK, V>)
  requires ins_inv(g, m0, h, i0, i1, s, c, m, t), 0 <= c < s.len(), !m.last().contains_key(s[c].key)
  ensures ins_inv(g, m0, h, i0, i1, s, c + 1, put(m, s[c]), t)
{
  hide(inner_wf); hide(tree_ok); hide(st_ok); hide(k_wf); hide(grows); hide(frame);
  let i = t.v;
  let n = put(m, s[c]);
  let q = m.len() - 1;
  lemma_grows(i, i, i);
  assert(ent(g, m, h, q, s[c], i));
  if s[c].value@.len() > 0 { assert forall|j: int, y: Key<'a, T, NT, AK, AV>| #[trigger] has(m, j, y) && y.prod_state.index > 0 implies own(m, j, y) < last_n(s[c].value@) by {} }
  lemma_put_new(g, m, h, s[c], i);
  assert forall|j: int, y: Key<'a, T, NT, AK, AV>| #[trigger] has(m0, j, y) implies has(n, j, y) && n[j][y] == m0[j][y] by { assert(has(m, j, y)); }
  assert forall|j: int, y: Key<'a, T, NT, AK, AV>| #[trigger] has(n, j, y) && y.prod_state.index > 0 && k_last(y) is Term implies has(m0, j, y) && n[j][y] == m0[j][y] && nset(i, own(m0, j, y) as int) == nset(i1, own(m0, j, y) as int) by { assert(has(m, j, y)); }
  assert forall|k: int| c + 1 <= k < s.len() implies ent(g, n, h, q, #[trigger] s[k], i) by { lemma_ent_keep(g, m, h, q, s[k], i, n, i); }
  assert forall|k: int, j: int, y: Key<'a, T, NT, AK, AV>| #![trigger s[k], has(n, j, y)] c + 1 <= k < s.len() && s[k].value@.len() > 0 && has(n, j, y) && y.prod_state.index > 0 implies own(n, j, y) < last_n(s[k].value@) by {
    if has(m, j, y) { assert(own(n, j, y) == own(m, j, y)); } else { lemma_val_len(n, i, h, q, s[c].key); }
  }
  assert forall|k: int| 0 <= k < c + 1 implies done(n, i, i1, #[trigger] s[k]) by {
    if k < c { lemma_done_keep(m, h, i, i1, s[k], n, i); }
    else {
      let v = s[c].value@;
      lemma_val_len(n, i, h, q, s[c].key);
      if v.len() > 0 {
        lemma_branch_has(i1, i, last_n(v));
      }
    }
  }
}
pub proof fn lemma_ins_old<'a, T, NT, AK, AV, V>(g: &'a StartGrammar<T, NT, AK, AV>, m0: Seq<St<'a, T, NT, AK, AV, V>>, h: TreeHandle<'a, T, AK, V>, i0: Inner<T, AK, V>, i1: Inner<T, AK, V>, s: Seq<EarleyState<'a, T, NT, AK, AV, V>>, c: int, m: Seq<St<'a, T, NT, AK, AV, V>>, t: Tok<T, AK, V>, u: Tok<T, AK, V>)
  requires
    ins_inv(g, m0, h, i0, i1, s, c, m, t), 0 <= c < s.len(), m.last().contains_key(s[c].key), h_ok(h, u),
    if s[c].value@.len() == 0 { u == t } else { merged(t.v, u.v, own(m, m.len() - 1, s[c].key), last_n(s[c].value@)) },
  ensures ins_inv(g, m0, h, i0, i1, s, c + 1, m, u)
{
  let (i, k0) = (t.v, u.v);
  let q = m.len() - 1;
  let y0 = s[c].key;
  let v = s[c].value@;
  lemma_grows(i, i, i);
  lemma_grows(i1, i, k0);
  assert(ent(g, m, h, q, s[c], i));
  assert(has(m, q, y0));
  let n0 = own(m, q, y0);
  lemma_put_ok(g, m, h, s[c], t);
  if v.len() > 0 {
    lemma_put_old(g, m, h, s[c], t, k0);
    lemma_own_in(m, i, h, q, y0);
    assert forall|j: int, y: Key<'a, T, NT, AK, AV>| #[trigger] has(m, j, y) && y.prod_state.index > 0 && k_last(y) is Term implies has(m0, j, y) && m[j][y] == m0[j][y] && nset(k0, own(m0, j, y) as int) == nset(i1, own(m0, j, y) as int) by { assert(has(m0, j, y)); assert(nset(k0, own(m, j, y) as int) == nset(i, own(m, j, y) as int)); }
  }
  assert forall|k: int| c + 1 <= k < s.len() implies ent(g, m, h, q, #[trigger] s[k], k0) && (s[k].value@.len() > 0 ==> nset(k0, last_n(s[k].value@) as int) == nset(i1, last_n(s[k].value@) as int)) by {
    if v.len() > 0 && s[k].value@.len() > 0 { assert(n0 < last_n(s[k].value@)); assert(nset(k0, last_n(s[k].value@) as int) == nset(i, last_n(s[k].value@) as int)); }
    lemma_ent_keep(g, m, h, q, s[k], i, m, k0);
  }
  assert forall|k: int| 0 <= k < c + 1 implies done(m, k0, i1, #[trigger] s[k]) by {
    if k < c { lemma_done_keep(m, h, i, i1, s[k], m, k0); }
    else if v.len() > 0 {
      assert forall|a: AK, ks: Seq<usize>| #[trigger] branch_node(i1, last_n(v), a, ks) implies has_branch(k0, n0, a, ks) by {
        let b = choose|b: usize| #[trigger] one_alt(i1, last_n(v), b) && is_branch(ialts(i1)[b as int], a, ks);
        assert(nset(i1, last_n(v) as int).contains(b));
        assert(nset(i, last_n(v) as int).contains(b));
        assert(nset(k0, n0 as int).contains(b));
        assert(ialts(k0)[b as int] == ialts(i1)[b as int]);
      }
    }
  }
}
/// All states follow from each other: those that were put in were there.
pub proof fn lemma_all_grown<'a, T, NT, AK, AV, V>(g: &'a StartGrammar<T, NT, AK, AV>, m0: Seq<St<'a, T, NT, AK, AV, V>>, h: TreeHandle<'a, T, AK, V>, i0: Inner<T, AK, V>, i1: Inner<T, AK, V>, xs: Seq<EarleyState<'a, T, NT, AK, AV, V>>, s: Seq<EarleyState<'a, T, NT, AK, AV, V>>, t: Tok<T, AK, V>)
  requires
    ins_inv(g, m0, h, i0, i1, s, s.len() as int, m0, t), flat_ok(g, m0, h, i0, xs, xs.len() as int, s, i1),
    forall|x: Key<'a, T, NT, AK, AV>| #[trigger] m0.last().contains_key(x) ==> exists|k: int| 0 <= k < xs.len() && (#[trigger] xs[k]).key == x && xs[k].value == m0.last()[x],
  ensures grown(m0, t.v, m0.len() - 1)
{
  let q = m0.len() - 1;
  assert forall|x: Key<'a, T, NT, AK, AV>, z: Key<'a, T, NT, AK, AV>, y: Key<'a, T, NT, AK, AV>| has(m0, q, x) && has(m0, x.origin_index as int, z) && has(m0, q, y) && #[trigger] k_comp(x, z, y) implies grown_by(m0, t.v, q, x, y) by {
    let k = choose|k: int| 0 <= k < xs.len() && (#[trigger] xs[k]).key == x && xs[k].value == m0.last()[x];
    assert(k_comp(xs[k].key, z, y));
    let l = choose|l: int| 0 <= l < s.len() && comp_at(#[trigger] s[l], i1, y, k_act(x), idxs(vals(m0, q, x)));
    assert(done(m0, t.v, i1, s[l]));
  }
}
pub proof fn lemma_frame<T, AK, V>(a: Inner<T, AK, V>, b: Inner<T, AK, V>, c: Inner<T, AK, V>)
  requires frame(a, b, -1), frame(b, c, -1), grows(a, b), grows(b, c)
  ensures frame(a, c, -1), grows(a, c)
{
  lemma_grows(a, b, c);
  assert forall|x: int| #![trigger nset(a, x)] #![trigger nset(c, x)] 0 <= x < a.nodes@.len() && x != -1 implies nset(c, x) == nset(a, x) by { assert(nset(b, x) == nset(a, x)); }
}
pub open spec fn lists<'a, T, NT, AK, AV, V>(xs: Seq<EarleyState<'a, T, NT, AK, AV, V>>, st: &EarleyStateSet<'a, T, NT, AK, AV, V>) -> bool { forall|s: EarleyState<'a, T, NT, AK, AV, V>| #[trigger] xs.contains(s) == (st.states@.contains_key(s.key) && st.states@[s.key] == s.value) }
pub proof fn lemma_tree_wf<'a, T, NT, AK, AV, V>(prev: Seq<EarleyStateSet<'a, T, NT, AK, AV, V>>, st: &EarleyStateSet<'a, T, NT, AK, AV, V>, i: Inner<T, AK, V>, h: TreeHandle<'a, T, AK, V>)
  requires tree_ok(maps(prev, st), i, h)
  ensures set_wf(st, h), o_ok(st, prev.len() as int), prev_ok(prev, h)
{
  let m = maps(prev, st);
  let n = prev.len() as int;
  assert(m[n] == st.states@);
  assert forall|k: Key<'a, T, NT, AK, AV>| #[trigger] st.states@.contains_key(k) implies k_wf(k) && v_wf(k, st.states@[k]@, h) && k.origin_index <= n by { assert(has(m, n, k)); assert(st_ok(m, i, h, n, k)); }
  assert forall|j: int| 0 <= j < n implies set_wf(#[trigger] &prev[j], h) && o_ok(&prev[j], j) by {
    assert(m[j] == prev[j].states@);
    assert forall|k: Key<'a, T, NT, AK, AV>| #[trigger] prev[j].states@.contains_key(k) implies k_wf(k) && v_wf(k, prev[j].states@[k]@, h) && k.origin_index <= j by { assert(has(m, j, k)); assert(st_ok(m, i, h, j, k)); }
  }
}
pub proof fn lemma_listed<'a, T, NT, AK, AV, V>(prev: Seq<EarleyStateSet<'a, T, NT, AK, AV, V>>, st: &EarleyStateSet<'a, T, NT, AK, AV, V>, i: Inner<T, AK, V>, h: TreeHandle<'a, T, AK, V>, xs: Seq<EarleyState<'a, T, NT, AK, AV, V>>, k: int)
  requires tree_ok(maps(prev, st), i, h), lists(xs, st), 0 <= k < xs.len()
  ensures
    s_wf(xs[k], h), xs[k].key.origin_index <= prev.len(), v_in(xs[k].value@, i), maps(prev, st).last().contains_key(xs[k].key), maps(prev, st).last()[xs[k].key] == xs[k].value,
    set_at(prev, st, xs[k].key.origin_index as int).states@ == maps(prev, st)[xs[k].key.origin_index as int], maps(prev, st).len() == prev.len() + 1,
{
  let m = maps(prev, st);
  let n = prev.len() as int;
  assert(m.last() == st.states@);
  assert(xs.contains(xs[k]));
  assert(has(m, n, xs[k].key));
  assert(st_ok(m, i, h, n, xs[k].key));
}
pub proof fn lemma_flat_start<'a, T, NT, AK, AV, V>(g: &'a StartGrammar<T, NT, AK, AV>, m: Seq<St<'a, T, NT, AK, AV, V>>, h: TreeHandle<'a, T, AK, V>, i: Inner<T, AK, V>, xs: Seq<EarleyState<'a, T, NT, AK, AV, V>>, out: Seq<EarleyState<'a, T, NT, AK, AV, V>>)
  requires out.len() == 0
  ensures flat_ok(g, m, h, i, xs, 0, out, i), grows(i, i), frame(i, i, -1)
{ lemma_grows(i, i, i); }
pub proof fn lemma_ins_start<'a, T, NT, AK, AV, V>(g: &'a StartGrammar<T, NT, AK, AV>, m: Seq<St<'a, T, NT, AK, AV, V>>, h: TreeHandle<'a, T, AK, V>, i0: Inner<T, AK, V>, xs: Seq<EarleyState<'a, T, NT, AK, AV, V>>, out: Seq<EarleyState<'a, T, NT, AK, AV, V>>, t: Tok<T, AK, V>)
  requires m.len() > 0, inner_wf(i0), tree_ok(m, i0, h), apart(m), h_ok(h, t), grows(i0, t.v), frame(i0, t.v, -1), flat_ok(g, m, h, i0, xs, xs.len() as int, out, t.v)
  ensures ins_inv(g, m, h, i0, t.v, out, 0, m, t), leaf_keep(m, i0, m, t.v), ext(m, m)
{
  let i1 = t.v;
  lemma_new_nodes(m, i0, i1, h);
  lemma_grows(i1, i1, i1);
  assert forall|k: int, j: int, y: Key<'a, T, NT, AK, AV>| #![trigger out[k], has(m, j, y)] 0 <= k < out.len() && out[k].value@.len() > 0 && has(m, j, y) && y.prod_state.index > 0 implies own(m, j, y) < last_n(out[k].value@) by { lemma_own_in(m, i0, h, j, y); }
}
/// Putting in the entry `c`.
pub proof fn lemma_ins_pre<'a, T, NT, AK, AV, V>(g: &'a StartGrammar<T, NT, AK, AV>, prev: Seq<EarleyStateSet<'a, T, NT, AK, AV, V>>, st: &EarleyStateSet<'a, T, NT, AK, AV, V>, m0: Seq<St<'a, T, NT, AK, AV, V>>, h: TreeHandle<'a, T, AK, V>, i0: Inner<T, AK, V>, i1: Inner<T, AK, V>, s: Seq<EarleyState<'a, T, NT, AK, AV, V>>, c: int, t: Tok<T, AK, V>)
  requires ins_inv(g, m0, h, i0, i1, s, c, maps(prev, st), t), 0 <= c < s.len()
  ensures st.states@.contains_key(s[c].key) ==> ins_ok(st.states@[s[c].key]@, s[c].value@, t), h_ok(h, t), key_in(s, s[c].key)
{
  let m = maps(prev, st);
  assert(m.last() == st.states@);
  assert(ent(g, m, h, m.len() - 1, s[c], t.v));
  if st.states@.contains_key(s[c].key) { lemma_put_ok(g, m, h, s[c], t); }
}
pub proof fn lemma_ins_step<'a, T, NT, AK, AV, V>(g: &'a StartGrammar<T, NT, AK, AV>, prev: Seq<EarleyStateSet<'a, T, NT, AK, AV, V>>, sb: &EarleyStateSet<'a, T, NT, AK, AV, V>, st: &EarleyStateSet<'a, T, NT, AK, AV, V>, m0: Seq<St<'a, T, NT, AK, AV, V>>, h: TreeHandle<'a, T, AK, V>, i0: Inner<T, AK, V>, i1: Inner<T, AK, V>, s: Seq<EarleyState<'a, T, NT, AK, AV, V>>, c: int, t: Tok<T, AK, V>, u: Tok<T, AK, V>)
  requires
    ins_inv(g, m0, h, i0, i1, s, c, maps(prev, sb), t), 0 <= c < s.len(),
    sb.states@.contains_key(s[c].key) ==> st.states@ == sb.states@ && u.of@ == t.of@ && (inner_wf(t.v) ==> inner_wf(u.v)),
    sb.states@.contains_key(s[c].key) && s[c].value@.len() == 0 ==> u == t,
    sb.states@.contains_key(s[c].key) && s[c].value@.len() > 0 ==> merged(t.v, u.v, last_n(sb.states@[s[c].key]@), last_n(s[c].value@)),
    !sb.states@.contains_key(s[c].key) ==> st.states@ == sb.states@.insert(s[c].key, s[c].value) && u == t,
  ensures ins_inv(g, m0, h, i0, i1, s, c + 1, maps(prev, st), u), t_step(t, u)
{
  let mb = maps(prev, sb);
  lemma_grows(t.v, t.v, t.v);
  assert(mb.last() == sb.states@);
  if sb.states@.contains_key(s[c].key) {
    assert(maps(prev, st) =~= mb);
    lemma_ins_old(g, m0, h, i0, i1, s, c, mb, t, u);
  } else {
    assert(maps(prev, st) =~= put(mb, s[c]));
    lemma_ins_new(g, m0, h, i0, i1, s, c, mb, t);
  }
}
pub proof fn lemma_ins_out<'a, T, NT, AK, AV, V>(g: &'a StartGrammar<T, NT, AK, AV>, m0: Seq<St<'a, T, NT, AK, AV, V>>, h: TreeHandle<'a, T, AK, V>, i0: Inner<T, AK, V>, i1: Inner<T, AK, V>, s: Seq<EarleyState<'a, T, NT, AK, AV, V>>, c: int, m: Seq<St<'a, T, NT, AK, AV, V>>, t: Tok<T, AK, V>)
  requires ins_inv(g, m0, h, i0, i1, s, c, m, t)
  ensures ext(m0, m), tree_ok(m, t.v, h), apart(m), leaf_keep(m0, i1, m, t.v), h_ok(h, t)
{}
pub proof fn lemma_ext_same<'a, T, NT, AK, AV, V>(prev: Seq<EarleyStateSet<'a, T, NT, AK, AV, V>>, a: &EarleyStateSet<'a, T, NT, AK, AV, V>, b: &EarleyStateSet<'a, T, NT, AK, AV, V>)
  requires ext(maps(prev, a), maps(prev, b)), keys(a) == keys(b)
  ensures maps(prev, a) == maps(prev, b)
{
  let n = prev.len() as int;
  assert(maps(prev, a)[n] == a.states@ && maps(prev, b)[n] == b.states@);
  assert forall|k: Key<'a, T, NT, AK, AV>| a.states@.contains_key(k) implies #[trigger] b.states@[k] == a.states@[k] by { assert(has(maps(prev, a), n, k)); assert(has(maps(prev, b), n, k)); }
  assert(a.states@ =~= b.states@);
  assert(maps(prev, a) =~= maps(prev, b));
}
/// The new states follow from those that were there.
pub proof fn lemma_round_min<'a, T, NT, AK, AV, V>(g: &'a StartGrammar<T, NT, AK, AV>, prev: Seq<EarleyStateSet<'a, T, NT, AK, AV, V>>, st: &EarleyStateSet<'a, T, NT, AK, AV, V>, st0: &EarleyStateSet<'a, T, NT, AK, AV, V>, st1: &EarleyStateSet<'a, T, NT, AK, AV, V>, h: TreeHandle<'a, T, AK, V>, i0: Inner<T, AK, V>, i1: Inner<T, AK, V>, out: Seq<EarleyState<'a, T, NT, AK, AV, V>>, xs: Seq<EarleyState<'a, T, NT, AK, AV, V>>)
  requires
    flat_ok(g, maps(prev, st0), h, i0, xs, xs.len() as int, out, i1),
    forall|k: Key<'a, T, NT, AK, AV>| #[trigger] keys(st1).contains(k) ==> keys(st0).contains(k) || key_in(out, k),
    forall|s: ISet<Key<'a, T, NT, AK, AV>>| #[trigger] pc_closed(g, prev, s) && ikeys(st).subset_of(s) ==> ikeys(st0).subset_of(s),
  ensures forall|s: ISet<Key<'a, T, NT, AK, AV>>| #[trigger] pc_closed(g, prev, s) && ikeys(st).subset_of(s) ==> ikeys(st1).subset_of(s)
{
  let n = prev.len() as int;
  let m0 = maps(prev, st0);
  assert forall|s: ISet<Key<'a, T, NT, AK, AV>>| #[trigger] pc_closed(g, prev, s) && ikeys(st).subset_of(s) implies ikeys(st1).subset_of(s) by {
    assert(ikeys(st0).subset_of(s));
    assert forall|k: Key<'a, T, NT, AK, AV>| keys(st1).contains(k) implies s.contains(k) by {
      if !keys(st0).contains(k) {
        let i = choose|i: int| 0 <= i < out.len() && (#[trigger] out[i]).key == k;
        let e = out[i];
        assert(ent(g, m0, h, n, out[i], i1));
        if e.value@.len() == 0 {
          let (x, p) = choose|x: Key<'a, T, NT, AK, AV>, p: int| #[trigger] pent(g, m0, n, e, x, p);
          assert(ikeys(st0).contains(x));
        } else {
          let (x, z) = choose|x: Key<'a, T, NT, AK, AV>, z: Key<'a, T, NT, AK, AV>| #[trigger] cent(m0, n, e, i1, x, z);
          assert(ikeys(st0).contains(x));
          if x.origin_index == n { assert(ikeys(st0).contains(z)); }
          assert(waiting(prev, s, x.origin_index as int, z));
        }
      } else { assert(ikeys(st0).contains(k)); }
    }
  }
}
pub proof fn lemma_round_keep<'a, T, NT, AK, AV, V>(ma: Seq<St<'a, T, NT, AK, AV, V>>, ia: Inner<T, AK, V>, m0: Seq<St<'a, T, NT, AK, AV, V>>, i1: Inner<T, AK, V>, m: Seq<St<'a, T, NT, AK, AV, V>>, i: Inner<T, AK, V>)
  requires ext(ma, m0), ext(m0, m), leaf_keep(ma, ia, m0, i1), leaf_keep(m0, i1, m, i)
  ensures ext(ma, m), leaf_keep(ma, ia, m, i)
{
  assert forall|j: int, y: Key<'a, T, NT, AK, AV>| #[trigger] has(ma, j, y) implies has(m, j, y) && m[j][y] == ma[j][y] by { assert(has(m0, j, y)); }
  assert forall|j: int, y: Key<'a, T, NT, AK, AV>| #[trigger] has(m, j, y) && y.prod_state.index > 0 && k_last(y) is Term implies has(ma, j, y) && m[j][y] == ma[j][y] && nset(i, own(ma, j, y) as int) == nset(ia, own(ma, j, y) as int) by { assert(has(m0, j, y)); }
}
/// A round that adds no state ends the closing.
pub proof fn lemma_round_done<'a, T, NT, AK, AV, V>(g: &'a StartGrammar<T, NT, AK, AV>, prev: Seq<EarleyStateSet<'a, T, NT, AK, AV, V>>, st: &EarleyStateSet<'a, T, NT, AK, AV, V>, h: TreeHandle<'a, T, AK, V>, i0: Inner<T, AK, V>, i1: Inner<T, AK, V>, xs: Seq<EarleyState<'a, T, NT, AK, AV, V>>, out: Seq<EarleyState<'a, T, NT, AK, AV, V>>, t: Tok<T, AK, V>)
  requires
    ins_inv(g, maps(prev, st), h, i0, i1, out, out.len() as int, maps(prev, st), t), flat_ok(g, maps(prev, st), h, i0, xs, xs.len() as int, out, i1),
    lists(xs, st),
  ensures pc_closed(g, prev, ikeys(st)), grown(maps(prev, st), t.v, prev.len() as int)
{
  let n = prev.len() as int;
  let m = maps(prev, st);
  let s = ikeys(st);
  assert(m.last() == st.states@);
  assert forall|x: Key<'a, T, NT, AK, AV>| #[trigger] m.last().contains_key(x) implies exists|k: int| 0 <= k < xs.len() && (#[trigger] xs[k]).key == x && xs[k].value == m.last()[x] by {
    let a = EarleyState { key: x, value: st.states@[x] };
    assert(xs.contains(a));
    assert(xs[xs.index_of(a)] == a);
  }
  lemma_all_grown(g, m, h, i0, i1, xs, out, t);
  assert forall|x: Key<'a, T, NT, AK, AV>, i: int, y: Key<'a, T, NT, AK, AV>| s.contains(x) && #[trigger] k_pred(g, x, n, i, y) implies s.contains(y) by {
    assert(m.last().contains_key(x));
    let k = choose|k: int| 0 <= k < xs.len() && (#[trigger] xs[k]).key == x;
    assert(k_pred(g, xs[k].key, m.len() - 1, i, y));
    assert(key_in(out, y));
    let l = choose|l: int| 0 <= l < out.len() && (#[trigger] out[l]).key == y;
    assert(done(m, t.v, i1, out[l]));
  }
  assert forall|x: Key<'a, T, NT, AK, AV>, z: Key<'a, T, NT, AK, AV>, y: Key<'a, T, NT, AK, AV>| s.contains(x) && waiting(prev, s, x.origin_index as int, z) && #[trigger] k_comp(x, z, y) implies s.contains(y) by {
    assert(m.last().contains_key(x));
    assert(has(m, n, x)); assert(st_ok(m, t.v, h, n, x));
    let k = choose|k: int| 0 <= k < xs.len() && (#[trigger] xs[k]).key == x && xs[k].value == m.last()[x];
    assert(has(m, xs[k].key.origin_index as int, z));
    assert(k_comp(xs[k].key, z, y));
    let l = choose|l: int| 0 <= l < out.len() && comp_at(#[trigger] out[l], i1, y, k_act(x), idxs(xs[k].value@));
    assert(done(m, t.v, i1, out[l]));
  }
}
pub proof fn lemma_maps<'a, T, NT, AK, AV, V>(prev: Seq<EarleyStateSet<'a, T, NT, AK, AV, V>>, st: &EarleyStateSet<'a, T, NT, AK, AV, V>) ensures maps(prev, st).len() == prev.len() + 1 {}
pub proof fn lemma_self<'a, T, NT, AK, AV, V>(m: Seq<St<'a, T, NT, AK, AV, V>>, i: Inner<T, AK, V>) ensures ext(m, m), leaf_keep(m, i, m, i) {}
pub proof fn lemma_prev_wf<'a, T, NT, AK, AV, V>(prev: Seq<EarleyStateSet<'a, T, NT, AK, AV, V>>, h: TreeHandle<'a, T, AK, V>) requires prev_ok(prev, h) ensures forall|i: int| 0 <= i < prev.len() ==> set_wf(#[trigger] &prev[i], h) {}
pub proof fn lemma_lists_same<'a, T, NT, AK, AV, V>(xs: Seq<EarleyState<'a, T, NT, AK, AV, V>>, a: &EarleyStateSet<'a, T, NT, AK, AV, V>, b: &EarleyStateSet<'a, T, NT, AK, AV, V>, prev: Seq<EarleyStateSet<'a, T, NT, AK, AV, V>>)
  requires lists(xs, a), maps(prev, a) == maps(prev, b)
  ensures lists(xs, b)
{ assert(maps(prev, a)[prev.len() as int] == a.states@ && maps(prev, b)[prev.len() as int] == b.states@); }
// ---- closing a set ends
pub open spec fn vec_of<A>(s: Seq<A>) -> Vector<A> { choose|v: Vector<A>| v@ == s }
pub open spec fn u_mk<'a, T, NT, AK, AV>(p: Prod<'a, StreamTerminal<T>, StartNonTerminal<NT>, StartActionKey<AK>, StartActionValue<AV>>, i: int, o: int, co: Seq<usize>) -> Key<'a, T, NT, AK, AV> {
  EarleyStateKey { prod_state: ProdState { prod: p, index: i as usize }, origin_index: o as usize, child_origins: vec_of(co) }
}
/// `z` past its next element, which started at `o`.
pub open spec fn u_adv<'a, T, NT, AK, AV>(z: Key<'a, T, NT, AK, AV>, o: int) -> Key<'a, T, NT, AK, AV> {
  if z.prod_state.index < k_elems(z).len() { u_mk(z.prod_state.prod, z.prod_state.index + 1, z.origin_index as int, z.child_origins@.push(o as usize)) } else { z }
}
pub proof fn lemma_u_adv<'a, T, NT, AK, AV>(z: Key<'a, T, NT, AK, AV>, o: usize, y: Key<'a, T, NT, AK, AV>)
  requires k_next(z) is Some, k_adv(z, z.child_origins@.push(o), y)
  ensures y == u_adv(z, o as int)
{
  let co = z.child_origins@.push(o);
  let v = ax_vector_of(co);
  assert(vec_of(co)@ == co);
  ax_vector_ext(y.child_origins, vec_of(co));
}
pub open spec fn u_start<'a, T, NT, AK, AV>(g: &'a StartGrammar<T, NT, AK, AV>, b: StartNonTerminal<NT>, i: int, n: int) -> Key<'a, T, NT, AK, AV> { u_mk(mk_prod(g, &g.rule_set@[b].head, &g.rule_set@[b].prods@[i]), 0, n, Seq::empty()) }
pub open spec fn u_rule<'a, T, NT, AK, AV>(g: &'a StartGrammar<T, NT, AK, AV>, b: StartNonTerminal<NT>, n: int) -> Seq<Key<'a, T, NT, AK, AV>> { Seq::new(g.rule_set@[b].prods@.len(), |i: int| u_start(g, b, i, n)) }
pub open spec fn u_rules<'a, T, NT, AK, AV>(g: &'a StartGrammar<T, NT, AK, AV>, n: int) -> Seq<Seq<Key<'a, T, NT, AK, AV>>> { Seq::new(vx_set_seq(g.rule_set@.dom()).len(), |j: int| u_rule(g, vx_set_seq(g.rule_set@.dom())[j], n)) }
pub proof fn lemma_u_start<'a, T, NT, AK, AV>(g: &'a StartGrammar<T, NT, AK, AV>, x: Key<'a, T, NT, AK, AV>, n: int, i: int, y: Key<'a, T, NT, AK, AV>)
  requires k_pred(g, x, n, i, y)
  ensures vx_cat(u_rules(g, n)).contains(y)
{
  let b = match k_next(x) { Some(Elem::NonTerm(b)) => b, _ => arbitrary() };
  let v = ax_vector_of(Seq::<usize>::empty());
  assert(vec_of(Seq::<usize>::empty())@ == Seq::<usize>::empty());
  assert(y.child_origins@ =~= Seq::<usize>::empty());
  ax_vector_ext(y.child_origins, vec_of(Seq::<usize>::empty()));
  assert(y == u_start(g, b, i, n));
  let d = vx_set_seq(g.rule_set@.dom());
  ax_set_seq_contains(g.rule_set@.dom(), b);
  let j = d.index_of(b);
  assert(u_rule(g, b, n)[i] == y);
  assert(u_rules(g, n)[j] == u_rule(g, b, n));
  lemma_cat_contains(u_rules(g, n), y);
}
pub open spec fn u_prev<'a, T, NT, AK, AV, V>(prev: Seq<EarleyStateSet<'a, T, NT, AK, AV, V>>) -> Seq<Seq<Key<'a, T, NT, AK, AV>>> { Seq::new(prev.len(), |j: int| vx_set_seq(keys(&prev[j]))) }
/// Where all keys come from: those that are there, and the starts of all productions.
pub open spec fn u_base<'a, T, NT, AK, AV, V>(g: &'a StartGrammar<T, NT, AK, AV>, prev: Seq<EarleyStateSet<'a, T, NT, AK, AV, V>>, e: Set<Key<'a, T, NT, AK, AV>>) -> Seq<Key<'a, T, NT, AK, AV>> {
  vx_set_seq(e) + vx_cat(u_rules(g, prev.len() as int)) + vx_cat(u_prev(prev))
}
pub open spec fn u_advs<'a, T, NT, AK, AV>(z: Key<'a, T, NT, AK, AV>, n: int) -> Seq<Key<'a, T, NT, AK, AV>> { Seq::new((n + 1) as nat, |o: int| u_adv(z, o)) }
pub open spec fn u_nexts<'a, T, NT, AK, AV>(s: Seq<Key<'a, T, NT, AK, AV>>, n: int) -> Seq<Seq<Key<'a, T, NT, AK, AV>>> { Seq::new(s.len(), |i: int| u_advs(s[i], n)) }
/// `i` steps on.
pub open spec fn u_level<'a, T, NT, AK, AV>(b: Seq<Key<'a, T, NT, AK, AV>>, n: int, i: nat) -> Seq<Key<'a, T, NT, AK, AV>> decreases i { if i == 0 { b } else { vx_cat(u_nexts(u_level(b, n, (i - 1) as nat), n)) } }
/// The longest production.
pub open spec fn u_max<'a, T, NT, AK, AV>(b: Seq<Key<'a, T, NT, AK, AV>>) -> nat decreases b.len() { if b.len() == 0 { 0 } else if k_elems(b.last()).len() > u_max(b.drop_last()) { k_elems(b.last()).len() } else { u_max(b.drop_last()) } }
pub proof fn lemma_u_max<'a, T, NT, AK, AV>(b: Seq<Key<'a, T, NT, AK, AV>>, i: int)
  requires 0 <= i < b.len()
  ensures k_elems(b[i]).len() <= u_max(b)
  decreases b.len()
{ if i < b.len() - 1 { assert(b.drop_last()[i] == b[i]); lemma_u_max(b.drop_last(), i); } }
pub open spec fn u_levels<'a, T, NT, AK, AV>(b: Seq<Key<'a, T, NT, AK, AV>>, n: int) -> Seq<Seq<Key<'a, T, NT, AK, AV>>> { Seq::new(u_max(b) + 1, |i: int| u_level(b, n, i as nat)) }
/// Finitely many keys, closed under prediction and completion.
pub open spec fn u_all<'a, T, NT, AK, AV, V>(g: &'a StartGrammar<T, NT, AK, AV>, prev: Seq<EarleyStateSet<'a, T, NT, AK, AV, V>>, e: Set<Key<'a, T, NT, AK, AV>>) -> Set<Key<'a, T, NT, AK, AV>> { vx_cat(u_levels(u_base(g, prev, e), prev.len() as int)).to_set() }
pub proof fn lemma_u_level<'a, T, NT, AK, AV>(b: Seq<Key<'a, T, NT, AK, AV>>, n: int, i: nat, z: Key<'a, T, NT, AK, AV>)
  requires u_level(b, n, i).contains(z), forall|k: int| 0 <= k < b.len() ==> (#[trigger] b[k]).origin_index <= n
  ensures k_elems(z).len() <= u_max(b), z.origin_index <= n, z.prod_state.index >= i || z.prod_state.index >= k_elems(z).len()
  decreases i
{
  if i == 0 { let k = b.index_of(z); lemma_u_max(b, k); assert(b[k] == z); }
  else {
    let s = u_level(b, n, (i - 1) as nat);
    lemma_cat_contains(u_nexts(s, n), z);
    let k = choose|k: int| 0 <= k < u_nexts(s, n).len() && (#[trigger] u_nexts(s, n)[k]).contains(z);
    assert(u_nexts(s, n)[k] == u_advs(s[k], n));
    let o = u_advs(s[k], n).index_of(z);
    assert(z == u_adv(s[k], o));
    assert(s.contains(s[k]));
    lemma_u_level(b, n, (i - 1) as nat, s[k]);
    lemma_vec_len(s[k].prod_state.prod.prod.elements);
  }
}
pub proof fn lemma_u_in<'a, T, NT, AK, AV, V>(g: &'a StartGrammar<T, NT, AK, AV>, prev: Seq<EarleyStateSet<'a, T, NT, AK, AV, V>>, e: Set<Key<'a, T, NT, AK, AV>>, i: nat, z: Key<'a, T, NT, AK, AV>)
  requires i <= u_max(u_base(g, prev, e)), u_level(u_base(g, prev, e), prev.len() as int, i).contains(z)
  ensures u_all(g, prev, e).contains(z)
{
  let (b, n) = (u_base(g, prev, e), prev.len() as int);
  assert(u_levels(b, n)[i as int] == u_level(b, n, i));
  lemma_cat_contains(u_levels(b, n), z);
}
pub proof fn lemma_u_base<'a, T, NT, AK, AV, V>(g: &'a StartGrammar<T, NT, AK, AV>, prev: Seq<EarleyStateSet<'a, T, NT, AK, AV, V>>, e: Set<Key<'a, T, NT, AK, AV>>, h: TreeHandle<'a, T, AK, V>, k: int)
  requires prev_ok(prev, h), prev.len() <= usize::MAX, forall|x: Key<'a, T, NT, AK, AV>| #[trigger] e.contains(x) ==> x.origin_index <= prev.len(), 0 <= k < u_base(g, prev, e).len()
  ensures u_base(g, prev, e)[k].origin_index <= prev.len()
{
  let n = prev.len() as int;
  let b = u_base(g, prev, e);
  let z = b[k];
  assert(b.contains(z));
  let (p, q, r) = (vx_set_seq(e), vx_cat(u_rules(g, n)), vx_cat(u_prev(prev)));
  lemma_add_contains(p + q, r, z); lemma_add_contains(p, q, z);
  ax_set_seq_contains(e, z);
  lemma_cat_contains(u_rules(g, n), z);
  lemma_cat_contains(u_prev(prev), z);
  if q.contains(z) {
    let j = choose|j: int| 0 <= j < u_rules(g, n).len() && (#[trigger] u_rules(g, n)[j]).contains(z);
    let w = vx_set_seq(g.rule_set@.dom())[j];
    assert(u_rules(g, n)[j] == u_rule(g, w, n));
    let i = u_rule(g, w, n).index_of(z);
    assert(z == u_start(g, w, i, n));
  }
  if r.contains(z) {
    let j = choose|j: int| 0 <= j < u_prev(prev).len() && (#[trigger] u_prev(prev)[j]).contains(z);
    ax_set_seq_contains(keys(&prev[j]), z);
    assert(o_ok(&prev[j], j));
  }
}
pub open spec fn iset_of<A>(s: Set<A>) -> ISet<A> { ISet::new(|a: A| s.contains(a)) }
pub proof fn lemma_u_all<'a, T, NT, AK, AV, V>(g: &'a StartGrammar<T, NT, AK, AV>, prev: Seq<EarleyStateSet<'a, T, NT, AK, AV, V>>, st: &EarleyStateSet<'a, T, NT, AK, AV, V>, h: TreeHandle<'a, T, AK, V>)
  requires prev_ok(prev, h), prev.len() <= usize::MAX, o_ok(st, prev.len() as int)
  ensures pc_closed(g, prev, iset_of(u_all(g, prev, keys(st)))), ikeys(st).subset_of(iset_of(u_all(g, prev, keys(st))))
{
  let e = keys(st);
  let n = prev.len() as int;
  let b = u_base(g, prev, e);
  let u = u_all(g, prev, e);
  let (p, q, r) = (vx_set_seq(e), vx_cat(u_rules(g, n)), vx_cat(u_prev(prev)));
  assert forall|k: int| 0 <= k < b.len() implies (#[trigger] b[k]).origin_index <= n by { lemma_u_base(g, prev, e, h, k); }
  assert forall|x: Key<'a, T, NT, AK, AV>| e.contains(x) implies #[trigger] u.contains(x) by {
    ax_set_seq_contains(e, x);
    lemma_add_contains(p + q, r, x); lemma_add_contains(p, q, x);
    lemma_u_in(g, prev, e, 0, x);
  }
  assert forall|x: Key<'a, T, NT, AK, AV>, i: int, y: Key<'a, T, NT, AK, AV>| u.contains(x) && #[trigger] k_pred(g, x, n, i, y) implies u.contains(y) by {
    lemma_u_start(g, x, n, i, y);
    lemma_add_contains(p + q, r, y); lemma_add_contains(p, q, y);
    lemma_u_in(g, prev, e, 0, y);
  }
  assert forall|x: Key<'a, T, NT, AK, AV>, z: Key<'a, T, NT, AK, AV>, y: Key<'a, T, NT, AK, AV>| u.contains(x) && waiting(prev, iset_of(u), x.origin_index as int, z) && #[trigger] k_comp(x, z, y) implies u.contains(y) by {
    lemma_u_adv(z, x.origin_index, y);
    lemma_cat_contains(u_levels(b, n), x);
    let l = choose|l: int| 0 <= l < u_levels(b, n).len() && (#[trigger] u_levels(b, n)[l]).contains(x);
    assert(u_levels(b, n)[l] == u_level(b, n, l as nat));
    lemma_u_level(b, n, l as nat, x);
    let i: nat = if x.origin_index == n {
      lemma_cat_contains(u_levels(b, n), z);
      let m = choose|m: int| 0 <= m < u_levels(b, n).len() && (#[trigger] u_levels(b, n)[m]).contains(z);
      assert(u_levels(b, n)[m] == u_level(b, n, m as nat));
      m as nat
    } else {
      let j = x.origin_index as int;
      ax_set_seq_contains(keys(&prev[j]), z);
      assert(u_prev(prev)[j] == vx_set_seq(keys(&prev[j])));
      lemma_cat_contains(u_prev(prev), z);
      lemma_add_contains(p + q, r, z);
      0
    };
    let s = u_level(b, n, i);
    assert(s.contains(z));
    lemma_u_level(b, n, i, z);
    let k = s.index_of(z);
    assert(u_advs(z, n)[x.origin_index as int] == y);
    assert(u_nexts(s, n)[k] == u_advs(z, n));
    lemma_cat_contains(u_nexts(s, n), y);
    lemma_u_in(g, prev, e, i + 1, y);
  }
}
pub open spec fn pairs<A, B>(a: Set<A>, b: Set<B>) -> Set<(A, B)> { a.map(|x: A| b.map(|y: B| (x, y))).flatten() }
pub proof fn lemma_pairs<A, B>(a: Set<A>, b: Set<B>, x: A, y: B)
  ensures pairs(a, b).contains((x, y)) == (a.contains(x) && b.contains(y))
{
  let s = a.map(|x: A| b.map(|y: B| (x, y)));
  vstd::set::Set::lemma_flatten_contains(s, (x, y));
  if a.contains(x) && b.contains(y) { let r = b.map(|y: B| (x, y)); assert(s.contains(r)); assert(r.contains((x, y))); }
  if pairs(a, b).contains((x, y)) { let r = choose|r: Set<(A, B)>| s.contains(r) && r.contains((x, y)); assert(s.contains(r)); }
}
/// The pairs of states whose second hasn't the first as an alternative.
pub open spec fn miss<'a, T, NT, AK, AV, V>(m: Seq<St<'a, T, NT, AK, AV, V>>, i: Inner<T, AK, V>) -> Set<(Key<'a, T, NT, AK, AV>, Key<'a, T, NT, AK, AV>)> {
  pairs(m.last().dom(), m.last().dom()).filter(|p: (Key<'a, T, NT, AK, AV>, Key<'a, T, NT, AK, AV>)| p.1.prod_state.index > 0 && !grown_by(m, i, m.len() - 1, p.0, p.1))
}
/// `y` has `x` as an alternative now.
pub open spec fn gained<'a, T, NT, AK, AV, V>(m: Seq<St<'a, T, NT, AK, AV, V>>, i: Inner<T, AK, V>, j: Inner<T, AK, V>, x: Key<'a, T, NT, AK, AV>, y: Key<'a, T, NT, AK, AV>) -> bool {
  m.last().contains_key(x) && m.last().contains_key(y) && y.prod_state.index > 0 && !grown_by(m, i, m.len() - 1, x, y) && grown_by(m, j, m.len() - 1, x, y)
}
/// There is a new state, or some state has an alternative more.
pub open spec fn ahead<'a, T, NT, AK, AV, V>(m0: Seq<St<'a, T, NT, AK, AV, V>>, m: Seq<St<'a, T, NT, AK, AV, V>>, i: Inner<T, AK, V>, j: Inner<T, AK, V>) -> bool {
  (exists|k: Key<'a, T, NT, AK, AV>| #[trigger] m.last().contains_key(k) && !m0.last().contains_key(k)) || exists|x: Key<'a, T, NT, AK, AV>, y: Key<'a, T, NT, AK, AV>| #[trigger] gained(m0, i, j, x, y)
}
pub proof fn lemma_miss<'a, T, NT, AK, AV, V>(m: Seq<St<'a, T, NT, AK, AV, V>>, i: Inner<T, AK, V>, j: Inner<T, AK, V>, h: TreeHandle<'a, T, AK, V>, x: Key<'a, T, NT, AK, AV>, y: Key<'a, T, NT, AK, AV>)
  requires m.len() > 0, tree_ok(m, i, h), grows(i, j), gained(m, i, j, x, y)
  ensures miss(m, j).len() < miss(m, i).len()
{
  let q = m.len() - 1;
  let d = m.last().dom();
  let (a, b) = (miss(m, i), miss(m, j));
  lemma_pairs(d, d, x, y);
  assert(a.contains((x, y)) && !b.contains((x, y)));
  assert forall|p: (Key<'a, T, NT, AK, AV>, Key<'a, T, NT, AK, AV>)| b.contains(p) implies #[trigger] a.contains(p) by {
    lemma_pairs(d, d, p.0, p.1);
    if grown_by(m, i, q, p.0, p.1) { assert(has(m, q, p.1)); lemma_own_in(m, i, h, q, p.1); lemma_has(i, j, own(m, q, p.1), k_act(p.0), idxs(vals(m, q, p.0))); }
  }
  assert(b.insert((x, y)).subset_of(a));
  vstd::set_lib::lemma_len_subset(b.insert((x, y)), a);
}
/// A merge that changes something gives some state an alternative it hadn't.
pub proof fn lemma_gain<'a, T, NT, AK, AV, V>(g: &'a StartGrammar<T, NT, AK, AV>, m0: Seq<St<'a, T, NT, AK, AV, V>>, h: TreeHandle<'a, T, AK, V>, i0: Inner<T, AK, V>, i1: Inner<T, AK, V>, s: Seq<EarleyState<'a, T, NT, AK, AV, V>>, c: int, m: Seq<St<'a, T, NT, AK, AV, V>>, t: Tok<T, AK, V>, u: Tok<T, AK, V>)
  requires
    ins_inv(g, m0, h, i0, i1, s, c, m, t), 0 <= c < s.len(), m.last().contains_key(s[c].key), m.last().dom() == m0.last().dom(), grows(i0, i1), tree_ok(m0, i0, h),
    s[c].value@.len() > 0, more(t.v, own(m, m.len() - 1, s[c].key), last_n(s[c].value@)), merged(t.v, u.v, own(m, m.len() - 1, s[c].key), last_n(s[c].value@)),
  ensures exists|x: Key<'a, T, NT, AK, AV>, y: Key<'a, T, NT, AK, AV>| #[trigger] gained(m0, i0, u.v, x, y)
{
  let q = m.len() - 1;
  let (y, v) = (s[c].key, s[c].value@);
  let n = own(m, q, y);
  assert(ent(g, m, h, q, s[c], t.v));
  let (x, z) = choose|x: Key<'a, T, NT, AK, AV>, z: Key<'a, T, NT, AK, AV>| #[trigger] cent(m, q, s[c], t.v, x, z);
  let ks = idxs(vals(m, q, x));
  let a = choose|a: usize| #[trigger] one_alt(t.v, last_n(v), a) && is_branch(ialts(t.v)[a as int], k_act(x), ks);
  assert(m.last().contains_key(x));
  assert(has(m0, q, x) && has(m0, q, y));
  assert(m[q][x] == m0[q][x] && m[q][y] == m0[q][y]) by { assert(has(m, q, x) && has(m, q, y)); }
  assert(!nset(t.v, n as int).contains(a));
  lemma_own_in(m0, i0, h, q, y);
  lemma_grows(i0, i1, t.v);
  if grown_by(m0, i0, q, x, y) {
    lemma_has(i0, t.v, n, k_act(x), ks);
    let b = choose|b: usize| #[trigger] nset(t.v, n as int).contains(b) && b < ialts(t.v).len() && is_branch(ialts(t.v)[b as int], k_act(x), ks);
    lemma_alts(t.v.alternatives);
    ax_vector_ext(ialts(t.v)[a as int]->Branch_0.nodes, ialts(t.v)[b as int]->Branch_0.nodes);
    assert(ialts(t.v)[a as int] == ialts(t.v)[b as int]);
  }
  assert(nset(u.v, n as int).contains(a));
  assert(ialts(u.v)[a as int] == ialts(t.v)[a as int]);
  assert(gained(m0, i0, u.v, x, y));
}
pub proof fn lemma_ahead<'a, T, NT, AK, AV, V>(g: &'a StartGrammar<T, NT, AK, AV>, prev: Seq<EarleyStateSet<'a, T, NT, AK, AV, V>>, st0: &EarleyStateSet<'a, T, NT, AK, AV, V>, sb: &EarleyStateSet<'a, T, NT, AK, AV, V>, st: &EarleyStateSet<'a, T, NT, AK, AV, V>, h: TreeHandle<'a, T, AK, V>, i0: Inner<T, AK, V>, i1: Inner<T, AK, V>, s: Seq<EarleyState<'a, T, NT, AK, AV, V>>, c: int, t: Tok<T, AK, V>, u: Tok<T, AK, V>, cb: WasChanged, r: WasChanged)
  requires
    ins_inv(g, maps(prev, st0), h, i0, i1, s, c, maps(prev, sb), t), 0 <= c < s.len(), grows(i0, i1), tree_ok(maps(prev, st0), i0, h),
    sb.states@.contains_key(s[c].key) ==> st.states@ == sb.states@,
    sb.states@.contains_key(s[c].key) && s[c].value@.len() == 0 ==> u == t,
    sb.states@.contains_key(s[c].key) && s[c].value@.len() > 0 ==> merged(t.v, u.v, last_n(sb.states@[s[c].key]@), last_n(s[c].value@)),
    !sb.states@.contains_key(s[c].key) ==> st.states@ == sb.states@.insert(s[c].key, s[c].value) && u == t,
    keys(st0).subset_of(keys(sb)), cb is Changed ==> ahead(maps(prev, st0), maps(prev, sb), i0, t.v),
    cb is Unchanged && r is Changed && sb.states@.contains_key(s[c].key) ==> s[c].value@.len() > 0 && more(t.v, last_n(sb.states@[s[c].key]@), last_n(s[c].value@)),
    r is Changed || cb is Unchanged,
  ensures r is Changed ==> ahead(maps(prev, st0), maps(prev, st), i0, u.v)
{
  let (m0, mb, m) = (maps(prev, st0), maps(prev, sb), maps(prev, st));
  let y = s[c].key;
  assert(m0.last() == st0.states@ && mb.last() == sb.states@ && m.last() == st.states@);
  lemma_grows(t.v, t.v, t.v);
  lemma_grows(i0, i1, t.v);
  if r is Changed {
    if exists|k: Key<'a, T, NT, AK, AV>| #[trigger] mb.last().contains_key(k) && !m0.last().contains_key(k) {
      let k = choose|k: Key<'a, T, NT, AK, AV>| #[trigger] mb.last().contains_key(k) && !m0.last().contains_key(k);
      assert(m.last().contains_key(k));
    } else if !mb.last().contains_key(y) {
      assert(m.last().contains_key(y));
    } else if cb is Changed {
      let (x, z) = choose|x: Key<'a, T, NT, AK, AV>, z: Key<'a, T, NT, AK, AV>| #[trigger] gained(m0, i0, t.v, x, z);
      assert(has(m0, m0.len() - 1, z));
      lemma_own_in(m0, i0, h, m0.len() - 1, z);
      lemma_has(t.v, u.v, own(m0, m0.len() - 1, z), k_act(x), idxs(vals(m0, m0.len() - 1, x)));
      assert(gained(m0, i0, u.v, x, z));
    } else {
      assert(mb.last().dom() =~= m0.last().dom());
      lemma_gain(g, m0, h, i0, i1, s, c, mb, t, u);
    }
  }
}
/// A round that changed something brings the end nearer.
pub proof fn lemma_nearer<'a, T, NT, AK, AV, V>(g: &'a StartGrammar<T, NT, AK, AV>, prev: Seq<EarleyStateSet<'a, T, NT, AK, AV, V>>, st0: &EarleyStateSet<'a, T, NT, AK, AV, V>, st: &EarleyStateSet<'a, T, NT, AK, AV, V>, h: TreeHandle<'a, T, AK, V>, i0: Inner<T, AK, V>, j: Inner<T, AK, V>, u: Set<Key<'a, T, NT, AK, AV>>)
  requires
    keys(st0).subset_of(keys(st)), keys(st).subset_of(u), ahead(maps(prev, st0), maps(prev, st), i0, j), tree_ok(maps(prev, st0), i0, h), grows(i0, j), ext(maps(prev, st0), maps(prev, st)),
  ensures
    0 <= u.len() - keys(st).len() <= u.len() - keys(st0).len(),
    u.len() - keys(st).len() < u.len() - keys(st0).len() || miss(maps(prev, st), j).len() < miss(maps(prev, st0), i0).len(),
{
  let (m0, m) = (maps(prev, st0), maps(prev, st));
  assert(m0.last() == st0.states@ && m.last() == st.states@);
  vstd::set_lib::lemma_len_subset(keys(st), u);
  vstd::set_lib::lemma_len_subset(keys(st0), keys(st));
  if exists|k: Key<'a, T, NT, AK, AV>| #[trigger] m.last().contains_key(k) && !m0.last().contains_key(k) {
    let k = choose|k: Key<'a, T, NT, AK, AV>| #[trigger] m.last().contains_key(k) && !m0.last().contains_key(k);
    vstd::set_lib::lemma_len_subset(keys(st0).insert(k), keys(st));
  } else {
    assert(keys(st0) =~= keys(st));
    lemma_ext_same(prev, st0, st);
    let (x, y) = choose|x: Key<'a, T, NT, AK, AV>, y: Key<'a, T, NT, AK, AV>| #[trigger] gained(m0, i0, j, x, y);
    lemma_miss(m0, i0, j, h, x, y);
  }
}
pub proof fn lemma_in_all<'a, T, NT, AK, AV, V>(g: &'a StartGrammar<T, NT, AK, AV>, prev: Seq<EarleyStateSet<'a, T, NT, AK, AV, V>>, so: &EarleyStateSet<'a, T, NT, AK, AV, V>, st: &EarleyStateSet<'a, T, NT, AK, AV, V>, u: Set<Key<'a, T, NT, AK, AV>>)
  requires
    pc_closed(g, prev, iset_of(u)), ikeys(so).subset_of(iset_of(u)),
    forall|s: ISet<Key<'a, T, NT, AK, AV>>| #[trigger] pc_closed(g, prev, s) && ikeys(so).subset_of(s) ==> ikeys(st).subset_of(s),
  ensures keys(st).subset_of(u)
{
  assert(ikeys(st).subset_of(iset_of(u)));
  assert forall|k: Key<'a, T, NT, AK, AV>| keys(st).contains(k) implies u.contains(k) by { assert(ikeys(st).contains(k)); assert(iset_of(u).contains(k)); }
}
@fn src/parsers/earley.rs close_state
  requires
    g_shape(grammar), set_wf(old(new_state), *tree_handle), o_ok(old(new_state), prev_states@.len() as int), prev_ok(prev_states@, *tree_handle),
    keys(old(new_state)) != Set::<Key<'a, T, NT, AK, AV>>::empty(),
    h_ok(*tree_handle, *old(vx_t)), tree_ok(maps(prev_states@, old(new_state)), old(vx_t).v, *tree_handle), apart(maps(prev_states@, old(new_state))),
  ensures
    set_wf(final(new_state), *tree_handle), o_ok(final(new_state), prev_states@.len() as int),
    keys(old(new_state)).subset_of(keys(final(new_state))),
    pc_closed(grammar, prev_states@, ikeys(final(new_state))),
    forall|s: ISet<Key<'a, T, NT, AK, AV>>| #[trigger] pc_closed(grammar, prev_states@, s) && ikeys(old(new_state)).subset_of(s) ==> ikeys(final(new_state)).subset_of(s),
    t_step(*old(vx_t), *final(vx_t)), tree_ok(maps(prev_states@, final(new_state)), final(vx_t).v, *tree_handle), apart(maps(prev_states@, final(new_state))),
    leaf_keep(maps(prev_states@, old(new_state)), old(vx_t).v, maps(prev_states@, final(new_state)), final(vx_t).v), grown(maps(prev_states@, final(new_state)), final(vx_t).v, prev_states@.len() as int),
.attr
#[verifier::rlimit(60)]
.steps
.thread vx_t: &mut Tok<T, AK, V>
.pass insert
.start
  hide(flat_ok); hide(ins_inv); hide(tree_ok); hide(apart); hide(leaf_keep); hide(ext); hide(pc_closed); hide(grown); hide(frame); hide(grows); hide(inner_wf); hide(set_wf); hide(maps); hide(prev_ok); hide(o_ok); hide(g_shape); hide(miss); hide(ahead); hide(u_all); hide(more); hide(merged);
  let ghost n = prev_states@.len() as int;
  let ghost prev = prev_states@;
  let ghost ma = maps(prev, new_state);
  let ghost u = u_all(grammar, prev, keys(new_state));
  proof {
    lemma_grows(vx_t.v, vx_t.v, vx_t.v); lemma_self(ma, vx_t.v);
    assert(prev.len() == vstd::slice::spec_slice_len(prev_states));
    lemma_u_all(grammar, prev, new_state, *tree_handle);
  }
.loop 1
  invariant
    pc_closed(grammar, prev, iset_of(u)), ikeys(old(new_state)).subset_of(iset_of(u)),
    n == prev.len(), prev == prev_states@, ma == maps(prev, old(new_state)), g_shape(grammar),
    keys(old(new_state)).subset_of(keys(new_state)),
    forall|s: ISet<Key<'a, T, NT, AK, AV>>| #[trigger] pc_closed(grammar, prev, s) && ikeys(old(new_state)).subset_of(s) ==> ikeys(new_state).subset_of(s),
    h_ok(*tree_handle, *vx_t), t_step(*old(vx_t), *vx_t), tree_ok(maps(prev, new_state), vx_t.v, *tree_handle), apart(maps(prev, new_state)), ext(ma, maps(prev, new_state)), leaf_keep(ma, old(vx_t).v, maps(prev, new_state), vx_t.v),
  ensures pc_closed(grammar, prev, ikeys(new_state)), grown(maps(prev, new_state), vx_t.v, n),
  decreases u.len() - keys(new_state).len(), miss(maps(prev, new_state), vx_t.v).len()
.loop_start 1
  let ghost st0 = *new_state;
  let ghost m0 = maps(prev, new_state);
  let ghost i0 = vx_t.v;
  proof { lemma_maps(prev, new_state); }
.before_loop 2
  proof { lemma_flat_start(grammar, m0, *tree_handle, i0, vx_r1@, vx_o1@); }
.loop 2
  invariant
    *new_state == st0, vx_s2 == vx_r1@, m0 == maps(prev, &st0), n == prev.len(), prev == prev_states@, g_shape(grammar), m0.len() > 0,
    h_ok(*tree_handle, *vx_t), t_step(*old(vx_t), *vx_t), grows(i0, vx_t.v), frame(i0, vx_t.v, -1), inner_wf(i0), tree_ok(m0, vx_t.v, *tree_handle),
    lists(vx_r1@, &st0),
    flat_ok(grammar, m0, *tree_handle, i0, vx_r1@, vx_n2, vx_o1@, vx_t.v),
.loop_start 2
  let ghost ob = vx_o1@;
  let ghost ib = vx_t.v;
  proof {
    assert(state == vx_r1@[vx_n2 - 1]);
    lemma_listed(prev, &st0, ib, *tree_handle, vx_r1@, vx_n2 - 1);
    lemma_tree_wf(prev, &st0, ib, *tree_handle);
    lemma_prev_wf(prev, *tree_handle);
  }
.after_let vx_0_3
  let ghost pa = vx_0_3@;
.loop_end 2
  proof {
    lemma_grows(old(vx_t).v, ib, vx_t.v);
    lemma_frame(i0, ib, vx_t.v);
    assert(vx_o1@ =~= ob + (pa + vx_0_4@));
    lemma_flat(grammar, m0, set_at(prev, &st0, state.key.origin_index as int), *tree_handle, i0, vx_r1@, vx_n2 - 1, ob, ib, pa, vx_0_4@, vx_o1@, vx_t.v);
  }
.after_let closure
  let ghost i1 = vx_t.v;
  proof {
    lemma_ins_start(grammar, m0, *tree_handle, i0, vx_r1@, closure@, *vx_t);
    lemma_round_keep(ma, old(vx_t).v, m0, i0, m0, i1);
  }
.loop 3
  invariant
    m0 == maps(prev, &st0), n == prev.len(), prev == prev_states@, vx_s3 == closure@,
    keys(&st0).subset_of(keys(new_state)),
    changed_h1 is Unchanged ==> keys(new_state) == keys(&st0),
    changed_h1 is Changed ==> ahead(m0, maps(prev, new_state), i0, vx_t.v), grows(i0, i1), grows(i0, vx_t.v), tree_ok(m0, i0, *tree_handle),
    forall|k: Key<'a, T, NT, AK, AV>| #[trigger] keys(new_state).contains(k) ==> keys(&st0).contains(k) || key_in(vx_s3, k),
    ins_inv(grammar, m0, *tree_handle, i0, i1, vx_s3, vx_n3, maps(prev, new_state), *vx_t), t_step(*old(vx_t), *vx_t),
.loop_start 3
  let ghost sb = *new_state;
  let ghost cb = changed_h1;
  let ghost tb = *vx_t;
  proof {
    lemma_ins_pre(grammar, prev, &sb, m0, *tree_handle, i0, i1, vx_s3, vx_n3 - 1, tb);
  }
.loop_end 3
  proof {
    lemma_ins_step(grammar, prev, &sb, new_state, m0, *tree_handle, i0, i1, vx_s3, vx_n3 - 1, tb, *vx_t);
    lemma_grows(old(vx_t).v, tb.v, vx_t.v);
    lemma_grows(i0, tb.v, vx_t.v);
    lemma_ahead(grammar, prev, &st0, &sb, new_state, *tree_handle, i0, i1, vx_s3, vx_n3 - 1, tb, *vx_t, cb, changed_h1);
  }
.after_loop 3
  proof {
    lemma_ins_out(grammar, m0, *tree_handle, i0, i1, closure@, closure@.len() as int, maps(prev, new_state), *vx_t);
    lemma_round_min(grammar, prev, old(new_state), &st0, new_state, *tree_handle, i0, i1, closure@, vx_r1@);
    lemma_round_keep(ma, old(vx_t).v, m0, i1, maps(prev, new_state), vx_t.v);
    lemma_in_all(grammar, prev, old(new_state), new_state, u);
    if changed_h1 is Changed { lemma_nearer(grammar, prev, &st0, new_state, *tree_handle, i0, vx_t.v, u); }
    if changed_h1 is Unchanged {
      lemma_ext_same(prev, &st0, new_state);
      lemma_lists_same(vx_r1@, &st0, new_state, prev);
      lemma_round_done(grammar, prev, new_state, *tree_handle, i0, i1, vx_r1@, closure@, *vx_t);
    }
  }
.end
  proof { lemma_tree_wf(prev, new_state, vx_t.v, *tree_handle); }
@end
// ---- the chart
pub open spec fn lift<T>(w: Seq<T>) -> Seq<StreamTerminal<T>> { Seq::new(w.len(), |i: int| StreamTerminal::Term(w[i])) }
/// `c` is closed under starting, scanning `w`, predicting and completing.
pub open spec fn chart<'a, T, NT, AK, AV>(g: &'a StartGrammar<T, NT, AK, AV>, w: Seq<T>, c: Seq<ISet<Key<'a, T, NT, AK, AV>>>) -> bool {
  &&& c.len() == w.len() + 1
  &&& forall|k: Key<'a, T, NT, AK, AV>| k_init(start_prod(g), 0, k) ==> #[trigger] c[0].contains(k)
  &&& forall|i: int, x: Key<'a, T, NT, AK, AV>, y: Key<'a, T, NT, AK, AV>| #![trigger c[i].contains(x), k_scan(x, w[i], y)] 0 <= i < w.len() && c[i].contains(x) && k_scan(x, w[i], y) ==> c[i + 1].contains(y)
  &&& forall|n: int, x: Key<'a, T, NT, AK, AV>, i: int, y: Key<'a, T, NT, AK, AV>| 0 <= n < c.len() && c[n].contains(x) && #[trigger] k_pred(g, x, n, i, y) ==> c[n].contains(y)
  &&& forall|j: int, x: Key<'a, T, NT, AK, AV>, z: Key<'a, T, NT, AK, AV>, y: Key<'a, T, NT, AK, AV>| #![trigger c[j].contains(x), k_comp(x, z, y)] 0 <= j < c.len() && c[j].contains(x) && x.origin_index <= j && c[x.origin_index as int].contains(z) && k_comp(x, z, y) ==> c[j].contains(y)
}
/// `y` is `z` with `m` elements passed.
pub open spec fn at<'a, T, NT, AK, AV>(z: Key<'a, T, NT, AK, AV>, m: int, y: Key<'a, T, NT, AK, AV>) -> bool { y.prod_state.prod == z.prod_state.prod && y.prod_state.index == m && y.origin_index == z.origin_index }
/// A key in `c[j]` for each nonterminal derived from `o` to `j` that one in `c[o]` expects.
pub proof fn lemma_chart_nt<'a, T, NT, AK, AV>(g: &'a StartGrammar<T, NT, AK, AV>, w: Seq<T>, c: Seq<ISet<Key<'a, T, NT, AK, AV>>>, b: StartNonTerminal<NT>, o: int, j: int, h: nat, z: Key<'a, T, NT, AK, AV>) -> (y: Key<'a, T, NT, AK, AV>)
  requires chart(g, w, c), g_wf(g), 0 <= o <= j <= w.len() <= usize::MAX, c[o].contains(z), k_next(z) == Some(Elem::<StreamTerminal<T>, StartNonTerminal<NT>>::NonTerm(b)), der_h(g, b, lift(w).subrange(o, j), h)
  ensures c[j].contains(y), at(z, z.prod_state.index + 1, y)
  decreases h, 0nat
{
  let i = choose|i: int| 0 <= i < g.rule_set@[b].prods@.len() && seq_h(g, (#[trigger] g.rule_set@[b].prods@[i]).elements@, lift(w).subrange(o, j), (h - 1) as nat);
  let ps = g.rule_set@[b].prods@[i].elements@;
  let v0 = ax_vector_of(Seq::<usize>::empty());
  let x0: Key<'a, T, NT, AK, AV> = EarleyStateKey { prod_state: ProdState { prod: mk_prod(g, &g.rule_set@[b].head, &g.rule_set@[b].prods@[i]), index: 0 }, origin_index: o as usize, child_origins: v0 };
  assert(k_pred(g, z, o, i, x0));
  assert(ps.take(ps.len() as int) =~= ps);
  let x = lemma_chart_seq(g, w, c, x0, ps.len() as int, o, j, (h - 1) as nat);
  let v1 = ax_vector_of(z.child_origins@.push(x.origin_index));
  let y: Key<'a, T, NT, AK, AV> = EarleyStateKey { prod_state: ProdState { prod: z.prod_state.prod, index: (z.prod_state.index + 1) as usize }, origin_index: z.origin_index, child_origins: v1 };
  lemma_vec_len(z.prod_state.prod.prod.elements);
  assert(k_comp(x, z, y));
  y
}
pub proof fn lemma_chart_seq<'a, T, NT, AK, AV>(g: &'a StartGrammar<T, NT, AK, AV>, w: Seq<T>, c: Seq<ISet<Key<'a, T, NT, AK, AV>>>, z: Key<'a, T, NT, AK, AV>, m: int, o: int, j: int, h: nat) -> (y: Key<'a, T, NT, AK, AV>)
  requires chart(g, w, c), g_wf(g), 0 <= o <= j <= w.len() <= usize::MAX, c[o].contains(z), z.prod_state.index == 0, 0 <= m <= k_elems(z).len(), seq_h(g, k_elems(z).take(m), lift(w).subrange(o, j), h)
  ensures c[j].contains(y), at(z, m, y)
  decreases h, m + 1
{
  let s = k_elems(z).take(m);
  let u = lift(w).subrange(o, j);
  if m == 0 { z } else {
    let n = choose|n: int| 0 <= n <= u.len() && #[trigger] vx_id(n) && seq_h(g, s.drop_last(), u.take(n), h) && el_h(g, s.last().element, u.skip(n), h);
    assert(s.drop_last() =~= k_elems(z).take(m - 1));
    assert(u.take(n) =~= lift(w).subrange(o, o + n));
    assert(u.skip(n) =~= lift(w).subrange(o + n, j));
    let y = lemma_chart_seq(g, w, c, z, m - 1, o, o + n, h);
    let e = s.last().element;
    assert(k_next(y) == Some(e));
    match e {
      Elem::NonTerm(b) => { lemma_chart_nt(g, w, c, b, o + n, j, h, y) }
      Elem::Term(t) => {
        assert(u.skip(n) == seq![t]);
        assert(u.skip(n).len() == 1 && u.skip(n)[0] == t);
        assert(t == StreamTerminal::Term(w[o + n]));
        lemma_vec_len(z.prod_state.prod.prod.elements);
        let r: Key<'a, T, NT, AK, AV> = EarleyStateKey { prod_state: ProdState { prod: y.prod_state.prod, index: (y.prod_state.index + 1) as usize }, origin_index: y.origin_index, child_origins: y.child_origins };
        assert(k_scan(y, w[o + n], r));
        r
      }
    }
  }
}
/// `k` uses production `i` of `b`.
pub open spec fn prod_at<'a, T, NT, AK, AV>(g: &'a StartGrammar<T, NT, AK, AV>, k: Key<'a, T, NT, AK, AV>, b: StartNonTerminal<NT>, i: int) -> bool { g.rule_set@.contains_key(b) && 0 <= i < g.rule_set@[b].prods@.len() && k.prod_state.prod == mk_prod(g, &g.rule_set@[b].head, &g.rule_set@[b].prods@[i]) }
/// What a key in the set at `j` says about the terminals `w`.
pub open spec fn sound<'a, T, NT, AK, AV>(g: &'a StartGrammar<T, NT, AK, AV>, w: Seq<StreamTerminal<T>>, k: Key<'a, T, NT, AK, AV>, j: int) -> bool {
  &&& exists|b: StartNonTerminal<NT>, i: int| #[trigger] prod_at(g, k, b, i)
  &&& k.prod_state.index <= k_elems(k).len() && k.origin_index <= j <= w.len()
  &&& *k.prod_state.prod.head is Start ==> k.origin_index == 0
  &&& seq_derives(g, k_elems(k).take(k.prod_state.index as int), w.subrange(k.origin_index as int, j))
}
pub open spec fn sound_set<'a, T, NT, AK, AV>(g: &'a StartGrammar<T, NT, AK, AV>, w: Seq<StreamTerminal<T>>, j: int) -> ISet<Key<'a, T, NT, AK, AV>> { ISet::new(|k: Key<'a, T, NT, AK, AV>| sound(g, w, k, j)) }
/// The start is expected nowhere.
pub open spec fn start_fresh<T, NT, AK, AV>(g: &StartGrammar<T, NT, AK, AV>) -> bool {
  forall|b: StartNonTerminal<NT>, i: int, m: int| g.rule_set@.contains_key(b) && 0 <= i < g.rule_set@[b].prods@.len() && 0 <= m < g.rule_set@[b].prods@[i].elements@.len() ==> (#[trigger] g.rule_set@[b].prods@[i].elements@[m]).element != Elem::<StreamTerminal<T>, StartNonTerminal<NT>>::NonTerm(StartNonTerminal::Start)
}
pub proof fn lemma_sound_init<'a, T, NT, AK, AV>(g: &'a StartGrammar<T, NT, AK, AV>, w: Seq<StreamTerminal<T>>, k: Key<'a, T, NT, AK, AV>, b: StartNonTerminal<NT>, i: int, n: int)
  requires g_wf(g), 0 <= n <= w.len(), g.rule_set@.contains_key(b), 0 <= i < g.rule_set@[b].prods@.len(), k_init(mk_prod(g, &g.rule_set@[b].head, &g.rule_set@[b].prods@[i]), n, k), b is Start ==> n == 0
  ensures sound(g, w, k, n)
{
  assert(prod_at(g, k, b, i));
  lemma_seq_nil(g, k_elems(k).take(0), w.subrange(n, n));
}
pub proof fn lemma_sound_adv<'a, T, NT, AK, AV>(g: &'a StartGrammar<T, NT, AK, AV>, w: Seq<StreamTerminal<T>>, z: Key<'a, T, NT, AK, AV>, y: Key<'a, T, NT, AK, AV>, o: int, j: int)
  requires sound(g, w, z, o), 0 <= o <= j <= w.len(), k_next(z) is Some, at(z, z.prod_state.index + 1, y), el_derives(g, k_next(z)->Some_0, w.subrange(o, j))
  ensures sound(g, w, y, j)
{
  let n = z.prod_state.index as int;
  let a = z.origin_index as int;
  let s = k_elems(z).take(n + 1);
  assert(s.drop_last() =~= k_elems(z).take(n));
  assert(s.last() == k_elems(z)[n]);
  lemma_seq_snoc(g, s, w.subrange(a, o), w.subrange(o, j));
  assert(w.subrange(a, o) + w.subrange(o, j) =~= w.subrange(a, j));
  let (b, i) = choose|b: StartNonTerminal<NT>, i: int| #[trigger] prod_at(g, z, b, i);
  assert(prod_at(g, y, b, i));
}
pub proof fn lemma_sound_closed<'a, T, NT, AK, AV, V>(g: &'a StartGrammar<T, NT, AK, AV>, w: Seq<StreamTerminal<T>>, prev: Seq<EarleyStateSet<'a, T, NT, AK, AV, V>>)
  requires g_wf(g), start_fresh(g), prev.len() <= w.len(), forall|i: int, k: Key<'a, T, NT, AK, AV>| #![trigger keys(&prev[i]).contains(k)] 0 <= i < prev.len() && keys(&prev[i]).contains(k) ==> sound(g, w, k, i)
  ensures pc_closed(g, prev, sound_set(g, w, prev.len() as int))
{
  let n = prev.len() as int;
  let s = sound_set(g, w, n);
  assert forall|x: Key<'a, T, NT, AK, AV>, i: int, y: Key<'a, T, NT, AK, AV>| s.contains(x) && #[trigger] k_pred(g, x, n, i, y) implies s.contains(y) by {
    let b = match k_next(x) { Some(Elem::NonTerm(b)) => b, _ => arbitrary() };
    let (c, q) = choose|b: StartNonTerminal<NT>, i: int| #[trigger] prod_at(g, x, b, i);
    assert(g.rule_set@[c].prods@[q].elements@[x.prod_state.index as int].element == Elem::<StreamTerminal<T>, StartNonTerminal<NT>>::NonTerm(b));
    lemma_sound_init(g, w, y, b, i, n);
  }
  assert forall|x: Key<'a, T, NT, AK, AV>, z: Key<'a, T, NT, AK, AV>, y: Key<'a, T, NT, AK, AV>| s.contains(x) && waiting(prev, s, x.origin_index as int, z) && #[trigger] k_comp(x, z, y) implies s.contains(y) by {
    let o = x.origin_index as int;
    assert(sound(g, w, z, o));
    let (b, i) = choose|b: StartNonTerminal<NT>, i: int| #[trigger] prod_at(g, x, b, i);
    assert(k_elems(x).take(x.prod_state.index as int) =~= k_elems(x));
    lemma_der_prod(g, b, i, w.subrange(o, n));
    lemma_el_nt(g, b, w.subrange(o, n));
    lemma_sound_adv(g, w, z, y, o, n);
  }
}
// ---- wrapping keeps the language
pub proof fn lemma_w_el<T, NT, AK, AV>(g: &Grammar<T, NT, AK, AV>, w: &StartGrammar<T, NT, AK, AV>, e: Elem<T, NT>, k: Seq<T>, h: nat)
  requires wrapped(g, *w)
  ensures el_h(w, w_elem(e), lift(k), h) == el_h(g, e, k, h)
  decreases h, 0nat, 1nat
{
  match e {
    Elem::Term(t) => {
      let a = seq![StreamTerminal::Term(t)];
      if lift(k) == a { assert(lift(k).len() == 1 && lift(k)[0] == a[0]); assert(k =~= seq![t]); }
      if k == seq![t] { assert(lift(k) =~= a); }
    }
    Elem::NonTerm(n) => { lemma_w_nt(g, w, n, k, h); }
  }
}
pub proof fn lemma_w_nt<T, NT, AK, AV>(g: &Grammar<T, NT, AK, AV>, w: &StartGrammar<T, NT, AK, AV>, n: NT, k: Seq<T>, h: nat)
  requires wrapped(g, *w)
  ensures der_h(w, StartNonTerminal::NTerm(n), lift(k), h) == der_h(g, n, k, h)
  decreases h, 0nat, 0nat
{
  let b = StartNonTerminal::NTerm(n);
  assert(w.rule_set@.contains_key(b) == g.rule_set@.contains_key(n));
  if h > 0 && g.rule_set@.contains_key(n) {
    let (ps, qs) = (g.rule_set@[n].prods@, w.rule_set@[b].prods@);
    assert(w_rule(g.rule_set@[n], w.rule_set@[b]));
    assert forall|i: int| 0 <= i < ps.len() implies seq_h(w, (#[trigger] qs[i]).elements@, lift(k), (h - 1) as nat) == seq_h(g, ps[i].elements@, k, (h - 1) as nat) by { lemma_w_seq(g, w, ps[i].elements@, k, (h - 1) as nat); }
    if der_h(g, n, k, h) { let i = choose|i: int| 0 <= i < ps.len() && seq_h(g, (#[trigger] g.rule_set@[n].prods@[i]).elements@, k, (h - 1) as nat); assert(seq_h(w, w.rule_set@[b].prods@[i].elements@, lift(k), (h - 1) as nat)); }
    if der_h(w, b, lift(k), h) { let i = choose|i: int| 0 <= i < qs.len() && seq_h(w, (#[trigger] w.rule_set@[b].prods@[i]).elements@, lift(k), (h - 1) as nat); assert(seq_h(g, g.rule_set@[n].prods@[i].elements@, k, (h - 1) as nat)); }
  }
}
pub proof fn lemma_w_seq<T, NT, AK, AV>(g: &Grammar<T, NT, AK, AV>, w: &StartGrammar<T, NT, AK, AV>, s: Seq<ProdElement<T, NT>>, k: Seq<T>, h: nat)
  requires wrapped(g, *w)
  ensures seq_h(w, w_pes(s), lift(k), h) == seq_h(g, s, k, h)
  decreases h, s.len(), 2nat
{
  if s.len() > 0 {
    let v = w_pes(s);
    let u = lift(k);
    assert(v.drop_last() =~= w_pes(s.drop_last()));
    assert forall|n: int| 0 <= n <= k.len() implies (#[trigger] vx_id(n) && seq_h(w, v.drop_last(), u.take(n), h) && el_h(w, v.last().element, u.skip(n), h)) == (seq_h(g, s.drop_last(), k.take(n), h) && el_h(g, s.last().element, k.skip(n), h)) by {
      assert(u.take(n) =~= lift(k.take(n)));
      assert(u.skip(n) =~= lift(k.skip(n)));
      lemma_w_seq(g, w, s.drop_last(), k.take(n), h);
      lemma_w_el(g, w, s.last().element, k.skip(n), h);
    }
  }
}
pub proof fn lemma_w_derives<T, NT, AK, AV>(g: &Grammar<T, NT, AK, AV>, w: &StartGrammar<T, NT, AK, AV>, n: NT, k: Seq<T>)
  requires wrapped(g, *w)
  ensures derives(w, StartNonTerminal::NTerm(n), lift(k)) == derives(g, n, k)
{
  if derives(g, n, k) { let h = choose|h: nat| der_h(g, n, k, h); lemma_w_nt(g, w, n, k, h); }
  if derives(w, StartNonTerminal::NTerm(n), lift(k)) { let h = choose|h: nat| der_h(w, StartNonTerminal::NTerm(n), lift(k), h); lemma_w_nt(g, w, n, k, h); }
}
/// Where the end of the stream and the start stand in a wrapped grammar.
pub proof fn lemma_w_shape<T, NT, AK, AV>(g: &Grammar<T, NT, AK, AV>, w: &StartGrammar<T, NT, AK, AV>)
  requires wrapped(g, *w)
  ensures
    g_shape(w), start_fresh(w), has_start(w), g_wf(w),
    forall|b: StartNonTerminal<NT>, i: int, m: int| w.rule_set@.contains_key(b) && 0 <= i < w.rule_set@[b].prods@.len() && 0 <= m < w.rule_set@[b].prods@[i].elements@.len() && (#[trigger] w.rule_set@[b].prods@[i].elements@[m]).element == Elem::<StreamTerminal<T>, StartNonTerminal<NT>>::Term(StreamTerminal::EndOfStream) ==> b is Start && i == 0 && m == 1,
{
  let q = w.rule_set@[StartNonTerminal::Start].prods@;
  assert(w.rule_set@.contains_key(StartNonTerminal::Start));
  assert(q[0].elements@ =~= start_elems::<T, NT>(g.start_symbol));
  assert forall|b: StartNonTerminal<NT>, i: int| w.rule_set@.contains_key(b) && 0 <= i < w.rule_set@[b].prods@.len() implies p_shape(#[trigger] w.rule_set@[b].prods@[i]) by {
    match b { StartNonTerminal::Start => { assert(q[0].elements@.last() == q[0].elements@[1]); } StartNonTerminal::NTerm(n) => { assert(g.rule_set@.contains_key(n)); assert(w_prod(g.rule_set@[n].prods@[i], w.rule_set@[b].prods@[i])); } }
  }
  assert forall|b: StartNonTerminal<NT>, i: int, m: int| w.rule_set@.contains_key(b) && 0 <= i < w.rule_set@[b].prods@.len() && 0 <= m < w.rule_set@[b].prods@[i].elements@.len()
    implies (#[trigger] w.rule_set@[b].prods@[i].elements@[m]).element != Elem::<StreamTerminal<T>, StartNonTerminal<NT>>::NonTerm(StartNonTerminal::Start) && (w.rule_set@[b].prods@[i].elements@[m].element == Elem::<StreamTerminal<T>, StartNonTerminal<NT>>::Term(StreamTerminal::EndOfStream) ==> b is Start && i == 0 && m == 1) by {
    match b { StartNonTerminal::Start => {} StartNonTerminal::NTerm(n) => { assert(g.rule_set@.contains_key(n)); assert(w_prod(g.rule_set@[n].prods@[i], w.rule_set@[b].prods@[i])); } }
  }
}
// ---- what the last set says
pub proof fn lemma_final_sound<'a, T, NT, AK, AV>(g: &Grammar<T, NT, AK, AV>, w: &'a StartGrammar<T, NT, AK, AV>, t: Seq<T>, k: Key<'a, T, NT, AK, AV>)
  requires wrapped(g, *w), sound(w, lift(t), k, t.len() as int), is_final(k)
  ensures k.prod_state.index == 1, derives(w, StartNonTerminal::NTerm(g.start_symbol), lift(t))
{
  lemma_w_shape(g, w);
  let (b, i) = choose|b: StartNonTerminal<NT>, i: int| #[trigger] prod_at(w, k, b, i);
  let m = k.prod_state.index as int;
  assert(w.rule_set@[b].prods@[i].elements@[m].element == Elem::<StreamTerminal<T>, StartNonTerminal<NT>>::Term(StreamTerminal::EndOfStream));
  let s = k_elems(k).take(1);
  let u = lift(t).subrange(0, t.len() as int);
  assert(u =~= lift(t));
  let n = lemma_seq_split(w, s, u);
  lemma_seq_nil(w, s.drop_last(), u.take(n));
  assert(u.skip(n) =~= u);
  assert(s.last().element == Elem::<StreamTerminal<T>, StartNonTerminal<NT>>::NonTerm(StartNonTerminal::NTerm(g.start_symbol)));
  lemma_el_nt(w, StartNonTerminal::NTerm(g.start_symbol), u);
}
pub proof fn lemma_final_chart<'a, T, NT, AK, AV>(g: &Grammar<T, NT, AK, AV>, w: &'a StartGrammar<T, NT, AK, AV>, t: Seq<T>, c: Seq<ISet<Key<'a, T, NT, AK, AV>>>)
  requires wrapped(g, *w), chart(w, t, c), derives(w, StartNonTerminal::NTerm(g.start_symbol), lift(t)), t.len() <= usize::MAX
  ensures exists|k: Key<'a, T, NT, AK, AV>| #[trigger] is_final(k) && c[t.len() as int].contains(k)
{
  lemma_w_shape(g, w);
  let n = StartNonTerminal::NTerm(g.start_symbol);
  let h = choose|h: nat| der_h(w, n, lift(t), h);
  let v0 = ax_vector_of(Seq::<usize>::empty());
  let z: Key<'a, T, NT, AK, AV> = EarleyStateKey { prod_state: ProdState { prod: start_prod(w), index: 0 }, origin_index: 0, child_origins: v0 };
  assert(k_init(start_prod(w), 0, z));
  assert(k_elems(z) == start_elems::<T, NT>(g.start_symbol));
  assert(k_next(z) == Some(Elem::<StreamTerminal<T>, StartNonTerminal<NT>>::NonTerm(n)));
  assert(lift(t).subrange(0, t.len() as int) =~= lift(t));
  assert(c[0].contains(z));
  let y = lemma_chart_nt(w, t, c, n, 0, t.len() as int, h, z);
  assert(is_final(y));
}
pub open spec fn kinds<T, V>(s: Seq<Token<T, V>>) -> Seq<T> { Seq::new(s.len(), |i: int| s[i].kind) }
/// `s` are the first sets of the chart for `w`.
pub open spec fn st_chart<'a, T, NT, AK, AV, V>(g: &'a StartGrammar<T, NT, AK, AV>, w: Seq<T>, s: Seq<EarleyStateSet<'a, T, NT, AK, AV, V>>) -> bool {
  &&& 0 < s.len() <= w.len() + 1
  &&& forall|k: Key<'a, T, NT, AK, AV>| k_init(start_prod(g), 0, k) ==> #[trigger] keys(&s[0]).contains(k)
  &&& forall|i: int, x: Key<'a, T, NT, AK, AV>, y: Key<'a, T, NT, AK, AV>| #![trigger keys(&s[i]).contains(x), k_scan(x, w[i], y)] 0 <= i < s.len() - 1 && keys(&s[i]).contains(x) && k_scan(x, w[i], y) ==> keys(&s[i + 1]).contains(y)
  &&& forall|i: int| 0 <= i < s.len() ==> #[trigger] pc_closed(g, s.take(i), ikeys(&s[i]))
}
pub open spec fn st_sound<'a, T, NT, AK, AV, V>(g: &'a StartGrammar<T, NT, AK, AV>, w: Seq<T>, s: Seq<EarleyStateSet<'a, T, NT, AK, AV, V>>) -> bool {
  forall|i: int, k: Key<'a, T, NT, AK, AV>| #![trigger keys(&s[i]).contains(k)] 0 <= i < s.len() && keys(&s[i]).contains(k) ==> sound(g, lift(w), k, i)
}
pub open spec fn st_sets<'a, T, NT, AK, AV, V>(w: Seq<T>, s: Seq<EarleyStateSet<'a, T, NT, AK, AV, V>>) -> Seq<ISet<Key<'a, T, NT, AK, AV>>> { Seq::new(w.len() + 1, |i: int| if i < s.len() { ikeys(&s[i]) } else { ISet::<Key<'a, T, NT, AK, AV>>::empty() }) }
pub proof fn lemma_st_chart<'a, T, NT, AK, AV, V>(g: &'a StartGrammar<T, NT, AK, AV>, w: Seq<T>, s: Seq<EarleyStateSet<'a, T, NT, AK, AV, V>>)
  requires st_chart(g, w, s), s.len() <= w.len() ==> forall|x: Key<'a, T, NT, AK, AV>, y: Key<'a, T, NT, AK, AV>| keys(&s[s.len() - 1]).contains(x) ==> !#[trigger] k_scan(x, w[s.len() - 1], y)
  ensures chart(g, w, st_sets(w, s))
{
  let c: Seq<ISet<Key<'a, T, NT, AK, AV>>> = st_sets(w, s);
  assert forall|n: int, x: Key<'a, T, NT, AK, AV>, i: int, y: Key<'a, T, NT, AK, AV>| 0 <= n < c.len() && c[n].contains(x) && #[trigger] k_pred(g, x, n, i, y) implies c[n].contains(y) by {
    if n < s.len() { assert(pc_closed(g, s.take(n), ikeys(&s[n]))); assert(k_pred(g, x, s.take(n).len() as int, i, y)); }
  }
  assert forall|j: int, x: Key<'a, T, NT, AK, AV>, z: Key<'a, T, NT, AK, AV>, y: Key<'a, T, NT, AK, AV>| #![trigger c[j].contains(x), k_comp(x, z, y)] 0 <= j < c.len() && c[j].contains(x) && x.origin_index <= j && c[x.origin_index as int].contains(z) && k_comp(x, z, y) implies c[j].contains(y) by {
    if j < s.len() { assert(pc_closed(g, s.take(j), ikeys(&s[j]))); assert(waiting(s.take(j), ikeys(&s[j]), x.origin_index as int, z)); }
  }
  assert forall|k: Key<'a, T, NT, AK, AV>| k_init(start_prod(g), 0, k) implies #[trigger] c[0].contains(k) by { assert(keys(&s[0]).contains(k)); }
  assert forall|i: int, x: Key<'a, T, NT, AK, AV>, y: Key<'a, T, NT, AK, AV>| #![trigger c[i].contains(x), k_scan(x, w[i], y)] 0 <= i < w.len() && c[i].contains(x) && k_scan(x, w[i], y) implies c[i + 1].contains(y) by {
    if i < s.len() { assert(keys(&s[i]).contains(x)); if i + 1 < s.len() { assert(keys(&s[i + 1]).contains(y)); } }
  }
}
// ---- parse trees
/// A parse tree, and the children of one.
pub enum DT<T, AK, V> { Leaf(T, V), Branch(AK, Box<DL<T, AK, V>>) }
pub enum DL<T, AK, V> { Nil, Snoc(Box<DL<T, AK, V>>, Box<DT<T, AK, V>>) }
/// The tokens of a tree, from left to right.
pub open spec fn yield_t<T, AK, V>(d: DT<T, AK, V>) -> Seq<Token<T, V>> decreases d { match d { DT::Leaf(k, v) => seq![Token { kind: k, value: v }], DT::Branch(_, l) => yield_l(*l) } }
pub open spec fn yield_l<T, AK, V>(l: DL<T, AK, V>) -> Seq<Token<T, V>> decreases l { match l { DL::Nil => Seq::<Token<T, V>>::empty(), DL::Snoc(p, d) => yield_l(*p) + yield_t(*d) } }
/// The tree is a derivation from `e`: a branch has the action of a production and its elements as children.
pub open spec fn val_t<T, NT, AK, AV, V>(g: &Grammar<T, NT, AK, AV>, e: Elem<T, NT>, d: DT<T, AK, V>) -> bool decreases d {
  match (e, d) {
    (Elem::Term(t), DT::Leaf(k, _)) => k == t,
    (Elem::NonTerm(n), DT::Branch(c, l)) => g.rule_set@.contains_key(n) && exists|i: int| 0 <= i < g.rule_set@[n].prods@.len() && (#[trigger] g.rule_set@[n].prods@[i]).action_key == c && val_l(g, g.rule_set@[n].prods@[i].elements@, *l),
    _ => false,
  }
}
pub open spec fn val_l<T, NT, AK, AV, V>(g: &Grammar<T, NT, AK, AV>, s: Seq<ProdElement<T, NT>>, l: DL<T, AK, V>) -> bool decreases l {
  match l { DL::Nil => s.len() == 0, DL::Snoc(p, d) => s.len() > 0 && val_l(g, s.drop_last(), *p) && val_t(g, s.last().element, *d) }
}
/// The tree is one of those that alternative `a` stands for.
pub open spec fn alt_means<T, AK, V>(i: Inner<T, AK, V>, a: usize, d: DT<T, AK, V>) -> bool decreases d, 0nat {
  a < ialts(i).len() && match d {
    DT::Leaf(k, v) => ialts(i)[a as int] == leaf_c::<T, AK, V>(k, v),
    DT::Branch(c, l) => ialts(i)[a as int] is Branch && ialts(i)[a as int]->Branch_0.action == c && means_l(i, ialts(i)[a as int]->Branch_0.nodes@, *l),
  }
}
/// The tree is one of those that node `n` stands for: choose one alternative at every node.
pub open spec fn means_t<T, AK, V>(i: Inner<T, AK, V>, n: usize, d: DT<T, AK, V>) -> bool decreases d, 1nat { exists|a: usize| #[trigger] nset(i, n as int).contains(a) && alt_means(i, a, d) }
pub open spec fn means_l<T, AK, V>(i: Inner<T, AK, V>, ks: Seq<usize>, l: DL<T, AK, V>) -> bool decreases l, 0nat {
  match l { DL::Nil => ks.len() == 0, DL::Snoc(p, d) => ks.len() > 0 && means_l(i, ks.drop_last(), *p) && means_t(i, ks.last(), *d) }
}
/// There is one choice of alternatives for the tree at most.
pub open spec fn once_t<T, AK, V>(i: Inner<T, AK, V>, n: usize, d: DT<T, AK, V>) -> bool decreases d {
  &&& forall|a: usize, b: usize| #[trigger] nset(i, n as int).contains(a) && #[trigger] nset(i, n as int).contains(b) && alt_means(i, a, d) && alt_means(i, b, d) ==> a == b
  &&& match d { DT::Leaf(_, _) => true, DT::Branch(_, l) => forall|a: usize| #[trigger] nset(i, n as int).contains(a) && alt_means(i, a, d) ==> once_l(i, ialts(i)[a as int]->Branch_0.nodes@, *l) }
}
pub open spec fn once_l<T, AK, V>(i: Inner<T, AK, V>, ks: Seq<usize>, l: DL<T, AK, V>) -> bool decreases l {
  match l { DL::Nil => true, DL::Snoc(p, d) => once_l(i, ks.drop_last(), *p) && once_t(i, ks.last(), *d) }
}
/// Action keys tell the productions of a rule apart.
pub open spec fn distinct_actions<T, NT, AK, AV>(g: &Grammar<T, NT, AK, AV>) -> bool {
  forall|n: NT, i: int, j: int| #![trigger g.rule_set@[n].prods@[i], g.rule_set@[n].prods@[j]] g.rule_set@.contains_key(n) && 0 <= i < g.rule_set@[n].prods@.len() && 0 <= j < g.rule_set@[n].prods@.len() && g.rule_set@[n].prods@[i].action_key == g.rule_set@[n].prods@[j].action_key ==> i == j
}
// ---- what the chart says about them
pub open spec fn val_x<T, NT, AK, AV, V>(g: &Grammar<T, NT, AK, AV>, e: SElem<T, NT>, d: DT<T, AK, V>) -> bool {
  match e { Elem::Term(StreamTerminal::Term(t)) => val_t(g, Elem::Term(t), d), Elem::NonTerm(StartNonTerminal::NTerm(n)) => val_t(g, Elem::NonTerm(n), d), _ => false }
}
pub open spec fn val_xs<T, NT, AK, AV, V>(g: &Grammar<T, NT, AK, AV>, s: Seq<ProdElement<StreamTerminal<T>, StartNonTerminal<NT>>>, l: DL<T, AK, V>) -> bool decreases l {
  match l { DL::Nil => s.len() == 0, DL::Snoc(p, d) => s.len() > 0 && val_xs(g, s.drop_last(), *p) && val_x(g, s.last().element, *d) }
}
pub proof fn lemma_val_w<T, NT, AK, AV, V>(g: &Grammar<T, NT, AK, AV>, s: Seq<ProdElement<T, NT>>, l: DL<T, AK, V>)
  ensures val_xs(g, w_pes(s), l) == val_l(g, s, l)
  decreases l
{
  match l { DL::Nil => {}, DL::Snoc(p, d) => { if s.len() > 0 { assert(w_pes(s).drop_last() =~= w_pes(s.drop_last())); lemma_val_w(g, s.drop_last(), *p); } } }
}
pub open spec fn msets<'a, T, NT, AK, AV, V>(m: Seq<St<'a, T, NT, AK, AV, V>>) -> Seq<ISet<Key<'a, T, NT, AK, AV>>> { Seq::new(m.len(), |j: int| ISet::new(|k: Key<'a, T, NT, AK, AV>| m[j].contains_key(k))) }
/// `m` is the chart of the tokens, and `i` the forest.
pub open spec fn full<'a, T, NT, AK, AV, V>(g: &Grammar<T, NT, AK, AV>, w: &'a StartGrammar<T, NT, AK, AV>, m: Seq<St<'a, T, NT, AK, AV, V>>, tk: Seq<Token<T, V>>, i: Inner<T, AK, V>, h: TreeHandle<'a, T, AK, V>) -> bool {
  &&& wrapped(g, *w) && m.len() == tk.len() + 1 && tk.len() <= usize::MAX && inner_wf(i) && tree_ok(m, i, h) && leaves(m, tk, i)
  &&& forall|j: int| 0 <= j < m.len() ==> #[trigger] grown(m, i, j)
  &&& chart(w, kinds(tk), msets(m))
  &&& forall|j: int, k: Key<'a, T, NT, AK, AV>| #[trigger] has(m, j, k) ==> sound(w, lift(kinds(tk)), k, j)
}
/// What is before `x`, whose last element is a token.
pub proof fn lemma_prev_leaf<'a, T, NT, AK, AV, V>(g: &Grammar<T, NT, AK, AV>, w: &'a StartGrammar<T, NT, AK, AV>, m: Seq<St<'a, T, NT, AK, AV, V>>, tk: Seq<Token<T, V>>, i: Inner<T, AK, V>, h: TreeHandle<'a, T, AK, V>, j: int, x: Key<'a, T, NT, AK, AV>) -> (z: Key<'a, T, NT, AK, AV>)
  requires full(g, w, m, tk, i, h), has(m, j, x), x.prod_state.index > 0, k_last(x) is Term
  ensures
    has(m, j - 1, z), v_next(vals(m, j - 1, z), vals(m, j, x)), idxs(vals(m, j, x)).drop_last() == idxs(vals(m, j - 1, z)), idxs(vals(m, j, x)).last() == own(m, j, x), idxs(vals(m, j, x)).len() > 0,
    k_adv(z, z.child_origins@, x), k_next(z) == Some(k_last(x)), k_elems(x) == k_elems(z), 0 < j <= tk.len(), k_last(x) == (Elem::<StreamTerminal<T>, StartNonTerminal<NT>>::Term(StreamTerminal::Term(tk[j - 1].kind))), leaf_node(i, own(m, j, x), tk[j - 1].kind, tk[j - 1].value),
{
  assert(st_ok(m, i, h, j, x));
  if exists|z: Key<'a, T, NT, AK, AV>, o: int| #[trigger] from_comp(m, j, x, z, o) { let (z, o) = choose|z: Key<'a, T, NT, AK, AV>, o: int| #[trigger] from_comp(m, j, x, z, o); assert(false); }
  let (z, t) = choose|z: Key<'a, T, NT, AK, AV>, t: T| #[trigger] from_scan(m, j, x, z, t);
  assert(idxs(vals(m, j, x)).drop_last() =~= idxs(vals(m, j, x).drop_last()));
  z
}
/// What is before `x`, whose last element is a nonterminal.
pub proof fn lemma_prev_branch<'a, T, NT, AK, AV, V>(g: &Grammar<T, NT, AK, AV>, w: &'a StartGrammar<T, NT, AK, AV>, m: Seq<St<'a, T, NT, AK, AV, V>>, tk: Seq<Token<T, V>>, i: Inner<T, AK, V>, h: TreeHandle<'a, T, AK, V>, j: int, x: Key<'a, T, NT, AK, AV>) -> (r: (Key<'a, T, NT, AK, AV>, usize))
  requires full(g, w, m, tk, i, h), has(m, j, x), x.prod_state.index > 0, k_last(x) is NonTerm
  ensures
    has(m, r.1 as int, r.0), r.1 <= j, v_next(vals(m, r.1 as int, r.0), vals(m, j, x)), idxs(vals(m, j, x)).drop_last() == idxs(vals(m, r.1 as int, r.0)), idxs(vals(m, j, x)).last() == own(m, j, x), idxs(vals(m, j, x)).len() > 0,
    k_adv(r.0, r.0.child_origins@.push(r.1), x), k_next(r.0) == Some(k_last(x)), k_elems(x) == k_elems(r.0), alts_ok(m, j, x, r.0, i, own(m, j, x)), own(m, j, x) < i.nodes@.len(),
{
  assert(st_ok(m, i, h, j, x));
  lemma_own_in(m, i, h, j, x);
  if exists|z: Key<'a, T, NT, AK, AV>, t: T| #[trigger] from_scan(m, j, x, z, t) { let (z, t) = choose|z: Key<'a, T, NT, AK, AV>, t: T| #[trigger] from_scan(m, j, x, z, t); assert(false); }
  let (z, o) = choose|z: Key<'a, T, NT, AK, AV>, o: int| #[trigger] from_comp(m, j, x, z, o) && alts_ok(m, j, x, z, i, own(m, j, x));
  assert(idxs(vals(m, j, x)).drop_last() =~= idxs(vals(m, j, x).drop_last()));
  (z, o as usize)
}
/// The production of a complete state that is not the start's.
pub proof fn lemma_orig<'a, T, NT, AK, AV>(g: &Grammar<T, NT, AK, AV>, w: &'a StartGrammar<T, NT, AK, AV>, x: Key<'a, T, NT, AK, AV>, b: StartNonTerminal<NT>, q: int, n: NT) -> (r: int)
  requires wrapped(g, *w), prod_at(w, x, b, q), *x.prod_state.prod.head == StartNonTerminal::NTerm(n)
  ensures b == StartNonTerminal::NTerm(n), r == q, g.rule_set@.contains_key(n), 0 <= q < g.rule_set@[n].prods@.len(), k_elems(x) == w_pes(g.rule_set@[n].prods@[q].elements@), k_act(x) == g.rule_set@[n].prods@[q].action_key
{
  assert(w.rule_set@.contains_key(b));
  match b { StartNonTerminal::Start => { assert(w.rule_set@.contains_key(StartNonTerminal::Start)); assert(w.rule_set@[b].head == b); } StartNonTerminal::NTerm(c) => { assert(w.rule_set@[b].head == b); assert(g.rule_set@.contains_key(n)); assert(w_prod(g.rule_set@[n].prods@[q], w.rule_set@[b].prods@[q])); } }
  q
}
/// The start is never expected.
pub proof fn lemma_not_start<'a, T, NT, AK, AV>(g: &Grammar<T, NT, AK, AV>, w: &'a StartGrammar<T, NT, AK, AV>, z: Key<'a, T, NT, AK, AV>, b: StartNonTerminal<NT>, q: int)
  requires wrapped(g, *w), prod_at(w, z, b, q), k_next(z) is Some, k_next(z)->Some_0 is NonTerm
  ensures k_next(z)->Some_0->NonTerm_0 is NTerm
{
  lemma_w_shape(g, w);
  assert(w.rule_set@[b].prods@[q].elements@[z.prod_state.index as int].element == k_next(z)->Some_0);
}
pub proof fn lemma_full<'a, T, NT, AK, AV, V>(g: &Grammar<T, NT, AK, AV>, w: &'a StartGrammar<T, NT, AK, AV>, m: Seq<St<'a, T, NT, AK, AV, V>>, tk: Seq<Token<T, V>>, i: Inner<T, AK, V>, h: TreeHandle<'a, T, AK, V>, j: int, x: Key<'a, T, NT, AK, AV>)
  requires full(g, w, m, tk, i, h), has(m, j, x)
  ensures
    wrapped(g, *w), 0 <= j <= tk.len(), m.len() == tk.len() + 1, tree_ok(m, i, h), inner_wf(i), x.origin_index <= j, x.prod_state.index <= k_elems(x).len(),
    exists|b: StartNonTerminal<NT>, q: int| #[trigger] prod_at(w, x, b, q),
    x.prod_state.index == 0 ==> x.origin_index == j && x.child_origins@.len() == 0,
    *x.prod_state.prod.head is Start ==> x.origin_index == 0,
{ assert(st_ok(m, i, h, j, x)); assert(sound(w, lift(kinds(tk)), x, j)); }
/// The state that an alternative comes from.
pub proof fn lemma_alt<'a, T, NT, AK, AV, V>(g: &Grammar<T, NT, AK, AV>, w: &'a StartGrammar<T, NT, AK, AV>, m: Seq<St<'a, T, NT, AK, AV, V>>, tk: Seq<Token<T, V>>, i: Inner<T, AK, V>, h: TreeHandle<'a, T, AK, V>, j: int, y: Key<'a, T, NT, AK, AV>, z: Key<'a, T, NT, AK, AV>, a: usize) -> (x: Key<'a, T, NT, AK, AV>)
  requires full(g, w, m, tk, i, h), has(m, j, y), y.prod_state.index > 0, k_last(y) is NonTerm, alts_ok(m, j, y, z, i, own(m, j, y)), nset(i, own(m, j, y) as int).contains(a)
  ensures
    has(m, j, x), k_next(x) is None, k_last(y)->NonTerm_0 is NTerm, *x.prod_state.prod.head == k_last(y)->NonTerm_0, y.child_origins@.len() > 0, x.origin_index == y.child_origins@.last(), is_branch(ialts(i)[a as int], k_act(x), idxs(vals(m, j, x))), a < ialts(i).len(),
    x.prod_state.index == k_elems(x).len(),
{
  let x = choose|x: Key<'a, T, NT, AK, AV>| #[trigger] comp_src(m, j, y, z, x, i, a);
  lemma_full(g, w, m, tk, i, h, j, y);
  lemma_full(g, w, m, tk, i, h, j, x);
  lemma_own_in(m, i, h, j, y);
  let (b, q) = choose|b: StartNonTerminal<NT>, q: int| #[trigger] prod_at(w, y, b, q);
  assert(prod_at(w, z, b, q));
  lemma_not_start(g, w, z, b, q);
  x
}
pub proof fn lemma_orig_at<'a, T, NT, AK, AV, V>(g: &Grammar<T, NT, AK, AV>, w: &'a StartGrammar<T, NT, AK, AV>, m: Seq<St<'a, T, NT, AK, AV, V>>, tk: Seq<Token<T, V>>, i: Inner<T, AK, V>, h: TreeHandle<'a, T, AK, V>, j: int, x: Key<'a, T, NT, AK, AV>, n: NT) -> (q: int)
  requires full(g, w, m, tk, i, h), has(m, j, x), *x.prod_state.prod.head == StartNonTerminal::NTerm(n)
  ensures g.rule_set@.contains_key(n), 0 <= q < g.rule_set@[n].prods@.len(), k_elems(x) == w_pes(g.rule_set@[n].prods@[q].elements@), k_act(x) == g.rule_set@[n].prods@[q].action_key, prod_at(w, x, StartNonTerminal::NTerm(n), q)
{
  lemma_full(g, w, m, tk, i, h, j, x);
  let (b, q) = choose|b: StartNonTerminal<NT>, q: int| #[trigger] prod_at(w, x, b, q);
  lemma_orig(g, w, x, b, q, n)
}
pub proof fn lemma_val_branch<T, NT, AK, AV, V>(g: &Grammar<T, NT, AK, AV>, n: NT, q: int, c: AK, l: DL<T, AK, V>)
  requires g.rule_set@.contains_key(n), 0 <= q < g.rule_set@[n].prods@.len(), g.rule_set@[n].prods@[q].action_key == c, val_l(g, g.rule_set@[n].prods@[q].elements@, l)
  ensures val_t(g, Elem::<T, NT>::NonTerm(n), DT::<T, AK, V>::Branch(c, Box::new(l)))
{}
/// Every tree that the values of a state stand for is a derivation of what the state has passed.
pub proof fn lemma_snd<'a, T, NT, AK, AV, V>(g: &Grammar<T, NT, AK, AV>, w: &'a StartGrammar<T, NT, AK, AV>, m: Seq<St<'a, T, NT, AK, AV, V>>, tk: Seq<Token<T, V>>, i: Inner<T, AK, V>, h: TreeHandle<'a, T, AK, V>, j: int, x: Key<'a, T, NT, AK, AV>, l: DL<T, AK, V>)
  requires full(g, w, m, tk, i, h), has(m, j, x), means_l(i, idxs(vals(m, j, x)), l)
  ensures x.origin_index <= j <= tk.len(), x.prod_state.index <= k_elems(x).len(), val_xs(g, k_elems(x).take(x.prod_state.index as int), l), yield_l(l) == tk.subrange(x.origin_index as int, j)
  decreases l
{
  hide(full); hide(tree_ok); hide(inner_wf); hide(leaves); hide(alts_ok); hide(chart);
  lemma_full(g, w, m, tk, i, h, j, x);
  lemma_val_len(m, i, h, j, x);
  match l {
    DL::Nil => { assert(tk.subrange(x.origin_index as int, j) =~= Seq::<Token<T, V>>::empty()); }
    DL::Snoc(p, d) => {
      let e = k_last(x);
      let s = k_elems(x).take(x.prod_state.index as int);
      let a = x.origin_index as int;
      assert(s.last().element == e);
      assert(means_t(i, own(m, j, x), *d));
      assert(s.drop_last() =~= k_elems(x).take(x.prod_state.index - 1));
      if e is Term {
        let z = lemma_prev_leaf(g, w, m, tk, i, h, j, x);
        lemma_snd(g, w, m, tk, i, h, j - 1, z, *p);
        let t = tk[j - 1];
        let b = choose|b: usize| #[trigger] one_alt(i, own(m, j, x), b) && ialts(i)[b as int] == leaf_c::<T, AK, V>(t.kind, t.value);
        let c = choose|c: usize| #[trigger] nset(i, own(m, j, x) as int).contains(c) && alt_means(i, c, *d);
        assert(c == b);
        assert(*d == DT::<T, AK, V>::Leaf(t.kind, t.value));
        assert(yield_t(*d) =~= seq![t]);
        assert(tk.subrange(a, j) =~= tk.subrange(a, j - 1) + seq![t]);
      } else {
        let (z, o) = lemma_prev_branch(g, w, m, tk, i, h, j, x);
        lemma_snd(g, w, m, tk, i, h, o as int, z, *p);
        let c = choose|c: usize| #[trigger] nset(i, own(m, j, x) as int).contains(c) && alt_means(i, c, *d);
        let x1 = lemma_alt(g, w, m, tk, i, h, j, x, z, c);
        let n = k_last(x)->NonTerm_0->NTerm_0;
        assert(*d is Branch);
        let l1 = *(*d)->Branch_1;
        lemma_snd(g, w, m, tk, i, h, j, x1, l1);
        let q = lemma_orig_at(g, w, m, tk, i, h, j, x1, n);
        let ps = g.rule_set@[n].prods@[q].elements@;
        assert(k_elems(x1).take(x1.prod_state.index as int) =~= w_pes(ps));
        lemma_val_w(g, ps, l1);
        assert(g.rule_set@[n].prods@[q].action_key == k_act(x1));
        assert(val_l(g, ps, l1));
        assert(alt_means(i, c, *d));
        lemma_val_branch(g, n, q, k_act(x1), l1);
        assert(*d == DT::<T, AK, V>::Branch(k_act(x1), Box::new(l1)));
        assert(yield_t(*d) == tk.subrange(o as int, j));
        assert(tk.subrange(a, j) =~= tk.subrange(a, o as int) + tk.subrange(o as int, j));
      }
    }
  }
}

// ---- every derivation is there
pub open spec fn meant<'a, T, NT, AK, AV, V>(m: Seq<St<'a, T, NT, AK, AV, V>>, i: Inner<T, AK, V>, j: int, y: Key<'a, T, NT, AK, AV>, d: DT<T, AK, V>) -> bool { means_t(i, own(m, j, y), d) }
pub proof fn lemma_means_snoc<'a, T, NT, AK, AV, V>(m: Seq<St<'a, T, NT, AK, AV, V>>, i: Inner<T, AK, V>, o: int, z: Key<'a, T, NT, AK, AV>, j: int, y: Key<'a, T, NT, AK, AV>, p: DL<T, AK, V>, d: DT<T, AK, V>)
  requires v_next(vals(m, o, z), vals(m, j, y)), means_l(i, idxs(vals(m, o, z)), p), meant(m, i, j, y, d)
  ensures means_l(i, idxs(vals(m, j, y)), DL::<T, AK, V>::Snoc(Box::new(p), Box::new(d)))
{
  assert(idxs(vals(m, j, y)).drop_last() =~= idxs(vals(m, o, z)));
  assert(idxs(vals(m, j, y)).last() == own(m, j, y));
}
pub proof fn lemma_has_msets<'a, T, NT, AK, AV, V>(m: Seq<St<'a, T, NT, AK, AV, V>>, j: int, k: Key<'a, T, NT, AK, AV>)
  requires 0 <= j < m.len()
  ensures msets(m)[j].contains(k) == has(m, j, k)
{}
/// The chart's rules, for the states.
pub proof fn lemma_full_chart<'a, T, NT, AK, AV, V>(g: &Grammar<T, NT, AK, AV>, w: &'a StartGrammar<T, NT, AK, AV>, m: Seq<St<'a, T, NT, AK, AV, V>>, tk: Seq<Token<T, V>>, i: Inner<T, AK, V>, h: TreeHandle<'a, T, AK, V>)
  requires full(g, w, m, tk, i, h)
  ensures
    wrapped(g, *w), m.len() == tk.len() + 1, tk.len() <= usize::MAX, tree_ok(m, i, h), inner_wf(i), leaves(m, tk, i),
    forall|k: Key<'a, T, NT, AK, AV>| k_init(start_prod(w), 0, k) ==> #[trigger] has(m, 0, k),
    forall|o: int, x: Key<'a, T, NT, AK, AV>, y: Key<'a, T, NT, AK, AV>| #![trigger has(m, o, x), k_scan(x, tk[o].kind, y)] o < tk.len() && has(m, o, x) && k_scan(x, tk[o].kind, y) ==> has(m, o + 1, y),
    forall|n: int, x: Key<'a, T, NT, AK, AV>, q: int, y: Key<'a, T, NT, AK, AV>| has(m, n, x) && #[trigger] k_pred(w, x, n, q, y) ==> has(m, n, y),
    forall|j: int, x: Key<'a, T, NT, AK, AV>, z: Key<'a, T, NT, AK, AV>, y: Key<'a, T, NT, AK, AV>| #![trigger has(m, j, x), k_comp(x, z, y)] has(m, j, x) && x.origin_index <= j && has(m, x.origin_index as int, z) && k_comp(x, z, y) ==> has(m, j, y) && grown_by(m, i, j, x, y),
{
  let c = msets(m);
  assert forall|k: Key<'a, T, NT, AK, AV>| k_init(start_prod(w), 0, k) implies #[trigger] has(m, 0, k) by { assert(c[0].contains(k)); }
  assert forall|o: int, x: Key<'a, T, NT, AK, AV>, y: Key<'a, T, NT, AK, AV>| #![trigger has(m, o, x), k_scan(x, tk[o].kind, y)] o < tk.len() && has(m, o, x) && k_scan(x, tk[o].kind, y) implies has(m, o + 1, y) by { assert(c[o].contains(x)); assert(k_scan(x, kinds(tk)[o], y)); assert(c[o + 1].contains(y)); }
  assert forall|n: int, x: Key<'a, T, NT, AK, AV>, q: int, y: Key<'a, T, NT, AK, AV>| has(m, n, x) && #[trigger] k_pred(w, x, n, q, y) implies has(m, n, y) by { assert(c[n].contains(x)); assert(c[n].contains(y)); }
  assert forall|j: int, x: Key<'a, T, NT, AK, AV>, z: Key<'a, T, NT, AK, AV>, y: Key<'a, T, NT, AK, AV>| #![trigger has(m, j, x), k_comp(x, z, y)] has(m, j, x) && x.origin_index <= j && has(m, x.origin_index as int, z) && k_comp(x, z, y) implies has(m, j, y) && grown_by(m, i, j, x, y) by {
    assert(c[j].contains(x)); assert(c[x.origin_index as int].contains(z)); assert(c[j].contains(y));
    assert(grown(m, i, j));
  }
}
/// Choosing the alternative that a complete state made.
pub proof fn lemma_meant_branch<'a, T, NT, AK, AV, V>(m: Seq<St<'a, T, NT, AK, AV, V>>, i: Inner<T, AK, V>, j: int, x: Key<'a, T, NT, AK, AV>, y: Key<'a, T, NT, AK, AV>, l: DL<T, AK, V>)
  requires grown_by(m, i, j, x, y), means_l(i, idxs(vals(m, j, x)), l)
  ensures meant(m, i, j, y, DT::<T, AK, V>::Branch(k_act(x), Box::new(l)))
{
  let n = own(m, j, y);
  let a = choose|a: usize| #[trigger] nset(i, n as int).contains(a) && a < ialts(i).len() && is_branch(ialts(i)[a as int], k_act(x), idxs(vals(m, j, x)));
  assert(alt_means(i, a, DT::<T, AK, V>::Branch(k_act(x), Box::new(l))));
}
/// A tree for what `z` expects is one that the state past it stands for.
pub proof fn lemma_cpl_t<'a, T, NT, AK, AV, V>(g: &Grammar<T, NT, AK, AV>, w: &'a StartGrammar<T, NT, AK, AV>, m: Seq<St<'a, T, NT, AK, AV, V>>, tk: Seq<Token<T, V>>, i: Inner<T, AK, V>, h: TreeHandle<'a, T, AK, V>, o: int, j: int, z: Key<'a, T, NT, AK, AV>, d: DT<T, AK, V>) -> (y: Key<'a, T, NT, AK, AV>)
  requires full(g, w, m, tk, i, h), has(m, o, z), k_next(z) is Some, val_x(g, k_next(z)->Some_0, d), o <= j <= tk.len(), yield_t(d) == tk.subrange(o, j)
  ensures has(m, j, y), at(z, z.prod_state.index + 1, y), v_next(vals(m, o, z), vals(m, j, y)), meant(m, i, j, y, d)
  decreases d
{
  hide(full); hide(tree_ok); hide(inner_wf); hide(leaves); hide(alts_ok); hide(chart);
  lemma_full_chart(g, w, m, tk, i, h);
  lemma_full(g, w, m, tk, i, h, o, z);
  lemma_vec_len(z.prod_state.prod.prod.elements);
  match d {
    DT::Leaf(k, v) => {
      assert(yield_t(d).len() == 1 && yield_t(d)[0] == Token { kind: k, value: v });
      assert(j == o + 1 && tk[o] == Token { kind: k, value: v });
      let y: Key<'a, T, NT, AK, AV> = EarleyStateKey { prod_state: ProdState { prod: z.prod_state.prod, index: (z.prod_state.index + 1) as usize }, origin_index: z.origin_index, child_origins: z.child_origins };
      assert(k_scan(z, tk[o].kind, y));
      assert(has(m, o + 1, y));
      assert(k_last(y) is Term);
      let z1 = lemma_prev_leaf(g, w, m, tk, i, h, j, y);
      assert(k_scan(z1, k, y));
      lemma_scan_inj(z, z1, k, y);
      let b = choose|b: usize| #[trigger] one_alt(i, own(m, j, y), b) && ialts(i)[b as int] == leaf_c::<T, AK, V>(k, v);
      assert(nset(i, own(m, j, y) as int).contains(b));
      assert(alt_means(i, b, d));
      y
    }
    DT::Branch(c, l) => {
      let n = k_next(z)->Some_0->NonTerm_0->NTerm_0;
      let q = choose|q: int| 0 <= q < g.rule_set@[n].prods@.len() && (#[trigger] g.rule_set@[n].prods@[q]).action_key == c && val_l(g, g.rule_set@[n].prods@[q].elements@, *l);
      let b = StartNonTerminal::NTerm(n);
      let ps = g.rule_set@[n].prods@[q].elements@;
      assert(w_prod(g.rule_set@[n].prods@[q], w.rule_set@[b].prods@[q]));
      let v0 = ax_vector_of(Seq::<usize>::empty());
      let x0: Key<'a, T, NT, AK, AV> = EarleyStateKey { prod_state: ProdState { prod: mk_prod(w, &w.rule_set@[b].head, &w.rule_set@[b].prods@[q]), index: 0 }, origin_index: o as usize, child_origins: v0 };
      assert(k_pred(w, z, o, q, x0));
      assert(has(m, o, x0));
      assert(k_elems(x0) == w_pes(ps));
      assert(k_elems(x0).take(ps.len() as int) =~= w_pes(ps));
      lemma_val_w(g, ps, *l);
      let x = lemma_cpl_l(g, w, m, tk, i, h, o, j, x0, ps.len() as int, *l);
      assert(w.rule_set@[b].head == b);
      let v1 = ax_vector_of(z.child_origins@.push(x.origin_index));
      let y: Key<'a, T, NT, AK, AV> = EarleyStateKey { prod_state: ProdState { prod: z.prod_state.prod, index: (z.prod_state.index + 1) as usize }, origin_index: z.origin_index, child_origins: v1 };
      assert(k_comp(x, z, y));
      assert(has(m, j, y) && grown_by(m, i, j, x, y));
      assert(k_act(x) == c);
      lemma_meant_branch(m, i, j, x, y, *l);
      assert(d == DT::<T, AK, V>::Branch(k_act(x), Box::new(*l)));
      assert(k_last(y) is NonTerm);
      let (z1, o1) = lemma_prev_branch(g, w, m, tk, i, h, j, y);
      lemma_same_pred(z, x.origin_index, z1, o1, y);
      y
    }
  }
}
pub proof fn lemma_cpl_l<'a, T, NT, AK, AV, V>(g: &Grammar<T, NT, AK, AV>, w: &'a StartGrammar<T, NT, AK, AV>, m: Seq<St<'a, T, NT, AK, AV, V>>, tk: Seq<Token<T, V>>, i: Inner<T, AK, V>, h: TreeHandle<'a, T, AK, V>, o: int, j: int, z: Key<'a, T, NT, AK, AV>, k: int, l: DL<T, AK, V>) -> (y: Key<'a, T, NT, AK, AV>)
  requires full(g, w, m, tk, i, h), has(m, o, z), z.prod_state.index == 0, 0 <= k <= k_elems(z).len(), val_xs(g, k_elems(z).take(k), l), o <= j <= tk.len(), yield_l(l) == tk.subrange(o, j)
  ensures has(m, j, y), at(z, k, y), means_l(i, idxs(vals(m, j, y)), l)
  decreases l
{
  hide(full); hide(tree_ok); hide(inner_wf); hide(leaves); hide(alts_ok); hide(chart);
  lemma_full(g, w, m, tk, i, h, o, z);
  let s = k_elems(z).take(k);
  match l {
    DL::Nil => {
      assert(yield_l(l).len() == 0);
      lemma_val_len(m, i, h, o, z);
      z
    }
    DL::Snoc(p, d) => {
      let o1 = o + yield_l(*p).len();
      assert(s.drop_last() =~= k_elems(z).take(k - 1));
      assert(yield_l(l).len() == j - o);
      assert(yield_l(*p) =~= yield_l(l).take(yield_l(*p).len() as int));
      assert(yield_l(*p) =~= tk.subrange(o, o1));
      assert(yield_t(*d) =~= yield_l(l).skip(yield_l(*p).len() as int));
      assert(yield_t(*d) =~= tk.subrange(o1, j));
      let y1 = lemma_cpl_l(g, w, m, tk, i, h, o, o1, z, k - 1, *p);
      assert(k_next(y1) == Some(s.last().element));
      let y = lemma_cpl_t(g, w, m, tk, i, h, o1, j, y1, *d);
      lemma_means_snoc(m, i, o1, y1, j, y, *p, *d);
      y
    }
  }
}
// ---- once
/// A list of trees is one of those of one state of a production at most.
pub proof fn lemma_uniq<'a, T, NT, AK, AV, V>(g: &Grammar<T, NT, AK, AV>, w: &'a StartGrammar<T, NT, AK, AV>, m: Seq<St<'a, T, NT, AK, AV, V>>, tk: Seq<Token<T, V>>, i: Inner<T, AK, V>, h: TreeHandle<'a, T, AK, V>, j: int, x: Key<'a, T, NT, AK, AV>, y: Key<'a, T, NT, AK, AV>, l: DL<T, AK, V>)
  requires full(g, w, m, tk, i, h), has(m, j, x), has(m, j, y), x.prod_state == y.prod_state, means_l(i, idxs(vals(m, j, x)), l), means_l(i, idxs(vals(m, j, y)), l)
  ensures x == y
  decreases l
{
  hide(full); hide(tree_ok); hide(inner_wf); hide(leaves); hide(alts_ok); hide(chart);
  lemma_full(g, w, m, tk, i, h, j, x);
  lemma_val_len(m, i, h, j, x); lemma_val_len(m, i, h, j, y);
  lemma_snd(g, w, m, tk, i, h, j, x, l); lemma_snd(g, w, m, tk, i, h, j, y, l);
  assert(yield_l(l).len() == j - x.origin_index && yield_l(l).len() == j - y.origin_index);
  match l {
    DL::Nil => { lemma_full(g, w, m, tk, i, h, j, y); }
    DL::Snoc(p, d) => {
      if k_last(x) is Term {
        let z = lemma_prev_leaf(g, w, m, tk, i, h, j, x);
        let u = lemma_prev_leaf(g, w, m, tk, i, h, j, y);
        lemma_uniq(g, w, m, tk, i, h, j - 1, z, u, *p);
      } else {
        let (z, o) = lemma_prev_branch(g, w, m, tk, i, h, j, x);
        let (u, q) = lemma_prev_branch(g, w, m, tk, i, h, j, y);
        lemma_snd(g, w, m, tk, i, h, o as int, z, *p); lemma_snd(g, w, m, tk, i, h, q as int, u, *p);
        assert(yield_l(*p).len() == o - x.origin_index && yield_l(*p).len() == q - y.origin_index);
        lemma_uniq(g, w, m, tk, i, h, o as int, z, u, *p);
      }
    }
  }
  assert(x.child_origins@ =~= y.child_origins@);
  ax_vector_ext(x.child_origins, y.child_origins);
}
pub proof fn lemma_same_alt<T, AK, V>(i: Inner<T, AK, V>, a: usize, b: usize, c: AK, ks: Seq<usize>)
  requires inner_wf(i), a < ialts(i).len(), b < ialts(i).len(), is_branch(ialts(i)[a as int], c, ks), is_branch(ialts(i)[b as int], c, ks)
  ensures a == b
{
  lemma_alts(i.alternatives);
  ax_vector_ext(ialts(i)[a as int]->Branch_0.nodes, ialts(i)[b as int]->Branch_0.nodes);
  assert(ialts(i)[a as int] == ialts(i)[b as int]);
}
/// A branch is chosen once: the complete states behind two choices are one.
pub proof fn lemma_one_choice<'a, T, NT, AK, AV, V>(g: &Grammar<T, NT, AK, AV>, w: &'a StartGrammar<T, NT, AK, AV>, m: Seq<St<'a, T, NT, AK, AV, V>>, tk: Seq<Token<T, V>>, i: Inner<T, AK, V>, h: TreeHandle<'a, T, AK, V>, j: int, y: Key<'a, T, NT, AK, AV>, z: Key<'a, T, NT, AK, AV>, a: usize, b: usize, c: AK, l: DL<T, AK, V>)
  requires
    full(g, w, m, tk, i, h), distinct_actions(g), has(m, j, y), y.prod_state.index > 0, k_last(y) is NonTerm, alts_ok(m, j, y, z, i, own(m, j, y)), nset(i, own(m, j, y) as int).contains(a), nset(i, own(m, j, y) as int).contains(b),
    alt_means(i, a, DT::<T, AK, V>::Branch(c, Box::new(l))), alt_means(i, b, DT::<T, AK, V>::Branch(c, Box::new(l))),
  ensures a == b
{
  hide(full); hide(tree_ok); hide(inner_wf); hide(leaves); hide(alts_ok); hide(chart);
  let xa = lemma_alt(g, w, m, tk, i, h, j, y, z, a);
  let xb = lemma_alt(g, w, m, tk, i, h, j, y, z, b);
  let n = k_last(y)->NonTerm_0->NTerm_0;
  let qa = lemma_orig_at(g, w, m, tk, i, h, j, xa, n);
  let qb = lemma_orig_at(g, w, m, tk, i, h, j, xb, n);
  assert(g.rule_set@[n].prods@[qa].action_key == c && g.rule_set@[n].prods@[qb].action_key == c);
  assert(qa == qb);
  assert(xa.prod_state == xb.prod_state);
  lemma_uniq(g, w, m, tk, i, h, j, xa, xb, l);
  lemma_full_chart(g, w, m, tk, i, h);
  lemma_same_alt(i, a, b, c, idxs(vals(m, j, xa)));
}
pub proof fn lemma_once_leaf<T, AK, V>(i: Inner<T, AK, V>, n: usize, k: T, v: V, d: DT<T, AK, V>)
  requires leaf_node(i, n, k, v)
  ensures once_t(i, n, d)
{
  let b = choose|b: usize| #[trigger] one_alt(i, n, b) && ialts(i)[b as int] == leaf_c::<T, AK, V>(k, v);
  assert forall|a: usize| #[trigger] nset(i, n as int).contains(a) implies a == b by {}
}
/// Each tree that the values of a state stand for is one choice of alternatives.
pub proof fn lemma_once<'a, T, NT, AK, AV, V>(g: &Grammar<T, NT, AK, AV>, w: &'a StartGrammar<T, NT, AK, AV>, m: Seq<St<'a, T, NT, AK, AV, V>>, tk: Seq<Token<T, V>>, i: Inner<T, AK, V>, h: TreeHandle<'a, T, AK, V>, j: int, x: Key<'a, T, NT, AK, AV>, l: DL<T, AK, V>)
  requires full(g, w, m, tk, i, h), distinct_actions(g), has(m, j, x), means_l(i, idxs(vals(m, j, x)), l)
  ensures once_l(i, idxs(vals(m, j, x)), l)
  decreases l
{
  hide(full); hide(tree_ok); hide(inner_wf); hide(leaves); hide(alts_ok); hide(chart); hide(distinct_actions); hide(leaf_node);
  lemma_full(g, w, m, tk, i, h, j, x);
  lemma_val_len(m, i, h, j, x);
  match l {
    DL::Nil => {}
    DL::Snoc(p, d) => {
      let n = own(m, j, x);
      if k_last(x) is Term {
        let z = lemma_prev_leaf(g, w, m, tk, i, h, j, x);
        lemma_once(g, w, m, tk, i, h, j - 1, z, *p);
        lemma_once_leaf(i, n, tk[j - 1].kind, tk[j - 1].value, *d);
      } else {
        let (z, o) = lemma_prev_branch(g, w, m, tk, i, h, j, x);
        lemma_once(g, w, m, tk, i, h, o as int, z, *p);
        match *d {
          DT::Leaf(k, v) => { assert forall|a: usize| #[trigger] nset(i, n as int).contains(a) implies !alt_means(i, a, *d) by { let xa = lemma_alt(g, w, m, tk, i, h, j, x, z, a); } }
          DT::Branch(c, l1) => {
            assert(*d == DT::<T, AK, V>::Branch(c, Box::new(*l1)));
            assert forall|a: usize, b: usize| #[trigger] nset(i, n as int).contains(a) && #[trigger] nset(i, n as int).contains(b) && alt_means(i, a, *d) && alt_means(i, b, *d) implies a == b by { lemma_one_choice(g, w, m, tk, i, h, j, x, z, a, b, c, *l1); }
            assert forall|a: usize| #[trigger] nset(i, n as int).contains(a) && alt_means(i, a, *d) implies once_l(i, ialts(i)[a as int]->Branch_0.nodes@, *l1) by {
              let xa = lemma_alt(g, w, m, tk, i, h, j, x, z, a);
              lemma_once(g, w, m, tk, i, h, j, xa, *l1);
            }
          }
        }
        assert(once_t(i, n, *d));
      }
    }
  }
}
// ---- the whole
/// The final state's shape.
pub proof fn lemma_final_key<'a, T, NT, AK, AV, V>(g: &Grammar<T, NT, AK, AV>, w: &'a StartGrammar<T, NT, AK, AV>, m: Seq<St<'a, T, NT, AK, AV, V>>, tk: Seq<Token<T, V>>, i: Inner<T, AK, V>, h: TreeHandle<'a, T, AK, V>, j: int, f: Key<'a, T, NT, AK, AV>) -> (z: Key<'a, T, NT, AK, AV>)
  requires full(g, w, m, tk, i, h), has(m, j, f), f.prod_state.prod == start_prod(w), f.prod_state.index == 1
  ensures f.origin_index == 0, f.child_origins@ == seq![0usize], k_elems(f) == start_elems::<T, NT>(g.start_symbol), k_last(f) is NonTerm, idxs(vals(m, j, f)) == seq![own(m, j, f)]
{
  hide(tree_ok); hide(inner_wf); hide(leaves); hide(alts_ok); hide(chart);
  lemma_full(g, w, m, tk, i, h, j, f);
  assert(w.rule_set@.contains_key(StartNonTerminal::Start));
  assert(w.rule_set@[StartNonTerminal::Start].head == StartNonTerminal::<NT>::Start);
  assert(k_elems(f) == start_elems::<T, NT>(g.start_symbol));
  let (z, o) = lemma_prev_branch(g, w, m, tk, i, h, j, f);
  lemma_full(g, w, m, tk, i, h, o as int, z);
  lemma_val_len(m, i, h, j, f);
  assert(f.child_origins@ =~= seq![0usize]);
  assert(idxs(vals(m, j, f)) =~= seq![own(m, j, f)]);
  z
}
pub proof fn lemma_means_one<T, AK, V>(i: Inner<T, AK, V>, n: usize, d: DT<T, AK, V>) -> (l: DL<T, AK, V>)
  ensures
    means_l(i, seq![n], l) == means_t(i, n, d), once_l(i, seq![n], l) == once_t(i, n, d), yield_l(l) == yield_t(d), l == DL::<T, AK, V>::Snoc(Box::new(DL::Nil), Box::new(d))
{
  reveal_with_fuel(means_l, 3); reveal_with_fuel(once_l, 3); reveal_with_fuel(yield_l, 3);
  assert(seq![n].drop_last() =~= Seq::<usize>::empty());
  let l = DL::<T, AK, V>::Snoc(Box::new(DL::Nil), Box::new(d));
  assert(yield_l(l) =~= yield_t(d));
  l
}
pub proof fn lemma_final_is<'a, T, NT, AK, AV, V>(g: &Grammar<T, NT, AK, AV>, w: &'a StartGrammar<T, NT, AK, AV>, m: Seq<St<'a, T, NT, AK, AV, V>>, tk: Seq<Token<T, V>>, i: Inner<T, AK, V>, h: TreeHandle<'a, T, AK, V>, f: Key<'a, T, NT, AK, AV>)
  requires full(g, w, m, tk, i, h), has(m, tk.len() as int, f), is_final(f)
  ensures f.prod_state.prod == start_prod(w), f.prod_state.index == 1
{
  lemma_w_shape(g, w);
  assert(sound(w, lift(kinds(tk)), f, tk.len() as int));
  let (b, q) = choose|b: StartNonTerminal<NT>, q: int| #[trigger] prod_at(w, f, b, q);
  assert(w.rule_set@[b].prods@[q].elements@[f.prod_state.index as int].element == Elem::<StreamTerminal<T>, StartNonTerminal<NT>>::Term(StreamTerminal::EndOfStream));
}
pub proof fn lemma_forest_snd<'a, T, NT, AK, AV, V>(g: &Grammar<T, NT, AK, AV>, w: &'a StartGrammar<T, NT, AK, AV>, m: Seq<St<'a, T, NT, AK, AV, V>>, tk: Seq<Token<T, V>>, i: Inner<T, AK, V>, h: TreeHandle<'a, T, AK, V>, f: Key<'a, T, NT, AK, AV>, d: DT<T, AK, V>)
  requires full(g, w, m, tk, i, h), has(m, tk.len() as int, f), is_final(f), means_t(i, own(m, tk.len() as int, f), d)
  ensures val_t(g, Elem::NonTerm(g.start_symbol), d), yield_t(d) == tk, distinct_actions(g) ==> once_t(i, own(m, tk.len() as int, f), d)
{
  hide(full); hide(tree_ok); hide(inner_wf); hide(leaves); hide(alts_ok); hide(chart); hide(once_t); hide(once_l); hide(means_t); hide(means_l); hide(is_final); hide(distinct_actions); hide(val_t);
  let j = tk.len() as int;
  let n = own(m, j, f);
  lemma_final_is(g, w, m, tk, i, h, f);
  let _ = lemma_final_key(g, w, m, tk, i, h, j, f);
  assert(tk.subrange(0, j) =~= tk);
  let l = lemma_means_one(i, n, d);
  lemma_snd(g, w, m, tk, i, h, j, f, l);
  if distinct_actions(g) { lemma_once(g, w, m, tk, i, h, j, f, l); }
  let s = k_elems(f).take(1);
  assert(s.last().element == Elem::<StreamTerminal<T>, StartNonTerminal<NT>>::NonTerm(StartNonTerminal::NTerm(g.start_symbol)));
}
pub proof fn lemma_forest_cpl<'a, T, NT, AK, AV, V>(g: &Grammar<T, NT, AK, AV>, w: &'a StartGrammar<T, NT, AK, AV>, m: Seq<St<'a, T, NT, AK, AV, V>>, tk: Seq<Token<T, V>>, i: Inner<T, AK, V>, h: TreeHandle<'a, T, AK, V>, f: Key<'a, T, NT, AK, AV>, d: DT<T, AK, V>)
  requires full(g, w, m, tk, i, h), has(m, tk.len() as int, f), is_final(f), val_t(g, Elem::NonTerm(g.start_symbol), d), yield_t(d) == tk
  ensures means_t(i, own(m, tk.len() as int, f), d)
{
  hide(full); hide(tree_ok); hide(inner_wf); hide(leaves); hide(alts_ok); hide(chart); hide(once_t); hide(once_l); hide(means_t); hide(means_l); hide(is_final); hide(val_t);
  let j = tk.len() as int;
  lemma_final_is(g, w, m, tk, i, h, f);
  let _ = lemma_final_key(g, w, m, tk, i, h, j, f);
  lemma_full_chart(g, w, m, tk, i, h);
  assert(tk.subrange(0, j) =~= tk);
  let v0 = ax_vector_of(Seq::<usize>::empty());
  let z: Key<'a, T, NT, AK, AV> = EarleyStateKey { prod_state: ProdState { prod: start_prod(w), index: 0 }, origin_index: 0, child_origins: v0 };
  assert(k_init(start_prod(w), 0, z));
  assert(has(m, 0, z));
  assert(k_elems(z) == k_elems(f));
  assert(k_next(z) == Some(Elem::<StreamTerminal<T>, StartNonTerminal<NT>>::NonTerm(StartNonTerminal::NTerm(g.start_symbol))));
  let y = lemma_cpl_t(g, w, m, tk, i, h, 0, j, z, d);
  let _ = lemma_final_key(g, w, m, tk, i, h, j, y);
  ax_vector_ext(y.child_origins, f.child_origins);
  assert(y == f);
}
/// What the returned node stands for.
pub proof fn lemma_forest<'a, T, NT, AK, AV, V>(g: &Grammar<T, NT, AK, AV>, w: &'a StartGrammar<T, NT, AK, AV>, m: Seq<St<'a, T, NT, AK, AV, V>>, tk: Seq<Token<T, V>>, i: Inner<T, AK, V>, h: TreeHandle<'a, T, AK, V>, f: Key<'a, T, NT, AK, AV>)
  requires full(g, w, m, tk, i, h), has(m, tk.len() as int, f), is_final(f)
  ensures is_forest(g, i, own(m, tk.len() as int, f), tk)
{
  hide(full); hide(once_t); hide(means_t); hide(is_final); hide(val_t); hide(distinct_actions);
  let n = own(m, tk.len() as int, f);
  assert forall|d: DT<T, AK, V>| #[trigger] means_t(i, n, d) == (val_t(g, Elem::NonTerm(g.start_symbol), d) && yield_t(d) == tk) && (distinct_actions(g) && means_t(i, n, d) ==> once_t(i, n, d)) by {
    if means_t(i, n, d) { lemma_forest_snd(g, w, m, tk, i, h, f, d); }
    if val_t(g, Elem::NonTerm(g.start_symbol), d) && yield_t(d) == tk { lemma_forest_cpl(g, w, m, tk, i, h, f, d); }
  }
}
/// The node stands for exactly the parse trees of the tokens, and for each once if actions tell productions apart.
pub open spec fn is_forest<T, NT, AK, AV, V>(g: &Grammar<T, NT, AK, AV>, i: Inner<T, AK, V>, n: usize, tk: Seq<Token<T, V>>) -> bool {
  &&& forall|d: DT<T, AK, V>| #[trigger] means_t(i, n, d) == (val_t(g, Elem::NonTerm(g.start_symbol), d) && yield_t(d) == tk)
  &&& distinct_actions(g) ==> forall|d: DT<T, AK, V>| #[trigger] means_t(i, n, d) ==> once_t(i, n, d)
}
// ---- the sets so far
pub open spec fn smaps<'a, T, NT, AK, AV, V>(s: Seq<EarleyStateSet<'a, T, NT, AK, AV, V>>) -> Seq<St<'a, T, NT, AK, AV, V>> { Seq::new(s.len(), |i: int| s[i].states@) }
/// `m` are the values of the chart so far, of which the first `c` sets are closed.
pub open spec fn formed<'a, T, NT, AK, AV, V>(m: Seq<St<'a, T, NT, AK, AV, V>>, tk: Seq<Token<T, V>>, i: Inner<T, AK, V>, h: TreeHandle<'a, T, AK, V>, c: int) -> bool {
  &&& tree_ok(m, i, h) && apart(m) && leaves(m, tk, i)
  &&& forall|j: int| 0 <= j < c ==> #[trigger] grown(m, i, j)
}
pub proof fn lemma_grown_same<'a, T, NT, AK, AV, V>(m: Seq<St<'a, T, NT, AK, AV, V>>, i: Inner<T, AK, V>, n: Seq<St<'a, T, NT, AK, AV, V>>, k: Inner<T, AK, V>, h: TreeHandle<'a, T, AK, V>, j: int)
  requires grown(m, i, j), tree_ok(m, i, h), grows(i, k), 0 <= j < m.len(), j < n.len(), forall|p: int| 0 <= p <= j ==> #[trigger] n[p] == m[p]
  ensures grown(n, k, j)
{
  assert forall|x: Key<'a, T, NT, AK, AV>, z: Key<'a, T, NT, AK, AV>, y: Key<'a, T, NT, AK, AV>| has(n, j, x) && has(n, x.origin_index as int, z) && has(n, j, y) && #[trigger] k_comp(x, z, y) implies grown_by(n, k, j, x, y) by {
    assert(n[j] == m[j]);
    assert(has(m, j, x) && has(m, j, y));
    assert(st_ok(m, i, h, j, x));
    assert(n[x.origin_index as int] == m[x.origin_index as int]);
    assert(has(m, x.origin_index as int, z));
    assert(grown_by(m, i, j, x, y));
    lemma_own_in(m, i, h, j, y);
    lemma_has(i, k, own(m, j, y), k_act(x), idxs(vals(m, j, x)));
  }
}
pub proof fn lemma_formed_init<'a, T, NT, AK, AV, V>(g: &'a StartGrammar<T, NT, AK, AV>, s: &EarleyStateSet<'a, T, NT, AK, AV, V>, tk: Seq<Token<T, V>>, i: Inner<T, AK, V>, h: TreeHandle<'a, T, AK, V>)
  requires set_wf(s, h), forall|k: Key<'a, T, NT, AK, AV>| #[trigger] s.states@.contains_key(k) ==> k_init(start_prod(g), 0, k)
  ensures formed(maps(Seq::<EarleyStateSet<'a, T, NT, AK, AV, V>>::empty(), s), tk, i, h, 0)
{
  let m = maps(Seq::<EarleyStateSet<'a, T, NT, AK, AV, V>>::empty(), s);
  assert forall|j: int, y: Key<'a, T, NT, AK, AV>| #[trigger] has(m, j, y) implies st_ok(m, i, h, j, y) && y.prod_state.index == 0 by { assert(m[j] == s.states@); assert(s.states@.contains_key(y)); }
}
/// The sets after a token is shifted.
pub proof fn lemma_formed_shift<'a, T, NT, AK, AV, V>(prev: Seq<EarleyStateSet<'a, T, NT, AK, AV, V>>, s: &EarleyStateSet<'a, T, NT, AK, AV, V>, tk: Seq<Token<T, V>>, i: Inner<T, AK, V>, k: Inner<T, AK, V>, h: TreeHandle<'a, T, AK, V>)
  requires
    formed(smaps(prev), tk, i, h, prev.len() as int), 0 < prev.len() <= tk.len(), inner_wf(i), inner_wf(k), grows(i, k), frame(i, k, -1), set_wf(s, h),
    forall|y: Key<'a, T, NT, AK, AV>| #[trigger] s.states@.contains_key(y) ==> exists|x: Key<'a, T, NT, AK, AV>| #[trigger] shifted(&prev.last(), tk[prev.len() - 1].kind, x, y, s.states@[y]@),
    forall|y: Key<'a, T, NT, AK, AV>| #[trigger] s.states@.contains_key(y) ==> i.nodes@.len() <= last_n(s.states@[y]@) < k.nodes@.len() && leaf_node(k, last_n(s.states@[y]@), tk[prev.len() - 1].kind, tk[prev.len() - 1].value),
    forall|x: Key<'a, T, NT, AK, AV>, y: Key<'a, T, NT, AK, AV>| #[trigger] s.states@.contains_key(x) && #[trigger] s.states@.contains_key(y) && last_n(s.states@[x]@) == last_n(s.states@[y]@) ==> x == y,
  ensures formed(maps(prev, s), tk, k, h, prev.len() as int)
{
  hide(leaf_keep); hide(inner_wf); hide(frame); hide(leaf_node); hide(set_wf);
  let n = prev.len() as int;
  let m = smaps(prev);
  let e = maps(prev, s);
  let t = tk[n - 1];
  lemma_new_nodes(m, i, k, h);
  assert(leaves(m, tk, k)) by { lemma_leaf_keep(m, m, tk, i, k); }
  lemma_grows(k, k, k);
  assert forall|j: int| 0 <= j < n implies #[trigger] e[j] == m[j] by {}
  assert(e[n] == s.states@);
  assert(ext(m, e)) by {
    assert forall|j: int, y: Key<'a, T, NT, AK, AV>| #![trigger has(m, j, y)] #![trigger has(e, j, y)] has(m, j, y) implies has(e, j, y) && e[j][y] == m[j][y] by { assert(e[j] == m[j]); }
  }
  assert forall|y: Key<'a, T, NT, AK, AV>| #[trigger] has(e, n, y) implies st_ok(e, k, h, n, y) && y.prod_state.index > 0 && k_last(y) == Elem::<StreamTerminal<T>, StartNonTerminal<NT>>::Term(StreamTerminal::Term(t.kind)) && leaf_node(k, own(e, n, y), t.kind, t.value) && i.nodes@.len() <= own(e, n, y) by {
    assert(s.states@.contains_key(y));
    let x = choose|x: Key<'a, T, NT, AK, AV>| #[trigger] shifted(&prev.last(), t.kind, x, y, s.states@[y]@);
    assert(m[n - 1] == prev.last().states@);
    assert(has(m, n - 1, x));
    assert(st_ok(m, k, h, n - 1, x));
    assert(has(e, n - 1, x));
    assert(from_scan(e, n, y, x, t.kind));
    let v = vals(e, n, y);
    let u = vals(m, n - 1, x);
    assert(k_wf(y) && v_wf(y, v, h)) by { reveal(set_wf); }
    assert forall|q: int| 0 <= q < v.len() implies (#[trigger] v[q]).index < k.nodes@.len() by { if q < u.len() { assert(v.drop_last()[q] == u[q]); assert(u[q].index < k.nodes@.len()); } else { assert(v[q] == v.last()); } }
  }
  assert forall|j: int, y: Key<'a, T, NT, AK, AV>| #[trigger] has(e, j, y) implies st_ok(e, k, h, j, y) by { if j < n { assert(e[j] == m[j]); assert(has(m, j, y)); lemma_st_keep(m, k, e, k, h, j, y); } }
  assert forall|j: int, y: Key<'a, T, NT, AK, AV>, p: int, z: Key<'a, T, NT, AK, AV>| #[trigger] has(e, j, y) && #[trigger] has(e, p, z) && y.prod_state.index > 0 && z.prod_state.index > 0 && own(e, j, y) == own(e, p, z) implies j == p && y == z by {
    if j < n { assert(e[j] == m[j]); assert(has(m, j, y)); lemma_own_in(m, i, h, j, y); }
    if p < n { assert(e[p] == m[p]); assert(has(m, p, z)); lemma_own_in(m, i, h, p, z); }
    if j == n && p == n { assert(s.states@.contains_key(y) && s.states@.contains_key(z)); }
  }
  assert forall|j: int, y: Key<'a, T, NT, AK, AV>| #[trigger] has(e, j, y) && y.prod_state.index > 0 && k_last(y) is Term implies 0 < j <= tk.len() && leaf_node(k, own(e, j, y), tk[j - 1].kind, tk[j - 1].value) && k_last(y) == Elem::<StreamTerminal<T>, StartNonTerminal<NT>>::Term(StreamTerminal::Term(tk[j - 1].kind)) by {
    if j < n { assert(e[j] == m[j]); assert(has(m, j, y)); }
  }
  assert forall|j: int| 0 <= j < n implies #[trigger] grown(e, k, j) by { assert(grown(m, i, j)); lemma_grown_same(m, i, e, k, h, j); }
}
/// The sets after the last is closed.
pub proof fn lemma_formed_close<'a, T, NT, AK, AV, V>(prev: Seq<EarleyStateSet<'a, T, NT, AK, AV, V>>, s0: &EarleyStateSet<'a, T, NT, AK, AV, V>, s: &EarleyStateSet<'a, T, NT, AK, AV, V>, tk: Seq<Token<T, V>>, i: Inner<T, AK, V>, k: Inner<T, AK, V>, h: TreeHandle<'a, T, AK, V>, all: Seq<EarleyStateSet<'a, T, NT, AK, AV, V>>)
  requires
    formed(maps(prev, s0), tk, i, h, prev.len() as int), grows(i, k), all == prev.push(*s),
    tree_ok(maps(prev, s), k, h), apart(maps(prev, s)), leaf_keep(maps(prev, s0), i, maps(prev, s), k), grown(maps(prev, s), k, prev.len() as int),
  ensures formed(smaps(all), tk, k, h, all.len() as int)
{
  hide(leaf_keep); hide(leaves); hide(apart); hide(tree_ok); hide(grown);
  let n = prev.len() as int;
  let m = maps(prev, s0);
  let e = maps(prev, s);
  lemma_leaf_keep(m, e, tk, i, k);
  assert forall|j: int| 0 <= j < n + 1 implies #[trigger] grown(e, k, j) by { if j < n { assert(grown(m, i, j)); assert forall|p: int| 0 <= p <= j implies #[trigger] e[p] == m[p] by {} lemma_grown_same(m, i, e, k, h, j); } }
  assert(e =~= smaps(all));
}
pub proof fn lemma_make_full<'a, T, NT, AK, AV, V>(g: &Grammar<T, NT, AK, AV>, w: &'a StartGrammar<T, NT, AK, AV>, s: Seq<EarleyStateSet<'a, T, NT, AK, AV, V>>, tk: Seq<Token<T, V>>, i: Inner<T, AK, V>, h: TreeHandle<'a, T, AK, V>)
  requires wrapped(g, *w), s.len() == tk.len() + 1, tk.len() <= usize::MAX, inner_wf(i), formed(smaps(s), tk, i, h, s.len() as int), chart(w, kinds(tk), st_sets(kinds(tk), s)), st_sound(w, kinds(tk), s)
  ensures full(g, w, smaps(s), tk, i, h)
{
  hide(leaves); hide(apart); hide(tree_ok); hide(grown); hide(chart); hide(inner_wf); hide(wrapped);
  let m = smaps(s);
  let c: Seq<ISet<Key<'a, T, NT, AK, AV>>> = st_sets(kinds(tk), s);
  assert forall|j: int| 0 <= j < c.len() implies #[trigger] c[j] == msets(m)[j] by { assert(c[j] =~= msets(m)[j]); }
  assert(c =~= msets(m));
  assert forall|j: int, k: Key<'a, T, NT, AK, AV>| #[trigger] has(m, j, k) implies sound(w, lift(kinds(tk)), k, j) by { assert(keys(&s[j]).contains(k)); }
}
/// The forest of all sets.
pub proof fn lemma_parsed<'a, T, NT, AK, AV, V>(w: &'a StartGrammar<T, NT, AK, AV>, s: Seq<EarleyStateSet<'a, T, NT, AK, AV, V>>, tk: Seq<Token<T, V>>, i: Inner<T, AK, V>, h: TreeHandle<'a, T, AK, V>, f: Key<'a, T, NT, AK, AV>)
  requires s.len() == tk.len() + 1, tk.len() <= usize::MAX, inner_wf(i), formed(smaps(s), tk, i, h, s.len() as int), chart(w, kinds(tk), st_sets(kinds(tk), s)), st_sound(w, kinds(tk), s), s.last().states@.contains_key(f), is_final(f), s.last().states@[f]@.len() == 1
  ensures forall|g: Grammar<T, NT, AK, AV>| #[trigger] wrapped(&g, *w) ==> is_forest(&g, i, s.last().states@[f]@[0].index, tk), s.last().states@[f]@[0].index < i.nodes@.len(), s.last().states@[f]@[0].inner == h
{
  hide(leaves); hide(apart); hide(grown); hide(chart); hide(inner_wf); hide(wrapped); hide(is_forest); hide(is_final);
  let m = smaps(s);
  let j = tk.len() as int;
  assert(m[j] == s.last().states@);
  assert(has(m, j, f));
  assert(st_ok(m, i, h, j, f));
  assert(vals(m, j, f)[0].index < i.nodes@.len());
  assert(own(m, j, f) == s.last().states@[f]@[0].index);
  assert forall|g: Grammar<T, NT, AK, AV>| #[trigger] wrapped(&g, *w) implies is_forest(&g, i, s.last().states@[f]@[0].index, tk) by {
    lemma_make_full(&g, w, s, tk, i, h);
    lemma_forest(&g, w, m, tk, i, h, f);
  }
}
pub proof fn lemma_formed_is<'a, T, NT, AK, AV, V>(m: Seq<St<'a, T, NT, AK, AV, V>>, tk: Seq<Token<T, V>>, i: Inner<T, AK, V>, h: TreeHandle<'a, T, AK, V>, c: int)
  requires formed(m, tk, i, h, c)
  ensures tree_ok(m, i, h), apart(m), leaves(m, tk, i)
{}
pub proof fn lemma_formed_wf<'a, T, NT, AK, AV, V>(s: Seq<EarleyStateSet<'a, T, NT, AK, AV, V>>, tk: Seq<Token<T, V>>, i: Inner<T, AK, V>, h: TreeHandle<'a, T, AK, V>)
  requires formed(smaps(s), tk, i, h, s.len() as int), s.len() > 0
  ensures prev_ok(s, h)
{
  let m = smaps(s);
  assert forall|j: int| 0 <= j < s.len() implies set_wf(#[trigger] &s[j], h) && o_ok(&s[j], j) by {
    assert(m[j] == s[j].states@);
    assert forall|k: Key<'a, T, NT, AK, AV>| #[trigger] s[j].states@.contains_key(k) implies k_wf(k) && v_wf(k, s[j].states@[k]@, h) && k.origin_index <= j by { assert(has(m, j, k)); assert(st_ok(m, i, h, j, k)); }
  }
}
@fn src/parsers/earley.rs parse -> r
  requires exists|g: Grammar<T, NT, AK, AV>| wrapped(&g, *grammar), h_ok(*tree_handle, *old(vx_t))
  ensures
    forall|g: Grammar<T, NT, AK, AV>| #[trigger] wrapped(&g, *grammar) ==> (r is Some) == derives(&g, g.start_symbol, kinds(tokens@)),
    t_step(*old(vx_t), *final(vx_t)),
    r is Some ==> r->Some_0.inner == *tree_handle && n_ok(r->Some_0, *final(vx_t)),
    forall|g: Grammar<T, NT, AK, AV>| #[trigger] wrapped(&g, *grammar) && r is Some ==> is_forest(&g, final(vx_t).v, r->Some_0.index, tokens@),
.thread vx_t: &mut Tok<T, AK, V>
.attr
#[verifier::rlimit(60)]
.start
  hide(tree_ok); hide(apart); hide(leaves); hide(leaf_keep); hide(grown); hide(formed); hide(is_forest); hide(frame); hide(grows); hide(inner_wf); hide(set_wf); hide(leaf_node);
  let ghost i0 = vx_t.v;
  proof { lemma_grows(vx_t.v, vx_t.v, vx_t.v); lemma_vec_len(tokens); }
  let ghost g0 = choose|g: Grammar<T, NT, AK, AV>| wrapped(&g, *grammar);
  proof { lemma_w_shape(&g0, grammar); }
  let ghost w = kinds(tokens@);
  let ghost tk = tokens@;
.after_let init_state
  proof {
    let v0 = ax_vector_of(Seq::<usize>::empty());
    let z: Key<'a, T, NT, AK, AV> = EarleyStateKey { prod_state: ProdState { prod: start_prod(grammar), index: 0 }, origin_index: 0, child_origins: v0 };
    assert(k_init(start_prod(grammar), 0, z));
    assert(init_state.states@.contains_key(z));
    assert forall|k: Key<'a, T, NT, AK, AV>| #[trigger] keys(&init_state).contains(k) implies k.origin_index <= 0 && sound(grammar, lift(w), k, 0) by {
      assert(init_state.states@.contains_key(k));
      lemma_sound_init(grammar, lift(w), k, StartNonTerminal::Start, 0, 0);
    }
    lemma_sound_closed(grammar, lift(w), states@);
    assert(ikeys(&init_state).subset_of(sound_set(grammar, lift(w), 0)));
    lemma_formed_init(grammar, &init_state, tokens@, i0, *tree_handle);
    assert(states@ =~= Seq::<EarleyStateSet<'a, T, NT, AK, AV, V>>::empty());
    lemma_formed_is(maps(states@, &init_state), tokens@, i0, *tree_handle, 0);
  }
  let ghost init0 = init_state;
.before_loop 1
  proof {
    assert(states@.len() == 1);
    assert(states@ =~= Seq::<EarleyStateSet<'a, T, NT, AK, AV, V>>::empty().push(states@[0]));
    lemma_formed_close(Seq::<EarleyStateSet<'a, T, NT, AK, AV, V>>::empty(), &init0, &states@[0], tokens@, i0, vx_t.v, *tree_handle, states@);
    lemma_formed_wf(states@, tokens@, vx_t.v, *tree_handle);
    assert forall|k: Key<'a, T, NT, AK, AV>| k_init(start_prod(grammar), 0, k) implies #[trigger] keys(&states@[0]).contains(k) by { assert(init0.states@.contains_key(k)); }
    assert(states@.take(0) =~= Seq::<EarleyStateSet<'a, T, NT, AK, AV, V>>::empty());
    assert forall|i: int, k: Key<'a, T, NT, AK, AV>| #![trigger keys(&states@[i]).contains(k)] 0 <= i < states@.len() && keys(&states@[i]).contains(k) implies sound(grammar, lift(w), k, i) by { assert(ikeys(&states@[0]).contains(k)); assert(sound_set(grammar, lift(w), 0).contains(k)); }
  }
.loop 1
  invariant
    states@.len() == vx_n1 + 1, vx_s1 == tk, tk.len() <= usize::MAX, w == kinds(tk), h_ok(*tree_handle, *vx_t), t_step(*old(vx_t), *vx_t), formed(smaps(states@), tk, vx_t.v, *tree_handle, states@.len() as int), prev_ok(states@, *tree_handle), st_chart(grammar, w, states@), st_sound(grammar, w, states@),
.loop_start 1
  let ghost ib = vx_t.v;
.after_let new_state
  let ghost is = vx_t.v;
  let ghost n = states@.len() as int;
  let ghost prev = states@;
  proof {
    assert(vx_s1[vx_n1 - 1] == token);
    assert(w[n - 1] == token.kind);
    assert forall|y: Key<'a, T, NT, AK, AV>| #[trigger] keys(&new_state).contains(y) implies y.origin_index <= n && sound(grammar, lift(w), y, n) by {
      assert(new_state.states@.contains_key(y));
      let x = choose|x: Key<'a, T, NT, AK, AV>| #[trigger] shifted(&prev[n - 1], token.kind, x, y, new_state.states@[y]@);
      assert(keys(&prev[n - 1]).contains(x));
      let u = lift(w).subrange(n - 1, n);
      assert(u =~= seq![StreamTerminal::Term(token.kind)]);
      lemma_el_term(grammar, StreamTerminal::Term(token.kind), u);
      lemma_sound_adv(grammar, lift(w), x, y, n - 1, n);
    }
    assert forall|x: Key<'a, T, NT, AK, AV>, y: Key<'a, T, NT, AK, AV>| keys(&prev[n - 1]).contains(x) && #[trigger] k_scan(x, w[n - 1], y) implies keys(&new_state).contains(y) by { assert(prev[n - 1].states@.contains_key(x)); assert(new_state.states@.contains_key(y)); }
    lemma_sound_closed(grammar, lift(w), prev);
    assert(ikeys(&new_state).subset_of(sound_set(grammar, lift(w), n)));
    assert(tk[n - 1] == token);
    lemma_formed_shift(prev, &new_state, tk, ib, is, *tree_handle);
    lemma_formed_is(maps(prev, &new_state), tk, is, *tree_handle, n);
    lemma_grows(old(vx_t).v, ib, is);
  }
  let ghost new0 = new_state;
.before_return 1
  proof {
    lemma_st_chart(grammar, w, prev);
    assert forall|g: Grammar<T, NT, AK, AV>| #[trigger] wrapped(&g, *grammar) implies !derives(&g, g.start_symbol, w) by {
      lemma_w_derives(&g, grammar, g.start_symbol, w);
      if derives(&g, g.start_symbol, w) { lemma_final_chart(&g, grammar, w, st_sets(w, prev)); }
    }
  }
.loop_end 1
  proof {
    assert(states@ =~= prev.push(states@[n]));
    lemma_formed_close(prev, &new0, &states@[n], tk, is, vx_t.v, *tree_handle, states@);
    lemma_formed_wf(states@, tk, vx_t.v, *tree_handle);
    lemma_grows(old(vx_t).v, is, vx_t.v);
    assert(forall|i: int| 0 <= i < n ==> states@[i] == prev[i]);
    assert forall|i: int, x: Key<'a, T, NT, AK, AV>, y: Key<'a, T, NT, AK, AV>| #![trigger keys(&states@[i]).contains(x), k_scan(x, w[i], y)] 0 <= i < states@.len() - 1 && keys(&states@[i]).contains(x) && k_scan(x, w[i], y) implies keys(&states@[i + 1]).contains(y) by {
      if i == n - 1 { assert(keys(&new0).contains(y)); } else { assert(keys(&prev[i]).contains(x)); assert(keys(&prev[i + 1]).contains(y)); }
    }
    assert forall|i: int| 0 <= i < states@.len() implies #[trigger] pc_closed(grammar, states@.take(i), ikeys(&states@[i])) by {
      assert(states@.take(i) =~= prev.take(i));
      if i == n { assert(prev.take(n) =~= prev); } else { assert(pc_closed(grammar, prev.take(i), ikeys(&prev[i]))); }
    }
    assert forall|k: Key<'a, T, NT, AK, AV>| k_init(start_prod(grammar), 0, k) implies #[trigger] keys(&states@[0]).contains(k) by { assert(keys(&prev[0]).contains(k)); }
    assert forall|i: int, k: Key<'a, T, NT, AK, AV>| #![trigger keys(&states@[i]).contains(k)] 0 <= i < states@.len() && keys(&states@[i]).contains(k) implies sound(grammar, lift(w), k, i) by {
      if i == n { assert(ikeys(&states@[n]).contains(k)); assert(sound_set(grammar, lift(w), n).contains(k)); } else { assert(keys(&prev[i]).contains(k)); }
    }
  }
.after_let last_state
  proof {
    let n = w.len() as int;
    assert(*last_state == states@[n]);
    lemma_st_chart(grammar, w, states@);
    assert(*last_state == states@.last());
    assert forall|f: Key<'a, T, NT, AK, AV>| last_state.states@.contains_key(f) && #[trigger] is_final(f) && last_state.states@[f]@.len() == 1 implies
      last_state.states@[f]@[0].index < vx_t.v.nodes@.len() && last_state.states@[f]@[0].inner == *tree_handle && forall|g: Grammar<T, NT, AK, AV>| #[trigger] wrapped(&g, *grammar) ==> is_forest(&g, vx_t.v, last_state.states@[f]@[0].index, tk) by { lemma_parsed(grammar, states@, tk, vx_t.v, *tree_handle, f); }
    assert forall|k: Key<'a, T, NT, AK, AV>| last_state.states@.contains_key(k) && #[trigger] is_final(k) implies last_state.states@[k]@.len() == 1 && derives(grammar, StartNonTerminal::NTerm(g0.start_symbol), lift(w)) by {
      assert(keys(&states@[n]).contains(k));
      lemma_final_sound(&g0, grammar, w, k);
      reveal(set_wf);
      assert(set_wf(&states@[n], *tree_handle));
    }
    assert forall|g: Grammar<T, NT, AK, AV>| #[trigger] wrapped(&g, *grammar) implies derives(&g, g.start_symbol, w) == exists|k: Key<'a, T, NT, AK, AV>| last_state.states@.contains_key(k) && #[trigger] is_final(k) by {
      lemma_w_derives(&g, grammar, g.start_symbol, w);
      if derives(&g, g.start_symbol, w) {
        lemma_final_chart(&g, grammar, w, st_sets(w, states@));
        let k = choose|k: Key<'a, T, NT, AK, AV>| #[trigger] is_final(k) && st_sets(w, states@)[n].contains(k);
        assert(keys(&states@[n]).contains(k)); assert(last_state.states@.contains_key(k));
      }
      if exists|k: Key<'a, T, NT, AK, AV>| last_state.states@.contains_key(k) && #[trigger] is_final(k) {
        let k = choose|k: Key<'a, T, NT, AK, AV>| last_state.states@.contains_key(k) && #[trigger] is_final(k);
        assert(keys(&states@[n]).contains(k));
        lemma_final_sound(&g, grammar, w, k);
      }
    }
  }
@end
} // verus!
