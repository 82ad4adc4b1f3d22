@use utils.rs
@use base.rs
@use grammar_check.rs
@use builder.rs
@use start.rs
@use state.rs
@use derive.rs
@use im.rs
@use parsers.rs
@dropbound Debug
@inline src/utils.rs change_iter
@inline src/utils.rs change_loop
verus! {
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(AK)]
#[verifier::reject_recursive_types(V)]
pub struct TreeHandle<'a, T, AK, V> { v: &'a (T, AK, V) }
@type src/parsers/tree.rs Node reject=T,AK,V
impl<'a, T, AK, V> Clone for Node<'a, T, AK, V> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
@fn src/parsers/tree.rs TreeHandle::make_leaf_node trusted -> r
  ensures r.inner == *self
@end
@fn src/parsers/tree.rs TreeHandle::make_branch_node trusted -> r
  requires forall|n: Node<'a, T, AK, V>| nodes.vx_seq().contains(n) ==> n.inner == *self
  ensures r.inner == *self
@end
@fn src/parsers/tree.rs Node::add_all trusted -> r
  requires self.inner == other.inner
@end
@type src/parsers/earley/state.rs EarleyStateKey reject=T,NT,AK,AV
@type src/parsers/earley/state.rs EarleyState reject=T,NT,AK,AV,V
@type src/parsers/earley/state.rs EarleyStateSet reject=T,NT,AK,AV,V
impl<'a, T, NT: Ord, AK, AV> PartialEq for EarleyStateKey<'a, T, NT, AK, AV> { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }
impl<'a, T, NT: Ord, AK, AV> Eq for EarleyStateKey<'a, T, NT, AK, AV> {}
impl<'a, T, NT: Ord, AK, AV> PartialOrd for EarleyStateKey<'a, T, NT, AK, AV> { #[verifier::external_body] fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { unimplemented!() } }
impl<'a, T, NT: Ord, AK, AV> Ord for EarleyStateKey<'a, T, NT, AK, AV> { #[verifier::external_body] fn cmp(&self, o: &Self) -> std::cmp::Ordering { unimplemented!() } }
impl<'a, T, NT, AK, AV> Clone for EarleyStateKey<'a, T, NT, AK, AV> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub type Key<'a, T, NT, AK, AV> = EarleyStateKey<'a, T, NT, AK, AV>;
pub type SElem<T, NT> = Elem<StreamTerminal<T>, StartNonTerminal<NT>>;

// ---- keys
pub open spec fn k_elems<T, NT, AK, AV>(k: Key<'_, T, NT, AK, AV>) -> Seq<ProdElement<StreamTerminal<T>, StartNonTerminal<NT>>> { k.prod_state.prod.prod.elements@ }
/// What `k` expects next.
pub open spec fn k_next<T, NT, AK, AV>(k: Key<'_, T, NT, AK, AV>) -> Option<SElem<T, NT>> { if k.prod_state.index < k_elems(k).len() { Some(k_elems(k)[k.prod_state.index as int].element) } else { None } }
pub open spec fn k_adv<'a, T, NT, AK, AV>(k: Key<'a, T, NT, AK, AV>, co: Seq<usize>, r: Key<'a, T, NT, AK, AV>) -> bool {
  r.prod_state.prod == k.prod_state.prod && r.prod_state.index == k.prod_state.index + 1 && r.origin_index == k.origin_index && r.child_origins@ == co
}
pub open spec fn k_init<'a, T, NT, AK, AV>(p: Prod<'a, StreamTerminal<T>, StartNonTerminal<NT>, StartActionKey<AK>, StartActionValue<AV>>, n: int, r: Key<'a, T, NT, AK, AV>) -> bool {
  r.prod_state.prod == p && r.prod_state.index == 0 && r.origin_index == n && r.child_origins@.len() == 0
}
/// The production the wrapper adds ends in the end of the stream; every other one has an action of the original grammar.
pub open spec fn p_shape<T, NT, AK, AV>(p: ProdInner<StreamTerminal<T>, StartNonTerminal<NT>, StartActionKey<AK>, StartActionValue<AV>>) -> bool {
  p.action_key is Start ==> p.elements@.len() > 0 && p.elements@.last().element == (Elem::<StreamTerminal<T>, StartNonTerminal<NT>>::Term(StreamTerminal::EndOfStream))
}
pub open spec fn k_wf<T, NT, AK, AV>(k: Key<'_, T, NT, AK, AV>) -> bool {
  &&& k.prod_state.index <= k_elems(k).len() && p_shape(*k.prod_state.prod.prod)
  &&& k.prod_state.index > 0 ==> k_elems(k)[k.prod_state.index - 1].element != (Elem::<StreamTerminal<T>, StartNonTerminal<NT>>::Term(StreamTerminal::EndOfStream))
}
pub open spec fn k_scan<'a, T, NT, AK, AV>(k: Key<'a, T, NT, AK, AV>, t: T, r: Key<'a, T, NT, AK, AV>) -> bool {
  k_next(k) == Some(Elem::<StreamTerminal<T>, StartNonTerminal<NT>>::Term(StreamTerminal::Term(t))) && k_adv(k, k.child_origins@, r)
}
/// `x` is complete, `z` waits for its head, and `r` is `z` past it.
pub open spec fn k_comp<'a, T, NT, AK, AV>(x: Key<'a, T, NT, AK, AV>, z: Key<'a, T, NT, AK, AV>, r: Key<'a, T, NT, AK, AV>) -> bool {
  k_next(x) is None && k_next(z) == Some(Elem::<StreamTerminal<T>, StartNonTerminal<NT>>::NonTerm(*x.prod_state.prod.head)) && k_adv(z, z.child_origins@.push(x.origin_index), r)
}
/// `r` starts production `i` of the nonterminal `x` expects, at `n`.
pub open spec fn k_pred<'a, T, NT, AK, AV>(g: &'a StartGrammar<T, NT, AK, AV>, x: Key<'a, T, NT, AK, AV>, n: int, i: int, r: Key<'a, T, NT, AK, AV>) -> bool {
  match k_next(x) {
    Some(Elem::NonTerm(b)) => g.rule_set@.contains_key(b) && 0 <= i < g.rule_set@[b].prods@.len() && k_init(mk_prod(g, &g.rule_set@[b].head, &g.rule_set@[b].prods@[i]), n, r),
    _ => false,
  }
}
pub open spec fn is_final<T, NT, AK, AV>(k: Key<'_, T, NT, AK, AV>) -> bool { k_next(k) == Some(Elem::<StreamTerminal<T>, StartNonTerminal<NT>>::Term(StreamTerminal::EndOfStream)) }

@fn src/parsers/earley/state.rs EarleyStateKey::is_final_key -> r
  ensures r == is_final(*self)
.desugar and_then map_or
@end

// ---- states
/// One value for each element passed, all of the tree `h`.
pub open spec fn v_wf<'a, T, NT, AK, AV, V>(k: Key<'a, T, NT, AK, AV>, v: Seq<Node<'a, T, AK, V>>, h: TreeHandle<'a, T, AK, V>) -> bool {
  v.len() == k.prod_state.index && forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).inner == h
}
pub open spec fn s_wf<'a, T, NT, AK, AV, V>(s: EarleyState<'a, T, NT, AK, AV, V>, h: TreeHandle<'a, T, AK, V>) -> bool { k_wf(s.key) && v_wf(s.key, s.value@, h) }
@fn src/parsers/earley/state.rs EarleyState::from_prod_start -> r
  ensures k_init(prod, index as int, r.key), r.value@.len() == 0
@end
@fn src/parsers/earley/state.rs EarleyState::prod_state -> r
  ensures *r == self.key.prod_state
@end
@fn src/parsers/earley/state.rs EarleyState::create_next_value -> r
  ensures r@ == self.value@.push(node)
@end
@fn src/parsers/earley/state.rs EarleyState::create_next_child_origins -> r
  ensures r@ == self.key.child_origins@.push(child_origin)
@end
@fn src/parsers/earley/state.rs EarleyState::scan -> r
  requires s_wf(*self, *tree_handle)
  ensures match r {
    Some(s) => k_scan(self.key, next_token.kind, s.key) && s_wf(s, *tree_handle),
    None => k_next(self.key) != Some(Elem::<StreamTerminal<T>, StartNonTerminal<NT>>::Term(StreamTerminal::Term(next_token.kind))),
  }
.desugar and_then filter map
@end

pub open spec fn g_shape<T, NT, AK, AV>(g: &StartGrammar<T, NT, AK, AV>) -> bool {
  forall|b: StartNonTerminal<NT>, i: int| g.rule_set@.contains_key(b) && 0 <= i < g.rule_set@[b].prods@.len() ==> p_shape(#[trigger] g.rule_set@[b].prods@[i])
}
@fn src/parsers/earley/state.rs EarleyState::predict -> r
  requires g_shape(grammar), k_wf(self.key)
  ensures
    forall|s: EarleyState<'a, T, NT, AK, AV, V>| #[trigger] r@.contains(s) ==> k_wf(s.key) && s.value@.len() == 0 && exists|i: int| #[trigger] k_pred(grammar, self.key, prev_states@.len() as int, i, s.key),
    forall|i: int, y: Key<'a, T, NT, AK, AV>| #[trigger] k_pred(grammar, self.key, prev_states@.len() as int, i, y) ==> exists|s: EarleyState<'a, T, NT, AK, AV, V>| #[trigger] r@.contains(s) && s.key == y,
.steps
.closure 1
  -> (vx_r: Option<&StartNonTerminal<NT>>) ensures vx_r == (match **nt { Elem::NonTerm(b) => Some(&b), Elem::Term(_) => None })
.closure 2
  -> (vx_r: Option<Rule<'a, StreamTerminal<T>, StartNonTerminal<NT>, StartActionKey<AK>, StartActionValue<AV>>>) ensures vx_r == (if grammar.rule_set@.contains_key(*nt) { Some(mk_rule(grammar, &grammar.rule_set@[*nt])) } else { None })
.closure 3
  -> (vx_r: It<Prod<'a, StreamTerminal<T>, StartNonTerminal<NT>, StartActionKey<AK>, StartActionValue<AV>>>) ensures vx_r@ == rule_prods(r)
.closure 4
  -> (vx_r: EarleyState<'a, T, NT, AK, AV, V>) ensures k_init(p, prev_states@.len() as int, vx_r.key), vx_r.value@.len() == 0
.end
  proof {
    let n = prev_states@.len() as int;
    assert forall|s: EarleyState<'a, T, NT, AK, AV, V>| #[trigger] vx_tail@.contains(s) implies k_wf(s.key) && s.value@.len() == 0 && exists|i: int| #[trigger] k_pred(grammar, self.key, n, i, s.key) by {
      assert(vx_0_7@.contains(s));
      let p = choose|p: Prod<'a, StreamTerminal<T>, StartNonTerminal<NT>, StartActionKey<AK>, StartActionValue<AV>>| vx_0_6@.contains(p) && k_init(p, n, s.key) && s.value@.len() == 0;
      let r = choose|r: Rule<'a, StreamTerminal<T>, StartNonTerminal<NT>, StartActionKey<AK>, StartActionValue<AV>>| #[trigger] vx_0_5@.contains(r) && rule_prods(r).contains(p);
      let b = choose|b: &StartNonTerminal<NT>| vx_0_4@.contains(b) && grammar.rule_set@.contains_key(*b) && r == mk_rule(grammar, &grammar.rule_set@[*b]);
      let e = choose|e: &&SElem<T, NT>| #[trigger] vx_0_3@.contains(e) && (match **e { Elem::NonTerm(c) => b == &c, Elem::Term(_) => false });
      assert(k_next(self.key) == Some(**e));
      let i = rule_prods(r).index_of(p);
      assert(p_shape(grammar.rule_set@[*b].prods@[i]));
      assert(k_pred(grammar, self.key, n, i, s.key));
    }
    assert forall|i: int, y: Key<'a, T, NT, AK, AV>| #[trigger] k_pred(grammar, self.key, n, i, y) implies exists|s: EarleyState<'a, T, NT, AK, AV, V>| #[trigger] vx_tail@.contains(s) && s.key == y by {
      let b = match k_next(self.key) { Some(Elem::NonTerm(b)) => b, _ => arbitrary() };
      assert(vx_0_3@.len() == 1);
      let e = vx_0_3@[0];
      assert(vx_0_3@.contains(e));
      assert(vx_0_4@.contains(&b));
      let r = mk_rule(grammar, &grammar.rule_set@[b]);
      assert(vx_0_5@.contains(r));
      let p = rule_prods(r)[i];
      assert(rule_prods(r).contains(p));
      assert(vx_0_6@.contains(p));
      let s = choose|s: EarleyState<'a, T, NT, AK, AV, V>| vx_0_7@.contains(s) && k_init(p, n, s.key);
      assert(s.key.child_origins@ =~= y.child_origins@);
      ax_vector_ext(s.key.child_origins, y.child_origins);
      assert(s.key == y);
      assert(vx_tail@.contains(s));
    }
  }
@end

// ---- sets of states
pub open spec fn set_wf<'a, T, NT, AK, AV, V>(s: &EarleyStateSet<'a, T, NT, AK, AV, V>, h: TreeHandle<'a, T, AK, V>) -> bool {
  forall|k: Key<'a, T, NT, AK, AV>| #[trigger] s.states@.contains_key(k) ==> k_wf(k) && v_wf(k, s.states@[k]@, h)
}
pub open spec fn keys<'a, T, NT, AK, AV, V>(s: &EarleyStateSet<'a, T, NT, AK, AV, V>) -> Set<Key<'a, T, NT, AK, AV>> { s.states@.dom() }
@fn src/parsers/earley/state.rs EarleyStateSet::new -> r
  ensures r.states@ == Map::<Key<'a, T, NT, AK, AV>, Vector<Node<'a, T, AK, V>>>::empty()
@end
@fn src/parsers/earley/state.rs EarleyStateSet::is_empty -> r
  ensures r == (keys(self) == Set::<Key<'a, T, NT, AK, AV>>::empty())
@end
@fn src/parsers/earley/state.rs EarleyStateSet::states -> r
  ensures forall|s: EarleyState<'a, T, NT, AK, AV, V>| #[trigger] r@.contains(s) == (self.states@.contains_key(s.key) && self.states@[s.key] == s.value),
    forall|i: int| 0 <= i < r@.len() ==> self.states@.contains_key((#[trigger] r@[i]).key) && self.states@[r@[i].key] == r@[i].value
.steps
.closure 1
  -> (vx_r: EarleyState<'a, T, NT, AK, AV, V>) ensures vx_r.key == *vx_p0.0 && vx_r.value == *vx_p0.1
.end
  proof {
    assert forall|s: EarleyState<'a, T, NT, AK, AV, V>| #[trigger] vx_tail@.contains(s) == (self.states@.contains_key(s.key) && self.states@[s.key] == s.value) by {
      if self.states@.contains_key(s.key) && self.states@[s.key] == s.value { assert(vx_0_1@.contains((&s.key, &s.value))); }
    }
    assert forall|i: int| 0 <= i < vx_tail@.len() implies self.states@.contains_key((#[trigger] vx_tail@[i]).key) && self.states@[vx_tail@[i].key] == vx_tail@[i].value by { assert(vx_tail@.contains(vx_tail@[i])); }
  }
@end
@fn src/parsers/earley/state.rs EarleyStateSet::get_final -> r
  requires forall|k: Key<'a, T, NT, AK, AV>| self.states@.contains_key(k) && #[trigger] is_final(k) ==> self.states@[k]@.len() == 1
  ensures match r {
    Some(n) => exists|k: Key<'a, T, NT, AK, AV>| self.states@.contains_key(k) && #[trigger] is_final(k) && self.states@[k]@ == seq![*n],
    None => forall|k: Key<'a, T, NT, AK, AV>| self.states@.contains_key(k) ==> !#[trigger] is_final(k),
  }
.loop 1
  invariant forall|i: int| 0 <= i < vx_n1 ==> !is_final(*#[trigger] vx_s1[i].0)
.before_return 1
  proof { assert(vx_s1.contains((k, v))); assert(v@ =~= seq![v@[0]]); }
.after_loop 1
  proof { assert forall|k: Key<'a, T, NT, AK, AV>| self.states@.contains_key(k) implies !#[trigger] is_final(k) by { assert(vx_s1.contains((&k, &self.states@[k]))); } }
@end
@fn src/parsers/earley/state.rs EarleyStateSet::insert -> r
  requires old(self).states@.contains_key(state.key) ==> exists|h: TreeHandle<'a, T, AK, V>| v_wf(state.key, old(self).states@[state.key]@, h) && #[trigger] v_wf(state.key, state.value@, h)
  ensures
    old(self).states@.contains_key(state.key) ==> final(self).states@ == old(self).states@,
    !old(self).states@.contains_key(state.key) ==> final(self).states@ == old(self).states@.insert(state.key, state.value) && r is Changed,
.start
  let ghost v0 = old(self).states@[state.key];
.loop 1
  invariant existing_nodes@ == vx_s1
.loop_end 1
  proof { assert(existing_nodes@ =~= vx_s1); }
.after_loop 1
  proof { ax_vector_ext(*existing_nodes, v0); }
.end
  proof { if old(self).states@.contains_key(state.key) { assert(self.states@ =~= old(self).states@); } }
@end
pub open spec fn all_wf<'a, T, NT, AK, AV, V>(s: Seq<EarleyState<'a, T, NT, AK, AV, V>>, h: TreeHandle<'a, T, AK, V>) -> bool { forall|i: int| 0 <= i < s.len() ==> s_wf(#[trigger] s[i], h) }
@fn src/parsers/earley/state.rs EarleyStateSet::from_states -> r
  requires exists|h: TreeHandle<'a, T, AK, V>| all_wf(iter.vx_seq(), h)
  ensures
    forall|k: Key<'a, T, NT, AK, AV>| #[trigger] r.states@.contains_key(k) ==> exists|i: int| 0 <= i < iter.vx_seq().len() && (#[trigger] iter.vx_seq()[i]).key == k && iter.vx_seq()[i].value == r.states@[k],
    forall|i: int| 0 <= i < iter.vx_seq().len() ==> r.states@.contains_key((#[trigger] iter.vx_seq()[i]).key),
.start
  let ghost h = choose|h: TreeHandle<'a, T, AK, V>| all_wf(iter.vx_seq(), h);
.loop 1
  invariant
    forall|k: Key<'a, T, NT, AK, AV>| #[trigger] state_set.states@.contains_key(k) ==> exists|i: int| 0 <= i < vx_s1.len() && (#[trigger] vx_s1[i]).key == k && vx_s1[i].value == state_set.states@[k],
    forall|i: int| 0 <= i < vx_n1 ==> state_set.states@.contains_key((#[trigger] vx_s1[i]).key),
.loop_start 1
  proof {
    assert(vx_s1[vx_n1 - 1] == state);
    assert(s_wf(state, h));
    if state_set.states@.contains_key(state.key) {
      let i = choose|i: int| 0 <= i < vx_s1.len() && (#[trigger] vx_s1[i]).key == state.key && vx_s1[i].value == state_set.states@[state.key];
      assert(s_wf(vx_s1[i], h));
      assert(v_wf(state.key, state.value@, h));
    }
  }
@end
pub open spec fn start_prod<'a, T, NT, AK, AV>(g: &'a StartGrammar<T, NT, AK, AV>) -> Prod<'a, StreamTerminal<T>, StartNonTerminal<NT>, StartActionKey<AK>, StartActionValue<AV>> {
  mk_prod(g, &g.rule_set@[StartNonTerminal::Start].head, &g.rule_set@[StartNonTerminal::Start].prods@[0])
}
/// The set of the one state `x` at the start of `sp`.
pub proof fn lemma_new_start<'a, T, NT, AK, AV, V>(sp: Prod<'a, StreamTerminal<T>, StartNonTerminal<NT>, StartActionKey<AK>, StartActionValue<AV>>, x: EarleyState<'a, T, NT, AK, AV, V>, ss: Seq<EarleyState<'a, T, NT, AK, AV, V>>, m: Map<Key<'a, T, NT, AK, AV>, Vector<Node<'a, T, AK, V>>>)
  requires
    ss.len() == 1, x == ss[0], k_init(sp, 0, x.key), x.value@.len() == 0, p_shape(*sp.prod),
    forall|k: Key<'a, T, NT, AK, AV>| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < ss.len() && (#[trigger] ss[i]).key == k && ss[i].value == m[k],
    forall|i: int| 0 <= i < ss.len() ==> m.contains_key((#[trigger] ss[i]).key),
  ensures
    forall|h: TreeHandle<'a, T, AK, V>, k: Key<'a, T, NT, AK, AV>| #[trigger] m.contains_key(k) ==> k_wf(k) && #[trigger] v_wf(k, m[k]@, h),
    forall|k: Key<'a, T, NT, AK, AV>| #[trigger] m.contains_key(k) == k_init(sp, 0, k),
{
  assert(m.contains_key(ss[0].key));
  assert forall|k: Key<'a, T, NT, AK, AV>| #[trigger] m.contains_key(k) implies k == x.key && m[k] == x.value by {}
  assert forall|k: Key<'a, T, NT, AK, AV>| k_init(sp, 0, k) implies #[trigger] m.contains_key(k) by {
    assert(x.key.child_origins@ =~= k.child_origins@);
    ax_vector_ext(x.key.child_origins, k.child_origins);
    assert(x.key == k);
  }
}
@fn src/parsers/earley/state.rs EarleyStateSet::new_start -> r
  requires has_start(grammar), grammar.start_symbol == StartNonTerminal::<NT>::Start, g_wf(grammar), g_shape(grammar)
  ensures
    forall|h: TreeHandle<'a, T, AK, V>| set_wf(&r, h),
    forall|k: Key<'a, T, NT, AK, AV>| #[trigger] r.states@.contains_key(k) == k_init(start_prod(grammar), 0, k),
.steps
.closure 1
  -> (vx_r: EarleyState<'a, T, NT, AK, AV, V>) ensures k_init(prod, 0, vx_r.key), vx_r.value@.len() == 0
.before_call from_states
  proof {
    let sp = start_prod(grammar);
    let sr = mk_rule(grammar, &grammar.rule_set@[StartNonTerminal::Start]);
    assert(vx_0_1@ =~= seq![sp]);
    assert(p_shape(grammar.rule_set@[StartNonTerminal::Start].prods@[0]));
    let h: TreeHandle<'a, T, AK, V> = arbitrary();
    assert forall|i: int| 0 <= i < vx_0_2.vx_seq().len() implies s_wf(#[trigger] vx_0_2.vx_seq()[i], h) by { assert(k_init(vx_0_1@[i], 0, vx_0_2@[i].key)); }
    assert(all_wf(vx_0_2.vx_seq(), h));
  }
.end
  proof { lemma_new_start(start_prod(grammar), vx_0_2@[0], vx_0_2@, vx_tail.states@); }
@end
@fn src/parsers/earley/state.rs EarleyStateSet::shift -> r
  requires set_wf(self, *tree_handle)
  ensures
    set_wf(&r, *tree_handle),
    forall|y: Key<'a, T, NT, AK, AV>| #[trigger] r.states@.contains_key(y) == exists|x: Key<'a, T, NT, AK, AV>| #[trigger] self.states@.contains_key(x) && k_scan(x, token.kind, y),
.steps
.closure 1
  -> (vx_r: Option<EarleyState<'a, T, NT, AK, AV, V>>) requires s_wf(state, *tree_handle) ensures match vx_r { Some(s) => k_scan(state.key, token.kind, s.key) && s_wf(s, *tree_handle), None => k_next(state.key) != Some(Elem::<StreamTerminal<T>, StartNonTerminal<NT>>::Term(StreamTerminal::Term(token.kind))) }
.before_call from_states
  proof { assert forall|i: int| 0 <= i < vx_0_3.vx_seq().len() implies s_wf(#[trigger] vx_0_3.vx_seq()[i], *tree_handle) by { assert(vx_0_3@.contains(vx_0_3@[i])); } assert(all_wf(vx_0_3.vx_seq(), *tree_handle)); }
.end
  proof {
    assert forall|y: Key<'a, T, NT, AK, AV>| #[trigger] vx_tail.states@.contains_key(y) implies s_wf(EarleyState { key: y, value: vx_tail.states@[y] }, *tree_handle) && exists|x: Key<'a, T, NT, AK, AV>| #[trigger] self.states@.contains_key(x) && k_scan(x, token.kind, y) by {
      let i = choose|i: int| 0 <= i < vx_0_3@.len() && (#[trigger] vx_0_3@[i]).key == y && vx_0_3@[i].value == vx_tail.states@[y];
      let s = vx_0_3@[i];
      assert(vx_0_3@.contains(s));
      assert(s_wf(vx_0_3@[i], *tree_handle));
      let x = choose|x: EarleyState<'a, T, NT, AK, AV, V>| vx_0_2@.contains(x) && k_scan(x.key, token.kind, s.key);
      assert(self.states@.contains_key(x.key));
    }
    assert forall|y: Key<'a, T, NT, AK, AV>| (exists|x: Key<'a, T, NT, AK, AV>| #[trigger] self.states@.contains_key(x) && k_scan(x, token.kind, y)) implies #[trigger] vx_tail.states@.contains_key(y) by {
      let x = choose|x: Key<'a, T, NT, AK, AV>| #[trigger] self.states@.contains_key(x) && k_scan(x, token.kind, y);
      let st = EarleyState { key: x, value: self.states@[x] };
      assert(vx_0_1@.contains(st));
      let s = choose|s: EarleyState<'a, T, NT, AK, AV, V>| vx_0_3@.contains(s) && k_scan(x, token.kind, s.key);
      ax_vector_ext(s.key.child_origins, y.child_origins);
      assert(s.key == y);
      let i = vx_0_3@.index_of(s);
      assert(vx_tail.states@.contains_key(vx_0_3@[i].key));
    }
  }
@end
/// The set at position `i`, where `cur` is the one after `prev`.
pub open spec fn set_at<'b, 'a, T, NT, AK, AV, V>(prev: Seq<EarleyStateSet<'a, T, NT, AK, AV, V>>, cur: &'b EarleyStateSet<'a, T, NT, AK, AV, V>, i: int) -> &'b EarleyStateSet<'a, T, NT, AK, AV, V> { if i == prev.len() { cur } else { &prev[i] } }
/// `k` steps over `e` to `p`.
pub open spec fn k_step<'a, T, NT, AK, AV>(k: Key<'a, T, NT, AK, AV>, e: ProdElement<StreamTerminal<T>, StartNonTerminal<NT>>, p: ProdState<'a, StreamTerminal<T>, StartNonTerminal<NT>, StartActionKey<AK>, StartActionValue<AV>>) -> bool {
  k.prod_state.index < k_elems(k).len() && e == k_elems(k)[k.prod_state.index as int] && p.prod == k.prod_state.prod && p.index == k.prod_state.index + 1
}
/// `s` waits for the head of `x`, and `p` is past it.
pub open spec fn c_step<'a, T, NT, AK, AV, V>(x: Key<'a, T, NT, AK, AV>, s: EarleyState<'a, T, NT, AK, AV, V>, p: ProdState<'a, StreamTerminal<T>, StartNonTerminal<NT>, StartActionKey<AK>, StartActionValue<AV>>, h: TreeHandle<'a, T, AK, V>) -> bool {
  s_wf(s, h) && k_next(x) is None && k_next(s.key) == Some(Elem::<StreamTerminal<T>, StartNonTerminal<NT>>::NonTerm(*x.prod_state.prod.head)) && p.prod == s.key.prod_state.prod && p.index == s.key.prod_state.index + 1
}
@fn src/parsers/earley/state.rs EarleyState::complete -> r
  requires
    s_wf(*self, *tree_handle), self.key.origin_index <= prev_states@.len(), set_wf(curr_state, *tree_handle),
    forall|i: int| 0 <= i < prev_states@.len() ==> set_wf(#[trigger] &prev_states@[i], *tree_handle),
  ensures
    all_wf(r@, *tree_handle),
    forall|s: EarleyState<'a, T, NT, AK, AV, V>| #[trigger] r@.contains(s) ==> exists|z: Key<'a, T, NT, AK, AV>| keys(set_at(prev_states@, curr_state, self.key.origin_index as int)).contains(z) && #[trigger] k_comp(self.key, z, s.key),
    forall|z: Key<'a, T, NT, AK, AV>, y: Key<'a, T, NT, AK, AV>| keys(set_at(prev_states@, curr_state, self.key.origin_index as int)).contains(z) && #[trigger] k_comp(self.key, z, y) ==> exists|s: EarleyState<'a, T, NT, AK, AV, V>| #[trigger] r@.contains(s) && s.key == y,
.steps
.desugar map
.closure 1
  -> (vx_r: Option<(EarleyState<'a, T, NT, AK, AV, V>, &'a ProdElement<StreamTerminal<T>, StartNonTerminal<NT>>, ProdState<'a, StreamTerminal<T>, StartNonTerminal<NT>, StartActionKey<AK>, StartActionValue<AV>>)>) requires k_wf(state.key) ensures match vx_r { Some((s, e, p)) => s == state && k_step(s.key, *e, p), None => k_next(state.key) is None }
.closure 2
  -> (vx_r: Option<(EarleyState<'a, T, NT, AK, AV, V>, &'a StartNonTerminal<NT>, ProdState<'a, StreamTerminal<T>, StartNonTerminal<NT>, StartActionKey<AK>, StartActionValue<AV>>)>) ensures match vx_r { Some((s, n, p)) => s == vx_p0.0 && vx_p0.1.element == (Elem::<StreamTerminal<T>, StartNonTerminal<NT>>::NonTerm(*n)) && p == vx_p0.2, None => vx_p0.1.element is Term }
.closure 3
  -> (vx_r: bool) ensures vx_r == (*vx_p0.1 == *self.key.prod_state.prod.head)
.closure 4
  -> (vx_r: EarleyState<'a, T, NT, AK, AV, V>) requires c_step(self.key, vx_p0.0, vx_p0.2, *tree_handle), ensures s_wf(vx_r, *tree_handle) && k_comp(self.key, vx_p0.0.key, vx_r.key)
.after_let vx_0_5
  proof {
    let os = set_at(prev_states@, curr_state, self.key.origin_index as int);
    assert(*origin_state == *os);
    assert forall|i: int| 0 <= i < vx_0_5@.len() implies c_step(self.key, (#[trigger] vx_0_5@[i]).0, vx_0_5@[i].2, *tree_handle) && keys(os).contains(vx_0_5@[i].0.key) by {
      let c = vx_0_5@[i];
      assert(vx_0_5@.contains(c));
      let b = choose|b: (EarleyState<'a, T, NT, AK, AV, V>, &'a ProdElement<StreamTerminal<T>, StartNonTerminal<NT>>, ProdState<'a, StreamTerminal<T>, StartNonTerminal<NT>, StartActionKey<AK>, StartActionValue<AV>>)| vx_0_3@.contains(b) && c.0 == b.0 && b.1.element == (Elem::<StreamTerminal<T>, StartNonTerminal<NT>>::NonTerm(*c.1)) && c.2 == b.2;
      let a = choose|a: EarleyState<'a, T, NT, AK, AV, V>| vx_0_2@.contains(a) && b.0 == a && k_step(a.key, *b.1, b.2);
      assert(os.states@.contains_key(a.key));
    }
  }
.after_let vx_0_6
  proof {
    let os = set_at(prev_states@, curr_state, self.key.origin_index as int);
    assert forall|i: int| 0 <= i < vx_0_6@.len() implies s_wf(#[trigger] vx_0_6@[i], *tree_handle) && keys(os).contains(vx_0_5@[i].0.key) && k_comp(self.key, vx_0_5@[i].0.key, vx_0_6@[i].key) by {}
    assert forall|z: Key<'a, T, NT, AK, AV>, y: Key<'a, T, NT, AK, AV>| keys(os).contains(z) && #[trigger] k_comp(self.key, z, y) implies exists|i: int| 0 <= i < vx_0_6@.len() && (#[trigger] vx_0_6@[i]).key == y by {
      let a = EarleyState { key: z, value: os.states@[z] };
      assert(vx_0_2@.contains(a));
      let b = choose|b: (EarleyState<'a, T, NT, AK, AV, V>, &'a ProdElement<StreamTerminal<T>, StartNonTerminal<NT>>, ProdState<'a, StreamTerminal<T>, StartNonTerminal<NT>, StartActionKey<AK>, StartActionValue<AV>>)| vx_0_3@.contains(b) && b.0 == a && k_step(a.key, *b.1, b.2);
      assert(vx_0_3@.contains(b));
      let c = choose|c: (EarleyState<'a, T, NT, AK, AV, V>, &'a StartNonTerminal<NT>, ProdState<'a, StreamTerminal<T>, StartNonTerminal<NT>, StartActionKey<AK>, StartActionValue<AV>>)| vx_0_4@.contains(c) && c.0 == b.0 && b.1.element == (Elem::<StreamTerminal<T>, StartNonTerminal<NT>>::NonTerm(*c.1)) && c.2 == b.2;
      assert(vx_0_4@.contains(c));
      assert(vx_0_5@.contains(c));
      let i = vx_0_5@.index_of(c);
      let s = vx_0_6@[i];
      ax_vector_ext(s.key.child_origins, y.child_origins);
      assert(s.key == y);
    }
  }
.end
  proof {
    let os = set_at(prev_states@, curr_state, self.key.origin_index as int);
    assert forall|s: EarleyState<'a, T, NT, AK, AV, V>| #[trigger] vx_tail@.contains(s) implies exists|z: Key<'a, T, NT, AK, AV>| keys(os).contains(z) && #[trigger] k_comp(self.key, z, s.key) by {
      let i = vx_tail@.index_of(s);
      assert(s_wf(vx_tail@[i], *tree_handle));
    }
    assert forall|z: Key<'a, T, NT, AK, AV>, y: Key<'a, T, NT, AK, AV>| keys(os).contains(z) && #[trigger] k_comp(self.key, z, y) implies exists|s: EarleyState<'a, T, NT, AK, AV, V>| #[trigger] vx_tail@.contains(s) && s.key == y by {
      let i = choose|i: int| 0 <= i < vx_tail@.len() && (#[trigger] vx_tail@[i]).key == y;
      assert(vx_tail@.contains(vx_tail@[i]));
    }
  }
@end
// ---- closing a set
pub open spec fn n_ok<'a, T, NT, AK, AV, V>(s: &EarleyStateSet<'a, T, NT, AK, AV, V>, n: int) -> bool { forall|k: Key<'a, T, NT, AK, AV>| #[trigger] keys(s).contains(k) ==> k.origin_index <= n }
/// The sets of the earlier positions.
pub open spec fn prev_ok<'a, T, NT, AK, AV, V>(prev: Seq<EarleyStateSet<'a, T, NT, AK, AV, V>>, h: TreeHandle<'a, T, AK, V>) -> bool {
  forall|i: int| 0 <= i < prev.len() ==> set_wf(#[trigger] &prev[i], h) && n_ok(&prev[i], i)
}
/// The keys waiting at `i`, when `s` are those at the current position.
pub open spec fn waiting<'a, T, NT, AK, AV, V>(prev: Seq<EarleyStateSet<'a, T, NT, AK, AV, V>>, s: ISet<Key<'a, T, NT, AK, AV>>, i: int, z: Key<'a, T, NT, AK, AV>) -> bool { if i == prev.len() { s.contains(z) } else { keys(&prev[i]).contains(z) } }
pub open spec fn pc_closed<'a, T, NT, AK, AV, V>(g: &'a StartGrammar<T, NT, AK, AV>, prev: Seq<EarleyStateSet<'a, T, NT, AK, AV, V>>, s: ISet<Key<'a, T, NT, AK, AV>>) -> bool {
  &&& forall|x: Key<'a, T, NT, AK, AV>, i: int, y: Key<'a, T, NT, AK, AV>| s.contains(x) && #[trigger] k_pred(g, x, prev.len() as int, i, y) ==> s.contains(y)
  &&& forall|x: Key<'a, T, NT, AK, AV>, z: Key<'a, T, NT, AK, AV>, y: Key<'a, T, NT, AK, AV>| s.contains(x) && waiting(prev, s, x.origin_index as int, z) && #[trigger] k_comp(x, z, y) ==> s.contains(y)
}
pub open spec fn ikeys<'a, T, NT, AK, AV, V>(s: &EarleyStateSet<'a, T, NT, AK, AV, V>) -> ISet<Key<'a, T, NT, AK, AV>> { ISet::new(|k: Key<'a, T, NT, AK, AV>| keys(s).contains(k)) }
/// `y` follows from `x` by prediction or completion.
pub open spec fn cl_from<'a, T, NT, AK, AV, V>(g: &'a StartGrammar<T, NT, AK, AV>, prev: Seq<EarleyStateSet<'a, T, NT, AK, AV, V>>, cur: &EarleyStateSet<'a, T, NT, AK, AV, V>, x: Key<'a, T, NT, AK, AV>, y: Key<'a, T, NT, AK, AV>) -> bool {
  ||| exists|i: int| #[trigger] k_pred(g, x, prev.len() as int, i, y)
  ||| exists|z: Key<'a, T, NT, AK, AV>| keys(set_at(prev, cur, x.origin_index as int)).contains(z) && #[trigger] k_comp(x, z, y)
}
pub open spec fn cl_out<'a, T, NT, AK, AV, V>(g: &'a StartGrammar<T, NT, AK, AV>, prev: Seq<EarleyStateSet<'a, T, NT, AK, AV, V>>, cur: &EarleyStateSet<'a, T, NT, AK, AV, V>, h: TreeHandle<'a, T, AK, V>, x: Key<'a, T, NT, AK, AV>, out: Seq<EarleyState<'a, T, NT, AK, AV, V>>) -> bool {
  &&& forall|s: EarleyState<'a, T, NT, AK, AV, V>| #[trigger] out.contains(s) ==> s_wf(s, h) && s.key.origin_index <= prev.len() && cl_from(g, prev, cur, x, s.key)
  &&& forall|y: Key<'a, T, NT, AK, AV>| #[trigger] cl_from(g, prev, cur, x, y) ==> exists|s: EarleyState<'a, T, NT, AK, AV, V>| #[trigger] out.contains(s) && s.key == y
}
pub proof fn lemma_cl_out<'a, T, NT, AK, AV, V>(g: &'a StartGrammar<T, NT, AK, AV>, prev: Seq<EarleyStateSet<'a, T, NT, AK, AV, V>>, cur: &EarleyStateSet<'a, T, NT, AK, AV, V>, h: TreeHandle<'a, T, AK, V>, x: Key<'a, T, NT, AK, AV>, a: Seq<EarleyState<'a, T, NT, AK, AV, V>>, b: Seq<EarleyState<'a, T, NT, AK, AV, V>>)
  requires
    prev_ok(prev, h), n_ok(cur, prev.len() as int), x.origin_index <= prev.len(),
    forall|s: EarleyState<'a, T, NT, AK, AV, V>| #[trigger] a.contains(s) ==> k_wf(s.key) && s.value@.len() == 0 && exists|i: int| #[trigger] k_pred(g, x, prev.len() as int, i, s.key),
    forall|i: int, y: Key<'a, T, NT, AK, AV>| #[trigger] k_pred(g, x, prev.len() as int, i, y) ==> exists|s: EarleyState<'a, T, NT, AK, AV, V>| #[trigger] a.contains(s) && s.key == y,
    all_wf(b, h),
    forall|s: EarleyState<'a, T, NT, AK, AV, V>| #[trigger] b.contains(s) ==> exists|z: Key<'a, T, NT, AK, AV>| keys(set_at(prev, cur, x.origin_index as int)).contains(z) && #[trigger] k_comp(x, z, s.key),
    forall|z: Key<'a, T, NT, AK, AV>, y: Key<'a, T, NT, AK, AV>| keys(set_at(prev, cur, x.origin_index as int)).contains(z) && #[trigger] k_comp(x, z, y) ==> exists|s: EarleyState<'a, T, NT, AK, AV, V>| #[trigger] b.contains(s) && s.key == y,
  ensures cl_out(g, prev, cur, h, x, a + b)
{
  let out = a + b;
  assert forall|s: EarleyState<'a, T, NT, AK, AV, V>| #[trigger] out.contains(s) implies s_wf(s, h) && s.key.origin_index <= prev.len() && cl_from(g, prev, cur, x, s.key) by {
    let i = out.index_of(s);
    if i < a.len() { assert(a.contains(a[i])); } else {
      assert(b.contains(b[i - a.len()]));
      assert(s_wf(b[i - a.len()], h));
      let z = choose|z: Key<'a, T, NT, AK, AV>| keys(set_at(prev, cur, x.origin_index as int)).contains(z) && #[trigger] k_comp(x, z, s.key);
      if x.origin_index < prev.len() { let p = &prev[x.origin_index as int]; assert(n_ok(p, x.origin_index as int)); }
    }
  }
  assert forall|y: Key<'a, T, NT, AK, AV>| #[trigger] cl_from(g, prev, cur, x, y) implies exists|s: EarleyState<'a, T, NT, AK, AV, V>| #[trigger] out.contains(s) && s.key == y by {
    let s = if exists|i: int| #[trigger] k_pred(g, x, prev.len() as int, i, y) {
      choose|s: EarleyState<'a, T, NT, AK, AV, V>| #[trigger] a.contains(s) && s.key == y
    } else {
      choose|s: EarleyState<'a, T, NT, AK, AV, V>| #[trigger] b.contains(s) && s.key == y
    };
    if a.contains(s) && s.key == y { let i = a.index_of(s); assert(out[i] == s); } else { assert(b.contains(s)); let i = b.index_of(s); assert(out[a.len() + i] == s); } assert(out.contains(s) && s.key == y);
  }
}
@fn src/parsers/earley.rs close_state
  requires
    g_shape(grammar), set_wf(old(new_state), *tree_handle), n_ok(old(new_state), prev_states@.len() as int), prev_ok(prev_states@, *tree_handle),
    keys(old(new_state)) != Set::<Key<'a, T, NT, AK, AV>>::empty(),
  ensures
    set_wf(final(new_state), *tree_handle), n_ok(final(new_state), prev_states@.len() as int),
    keys(old(new_state)).subset_of(keys(final(new_state))),
    pc_closed(grammar, prev_states@, ikeys(final(new_state))),
    forall|s: ISet<Key<'a, T, NT, AK, AV>>| #[trigger] pc_closed(grammar, prev_states@, s) && ikeys(old(new_state)).subset_of(s) ==> ikeys(final(new_state)).subset_of(s),
.attr
#[verifier::exec_allows_no_decreases_clause]
.steps
.closure 1
  -> (vx_r: It<EarleyState<'a, T, NT, AK, AV, V>>)
  requires s_wf(state, *tree_handle), state.key.origin_index <= prev_states@.len(), set_wf(new_state, *tree_handle), n_ok(new_state, prev_states@.len() as int), prev_ok(prev_states@, *tree_handle), g_shape(grammar)
  ensures cl_out(grammar, prev_states@, new_state, *tree_handle, state.key, vx_r@)
.loop 1
  invariant
    set_wf(new_state, *tree_handle), n_ok(new_state, prev_states@.len() as int),
    keys(old(new_state)).subset_of(keys(new_state)),
    forall|s: ISet<Key<'a, T, NT, AK, AV>>| #[trigger] pc_closed(grammar, prev_states@, s) && ikeys(old(new_state)).subset_of(s) ==> ikeys(new_state).subset_of(s),
  ensures pc_closed(grammar, prev_states@, ikeys(new_state)),
.loop_start 1
  let ghost st0 = *new_state;
.closure_end 1
  proof {
    let n = prev_states@.len() as int;
    assert forall|b: Seq<EarleyState<'a, T, NT, AK, AV, V>>| #![trigger vx_1_2@ + b] vx_tail_1@ == vx_1_2@ + b && all_wf(b, *tree_handle)
      && (forall|s: EarleyState<'a, T, NT, AK, AV, V>| #[trigger] b.contains(s) ==> exists|z: Key<'a, T, NT, AK, AV>| keys(set_at(prev_states@, new_state, state.key.origin_index as int)).contains(z) && #[trigger] k_comp(state.key, z, s.key))
      && (forall|z: Key<'a, T, NT, AK, AV>, y: Key<'a, T, NT, AK, AV>| keys(set_at(prev_states@, new_state, state.key.origin_index as int)).contains(z) && #[trigger] k_comp(state.key, z, y) ==> exists|s: EarleyState<'a, T, NT, AK, AV, V>| #[trigger] b.contains(s) && s.key == y)
      implies cl_out(grammar, prev_states@, new_state, *tree_handle, state.key, vx_tail_1@) by {
      lemma_cl_out(grammar, prev_states@, new_state, *tree_handle, state.key, vx_1_2@, b);
    }
  }
.after_let closure
  proof {
    let n = prev_states@.len() as int;
    assert forall|i: int| 0 <= i < closure@.len() implies s_wf(#[trigger] closure@[i], *tree_handle) && closure@[i].key.origin_index <= n && exists|x: Key<'a, T, NT, AK, AV>| keys(&st0).contains(x) && #[trigger] cl_from(grammar, prev_states@, &st0, x, closure@[i].key) by {
      let y = closure@[i];
      assert(vx_0_2@.contains(y));
      let (x, c) = choose|x: EarleyState<'a, T, NT, AK, AV, V>, c: It<EarleyState<'a, T, NT, AK, AV, V>>| #[trigger] vx_0_1@.contains(x) && cl_out(grammar, prev_states@, &st0, *tree_handle, x.key, c@) && #[trigger] c.vx_seq().contains(y);
      assert(cl_from(grammar, prev_states@, &st0, x.key, y.key));
    }
    assert forall|x: Key<'a, T, NT, AK, AV>, y: Key<'a, T, NT, AK, AV>| keys(&st0).contains(x) && #[trigger] cl_from(grammar, prev_states@, &st0, x, y) implies exists|i: int| 0 <= i < closure@.len() && (#[trigger] closure@[i]).key == y by {
      let a = EarleyState { key: x, value: st0.states@[x] };
      assert(vx_0_1@.contains(a));
      let c = choose|c: It<EarleyState<'a, T, NT, AK, AV, V>>| cl_out(grammar, prev_states@, &st0, *tree_handle, x, c@) && (forall|y: EarleyState<'a, T, NT, AK, AV, V>| #[trigger] c.vx_seq().contains(y) ==> vx_0_2@.contains(y));
      let s = choose|s: EarleyState<'a, T, NT, AK, AV, V>| #[trigger] c@.contains(s) && s.key == y;
      assert(c.vx_seq().contains(s));
      assert(vx_0_2@.contains(s));
      let i = vx_0_2@.index_of(s);
      assert(closure@[i].key == y);
    }
  }
.after_loop 2
  proof {
    assert forall|s: ISet<Key<'a, T, NT, AK, AV>>| #[trigger] pc_closed(grammar, prev_states@, s) && ikeys(old(new_state)).subset_of(s) implies ikeys(new_state).subset_of(s) by {
      assert(ikeys(&st0).subset_of(s));
      assert forall|k: Key<'a, T, NT, AK, AV>| keys(new_state).contains(k) implies s.contains(k) by {
        if !keys(&st0).contains(k) {
          let i = choose|i: int| 0 <= i < vx_s2.len() && (#[trigger] vx_s2[i]).key == k;
          let x = choose|x: Key<'a, T, NT, AK, AV>| keys(&st0).contains(x) && #[trigger] cl_from(grammar, prev_states@, &st0, x, k);
          assert(s.contains(x));
          if !(exists|i: int| #[trigger] k_pred(grammar, x, prev_states@.len() as int, i, k)) {
            let z = choose|z: Key<'a, T, NT, AK, AV>| keys(set_at(prev_states@, &st0, x.origin_index as int)).contains(z) && #[trigger] k_comp(x, z, k);
            assert(ikeys(&st0).contains(x));
            if x.origin_index == prev_states@.len() { assert(ikeys(&st0).contains(z)); }
            assert(waiting(prev_states@, s, x.origin_index as int, z));
          }
        }
      }
    }
    if changed_h1 is Unchanged {
      let s = ikeys(new_state);
      assert forall|x: Key<'a, T, NT, AK, AV>, i: int, y: Key<'a, T, NT, AK, AV>| s.contains(x) && #[trigger] k_pred(grammar, x, prev_states@.len() as int, i, y) implies s.contains(y) by {
        assert(cl_from(grammar, prev_states@, &st0, x, y));
        let i = choose|i: int| 0 <= i < vx_s2.len() && (#[trigger] vx_s2[i]).key == y;
        assert(keys(new_state).contains(vx_s2[i].key));
      }
      assert forall|x: Key<'a, T, NT, AK, AV>, z: Key<'a, T, NT, AK, AV>, y: Key<'a, T, NT, AK, AV>| s.contains(x) && waiting(prev_states@, s, x.origin_index as int, z) && #[trigger] k_comp(x, z, y) implies s.contains(y) by {
        assert(keys(set_at(prev_states@, &st0, x.origin_index as int)).contains(z));
        assert(cl_from(grammar, prev_states@, &st0, x, y));
        let i = choose|i: int| 0 <= i < vx_s2.len() && (#[trigger] vx_s2[i]).key == y;
        assert(keys(new_state).contains(vx_s2[i].key));
      }
    }
  }
.loop 2
  invariant
    set_wf(new_state, *tree_handle), n_ok(new_state, prev_states@.len() as int),
    keys(&st0).subset_of(keys(new_state)),
    changed_h1 is Unchanged ==> keys(new_state) == keys(&st0),
    forall|i: int| 0 <= i < vx_n2 ==> keys(new_state).contains((#[trigger] vx_s2[i]).key),
    forall|k: Key<'a, T, NT, AK, AV>| #[trigger] keys(new_state).contains(k) ==> keys(&st0).contains(k) || exists|i: int| 0 <= i < vx_s2.len() && (#[trigger] vx_s2[i]).key == k,
@end
// ---- the chart
pub open spec fn lift<T>(w: Seq<T>) -> Seq<StreamTerminal<T>> { Seq::new(w.len(), |i: int| StreamTerminal::Term(w[i])) }
/// `c` is closed under starting, scanning `w`, predicting and completing.
pub open spec fn chart<'a, T, NT, AK, AV>(g: &'a StartGrammar<T, NT, AK, AV>, w: Seq<T>, c: Seq<ISet<Key<'a, T, NT, AK, AV>>>) -> bool {
  &&& c.len() == w.len() + 1
  &&& forall|k: Key<'a, T, NT, AK, AV>| k_init(start_prod(g), 0, k) ==> #[trigger] c[0].contains(k)
  &&& forall|i: int, x: Key<'a, T, NT, AK, AV>, y: Key<'a, T, NT, AK, AV>| #![trigger c[i].contains(x), k_scan(x, w[i], y)] 0 <= i < w.len() && c[i].contains(x) && k_scan(x, w[i], y) ==> c[i + 1].contains(y)
  &&& forall|n: int, x: Key<'a, T, NT, AK, AV>, i: int, y: Key<'a, T, NT, AK, AV>| 0 <= n < c.len() && c[n].contains(x) && #[trigger] k_pred(g, x, n, i, y) ==> c[n].contains(y)
  &&& forall|j: int, x: Key<'a, T, NT, AK, AV>, z: Key<'a, T, NT, AK, AV>, y: Key<'a, T, NT, AK, AV>| #![trigger c[j].contains(x), k_comp(x, z, y)] 0 <= j < c.len() && c[j].contains(x) && x.origin_index <= j && c[x.origin_index as int].contains(z) && k_comp(x, z, y) ==> c[j].contains(y)
}
/// `y` is `z` with `m` elements passed.
pub open spec fn at<'a, T, NT, AK, AV>(z: Key<'a, T, NT, AK, AV>, m: int, y: Key<'a, T, NT, AK, AV>) -> bool { y.prod_state.prod == z.prod_state.prod && y.prod_state.index == m && y.origin_index == z.origin_index }
/// A key in `c[j]` for each nonterminal derived from `o` to `j` that one in `c[o]` expects.
pub proof fn lemma_chart_nt<'a, T, NT, AK, AV>(g: &'a StartGrammar<T, NT, AK, AV>, w: Seq<T>, c: Seq<ISet<Key<'a, T, NT, AK, AV>>>, b: StartNonTerminal<NT>, o: int, j: int, h: nat, z: Key<'a, T, NT, AK, AV>) -> (y: Key<'a, T, NT, AK, AV>)
  requires chart(g, w, c), g_wf(g), 0 <= o <= j <= w.len() <= usize::MAX, c[o].contains(z), k_next(z) == Some(Elem::<StreamTerminal<T>, StartNonTerminal<NT>>::NonTerm(b)), der_h(g, b, lift(w).subrange(o, j), h)
  ensures c[j].contains(y), at(z, z.prod_state.index + 1, y)
  decreases h, 0nat
{
  let i = choose|i: int| 0 <= i < g.rule_set@[b].prods@.len() && seq_h(g, (#[trigger] g.rule_set@[b].prods@[i]).elements@, lift(w).subrange(o, j), (h - 1) as nat);
  let ps = g.rule_set@[b].prods@[i].elements@;
  let v0 = ax_vector_of(Seq::<usize>::empty());
  let x0: Key<'a, T, NT, AK, AV> = EarleyStateKey { prod_state: ProdState { prod: mk_prod(g, &g.rule_set@[b].head, &g.rule_set@[b].prods@[i]), index: 0 }, origin_index: o as usize, child_origins: v0 };
  assert(k_pred(g, z, o, i, x0));
  assert(ps.take(ps.len() as int) =~= ps);
  let x = lemma_chart_seq(g, w, c, x0, ps.len() as int, o, j, (h - 1) as nat);
  let v1 = ax_vector_of(z.child_origins@.push(x.origin_index));
  let y: Key<'a, T, NT, AK, AV> = EarleyStateKey { prod_state: ProdState { prod: z.prod_state.prod, index: (z.prod_state.index + 1) as usize }, origin_index: z.origin_index, child_origins: v1 };
  lemma_vec_len(z.prod_state.prod.prod.elements);
  assert(k_comp(x, z, y));
  y
}
pub proof fn lemma_chart_seq<'a, T, NT, AK, AV>(g: &'a StartGrammar<T, NT, AK, AV>, w: Seq<T>, c: Seq<ISet<Key<'a, T, NT, AK, AV>>>, z: Key<'a, T, NT, AK, AV>, m: int, o: int, j: int, h: nat) -> (y: Key<'a, T, NT, AK, AV>)
  requires chart(g, w, c), g_wf(g), 0 <= o <= j <= w.len() <= usize::MAX, c[o].contains(z), z.prod_state.index == 0, 0 <= m <= k_elems(z).len(), seq_h(g, k_elems(z).take(m), lift(w).subrange(o, j), h)
  ensures c[j].contains(y), at(z, m, y)
  decreases h, m + 1
{
  let s = k_elems(z).take(m);
  let u = lift(w).subrange(o, j);
  if m == 0 { z } else {
    let n = choose|n: int| 0 <= n <= u.len() && #[trigger] vx_id(n) && seq_h(g, s.drop_last(), u.take(n), h) && el_h(g, s.last().element, u.skip(n), h);
    assert(s.drop_last() =~= k_elems(z).take(m - 1));
    assert(u.take(n) =~= lift(w).subrange(o, o + n));
    assert(u.skip(n) =~= lift(w).subrange(o + n, j));
    let y = lemma_chart_seq(g, w, c, z, m - 1, o, o + n, h);
    let e = s.last().element;
    assert(k_next(y) == Some(e));
    match e {
      Elem::NonTerm(b) => { lemma_chart_nt(g, w, c, b, o + n, j, h, y) }
      Elem::Term(t) => {
        assert(u.skip(n) == seq![t]);
        assert(u.skip(n).len() == 1 && u.skip(n)[0] == t);
        assert(t == StreamTerminal::Term(w[o + n]));
        lemma_vec_len(z.prod_state.prod.prod.elements);
        let r: Key<'a, T, NT, AK, AV> = EarleyStateKey { prod_state: ProdState { prod: y.prod_state.prod, index: (y.prod_state.index + 1) as usize }, origin_index: y.origin_index, child_origins: y.child_origins };
        assert(k_scan(y, w[o + n], r));
        r
      }
    }
  }
}
/// `k` uses production `i` of `b`.
pub open spec fn prod_at<'a, T, NT, AK, AV>(g: &'a StartGrammar<T, NT, AK, AV>, k: Key<'a, T, NT, AK, AV>, b: StartNonTerminal<NT>, i: int) -> bool { g.rule_set@.contains_key(b) && 0 <= i < g.rule_set@[b].prods@.len() && k.prod_state.prod == mk_prod(g, &g.rule_set@[b].head, &g.rule_set@[b].prods@[i]) }
/// What a key in the set at `j` says about the terminals `w`.
pub open spec fn sound<'a, T, NT, AK, AV>(g: &'a StartGrammar<T, NT, AK, AV>, w: Seq<StreamTerminal<T>>, k: Key<'a, T, NT, AK, AV>, j: int) -> bool {
  &&& exists|b: StartNonTerminal<NT>, i: int| #[trigger] prod_at(g, k, b, i)
  &&& k.prod_state.index <= k_elems(k).len() && k.origin_index <= j <= w.len()
  &&& *k.prod_state.prod.head is Start ==> k.origin_index == 0
  &&& seq_derives(g, k_elems(k).take(k.prod_state.index as int), w.subrange(k.origin_index as int, j))
}
pub open spec fn sound_set<'a, T, NT, AK, AV>(g: &'a StartGrammar<T, NT, AK, AV>, w: Seq<StreamTerminal<T>>, j: int) -> ISet<Key<'a, T, NT, AK, AV>> { ISet::new(|k: Key<'a, T, NT, AK, AV>| sound(g, w, k, j)) }
/// The start is expected nowhere.
pub open spec fn start_fresh<T, NT, AK, AV>(g: &StartGrammar<T, NT, AK, AV>) -> bool {
  forall|b: StartNonTerminal<NT>, i: int, m: int| g.rule_set@.contains_key(b) && 0 <= i < g.rule_set@[b].prods@.len() && 0 <= m < g.rule_set@[b].prods@[i].elements@.len() ==> (#[trigger] g.rule_set@[b].prods@[i].elements@[m]).element != Elem::<StreamTerminal<T>, StartNonTerminal<NT>>::NonTerm(StartNonTerminal::Start)
}
pub proof fn lemma_sound_init<'a, T, NT, AK, AV>(g: &'a StartGrammar<T, NT, AK, AV>, w: Seq<StreamTerminal<T>>, k: Key<'a, T, NT, AK, AV>, b: StartNonTerminal<NT>, i: int, n: int)
  requires g_wf(g), 0 <= n <= w.len(), g.rule_set@.contains_key(b), 0 <= i < g.rule_set@[b].prods@.len(), k_init(mk_prod(g, &g.rule_set@[b].head, &g.rule_set@[b].prods@[i]), n, k), b is Start ==> n == 0
  ensures sound(g, w, k, n)
{
  assert(prod_at(g, k, b, i));
  lemma_seq_nil(g, k_elems(k).take(0), w.subrange(n, n));
}
pub proof fn lemma_sound_adv<'a, T, NT, AK, AV>(g: &'a StartGrammar<T, NT, AK, AV>, w: Seq<StreamTerminal<T>>, z: Key<'a, T, NT, AK, AV>, y: Key<'a, T, NT, AK, AV>, o: int, j: int)
  requires sound(g, w, z, o), 0 <= o <= j <= w.len(), k_next(z) is Some, at(z, z.prod_state.index + 1, y), el_derives(g, k_next(z)->Some_0, w.subrange(o, j))
  ensures sound(g, w, y, j)
{
  let n = z.prod_state.index as int;
  let a = z.origin_index as int;
  let s = k_elems(z).take(n + 1);
  assert(s.drop_last() =~= k_elems(z).take(n));
  assert(s.last() == k_elems(z)[n]);
  lemma_seq_snoc(g, s, w.subrange(a, o), w.subrange(o, j));
  assert(w.subrange(a, o) + w.subrange(o, j) =~= w.subrange(a, j));
  let (b, i) = choose|b: StartNonTerminal<NT>, i: int| #[trigger] prod_at(g, z, b, i);
  assert(prod_at(g, y, b, i));
}
pub proof fn lemma_sound_closed<'a, T, NT, AK, AV, V>(g: &'a StartGrammar<T, NT, AK, AV>, w: Seq<StreamTerminal<T>>, prev: Seq<EarleyStateSet<'a, T, NT, AK, AV, V>>)
  requires g_wf(g), start_fresh(g), prev.len() <= w.len(), forall|i: int, k: Key<'a, T, NT, AK, AV>| #![trigger keys(&prev[i]).contains(k)] 0 <= i < prev.len() && keys(&prev[i]).contains(k) ==> sound(g, w, k, i)
  ensures pc_closed(g, prev, sound_set(g, w, prev.len() as int))
{
  let n = prev.len() as int;
  let s = sound_set(g, w, n);
  assert forall|x: Key<'a, T, NT, AK, AV>, i: int, y: Key<'a, T, NT, AK, AV>| s.contains(x) && #[trigger] k_pred(g, x, n, i, y) implies s.contains(y) by {
    let b = match k_next(x) { Some(Elem::NonTerm(b)) => b, _ => arbitrary() };
    let (c, q) = choose|b: StartNonTerminal<NT>, i: int| #[trigger] prod_at(g, x, b, i);
    assert(g.rule_set@[c].prods@[q].elements@[x.prod_state.index as int].element == Elem::<StreamTerminal<T>, StartNonTerminal<NT>>::NonTerm(b));
    lemma_sound_init(g, w, y, b, i, n);
  }
  assert forall|x: Key<'a, T, NT, AK, AV>, z: Key<'a, T, NT, AK, AV>, y: Key<'a, T, NT, AK, AV>| s.contains(x) && waiting(prev, s, x.origin_index as int, z) && #[trigger] k_comp(x, z, y) implies s.contains(y) by {
    let o = x.origin_index as int;
    assert(sound(g, w, z, o));
    let (b, i) = choose|b: StartNonTerminal<NT>, i: int| #[trigger] prod_at(g, x, b, i);
    assert(k_elems(x).take(x.prod_state.index as int) =~= k_elems(x));
    lemma_der_prod(g, b, i, w.subrange(o, n));
    lemma_el_nt(g, b, w.subrange(o, n));
    lemma_sound_adv(g, w, z, y, o, n);
  }
}
// ---- wrapping keeps the language
pub proof fn lemma_w_el<T, NT, AK, AV>(g: &Grammar<T, NT, AK, AV>, w: &StartGrammar<T, NT, AK, AV>, e: Elem<T, NT>, k: Seq<T>, h: nat)
  requires wrapped(g, *w)
  ensures el_h(w, w_elem(e), lift(k), h) == el_h(g, e, k, h)
  decreases h, 0nat, 1nat
{
  match e {
    Elem::Term(t) => {
      let a = seq![StreamTerminal::Term(t)];
      if lift(k) == a { assert(lift(k).len() == 1 && lift(k)[0] == a[0]); assert(k =~= seq![t]); }
      if k == seq![t] { assert(lift(k) =~= a); }
    }
    Elem::NonTerm(n) => { lemma_w_nt(g, w, n, k, h); }
  }
}
pub proof fn lemma_w_nt<T, NT, AK, AV>(g: &Grammar<T, NT, AK, AV>, w: &StartGrammar<T, NT, AK, AV>, n: NT, k: Seq<T>, h: nat)
  requires wrapped(g, *w)
  ensures der_h(w, StartNonTerminal::NTerm(n), lift(k), h) == der_h(g, n, k, h)
  decreases h, 0nat, 0nat
{
  let b = StartNonTerminal::NTerm(n);
  assert(w.rule_set@.contains_key(b) == g.rule_set@.contains_key(n));
  if h > 0 && g.rule_set@.contains_key(n) {
    let (ps, qs) = (g.rule_set@[n].prods@, w.rule_set@[b].prods@);
    assert(w_rule(g.rule_set@[n], w.rule_set@[b]));
    assert forall|i: int| 0 <= i < ps.len() implies seq_h(w, (#[trigger] qs[i]).elements@, lift(k), (h - 1) as nat) == seq_h(g, ps[i].elements@, k, (h - 1) as nat) by { lemma_w_seq(g, w, ps[i].elements@, k, (h - 1) as nat); }
    if der_h(g, n, k, h) { let i = choose|i: int| 0 <= i < ps.len() && seq_h(g, (#[trigger] g.rule_set@[n].prods@[i]).elements@, k, (h - 1) as nat); assert(seq_h(w, w.rule_set@[b].prods@[i].elements@, lift(k), (h - 1) as nat)); }
    if der_h(w, b, lift(k), h) { let i = choose|i: int| 0 <= i < qs.len() && seq_h(w, (#[trigger] w.rule_set@[b].prods@[i]).elements@, lift(k), (h - 1) as nat); assert(seq_h(g, g.rule_set@[n].prods@[i].elements@, k, (h - 1) as nat)); }
  }
}
pub proof fn lemma_w_seq<T, NT, AK, AV>(g: &Grammar<T, NT, AK, AV>, w: &StartGrammar<T, NT, AK, AV>, s: Seq<ProdElement<T, NT>>, k: Seq<T>, h: nat)
  requires wrapped(g, *w)
  ensures seq_h(w, w_pes(s), lift(k), h) == seq_h(g, s, k, h)
  decreases h, s.len(), 2nat
{
  if s.len() > 0 {
    let v = w_pes(s);
    let u = lift(k);
    assert(v.drop_last() =~= w_pes(s.drop_last()));
    assert forall|n: int| 0 <= n <= k.len() implies (#[trigger] vx_id(n) && seq_h(w, v.drop_last(), u.take(n), h) && el_h(w, v.last().element, u.skip(n), h)) == (seq_h(g, s.drop_last(), k.take(n), h) && el_h(g, s.last().element, k.skip(n), h)) by {
      assert(u.take(n) =~= lift(k.take(n)));
      assert(u.skip(n) =~= lift(k.skip(n)));
      lemma_w_seq(g, w, s.drop_last(), k.take(n), h);
      lemma_w_el(g, w, s.last().element, k.skip(n), h);
    }
  }
}
pub proof fn lemma_w_derives<T, NT, AK, AV>(g: &Grammar<T, NT, AK, AV>, w: &StartGrammar<T, NT, AK, AV>, n: NT, k: Seq<T>)
  requires wrapped(g, *w)
  ensures derives(w, StartNonTerminal::NTerm(n), lift(k)) == derives(g, n, k)
{
  if derives(g, n, k) { let h = choose|h: nat| der_h(g, n, k, h); lemma_w_nt(g, w, n, k, h); }
  if derives(w, StartNonTerminal::NTerm(n), lift(k)) { let h = choose|h: nat| der_h(w, StartNonTerminal::NTerm(n), lift(k), h); lemma_w_nt(g, w, n, k, h); }
}
/// Where the end of the stream and the start stand in a wrapped grammar.
pub proof fn lemma_w_shape<T, NT, AK, AV>(g: &Grammar<T, NT, AK, AV>, w: &StartGrammar<T, NT, AK, AV>)
  requires wrapped(g, *w)
  ensures
    g_shape(w), start_fresh(w), has_start(w), g_wf(w),
    forall|b: StartNonTerminal<NT>, i: int, m: int| w.rule_set@.contains_key(b) && 0 <= i < w.rule_set@[b].prods@.len() && 0 <= m < w.rule_set@[b].prods@[i].elements@.len() && (#[trigger] w.rule_set@[b].prods@[i].elements@[m]).element == Elem::<StreamTerminal<T>, StartNonTerminal<NT>>::Term(StreamTerminal::EndOfStream) ==> b is Start && i == 0 && m == 1,
{
  let q = w.rule_set@[StartNonTerminal::Start].prods@;
  assert(w.rule_set@.contains_key(StartNonTerminal::Start));
  assert(q[0].elements@ =~= start_elems::<T, NT>(g.start_symbol));
  assert forall|b: StartNonTerminal<NT>, i: int| w.rule_set@.contains_key(b) && 0 <= i < w.rule_set@[b].prods@.len() implies p_shape(#[trigger] w.rule_set@[b].prods@[i]) by {
    match b { StartNonTerminal::Start => { assert(q[0].elements@.last() == q[0].elements@[1]); } StartNonTerminal::NTerm(n) => { assert(g.rule_set@.contains_key(n)); assert(w_prod(g.rule_set@[n].prods@[i], w.rule_set@[b].prods@[i])); } }
  }
  assert forall|b: StartNonTerminal<NT>, i: int, m: int| w.rule_set@.contains_key(b) && 0 <= i < w.rule_set@[b].prods@.len() && 0 <= m < w.rule_set@[b].prods@[i].elements@.len()
    implies (#[trigger] w.rule_set@[b].prods@[i].elements@[m]).element != Elem::<StreamTerminal<T>, StartNonTerminal<NT>>::NonTerm(StartNonTerminal::Start) && (w.rule_set@[b].prods@[i].elements@[m].element == Elem::<StreamTerminal<T>, StartNonTerminal<NT>>::Term(StreamTerminal::EndOfStream) ==> b is Start && i == 0 && m == 1) by {
    match b { StartNonTerminal::Start => {} StartNonTerminal::NTerm(n) => { assert(g.rule_set@.contains_key(n)); assert(w_prod(g.rule_set@[n].prods@[i], w.rule_set@[b].prods@[i])); } }
  }
}
// ---- what the last set says
pub proof fn lemma_final_sound<'a, T, NT, AK, AV>(g: &Grammar<T, NT, AK, AV>, w: &'a StartGrammar<T, NT, AK, AV>, t: Seq<T>, k: Key<'a, T, NT, AK, AV>)
  requires wrapped(g, *w), sound(w, lift(t), k, t.len() as int), is_final(k)
  ensures k.prod_state.index == 1, derives(w, StartNonTerminal::NTerm(g.start_symbol), lift(t))
{
  lemma_w_shape(g, w);
  let (b, i) = choose|b: StartNonTerminal<NT>, i: int| #[trigger] prod_at(w, k, b, i);
  let m = k.prod_state.index as int;
  assert(w.rule_set@[b].prods@[i].elements@[m].element == Elem::<StreamTerminal<T>, StartNonTerminal<NT>>::Term(StreamTerminal::EndOfStream));
  let s = k_elems(k).take(1);
  let u = lift(t).subrange(0, t.len() as int);
  assert(u =~= lift(t));
  let n = lemma_seq_split(w, s, u);
  lemma_seq_nil(w, s.drop_last(), u.take(n));
  assert(u.skip(n) =~= u);
  assert(s.last().element == Elem::<StreamTerminal<T>, StartNonTerminal<NT>>::NonTerm(StartNonTerminal::NTerm(g.start_symbol)));
  lemma_el_nt(w, StartNonTerminal::NTerm(g.start_symbol), u);
}
pub proof fn lemma_final_chart<'a, T, NT, AK, AV>(g: &Grammar<T, NT, AK, AV>, w: &'a StartGrammar<T, NT, AK, AV>, t: Seq<T>, c: Seq<ISet<Key<'a, T, NT, AK, AV>>>)
  requires wrapped(g, *w), chart(w, t, c), derives(w, StartNonTerminal::NTerm(g.start_symbol), lift(t)), t.len() <= usize::MAX
  ensures exists|k: Key<'a, T, NT, AK, AV>| #[trigger] is_final(k) && c[t.len() as int].contains(k)
{
  lemma_w_shape(g, w);
  let n = StartNonTerminal::NTerm(g.start_symbol);
  let h = choose|h: nat| der_h(w, n, lift(t), h);
  let v0 = ax_vector_of(Seq::<usize>::empty());
  let z: Key<'a, T, NT, AK, AV> = EarleyStateKey { prod_state: ProdState { prod: start_prod(w), index: 0 }, origin_index: 0, child_origins: v0 };
  assert(k_init(start_prod(w), 0, z));
  assert(k_elems(z) == start_elems::<T, NT>(g.start_symbol));
  assert(k_next(z) == Some(Elem::<StreamTerminal<T>, StartNonTerminal<NT>>::NonTerm(n)));
  assert(lift(t).subrange(0, t.len() as int) =~= lift(t));
  assert(c[0].contains(z));
  let y = lemma_chart_nt(w, t, c, n, 0, t.len() as int, h, z);
  assert(is_final(y));
}
pub open spec fn kinds<T, V>(s: Seq<Token<T, V>>) -> Seq<T> { Seq::new(s.len(), |i: int| s[i].kind) }
/// `s` are the first sets of the chart for `w`.
pub open spec fn st_chart<'a, T, NT, AK, AV, V>(g: &'a StartGrammar<T, NT, AK, AV>, w: Seq<T>, s: Seq<EarleyStateSet<'a, T, NT, AK, AV, V>>) -> bool {
  &&& 0 < s.len() <= w.len() + 1
  &&& forall|k: Key<'a, T, NT, AK, AV>| k_init(start_prod(g), 0, k) ==> #[trigger] keys(&s[0]).contains(k)
  &&& forall|i: int, x: Key<'a, T, NT, AK, AV>, y: Key<'a, T, NT, AK, AV>| #![trigger keys(&s[i]).contains(x), k_scan(x, w[i], y)] 0 <= i < s.len() - 1 && keys(&s[i]).contains(x) && k_scan(x, w[i], y) ==> keys(&s[i + 1]).contains(y)
  &&& forall|i: int| 0 <= i < s.len() ==> #[trigger] pc_closed(g, s.take(i), ikeys(&s[i]))
}
pub open spec fn st_sound<'a, T, NT, AK, AV, V>(g: &'a StartGrammar<T, NT, AK, AV>, w: Seq<T>, s: Seq<EarleyStateSet<'a, T, NT, AK, AV, V>>) -> bool {
  forall|i: int, k: Key<'a, T, NT, AK, AV>| #![trigger keys(&s[i]).contains(k)] 0 <= i < s.len() && keys(&s[i]).contains(k) ==> sound(g, lift(w), k, i)
}
pub open spec fn st_sets<'a, T, NT, AK, AV, V>(w: Seq<T>, s: Seq<EarleyStateSet<'a, T, NT, AK, AV, V>>) -> Seq<ISet<Key<'a, T, NT, AK, AV>>> { Seq::new(w.len() + 1, |i: int| if i < s.len() { ikeys(&s[i]) } else { ISet::<Key<'a, T, NT, AK, AV>>::empty() }) }
pub proof fn lemma_st_chart<'a, T, NT, AK, AV, V>(g: &'a StartGrammar<T, NT, AK, AV>, w: Seq<T>, s: Seq<EarleyStateSet<'a, T, NT, AK, AV, V>>)
  requires st_chart(g, w, s), s.len() <= w.len() ==> forall|x: Key<'a, T, NT, AK, AV>, y: Key<'a, T, NT, AK, AV>| keys(&s[s.len() - 1]).contains(x) ==> !#[trigger] k_scan(x, w[s.len() - 1], y)
  ensures chart(g, w, st_sets(w, s))
{
  let c: Seq<ISet<Key<'a, T, NT, AK, AV>>> = st_sets(w, s);
  assert forall|n: int, x: Key<'a, T, NT, AK, AV>, i: int, y: Key<'a, T, NT, AK, AV>| 0 <= n < c.len() && c[n].contains(x) && #[trigger] k_pred(g, x, n, i, y) implies c[n].contains(y) by {
    if n < s.len() { assert(pc_closed(g, s.take(n), ikeys(&s[n]))); assert(k_pred(g, x, s.take(n).len() as int, i, y)); }
  }
  assert forall|j: int, x: Key<'a, T, NT, AK, AV>, z: Key<'a, T, NT, AK, AV>, y: Key<'a, T, NT, AK, AV>| #![trigger c[j].contains(x), k_comp(x, z, y)] 0 <= j < c.len() && c[j].contains(x) && x.origin_index <= j && c[x.origin_index as int].contains(z) && k_comp(x, z, y) implies c[j].contains(y) by {
    if j < s.len() { assert(pc_closed(g, s.take(j), ikeys(&s[j]))); assert(waiting(s.take(j), ikeys(&s[j]), x.origin_index as int, z)); }
  }
  assert forall|k: Key<'a, T, NT, AK, AV>| k_init(start_prod(g), 0, k) implies #[trigger] c[0].contains(k) by { assert(keys(&s[0]).contains(k)); }
  assert forall|i: int, x: Key<'a, T, NT, AK, AV>, y: Key<'a, T, NT, AK, AV>| #![trigger c[i].contains(x), k_scan(x, w[i], y)] 0 <= i < w.len() && c[i].contains(x) && k_scan(x, w[i], y) implies c[i + 1].contains(y) by {
    if i < s.len() { assert(keys(&s[i]).contains(x)); if i + 1 < s.len() { assert(keys(&s[i + 1]).contains(y)); } }
  }
}
@fn src/parsers/earley.rs parse -> r
  requires exists|g: Grammar<T, NT, AK, AV>| wrapped(&g, *grammar)
  ensures forall|g: Grammar<T, NT, AK, AV>| #[trigger] wrapped(&g, *grammar) ==> (r is Some) == derives(&g, g.start_symbol, kinds(tokens@))
.start
  let ghost g0 = choose|g: Grammar<T, NT, AK, AV>| wrapped(&g, *grammar);
  proof { lemma_w_shape(&g0, grammar); }
  let ghost w = kinds(tokens@);
.after_let init_state
  proof {
    let v0 = ax_vector_of(Seq::<usize>::empty());
    let z: Key<'a, T, NT, AK, AV> = EarleyStateKey { prod_state: ProdState { prod: start_prod(grammar), index: 0 }, origin_index: 0, child_origins: v0 };
    assert(k_init(start_prod(grammar), 0, z));
    assert(init_state.states@.contains_key(z));
    assert forall|k: Key<'a, T, NT, AK, AV>| #[trigger] keys(&init_state).contains(k) implies k.origin_index <= 0 && sound(grammar, lift(w), k, 0) by {
      assert(init_state.states@.contains_key(k));
      lemma_sound_init(grammar, lift(w), k, StartNonTerminal::Start, 0, 0);
    }
    lemma_sound_closed(grammar, lift(w), states@);
    assert(ikeys(&init_state).subset_of(sound_set(grammar, lift(w), 0)));
  }
  let ghost init0 = init_state;
.before_loop 1
  proof {
    assert(states@.len() == 1);
    assert forall|k: Key<'a, T, NT, AK, AV>| k_init(start_prod(grammar), 0, k) implies #[trigger] keys(&states@[0]).contains(k) by { assert(init0.states@.contains_key(k)); }
    assert(states@.take(0) =~= Seq::<EarleyStateSet<'a, T, NT, AK, AV, V>>::empty());
    assert forall|i: int, k: Key<'a, T, NT, AK, AV>| #![trigger keys(&states@[i]).contains(k)] 0 <= i < states@.len() && keys(&states@[i]).contains(k) implies sound(grammar, lift(w), k, i) by { assert(ikeys(&states@[0]).contains(k)); assert(sound_set(grammar, lift(w), 0).contains(k)); }
  }
.loop 1
  invariant
    states@.len() == vx_n1 + 1, prev_ok(states@, *tree_handle), st_chart(grammar, w, states@), st_sound(grammar, w, states@),
.after_let new_state
  let ghost n = states@.len() as int;
  let ghost prev = states@;
  proof {
    assert(vx_s1[vx_n1 - 1] == token);
    assert(w[n - 1] == token.kind);
    assert forall|y: Key<'a, T, NT, AK, AV>| #[trigger] keys(&new_state).contains(y) implies y.origin_index <= n && sound(grammar, lift(w), y, n) by {
      assert(new_state.states@.contains_key(y));
      let x = choose|x: Key<'a, T, NT, AK, AV>| #[trigger] prev[n - 1].states@.contains_key(x) && k_scan(x, token.kind, y);
      assert(keys(&prev[n - 1]).contains(x));
      let u = lift(w).subrange(n - 1, n);
      assert(u =~= seq![StreamTerminal::Term(token.kind)]);
      lemma_el_term(grammar, StreamTerminal::Term(token.kind), u);
      lemma_sound_adv(grammar, lift(w), x, y, n - 1, n);
    }
    assert forall|x: Key<'a, T, NT, AK, AV>, y: Key<'a, T, NT, AK, AV>| keys(&prev[n - 1]).contains(x) && #[trigger] k_scan(x, w[n - 1], y) implies keys(&new_state).contains(y) by { assert(prev[n - 1].states@.contains_key(x)); assert(new_state.states@.contains_key(y)); }
    lemma_sound_closed(grammar, lift(w), prev);
    assert(ikeys(&new_state).subset_of(sound_set(grammar, lift(w), n)));
  }
  let ghost new0 = new_state;
.before_return 1
  proof {
    lemma_st_chart(grammar, w, prev);
    assert forall|g: Grammar<T, NT, AK, AV>| #[trigger] wrapped(&g, *grammar) implies !derives(&g, g.start_symbol, w) by {
      lemma_w_derives(&g, grammar, g.start_symbol, w);
      if derives(&g, g.start_symbol, w) { lemma_final_chart(&g, grammar, w, st_sets(w, prev)); }
    }
  }
.loop_end 1
  proof {
    assert(states@ =~= prev.push(states@[n]));
    assert(forall|i: int| 0 <= i < n ==> states@[i] == prev[i]);
    assert forall|i: int, x: Key<'a, T, NT, AK, AV>, y: Key<'a, T, NT, AK, AV>| #![trigger keys(&states@[i]).contains(x), k_scan(x, w[i], y)] 0 <= i < states@.len() - 1 && keys(&states@[i]).contains(x) && k_scan(x, w[i], y) implies keys(&states@[i + 1]).contains(y) by {
      if i == n - 1 { assert(keys(&new0).contains(y)); } else { assert(keys(&prev[i]).contains(x)); assert(keys(&prev[i + 1]).contains(y)); }
    }
    assert forall|i: int| 0 <= i < states@.len() implies #[trigger] pc_closed(grammar, states@.take(i), ikeys(&states@[i])) by {
      assert(states@.take(i) =~= prev.take(i));
      if i == n { assert(prev.take(n) =~= prev); } else { assert(pc_closed(grammar, prev.take(i), ikeys(&prev[i]))); }
    }
    assert forall|k: Key<'a, T, NT, AK, AV>| k_init(start_prod(grammar), 0, k) implies #[trigger] keys(&states@[0]).contains(k) by { assert(keys(&prev[0]).contains(k)); }
    assert forall|i: int, k: Key<'a, T, NT, AK, AV>| #![trigger keys(&states@[i]).contains(k)] 0 <= i < states@.len() && keys(&states@[i]).contains(k) implies sound(grammar, lift(w), k, i) by {
      if i == n { assert(ikeys(&states@[n]).contains(k)); assert(sound_set(grammar, lift(w), n).contains(k)); } else { assert(keys(&prev[i]).contains(k)); }
    }
  }
.after_let last_state
  proof {
    let n = w.len() as int;
    assert(*last_state == states@[n]);
    lemma_st_chart(grammar, w, states@);
    assert forall|k: Key<'a, T, NT, AK, AV>| last_state.states@.contains_key(k) && #[trigger] is_final(k) implies last_state.states@[k]@.len() == 1 && derives(grammar, StartNonTerminal::NTerm(g0.start_symbol), lift(w)) by {
      assert(keys(&states@[n]).contains(k));
      lemma_final_sound(&g0, grammar, w, k);
    }
    assert forall|g: Grammar<T, NT, AK, AV>| #[trigger] wrapped(&g, *grammar) implies derives(&g, g.start_symbol, w) == exists|k: Key<'a, T, NT, AK, AV>| last_state.states@.contains_key(k) && #[trigger] is_final(k) by {
      lemma_w_derives(&g, grammar, g.start_symbol, w);
      if derives(&g, g.start_symbol, w) {
        lemma_final_chart(&g, grammar, w, st_sets(w, states@));
        let k = choose|k: Key<'a, T, NT, AK, AV>| #[trigger] is_final(k) && st_sets(w, states@)[n].contains(k);
        assert(keys(&states@[n]).contains(k)); assert(last_state.states@.contains_key(k));
      }
      if exists|k: Key<'a, T, NT, AK, AV>| last_state.states@.contains_key(k) && #[trigger] is_final(k) {
        let k = choose|k: Key<'a, T, NT, AK, AV>| last_state.states@.contains_key(k) && #[trigger] is_final(k);
        assert(keys(&states@[n]).contains(k));
        lemma_final_sound(&g, grammar, w, k);
      }
    }
  }
@end
} // verus!
