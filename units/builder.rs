@use utils.rs
@use base.rs
@use grammar_check.rs
verus! {
/// The rules given, keyed by head; vx_map_of keeps the last one of each head.
pub open spec fn keyed<T, NT, AK, AV>(s: Seq<RuleInner<T, NT, AK, AV>>) -> Seq<(NT, RuleInner<T, NT, AK, AV>)> {
  Seq::new(s.len(), |i: int| (s[i].head, s[i]))
}
pub open spec fn rules_of<T, NT, AK, AV>(s: Seq<RuleInner<T, NT, AK, AV>>) -> Map<NT, RuleInner<T, NT, AK, AV>> { vx_map_of(keyed(s)) }
pub proof fn lemma_rules_step<T, NT, AK, AV>(s: Seq<RuleInner<T, NT, AK, AV>>)
  requires s.len() > 0
  ensures rules_of(s) == rules_of(s.drop_last()).insert(s.last().head, s.last())
{ assert(keyed(s).drop_last() =~= keyed(s.drop_last())); }
pub proof fn lemma_rules_head<T, NT, AK, AV>(s: Seq<RuleInner<T, NT, AK, AV>>, k: NT)
  requires rules_of(s).contains_key(k)
  ensures rules_of(s)[k].head == k, s.contains(rules_of(s)[k])
  decreases s.len()
{
  hide(rules_of);
  if s.len() == 0 { reveal(rules_of); assert(keyed(s) =~= Seq::empty()); }
  else {
    let p = s.drop_last();
    lemma_rules_step(s);
    if k != s.last().head { lemma_rules_head(p, k); let i = p.index_of(rules_of(p)[k]); assert(s[i] == rules_of(s)[k]); } else { assert(s[s.len() - 1] == s.last()); }
  }
}
pub proof fn lemma_rules_key<T, NT, AK, AV>(s: Seq<RuleInner<T, NT, AK, AV>>, i: int)
  requires 0 <= i < s.len()
  ensures rules_of(s).contains_key(s[i].head)
  decreases s.len()
{
  hide(rules_of);
  let p = s.drop_last();
  lemma_rules_step(s);
  if i < p.len() { assert(p[i] == s[i]); lemma_rules_key(p, i); }
}
pub proof fn lemma_rules_last<T, NT, AK, AV>(s: Seq<RuleInner<T, NT, AK, AV>>, i: int)
  requires 0 <= i < s.len(), forall|j: int| i < j < s.len() ==> (#[trigger] s[j]).head != s[i].head
  ensures rules_of(s)[s[i].head] == s[i]
  decreases s.len()
{
  hide(rules_of);
  let p = s.drop_last();
  lemma_rules_step(s);
  if i < p.len() {
    assert(p[i] == s[i]); assert(s[s.len() - 1].head != s[i].head);
    assert forall|j: int| i < j < p.len() implies (#[trigger] p[j]).head != p[i].head by { assert(s[j].head != s[i].head); }
    lemma_rules_last(p, i);
  }
}
pub proof fn lemma_rules_wf<T, NT, AK, AV>(s: Seq<RuleInner<T, NT, AK, AV>>)
  ensures forall|k: NT| #[trigger] rules_of(s).contains_key(k) ==> rules_of(s)[k].head == k && s.contains(rules_of(s)[k]),
    forall|i: int| 0 <= i < s.len() ==> rules_of(s).contains_key((#[trigger] s[i]).head),
    forall|i: int| 0 <= i < s.len() && (forall|j: int| i < j < s.len() ==> (#[trigger] s[j]).head != s[i].head) ==> rules_of(s)[(#[trigger] s[i]).head] == s[i],
{
  assert forall|k: NT| #[trigger] rules_of(s).contains_key(k) implies rules_of(s)[k].head == k && s.contains(rules_of(s)[k]) by { lemma_rules_head(s, k); }
  assert forall|i: int| 0 <= i < s.len() implies rules_of(s).contains_key((#[trigger] s[i]).head) by { lemma_rules_key(s, i); }
  assert forall|i: int| 0 <= i < s.len() && (forall|j: int| i < j < s.len() ==> (#[trigger] s[j]).head != s[i].head) implies rules_of(s)[(#[trigger] s[i]).head] == s[i] by { lemma_rules_last(s, i); }
}
pub open spec fn built_from<T, NT, AK, AV>(g: Grammar<T, NT, AK, AV>, start: NT, s: Seq<RuleInner<T, NT, AK, AV>>) -> bool {
  g.start_symbol == start && g.rule_set@ == rules_of(s)
}
/// What building from a start symbol and a list of rules must give.
pub open spec fn build_result<T, NT, AK, AV>(start: NT, s: Seq<RuleInner<T, NT, AK, AV>>, r: Result<Grammar<T, NT, AK, AV>, GrammarErrors<NT>>) -> bool {
  match r {
    Ok(g) => built_from(g, start, s) && g_wf(&g) && valid(&g),
    Err(e) => exists|g: Grammar<T, NT, AK, AV>| #[trigger] built_from(g, start, s) && g_wf(&g) && !valid(&g) && errors_exact(&g, e),
  }
}
@fn src/grammar/base.rs Grammar::new -> r
  ensures build_result(start, rule_set.vx_seq(), r)
.desugar result_map
.closure 1
  -> (vx_r: (NT, RuleInner<T, NT, AK, AV>)) ensures vx_r == (r.head, r)
.after_let g
  proof {
    let s = rule_set.vx_seq();
    assert forall|q: Seq<(NT, RuleInner<T, NT, AK, AV>)>| #![trigger vx_map_of(q)] q.len() == s.len() && (forall|i: int| 0 <= i < q.len() ==> #[trigger] q[i] == (s[i].head, s[i])) implies q == keyed(s) by { assert(q =~= keyed(s)); }
    assert(built_from(g, start, s));
    lemma_rules_wf(s);
    assert(g_wf(&g));
  }
@end
@trait src/grammar/base/builder.rs BuilderInto
  spec fn b_into(self) -> T;
@method builder_into -> r
  ensures r == self.b_into()
@end
@impl src/grammar/base/builder.rs BuilderInto<T> for T
  open spec fn b_into(self) -> T { self }
@method builder_into -> r
@end
@impl src/grammar/base/builder.rs BuilderInto<T> for &T
  open spec fn b_into(self) -> T { *self }
@method builder_into -> r
@end
@impl src/grammar/base/builder.rs BuilderInto<Name> for &str
  open spec fn b_into(self) -> Name { name_of(self@) }
@method builder_into -> r
.end
  proof { ax_name_ext(vx_tail, name_of(self@)); }
@end
@type src/grammar/base/builder.rs ProductionBuilder
@type src/grammar/base/builder.rs RuleBuilder
@type src/grammar/base/builder.rs GrammarBuilder
@fn src/grammar/base/builder.rs ProductionBuilder::new -> r
  ensures r.action_key == action_key, r.action_value == action_value, r.elems@ == Seq::<ProdElement<T, NT>>::empty()
@end
@fn src/grammar/base/builder.rs ProductionBuilder::build -> r
  ensures r.action_key == self.action_key, r.action_value == self.action_value, r.elements == self.elems
@end
pub open spec fn pushed<T, NT, AK, AV>(a: ProductionBuilder<T, NT, AK, AV>, b: ProductionBuilder<T, NT, AK, AV>, id: Option<Name>, e: Elem<T, NT>) -> bool {
  b.elems@ == a.elems@.push(ProdElement { identifier: id, element: e }) && b.action_key == a.action_key && b.action_value == a.action_value
}
@fn src/grammar/base/builder.rs ProductionBuilder::add_term -> r
  ensures pushed(*old(self), *r, None, Elem::Term(term.b_into())), *final(self) == *final(r)
@end
@fn src/grammar/base/builder.rs ProductionBuilder::add_named_term -> r
  ensures pushed(*old(self), *r, Some(name.b_into()), Elem::Term(term.b_into())), *final(self) == *final(r)
@end
@fn src/grammar/base/builder.rs ProductionBuilder::add_nonterm -> r
  ensures pushed(*old(self), *r, None, Elem::NonTerm(nonterm.b_into())), *final(self) == *final(r)
@end
@fn src/grammar/base/builder.rs ProductionBuilder::add_named_nonterm -> r
  ensures pushed(*old(self), *r, Some(name.b_into()), Elem::NonTerm(nonterm.b_into())), *final(self) == *final(r)
@end
@fn src/grammar/base/builder.rs RuleBuilder::new -> r
  ensures r.head == head, r.prods@ == Seq::<ProdInner<T, NT, AK, AV>>::empty()
@end
@fn src/grammar/base/builder.rs RuleBuilder::build -> r
  ensures r.head == self.head, r.prods == self.prods
@end
@fn src/grammar/base/builder.rs RuleBuilder::add_prod -> r
  requires forall|b: &mut ProductionBuilder<T, NT, AK, AV>| #[trigger] call_requires(build_fn, (b,))
  ensures r.head == old(self).head, *final(self) == *final(r),
    exists|b: &mut ProductionBuilder<T, NT, AK, AV>| #[trigger] call_ensures(build_fn, (b,), ()) && *b == (ProductionBuilder { action_key: action_key.b_into(), action_value: action_value.b_into(), elems: b.elems }) && b.elems@.len() == 0
      && r.prods@ == old(self).prods@.push(ProdInner { action_key: final(b).action_key, action_value: final(b).action_value, elements: final(b).elems })
@end
@fn src/grammar/base/builder.rs RuleBuilder::add_prod_with_elems -> r
  ensures r.head == old(self).head, *final(self) == *final(r),
    r.prods@ == old(self).prods@.push(ProdInner { action_key: action_key.b_into(), action_value: action_value.b_into(), elements: elems.b_into() })
@end
@fn src/grammar/base/builder.rs GrammarBuilder::new -> r
  ensures r.start == start, r.rules@ == Seq::<RuleInner<T, NT, AK, AV>>::empty()
@end
@fn src/grammar/base/builder.rs GrammarBuilder::build -> r
  ensures build_result(self.start, self.rules@, r)
@end
@fn src/grammar/base/builder.rs GrammarBuilder::add_rule -> r
  requires forall|b: &mut RuleBuilder<T, NT, AK, AV>| #[trigger] call_requires(build_fn, (b,))
  ensures r.start == old(self).start, *final(self) == *final(r),
    exists|b: &mut RuleBuilder<T, NT, AK, AV>| #[trigger] call_ensures(build_fn, (b,), ()) && b.head == head.b_into() && b.prods@.len() == 0
      && r.rules@ == old(self).rules@.push(RuleInner { head: final(b).head, prods: final(b).prods })
@end
@fn src/grammar/base/builder.rs build -> r
  requires forall|b: &mut GrammarBuilder<T, NT, AK, AV>| #[trigger] call_requires(build_fn, (b,))
  ensures
    exists|b: &mut GrammarBuilder<T, NT, AK, AV>| #[trigger] call_ensures(build_fn, (b,), ()) && b.start == start.b_into() && b.rules@.len() == 0
      && build_result(final(b).start, final(b).rules@, r)
@end
} // verus!
