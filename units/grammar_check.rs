@use utils.rs
@use base.rs
verus! {
/// `e` is one of the symbols of `p`.
pub open spec fn has_elem<T, NT, AK, AV>(p: ProdInner<T, NT, AK, AV>, e: Elem<T, NT>) -> bool { elem_refs(p.elements@).contains(&e) }
pub proof fn lemma_elem_refs<T, NT>(s: Seq<ProdElement<T, NT>>, e: Elem<T, NT>)
  ensures elem_refs(s).contains(&e) == exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).element == e
{
  if elem_refs(s).contains(&e) { let i = elem_refs(s).index_of(&e); assert(s[i].element == e); }
  if exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).element == e { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).element == e; assert(elem_refs(s)[i] == &e); }
}
/// `e` occurs in a production of the rule of `k`.
pub open spec fn occurs<T, NT, AK, AV>(g: &Grammar<T, NT, AK, AV>, k: NT, e: Elem<T, NT>) -> bool {
  g.rule_set@.contains_key(k) && exists|p: ProdInner<T, NT, AK, AV>| #[trigger] g.rule_set@[k].prods@.contains(p) && has_elem(p, e)
}
pub open spec fn used<T, NT, AK, AV>(g: &Grammar<T, NT, AK, AV>, nt: NT) -> bool { exists|k: NT| occurs(g, k, Elem::NonTerm(nt)) }
pub open spec fn closed<T, NT, AK, AV>(g: &Grammar<T, NT, AK, AV>, s: ISet<NT>) -> bool {
  s.contains(g.start_symbol) && forall|a: NT, b: NT| s.contains(a) && #[trigger] occurs(g, a, Elem::NonTerm(b)) ==> s.contains(b)
}
/// Reachable: in every set that holds the start symbol and is closed under "occurs in a production of".
pub open spec fn reach<T, NT, AK, AV>(g: &Grammar<T, NT, AK, AV>, nt: NT) -> bool { forall|s: ISet<NT>| #[trigger] closed(g, s) ==> s.contains(nt) }
pub open spec fn no_rule<T, NT, AK, AV>(g: &Grammar<T, NT, AK, AV>, nt: NT) -> bool { (used(g, nt) || nt == g.start_symbol) && !g.rule_set@.contains_key(nt) }
pub open spec fn no_prods<T, NT, AK, AV>(g: &Grammar<T, NT, AK, AV>, nt: NT) -> bool { g.rule_set@.contains_key(nt) && g.rule_set@[nt].prods@.len() == 0 }
pub open spec fn unreached<T, NT, AK, AV>(g: &Grammar<T, NT, AK, AV>, nt: NT) -> bool { used(g, nt) && !reach(g, nt) }
pub open spec fn valid<T, NT, AK, AV>(g: &Grammar<T, NT, AK, AV>) -> bool {
  &&& forall|nt: NT| !#[trigger] no_rule(g, nt)
  &&& forall|nt: NT| !#[trigger] no_prods(g, nt)
  &&& forall|nt: NT| !#[trigger] unreached(g, nt)
}

@type src/grammar/base.rs GrammarErrors
@fn src/grammar/base.rs Grammar::get_elements -> r
  ensures forall|e: &Elem<T, NT>| #[trigger] r@.contains(e) == exists|k: NT| occurs(self, k, *e)
.steps
.closure 2
  -> (vx_r: It<&Elem<T, NT>>) ensures vx_r@ == elem_refs(p.elements@)
.end
  proof {
    assert forall|e: &Elem<T, NT>| #[trigger] vx_tail@.contains(e) == exists|k: NT| occurs(self, k, *e) by {
      if vx_tail@.contains(e) {
        let p = choose|p: &ProdInner<T, NT, AK, AV>| #[trigger] vx_0_2@.contains(p) && elem_refs(p.elements@).contains(e);
        let r = choose|r: &RuleInner<T, NT, AK, AV>| #[trigger] vx_0_1@.contains(r) && r.prods@.contains(*p);
        let k = choose|k: NT| #[trigger] self.rule_set@.contains_key(k) && self.rule_set@[k] == *r;
        assert(occurs(self, k, *e));
      }
      if exists|k: NT| occurs(self, k, *e) {
        let k = choose|k: NT| occurs(self, k, *e);
        let r = &self.rule_set@[k];
        assert(vx_0_1@.contains(r));
        let p = choose|p: ProdInner<T, NT, AK, AV>| #[trigger] r.prods@.contains(p) && has_elem(p, *e);
        assert((&r.prods).vx_seq().contains(&p));
        assert(vx_0_2@.contains(&p));
      }
    }
  }
@end
@fn src/grammar/base.rs Grammar::get_nonterminals -> r
  ensures forall|nt: &NT| #[trigger] r@.contains(nt) == used(self, *nt)
.steps
.closure 1
  -> (vx_r: Option<&NT>) ensures vx_r == (match *e { Elem::NonTerm(t) => Some(&t), Elem::Term(_) => None })
.end
  proof {
    assert forall|nt: &NT| #[trigger] vx_tail@.contains(nt) == used(self, *nt) by {
      let e: Elem<T, NT> = Elem::NonTerm(*nt);
      if used(self, *nt) { assert(vx_0_1@.contains(&e)); }
      if vx_tail@.contains(nt) { assert(vx_0_1@.contains(&e)); }
    }
  }
@end
@fn src/grammar/base.rs Grammar::nonterminals_without_rules -> r
  ensures forall|nt: &NT| #[trigger] r@.contains(nt) == no_rule(self, *nt)
.steps
.closure 1
  -> (vx_r: bool) ensures vx_r == !self.rule_set@.contains_key(**nt)
.end
  proof {
    let start = seq![&self.start_symbol];
    assert(start[0] == &self.start_symbol);
    assert forall|nt: &NT| #[trigger] vx_tail@.contains(nt) == no_rule(self, *nt) by {
      if start.contains(nt) { }
      assert(vx_0_1@.contains(nt) == used(self, *nt));
      assert(vx_0_2@.contains(nt) == (used(self, *nt) || *nt == self.start_symbol));
    }
  }
@end
@fn src/grammar/base.rs Grammar::rules_without_prods -> r
  requires g_wf(self)
  ensures forall|nt: &NT| #[trigger] r@.contains(nt) == no_prods(self, *nt)
.closure 1
  -> (vx_r: bool) ensures vx_r == (r.rule.prods@.len() == 0)
.closure 2
  -> (vx_r: &NT) ensures *vx_r == r.rule.head
.end
  proof {
    assert forall|nt: &NT| #[trigger] vx_tail@.contains(nt) == no_prods(self, *nt) by {
      if no_prods(self, *nt) { g_rules_contains(self, *nt); assert(rules@.contains(mk_rule(self, &self.rule_set@[*nt]))); }
      if vx_tail@.contains(nt) {
        let r = choose|r: Rule<T, NT, AK, AV>| g_rules(self).contains(r) && r.rule.prods@.len() == 0 && r.rule.head == *nt;
        g_rules_only(self, r);
      }
    }
  }
@end
pub proof fn g_rules_contains<T, NT, AK, AV>(g: &Grammar<T, NT, AK, AV>, k: NT)
  requires g.rule_set@.contains_key(k)
  ensures g_rules(g).contains(mk_rule(g, &g.rule_set@[k]))
{ let s = vx_set_seq(g.rule_set@.dom()); assert(s.contains(k)); let i = s.index_of(k); assert(g_rules(g)[i] == mk_rule(g, &g.rule_set@[k])); }
pub proof fn g_rules_only<T, NT, AK, AV>(g: &Grammar<T, NT, AK, AV>, r: Rule<T, NT, AK, AV>)
  requires g_rules(g).contains(r), g_wf(g)
  ensures g.rule_set@.contains_key(r.rule.head), r == mk_rule(g, &g.rule_set@[r.rule.head])
{ let i = g_rules(g).index_of(r); }
pub proof fn rule_prods_contains<T, NT, AK, AV>(r: Rule<T, NT, AK, AV>, q: ProdInner<T, NT, AK, AV>)
  ensures rule_prods(r).contains(mk_prod(r.grammar, &r.rule.head, &q)) == r.rule.prods@.contains(q),
    forall|p: Prod<T, NT, AK, AV>| #[trigger] rule_prods(r).contains(p) ==> p == mk_prod(r.grammar, &r.rule.head, p.prod)
{
  let p = mk_prod(r.grammar, &r.rule.head, &q);
  if r.rule.prods@.contains(q) { let i = r.rule.prods@.index_of(q); assert(rule_prods(r)[i] == p); }
  if rule_prods(r).contains(p) { let i = rule_prods(r).index_of(p); assert(r.rule.prods@[i] == q); }
}
pub open spec fn next_nts<T, NT, AK, AV>(g: &Grammar<T, NT, AK, AV>, nt: NT, s: Set<&NT>) -> bool {
  forall|b: &NT| #[trigger] s.contains(b) == occurs(g, nt, Elem::NonTerm(*b))
}
pub open spec fn rule_elems<'a, T, NT, AK, AV>(r: &'a RuleInner<T, NT, AK, AV>) -> Seq<&'a Elem<T, NT>> {
  vx_cat(Seq::new(r.prods@.len(), |j: int| elem_refs(r.prods@[j].elements@)))
}
/// Every symbol of the grammar.
pub open spec fn all_elems<T, NT, AK, AV>(g: &Grammar<T, NT, AK, AV>) -> Seq<&Elem<T, NT>> {
  let ks = vx_set_seq(g.rule_set@.dom());
  vx_cat(Seq::new(ks.len(), |i: int| rule_elems(&g.rule_set@[ks[i]])))
}
/// The finitely many nonterminals a grammar can mention.
pub open spec fn all_nts<'a, T, NT, AK, AV>(g: &'a Grammar<T, NT, AK, AV>) -> Set<&'a NT> {
  all_elems(g).to_set().filter(|e: &Elem<T, NT>| *e is NonTerm).map(|e: &Elem<T, NT>| &e->NonTerm_0).insert(&g.start_symbol)
}
pub proof fn lemma_all_nts<T, NT, AK, AV>(g: &Grammar<T, NT, AK, AV>)
  ensures all_nts(g).contains(&g.start_symbol),
    forall|a: NT, b: &NT| #[trigger] occurs(g, a, Elem::NonTerm(*b)) ==> all_nts(g).contains(b),
{
  let ks = vx_set_seq(g.rule_set@.dom());
  assert forall|a: NT, b: &NT| #[trigger] occurs(g, a, Elem::NonTerm(*b)) implies all_nts(g).contains(b) by {
    let e: Elem<T, NT> = Elem::NonTerm(*b);
    let r = &g.rule_set@[a];
    let p = choose|p: ProdInner<T, NT, AK, AV>| #[trigger] r.prods@.contains(p) && has_elem(p, e);
    let j = r.prods@.index_of(p);
    let o = Seq::new(r.prods@.len(), |j: int| elem_refs(r.prods@[j].elements@));
    assert(o[j] == elem_refs(p.elements@)); assert(o[j].contains(&e)); assert(o.contains(o[j]));
    lemma_cat_contains(o, &e);
    assert(rule_elems(r).contains(&e));
    assert(ks.contains(a)); let i = ks.index_of(a);
    let oo = Seq::new(ks.len(), |i: int| rule_elems(&g.rule_set@[ks[i]]));
    assert(oo[i] == rule_elems(r)); assert(oo.contains(oo[i]));
    lemma_cat_contains(oo, &e);
    assert(all_elems(g).to_set().contains(&e));
    assert(all_elems(g).to_set().filter(|e: &Elem<T, NT>| *e is NonTerm).contains(&e));
  }
}
@fn src/grammar/base.rs Grammar::reachable_nonterms -> r
  requires g_wf(self)
  ensures forall|nt: &NT| #[trigger] r@.contains(nt) == reach(self, *nt)
.steps
.before_call breadth_first_search
  proof { lemma_all_nts(self); assert(vx_id(all_nts(self))); }
.closure 1
  -> (vx_r: BTreeSet<&NT>) ensures next_nts(self, **nt, vx_r@)
.closure 2
  -> (vx_r: It<Prod<T, NT, AK, AV>>) ensures vx_r@ == rule_prods(r)
.closure 3
  -> (vx_r: It<&Elem<T, NT>>) ensures vx_r@ == elem_refs(p.prod.elements@)
.closure 4
  -> (vx_r: Option<&NT>) ensures vx_r == (match *e { Elem::NonTerm(t) => Some(&t), Elem::Term(_) => None })
.closure_end 1
  proof {
    assert forall|b: &NT| #[trigger] vx_tail_1@.contains(b) == occurs(self, **nt, Elem::NonTerm(*b)) by {
      let e: Elem<T, NT> = Elem::NonTerm(*b);
      if vx_tail_1@.contains(b) {
        assert(vx_1_5@.contains(b));
        assert(vx_1_4@.contains(&e));
        let p = choose|p: Prod<T, NT, AK, AV>| #[trigger] vx_1_3@.contains(p) && elem_refs(p.prod.elements@).contains(&e);
        let r = choose|r: Rule<T, NT, AK, AV>| #[trigger] vx_1_2@.contains(r) && rule_prods(r).contains(p);
        assert(r == mk_rule(self, &self.rule_set@[**nt]));
        rule_prods_contains(r, *p.prod);
        assert(occurs(self, **nt, e));
      }
      if occurs(self, **nt, e) {
        let r = mk_rule(self, &self.rule_set@[**nt]);
        let q = choose|p: ProdInner<T, NT, AK, AV>| #[trigger] self.rule_set@[**nt].prods@.contains(p) && has_elem(p, e);
        let p = mk_prod(self, &r.rule.head, &q);
        rule_prods_contains(r, q);
        assert(vx_1_2@[0] == r); assert(vx_1_2@.contains(r));
        assert(vx_1_3@.contains(p));
        assert(vx_1_4@.contains(&e));
        assert(vx_1_5@.contains(b));
      }
    }
  }
.end
  proof {
    let ini = seq![&self.start_symbol];
    assert(ini[0] == &self.start_symbol); assert(ini.contains(&self.start_symbol));
    assert(vx_tail@.contains(&self.start_symbol));
    let s = ISet::new(|nt: NT| vx_tail@.contains(&nt));
    assert(closed(self, s));
    assert forall|nt: &NT| #[trigger] vx_tail@.contains(nt) implies reach(self, *nt) by {
      assert forall|s: ISet<NT>| #[trigger] closed(self, s) implies s.contains(*nt) by {
        let i = vx_tail@.filter(|x: &NT| s.contains(*x));
        assert(vx_tail@.subset_of(i));
      }
    }
  }
@end
@fn src/grammar/base.rs Grammar::unreachable_nonterms -> r
  requires g_wf(self)
  ensures forall|nt: &NT| #[trigger] r@.contains(nt) == unreached(self, *nt)
.steps
.closure 1
  -> (vx_r: bool) ensures vx_r == !reachable_nonterms@.contains(*nt)
.end
  proof {
    assert forall|nt: &NT| #[trigger] vx_tail@.contains(nt) == unreached(self, *nt) by {
      assert(vx_0_1@.contains(nt) == used(self, *nt));
    }
  }
@end
pub open spec fn no_errors<NT>(e: GrammarErrors<NT>) -> bool {
  e.unreachable_nonterms@ =~= Set::<NT>::empty() && e.nonterms_without_rules@ =~= Set::<NT>::empty() && e.rules_without_prods@ =~= Set::<NT>::empty()
}
@fn src/grammar/base.rs GrammarErrors::into_result -> r
  ensures match r { Ok(_) => no_errors(self), Err(e) => e == self && !no_errors(self) }
@end
pub open spec fn errors_exact<T, NT, AK, AV>(g: &Grammar<T, NT, AK, AV>, e: GrammarErrors<NT>) -> bool {
  &&& forall|nt: NT| #[trigger] e.unreachable_nonterms@.contains(nt) == unreached(g, nt)
  &&& forall|nt: NT| #[trigger] e.nonterms_without_rules@.contains(nt) == no_rule(g, nt)
  &&& forall|nt: NT| #[trigger] e.rules_without_prods@.contains(nt) == no_prods(g, nt)
}
@fn src/grammar/base.rs Grammar::check_grammar -> r
  requires g_wf(self)
  ensures match r { Ok(_) => valid(self), Err(e) => !valid(self) && errors_exact(self, e) }
.steps
.end
  proof {
    assert forall|nt: NT| true implies vx_0_3@.to_set().contains(nt) == #[trigger] unreached(self, nt) && vx_0_6@.to_set().contains(nt) == #[trigger] no_rule(self, nt) && vx_0_9@.to_set().contains(nt) == #[trigger] no_prods(self, nt) by {
      assert(vx_0_1@.contains(&nt) == unreached(self, nt)); assert(vx_0_3@.contains(nt) == vx_0_1@.contains(&nt));
      assert(vx_0_4@.contains(&nt) == no_rule(self, nt)); assert(vx_0_6@.contains(nt) == vx_0_4@.contains(&nt));
      assert(vx_0_7@.contains(&nt) == no_prods(self, nt)); assert(vx_0_9@.contains(nt) == vx_0_7@.contains(&nt));
    }
    let e = vx_0_10;
    assert(errors_exact(self, e));
    if !no_errors(e) {
      if !(e.unreachable_nonterms@ =~= Set::<NT>::empty()) { let x = choose|x: NT| #[trigger] e.unreachable_nonterms@.contains(x); assert(unreached(self, x)); }
      else if !(e.nonterms_without_rules@ =~= Set::<NT>::empty()) { let x = choose|x: NT| #[trigger] e.nonterms_without_rules@.contains(x); assert(no_rule(self, x)); }
      else { let x = choose|x: NT| #[trigger] e.rules_without_prods@.contains(x); assert(no_prods(self, x)); }
    } else {
      assert forall|nt: NT| !#[trigger] no_rule(self, nt) by { assert(!e.nonterms_without_rules@.contains(nt)); }
      assert forall|nt: NT| !#[trigger] no_prods(self, nt) by { assert(!e.rules_without_prods@.contains(nt)); }
      assert forall|nt: NT| !#[trigger] unreached(self, nt) by { assert(!e.unreachable_nonterms@.contains(nt)); }
    }
  }
@end
} // verus!
