@use utils.rs
@use base.rs
@use grammar_check.rs
@use builder.rs
verus! {
@type src/start_grammar.rs StreamTerminal derive=Clone,PartialEq,Eq,PartialOrd,Ord
@type src/start_grammar.rs StartNonTerminal derive=Clone,PartialEq,Eq,PartialOrd,Ord ord
@type src/start_grammar.rs StartActionKey derive=Clone,PartialEq,Eq,PartialOrd,Ord
@type src/start_grammar.rs StartActionValue derive=Clone
@type src/start_grammar.rs StartGrammar
@fn src/start_grammar.rs StreamTerminal::has_kind -> r
  ensures r == (self == StreamTerminal::Term(*kind))
@end
@fn src/start_grammar.rs StreamTerminal::is_eos -> r
  ensures r == (self is EndOfStream)
@end
@fn src/start_grammar.rs StartActionKey::as_base -> r
  ensures r == (match self { StartActionKey::Start => None, StartActionKey::ActionKey(k) => Some(k) })
@end
pub open spec fn w_elem<T, NT>(e: Elem<T, NT>) -> Elem<StreamTerminal<T>, StartNonTerminal<NT>> {
  match e { Elem::Term(t) => Elem::Term(StreamTerminal::Term(t)), Elem::NonTerm(n) => Elem::NonTerm(StartNonTerminal::NTerm(n)) }
}
@fn src/start_grammar.rs base_elem_to_start_elem -> r
  ensures r == w_elem(elem)
@end
pub open spec fn w_pe<T, NT>(e: ProdElement<T, NT>) -> ProdElement<StreamTerminal<T>, StartNonTerminal<NT>> { ProdElement { identifier: e.identifier, element: w_elem(e.element) } }
pub open spec fn w_pes<T, NT>(s: Seq<ProdElement<T, NT>>) -> Seq<ProdElement<StreamTerminal<T>, StartNonTerminal<NT>>> { Seq::new(s.len(), |i: int| w_pe(s[i])) }
pub type SProd<T, NT, AK, AV> = ProdInner<StreamTerminal<T>, StartNonTerminal<NT>, StartActionKey<AK>, StartActionValue<AV>>;
pub type SRule<T, NT, AK, AV> = RuleInner<StreamTerminal<T>, StartNonTerminal<NT>, StartActionKey<AK>, StartActionValue<AV>>;
/// `b` is the production `a`, tagged.
pub open spec fn w_prod<T, NT, AK, AV>(a: ProdInner<T, NT, AK, AV>, b: SProd<T, NT, AK, AV>) -> bool {
  b.action_key == StartActionKey::ActionKey(a.action_key) && b.action_value == StartActionValue::ActionValue(a.action_value) && b.elements@ == w_pes(a.elements@)
}
pub open spec fn w_prods<T, NT, AK, AV>(a: Seq<ProdInner<T, NT, AK, AV>>, b: Seq<SProd<T, NT, AK, AV>>) -> bool {
  b.len() == a.len() && forall|i: int| 0 <= i < a.len() ==> w_prod(a[i], #[trigger] b[i])
}
pub open spec fn w_rule<T, NT, AK, AV>(a: RuleInner<T, NT, AK, AV>, b: SRule<T, NT, AK, AV>) -> bool { b.head == StartNonTerminal::NTerm(a.head) && w_prods(a.prods@, b.prods@) }
pub open spec fn start_elems<T, NT>(start: NT) -> Seq<ProdElement<StreamTerminal<T>, StartNonTerminal<NT>>> {
  seq![ProdElement { identifier: Some(name_of("start"@)), element: Elem::NonTerm(StartNonTerminal::NTerm(start)) }, ProdElement { identifier: None, element: Elem::Term(StreamTerminal::EndOfStream) }]
}
pub open spec fn is_start_prods<T, NT, AK, AV>(start: NT, b: Seq<SProd<T, NT, AK, AV>>) -> bool {
  b.len() == 1 && b[0].action_key == StartActionKey::<AK>::Start && b[0].action_value == StartActionValue::<AV>::Start && b[0].elements@ == start_elems::<T, NT>(start)
}
/// The rules of the wrapped grammar, as they are given to the builder.
pub open spec fn w_rules<T, NT, AK, AV>(g: &Grammar<T, NT, AK, AV>, b: Seq<SRule<T, NT, AK, AV>>) -> bool {
  b.len() == g_rules(g).len() + 1 && b[0].head == StartNonTerminal::<NT>::Start && is_start_prods(g.start_symbol, b[0].prods@)
  && forall|i: int| 0 < i < b.len() ==> w_rule(*g_rules(g)[i - 1].rule, #[trigger] b[i])
}
/// The wrapped grammar.
pub open spec fn wrapped<T, NT, AK, AV>(g: &Grammar<T, NT, AK, AV>, w: StartGrammar<T, NT, AK, AV>) -> bool {
  &&& w.start_symbol == StartNonTerminal::<NT>::Start && g_wf(&w)
  &&& forall|k: StartNonTerminal<NT>| #[trigger] w.rule_set@.contains_key(k) == (match k { StartNonTerminal::Start => true, StartNonTerminal::NTerm(n) => g.rule_set@.contains_key(n) })
  &&& is_start_prods(g.start_symbol, w.rule_set@[StartNonTerminal::Start].prods@)
  &&& forall|n: NT| #[trigger] g.rule_set@.contains_key(n) ==> w_rule(g.rule_set@[n], w.rule_set@[StartNonTerminal::NTerm(n)])
}
pub proof fn lemma_w_has<T, NT, AK, AV>(a: ProdInner<T, NT, AK, AV>, b: SProd<T, NT, AK, AV>, n: NT)
  requires w_prod(a, b)
  ensures has_elem(b, Elem::NonTerm(StartNonTerminal::NTerm(n))) == has_elem(a, Elem::NonTerm(n)), !has_elem(b, Elem::NonTerm(StartNonTerminal::Start))
{
  let e: Elem<T, NT> = Elem::NonTerm(n);
  let f: Elem<StreamTerminal<T>, StartNonTerminal<NT>> = Elem::NonTerm(StartNonTerminal::NTerm(n));
  lemma_elem_refs(a.elements@, e); lemma_elem_refs(b.elements@, f); lemma_elem_refs(b.elements@, Elem::NonTerm(StartNonTerminal::Start));
  if has_elem(a, e) { let i = choose|i: int| 0 <= i < a.elements@.len() && (#[trigger] a.elements@[i]).element == e; assert(b.elements@[i].element == f); }
  if has_elem(b, f) { let i = choose|i: int| 0 <= i < b.elements@.len() && (#[trigger] b.elements@[i]).element == f; assert(a.elements@[i].element == e); }
}
/// What occurs where in the wrapped grammar.
pub proof fn lemma_w_occurs<T, NT, AK, AV>(g: &Grammar<T, NT, AK, AV>, w: &StartGrammar<T, NT, AK, AV>, n: NT)
  requires wrapped(g, *w)
  ensures
    forall|m: NT| occurs(w, StartNonTerminal::NTerm(m), Elem::NonTerm(StartNonTerminal::NTerm(n))) == #[trigger] occurs(g, m, Elem::NonTerm(n)),
    occurs(w, StartNonTerminal::Start, Elem::NonTerm(StartNonTerminal::NTerm(n))) == (n == g.start_symbol),
    forall|k: StartNonTerminal<NT>| !#[trigger] occurs(w, k, Elem::NonTerm(StartNonTerminal::Start)),
{
  let e: Elem<T, NT> = Elem::NonTerm(n);
  let f: Elem<StreamTerminal<T>, StartNonTerminal<NT>> = Elem::NonTerm(StartNonTerminal::NTerm(n));
  let z: Elem<StreamTerminal<T>, StartNonTerminal<NT>> = Elem::NonTerm(StartNonTerminal::Start);
  assert forall|m: NT| occurs(w, StartNonTerminal::NTerm(m), f) == #[trigger] occurs(g, m, e) by {
    if g.rule_set@.contains_key(m) {
      let (a, b) = (g.rule_set@[m].prods@, w.rule_set@[StartNonTerminal::NTerm(m)].prods@);
      if occurs(g, m, e) { let p = choose|p: ProdInner<T, NT, AK, AV>| #[trigger] a.contains(p) && has_elem(p, e); let i = a.index_of(p); lemma_w_has(a[i], b[i], n); assert(b.contains(b[i])); }
      if occurs(w, StartNonTerminal::NTerm(m), f) { let p = choose|p: SProd<T, NT, AK, AV>| #[trigger] b.contains(p) && has_elem(p, f); let i = b.index_of(p); lemma_w_has(a[i], b[i], n); assert(a.contains(a[i])); }
    }
  }
  let q = w.rule_set@[StartNonTerminal::Start].prods@[0];
  let sp = w.rule_set@[StartNonTerminal::Start].prods@;
  assert(sp.contains(q));
  lemma_elem_refs(q.elements@, f); lemma_elem_refs(q.elements@, z);
  assert(w.rule_set@.contains_key(StartNonTerminal::Start));
  if n == g.start_symbol { assert(q.elements@[0].element == f); }
  assert forall|k: StartNonTerminal<NT>| !#[trigger] occurs(w, k, z) by {
    if occurs(w, k, z) {
      let b = w.rule_set@[k].prods@;
      let p = choose|p: SProd<T, NT, AK, AV>| #[trigger] b.contains(p) && has_elem(p, z);
      let i = b.index_of(p);
      match k { StartNonTerminal::Start => { } StartNonTerminal::NTerm(m) => { assert(g.rule_set@.contains_key(m)); lemma_w_has(g.rule_set@[m].prods@[i], b[i], n); } }
    }
  }
}
pub proof fn lemma_w_valid<T, NT, AK, AV>(g: &Grammar<T, NT, AK, AV>, w: &StartGrammar<T, NT, AK, AV>)
  requires wrapped(g, *w), g_wf(g), valid(g)
  ensures valid(w)
{
  assert(!no_rule(g, g.start_symbol));
  assert forall|k: StartNonTerminal<NT>| used(w, k) implies match k { StartNonTerminal::Start => false, StartNonTerminal::NTerm(n) => used(g, n) || n == g.start_symbol } by {
    let j = choose|j: StartNonTerminal<NT>| occurs(w, j, Elem::NonTerm(k));
    match k {
      StartNonTerminal::Start => { lemma_w_occurs(g, w, g.start_symbol); }
      StartNonTerminal::NTerm(n) => { lemma_w_occurs(g, w, n); match j { StartNonTerminal::Start => {} StartNonTerminal::NTerm(m) => { assert(occurs(g, m, Elem::NonTerm(n))); } } }
    }
  }
  assert forall|k: StartNonTerminal<NT>| !#[trigger] no_rule(w, k) by {
    match k { StartNonTerminal::Start => { assert(w.rule_set@.contains_key(k)); } StartNonTerminal::NTerm(n) => { assert(!no_rule(g, n)); } }
  }
  assert forall|k: StartNonTerminal<NT>| !#[trigger] no_prods(w, k) by {
    match k { StartNonTerminal::Start => { } StartNonTerminal::NTerm(n) => { assert(!no_prods(g, n)); assert(w.rule_set@.contains_key(k) == g.rule_set@.contains_key(n)); } }
  }
  assert forall|k: StartNonTerminal<NT>| !#[trigger] unreached(w, k) by {
    if used(w, k) {
      let n = k->NTerm_0;
      assert(!unreached(g, n));
      assert forall|s: ISet<StartNonTerminal<NT>>| #[trigger] closed(w, s) implies s.contains(k) by {
        let t = ISet::new(|m: NT| s.contains(StartNonTerminal::NTerm(m)));
        lemma_w_occurs(g, w, g.start_symbol);
        assert(occurs(w, StartNonTerminal::Start, Elem::NonTerm(StartNonTerminal::NTerm(g.start_symbol))));
        assert(t.contains(g.start_symbol));
        assert forall|a: NT, b: NT| t.contains(a) && #[trigger] occurs(g, a, Elem::NonTerm(b)) implies t.contains(b) by {
          lemma_w_occurs(g, w, b);
          assert(occurs(w, StartNonTerminal::NTerm(a), Elem::NonTerm(StartNonTerminal::NTerm(b))));
        }
        assert(closed(g, t));
        if n != g.start_symbol { assert(reach(g, n)); }
      }
    }
  }
}
/// The heads of the rules in the order in which a grammar lists them.
pub open spec fn heads<T, NT, AK, AV>(g: &Grammar<T, NT, AK, AV>) -> Seq<NT> { vx_set_seq(g.rule_set@.dom()) }
/// The rules of the wrapped grammar are listed in the order of the original ones.
pub open spec fn same_order<T, NT, AK, AV>(g: &Grammar<T, NT, AK, AV>, w: &StartGrammar<T, NT, AK, AV>) -> bool {
  forall|i: int, j: int, k: int, l: int| 0 <= i < j < heads(g).len() && 0 <= k < heads(w).len() && 0 <= l < heads(w).len()
    && #[trigger] heads(w)[k] == StartNonTerminal::NTerm(#[trigger] heads(g)[i]) && #[trigger] heads(w)[l] == StartNonTerminal::NTerm(#[trigger] heads(g)[j]) ==> k < l
}
pub proof fn lemma_w_order<T, NT, AK, AV>(g: &Grammar<T, NT, AK, AV>, w: &StartGrammar<T, NT, AK, AV>)
  requires wrapped(g, *w)
  ensures same_order(g, w)
{
  let (q, a) = (heads(g), heads(w));
  assert forall|i: int, j: int, k: int, l: int| 0 <= i < j < q.len() && 0 <= k < a.len() && 0 <= l < a.len()
    && #[trigger] a[k] == StartNonTerminal::NTerm(#[trigger] q[i]) && #[trigger] a[l] == StartNonTerminal::NTerm(#[trigger] q[j]) implies k < l by {
    ax_set_seq_ord(g.rule_set@.dom(), i, j);
    ax_ord_StartNonTerminal(a[k], a[l]);
    if l < k { ax_set_seq_ord(w.rule_set@.dom(), l, k); }
  }
}
pub proof fn lemma_w_built<T, NT, AK, AV>(g: &Grammar<T, NT, AK, AV>, s: Seq<SRule<T, NT, AK, AV>>, w: StartGrammar<T, NT, AK, AV>)
  requires g_wf(g), valid(g), w_rules(g, s), built_from(w, StartNonTerminal::Start, s)
  ensures wrapped(g, w), valid(&w)
{
  lemma_rules_wf(s);
  let q = vx_set_seq(g.rule_set@.dom());
  ax_set_seq(g.rule_set@.dom());
  assert forall|i: int| 0 <= i < q.len() implies #[trigger] g_rules(g)[i].rule.head == q[i] && *g_rules(g)[i].rule == g.rule_set@[q[i]] by { assert(q.contains(q[i])); assert(g.rule_set@.contains_key(q[i])); }
  assert forall|i: int| 0 < i < s.len() implies (#[trigger] s[i]).head == StartNonTerminal::NTerm(q[i - 1]) by { assert(g_rules(g)[i - 1].rule.head == q[i - 1]); assert(w_rule(*g_rules(g)[i - 1].rule, s[i])); }
  assert forall|k: StartNonTerminal<NT>| #[trigger] w.rule_set@.contains_key(k) == (match k { StartNonTerminal::Start => true, StartNonTerminal::NTerm(n) => g.rule_set@.contains_key(n) }) by {
    assert(s[0].head == StartNonTerminal::<NT>::Start);
    if w.rule_set@.contains_key(k) { let r = rules_of(s)[k]; let i = s.index_of(r); assert(s[i].head == k); if i > 0 { assert(q.contains(q[i - 1])); } }
    match k { StartNonTerminal::Start => {} StartNonTerminal::NTerm(n) => { if g.rule_set@.contains_key(n) { assert(q.contains(n)); let i = q.index_of(n); assert(s[i + 1].head == k); } } }
  }
  assert(forall|j: int| 0 < j < s.len() ==> (#[trigger] s[j]).head != s[0].head);
  assert(rules_of(s)[s[0].head] == s[0]);
  assert forall|n: NT| #[trigger] g.rule_set@.contains_key(n) implies w_rule(g.rule_set@[n], w.rule_set@[StartNonTerminal::NTerm(n)]) by {
    assert(q.contains(n)); let i = q.index_of(n) + 1;
    assert(s[i].head == StartNonTerminal::NTerm(n));
    assert forall|j: int| i < j < s.len() implies (#[trigger] s[j]).head != s[i].head by { assert(q[j - 1] != q[i - 1]); }
    assert(rules_of(s)[s[i].head] == s[i]);
    assert(w_rule(*g_rules(g)[i - 1].rule, s[i]));
    assert(*g_rules(g)[i - 1].rule == g.rule_set@[q[i - 1]] && g_rules(g)[i - 1].rule.head == q[i - 1]);
  }
  assert(g_wf(&w));
  lemma_w_valid(g, &w);
}
@fn src/start_grammar.rs wrap_grammar_with_start -> r
  requires g_wf(&g), valid(&g)
  ensures match r { Ok(w) => wrapped(&g, w) && valid(&w) && same_order(&g, &w), Err(e) => false }
.closure 1
  ensures final(gb).start == old(gb).start, old(gb).rules@.len() == 0 ==> w_rules(&g, final(gb).rules@)
.closure 2
  ensures final(rb).head == old(rb).head, old(rb).prods@.len() == 0 ==> is_start_prods(g.start_symbol, final(rb).prods@)
.closure 3
  ensures final(pb).action_key == old(pb).action_key, final(pb).action_value == old(pb).action_value, old(pb).elems@.len() == 0 ==> final(pb).elems@ == start_elems::<T, NT>(g.start_symbol)
.closure 4
  ensures final(rb).head == old(rb).head, old(rb).prods@.len() == 0 ==> w_prods(rule.rule.prods@, final(rb).prods@)
.closure 5
  -> (vx_r: ProdElement<StreamTerminal<T>, StartNonTerminal<NT>>) ensures vx_r == w_pe(*e)
.closure_end 3
  proof { if old(pb).elems@.len() == 0 { assert(pb.elems@ =~= start_elems::<T, NT>(g.start_symbol)); } }
.loop 1
  invariant
    vx_s1 == g_rules(&g), gb.start == old(gb).start,
    old(gb).rules@.len() == 0 ==> gb.rules@.len() == vx_n1 + 1 && gb.rules@[0].head == StartNonTerminal::<NT>::Start && is_start_prods(g.start_symbol, gb.rules@[0].prods@)
      && forall|i: int| 0 < i < gb.rules@.len() ==> w_rule(*g_rules(&g)[i - 1].rule, #[trigger] gb.rules@[i]),
.loop 2
  invariant
    vx_s2 == rule_prods(rule), rb.head == old(rb).head,
    old(rb).prods@.len() == 0 ==> rb.prods@.len() == vx_n2 && forall|i: int| 0 <= i < vx_n2 ==> w_prod(rule.rule.prods@[i], #[trigger] rb.prods@[i]),
.loop_end 2
  proof { if old(rb).prods@.len() == 0 { let i = vx_n2 - 1; assert(rb.prods@[i].elements@ =~= w_pes(rule.rule.prods@[i].elements@)); } }
.end
  proof {
    assert forall|s: Seq<SRule<T, NT, AK, AV>>, w: StartGrammar<T, NT, AK, AV>| w_rules(&g, s) && #[trigger] built_from(w, StartNonTerminal::Start, s) implies wrapped(&g, w) && valid(&w) && same_order(&g, &w) by { lemma_w_built(&g, s, w); lemma_w_order(&g, &w); }
  }
@end
/// The shape that wrapping gives (see wrapped).
pub open spec fn has_start<T, NT, AK, AV>(w: &StartGrammar<T, NT, AK, AV>) -> bool {
  w.rule_set@.contains_key(StartNonTerminal::Start) && w.rule_set@[StartNonTerminal::Start].prods@.len() == 1
}
@fn src/start_grammar.rs StartGrammar::start_rule -> r
  requires has_start(self)
  ensures r == mk_rule(self, &self.rule_set@[StartNonTerminal::Start])
@end
@fn src/start_grammar.rs StartGrammar::start_prod -> r
  requires has_start(self), g_wf(self)
  ensures r == mk_prod(self, &self.rule_set@[StartNonTerminal::Start].head, &self.rule_set@[StartNonTerminal::Start].prods@[0])
@end
} // verus!
