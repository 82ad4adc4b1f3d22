@use names.rs
@erase ParentRef RefCompare
// Comparing by address is what the erased wrappers do; the model has no addresses, so the items
// that do it are relied on as they stand here.
@pin src/grammar/base/cmp_wrappers.rs
fn ref_eq<T>(a: &T, b: &T) -> bool {
  std::ptr::eq(a, b)
}
fn ref_cmp<T>(a: &T, b: &T) -> cmp::Ordering {
  (a as *const T).cmp(&(b as *const T))
}
#[derive(Debug)]
pub struct ParentRef<'a, T>(&'a T);
impl<'a, T> ParentRef<'a, T> {
  pub fn new(r: &'a T) -> Self {
    ParentRef(r)
  }
}
impl<T> cmp::PartialEq for ParentRef<'_, T> {
  fn eq(&self, other: &Self) -> bool {
    assert!(ref_eq(self.0, other.0));
    true
  }
}
impl<T> cmp::Eq for ParentRef<'_, T> {}
impl<T> cmp::PartialOrd for ParentRef<'_, T> {
  fn partial_cmp(&self, other: &Self) -> Option<cmp::Ordering> {
    Some(self.cmp(other))
  }
}
impl<T> cmp::Ord for ParentRef<'_, T> {
  fn cmp(&self, other: &Self) -> cmp::Ordering {
    assert!(ref_eq(self.0, other.0));
    cmp::Ordering::Equal
  }
}
impl<'a, T> ops::Deref for ParentRef<'a, T> {
  type Target = &'a T;
  fn deref(&self) -> &&'a T {
    &self.0
  }
}
impl<T> Clone for ParentRef<'_, T> {
  fn clone(&self) -> Self {
    ParentRef(self.0)
  }
}
impl<T> Copy for ParentRef<'_, T> {}
#[derive(Debug)]
pub struct RefCompare<'a, T>(&'a T);
impl<'a, T> RefCompare<'a, T> {
  pub fn new(r: &'a T) -> Self {
    RefCompare(r)
  }
}
impl<T> cmp::PartialEq for RefCompare<'_, T> {
  fn eq(&self, other: &Self) -> bool {
    ref_eq(self.0, other.0)
  }
}
impl<T> cmp::Eq for RefCompare<'_, T> {}
impl<T> cmp::PartialOrd for RefCompare<'_, T> {
  fn partial_cmp(&self, other: &Self) -> Option<cmp::Ordering> {
    Some(self.cmp(other))
  }
}
impl<T> cmp::Ord for RefCompare<'_, T> {
  fn cmp(&self, other: &Self) -> cmp::Ordering {
    ref_cmp(self.0, other.0)
  }
}
impl<'a, T> ops::Deref for RefCompare<'a, T> {
  type Target = &'a T;
  fn deref(&self) -> &&'a T {
    &self.0
  }
}
impl<T> Clone for RefCompare<'_, T> {
  fn clone(&self) -> Self {
    RefCompare(self.0)
  }
}
impl<T> Copy for RefCompare<'_, T> {}
@end
@pin src/grammar/base.rs
impl<'a, T, NT, AK, AV> Ord for Prod<'a, T, NT, AK, AV>
where
  NT: Ord,
{
  fn cmp(&self, other: &Self) -> std::cmp::Ordering {
    self.prod.cmp(&other.prod)
  }
}
impl<'a, T, NT, AK, AV> PartialOrd for Prod<'a, T, NT, AK, AV>
where
  NT: Ord,
{
  fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
    Some(self.cmp(other))
  }
}
impl<'a, T, NT, AK, AV> PartialEq for Prod<'a, T, NT, AK, AV>
where
  NT: Ord,
{
  fn eq(&self, other: &Self) -> bool {
    self.prod == other.prod
  }
}
impl<'a, T, NT, AK, AV> Eq for Prod<'a, T, NT, AK, AV> where NT: Ord {}
impl<'a, T, NT, AK, AV> Copy for Prod<'a, T, NT, AK, AV> {}
@end
verus! {
@type src/grammar/base.rs Elem derive=Clone,PartialEq,Eq,PartialOrd,Ord
@type src/grammar/base.rs ProdElement derive=Clone,PartialEq,Eq,PartialOrd,Ord
@type src/grammar/base.rs ProdInner
@type src/grammar/base.rs ProdKey derive=Clone,PartialEq,Eq,PartialOrd,Ord
@type src/grammar/base.rs RuleInner
@type src/grammar/base.rs Grammar reject=T,NT,AK,AV
@type src/grammar/base.rs Rule reject=T,NT,AK,AV
@type src/grammar/base.rs Prod reject=T,NT,AK,AV

@fn src/grammar/base.rs Elem::as_term -> r
  ensures r == (match *self { Elem::Term(t) => Some(&t), Elem::NonTerm(_) => None })
@end
@fn src/grammar/base.rs Elem::as_nonterm -> r
  ensures r == (match *self { Elem::NonTerm(t) => Some(&t), Elem::Term(_) => None })
@end
@fn src/grammar/base.rs Elem::as_ref -> r
  ensures r == (match *self { Elem::NonTerm(t) => Elem::NonTerm(&t), Elem::Term(t) => Elem::Term(&t) })
@end
@fn src/grammar/base.rs ProdElement::new_with_name -> r
  ensures r.identifier == Some(name), r.element == e
@end
@fn src/grammar/base.rs ProdElement::new -> r
  ensures r.identifier == name, r.element == e
@end
@fn src/grammar/base.rs ProdElement::new_empty -> r
  ensures r.identifier == None::<Name>, r.element == e
@end
@fn src/grammar/base.rs ProdElement::id -> r
  ensures r == (match self.identifier { Some(n) => Some(&n), None => None })
@end
@fn src/grammar/base.rs ProdElement::elem -> r
  ensures *r == self.element
@end
@fn src/grammar/base.rs ProdInner::new -> r
  ensures r.action_key == action_key, r.action_value == action_value, r.elements == elements
@end
@fn src/grammar/base.rs ProdInner::prod_elements -> r
  ensures *r == self.elements
@end
pub open spec fn elem_refs<'a, T, NT>(s: Seq<ProdElement<T, NT>>) -> Seq<&'a Elem<T, NT>> { Seq::new(s.len(), |i: int| &s[i].element) }
@fn src/grammar/base.rs ProdInner::elements_iter -> r
  ensures r@ == elem_refs(self.elements@)
.end
  proof { assert(vx_tail@ =~= elem_refs(self.elements@)); }
@end
@fn src/grammar/base.rs ProdInner::element_at -> r
  ensures r == (if index < self.elements@.len() { Some(&self.elements@[index as int].element) } else { None })
.desugar map
@end
@fn src/grammar/base.rs ProdInner::action_key -> r
  ensures *r == self.action_key
@end
@fn src/grammar/base.rs ProdKey::head -> r
  ensures *r == self.head
@end
@fn src/grammar/base.rs ProdKey::action_key -> r
  ensures *r == self.action_key
@end
@fn src/grammar/base.rs RuleInner::new -> r
  ensures r.head == head, r.prods == prods
@end
@fn src/grammar/base.rs RuleInner::head -> r
  ensures *r == self.head
@end
@fn src/grammar/base.rs RuleInner::prods -> r
  ensures *r == self.prods
@end

// ---- Prod and Rule: references to parts of one grammar
pub open spec fn mk_rule<'a, T, NT, AK, AV>(g: &'a Grammar<T, NT, AK, AV>, r: &'a RuleInner<T, NT, AK, AV>) -> Rule<'a, T, NT, AK, AV> { Rule { grammar: g, rule: r } }
pub open spec fn mk_prod<'a, T, NT, AK, AV>(g: &'a Grammar<T, NT, AK, AV>, head: &'a NT, p: &'a ProdInner<T, NT, AK, AV>) -> Prod<'a, T, NT, AK, AV> { Prod { grammar: g, head, prod: p } }
/// The productions of a rule, in order.
pub open spec fn rule_prods<'a, T, NT, AK, AV>(r: Rule<'a, T, NT, AK, AV>) -> Seq<Prod<'a, T, NT, AK, AV>> {
    Seq::new(r.rule.prods@.len(), |i: int| mk_prod(r.grammar, &r.rule.head, &r.rule.prods@[i]))
}
/// The rules of a grammar, in the order of their heads.
pub open spec fn g_rules<'a, T, NT, AK, AV>(g: &'a Grammar<T, NT, AK, AV>) -> Seq<Rule<'a, T, NT, AK, AV>> {
    Seq::new(vx_set_seq(g.rule_set@.dom()).len(), |i: int| mk_rule(g, &g.rule_set@[vx_set_seq(g.rule_set@.dom())[i]]))
}
pub open spec fn g_prods<'a, T, NT, AK, AV>(g: &'a Grammar<T, NT, AK, AV>) -> Seq<Prod<'a, T, NT, AK, AV>> {
    vx_cat(Seq::new(g_rules(g).len(), |i: int| rule_prods(g_rules(g)[i])))
}
/// Data structure invariant: rules are filed under their head.
pub open spec fn g_wf<T, NT, AK, AV>(g: &Grammar<T, NT, AK, AV>) -> bool {
    forall|k: NT| #[trigger] g.rule_set@.contains_key(k) ==> g.rule_set@[k].head == k
}
/// In ascending order of their heads.
pub open spec fn by_head<'a, T, NT, AK, AV>(s: Seq<Rule<'a, T, NT, AK, AV>>) -> bool {
    forall|i: int, j: int| 0 <= i < j < s.len() ==> vx_ord((#[trigger] s[i]).rule.head, (#[trigger] s[j]).rule.head) is Less
}
pub proof fn lemma_by_head<T, NT, AK, AV>(g: &Grammar<T, NT, AK, AV>)
    requires g_wf(g)
    ensures by_head(g_rules(g))
{
    let (s, q) = (g_rules(g), vx_set_seq(g.rule_set@.dom()));
    assert forall|i: int, j: int| 0 <= i < j < s.len() implies vx_ord((#[trigger] s[i]).rule.head, (#[trigger] s[j]).rule.head) is Less by {
        ax_set_seq_ord(g.rule_set@.dom(), i, j);
        assert(g.rule_set@.contains_key(q[i]) && g.rule_set@.contains_key(q[j]));
    }
}
@fn src/grammar/base.rs Rule::new -> r
  ensures r == mk_rule(grammar, rule)
@end
@fn src/grammar/base.rs Rule::head -> r
  ensures *r == self.rule.head
@end
@fn src/grammar/base.rs Rule::prods -> r
  ensures r@ == rule_prods(*self)
.end
  proof { assert(vx_tail@ =~= rule_prods(*self)); }
.closure 1
  -> (vx_r: Prod<'a, T, NT, AK, AV>) ensures vx_r == mk_prod(self.grammar, &self.rule.head, prod)
@end
@fn src/grammar/base.rs Prod::new -> r
  ensures r == mk_prod(grammar, head, prod)
@end
@fn src/grammar/base.rs Prod::head -> r
  ensures r == self.head
@end
@fn src/grammar/base.rs Prod::prod_elements -> r
  ensures *r == self.prod.elements
@end
@fn src/grammar/base.rs Prod::elements -> r
  ensures r@ == elem_refs(self.prod.elements@)
@end
@fn src/grammar/base.rs Prod::num_elements -> r
  ensures r == self.prod.elements@.len()
@end
@fn src/grammar/base.rs Prod::action_key -> r
  ensures *r == self.prod.action_key
@end
@fn src/grammar/base.rs Prod::prod_element_at -> r
  ensures r == (if index < self.prod.elements@.len() { Some(&self.prod.elements@[index as int]) } else { None })
@end
@fn src/grammar/base.rs Prod::element_at -> r
  ensures r == (if index < self.prod.elements@.len() { Some(&self.prod.elements@[index as int].element) } else { None })
@end
@fn src/grammar/base.rs Prod::action_value -> r
  ensures *r == self.prod.action_value
@end
@fn src/grammar/base.rs Prod::prod_key -> r
  ensures r.head == *self.head, r.action_key == self.prod.action_key
@end
@fn src/grammar/base.rs Prod::first_elem -> r
  ensures r == (if self.prod.elements@.len() > 0 { Some(&self.prod.elements@[0].element) } else { None })
.desugar map
@end
@impl src/grammar/base.rs Clone for Prod
@method clone -> r
  ensures r == *self
@end
impl<'a, T, NT, AK, AV> Copy for Prod<'a, T, NT, AK, AV> {}
impl<'a, T, NT: Ord, AK, AV> PartialEq for Prod<'a, T, NT, AK, AV> { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }
impl<'a, T, NT: Ord, AK, AV> Eq for Prod<'a, T, NT, AK, AV> {}
impl<'a, T, NT: Ord, AK, AV> PartialOrd for Prod<'a, T, NT, AK, AV> { #[verifier::external_body] fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { unimplemented!() } }
impl<'a, T, NT: Ord, AK, AV> Ord for Prod<'a, T, NT, AK, AV> { #[verifier::external_body] fn cmp(&self, o: &Self) -> std::cmp::Ordering { unimplemented!() } }
// ---- Grammar
@fn src/grammar/base.rs Grammar::start_nt -> r
  ensures *r == self.start_symbol
@end
@fn src/grammar/base.rs Grammar::rules -> r
  ensures r@ == g_rules(self), g_wf(self) ==> by_head(r@)
.end
  proof { assert(vx_tail@ =~= g_rules(self)); if g_wf(self) { lemma_by_head(self); } }
@end
@fn src/grammar/base.rs Grammar::prods -> r
  ensures r@ == g_prods(self)
.end
  proof {
    let o = choose|o: Seq<It<Prod<T, NT, AK, AV>>>| o.len() == g_rules(self).len() && (forall|i: int| 0 <= i < o.len() ==> (#[trigger] o[i])@ == rule_prods(g_rules(self)[i])) && vx_tail@ == #[trigger] vx_flat(o);
    assert(vx_seqs(o) =~= Seq::new(g_rules(self).len(), |i: int| rule_prods(g_rules(self)[i])));
  }
.closure 1
  -> (vx_r: It<Prod<T, NT, AK, AV>>) ensures vx_r@ == rule_prods(rule)
@end
@fn src/grammar/base.rs Grammar::rule_set -> r
  ensures
    forall|k: &NT| #[trigger] r@.contains_key(k) == self.rule_set@.contains_key(*k),
    forall|k: NT| #[trigger] self.rule_set@.contains_key(k) ==> r@[&k] == mk_rule(self, &self.rule_set@[k]),
.end
  proof {
    let s = vx_set_seq(self.rule_set@.dom());
    let p: Seq<(&NT, Rule<T, NT, AK, AV>)> = Seq::new(s.len(), |i: int| (&s[i], mk_rule(self, &self.rule_set@[s[i]])));
    assert forall|q: Seq<(&NT, Rule<T, NT, AK, AV>)>| #![trigger vx_map_of(q)] q.len() == p.len() && (forall|i: int| 0 <= i < q.len() ==> #[trigger] q[i] == p[i]) implies q == p by { assert(q =~= p); }
    assert(vx_tail@ == vx_map_of(p));
    ax_set_seq(self.rule_set@.dom());
    assert forall|k: &NT| #[trigger] vx_tail@.contains_key(k) == self.rule_set@.contains_key(*k) by {
      if self.rule_set@.contains_key(*k) { assert(s.contains(*k)); let i = s.index_of(*k); assert(p[i].0 == k); }
    }
    assert forall|k: NT| #[trigger] self.rule_set@.contains_key(k) implies vx_tail@[&k] == mk_rule(self, &self.rule_set@[k]) by {
      assert(s.contains(k)); let i = s.index_of(k); assert(p[i].0 == &k);
      assert forall|j: int| i < j < p.len() implies (#[trigger] p[j]).0 != p[i].0 by { }
      lemma_map_of_last(p, i);
    }
  }
.closure 1
  -> (vx_r: (&NT, Rule<T, NT, AK, AV>)) ensures vx_r == (vx_p0.0, mk_rule(self, vx_p0.1))
@end
@fn src/grammar/base.rs Grammar::try_get_rule -> r
  ensures r == (if self.rule_set@.contains_key(*nt) { Some(mk_rule(self, &self.rule_set@[*nt])) } else { None })
.desugar map
@end
@fn src/grammar/base.rs Grammar::get_rule -> r
  requires self.rule_set@.contains_key(*nt)
  ensures r == mk_rule(self, &self.rule_set@[*nt])
@end
} // verus!
