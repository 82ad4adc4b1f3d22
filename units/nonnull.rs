@use utils.rs
@use base.rs
@use passes.rs
@use grammar_check.rs
@use builder.rs
@use nullable.rs
verus! {
@type src/grammar/transform/nonnull.rs ActionKey derive=Clone,PartialEq,Eq,PartialOrd,Ord
@type src/grammar/transform/nonnull.rs ActionValue derive=Clone
@type src/grammar/transform/nonnull.rs ProdBuildState derive=Clone
@type src/grammar/transform/nonnull.rs NonNullGrammar
@type src/grammar/transform/nonnull.rs NonNullRuleBuilder

pub type Nulls<NT, AK> = Map<NT, NonTermNullableInfo<NT, AK>>;
pub type Args<NT, AK> = Map<Name, TreeNode<ProdKey<NT, AK>, Void>>;
/// `k` says for each nonterminal occurrence of `s` whether it is left out; only nullable ones are.
pub open spec fn mask_ok<T, NT, AK>(m: Nulls<NT, AK>, s: Seq<ProdElement<T, NT>>, k: Seq<bool>) -> bool decreases s.len() {
  if s.len() == 0 { k.len() == 0 } else {
    match s.last().element {
      Elem::Term(_) => mask_ok(m, s.drop_last(), k),
      Elem::NonTerm(nt) => k.len() > 0 && (k.last() ==> m.contains_key(nt)) && mask_ok(m, s.drop_last(), k.drop_last()),
    }
  }
}
/// What remains, in order.
pub open spec fn kept<T, NT>(s: Seq<ProdElement<T, NT>>, k: Seq<bool>) -> Seq<ProdElement<T, NT>> decreases s.len() {
  if s.len() == 0 { Seq::empty() } else {
    match s.last().element {
      Elem::Term(_) => kept(s.drop_last(), k).push(s.last()),
      Elem::NonTerm(nt) => if k.last() { kept(s.drop_last(), k.drop_last()) } else { kept(s.drop_last(), k.drop_last()).push(s.last()) },
    }
  }
}
/// The empty-derivation trees of the named occurrences that are left out.
pub open spec fn left_args<T, NT, AK>(m: Nulls<NT, AK>, s: Seq<ProdElement<T, NT>>, k: Seq<bool>) -> Args<NT, AK> decreases s.len() {
  if s.len() == 0 { Map::empty() } else {
    match s.last().element {
      Elem::Term(_) => left_args(m, s.drop_last(), k),
      Elem::NonTerm(nt) => match s.last().identifier {
        Some(id) => if k.last() { left_args(m, s.drop_last(), k.drop_last()).insert(id, m[nt].nullable_action) } else { left_args(m, s.drop_last(), k.drop_last()) },
        None => left_args(m, s.drop_last(), k.drop_last()),
      }
    }
  }
}
pub type NNProd<T, NT, AK, AV> = ProdInner<T, NT, ActionKey<AK>, ActionValue<NT, AK, AV>>;
pub type NNRule<T, NT, AK, AV> = RuleInner<T, NT, ActionKey<AK>, ActionValue<NT, AK, AV>>;
/// `q` is the variant of `p` in which the occurrences marked in its key are left out.
pub open spec fn variant<T, NT, AK, AV>(m: Nulls<NT, AK>, p: ProdInner<T, NT, AK, AV>, q: NNProd<T, NT, AK, AV>) -> bool {
  let k = q.action_key.nt_nullable_states@;
  &&& mask_ok(m, p.elements@, k)
  &&& q.elements@ == kept(p.elements@, k) && q.elements@.len() > 0
  &&& q.action_key.action == p.action_key && q.action_value.parent_value == p.action_value
  &&& q.action_value.nullable_arguments@ == left_args(m, p.elements@, k)
}
pub open spec fn has_mask<T, NT, AK, AV>(q: Seq<NNProd<T, NT, AK, AV>>, k: Seq<bool>) -> bool { exists|i: int| 0 <= i < q.len() && (#[trigger] q[i]).action_key.nt_nullable_states@ == k }
/// `q` holds exactly the variants of `p` in which something remains, each once.
pub open spec fn variants<T, NT, AK, AV>(m: Nulls<NT, AK>, p: ProdInner<T, NT, AK, AV>, q: Seq<NNProd<T, NT, AK, AV>>) -> bool {
  &&& forall|i: int| 0 <= i < q.len() ==> variant(m, p, #[trigger] q[i])
  &&& forall|k: Seq<bool>| #[trigger] mask_ok(m, p.elements@, k) && kept(p.elements@, k).len() > 0 ==> has_mask(q, k)
  &&& forall|i: int, j: int| 0 <= i < j < q.len() ==> (#[trigger] q[i]).action_key.nt_nullable_states@ != (#[trigger] q[j]).action_key.nt_nullable_states@
}
/// ... for each production of a rule, in order.
pub open spec fn nn_prods<T, NT, AK, AV>(m: Nulls<NT, AK>, p: Seq<ProdInner<T, NT, AK, AV>>, q: Seq<NNProd<T, NT, AK, AV>>) -> bool decreases p.len() {
  if p.len() == 0 { q.len() == 0 } else { exists|n: int| 0 <= n <= q.len() && #[trigger] vx_id(n) && nn_prods(m, p.drop_last(), q.take(n)) && variants(m, p.last(), q.skip(n)) }
}

// ---- the build states
pub open spec fn st_ok<T, NT, AK>(m: Nulls<NT, AK>, s: Seq<ProdElement<T, NT>>, b: ProdBuildState<T, NT, AK>) -> bool {
  let k = b.nt_nullable_states@;
  mask_ok(m, s, k) && b.elems@ == kept(s, k) && b.action_args@ == left_args(m, s, k)
}
pub open spec fn st_mask<T, NT, AK>(v: Seq<ProdBuildState<T, NT, AK>>, k: Seq<bool>) -> bool { exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).nt_nullable_states@ == k }
pub open spec fn states_ok<T, NT, AK>(m: Nulls<NT, AK>, s: Seq<ProdElement<T, NT>>, v: Seq<ProdBuildState<T, NT, AK>>) -> bool {
  &&& forall|i: int| 0 <= i < v.len() ==> st_ok(m, s, #[trigger] v[i])
  &&& forall|k: Seq<bool>| #[trigger] mask_ok(m, s, k) ==> st_mask(v, k)
  &&& forall|i: int, j: int| 0 <= i < j < v.len() ==> (#[trigger] v[i]).nt_nullable_states@ != (#[trigger] v[j]).nt_nullable_states@
}
pub open spec fn st_kept<T, NT, AK>(a: ProdBuildState<T, NT, AK>, b: ProdBuildState<T, NT, AK>, e: ProdElement<T, NT>) -> bool {
  b.elems@ == a.elems@.push(e) && b.nt_nullable_states@ == a.nt_nullable_states@.push(false) && b.action_args@ == a.action_args@
}
pub open spec fn st_term<T, NT, AK>(a: ProdBuildState<T, NT, AK>, b: ProdBuildState<T, NT, AK>, e: ProdElement<T, NT>) -> bool {
  b.elems@ == a.elems@.push(e) && b.nt_nullable_states@ == a.nt_nullable_states@ && b.action_args@ == a.action_args@
}
pub open spec fn st_left<T, NT, AK>(m: Nulls<NT, AK>, a: ProdBuildState<T, NT, AK>, b: ProdBuildState<T, NT, AK>, e: ProdElement<T, NT>, nt: NT) -> bool {
  b.elems@ == a.elems@ && b.nt_nullable_states@ == a.nt_nullable_states@.push(true) && b.action_args@ == (match e.identifier { Some(id) => a.action_args@.insert(id, m[nt].nullable_action), None => a.action_args@ })
}
pub proof fn lemma_st_term<T, NT, AK>(m: Nulls<NT, AK>, s: Seq<ProdElement<T, NT>>, v: Seq<ProdBuildState<T, NT, AK>>, w: Seq<ProdBuildState<T, NT, AK>>)
  requires s.len() > 0, s.last().element is Term, states_ok(m, s.drop_last(), v), w.len() == v.len(), forall|i: int| 0 <= i < v.len() ==> st_term(v[i], #[trigger] w[i], s.last())
  ensures states_ok(m, s, w)
{
  assert forall|i: int| 0 <= i < w.len() implies st_ok(m, s, #[trigger] w[i]) by { assert(st_ok(m, s.drop_last(), v[i])); }
  assert forall|k: Seq<bool>| #[trigger] mask_ok(m, s, k) implies st_mask(w, k) by {
    assert(mask_ok(m, s.drop_last(), k)); let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i]).nt_nullable_states@ == k; assert(w[i].nt_nullable_states@ == k);
  }
  assert forall|i: int, j: int| 0 <= i < j < w.len() implies (#[trigger] w[i]).nt_nullable_states@ != (#[trigger] w[j]).nt_nullable_states@ by { assert(v[i].nt_nullable_states@ != v[j].nt_nullable_states@); }
}
pub proof fn lemma_push(a: Seq<bool>, b: Seq<bool>, x: bool, y: bool)
  ensures a.push(x) == b.push(y) ==> a == b && x == y, a.push(x).drop_last() == a, a.push(x).last() == x
{ assert(a.push(x).drop_last() =~= a); assert(b.push(y).drop_last() =~= b); assert(a.push(x).last() == x); assert(b.push(y).last() == y); }
pub proof fn lemma_st_nt<T, NT, AK>(m: Nulls<NT, AK>, s: Seq<ProdElement<T, NT>>, nt: NT, v: Seq<ProdBuildState<T, NT, AK>>, w: Seq<ProdBuildState<T, NT, AK>>)
  requires s.len() > 0, s.last().element == Elem::<T, NT>::NonTerm(nt), states_ok(m, s.drop_last(), v),
    w.len() == (if m.contains_key(nt) { 2 * v.len() } else { v.len() }),
    forall|i: int| 0 <= i < v.len() ==> st_kept(v[i], #[trigger] w[i], s.last()),
    forall|i: int| v.len() <= i < w.len() ==> st_left(m, v[i - v.len()], #[trigger] w[i], s.last(), nt),
  ensures states_ok(m, s, w)
{
  let p = s.drop_last();
  let n = v.len() as int;
  assert forall|i: int| 0 <= i < w.len() implies st_ok(m, s, #[trigger] w[i]) by {
    let j = if i < n { i } else { i - n };
    assert(st_ok(m, p, v[j]));
    lemma_push(v[j].nt_nullable_states@, v[j].nt_nullable_states@, i >= n, i >= n);
  }
  assert forall|k: Seq<bool>| #[trigger] mask_ok(m, s, k) implies st_mask(w, k) by {
    let d = k.drop_last();
    assert(mask_ok(m, p, d)); let i = choose|i: int| 0 <= i < n && (#[trigger] v[i]).nt_nullable_states@ == d;
    let j = if k.last() { i + n } else { i };
    assert(d.push(k.last()) =~= k);
    assert(w[j].nt_nullable_states@ == k);
  }
  assert forall|i: int, j: int| 0 <= i < j < w.len() implies (#[trigger] w[i]).nt_nullable_states@ != (#[trigger] w[j]).nt_nullable_states@ by {
    let (a, b) = (if i < n { i } else { i - n }, if j < n { j } else { j - n });
    lemma_push(v[a].nt_nullable_states@, v[b].nt_nullable_states@, i >= n, j >= n);
    if a < b { assert(v[a].nt_nullable_states@ != v[b].nt_nullable_states@); } else if b < a { assert(v[b].nt_nullable_states@ != v[a].nt_nullable_states@); }
  }
}
/// The productions added for the states `v`.
pub open spec fn some_variants<T, NT, AK, AV>(m: Nulls<NT, AK>, p: ProdInner<T, NT, AK, AV>, v: Seq<ProdBuildState<T, NT, AK>>, q: Seq<NNProd<T, NT, AK, AV>>) -> bool {
  &&& forall|i: int| 0 <= i < q.len() ==> variant(m, p, #[trigger] q[i]) && st_mask(v, q[i].action_key.nt_nullable_states@)
  &&& forall|i: int| 0 <= i < v.len() && kept(p.elements@, (#[trigger] v[i]).nt_nullable_states@).len() > 0 ==> has_mask(q, v[i].nt_nullable_states@)
  &&& forall|i: int, j: int| 0 <= i < j < q.len() ==> (#[trigger] q[i]).action_key.nt_nullable_states@ != (#[trigger] q[j]).action_key.nt_nullable_states@
}
pub proof fn lemma_some_all<T, NT, AK, AV>(m: Nulls<NT, AK>, p: ProdInner<T, NT, AK, AV>, v: Seq<ProdBuildState<T, NT, AK>>, q: Seq<NNProd<T, NT, AK, AV>>)
  requires states_ok(m, p.elements@, v), some_variants(m, p, v, q)
  ensures variants(m, p, q)
{
  assert forall|k: Seq<bool>| #[trigger] mask_ok(m, p.elements@, k) && kept(p.elements@, k).len() > 0 implies has_mask(q, k) by {
    assert(st_mask(v, k)); let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i]).nt_nullable_states@ == k;
  }
}
pub proof fn lemma_some_step<T, NT, AK, AV>(m: Nulls<NT, AK>, p: ProdInner<T, NT, AK, AV>, v: Seq<ProdBuildState<T, NT, AK>>, q0: Seq<NNProd<T, NT, AK, AV>>, q: Seq<NNProd<T, NT, AK, AV>>)
  requires v.len() > 0, forall|i: int, j: int| 0 <= i < j < v.len() ==> (#[trigger] v[i]).nt_nullable_states@ != (#[trigger] v[j]).nt_nullable_states@, some_variants(m, p, v.drop_last(), q0),
    kept(p.elements@, v.last().nt_nullable_states@).len() == 0 ==> q == q0,
    kept(p.elements@, v.last().nt_nullable_states@).len() > 0 ==> q == q0.push(q.last()) && variant(m, p, q.last()) && q.last().action_key.nt_nullable_states@ == v.last().nt_nullable_states@,
  ensures some_variants(m, p, v, q)
{
  let w = v.drop_last();
  let n = w.len() as int;
  assert(v[n] == v.last());
  assert forall|i: int| 0 <= i < q0.len() implies st_mask(v, (#[trigger] q0[i]).action_key.nt_nullable_states@) && q0[i].action_key.nt_nullable_states@ != v.last().nt_nullable_states@ by {
    let k = q0[i].action_key.nt_nullable_states@;
    assert(st_mask(w, k)); let j = choose|j: int| 0 <= j < n && (#[trigger] w[j]).nt_nullable_states@ == k; assert(v[j].nt_nullable_states@ == k);
    assert(v[j].nt_nullable_states@ != v[n].nt_nullable_states@);
  }
  assert forall|i: int| 0 <= i < v.len() && kept(p.elements@, (#[trigger] v[i]).nt_nullable_states@).len() > 0 implies has_mask(q, v[i].nt_nullable_states@) by {
    let k = v[i].nt_nullable_states@;
    if i < n { assert(w[i] == v[i]); assert(has_mask(q0, k)); let j = choose|j: int| 0 <= j < q0.len() && (#[trigger] q0[j]).action_key.nt_nullable_states@ == k; assert(q[j] == q0[j]); }
    else { assert(q[q.len() - 1].action_key.nt_nullable_states@ == k); }
  }
  assert forall|i: int| 0 <= i < q.len() implies variant(m, p, #[trigger] q[i]) && st_mask(v, q[i].action_key.nt_nullable_states@) by {
    if i < q0.len() { assert(q[i] == q0[i]); } else { assert(v[n].nt_nullable_states@ == q[i].action_key.nt_nullable_states@); }
  }
  assert forall|i: int, j: int| 0 <= i < j < q.len() implies (#[trigger] q[i]).action_key.nt_nullable_states@ != (#[trigger] q[j]).action_key.nt_nullable_states@ by {
    assert(q[i] == q0[i]); if j < q0.len() { assert(q[j] == q0[j]); }
  }
}
@fn src/grammar/transform/nonnull.rs build_nonnull_prods -> r
  ensures final(r_builder).head == old(r_builder).head,
    final(r_builder).prods@.len() >= old(r_builder).prods@.len(), final(r_builder).prods@.take(old(r_builder).prods@.len() as int) == old(r_builder).prods@,
    variants(nullable_info.nonterm_info@, *prod.prod, final(r_builder).prods@.skip(old(r_builder).prods@.len() as int)),
.loop 1
  invariant
    vx_s1 == vx_ref_seq(prod.prod.elements@), *r_builder == *old(r_builder),
    states_ok(nullable_info.nonterm_info@, prod.prod.elements@.take(vx_n1), curr_build_states@),
.loop_start 1
  let ghost v0 = curr_build_states@;
  let ghost gs = prod.prod.elements@.take(vx_n1);
  proof { assert(gs.drop_last() =~= prod.prod.elements@.take(vx_n1 - 1)); assert(gs.last() == *prod_elem); }
.loop 2
  invariant
    vx_s2 == v0, new_build_states@.len() == vx_n2, nullable_info.nonterm_info@.contains_key(*nt), *action == nullable_info.nonterm_info@[*nt].nullable_action,
    forall|i: int| 0 <= i < vx_n2 ==> st_kept(v0[i], #[trigger] curr_build_states@[i], *prod_elem),
    forall|i: int| 0 <= i < vx_n2 ==> st_left(nullable_info.nonterm_info@, v0[i], #[trigger] new_build_states@[i], *prod_elem, *nt),
.loop 3
  invariant
    vx_s3 == v0,
    forall|i: int| 0 <= i < vx_n3 ==> st_kept(v0[i], #[trigger] curr_build_states@[i], *prod_elem),
.loop 4
  invariant
    vx_s4 == v0,
    forall|i: int| 0 <= i < vx_n4 ==> st_term(v0[i], #[trigger] curr_build_states@[i], *prod_elem),
.loop_end 1
  proof {
    let m = nullable_info.nonterm_info@;
    match &prod_elem.element { Elem::Term(_) => { lemma_st_term(m, gs, v0, curr_build_states@); } Elem::NonTerm(nt) => { lemma_st_nt(m, gs, *nt, v0, curr_build_states@); } }
  }
.start
  let ghost ps = r_builder.prods@;
.before_loop 1
  proof { assert(prod.prod.elements@.take(0) =~= Seq::empty()); let v = curr_build_states@; assert forall|k: Seq<bool>| #[trigger] mask_ok(nullable_info.nonterm_info@, prod.prod.elements@.take(0), k) implies st_mask(v, k) by { assert(k =~= v[0].nt_nullable_states@); } }
.before_loop 5
  proof { assert(prod.prod.elements@.take(prod.prod.elements@.len() as int) =~= prod.prod.elements@); assert(ps.take(ps.len() as int) =~= ps); }
.after_loop 5
  proof { assert(vx_s5.take(vx_s5.len() as int) =~= vx_s5); lemma_some_all(nullable_info.nonterm_info@, *prod.prod, vx_s5, r_builder.prods@.skip(ps.len() as int)); }
.loop 5
  invariant
    ps == old(r_builder).prods@, r_builder.head == old(r_builder).head, r_builder.prods@.len() >= ps.len(), r_builder.prods@.take(ps.len() as int) == ps,
    states_ok(nullable_info.nonterm_info@, prod.prod.elements@, vx_s5),
    some_variants(nullable_info.nonterm_info@, *prod.prod, vx_s5.take(vx_n5), r_builder.prods@.skip(ps.len() as int)),
.loop_start 5
  let ghost b0 = r_builder.prods@;
  let ghost st = curr_build_state;
  proof { assert(vx_s5.take(vx_n5).drop_last() =~= vx_s5.take(vx_n5 - 1)); assert(vx_s5.take(vx_n5).last() == st);
    assert(st_ok(nullable_info.nonterm_info@, prod.prod.elements@, vx_s5[vx_n5 - 1]));
    if kept(prod.prod.elements@, st.nt_nullable_states@).len() == 0 { lemma_some_step(nullable_info.nonterm_info@, *prod.prod, vx_s5.take(vx_n5), b0.skip(ps.len() as int), b0.skip(ps.len() as int)); }
    assert forall|i: int, j: int| 0 <= i < j < vx_n5 implies (#[trigger] vx_s5.take(vx_n5)[i]).nt_nullable_states@ != (#[trigger] vx_s5.take(vx_n5)[j]).nt_nullable_states@ by { assert(vx_s5[i].nt_nullable_states@ != vx_s5[j].nt_nullable_states@); }
  }
.loop_end 5
  proof {
    assert(r_builder.prods@.take(ps.len() as int) =~= ps);
    assert(r_builder.prods@.skip(ps.len() as int) =~= b0.skip(ps.len() as int).push(r_builder.prods@.last()));
    lemma_some_step(nullable_info.nonterm_info@, *prod.prod, vx_s5.take(vx_n5), b0.skip(ps.len() as int), r_builder.prods@.skip(ps.len() as int));
  }
@end

impl From<NullableError> for anyhow::Error { #[verifier::external_body] fn from(e: NullableError) -> anyhow::Error { unimplemented!() } }
pub open spec fn nn_rule<T, NT, AK, AV>(m: Nulls<NT, AK>, a: RuleInner<T, NT, AK, AV>, b: NNRule<T, NT, AK, AV>) -> bool { b.head == a.head && nn_prods(m, a.prods@, b.prods@) }
/// The rules of the new grammar, as they are given to the builder.
pub open spec fn nn_rules<T, NT, AK, AV>(g: &Grammar<T, NT, AK, AV>, m: Nulls<NT, AK>, d: Seq<&NT>, b: Seq<NNRule<T, NT, AK, AV>>) -> bool {
  b.len() == d.len() && forall|i: int| 0 <= i < b.len() ==> g.rule_set@.contains_key(*d[i]) && nn_rule(m, g.rule_set@[*d[i]], #[trigger] b[i])
}
/// The new grammar.
pub open spec fn nn_grammar<T, NT, AK, AV>(g: &Grammar<T, NT, AK, AV>, m: Nulls<NT, AK>, w: &NonNullGrammar<T, NT, AK, AV>) -> bool {
  &&& w.start_symbol == g.start_symbol && g_wf(w)
  &&& w.rule_set@.dom() == g.rule_set@.dom()
  &&& forall|n: NT| #[trigger] g.rule_set@.contains_key(n) ==> nn_rule(m, g.rule_set@[n], w.rule_set@[n])
}
/// Some rule has only empty productions.
pub open spec fn only_empty<T, NT, AK, AV>(g: &Grammar<T, NT, AK, AV>, n: NT) -> bool { g.rule_set@.contains_key(n) && forall|i: int| 0 <= i < g.rule_set@[n].prods@.len() ==> (#[trigger] g.rule_set@[n].prods@[i]).elements@.len() == 0 }

// ---- the productions of one rule
pub open spec fn all_false(n: nat) -> Seq<bool> { Seq::new(n, |i: int| false) }
pub open spec fn n_nts<T, NT>(s: Seq<ProdElement<T, NT>>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { n_nts(s.drop_last()) + (if s.last().element is NonTerm { 1nat } else { 0nat }) } }
/// Leaving nothing out is always allowed.
pub proof fn lemma_full<T, NT, AK>(m: Nulls<NT, AK>, s: Seq<ProdElement<T, NT>>)
  ensures mask_ok(m, s, all_false(n_nts(s))), kept(s, all_false(n_nts(s))) == s
  decreases s.len()
{
  if s.len() > 0 {
    let p = s.drop_last();
    lemma_full(m, p);
    let k = all_false(n_nts(s));
    assert(p.push(s.last()) =~= s);
    if s.last().element is NonTerm { assert(k.drop_last() =~= all_false(n_nts(p))); }
  } else { assert(kept(s, all_false(0)) =~= s); }
}
/// What remains comes from the production.
pub proof fn lemma_kept_from<T, NT>(s: Seq<ProdElement<T, NT>>, k: Seq<bool>, e: ProdElement<T, NT>)
  requires kept(s, k).contains(e)
  ensures s.contains(e)
  decreases s.len()
{
  if s.len() > 0 {
    let p = s.drop_last();
    let d = if s.last().element is NonTerm { k.drop_last() } else { k };
    let i = kept(s, k).index_of(e);
    if i < kept(p, d).len() { assert(kept(p, d)[i] == e); lemma_kept_from(p, d, e); let j = p.index_of(e); assert(s[j] == e); } else { assert(s[s.len() - 1] == e); }
  }
}
/// Every production of the new rule is a variant of one of the old, and every variant is there.
pub proof fn lemma_nn_from<T, NT, AK, AV>(m: Nulls<NT, AK>, p: Seq<ProdInner<T, NT, AK, AV>>, q: Seq<NNProd<T, NT, AK, AV>>, j: int) -> (i: int)
  requires nn_prods(m, p, q), 0 <= j < q.len()
  ensures 0 <= i < p.len(), variant(m, p[i], q[j])
  decreases p.len()
{
  let n = choose|n: int| 0 <= n <= q.len() && #[trigger] vx_id(n) && nn_prods(m, p.drop_last(), q.take(n)) && variants(m, p.last(), q.skip(n));
  if j < n { let i = lemma_nn_from(m, p.drop_last(), q.take(n), j); i } else { assert(q.skip(n)[j - n] == q[j]); p.len() - 1 }
}
pub proof fn lemma_nn_all<T, NT, AK, AV>(m: Nulls<NT, AK>, p: Seq<ProdInner<T, NT, AK, AV>>, q: Seq<NNProd<T, NT, AK, AV>>, i: int, k: Seq<bool>) -> (j: int)
  requires nn_prods(m, p, q), 0 <= i < p.len(), mask_ok(m, p[i].elements@, k), kept(p[i].elements@, k).len() > 0
  ensures 0 <= j < q.len(), variant(m, p[i], q[j]), q[j].action_key.nt_nullable_states@ == k
  decreases p.len()
{
  let n = choose|n: int| 0 <= n <= q.len() && #[trigger] vx_id(n) && nn_prods(m, p.drop_last(), q.take(n)) && variants(m, p.last(), q.skip(n));
  if i < p.len() - 1 { lemma_nn_all(m, p.drop_last(), q.take(n), i, k) } else {
    let r = q.skip(n);
    assert(has_mask(r, k));
    let j = choose|j: int| 0 <= j < r.len() && (#[trigger] r[j]).action_key.nt_nullable_states@ == k;
    assert(r[j] == q[n + j]);
    n + j
  }
}
pub proof fn lemma_nn_step<T, NT, AK, AV>(m: Nulls<NT, AK>, p: Seq<ProdInner<T, NT, AK, AV>>, x: ProdInner<T, NT, AK, AV>, q: Seq<NNProd<T, NT, AK, AV>>, n: int)
  requires 0 <= n <= q.len(), nn_prods(m, p, q.take(n)), variants(m, x, q.skip(n))
  ensures nn_prods(m, p.push(x), q)
{ assert(p.push(x).drop_last() =~= p); assert(vx_id(n)); }

// ---- validity
pub proof fn lemma_nn_occurs<T, NT, AK, AV>(g: &Grammar<T, NT, AK, AV>, m: Nulls<NT, AK>, w: &NonNullGrammar<T, NT, AK, AV>, k: NT, n: NT)
  requires nn_grammar(g, m, w)
  ensures occurs(w, k, Elem::NonTerm(n)) == occurs(g, k, Elem::NonTerm(n))
{
  let e: Elem<T, NT> = Elem::NonTerm(n);
  if g.rule_set@.contains_key(k) {
    let (a, b) = (g.rule_set@[k].prods@, w.rule_set@[k].prods@);
    assert(nn_rule(m, g.rule_set@[k], w.rule_set@[k]));
    if occurs(g, k, e) {
      let p = choose|p: ProdInner<T, NT, AK, AV>| #[trigger] a.contains(p) && has_elem(p, e);
      let i = a.index_of(p);
      lemma_elem_refs(p.elements@, e);
      lemma_full(m, p.elements@);
      let j = lemma_nn_all(m, a, b, i, all_false(n_nts(p.elements@)));
      lemma_elem_refs(b[j].elements@, e);
      assert(b.contains(b[j]));
    }
    if occurs(w, k, e) {
      let q = choose|q: NNProd<T, NT, AK, AV>| #[trigger] b.contains(q) && has_elem(q, e);
      let j = b.index_of(q);
      let i = lemma_nn_from(m, a, b, j);
      lemma_elem_refs(q.elements@, e);
      let x = choose|x: int| 0 <= x < q.elements@.len() && (#[trigger] q.elements@[x]).element == e;
      lemma_kept_from(a[i].elements@, q.action_key.nt_nullable_states@, q.elements@[x]);
      let y = a[i].elements@.index_of(q.elements@[x]);
      lemma_elem_refs(a[i].elements@, e);
      assert(a.contains(a[i]));
    }
  }
}
pub proof fn lemma_nn_valid<T, NT, AK, AV>(g: &Grammar<T, NT, AK, AV>, m: Nulls<NT, AK>, w: &NonNullGrammar<T, NT, AK, AV>)
  requires nn_grammar(g, m, w), g_wf(g), valid(g)
  ensures valid(w) == !(exists|n: NT| #[trigger] only_empty(g, n))
{
  assert forall|k: NT, n: NT| #[trigger] occurs(w, k, Elem::NonTerm(n)) == occurs(g, k, Elem::NonTerm(n)) by { lemma_nn_occurs(g, m, w, k, n); }
  assert forall|n: NT| used(w, n) == used(g, n) by {
    if used(g, n) { let k = choose|k: NT| occurs(g, k, Elem::NonTerm(n)); assert(occurs(w, k, Elem::NonTerm(n))); }
  }
  assert forall|n: NT| !#[trigger] no_rule(w, n) by { assert(!no_rule(g, n)); assert(used(w, n) == used(g, n)); assert(w.rule_set@.contains_key(n) == w.rule_set@.dom().contains(n)); assert(g.rule_set@.contains_key(n) == g.rule_set@.dom().contains(n)); }
  assert forall|n: NT| !#[trigger] unreached(w, n) by {
    assert(!unreached(g, n)); assert(used(w, n) == used(g, n));
    if used(g, n) {
      assert forall|s: ISet<NT>| #[trigger] closed(w, s) implies s.contains(n) by {
        assert forall|a: NT, b: NT| s.contains(a) && #[trigger] occurs(g, a, Elem::NonTerm(b)) implies s.contains(b) by { assert(occurs(w, a, Elem::NonTerm(b))); }
        assert(closed(g, s));
      }
    }
  }
  assert forall|n: NT| #[trigger] no_prods(w, n) == only_empty(g, n) by {
    assert(w.rule_set@.contains_key(n) == w.rule_set@.dom().contains(n)); assert(g.rule_set@.contains_key(n) == g.rule_set@.dom().contains(n));
    if g.rule_set@.contains_key(n) {
      let (a, b) = (g.rule_set@[n].prods@, w.rule_set@[n].prods@);
      assert(nn_rule(m, g.rule_set@[n], w.rule_set@[n]));
      if !only_empty(g, n) { let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).elements@.len() > 0; lemma_full(m, a[i].elements@); let j = lemma_nn_all(m, a, b, i, all_false(n_nts(a[i].elements@))); }
      if b.len() > 0 {
        let i = lemma_nn_from(m, a, b, 0);
        lemma_kept_from(a[i].elements@, b[0].action_key.nt_nullable_states@, b[0].elements@[0]);
      }
    }
  }
  if exists|n: NT| #[trigger] only_empty(g, n) { let n = choose|n: NT| #[trigger] only_empty(g, n); assert(no_prods(w, n)); }
  if !valid(w) { let n = choose|n: NT| #[trigger] no_prods(w, n); assert(only_empty(g, n)); }
}
pub proof fn lemma_nn_built<T, NT, AK, AV>(g: &Grammar<T, NT, AK, AV>, m: Nulls<NT, AK>, d: Seq<&NT>, s: Seq<NNRule<T, NT, AK, AV>>, w: &NonNullGrammar<T, NT, AK, AV>)
  requires g_wf(g), valid(g), nn_rules(g, m, d, s), d.no_duplicates(), forall|k: NT| #[trigger] g.rule_set@.contains_key(k) ==> d.contains(&k), built_from(*w, g.start_symbol, s)
  ensures nn_grammar(g, m, w), valid(w) == !(exists|n: NT| #[trigger] only_empty(g, n))
{
  lemma_rules_wf(s);
  assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).head == *d[i] by { assert(nn_rule(m, g.rule_set@[*d[i]], s[i])); }
  assert forall|k: NT| #[trigger] w.rule_set@.dom().contains(k) == g.rule_set@.dom().contains(k) by {
    if w.rule_set@.contains_key(k) { let r = rules_of(s)[k]; let i = s.index_of(r); assert(s[i].head == k); }
    if g.rule_set@.contains_key(k) { let i = d.index_of(&k); assert(s[i].head == k); }
  }
  assert(w.rule_set@.dom() =~= g.rule_set@.dom());
  assert forall|n: NT| #[trigger] g.rule_set@.contains_key(n) implies nn_rule(m, g.rule_set@[n], w.rule_set@[n]) by {
    let i = d.index_of(&n);
    assert(s[i].head == n);
    assert forall|j: int| i < j < s.len() implies (#[trigger] s[j]).head != s[i].head by { assert(d[j] != d[i]); }
    assert(rules_of(s)[s[i].head] == s[i]);
  }
  assert(g_wf(w));
  lemma_nn_valid(g, m, w);
}
pub open spec fn pair_keys<K, V>(s: Seq<(K, V)>) -> Seq<K> { Seq::new(s.len(), |i: int| s[i].0) }
pub open spec fn is_rule_set<'a, T, NT, AK, AV>(g: &'a Grammar<T, NT, AK, AV>, r: Map<&NT, Rule<'a, T, NT, AK, AV>>) -> bool {
  (forall|k: &NT| #[trigger] r.contains_key(k) == g.rule_set@.contains_key(*k)) && forall|k: NT| #[trigger] g.rule_set@.contains_key(k) ==> r[&k] == mk_rule(g, &g.rule_set@[k])
}
@fn src/grammar/transform/nonnull.rs transform_to_nonnull -> r
  requires g_wf(g), valid(g), distinct_prods(g)
  ensures match r {
    Ok(w) => !ambiguous(g) && (forall|n: NT| !#[trigger] only_empty(g, n)) && exists|m: Nulls<NT, AK>| #[trigger] null_info(g, m) && nn_grammar(g, m, &w),
    Err(e) => ambiguous(g) || exists|n: NT| #[trigger] only_empty(g, n),
  }
.desugar map_err
.closure 1
  ensures final(g_builder).start == old(g_builder).start, old(g_builder).rules@.len() == 0 ==> exists|d: Seq<&NT>| #[trigger] nn_rules(g, nullable.0.nonterm_info@, d, final(g_builder).rules@) && d.no_duplicates() && forall|k: NT| #[trigger] g.rule_set@.contains_key(k) ==> d.contains(&k)
.closure 2
  ensures final(r_builder).head == old(r_builder).head, old(r_builder).prods@.len() == 0 ==> nn_prods(nullable.0.nonterm_info@, rule.rule.prods@, final(r_builder).prods@)
.before_loop 1
  let ghost d = pair_keys(vx_s1);
  proof {
    let mm = choose|mm: Map<&NT, Rule<T, NT, AK, AV>>| vx_s1 == #[trigger] vx_map_seq(mm) && is_rule_set(g, mm);
    ax_set_seq(mm.dom());
    assert(d =~= vx_set_seq(mm.dom()));
    assert forall|k: NT| #[trigger] g.rule_set@.contains_key(k) implies d.contains(&k) by { assert(mm.contains_key(&k)); }
    assert forall|i: int| 0 <= i < vx_s1.len() implies g.rule_set@.contains_key(*(#[trigger] d[i])) && vx_s1[i].1 == mk_rule(g, &g.rule_set@[*d[i]]) by { assert(mm.dom().contains(d[i])); assert(mm.contains_key(d[i])); }
  }
.loop 1
  invariant
    d == pair_keys(vx_s1), g_builder.start == old(g_builder).start,
    forall|i: int| 0 <= i < vx_s1.len() ==> g.rule_set@.contains_key(*(#[trigger] d[i])) && vx_s1[i].1 == mk_rule(g, &g.rule_set@[*d[i]]),
    old(g_builder).rules@.len() == 0 ==> nn_rules(g, nullable.0.nonterm_info@, d.take(vx_n1), g_builder.rules@),
.loop_start 1
  let ghost b0 = g_builder.rules@;
  proof { assert(d[vx_n1 - 1] == nt && d[vx_n1 - 1] == d.take(vx_n1)[vx_n1 - 1]); assert(d.take(vx_n1).drop_last() =~= d.take(vx_n1 - 1)); }
.loop_end 1
  proof { if old(g_builder).rules@.len() == 0 {
    assert forall|i: int| 0 <= i < g_builder.rules@.len() implies g.rule_set@.contains_key(*d.take(vx_n1)[i]) && nn_rule(nullable.0.nonterm_info@, g.rule_set@[*d.take(vx_n1)[i]], #[trigger] g_builder.rules@[i]) by {
      if i < vx_n1 - 1 { assert(g_builder.rules@[i] == b0[i]); assert(d.take(vx_n1 - 1)[i] == d.take(vx_n1)[i]); }
    }
  } }
.after_loop 1
  proof { assert(d.take(d.len() as int) =~= d); }
.loop 2
  invariant
    vx_s2 == rule_prods(rule), r_builder.head == old(r_builder).head,
    old(r_builder).prods@.len() == 0 ==> nn_prods(nullable.0.nonterm_info@, rule.rule.prods@.take(vx_n2), r_builder.prods@),
.loop_start 2
  let ghost q0 = r_builder.prods@;
.loop_end 2
  proof { if old(r_builder).prods@.len() == 0 {
    lemma_nn_step(nullable.0.nonterm_info@, rule.rule.prods@.take(vx_n2 - 1), *prod.prod, r_builder.prods@, q0.len() as int);
    assert(rule.rule.prods@.take(vx_n2 - 1).push(*prod.prod) =~= rule.rule.prods@.take(vx_n2));
  } }
.after_loop 2
  proof { assert(rule.rule.prods@.take(rule.rule.prods@.len() as int) =~= rule.rule.prods@); }
.end
  proof {
    let m = nullable.0.nonterm_info@;
    assert forall|d: Seq<&NT>, s: Seq<NNRule<T, NT, AK, AV>>, w: NonNullGrammar<T, NT, AK, AV>| #[trigger] nn_rules(g, m, d, s) && d.no_duplicates() && (forall|k: NT| #[trigger] g.rule_set@.contains_key(k) ==> d.contains(&k)) && #[trigger] built_from(w, g.start_symbol, s) implies nn_grammar(g, m, &w) && (valid(&w) == !(exists|n: NT| #[trigger] only_empty(g, n))) by { lemma_nn_built(g, m, d, s, &w); }
  }
@end
} // verus!
