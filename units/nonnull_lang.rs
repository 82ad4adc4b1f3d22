@use nonnull.rs
@use derive.rs
verus! {
/// Deriving the empty string, both ways of saying it.
pub proof fn lemma_null_der<T, NT, AK, AV>(g: &Grammar<T, NT, AK, AV>, nt: NT, h: nat)
  requires null_h(g, nt, h)
  ensures der_h(g, nt, Seq::<T>::empty(), h)
  decreases h, 0nat
{
  let i = choose|i: int| 0 <= i < g.rule_set@[nt].prods@.len() && elems_null_h(g, (#[trigger] g.rule_set@[nt].prods@[i]).elements@, (h - 1) as nat);
  lemma_null_seq(g, g.rule_set@[nt].prods@[i].elements@, (h - 1) as nat);
}
pub proof fn lemma_null_seq<T, NT, AK, AV>(g: &Grammar<T, NT, AK, AV>, s: Seq<ProdElement<T, NT>>, h: nat)
  requires elems_null_h(g, s, h)
  ensures seq_h(g, s, Seq::<T>::empty(), h)
  decreases h, s.len() + 1
{
  if s.len() > 0 {
    let p = s.drop_last();
    assert forall|j: int| 0 <= j < p.len() implies match (#[trigger] p[j]).element { Elem::NonTerm(nt) => null_h(g, nt, h), Elem::Term(_) => false } by { assert(p[j] == s[j]); }
    lemma_null_seq(g, p, h);
    assert(s.last() == s[s.len() - 1]);
    match s.last().element { Elem::NonTerm(nt) => { lemma_null_der(g, nt, h); } Elem::Term(_) => {} }
    let e = Seq::<T>::empty();
    assert(e.take(0) =~= e); assert(e.skip(0) =~= e);
    assert(seq_h(g, p, e.take(0), h)); assert(el_h(g, s.last().element, e.skip(0), h)); assert(vx_id(0int));
  }
}
pub proof fn lemma_der_null<T, NT, AK, AV>(g: &Grammar<T, NT, AK, AV>, nt: NT, w: Seq<T>, h: nat)
  requires der_h(g, nt, w, h), w.len() == 0
  ensures null_h(g, nt, h)
  decreases h, 0nat
{
  let i = choose|i: int| 0 <= i < g.rule_set@[nt].prods@.len() && seq_h(g, (#[trigger] g.rule_set@[nt].prods@[i]).elements@, w, (h - 1) as nat);
  lemma_seq_null(g, g.rule_set@[nt].prods@[i].elements@, w, (h - 1) as nat);
}
pub proof fn lemma_seq_null<T, NT, AK, AV>(g: &Grammar<T, NT, AK, AV>, s: Seq<ProdElement<T, NT>>, w: Seq<T>, h: nat)
  requires seq_h(g, s, w, h), w.len() == 0
  ensures elems_null_h(g, s, h)
  decreases h, s.len() + 1
{
  if s.len() > 0 {
    let p = s.drop_last();
    let n = choose|n: int| 0 <= n <= w.len() && #[trigger] vx_id(n) && seq_h(g, p, w.take(n), h) && el_h(g, s.last().element, w.skip(n), h);
    lemma_seq_null(g, p, w.take(n), h);
    match s.last().element { Elem::NonTerm(nt) => { lemma_der_null(g, nt, w.skip(n), h); } Elem::Term(_) => { assert(w.skip(n).len() == 1); } }
    assert forall|j: int| 0 <= j < s.len() implies match (#[trigger] s[j]).element { Elem::NonTerm(nt) => null_h(g, nt, h), Elem::Term(_) => false } by { if j < p.len() { assert(p[j] == s[j]); } }
  }
}
/// What the new grammar derives, the old one derives too, and it is not empty.
pub proof fn lemma_nn_sound<T, NT, AK, AV>(g: &Grammar<T, NT, AK, AV>, m: Nulls<NT, AK>, w: &NonNullGrammar<T, NT, AK, AV>, nt: NT, u: Seq<T>, h: nat)
  requires null_info(g, m), nn_grammar(g, m, w), der_h(w, nt, u, h)
  ensures derives(g, nt, u), u.len() > 0
  decreases h, 0nat
{
  assert(g.rule_set@.contains_key(nt) == g.rule_set@.dom().contains(nt)); assert(w.rule_set@.contains_key(nt) == w.rule_set@.dom().contains(nt));
  let (a, b) = (g.rule_set@[nt].prods@, w.rule_set@[nt].prods@);
  assert(nn_rule(m, g.rule_set@[nt], w.rule_set@[nt]));
  let j = choose|j: int| 0 <= j < b.len() && seq_h(w, (#[trigger] b[j]).elements@, u, (h - 1) as nat);
  let i = lemma_nn_from(m, a, b, j);
  lemma_nn_seq_sound(g, m, w, a[i].elements@, b[j].action_key.nt_nullable_states@, u, (h - 1) as nat);
  lemma_der_prod(g, nt, i, u);
}
pub proof fn lemma_nn_seq_sound<T, NT, AK, AV>(g: &Grammar<T, NT, AK, AV>, m: Nulls<NT, AK>, w: &NonNullGrammar<T, NT, AK, AV>, s: Seq<ProdElement<T, NT>>, k: Seq<bool>, u: Seq<T>, h: nat)
  requires null_info(g, m), nn_grammar(g, m, w), mask_ok(m, s, k), seq_h(w, kept(s, k), u, h)
  ensures seq_derives(g, s, u), kept(s, k).len() > 0 ==> u.len() > 0
  decreases h, s.len() + 1
{
  if s.len() == 0 { lemma_seq_nil(g, s, u); } else {
    let p = s.drop_last();
    let q = kept(s, k);
    match s.last().element {
      Elem::NonTerm(nt) if k.last() => {
        lemma_nn_seq_sound(g, m, w, p, k.drop_last(), u, h);
        assert(nullable(g, nt));
        let hn = choose|hn: nat| null_h(g, nt, hn);
        lemma_null_der(g, nt, hn);
        lemma_el_nt(g, nt, Seq::<T>::empty());
        lemma_seq_snoc(g, s, u, Seq::<T>::empty());
        assert(u + Seq::<T>::empty() =~= u);
      }
      _ => {
        let d = if s.last().element is NonTerm { k.drop_last() } else { k };
        assert(q.drop_last() =~= kept(p, d)); assert(q.last() == s.last());
        let n = choose|n: int| 0 <= n <= u.len() && #[trigger] vx_id(n) && seq_h(w, q.drop_last(), u.take(n), h) && el_h(w, q.last().element, u.skip(n), h);
        lemma_nn_seq_sound(g, m, w, p, d, u.take(n), h);
        match s.last().element {
          Elem::NonTerm(nt) => { lemma_nn_sound(g, m, w, nt, u.skip(n), h); lemma_el_nt(g, nt, u.skip(n)); }
          Elem::Term(t) => { lemma_el_term(g, t, u.skip(n)); assert(u.skip(n).len() == 1); }
        }
        lemma_seq_snoc(g, s, u.take(n), u.skip(n));
        assert(u.take(n) + u.skip(n) =~= u);
      }
    }
  }
}
/// Every non-empty string the old grammar derives, the new one derives too.
pub proof fn lemma_nn_complete<T, NT, AK, AV>(g: &Grammar<T, NT, AK, AV>, m: Nulls<NT, AK>, w: &NonNullGrammar<T, NT, AK, AV>, nt: NT, u: Seq<T>, h: nat)
  requires null_info(g, m), nn_grammar(g, m, w), der_h(g, nt, u, h), u.len() > 0
  ensures derives(w, nt, u)
  decreases h, 0nat
{
  assert(g.rule_set@.contains_key(nt) == g.rule_set@.dom().contains(nt)); assert(w.rule_set@.contains_key(nt) == w.rule_set@.dom().contains(nt));
  let (a, b) = (g.rule_set@[nt].prods@, w.rule_set@[nt].prods@);
  assert(nn_rule(m, g.rule_set@[nt], w.rule_set@[nt]));
  let i = choose|i: int| 0 <= i < a.len() && seq_h(g, (#[trigger] a[i]).elements@, u, (h - 1) as nat);
  let k = lemma_nn_seq_complete(g, m, w, a[i].elements@, u, (h - 1) as nat);
  if kept(a[i].elements@, k).len() == 0 { lemma_seq_nil(w, kept(a[i].elements@, k), u); }
  let j = lemma_nn_all(m, a, b, i, k);
  lemma_der_prod(w, nt, j, u);
}
pub proof fn lemma_nn_seq_complete<T, NT, AK, AV>(g: &Grammar<T, NT, AK, AV>, m: Nulls<NT, AK>, w: &NonNullGrammar<T, NT, AK, AV>, s: Seq<ProdElement<T, NT>>, u: Seq<T>, h: nat) -> (k: Seq<bool>)
  requires null_info(g, m), nn_grammar(g, m, w), seq_h(g, s, u, h)
  ensures mask_ok(m, s, k), seq_derives(w, kept(s, k), u)
  decreases h, s.len() + 1
{
  if s.len() == 0 { lemma_seq_nil(w, kept(s, Seq::empty()), u); Seq::empty() } else {
    let p = s.drop_last();
    let n = choose|n: int| 0 <= n <= u.len() && #[trigger] vx_id(n) && seq_h(g, p, u.take(n), h) && el_h(g, s.last().element, u.skip(n), h);
    let d = lemma_nn_seq_complete(g, m, w, p, u.take(n), h);
    assert(u.take(n) + u.skip(n) =~= u);
    lemma_push(d, d, true, true); lemma_push(d, d, false, false);
    match s.last().element {
      Elem::NonTerm(nt) => {
        if n == u.len() {
          lemma_der_null(g, nt, u.skip(n), h);
          assert(nullable(g, nt)); assert(m.contains_key(nt));
          assert(u.take(n) =~= u);
          d.push(true)
        } else {
          lemma_nn_complete(g, m, w, nt, u.skip(n), h);
          lemma_el_nt(w, nt, u.skip(n));
          let q = kept(s, d.push(false));
          assert(q.drop_last() =~= kept(p, d)); assert(q.last() == s.last());
          lemma_seq_snoc(w, q, u.take(n), u.skip(n));
          d.push(false)
        }
      }
      Elem::Term(t) => {
        lemma_el_term(w, t, u.skip(n)); assert(u.skip(n) == seq![t]);
        let q = kept(s, d);
        assert(q.drop_last() =~= kept(p, d)); assert(q.last() == s.last());
        lemma_seq_snoc(w, q, u.take(n), u.skip(n));
        d
      }
    }
  }
}
/// Each nonterminal of the result of the transform derives exactly the non-empty strings it derived before.
pub proof fn lemma_nn_language<T, NT, AK, AV>(g: &Grammar<T, NT, AK, AV>, m: Nulls<NT, AK>, w: &NonNullGrammar<T, NT, AK, AV>, nt: NT, u: Seq<T>)
  requires null_info(g, m), nn_grammar(g, m, w)
  ensures derives(w, nt, u) == (derives(g, nt, u) && u.len() > 0)
{
  if derives(w, nt, u) { let h = choose|h: nat| der_h(w, nt, u, h); lemma_nn_sound(g, m, w, nt, u, h); }
  if derives(g, nt, u) && u.len() > 0 { let h = choose|h: nat| der_h(g, nt, u, h); lemma_nn_complete(g, m, w, nt, u, h); }
}
} // verus!
