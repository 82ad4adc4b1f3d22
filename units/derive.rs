@use utils.rs
@use base.rs
verus! {
// ---- what a nonterminal derives
/// `nt` derives the terminals `w` by a derivation tree of height at most `h`.
pub open spec fn der_h<T, NT, AK, AV>(g: &Grammar<T, NT, AK, AV>, nt: NT, w: Seq<T>, h: nat) -> bool decreases h, 0nat, 0nat {
  h > 0 && g.rule_set@.contains_key(nt) && exists|i: int| 0 <= i < g.rule_set@[nt].prods@.len() && seq_h(g, (#[trigger] g.rule_set@[nt].prods@[i]).elements@, w, (h - 1) as nat)
}
pub open spec fn el_h<T, NT, AK, AV>(g: &Grammar<T, NT, AK, AV>, e: Elem<T, NT>, w: Seq<T>, h: nat) -> bool decreases h, 0nat, 1nat {
  match e { Elem::Term(t) => w == seq![t], Elem::NonTerm(nt) => der_h(g, nt, w, h) }
}
/// The symbols of `s` derive `w`.
pub open spec fn seq_h<T, NT, AK, AV>(g: &Grammar<T, NT, AK, AV>, s: Seq<ProdElement<T, NT>>, w: Seq<T>, h: nat) -> bool decreases h, s.len(), 2nat {
  if s.len() == 0 { w.len() == 0 } else { exists|n: int| 0 <= n <= w.len() && #[trigger] vx_id(n) && seq_h(g, s.drop_last(), w.take(n), h) && el_h(g, s.last().element, w.skip(n), h) }
}
pub open spec fn derives<T, NT, AK, AV>(g: &Grammar<T, NT, AK, AV>, nt: NT, w: Seq<T>) -> bool { exists|h: nat| der_h(g, nt, w, h) }
pub open spec fn el_derives<T, NT, AK, AV>(g: &Grammar<T, NT, AK, AV>, e: Elem<T, NT>, w: Seq<T>) -> bool { exists|h: nat| el_h(g, e, w, h) }
pub open spec fn seq_derives<T, NT, AK, AV>(g: &Grammar<T, NT, AK, AV>, s: Seq<ProdElement<T, NT>>, w: Seq<T>) -> bool { exists|h: nat| seq_h(g, s, w, h) }
pub proof fn lemma_der_mono<T, NT, AK, AV>(g: &Grammar<T, NT, AK, AV>, nt: NT, w: Seq<T>, h: nat, k: nat)
  requires der_h(g, nt, w, h), h <= k
  ensures der_h(g, nt, w, k)
  decreases h, 0nat
{
  let i = choose|i: int| 0 <= i < g.rule_set@[nt].prods@.len() && seq_h(g, (#[trigger] g.rule_set@[nt].prods@[i]).elements@, w, (h - 1) as nat);
  lemma_seq_mono(g, g.rule_set@[nt].prods@[i].elements@, w, (h - 1) as nat, (k - 1) as nat);
}
pub proof fn lemma_seq_mono<T, NT, AK, AV>(g: &Grammar<T, NT, AK, AV>, s: Seq<ProdElement<T, NT>>, w: Seq<T>, h: nat, k: nat)
  requires seq_h(g, s, w, h), h <= k
  ensures seq_h(g, s, w, k)
  decreases h, s.len() + 1
{
  if s.len() > 0 {
    let n = choose|n: int| 0 <= n <= w.len() && #[trigger] vx_id(n) && seq_h(g, s.drop_last(), w.take(n), h) && el_h(g, s.last().element, w.skip(n), h);
    lemma_seq_mono(g, s.drop_last(), w.take(n), h, k);
    match s.last().element { Elem::Term(_) => {} Elem::NonTerm(nt) => { lemma_der_mono(g, nt, w.skip(n), h, k); } }
    assert(el_h(g, s.last().element, w.skip(n), k)); assert(vx_id(n));
  }
}
pub proof fn lemma_el_mono<T, NT, AK, AV>(g: &Grammar<T, NT, AK, AV>, e: Elem<T, NT>, w: Seq<T>, h: nat, k: nat)
  requires el_h(g, e, w, h), h <= k
  ensures el_h(g, e, w, k)
{ match e { Elem::Term(_) => {} Elem::NonTerm(nt) => { lemma_der_mono(g, nt, w, h, k); } } }
/// The rules of derivation, without heights.
pub proof fn lemma_seq_nil<T, NT, AK, AV>(g: &Grammar<T, NT, AK, AV>, s: Seq<ProdElement<T, NT>>, w: Seq<T>)
  requires s.len() == 0
  ensures seq_derives(g, s, w) == (w.len() == 0)
{ if w.len() == 0 { assert(seq_h(g, s, w, 0)); } }
pub proof fn lemma_seq_snoc<T, NT, AK, AV>(g: &Grammar<T, NT, AK, AV>, s: Seq<ProdElement<T, NT>>, u: Seq<T>, v: Seq<T>)
  requires s.len() > 0, seq_derives(g, s.drop_last(), u), el_derives(g, s.last().element, v)
  ensures seq_derives(g, s, u + v)
{
  let a = choose|h: nat| seq_h(g, s.drop_last(), u, h);
  let b = choose|h: nat| el_h(g, s.last().element, v, h);
  let c = if a > b { a } else { b };
  let w = u + v;
  lemma_seq_mono(g, s.drop_last(), u, a, c);
  lemma_el_mono(g, s.last().element, v, b, c);
  assert(w.take(u.len() as int) =~= u); assert(w.skip(u.len() as int) =~= v);
  assert(vx_id(u.len() as int));
  assert(seq_h(g, s, w, c));
}
pub proof fn lemma_seq_split<T, NT, AK, AV>(g: &Grammar<T, NT, AK, AV>, s: Seq<ProdElement<T, NT>>, w: Seq<T>) -> (n: int)
  requires s.len() > 0, seq_derives(g, s, w)
  ensures 0 <= n <= w.len(), seq_derives(g, s.drop_last(), w.take(n)), el_derives(g, s.last().element, w.skip(n)), w == w.take(n) + w.skip(n)
{
  let h = choose|h: nat| seq_h(g, s, w, h);
  let n = choose|n: int| 0 <= n <= w.len() && #[trigger] vx_id(n) && seq_h(g, s.drop_last(), w.take(n), h) && el_h(g, s.last().element, w.skip(n), h);
  assert(w =~= w.take(n) + w.skip(n));
  n
}
pub proof fn lemma_el_nt<T, NT, AK, AV>(g: &Grammar<T, NT, AK, AV>, nt: NT, w: Seq<T>)
  ensures el_derives(g, Elem::<T, NT>::NonTerm(nt), w) == derives(g, nt, w)
{
  let e = Elem::<T, NT>::NonTerm(nt);
  if el_derives(g, e, w) { let h = choose|h: nat| el_h(g, e, w, h); assert(der_h(g, nt, w, h)); }
  if derives(g, nt, w) { let h = choose|h: nat| der_h(g, nt, w, h); assert(el_h(g, e, w, h)); }
}
pub proof fn lemma_el_term<T, NT, AK, AV>(g: &Grammar<T, NT, AK, AV>, t: T, w: Seq<T>)
  ensures el_derives(g, Elem::<T, NT>::Term(t), w) == (w == seq![t])
{ if w == seq![t] { assert(el_h(g, Elem::<T, NT>::Term(t), w, 0)); } }
pub proof fn lemma_der_prod<T, NT, AK, AV>(g: &Grammar<T, NT, AK, AV>, nt: NT, i: int, w: Seq<T>)
  requires g.rule_set@.contains_key(nt), 0 <= i < g.rule_set@[nt].prods@.len(), seq_derives(g, g.rule_set@[nt].prods@[i].elements@, w)
  ensures derives(g, nt, w)
{
  let h = choose|h: nat| seq_h(g, g.rule_set@[nt].prods@[i].elements@, w, h);
  assert(der_h(g, nt, w, h + 1));
}
} // verus!
