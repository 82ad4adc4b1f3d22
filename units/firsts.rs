@use utils.rs
@use base.rs
@use passes.rs
@use nullable.rs
verus! {
@type src/grammar/passes/firsts.rs FirstsError
@type src/grammar/passes/firsts.rs Firsts reject=NT
impl vstd::std_specs::convert::FromSpecImpl<NullableError> for FirstsError {
  open spec fn obeys_from_spec() -> bool { true }
  open spec fn from_spec(e: NullableError) -> Self { FirstsError::NullableError(e) }
}
/// What `#[from]` of thiserror generates.
impl From<NullableError> for FirstsError {
  fn from(e: NullableError) -> (r: Self) ensures r == FirstsError::NullableError(e) { FirstsError::NullableError(e) }
}
@fn src/grammar/passes/firsts.rs Firsts::get -> r
  ensures match r { Some(s) => self.0@.contains_key(*nt) && *s == self.0@[*nt], None => !self.0@.contains_key(*nt) }
@end

// ---- FIRST
/// `t` can begin a sentential form derived from `nt`, by a derivation of height at most `h`.
pub open spec fn first_h<T, NT, AK, AV>(g: &Grammar<T, NT, AK, AV>, nt: NT, t: T, h: nat) -> bool decreases h {
  h > 0 && exists|i: int, j: int| #[trigger] first_via(g, nt, t, (h - 1) as nat, i, j)
    && match g.rule_set@[nt].prods@[i].elements@[j].element { Elem::Term(x) => x == t, Elem::NonTerm(b) => first_h(g, b, t, (h - 1) as nat) }
}
/// Element `j` of production `i` of `nt` comes after elements that all vanish.
pub open spec fn first_via<T, NT, AK, AV>(g: &Grammar<T, NT, AK, AV>, nt: NT, t: T, h: nat, i: int, j: int) -> bool {
  has_nth(g, nt, i) && 0 <= j < g.rule_set@[nt].prods@[i].elements@.len() && elems_null(g, g.rule_set@[nt].prods@[i].elements@.take(j))
}
pub open spec fn first<T, NT, AK, AV>(g: &Grammar<T, NT, AK, AV>, nt: NT, t: T) -> bool { exists|h: nat| first_h(g, nt, t, h) }
pub proof fn lemma_first_term<'a, T, NT, AK, AV>(g: &'a Grammar<T, NT, AK, AV>, p: Prod<'a, T, NT, AK, AV>, j: int, t: T)
  requires g_wf(g), g_prods(g).contains(p), 0 <= j < p.prod.elements@.len(), elems_null(g, p.prod.elements@.take(j)), p.prod.elements@[j].element == (Elem::<T, NT>::Term(t))
  ensures first(g, *p.head, t)
{
  lemma_g_prods(g, p);
  let (k, i) = choose|k: NT, i: int| #[trigger] has_nth(g, k, i) && p == nth_prod(g, k, i);
  assert(g.rule_set@[k].prods@[i] == *p.prod);
  assert(first_via(g, k, t, 0, i, j));
  assert(match g.rule_set@[k].prods@[i].elements@[j].element { Elem::Term(x) => x == t, Elem::NonTerm(b) => first_h(g, b, t, 0) });
  assert(first_via(g, k, t, (1 - 1) as nat, i, j));
  assert(first_h(g, k, t, 1));
}
pub proof fn lemma_first_nt<'a, T, NT, AK, AV>(g: &'a Grammar<T, NT, AK, AV>, p: Prod<'a, T, NT, AK, AV>, j: int, b: NT, t: T)
  requires g_wf(g), g_prods(g).contains(p), 0 <= j < p.prod.elements@.len(), elems_null(g, p.prod.elements@.take(j)), p.prod.elements@[j].element == (Elem::<T, NT>::NonTerm(b)), first(g, b, t)
  ensures first(g, *p.head, t)
{
  lemma_g_prods(g, p);
  let (k, i) = choose|k: NT, i: int| #[trigger] has_nth(g, k, i) && p == nth_prod(g, k, i);
  assert(g.rule_set@[k].prods@[i] == *p.prod);
  let h = choose|h: nat| first_h(g, b, t, h);
  assert(first_via(g, k, t, ((h + 1) - 1) as nat, i, j));
  assert(first_h(g, k, t, h + 1));
}

// ---- a bound on what can be found
pub open spec fn pairs<A, B>(a: Set<A>, b: Set<B>) -> Set<(A, B)> { a.map(|x: A| b.map(|y: B| (x, y))).flatten() }
pub proof fn lemma_pairs<A, B>(a: Set<A>, b: Set<B>, x: A, y: B)
  ensures pairs(a, b).contains((x, y)) == (a.contains(x) && b.contains(y))
{
  let s = a.map(|x: A| b.map(|y: B| (x, y)));
  vstd::set::Set::lemma_flatten_contains(s, (x, y));
  if a.contains(x) && b.contains(y) { let r = b.map(|y: B| (x, y)); assert(s.contains(r)); assert(r.contains((x, y))); }
  if pairs(a, b).contains((x, y)) { let r = choose|r: Set<(A, B)>| s.contains(r) && r.contains((x, y)); assert(s.contains(r)); }
}
pub open spec fn elems_terms<T, NT>(s: Seq<ProdElement<T, NT>>) -> Set<T> decreases s.len() {
  if s.len() == 0 { Set::empty() } else { match s.last().element { Elem::Term(t) => elems_terms(s.drop_last()).insert(t), Elem::NonTerm(_) => elems_terms(s.drop_last()) } }
}
pub open spec fn prods_terms<'a, T, NT, AK, AV>(s: Seq<Prod<'a, T, NT, AK, AV>>) -> Set<T> decreases s.len() {
  if s.len() == 0 { Set::empty() } else { prods_terms(s.drop_last()).union(elems_terms(s.last().prod.elements@)) }
}
pub proof fn lemma_elems_terms<T, NT>(s: Seq<ProdElement<T, NT>>, j: int, t: T)
  requires 0 <= j < s.len(), s[j].element == (Elem::<T, NT>::Term(t))
  ensures elems_terms(s).contains(t)
  decreases s.len()
{ if j < s.len() - 1 { assert(s.drop_last()[j] == s[j]); lemma_elems_terms(s.drop_last(), j, t); } }
pub proof fn lemma_prods_terms<'a, T, NT, AK, AV>(s: Seq<Prod<'a, T, NT, AK, AV>>, i: int, j: int, t: T)
  requires 0 <= i < s.len(), 0 <= j < s[i].prod.elements@.len(), s[i].prod.elements@[j].element == (Elem::<T, NT>::Term(t))
  ensures prods_terms(s).contains(t)
  decreases s.len()
{ if i < s.len() - 1 { assert(s.drop_last()[i] == s[i]); lemma_prods_terms(s.drop_last(), i, j, t); } else { lemma_elems_terms(s.last().prod.elements@, j, t); } }
/// Every pair of a nonterminal with a rule and a terminal of some production.
pub open spec fn all_pairs<'a, T, NT, AK, AV>(g: &'a Grammar<T, NT, AK, AV>) -> Set<(NT, T)> { pairs(g.rule_set@.dom(), prods_terms(g_prods(g))) }
pub proof fn lemma_first_pair<T, NT, AK, AV>(g: &Grammar<T, NT, AK, AV>, nt: NT, t: T, h: nat)
  requires first_h(g, nt, t, h)
  ensures all_pairs(g).contains((nt, t))
  decreases h
{
  let (i, j) = choose|i: int, j: int| #[trigger] first_via(g, nt, t, (h - 1) as nat, i, j)
    && match g.rule_set@[nt].prods@[i].elements@[j].element { Elem::Term(x) => x == t, Elem::NonTerm(b) => first_h(g, b, t, (h - 1) as nat) };
  match g.rule_set@[nt].prods@[i].elements@[j].element {
    Elem::Term(x) => {
      let p = nth_prod(g, nt, i);
      assert(has_nth(g, nt, i));
      lemma_g_prods(g, p);
      lemma_prods_terms(g_prods(g), g_prods(g).index_of(p), j, t);
    }
    Elem::NonTerm(b) => { lemma_first_pair(g, b, t, (h - 1) as nat); lemma_pairs(g.rule_set@.dom(), prods_terms(g_prods(g)), b, t); }
  }
  lemma_pairs(g.rule_set@.dom(), prods_terms(g_prods(g)), nt, t);
}

// ---- the fixed point
pub open spec fn fm<'b, T, NT>(m: Map<&'b NT, BTreeSet<&'b T>>, nt: NT, t: T) -> bool { cm(m, &nt).contains(&t) }
pub open spec fn left<'b, T, NT>(u: Set<(NT, T)>, m: Map<&'b NT, BTreeSet<&'b T>>) -> Set<(NT, T)> { u.filter(|x: (NT, T)| !fm(m, x.0, x.1)) }
pub open spec fn fm_le<'b, T, NT>(a: Map<&'b NT, BTreeSet<&'b T>>, b: Map<&'b NT, BTreeSet<&'b T>>) -> bool { forall|nt: NT, t: T| #[trigger] fm(a, nt, t) ==> fm(b, nt, t) }
pub open spec fn fm_same<'b, T, NT>(a: Map<&'b NT, BTreeSet<&'b T>>, b: Map<&'b NT, BTreeSet<&'b T>>) -> bool { forall|nt: NT, t: T| #![trigger fm(a, nt, t)] #![trigger fm(b, nt, t)] fm(a, nt, t) == fm(b, nt, t) }
pub proof fn lemma_left<'b, T, NT>(u: Set<(NT, T)>, a: Map<&'b NT, BTreeSet<&'b T>>, b: Map<&'b NT, BTreeSet<&'b T>>)
  requires fm_le(a, b)
  ensures left(u, b).len() <= left(u, a).len(), forall|nt: NT, t: T| u.contains((nt, t)) && fm(b, nt, t) && !#[trigger] fm(a, nt, t) ==> left(u, b).len() < left(u, a).len()
{
  assert(left(u, b).subset_of(left(u, a)));
  vstd::set_lib::lemma_len_subset(left(u, b), left(u, a));
  assert forall|nt: NT, t: T| u.contains((nt, t)) && fm(b, nt, t) && !#[trigger] fm(a, nt, t) implies left(u, b).len() < left(u, a).len() by {
    assert(left(u, b).subset_of(left(u, a).remove((nt, t))));
    vstd::set_lib::lemma_len_subset(left(u, b), left(u, a).remove((nt, t)));
    assert(left(u, a).contains((nt, t)));
  }
}
pub open spec fn first_sound<'b, T, NT, AK, AV>(g: &Grammar<T, NT, AK, AV>, m: Map<&'b NT, BTreeSet<&'b T>>) -> bool { forall|nt: NT, t: T| #[trigger] fm(m, nt, t) ==> first(g, nt, t) }
/// Element `j` of the production has been accounted for.
pub open spec fn first_at<'a, 'b, T, NT, AK, AV>(g: &'a Grammar<T, NT, AK, AV>, m: Map<&'b NT, BTreeSet<&'b T>>, p: Prod<'a, T, NT, AK, AV>, j: int) -> bool {
  elems_null(g, p.prod.elements@.take(j)) ==> match p.prod.elements@[j].element {
    Elem::Term(t) => fm(m, *p.head, t),
    Elem::NonTerm(b) => forall|t: T| #[trigger] fm(m, b, t) ==> fm(m, *p.head, t),
  }
}
pub proof fn lemma_first_least<'a, 'b, T, NT, AK, AV>(g: &'a Grammar<T, NT, AK, AV>, m: Map<&'b NT, BTreeSet<&'b T>>, nt: NT, t: T, h: nat)
  requires g_wf(g), first_h(g, nt, t, h), forall|p: Prod<'a, T, NT, AK, AV>, j: int| g_prods(g).contains(p) && 0 <= j < p.prod.elements@.len() ==> #[trigger] first_at(g, m, p, j)
  ensures fm(m, nt, t)
  decreases h
{
  let (i, j) = choose|i: int, j: int| #[trigger] first_via(g, nt, t, (h - 1) as nat, i, j)
    && match g.rule_set@[nt].prods@[i].elements@[j].element { Elem::Term(x) => x == t, Elem::NonTerm(b) => first_h(g, b, t, (h - 1) as nat) };
  let p = nth_prod(g, nt, i);
  assert(has_nth(g, nt, i));
  lemma_g_prods(g, p);
  assert(first_at(g, m, p, j));
  match g.rule_set@[nt].prods@[i].elements@[j].element { Elem::Term(x) => {} Elem::NonTerm(b) => { lemma_first_least(g, m, b, t, (h - 1) as nat); } }
}
pub proof fn lemma_prefix_null<T, NT, AK, AV>(g: &Grammar<T, NT, AK, AV>, s: Seq<ProdElement<T, NT>>, j: int)
  requires 0 <= j < s.len(), elems_null(g, s.take(j))
  ensures elems_null(g, s.take(j + 1)) == (match s[j].element { Elem::NonTerm(b) => nullable(g, b), Elem::Term(_) => false }),
    forall|k: int| j < k <= s.len() && #[trigger] elems_null(g, s.take(k)) ==> elems_null(g, s.take(j + 1))
{
  if match s[j].element { Elem::NonTerm(b) => nullable(g, b), Elem::Term(_) => false } {
    assert forall|i: int| 0 <= i < j + 1 implies match (#[trigger] s.take(j + 1)[i]).element { Elem::NonTerm(b) => nullable(g, b), Elem::Term(_) => false } by { if i < j { assert(s.take(j)[i] == s[i]); } }
  }
  if elems_null(g, s.take(j + 1)) { assert(s.take(j + 1)[j] == s[j]); }
  assert forall|k: int| j < k <= s.len() && #[trigger] elems_null(g, s.take(k)) implies elems_null(g, s.take(j + 1)) by {
    assert forall|i: int| 0 <= i < j + 1 implies match (#[trigger] s.take(j + 1)[i]).element { Elem::NonTerm(b) => nullable(g, b), Elem::Term(_) => false } by { assert(s.take(k)[i] == s[i]); }
  }
}
/// One step of the calculation: the pairs that element `j` of the production adds.
pub open spec fn first_adds<'a, 'b, T, NT, AK, AV>(m: Map<&'b NT, BTreeSet<&'b T>>, p: Prod<'a, T, NT, AK, AV>, j: int, nt: NT, t: T) -> bool {
  nt == *p.head && match p.prod.elements@[j].element { Elem::Term(x) => t == x, Elem::NonTerm(b) => fm(m, b, t) }
}
pub proof fn lemma_first_step<'a, 'b, T, NT, AK, AV>(g: &'a Grammar<T, NT, AK, AV>, a: Map<&'b NT, BTreeSet<&'b T>>, b: Map<&'b NT, BTreeSet<&'b T>>, p: Prod<'a, T, NT, AK, AV>, j: int)
  requires g_wf(g), g_prods(g).contains(p), 0 <= j < p.prod.elements@.len(), elems_null(g, p.prod.elements@.take(j)), first_sound(g, a),
    forall|nt: NT, t: T| #[trigger] fm(b, nt, t) == (fm(a, nt, t) || first_adds(a, p, j, nt, t))
  ensures first_sound(g, b), fm_le(a, b), first_at(g, b, p, j), left(all_pairs(g), b).len() <= left(all_pairs(g), a).len(),
    fm_same(a, b) || left(all_pairs(g), b).len() < left(all_pairs(g), a).len()
{
  assert forall|nt: NT, t: T| #[trigger] fm(b, nt, t) implies first(g, nt, t) by {
    if !fm(a, nt, t) { match p.prod.elements@[j].element { Elem::Term(x) => { lemma_first_term(g, p, j, t); } Elem::NonTerm(c) => { assert(fm(a, c, t)); lemma_first_nt(g, p, j, c, t); } } }
  }
  lemma_left(all_pairs(g), a, b);
  if !fm_same(a, b) {
    let (nt, t) = choose|nt: NT, t: T| #[trigger] fm(a, nt, t) != fm(b, nt, t);
    assert(fm(b, nt, t));
    let h = choose|h: nat| first_h(g, nt, t, h);
    lemma_first_pair(g, nt, t, h);
  }
  match p.prod.elements@[j].element { Elem::Term(x) => { assert(fm(b, *p.head, x) == (fm(a, *p.head, x) || first_adds(a, p, j, *p.head, x))); } Elem::NonTerm(c) => {
    assert forall|t: T| #[trigger] fm(b, c, t) implies fm(b, *p.head, t) by { assert(fm(a, c, t) || first_adds(a, p, j, c, t)); }
  } }
}
pub proof fn lemma_first_same<'a, 'b, T, NT, AK, AV>(g: &'a Grammar<T, NT, AK, AV>, a: Map<&'b NT, BTreeSet<&'b T>>, b: Map<&'b NT, BTreeSet<&'b T>>, p: Prod<'a, T, NT, AK, AV>, j: int)
  requires fm_same(a, b), first_at(g, a, p, j)
  ensures first_at(g, b, p, j)
{
  match p.prod.elements@[j].element { Elem::Term(x) => { assert(fm(a, *p.head, x) == fm(b, *p.head, x)); } Elem::NonTerm(c) => {
    if elems_null(g, p.prod.elements@.take(j)) { assert forall|t: T| #[trigger] fm(b, c, t) implies fm(b, *p.head, t) by { assert(fm(a, c, t)); assert(fm(a, *p.head, t)); } }
  } }
}
/// The result as the pass returns it: references replaced by copies.
pub open spec fn copied<'b, T, NT>(m: Map<&'b NT, BTreeSet<&'b T>>, s: Seq<(NT, BTreeSet<T>)>) -> bool {
  s.len() == vx_map_seq(m).len() && forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0 == *vx_map_seq(m)[i].0 && forall|t: T| #[trigger] s[i].1@.contains(t) == vx_map_seq(m)[i].1@.contains(&t)
}
pub proof fn lemma_copied<'b, T, NT>(m: Map<&'b NT, BTreeSet<&'b T>>, s: Seq<(NT, BTreeSet<T>)>, nt: NT, t: T)
  requires copied(m, s)
  ensures cm(vx_map_of(s), nt).contains(t) == fm(m, nt, t)
{
  let q = vx_map_seq(m);
  ax_set_seq(m.dom());
  if vx_map_of(s).contains_key(nt) {
    lemma_map_of(s, nt);
    let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == nt;
    assert forall|j: int| i < j < s.len() implies (#[trigger] s[j]).0 != s[i].0 by { assert(*q[j].0 != *q[i].0); }
    lemma_map_of_last(s, i);
    assert(q.contains(q[i]));
    lemma_map_contains(m, q[i]);
  }
  if m.contains_key(&nt) {
    lemma_map_contains(m, (&nt, m[&nt]));
    let i = q.index_of((&nt, m[&nt]));
    assert(s[i].0 == nt);
    lemma_map_of(s, nt);
  }
}
/// The FIRST sets are exact.
pub open spec fn first_map<T, NT, AK, AV>(g: &Grammar<T, NT, AK, AV>, m: Map<NT, BTreeSet<T>>) -> bool { forall|nt: NT, t: T| #[trigger] cm(m, nt).contains(t) == first(g, nt, t) }
@impl src/grammar/passes/firsts.rs Pass<T,NT,AK,AV> for Firsts
  open spec fn pass_pre(g: &Grammar<T, NT, AK, AV>) -> bool { g_wf(g) && distinct_prods(g) }
  open spec fn pass_ok(g: &Grammar<T, NT, AK, AV>, r: Result<Self, Self::Error>) -> bool {
    match r { Err(e) => ambiguous(g), Ok(n) => !ambiguous(g) && first_map(g, n.0@) }
  }
@method run_pass -> r
.steps
.closure 1
  -> (vx_r: (NT, BTreeSet<T>)) ensures vx_r.0 == *vx_p0.0, forall|t: T| #[trigger] vx_r.1@.contains(t) == vx_p0.1@.contains(&t)
.before_loop 1
  let ghost u = all_pairs(gram);
.loop 1
  invariant
    first_sound(gram, firsts.0@),
    g_wf(gram), null_info(gram, nullables.0.nonterm_info@),
  ensures
    forall|p: Prod<T, NT, AK, AV>, j: int| g_prods(gram).contains(p) && 0 <= j < p.prod.elements@.len() ==> #[trigger] first_at(gram, firsts.0@, p, j),
  decreases left(u, firsts.0@).len()
.loop_start 1
  let ghost m1 = firsts.0@;
.before_loop 2
  proof { lemma_left(u, m1, m1); }
.loop 2
  invariant
    vx_s2 == g_prods(gram), first_sound(gram, firsts.0@),
    left(u, firsts.0@).len() <= left(u, m1).len(),
    changed_h1 is Changed ==> left(u, firsts.0@).len() < left(u, m1).len(),
    changed_h1 is Unchanged ==> fm_same(firsts.0@, m1) && forall|i: int, j: int| 0 <= i < vx_n2 && 0 <= j < vx_s2[i].prod.elements@.len() ==> #[trigger] first_at(gram, m1, vx_s2[i], j),
.loop_start 2
  let ghost m2 = firsts.0@;
.after_loop 3
  proof {
    assert(changed is Changed ==> left(u, firsts.0@).len() < left(u, m2).len());
  }
.loop_end 2
  proof {
    if changed_h1 is Unchanged {
      assert forall|i: int, j: int| 0 <= i < vx_n2 && 0 <= j < vx_s2[i].prod.elements@.len() implies #[trigger] first_at(gram, m1, vx_s2[i], j) by {
        if i == vx_n2 - 1 { assert(first_at(gram, m2, vx_s2[i], j)); lemma_first_same(gram, m2, m1, vx_s2[i], j); }
      }
    }
  }
.loop_exit 1
  proof {
    assert forall|p: Prod<T, NT, AK, AV>, j: int| g_prods(gram).contains(p) && 0 <= j < p.prod.elements@.len() implies #[trigger] first_at(gram, firsts.0@, p, j) by {
      let i = g_prods(gram).index_of(p);
      assert(first_at(gram, m1, g_prods(gram)[i], j));
      lemma_first_same(gram, m1, firsts.0@, p, j);
    }
  }
.before_loop 3
  proof { lemma_left(u, m2, m2); }
.loop 3
  invariant
    vx_s3 == elem_refs(prod.prod.elements@),
    g_prods(gram).contains(prod), first_sound(gram, firsts.0@),
    left(u, firsts.0@).len() <= left(u, m2).len(),
    changed is Changed ==> left(u, firsts.0@).len() < left(u, m2).len(),
    changed is Unchanged ==> fm_same(firsts.0@, m2) && forall|j: int| 0 <= j < vx_n3 ==> #[trigger] first_at(gram, m2, prod, j),
  invariant_except_break
    elems_null(gram, prod.prod.elements@.take(vx_n3)),
  ensures
    changed is Changed ==> left(u, firsts.0@).len() < left(u, m2).len(),
    changed is Unchanged ==> forall|j: int| 0 <= j < prod.prod.elements@.len() ==> #[trigger] first_at(gram, m2, prod, j),
.loop_start 3
  let ghost m3 = firsts.0@;
.after_call insert
  proof {
    let j = vx_n3 - 1;
    assert(*elem == prod.prod.elements@[j].element);
    assert forall|nt: NT, t: T| #[trigger] fm(firsts.0@, nt, t) == (fm(m3, nt, t) || first_adds(m3, prod, j, nt, t)) by { }
    lemma_first_step(gram, m3, firsts.0@, prod, j);
    lemma_prefix_null(gram, prod.prod.elements@, j);
    match prod.prod.elements@[j].element {
      Elem::Term(x) => { if !cm(m3, prod.head).contains(&x) { assert(!fm(m3, *prod.head, x)); } assert(fm(firsts.0@, *prod.head, x)); }
      Elem::NonTerm(b) => {
        if !cm(m3, &b).subset_of(cm(m3, prod.head)) {
          let y = choose|y: &T| cm(m3, &b).contains(y) && !cm(m3, prod.head).contains(y);
          assert(fm(m3, b, *y) && !fm(m3, *prod.head, *y)); assert(fm(firsts.0@, *prod.head, *y));
        }
      }
    }
    if changed is Unchanged {
      assert(fm_same(m3, firsts.0@));
      assert(fm_same(firsts.0@, m2));
      lemma_first_same(gram, firsts.0@, m2, prod, j);
    }
  }
.after_call insert_from_key_set
  proof {
    let j = vx_n3 - 1;
    assert(*elem == prod.prod.elements@[j].element);
    assert forall|nt: NT, t: T| #[trigger] fm(firsts.0@, nt, t) == (fm(m3, nt, t) || first_adds(m3, prod, j, nt, t)) by { }
    lemma_first_step(gram, m3, firsts.0@, prod, j);
    lemma_prefix_null(gram, prod.prod.elements@, j);
    match prod.prod.elements@[j].element {
      Elem::Term(x) => { if !cm(m3, prod.head).contains(&x) { assert(!fm(m3, *prod.head, x)); } assert(fm(firsts.0@, *prod.head, x)); }
      Elem::NonTerm(b) => {
        if !cm(m3, &b).subset_of(cm(m3, prod.head)) {
          let y = choose|y: &T| cm(m3, &b).contains(y) && !cm(m3, prod.head).contains(y);
          assert(fm(m3, b, *y) && !fm(m3, *prod.head, *y)); assert(fm(firsts.0@, *prod.head, *y));
        }
      }
    }
    if changed is Unchanged {
      assert(fm_same(m3, firsts.0@));
      assert(fm_same(firsts.0@, m2));
      lemma_first_same(gram, firsts.0@, m2, prod, j);
    }
  }
.after_loop 1
  proof {
    assert forall|nt: NT, t: T| first(gram, nt, t) implies #[trigger] fm(firsts.0@, nt, t) by { let h = choose|h: nat| first_h(gram, nt, t, h); lemma_first_least(gram, firsts.0@, nt, t, h); }
  }
.end
  proof {
    assert(copied(firsts.0@, vx_0_3@));
    assert forall|nt: NT, t: T| #[trigger] cm(vx_0_4@, nt).contains(t) == first(gram, nt, t) by { lemma_copied(firsts.0@, vx_0_3@, nt, t); }
  }
@end
} // verus!
