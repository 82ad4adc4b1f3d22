@use utils.rs
@use base.rs
@use passes.rs
@use nullable.rs
@use firsts.rs
verus! {
@type src/grammar/passes/follows.rs FollowsError
@type src/grammar/passes/follows.rs Follows reject=NT
impl vstd::std_specs::convert::FromSpecImpl<FirstsError> for FollowsError {
  open spec fn obeys_from_spec() -> bool { true }
  open spec fn from_spec(e: FirstsError) -> Self { FollowsError::First(e) }
}
/// What `#[from]` of thiserror generates.
impl From<FirstsError> for FollowsError {
  fn from(e: FirstsError) -> (r: Self) ensures r == FollowsError::First(e) { FollowsError::First(e) }
}

// ---- FOLLOW
/// `t` can begin what the symbol derives.
pub open spec fn begins<T, NT, AK, AV>(g: &Grammar<T, NT, AK, AV>, e: Elem<T, NT>, t: T) -> bool { match e { Elem::Term(x) => x == t, Elem::NonTerm(b) => first(g, b, t) } }
/// Position `i` of production `n` of `k` holds `nt`, and everything from there up to position `j` vanishes.
pub open spec fn follow_via<T, NT, AK, AV>(g: &Grammar<T, NT, AK, AV>, nt: NT, k: NT, n: int, i: int, j: int) -> bool {
  let s = g.rule_set@[k].prods@[n].elements@;
  has_nth(g, k, n) && 0 <= i < j <= s.len() && s[i].element == (Elem::<T, NT>::NonTerm(nt)) && elems_null(g, s.subrange(i + 1, j))
}
/// `t` can come directly after `nt`, by a derivation of height at most `h`.
pub open spec fn follow_h<T, NT, AK, AV>(g: &Grammar<T, NT, AK, AV>, nt: NT, t: T, h: nat) -> bool decreases h {
  h > 0 && exists|k: NT, n: int, i: int, j: int| #[trigger] follow_via(g, nt, k, n, i, j)
    && if j < g.rule_set@[k].prods@[n].elements@.len() { begins(g, g.rule_set@[k].prods@[n].elements@[j].element, t) } else { follow_h(g, k, t, (h - 1) as nat) }
}
pub open spec fn follow<T, NT, AK, AV>(g: &Grammar<T, NT, AK, AV>, nt: NT, t: T) -> bool { exists|h: nat| follow_h(g, nt, t, h) }
pub open spec fn follow_map<T, NT, AK, AV>(g: &Grammar<T, NT, AK, AV>, m: Map<NT, BTreeSet<T>>) -> bool { forall|nt: NT, t: T| #[trigger] cm(m, nt).contains(t) == follow(g, nt, t) }

// ---- a bound on what can be found
pub open spec fn elems_nts<T, NT>(s: Seq<ProdElement<T, NT>>) -> Set<NT> decreases s.len() {
  if s.len() == 0 { Set::empty() } else { match s.last().element { Elem::NonTerm(t) => elems_nts(s.drop_last()).insert(t), Elem::Term(_) => elems_nts(s.drop_last()) } }
}
pub open spec fn prods_nts<'a, T, NT, AK, AV>(s: Seq<Prod<'a, T, NT, AK, AV>>) -> Set<NT> decreases s.len() {
  if s.len() == 0 { Set::empty() } else { prods_nts(s.drop_last()).union(elems_nts(s.last().prod.elements@)) }
}
pub proof fn lemma_elems_nts<T, NT>(s: Seq<ProdElement<T, NT>>, j: int, t: NT)
  requires 0 <= j < s.len(), s[j].element == (Elem::<T, NT>::NonTerm(t))
  ensures elems_nts(s).contains(t)
  decreases s.len()
{ if j < s.len() - 1 { assert(s.drop_last()[j] == s[j]); lemma_elems_nts(s.drop_last(), j, t); } }
pub proof fn lemma_prods_nts<'a, T, NT, AK, AV>(s: Seq<Prod<'a, T, NT, AK, AV>>, i: int, j: int, t: NT)
  requires 0 <= i < s.len(), 0 <= j < s[i].prod.elements@.len(), s[i].prod.elements@[j].element == (Elem::<T, NT>::NonTerm(t))
  ensures prods_nts(s).contains(t)
  decreases s.len()
{ if i < s.len() - 1 { assert(s.drop_last()[i] == s[i]); lemma_prods_nts(s.drop_last(), i, j, t); } else { lemma_elems_nts(s.last().prod.elements@, j, t); } }
/// Every pair of a nonterminal and a terminal of some productions.
pub open spec fn used_pairs<'a, T, NT, AK, AV>(g: &'a Grammar<T, NT, AK, AV>) -> Set<(NT, T)> { pairs(prods_nts(g_prods(g)), prods_terms(g_prods(g))) }
pub proof fn lemma_follow_pair<T, NT, AK, AV>(g: &Grammar<T, NT, AK, AV>, nt: NT, t: T, h: nat)
  requires follow_h(g, nt, t, h)
  ensures used_pairs(g).contains((nt, t))
  decreases h
{
  let (k, n, i, j) = choose|k: NT, n: int, i: int, j: int| #[trigger] follow_via(g, nt, k, n, i, j)
    && if j < g.rule_set@[k].prods@[n].elements@.len() { begins(g, g.rule_set@[k].prods@[n].elements@[j].element, t) } else { follow_h(g, k, t, (h - 1) as nat) };
  let p = nth_prod(g, k, n);
  let s = g.rule_set@[k].prods@[n].elements@;
  assert(has_nth(g, k, n));
  lemma_g_prods(g, p);
  let x = g_prods(g).index_of(p);
  lemma_prods_nts(g_prods(g), x, i, nt);
  if j < s.len() {
    match s[j].element {
      Elem::Term(_) => { lemma_prods_terms(g_prods(g), x, j, t); }
      Elem::NonTerm(b) => { let h2 = choose|h2: nat| first_h(g, b, t, h2); lemma_first_pair(g, b, t, h2); lemma_pairs(g.rule_set@.dom(), prods_terms(g_prods(g)), b, t); }
    }
  } else { lemma_follow_pair(g, k, t, (h - 1) as nat); lemma_pairs(prods_nts(g_prods(g)), prods_terms(g_prods(g)), k, t); }
  lemma_pairs(prods_nts(g_prods(g)), prods_terms(g_prods(g)), nt, t);
}

// ---- the fixed point
pub open spec fn follow_sound<'b, T, NT, AK, AV>(g: &Grammar<T, NT, AK, AV>, m: Map<&'b NT, BTreeSet<&'b T>>) -> bool { forall|nt: NT, t: T| #[trigger] fm(m, nt, t) ==> follow(g, nt, t) }
pub open spec fn between_null<'a, T, NT, AK, AV>(g: &'a Grammar<T, NT, AK, AV>, p: Prod<'a, T, NT, AK, AV>, i: int, j: int) -> bool {
  0 <= i < j <= p.prod.elements@.len() && p.prod.elements@[i].element is NonTerm && elems_null(g, p.prod.elements@.subrange(i + 1, j))
}
pub open spec fn nt_of<T, NT>(e: Elem<T, NT>) -> NT { match e { Elem::NonTerm(a) => a, _ => arbitrary() } }
/// The pairs that position `j` (the end of the production: its head) adds to the nonterminal at position `i`.
pub open spec fn follow_adds<'a, 'b, T, NT, AK, AV>(g: &'a Grammar<T, NT, AK, AV>, m: Map<&'b NT, BTreeSet<&'b T>>, p: Prod<'a, T, NT, AK, AV>, i: int, j: int, nt: NT, t: T) -> bool {
  nt == nt_of(p.prod.elements@[i].element) && if j < p.prod.elements@.len() { begins(g, p.prod.elements@[j].element, t) } else { fm(m, *p.head, t) }
}
/// They are there.
pub open spec fn follow_at<'a, 'b, T, NT, AK, AV>(g: &'a Grammar<T, NT, AK, AV>, m: Map<&'b NT, BTreeSet<&'b T>>, p: Prod<'a, T, NT, AK, AV>, i: int, j: int) -> bool {
  between_null(g, p, i, j) ==> forall|nt: NT, t: T| #[trigger] follow_adds(g, m, p, i, j, nt, t) ==> fm(m, nt, t)
}
pub proof fn lemma_follow_step<'a, 'b, T, NT, AK, AV>(g: &'a Grammar<T, NT, AK, AV>, a: Map<&'b NT, BTreeSet<&'b T>>, b: Map<&'b NT, BTreeSet<&'b T>>, p: Prod<'a, T, NT, AK, AV>, i: int, j: int)
  requires g_wf(g), g_prods(g).contains(p), between_null(g, p, i, j), follow_sound(g, a),
    forall|nt: NT, t: T| #[trigger] fm(b, nt, t) == (fm(a, nt, t) || follow_adds(g, a, p, i, j, nt, t))
  ensures follow_sound(g, b), fm_le(a, b), follow_at(g, b, p, i, j), left(used_pairs(g), b).len() <= left(used_pairs(g), a).len(),
    fm_same(a, b) || left(used_pairs(g), b).len() < left(used_pairs(g), a).len()
{
  let s = p.prod.elements@;
  lemma_g_prods(g, p);
  let (k, n) = choose|k: NT, n: int| #[trigger] has_nth(g, k, n) && p == nth_prod(g, k, n);
  let c = nt_of(s[i].element);
  assert(g.rule_set@[k].prods@[n] == *p.prod);
  assert(follow_via(g, c, k, n, i, j));
  assert forall|nt: NT, t: T| #[trigger] fm(b, nt, t) implies follow(g, nt, t) by {
    if !fm(a, nt, t) {
      if j < s.len() { assert(follow_h(g, nt, t, 1)); }
      else { assert(fm(a, *p.head, t)); let h = choose|h: nat| follow_h(g, k, t, h); assert(((h + 1) - 1) as nat == h); assert(follow_h(g, nt, t, h + 1)); }
    }
  }
  lemma_left(used_pairs(g), a, b);
  if !fm_same(a, b) {
    let (nt, t) = choose|nt: NT, t: T| #[trigger] fm(a, nt, t) != fm(b, nt, t);
    assert(fm(b, nt, t));
    let h = choose|h: nat| follow_h(g, nt, t, h);
    lemma_follow_pair(g, nt, t, h);
  }
  assert forall|nt: NT, t: T| #[trigger] follow_adds(g, b, p, i, j, nt, t) implies fm(b, nt, t) by {
    if j < s.len() { assert(follow_adds(g, a, p, i, j, nt, t)); } else if fm(a, *p.head, t) { assert(follow_adds(g, a, p, i, j, nt, t)); } else { assert(follow_adds(g, a, p, i, j, *p.head, t)); assert(fm(a, *p.head, t)); }
  }
}
pub proof fn lemma_follow_same<'a, 'b, T, NT, AK, AV>(g: &'a Grammar<T, NT, AK, AV>, a: Map<&'b NT, BTreeSet<&'b T>>, b: Map<&'b NT, BTreeSet<&'b T>>, p: Prod<'a, T, NT, AK, AV>, i: int, j: int)
  requires fm_same(a, b), follow_at(g, a, p, i, j)
  ensures follow_at(g, b, p, i, j)
{
  if between_null(g, p, i, j) { assert forall|nt: NT, t: T| #[trigger] follow_adds(g, b, p, i, j, nt, t) implies fm(b, nt, t) by {
    assert(fm(a, *p.head, t) == fm(b, *p.head, t)); assert(follow_adds(g, a, p, i, j, nt, t)); assert(fm(a, nt, t));
  } }
}
pub proof fn lemma_follow_least<'a, 'b, T, NT, AK, AV>(g: &'a Grammar<T, NT, AK, AV>, m: Map<&'b NT, BTreeSet<&'b T>>, nt: NT, t: T, h: nat)
  requires g_wf(g), follow_h(g, nt, t, h), forall|p: Prod<'a, T, NT, AK, AV>, i: int, j: int| g_prods(g).contains(p) && 0 <= i < j <= p.prod.elements@.len() ==> #[trigger] follow_at(g, m, p, i, j)
  ensures fm(m, nt, t)
  decreases h
{
  let (k, n, i, j) = choose|k: NT, n: int, i: int, j: int| #[trigger] follow_via(g, nt, k, n, i, j)
    && if j < g.rule_set@[k].prods@[n].elements@.len() { begins(g, g.rule_set@[k].prods@[n].elements@[j].element, t) } else { follow_h(g, k, t, (h - 1) as nat) };
  let p = nth_prod(g, k, n);
  assert(has_nth(g, k, n));
  lemma_g_prods(g, p);
  assert(follow_at(g, m, p, i, j));
  assert(between_null(g, p, i, j));
  if j == p.prod.elements@.len() { lemma_follow_least(g, m, k, t, (h - 1) as nat); }
  assert(follow_adds(g, m, p, i, j, nt, t));
}
pub proof fn lemma_between<'a, T, NT, AK, AV>(g: &'a Grammar<T, NT, AK, AV>, p: Prod<'a, T, NT, AK, AV>, i: int, j: int)
  requires 0 <= i < j < p.prod.elements@.len()
  ensures
    between_null(g, p, i, j + 1) == (between_null(g, p, i, j) && match p.prod.elements@[j].element { Elem::NonTerm(b) => nullable(g, b), Elem::Term(_) => false }),
    forall|k: int| j < k <= p.prod.elements@.len() && #[trigger] between_null(g, p, i, k) ==> between_null(g, p, i, j + 1)
{
  let s = p.prod.elements@;
  let (a, b) = (s.subrange(i + 1, j), s.subrange(i + 1, j + 1));
  if between_null(g, p, i, j + 1) {
    assert(b[j - i - 1] == s[j]);
    assert forall|x: int| 0 <= x < a.len() implies match (#[trigger] a[x]).element { Elem::NonTerm(c) => nullable(g, c), Elem::Term(_) => false } by { assert(b[x] == a[x]); }
  }
  if between_null(g, p, i, j) && match s[j].element { Elem::NonTerm(b) => nullable(g, b), Elem::Term(_) => false } {
    assert forall|x: int| 0 <= x < b.len() implies match (#[trigger] b[x]).element { Elem::NonTerm(c) => nullable(g, c), Elem::Term(_) => false } by { if x < a.len() { assert(b[x] == a[x]); } else { assert(b[x] == s[j]); } }
  }
  assert forall|k: int| j < k <= s.len() && #[trigger] between_null(g, p, i, k) implies between_null(g, p, i, j + 1) by {
    assert forall|x: int| 0 <= x < b.len() implies match (#[trigger] b[x]).element { Elem::NonTerm(c) => nullable(g, c), Elem::Term(_) => false } by { assert(s.subrange(i + 1, k)[x] == b[x]); }
  }
}
/// The first `n` positions of the production have been accounted for.
pub open spec fn follow_in<'a, 'b, T, NT, AK, AV>(g: &'a Grammar<T, NT, AK, AV>, m: Map<&'b NT, BTreeSet<&'b T>>, p: Prod<'a, T, NT, AK, AV>, n: int) -> bool {
  forall|i: int, j: int| 0 <= i < n && i < j <= p.prod.elements@.len() ==> #[trigger] follow_at(g, m, p, i, j)
}
pub open spec fn follow_all<'a, 'b, T, NT, AK, AV>(g: &'a Grammar<T, NT, AK, AV>, m: Map<&'b NT, BTreeSet<&'b T>>) -> bool {
  forall|p: Prod<'a, T, NT, AK, AV>| g_prods(g).contains(p) ==> #[trigger] follow_in(g, m, p, p.prod.elements@.len() as int)
}
pub proof fn lemma_follow_all<'a, 'b, T, NT, AK, AV>(g: &'a Grammar<T, NT, AK, AV>, m: Map<&'b NT, BTreeSet<&'b T>>)
  requires follow_all(g, m)
  ensures forall|p: Prod<'a, T, NT, AK, AV>, i: int, j: int| g_prods(g).contains(p) && 0 <= i < j <= p.prod.elements@.len() ==> #[trigger] follow_at(g, m, p, i, j)
{
  assert forall|p: Prod<'a, T, NT, AK, AV>, i: int, j: int| g_prods(g).contains(p) && 0 <= i < j <= p.prod.elements@.len() implies #[trigger] follow_at(g, m, p, i, j) by {
    assert(follow_in(g, m, p, p.prod.elements@.len() as int));
  }
}
pub proof fn lemma_follow_in_same<'a, 'b, T, NT, AK, AV>(g: &'a Grammar<T, NT, AK, AV>, a: Map<&'b NT, BTreeSet<&'b T>>, b: Map<&'b NT, BTreeSet<&'b T>>, p: Prod<'a, T, NT, AK, AV>, n: int)
  requires fm_same(a, b), follow_in(g, a, p, n)
  ensures follow_in(g, b, p, n)
{
  assert forall|i: int, j: int| 0 <= i < n && i < j <= p.prod.elements@.len() implies #[trigger] follow_at(g, b, p, i, j) by { assert(follow_at(g, a, p, i, j)); lemma_follow_same(g, a, b, p, i, j); }
}
pub proof fn lemma_follow_in_step<'a, 'b, T, NT, AK, AV>(g: &'a Grammar<T, NT, AK, AV>, m: Map<&'b NT, BTreeSet<&'b T>>, p: Prod<'a, T, NT, AK, AV>, i: int)
  requires follow_in(g, m, p, i), 0 <= i < p.prod.elements@.len(), p.prod.elements@[i].element is Term || forall|j: int| i < j <= p.prod.elements@.len() ==> #[trigger] follow_at(g, m, p, i, j)
  ensures follow_in(g, m, p, i + 1)
{ }
pub proof fn lemma_between_first<'a, T, NT, AK, AV>(g: &'a Grammar<T, NT, AK, AV>, p: Prod<'a, T, NT, AK, AV>, i: int)
  requires 0 <= i < p.prod.elements@.len(), p.prod.elements@[i].element is NonTerm
  ensures between_null(g, p, i, i + 1)
{ }
@impl src/grammar/passes/follows.rs Pass<T,NT,AK,AV> for Follows
  open spec fn pass_pre(g: &Grammar<T, NT, AK, AV>) -> bool { g_wf(g) && distinct_prods(g) }
  open spec fn pass_ok(g: &Grammar<T, NT, AK, AV>, r: Result<Self, Self::Error>) -> bool {
    match r { Err(e) => ambiguous(g), Ok(n) => !ambiguous(g) && follow_map(g, n.0@) }
  }
@method run_pass -> r
.desugar map_err
.steps
.closure 1
  -> (vx_r: (NT, BTreeSet<T>)) ensures vx_r.0 == *vx_p0.0, forall|t: T| #[trigger] vx_r.1@.contains(t) == vx_p0.1@.contains(&t)
.before_loop 1
  let ghost u = used_pairs(gram);
.loop 1
  invariant
    follow_sound(gram, follows.0@),
    g_wf(gram), null_info(gram, nullables.0.nonterm_info@), first_map(gram, firsts.0@),
  ensures
    follow_all(gram, follows.0@),
  decreases left(u, follows.0@).len()
.loop_start 1
  let ghost m1 = follows.0@;
.before_loop 2
  proof { lemma_left(u, m1, m1); }
.loop 2
  invariant
    vx_s2 == g_prods(gram), follow_sound(gram, follows.0@),
    left(u, follows.0@).len() <= left(u, m1).len(),
    changed_h1 is Changed ==> left(u, follows.0@).len() < left(u, m1).len(),
    changed_h1 is Unchanged ==> fm_same(follows.0@, m1) && forall|x: int| 0 <= x < vx_n2 ==> #[trigger] follow_in(gram, m1, vx_s2[x], vx_s2[x].prod.elements@.len() as int),
.loop_start 2
  let ghost m2 = follows.0@;
.loop_end 2
  proof {
    if changed_h1 is Unchanged {
      let p = vx_s2[vx_n2 - 1];
      assert(follow_in(gram, m2, p, p.prod.elements@.len() as int));
      lemma_follow_in_same(gram, m2, m1, p, p.prod.elements@.len() as int);
    }
  }
.loop_exit 1
  proof {
    assert forall|p: Prod<T, NT, AK, AV>| g_prods(gram).contains(p) implies #[trigger] follow_in(gram, follows.0@, p, p.prod.elements@.len() as int) by {
      let x = g_prods(gram).index_of(p);
      assert(follow_in(gram, m1, g_prods(gram)[x], p.prod.elements@.len() as int));
      lemma_follow_in_same(gram, m1, follows.0@, p, p.prod.elements@.len() as int);
    }
  }
.before_loop 3
  proof { lemma_left(u, m2, m2); }
.loop 3
  invariant
    elems@ == elem_refs(prod.prod.elements@), vx_s3.len() == elems@.len(), forall|x: int| 0 <= x < vx_s3.len() ==> (#[trigger] vx_s3[x]).0 == x && *vx_s3[x].1 == elems@[x],
    g_prods(gram).contains(prod), follow_sound(gram, follows.0@),
    left(u, follows.0@).len() <= left(u, m2).len(),
    changed is Changed ==> left(u, follows.0@).len() < left(u, m2).len(),
    changed is Unchanged ==> fm_same(follows.0@, m2) && follow_in(gram, m2, prod, vx_n3),
.loop_start 3
  proof {
    assert(**elem == prod.prod.elements@[i as int].element);
    if **elem is Term && follow_in(gram, m2, prod, i as int) { lemma_follow_in_step(gram, m2, prod, i as int); }
  }
.before_loop 4
  proof { lemma_between_first(gram, prod, i as int); }
.loop 4
  invariant
    vx_s4.len() == elems@.len() - i - 1, forall|x: int| 0 <= x < vx_s4.len() ==> *(#[trigger] vx_s4[x]) == elems@[i + 1 + x],
    *first_nt == nt_of(prod.prod.elements@[i as int].element),
    follow_sound(gram, follows.0@),
    left(u, follows.0@).len() <= left(u, m2).len(),
    changed is Changed ==> left(u, follows.0@).len() < left(u, m2).len(),
    changed is Unchanged ==> fm_same(follows.0@, m2) && follow_in(gram, m2, prod, i as int) && forall|j: int| i < j < i + 1 + vx_n4 ==> #[trigger] follow_at(gram, m2, prod, i as int, j),
  invariant_except_break
    rest_nullable, between_null(gram, prod, i as int, i + 1 + vx_n4),
  ensures
    rest_nullable ==> between_null(gram, prod, i as int, prod.prod.elements@.len() as int),
    changed is Unchanged && rest_nullable ==> forall|j: int| i < j < prod.prod.elements@.len() ==> #[trigger] follow_at(gram, m2, prod, i as int, j),
    changed is Unchanged && !rest_nullable ==> forall|j: int| i < j <= prod.prod.elements@.len() ==> #[trigger] follow_at(gram, m2, prod, i as int, j),
.loop_start 4
  let ghost m4 = follows.0@;
  proof { assert(**next_elem == prod.prod.elements@[i + vx_n4].element); }
.after_call insert
  proof {
    let j = i + vx_n4;
    assert forall|nt: NT, t: T| #[trigger] fm(follows.0@, nt, t) == (fm(m4, nt, t) || follow_adds(gram, m4, prod, i as int, j, nt, t)) by { }
    lemma_follow_step(gram, m4, follows.0@, prod, i as int, j);
    lemma_between(gram, prod, i as int, j);
    if !cm(m4, first_nt).contains(t) { assert(!fm(m4, *first_nt, *t)); } assert(fm(follows.0@, *first_nt, *t));
    if changed is Unchanged { assert(fm_same(m4, follows.0@)); assert(fm_same(follows.0@, m2)); lemma_follow_same(gram, follows.0@, m2, prod, i as int, j); }
  }
.after_call insert_iter
  proof {
    ax_set_seq(second_firsts@);
    let q = vx_ref_seq(vx_set_seq(second_firsts@));
    assert forall|t: T| #[trigger] second_firsts@.contains(t) == q.to_set().contains(&t) by {
      if second_firsts@.contains(t) { let x = vx_set_seq(second_firsts@).index_of(t); assert(q[x] == &t); }
    }
    assert(second_firsts@ == cm(firsts.0@, *second_nt));
    assert forall|t: T| #[trigger] second_firsts@.contains(t) == first(gram, *second_nt, t) by { }
    if !(forall|x: int| 0 <= x < q.len() ==> cm(m4, first_nt).contains(#[trigger] q[x])) {
      let x = choose|x: int| 0 <= x < q.len() && !cm(m4, first_nt).contains(#[trigger] q[x]);
      assert(q.to_set().contains(q[x]));
      assert(!fm(m4, *first_nt, *q[x])); assert(fm(follows.0@, *first_nt, *q[x]));
    } else {
      assert(cm(follows.0@, first_nt) =~= cm(m4, first_nt));
      assert(fm_same(m4, follows.0@));
    }
  }
.after_call is_nullable
  proof {
    let j = i + vx_n4;
    assert forall|nt: NT, t: T| #[trigger] fm(follows.0@, nt, t) == (fm(m4, nt, t) || follow_adds(gram, m4, prod, i as int, j, nt, t)) by {
      assert(cm(firsts.0@, *second_nt).contains(t) == first(gram, *second_nt, t));
      assert(follow_adds(gram, m4, prod, i as int, j, nt, t) == (nt == *first_nt && first(gram, *second_nt, t)));
    }
    lemma_follow_step(gram, m4, follows.0@, prod, i as int, j);
    lemma_between(gram, prod, i as int, j);
    if changed is Unchanged { assert(fm_same(m4, follows.0@)); assert(fm_same(follows.0@, m2)); lemma_follow_same(gram, follows.0@, m2, prod, i as int, j); }
  }
.before_call insert_from_key_set
  let ghost m5 = follows.0@;
.after_call insert_from_key_set
  proof {
    let j = prod.prod.elements@.len() as int;
    assert forall|nt: NT, t: T| #[trigger] fm(follows.0@, nt, t) == (fm(m5, nt, t) || follow_adds(gram, m5, prod, i as int, j, nt, t)) by { }
    lemma_follow_step(gram, m5, follows.0@, prod, i as int, j);
    if !cm(m5, prod.head).subset_of(cm(m5, first_nt)) {
      let y = choose|y: &T| cm(m5, prod.head).contains(y) && !cm(m5, first_nt).contains(y);
      assert(fm(m5, *prod.head, *y) && !fm(m5, *first_nt, *y)); assert(fm(follows.0@, *first_nt, *y));
    }
    if changed is Unchanged { assert(fm_same(m5, follows.0@)); assert(fm_same(follows.0@, m2)); lemma_follow_same(gram, follows.0@, m2, prod, i as int, j); }
  }
.loop_end 3
  proof { if changed is Unchanged { lemma_follow_in_step(gram, m2, prod, i as int); } }
.after_loop 1
  proof {
    assert forall|nt: NT, t: T| follow(gram, nt, t) implies #[trigger] fm(follows.0@, nt, t) by { let h = choose|h: nat| follow_h(gram, nt, t, h); lemma_follow_all(gram, follows.0@); lemma_follow_least(gram, follows.0@, nt, t, h); }
  }
.end
  proof {
    assert(copied(follows.0@, vx_0_3@));
    assert forall|nt: NT, t: T| #[trigger] cm(vx_0_4@, nt).contains(t) == follow(gram, nt, t) by { lemma_copied(follows.0@, vx_0_3@, nt, t); }
  }
@end
} // verus!
