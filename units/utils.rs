@include ../lib/std.rs
verus! {
@inline src/utils.rs change_iter
@inline src/utils.rs change_loop
@type src/utils.rs WasChanged derive=Clone,Copy,PartialEq,Eq
@type src/utils.rs CollectMap reject=K,V
pub open spec fn cm<K, V>(m: Map<K, BTreeSet<V>>, k: K) -> Set<V> { if m.contains_key(k) { m[k]@ } else { Set::empty() } }
pub open spec fn cm_frame<K, V>(a: Map<K, BTreeSet<V>>, b: Map<K, BTreeSet<V>>, key: K) -> bool {
    forall|k: K| k != key ==> (#[trigger] b.contains_key(k) == a.contains_key(k)) && (a.contains_key(k) ==> b[k] == a[k])
}
@fn src/utils.rs WasChanged::from_changed -> r
  ensures r == (if changed { WasChanged::Changed } else { WasChanged::Unchanged })
@end
@fn src/utils.rs WasChanged::join -> r
  ensures (r is Changed) == (self is Changed || other is Changed)
@end
@fn src/utils.rs WasChanged::merge
  ensures (*final(self) is Changed) == (*old(self) is Changed || other is Changed)
@end
@fn src/utils.rs CollectMap::new -> r
  ensures r.0@ == Map::<K, BTreeSet<V>>::empty()
@end
@fn src/utils.rs CollectMap::from_seed -> r
  ensures r.0 == seed
@end
@fn src/utils.rs CollectMap::get -> r
  ensures match r { Some(s) => self.0@.contains_key(*key) && self.0@[*key] == *s, None => !self.0@.contains_key(*key) }
@end
@fn src/utils.rs CollectMap::into_inner -> r
  ensures r == self.0
@end
@fn src/utils.rs CollectMap::iter -> r
  ensures r@ == vx_map_ref_seq(self.0@)
@end
@fn src/utils.rs CollectMap::insert -> r
  ensures
    final(self).0@.contains_key(key), cm_frame(old(self).0@, final(self).0@, key),
    cm(final(self).0@, key) == cm(old(self).0@, key).insert(value),
    (r is Changed) == !cm(old(self).0@, key).contains(value),
@end
@fn src/utils.rs CollectMap::insert_iter -> r
  ensures
    cm_frame(old(self).0@, final(self).0@, key),
    final(self).0@.contains_key(key) == (old(self).0@.contains_key(key) || values.vx_seq().len() > 0),
    cm(final(self).0@, key) =~= cm(old(self).0@, key).union(values.vx_seq().to_set()),
    (r is Changed) == exists|i: int| 0 <= i < values.vx_seq().len() && !cm(old(self).0@, key).contains(#[trigger] values.vx_seq()[i]),
.loop 1
  invariant
    vx_s1 == values.vx_seq(),
    set@ =~= cm(old(self).0@, key).union(vx_pre(vx_s1, vx_n1)),
    (changed_h1 is Changed) == exists|i: int| 0 <= i < vx_n1 && !cm(old(self).0@, key).contains(#[trigger] vx_s1[i]),
@end
@fn src/utils.rs CollectMap::insert_from_key_set -> r
  ensures
    key == src_key ==> final(self).0@ == old(self).0@ && r is Unchanged,
    cm_frame(old(self).0@, final(self).0@, key),
    cm(final(self).0@, key) =~= cm(old(self).0@, key).union(cm(old(self).0@, src_key)),
    (r is Changed) == !cm(old(self).0@, src_key).subset_of(cm(old(self).0@, key)),
.loop 1
  invariant
    vx_s1 == vx_ref_seq(vx_set_seq(src_set@)),
    value@ =~= cm(old(self).0@, key).union(vx_pre(vx_set_seq(src_set@), vx_n1)),
    (changed_h1 is Changed) == !vx_pre(vx_set_seq(src_set@), vx_n1).subset_of(cm(old(self).0@, key)),
.before_loop 1
  proof { vx_ends(vx_set_seq(src_set@)); }
.loop_start 1
  proof { vx_step(vx_set_seq(src_set@), vx_n1); }
@end
@fn src/utils.rs take_only -> r
  ensures r == (if iter@.len() == 1 { Some(iter@[0]) } else { None })
.desugar
and_then
@end
@fn src/utils.rs merge_value_pairs -> r
  ensures
    forall|k: K| #[trigger] r@.contains_key(k) == exists|i: int| 0 <= i < iter.vx_seq().len() && (#[trigger] iter.vx_seq()[i]).0 == k,
    forall|k: K, v: V| #[trigger] cm(r@, k).contains(v) == iter.vx_seq().contains((k, v)),
.loop 1
  invariant
    vx_s1 == iter.vx_seq(),
    forall|k: K| #[trigger] result@.contains_key(k) == exists|i: int| 0 <= i < vx_n1 && (#[trigger] vx_s1[i]).0 == k,
    forall|k: K, v: V| #![trigger cm(result@, k).contains(v)] #![trigger vx_pre(vx_s1, vx_n1).contains((k, v))] cm(result@, k).contains(v) == vx_pre(vx_s1, vx_n1).contains((k, v)),
@end
/// `m` counts down to 0 along the steps from a value with `m >= 0`.
pub open spec fn counts_down<T, F: Fn(&T) -> T>(f: F, m: spec_fn(T) -> int) -> bool {
    forall|x: T, y: T| m(x) >= 0 && #[trigger] call_ensures(f, (&x,), y) && y != x ==> 0 <= m(y) < m(x)
}
@fn src/utils.rs fixed_point -> r
  requires
    forall|x: &T| call_requires(apply, (x,)),
    // a fixed point is reached from start
    exists|m: spec_fn(T) -> int| #[trigger] vx_id(m) && m(start) >= 0 && counts_down(apply, m),
  ensures call_ensures(apply, (&r,), r),
.start
  let ghost m = choose|m: spec_fn(T) -> int| #[trigger] vx_id(m) && m(start) >= 0 && counts_down(apply, m);
.loop 1
  invariant
    forall|x: &T| call_requires(apply, (x,)),
    m(curr) >= 0, counts_down(apply, m),
  decreases m(curr),
@end
pub open spec fn bfs_closed<T, S: VxIntoIterator<Item = T>, F: Fn(&T) -> S>(f: F, s: Set<T>, x: T) -> bool {
    exists|y: S| call_ensures(f, (&x,), y) && (#[trigger] y.vx_seq().to_set()).subset_of(s)
}
pub open spec fn bfs_all_closed<T, S: VxIntoIterator<Item = T>, F: Fn(&T) -> S>(f: F, s: Set<T>) -> bool {
    forall|x: T, y: S| s.contains(x) && #[trigger] call_ensures(f, (&x,), y) ==> y.vx_seq().to_set().subset_of(s)
}
/// `u` is finite, holds the initial elements and is closed under the step.
pub open spec fn bfs_bound<T, S: VxIntoIterator<Item = T>, F: Fn(&T) -> S>(f: F, ini: Seq<T>, u: Set<T>) -> bool {
    ini.to_set().subset_of(u) && bfs_all_closed::<T, S, F>(f, u)
}
pub proof fn lemma_rest<T>(u: Set<T>, a: Set<T>, b: Set<T>, x: T)
    requires a.subset_of(b), b.subset_of(u), b.contains(x), !a.contains(x),
    ensures u.difference(b).len() < u.difference(a).len(),
{
    vstd::set_lib::lemma_len_subset(u.difference(b), u.difference(a).remove(x));
}
/// The new elements of this round are those in `next`.
pub open spec fn bfs_grown<T>(a: Set<T>, b: Set<T>, next: Set<T>) -> bool {
    b =~= a.union(next) && a.disjoint(next)
}
@fn src/utils.rs breadth_first_search -> r
  requires
    forall|x: &T| call_requires(f, (x,)),
    // only finitely many elements can be reached
    exists|u: Set<T>| #[trigger] vx_id(u) && bfs_bound::<T, StepI, F>(f, initial.vx_seq(), u),
  ensures
    initial.vx_seq().to_set().subset_of(r@),
    forall|x: T| #[trigger] r@.contains(x) ==> bfs_closed::<T, StepI, F>(f, r@, x),
    forall|s: Set<T>| #![trigger bfs_all_closed::<T, StepI, F>(f, s)] #![trigger r@.subset_of(s)] initial.vx_seq().to_set().subset_of(s) && bfs_all_closed::<T, StepI, F>(f, s) ==> r@.subset_of(s),
.start
  let ghost ini = initial.vx_seq();
  let ghost u = choose|u: Set<T>| #[trigger] vx_id(u) && bfs_bound::<T, StepI, F>(f, ini, u);
.loop 1
  invariant
    bfs_bound::<T, StepI, F>(f, ini, u), ini == initial.vx_seq(), seen_set@.subset_of(u),
    next_set@ == Set::<T>::empty(),
    curr_set@.subset_of(seen_set@),
    initial.vx_seq().to_set().subset_of(seen_set@),
    forall|x: T| #[trigger] seen_set@.contains(x) && !curr_set@.contains(x) ==> bfs_closed::<T, StepI, F>(f, seen_set@, x),
    forall|s: Set<T>| initial.vx_seq().to_set().subset_of(s) && #[trigger] bfs_all_closed::<T, StepI, F>(f, s) ==> seen_set@.subset_of(s),
  decreases u.difference(seen_set@).len(), curr_set@.len(),
.loop_start 1
  let ghost seen1 = seen_set@;
.loop_end 1
  proof {
    if curr_set@ =~= Set::<T>::empty() { assert(seen_set@ =~= seen1); }
    else { let x = choose|x: T| curr_set@.contains(x); lemma_rest(u, seen1, seen_set@, x); }
  }
.loop 2
  invariant
    bfs_bound::<T, StepI, F>(f, ini, u), ini == initial.vx_seq(), seen_set@.subset_of(u),
    bfs_grown(seen1, seen_set@, next_set@),
    vx_s2 == vx_ref_seq(vx_set_seq(curr_set@)),
    next_set@.subset_of(seen_set@),
    curr_set@.subset_of(seen_set@),
    initial.vx_seq().to_set().subset_of(seen_set@),
    forall|x: T| #[trigger] seen_set@.contains(x) && !next_set@.contains(x) && (curr_set@.contains(x) ==> vx_pre(vx_set_seq(curr_set@), vx_n2).contains(x)) ==> bfs_closed::<T, StepI, F>(f, seen_set@, x),
    forall|s: Set<T>| initial.vx_seq().to_set().subset_of(s) && #[trigger] bfs_all_closed::<T, StepI, F>(f, s) ==> seen_set@.subset_of(s),
.before_loop 2
  proof { vx_ends(vx_set_seq(curr_set@)); }
.loop_start 2
  proof { vx_step(vx_set_seq(curr_set@), vx_n2); }
  let ghost seen0 = seen_set@;
.loop 3
  invariant
    exists|y: StepI| call_ensures(f, (next_item,), y) && (#[trigger] y.vx_seq().to_set()).subset_of(vx_s3.to_set()) && y.vx_seq() == vx_s3,
    bfs_bound::<T, StepI, F>(f, ini, u), ini == initial.vx_seq(), seen0.subset_of(u),
    bfs_grown(seen1, seen_set@, next_set@),
    next_set@.subset_of(seen_set@),
    curr_set@.subset_of(seen_set@),
    seen0.subset_of(seen_set@),
    vx_pre(vx_s3, vx_n3).subset_of(seen_set@),
    forall|x: T| #[trigger] seen_set@.contains(x) && !next_set@.contains(x) ==> seen0.contains(x),
    forall|x: T| #[trigger] seen_set@.contains(x) && !next_set@.contains(x) && (curr_set@.contains(x) ==> vx_pre(vx_set_seq(curr_set@), vx_n2 - 1).contains(x)) ==> bfs_closed::<T, StepI, F>(f, seen_set@, x),
    forall|s: Set<T>| initial.vx_seq().to_set().subset_of(s) && #[trigger] bfs_all_closed::<T, StepI, F>(f, s) ==> seen_set@.subset_of(s),
@end
/// A processor is lawful: `next` is a function, `merge` computes an upper bound of
/// both values and says "unchanged" only when it left the target alone; what it
/// changes loses rank.
@trait src/utils.rs FixedPointProcessor
  spec fn s_next(&self, k: K, v: V) -> Seq<(K, V)>;
  spec fn s_le(&self, a: V, b: V) -> bool;
  spec fn s_rank(&self, v: V) -> nat;
  proof fn le_refl(&self, a: V) ensures self.s_le(a, a);
  proof fn le_trans(&self, a: V, b: V, c: V) requires self.s_le(a, b), self.s_le(b, c) ensures self.s_le(a, c);
@method next -> r
  ensures r@ == self.s_next(*key, *value)
@method merge -> r
  ensures self.s_le(other, *final(target)), self.s_le(*old(target), *final(target)), r is Unchanged ==> *final(target) == *old(target),
    r is Changed ==> self.s_rank(*final(target)) < self.s_rank(*old(target))
@end
/// `u` is finite, holds the keys of `m` and every key that can come up.
pub open spec fn fp_bound<K, V, P: FixedPointProcessor<K, V>>(p: &P, m: Map<K, V>, u: Set<K>) -> bool {
    m.dom().subset_of(u) && forall|k: K, v: V, i: int| u.contains(k) && 0 <= i < p.s_next(k, v).len() ==> u.contains((#[trigger] p.s_next(k, v)[i]).0)
}
pub open spec fn fp_sum<K, V, P: FixedPointProcessor<K, V>>(p: &P, m: Map<K, V>, s: Seq<K>) -> nat decreases s.len() {
    if s.len() == 0 { 0 } else { fp_sum(p, m, s.drop_last()) + p.s_rank(m[s.last()]) }
}
pub proof fn lemma_fp_sum<K, V, P: FixedPointProcessor<K, V>>(p: &P, a: Map<K, V>, b: Map<K, V>, k: K, s: Seq<K>)
    requires s.no_duplicates(), forall|x: K| x != k ==> a[x] == b[x], p.s_rank(b[k]) < p.s_rank(a[k]),
    ensures s.contains(k) ==> fp_sum(p, b, s) < fp_sum(p, a, s), !s.contains(k) ==> fp_sum(p, b, s) == fp_sum(p, a, s),
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_last();
        lemma_fp_sum(p, a, b, k, t);
        if s.last() == k { if t.contains(k) { let i = t.index_of(k); assert(s[i] == k); } assert(s[s.len() - 1] == k); }
        else { if s.contains(k) { let i = s.index_of(k); assert(t[i] == k); } if t.contains(k) { let i = t.index_of(k); assert(s[i] == k); } }
    }
}
/// How far `m` is from the end: keys still to come, then ranks.
pub open spec fn fp_left<K>(u: Set<K>, d: Set<K>) -> nat { u.difference(d).len() }
pub open spec fn fp_ranks<K, V, P: FixedPointProcessor<K, V>>(p: &P, m: Map<K, V>) -> nat { fp_sum(p, m, vx_set_seq(m.dom())) }
pub open spec fn fp_less<K, V, P: FixedPointProcessor<K, V>>(p: &P, u: Set<K>, b: Map<K, V>, a: Map<K, V>) -> bool {
    fp_left(u, b.dom()) < fp_left(u, a.dom()) || (fp_left(u, b.dom()) == fp_left(u, a.dom()) && fp_ranks(p, b) < fp_ranks(p, a))
}
pub proof fn lemma_fp_less<K, V, P: FixedPointProcessor<K, V>>(p: &P, u: Set<K>, a: Map<K, V>, k: K, w: V)
    requires a.dom().subset_of(u), u.contains(k), a.contains_key(k) ==> p.s_rank(w) < p.s_rank(a[k]),
    ensures fp_less(p, u, a.insert(k, w), a), a.insert(k, w).dom().subset_of(u),
{
    let b = a.insert(k, w);
    if a.contains_key(k) { assert(b.dom() =~= a.dom()); ax_set_seq(a.dom()); lemma_fp_sum(p, a, b, k, vx_set_seq(a.dom())); }
    else { assert(b.dom() =~= a.dom().insert(k)); lemma_rest(u, a.dom(), b.dom(), k); }
}
/// What a round did to the target so far.
pub open spec fn fp_round<K, V, P: FixedPointProcessor<K, V>>(p: &P, u: Set<K>, b: Map<K, V>, a: Map<K, V>, nexts: Set<K>) -> bool {
    if nexts =~= Set::<K>::empty() { b == a } else { fp_less(p, u, b, a) }
}
pub open spec fn fp_at<K, V, P: FixedPointProcessor<K, V>>(p: &P, m: Map<K, V>, k: K) -> bool {
    forall|i: int| 0 <= i < p.s_next(k, m[k]).len() ==> fp_one(p, m, #[trigger] p.s_next(k, m[k])[i])
}
pub open spec fn fp_one<K, V, P: FixedPointProcessor<K, V>>(p: &P, m: Map<K, V>, x: (K, V)) -> bool {
    m.contains_key(x.0) && p.s_le(x.1, m[x.0])
}
pub open spec fn fp_le<K, V, P: FixedPointProcessor<K, V>>(p: &P, a: Map<K, V>, b: Map<K, V>) -> bool {
    forall|k: K| #[trigger] a.contains_key(k) ==> b.contains_key(k) && p.s_le(a[k], b[k])
}
pub proof fn fp_le_refl<K, V, P: FixedPointProcessor<K, V>>(p: &P, a: Map<K, V>) ensures fp_le(p, a, a)
{ assert forall|k: K| #[trigger] a.contains_key(k) implies p.s_le(a[k], a[k]) by { p.le_refl(a[k]); } }
/// One merge step keeps every other key's closure.
pub proof fn fp_step<K, V, P: FixedPointProcessor<K, V>>(p: &P, m0: Map<K, V>, a: Map<K, V>, b: Map<K, V>, key: K, v: V, w: V)
    requires fp_le(p, m0, a), b == a.insert(key, w), a.contains_key(key) ==> p.s_le(a[key], w), p.s_le(v, w),
    ensures fp_le(p, m0, b), fp_one(p, b, (key, v)),
        forall|x: (K, V)| fp_one(p, a, x) ==> #[trigger] fp_one(p, b, x),
        forall|k: K| a.contains_key(k) && #[trigger] fp_at(p, a, k) && b[k] == a[k] ==> fp_at(p, b, k),
{
    assert forall|k: K| #[trigger] m0.contains_key(k) implies b.contains_key(k) && p.s_le(m0[k], b[k]) by { if k == key { p.le_trans(m0[k], a[k], w); } }
    assert forall|x: (K, V)| fp_one(p, a, x) implies #[trigger] fp_one(p, b, x) by { if x.0 == key { p.le_trans(x.1, a[key], w); } }
}
@fn src/utils.rs apply_fixed_point
  requires
    // only finitely many keys can come up
    exists|u: Set<K>| #[trigger] vx_id(u) && fp_bound(proc, old(target)@, u),
  ensures
    forall|k: K| #[trigger] final(target)@.contains_key(k) ==> fp_at(proc, final(target)@, k),
    fp_le(proc, old(target)@, final(target)@),
.start
  proof { fp_le_refl(proc, target@); }
  let ghost u = choose|u: Set<K>| #[trigger] vx_id(u) && fp_bound(proc, old(target)@, u);
.loop 1
  invariant
    fp_bound(proc, target@, u),
    nexts@ == Set::<K>::empty(),
    currs@.subset_of(target@.dom()),
    fp_le(proc, old(target)@, target@),
    forall|k: K| #[trigger] target@.contains_key(k) && !currs@.contains(k) ==> fp_at(proc, target@, k),
  decreases fp_left(u, target@.dom()), fp_ranks(proc, target@), currs@.len(),
.loop_start 1
  let ghost r1 = target@;
.before_loop 2
  proof { vx_ends(vx_set_seq(currs@)); }
.loop 2
  invariant
    fp_bound(proc, target@, u), fp_round(proc, u, target@, r1, nexts@),
    vx_s2 == vx_ref_seq(vx_set_seq(currs@)),
    currs@.subset_of(target@.dom()),
    nexts@.subset_of(target@.dom()),
    fp_le(proc, old(target)@, target@),
    forall|k: K| #[trigger] target@.contains_key(k) && !nexts@.contains(k) && (currs@.contains(k) ==> vx_pre(vx_set_seq(currs@), vx_n2).contains(k)) ==> fp_at(proc, target@, k),
.loop_start 2
  let ghost m1 = target@;
  proof { vx_step(vx_set_seq(currs@), vx_n2); }
.loop 3
  invariant
    fp_bound(proc, target@, u), fp_round(proc, u, target@, r1, nexts@), u.contains(*curr),
    vx_s3 == proc.s_next(*curr, m1[*curr]),
    currs@.subset_of(target@.dom()),
    nexts@.subset_of(target@.dom()),
    fp_le(proc, old(target)@, target@),
    !nexts@.contains(*curr) ==> target@[*curr] == m1[*curr],
    forall|i: int| 0 <= i < vx_n3 ==> fp_one(proc, target@, #[trigger] vx_s3[i]),
    forall|k: K| #[trigger] target@.contains_key(k) && !nexts@.contains(k) && (currs@.contains(k) ==> vx_pre(vx_set_seq(currs@), vx_n2 - 1).contains(k)) ==> fp_at(proc, target@, k),
.loop_start 3
  let ghost m2 = target@;
.loop_end 3
  proof {
    proc.le_refl(next_v);
    assert(u.contains(vx_s3[vx_n3 - 1].0));
    if target@ =~= m2 { } else { assert(nexts@.contains(next_k)); lemma_fp_less(proc, u, m2, next_k, target@[next_k]); }
    fp_step(proc, old(target)@, m2, target@, next_k, next_v, target@[next_k]);
  }
@end
} // verus!
