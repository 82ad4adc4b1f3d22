@use utils.rs
@use base.rs
verus! {
@type src/state.rs ProdState reject=T,NT,AK,AV
@type src/state.rs ProdStateSet reject=T,NT,AK,AV
/// Data structure invariant of a state: its index is at most the length of its production.
pub open spec fn st_wf<T, NT, AK, AV>(s: &ProdState<'_, T, NT, AK, AV>) -> bool { s.index <= s.prod.prod.elements@.len() }
impl<'a, T, NT: Ord, AK, AV> PartialEq for ProdState<'a, T, NT, AK, AV> { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }
impl<'a, T, NT: Ord, AK, AV> Eq for ProdState<'a, T, NT, AK, AV> {}
impl<'a, T, NT: Ord, AK, AV> PartialOrd for ProdState<'a, T, NT, AK, AV> { #[verifier::external_body] fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { unimplemented!() } }
impl<'a, T, NT: Ord, AK, AV> Ord for ProdState<'a, T, NT, AK, AV> { #[verifier::external_body] fn cmp(&self, o: &Self) -> std::cmp::Ordering { unimplemented!() } }
/// States are ordered by production and index; lemma_state_ord shows that this is a lawful order.
pub open spec fn state_ord<T, NT, AK, AV>(a: ProdState<'_, T, NT, AK, AV>, b: ProdState<'_, T, NT, AK, AV>) -> std::cmp::Ordering { vx_lex(vx_ord(a.prod, b.prod), vx_ord(a.index, b.index)) }
pub proof fn lemma_state_ord<T, NT, AK, AV>(a: ProdState<'_, T, NT, AK, AV>, b: ProdState<'_, T, NT, AK, AV>, c: ProdState<'_, T, NT, AK, AV>)
  ensures (state_ord(a, b) is Equal) == (a == b), (state_ord(a, b) is Less) == (state_ord(b, a) is Greater),
    state_ord(a, b) is Less && state_ord(b, c) is Less ==> state_ord(a, c) is Less,
{
  if vx_ord(a.prod, b.prod) is Less && vx_ord(b.prod, c.prod) is Less { ax_ord_trans(a.prod, b.prod, c.prod); }
}
@impl src/state.rs PartialEq for ProdState +inherent
@method eq -> r
  ensures r == (*self == *other)
@end
@impl src/state.rs Ord for ProdState +inherent
@method cmp -> r
  ensures r == state_ord(*self, *other)
.closure 1
  -> (vx_r: std::cmp::Ordering) ensures vx_r == vx_ord(self.index, other.index)
@end
@impl src/state.rs PartialOrd for ProdState +inherent
@method partial_cmp -> r
  ensures r == Some(state_ord(*self, *other))
@end
impl<'a, T, NT, AK, AV> Clone for ProdState<'a, T, NT, AK, AV> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
@fn src/state.rs ProdState::from_start -> r
  ensures r == (ProdState { prod, index: 0 }), st_wf(&r)
@end
@fn src/state.rs ProdState::prod -> r
  ensures r == self.prod
@end
@fn src/state.rs ProdState::offset_prod_elem -> r
  ensures r == (if self.index + i < self.prod.prod.elements@.len() { Some(&self.prod.prod.elements@[self.index + i]) } else { None })
@end
@fn src/state.rs ProdState::offset_elem -> r
  ensures r == (if self.index + i < self.prod.prod.elements@.len() { Some(&self.prod.prod.elements@[self.index + i].element) } else { None })
@end
@fn src/state.rs ProdState::next_prod_elem -> r
  ensures r == (if self.index < self.prod.prod.elements@.len() { Some(&self.prod.prod.elements@[self.index as int]) } else { None })
@end
@fn src/state.rs ProdState::next_elem -> r
  ensures r == (if self.index < self.prod.prod.elements@.len() { Some(&self.prod.prod.elements@[self.index as int].element) } else { None })
@end
@fn src/state.rs ProdState::next_elem_state -> r
  ensures match r {
    Some((e, s)) => self.index < self.prod.prod.elements@.len() && *e == self.prod.prod.elements@[self.index as int] && s == (ProdState { prod: self.prod, index: (self.index + 1) as usize }) && st_wf(&s),
    None => self.index >= self.prod.prod.elements@.len(),
  }
.desugar map
@end
@fn src/state.rs ProdState::is_complete -> r
  ensures st_wf(self) ==> r == (self.index == self.prod.prod.elements@.len())
@end
@fn src/state.rs ProdState::action_key -> r
  ensures *r == self.prod.prod.action_key
@end
@fn src/state.rs ProdState::advance_if -> r
  ensures match r {
    Some(s) => self.index < self.prod.prod.elements@.len() && self.prod.prod.elements@[self.index as int].element == *elem && s == (ProdState { prod: self.prod, index: (self.index + 1) as usize }),
    None => self.index >= self.prod.prod.elements@.len() || self.prod.prod.elements@[self.index as int].element != *elem,
  }
.desugar map filter
@end

@impl src/state.rs Ord for ProdStateSet +inherent
@method cmp -> r
  ensures r == vx_ord(self.states, other.states)
@end
@impl src/state.rs PartialOrd for ProdStateSet +inherent
@method partial_cmp -> r
  ensures r == Some(vx_ord(self.states, other.states))
@end
@impl src/state.rs PartialEq for ProdStateSet +inherent
@method eq -> r
  ensures r == (self.states == other.states)
.desugar eq
@end
@impl src/state.rs FromIterator for ProdStateSet +inherent
@method from_iter -> r
  ensures r.states@ == iter.vx_seq().to_set()
@end
@fn src/state.rs ProdStateSet::new_empty -> r
  ensures r.states@ == Set::<ProdState<'a, T, NT, AK, AV>>::empty()
@end
@fn src/state.rs ProdStateSet::add
  ensures final(self).states@ == old(self).states@.insert(state)
@end
@fn src/state.rs ProdStateSet::complete -> r
  ensures forall|s: ProdState<'a, T, NT, AK, AV>| st_wf(&s) ==> #[trigger] r@.contains(s) == (self.states@.contains(s) && s.index == s.prod.prod.elements@.len())
.steps
.closure 1
  -> (vx_r: bool) ensures st_wf(&**st) ==> vx_r == (st.index == st.prod.prod.elements@.len())
.end
  proof {
    assert forall|s: ProdState<'a, T, NT, AK, AV>| st_wf(&s) implies #[trigger] vx_tail@.contains(s) == (self.states@.contains(s) && s.index == s.prod.prod.elements@.len()) by {
      assert(vx_0_1@.contains(&s) == self.states@.contains(s));
      assert(vx_0_2@.contains(&s) == (self.states@.contains(s) && s.index == s.prod.prod.elements@.len()));
      assert(vx_0_3@.contains(s) == vx_0_2@.contains(&s));
    }
  }
@end
/// `s` steps over `e` to `t`.
pub open spec fn steps_to<T, NT, AK, AV>(s: ProdState<'_, T, NT, AK, AV>, e: &ProdElement<T, NT>, t: ProdState<'_, T, NT, AK, AV>) -> bool {
  s.index < s.prod.prod.elements@.len() && s.prod.prod.elements@[s.index as int] == *e && t.prod == s.prod && t.index == s.index + 1
}
pub open spec fn in_group<'a, T, NT, AK, AV>(m: Map<&'a ProdElement<T, NT>, ProdStateSet<'a, T, NT, AK, AV>>, e: &'a ProdElement<T, NT>, t: ProdState<'a, T, NT, AK, AV>) -> bool { m.contains_key(e) && m[e].states@.contains(t) }
/// `m` groups the successors of `st` by the element stepped over.
pub open spec fn grouped<'a, T, NT, AK, AV>(st: Set<ProdState<'a, T, NT, AK, AV>>, m: Map<&'a ProdElement<T, NT>, ProdStateSet<'a, T, NT, AK, AV>>) -> bool {
  &&& forall|e: &'a ProdElement<T, NT>| #[trigger] m.contains_key(e) == exists|s: ProdState<'a, T, NT, AK, AV>, t: ProdState<'a, T, NT, AK, AV>| st.contains(s) && #[trigger] steps_to(s, e, t)
  &&& forall|e: &'a ProdElement<T, NT>, t: ProdState<'a, T, NT, AK, AV>| #[trigger] in_group(m, e, t) == exists|s: ProdState<'a, T, NT, AK, AV>| st.contains(s) && #[trigger] steps_to(s, e, t)
}
pub open spec fn step_pairs<'a, T, NT, AK, AV>(st: Set<ProdState<'a, T, NT, AK, AV>>, s: Seq<(&'a ProdElement<T, NT>, ProdState<'a, T, NT, AK, AV>)>) -> bool {
  forall|e: &'a ProdElement<T, NT>, t: ProdState<'a, T, NT, AK, AV>| #[trigger] s.contains((e, t)) == exists|s: ProdState<'a, T, NT, AK, AV>| st.contains(s) && #[trigger] steps_to(s, e, t)
}
@fn src/state.rs ProdStateSet::nexts -> r
  ensures exists|m: Map<&'a ProdElement<T, NT>, ProdStateSet<'a, T, NT, AK, AV>>| #[trigger] grouped(self.states@, m) && r@ == vx_map_seq(m)
.loop 1
  invariant
    step_pairs(self.states@, vx_s1),
    forall|e: &'a ProdElement<T, NT>| #[trigger] result@.contains_key(e) == exists|i: int| 0 <= i < vx_n1 && (#[trigger] vx_s1[i]).0 == e,
    forall|e: &'a ProdElement<T, NT>, t: ProdState<'a, T, NT, AK, AV>| #[trigger] in_group(result@, e, t) == vx_pre(vx_s1, vx_n1).contains((e, t)),
.closure 1
  -> (vx_r: ProdStateSet<'a, T, NT, AK, AV>) ensures vx_r.states@ == Set::<ProdState<'a, T, NT, AK, AV>>::empty()
.before_loop 1
  proof {
    assert forall|e: &'a ProdElement<T, NT>, t: ProdState<'a, T, NT, AK, AV>| #[trigger] vx_s1.contains((e, t)) == exists|s: ProdState<'a, T, NT, AK, AV>| self.states@.contains(s) && #[trigger] steps_to(s, e, t) by {
      if vx_s1.contains((e, t)) {
        let s = choose|s: &ProdState<'a, T, NT, AK, AV>| #[trigger] self.states@.contains(*s) && s.index < s.prod.prod.elements@.len() && *e == s.prod.prod.elements@[s.index as int] && t == (ProdState { prod: s.prod, index: (s.index + 1) as usize });
        assert(steps_to(*s, e, t));
      }
      if exists|s: ProdState<'a, T, NT, AK, AV>| self.states@.contains(s) && #[trigger] steps_to(s, e, t) {
        let s = choose|s: ProdState<'a, T, NT, AK, AV>| self.states@.contains(s) && #[trigger] steps_to(s, e, t);
        assert(vx_ref_seq(vx_set_seq(self.states@)).contains(&s));
      }
    }
  }
.loop_start 1
  let ghost r0 = result@;
.loop_end 1
  proof {
    assert forall|e: &'a ProdElement<T, NT>, t: ProdState<'a, T, NT, AK, AV>| #[trigger] in_group(result@, e, t) == vx_pre(vx_s1, vx_n1).contains((e, t)) by {
      assert(in_group(r0, e, t) == vx_pre(vx_s1, vx_n1 - 1).contains((e, t)));
      assert(vx_pre(vx_s1, vx_n1).contains((e, t)) == (vx_pre(vx_s1, vx_n1 - 1).contains((e, t)) || (e == k && t == v)));
      if e != k { assert(result@.contains_key(e) == r0.contains_key(e)); assert(in_group(result@, e, t) == in_group(r0, e, t)); }
      else { assert(result@[k].states@ == (if r0.contains_key(k) { r0[k].states@ } else { Set::empty() }).insert(v)); }
    }
  }
.after_loop 1
  proof {
    vx_ends(vx_s1);
    assert forall|e: &'a ProdElement<T, NT>| #[trigger] result@.contains_key(e) == exists|s: ProdState<'a, T, NT, AK, AV>, t: ProdState<'a, T, NT, AK, AV>| self.states@.contains(s) && #[trigger] steps_to(s, e, t) by {
      if result@.contains_key(e) { let i = choose|i: int| 0 <= i < vx_s1.len() && (#[trigger] vx_s1[i]).0 == e; assert(vx_s1.contains((e, vx_s1[i].1))); }
      if exists|s: ProdState<'a, T, NT, AK, AV>, t: ProdState<'a, T, NT, AK, AV>| self.states@.contains(s) && #[trigger] steps_to(s, e, t) {
        let (s, t) = choose|s: ProdState<'a, T, NT, AK, AV>, t: ProdState<'a, T, NT, AK, AV>| self.states@.contains(s) && #[trigger] steps_to(s, e, t);
        assert(vx_s1.contains((e, t)));
      }
    }
    assert forall|e: &'a ProdElement<T, NT>, t: ProdState<'a, T, NT, AK, AV>| #[trigger] in_group(result@, e, t) == exists|s: ProdState<'a, T, NT, AK, AV>| self.states@.contains(s) && #[trigger] steps_to(s, e, t) by {
      assert(vx_s1.to_set().contains((e, t)) == vx_s1.contains((e, t)));
    }
    assert(grouped(self.states@, result@));
  }
@end
@fn src/state.rs ProdStateSet::take_closure
  requires
    forall|x: &ProdState<'a, T, NT, AK, AV>| call_requires(close_func, (x,)),
    // only finitely many states can be reached
    exists|u: Set<ProdState<'a, T, NT, AK, AV>>| #[trigger] vx_id(u) && bfs_bound::<ProdState<'a, T, NT, AK, AV>, It<ProdState<'a, T, NT, AK, AV>>, F>(close_func, vx_set_seq(old(self).states@), u),
  ensures
    old(self).states@.subset_of(final(self).states@),
    forall|x: ProdState<'a, T, NT, AK, AV>| #[trigger] final(self).states@.contains(x) ==> bfs_closed::<ProdState<'a, T, NT, AK, AV>, It<ProdState<'a, T, NT, AK, AV>>, F>(close_func, final(self).states@, x),
    forall|s: Set<ProdState<'a, T, NT, AK, AV>>| old(self).states@.subset_of(s) && #[trigger] bfs_all_closed::<ProdState<'a, T, NT, AK, AV>, It<ProdState<'a, T, NT, AK, AV>>, F>(close_func, s) ==> final(self).states@.subset_of(s),
.start
  let ghost u = choose|u: Set<ProdState<'a, T, NT, AK, AV>>| #[trigger] vx_id(u) && bfs_bound::<ProdState<'a, T, NT, AK, AV>, It<ProdState<'a, T, NT, AK, AV>>, F>(close_func, vx_set_seq(old(self).states@), u);
.loop 1
  invariant
    bfs_bound::<ProdState<'a, T, NT, AK, AV>, It<ProdState<'a, T, NT, AK, AV>>, F>(close_func, vx_set_seq(old(self).states@), u), seen_states@.subset_of(u),
    next_states@ == Set::<ProdState<'a, T, NT, AK, AV>>::empty(),
    curr_states@.subset_of(seen_states@),
    old(self).states@.subset_of(seen_states@),
    forall|x: ProdState<'a, T, NT, AK, AV>| #[trigger] seen_states@.contains(x) && !curr_states@.contains(x) ==> bfs_closed::<ProdState<'a, T, NT, AK, AV>, It<ProdState<'a, T, NT, AK, AV>>, F>(close_func, seen_states@, x),
    forall|s: Set<ProdState<'a, T, NT, AK, AV>>| old(self).states@.subset_of(s) && #[trigger] bfs_all_closed::<ProdState<'a, T, NT, AK, AV>, It<ProdState<'a, T, NT, AK, AV>>, F>(close_func, s) ==> seen_states@.subset_of(s),
  decreases u.difference(seen_states@).len(),
.loop_start 1
  let ghost seen1 = seen_states@;
.loop_end 1
  proof { let x = choose|x: ProdState<'a, T, NT, AK, AV>| curr_states@.contains(x); lemma_rest(u, seen1, seen_states@, x); }
.loop 2
  invariant
    bfs_bound::<ProdState<'a, T, NT, AK, AV>, It<ProdState<'a, T, NT, AK, AV>>, F>(close_func, vx_set_seq(old(self).states@), u), seen_states@.subset_of(u),
    bfs_grown(seen1, seen_states@, next_states@),
    vx_s2 == vx_ref_seq(vx_set_seq(curr_states@)),
    next_states@.subset_of(seen_states@),
    curr_states@.subset_of(seen_states@),
    old(self).states@.subset_of(seen_states@),
    forall|x: ProdState<'a, T, NT, AK, AV>| #[trigger] seen_states@.contains(x) && !next_states@.contains(x) && (curr_states@.contains(x) ==> vx_pre(vx_set_seq(curr_states@), vx_n2).contains(x)) ==> bfs_closed::<ProdState<'a, T, NT, AK, AV>, It<ProdState<'a, T, NT, AK, AV>>, F>(close_func, seen_states@, x),
    forall|s: Set<ProdState<'a, T, NT, AK, AV>>| old(self).states@.subset_of(s) && #[trigger] bfs_all_closed::<ProdState<'a, T, NT, AK, AV>, It<ProdState<'a, T, NT, AK, AV>>, F>(close_func, s) ==> seen_states@.subset_of(s),
.before_loop 2
  proof { vx_ends(vx_set_seq(curr_states@)); }
.loop_start 2
  proof { vx_step(vx_set_seq(curr_states@), vx_n2); }
  let ghost seen0 = seen_states@;
.loop 3
  invariant
    exists|y: It<ProdState<'a, T, NT, AK, AV>>| call_ensures(close_func, (state,), y) && (#[trigger] y.vx_seq().to_set()).subset_of(vx_s3.to_set()) && y.vx_seq() == vx_s3,
    bfs_bound::<ProdState<'a, T, NT, AK, AV>, It<ProdState<'a, T, NT, AK, AV>>, F>(close_func, vx_set_seq(old(self).states@), u), seen0.subset_of(u),
    bfs_grown(seen1, seen_states@, next_states@),
    next_states@.subset_of(seen_states@),
    curr_states@.subset_of(seen_states@),
    seen0.subset_of(seen_states@),
    vx_pre(vx_s3, vx_n3).subset_of(seen_states@),
    forall|x: ProdState<'a, T, NT, AK, AV>| #[trigger] seen_states@.contains(x) && !next_states@.contains(x) ==> seen0.contains(x),
    forall|x: ProdState<'a, T, NT, AK, AV>| #[trigger] seen_states@.contains(x) && !next_states@.contains(x) && (curr_states@.contains(x) ==> vx_pre(vx_set_seq(curr_states@), vx_n2 - 1).contains(x)) ==> bfs_closed::<ProdState<'a, T, NT, AK, AV>, It<ProdState<'a, T, NT, AK, AV>>, F>(close_func, seen_states@, x),
    forall|s: Set<ProdState<'a, T, NT, AK, AV>>| old(self).states@.subset_of(s) && #[trigger] bfs_all_closed::<ProdState<'a, T, NT, AK, AV>, It<ProdState<'a, T, NT, AK, AV>>, F>(close_func, s) ==> seen_states@.subset_of(s),
@end
} // verus!
