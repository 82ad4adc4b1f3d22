@include ../lib/std.rs
@pin src/utils/buffer.rs
impl cmp::Ord for BufferRangeKey {
  fn cmp(&self, other: &Self) -> cmp::Ordering {
    self.as_str().cmp(other.as_str())
  }
}
impl cmp::PartialOrd for BufferRangeKey {
  fn partial_cmp(&self, other: &Self) -> Option<cmp::Ordering> {
    Some(self.cmp(other))
  }
}
impl cmp::PartialEq for BufferRangeKey {
  fn eq(&self, other: &Self) -> bool {
    self.cmp(other) == cmp::Ordering::Equal
  }
}
impl cmp::Eq for BufferRangeKey {}
@end
verus! {
@include strs.rs
@type src/utils/buffer.rs BufferInner
@type src/utils/buffer.rs Buffer derive=Clone
@type src/utils/buffer.rs BufferRange derive=Clone
@type src/utils/buffer.rs BufferRangeKey derive=Clone
@type src/utils/buffer.rs TextPos derive=Clone,Copy

// ---- lines of a text
pub open spec fn term(c: char) -> bool { c == '\n' || c == '\r' }
/// A character that ends a line: a line feed, or a carriage return not followed by one.
pub open spec fn nl(s: Seq<char>, k: int) -> bool { s[k] == '\n' || (s[k] == '\r' && !(k + 1 < s.len() && s[k + 1] == '\n')) }
/// The number of the line the character at i lies in: the lines ended before it.
pub open spec fn lnum(s: Seq<char>, i: int) -> nat decreases i { if i <= 0 { 0 } else { lnum(s, i - 1) + (if nl(s, i - 1) { 1nat } else { 0 }) } }
/// Where that line begins.
pub open spec fn lstart(s: Seq<char>, i: int) -> int decreases i { if i <= 0 { 0 } else if nl(s, i - 1) { i } else { lstart(s, i - 1) } }
/// Where the line that begins at i ends: before its terminator.
pub open spec fn lend(s: Seq<char>, i: int) -> int decreases s.len() - i { if i < 0 || i >= s.len() || term(s[i]) { i } else { lend(s, i + 1) } }
pub open spec fn line_text(s: Seq<char>, i: int) -> Seq<char> { s.subrange(lstart(s, i), lend(s, lstart(s, i))) }
/// Bytes of the line before i, without the terminator.
pub open spec fn line_off(s: Seq<char>, i: int) -> int {
  let e = lend(s, lstart(s, i));
  off(s, if i <= e { i } else { e }) - off(s, lstart(s, i))
}
/// k grapheme clusters of s begin before byte offset o.
pub open spec fn is_col(s: Seq<char>, o: int, k: int) -> bool {
  let g = graphemes(s, true);
  0 <= k <= g.len() && (forall|i: int| 0 <= i < k ==> #[trigger] g[i] < o) && (forall|i: int| k <= i < g.len() ==> #[trigger] g[i] >= o)
}
pub open spec fn pos_ok(s: Seq<char>, i: int, p: TextPos) -> bool {
  p.byte_offset == off(s, i) && p.line == lnum(s, i) && is_col(line_text(s, i), line_off(s, i), p.column as int)
}

// ---- the line table
pub open spec fn nxt(s: Seq<char>, e: int) -> int { if s[e] == '\r' && e + 1 < s.len() && s[e + 1] == '\n' { e + 2 } else { e + 1 } }
/// Where line j begins.
pub open spec fn lst(s: Seq<char>, j: int) -> int decreases j { if j <= 0 { 0 } else { nxt(s, lend(s, lst(s, j - 1))) } }
/// The entry of line j.
pub open spec fn ent(s: Seq<char>, x: (usize, usize), j: int) -> bool {
  0 <= lst(s, j) <= lend(s, lst(s, j)) <= s.len() && x.0 == off(s, lst(s, j)) && x.1 == off(s, lend(s, lst(s, j)))
}
/// The lines ended so far.
pub open spec fn tab_open(s: Seq<char>, lr: Seq<(usize, usize)>) -> bool {
  forall|j: int| #![trigger lr[j]] 0 <= j < lr.len() ==> ent(s, lr[j], j) && lend(s, lst(s, j)) < s.len()
}
/// All lines.
pub open spec fn tab_ok(s: Seq<char>, lr: Seq<(usize, usize)>) -> bool {
  lr.len() > 0 && lend(s, lst(s, lr.len() - 1)) == s.len()
  && forall|j: int| #![trigger lr[j]] 0 <= j < lr.len() ==> ent(s, lr[j], j) && (j < lr.len() - 1 ==> lend(s, lst(s, j)) < s.len())
}
pub proof fn lemma_lend(s: Seq<char>, a: int, c: int)
  requires 0 <= a <= c <= s.len(), forall|k: int| a <= k < c ==> !term(#[trigger] s[k]), c == s.len() || term(s[c])
  ensures lend(s, a) == c
  decreases c - a
{ if a < c { lemma_lend(s, a + 1, c); } }
pub proof fn lemma_lend_props(s: Seq<char>, a: int)
  requires 0 <= a <= s.len()
  ensures a <= lend(s, a) <= s.len(), forall|k: int| a <= k < lend(s, a) ==> !term(#[trigger] s[k]), lend(s, a) < s.len() ==> term(s[lend(s, a)])
  decreases s.len() - a
{ if a < s.len() && !term(s[a]) { lemma_lend_props(s, a + 1); } }
/// Within a line.
pub proof fn lemma_in_line(s: Seq<char>, a: int, i: int)
  requires 0 <= a <= i <= s.len(), a == 0 || nl(s, a - 1), i <= lend(s, a) || (lend(s, a) < s.len() && i < nxt(s, lend(s, a)))
  ensures lnum(s, i) == lnum(s, a), lstart(s, i) == a
  decreases i - a
{
  lemma_lend_props(s, a);
  if a < i { lemma_in_line(s, a, i - 1); }
}
pub proof fn lemma_line_start(s: Seq<char>, lr: Seq<(usize, usize)>, j: int)
  requires tab_ok(s, lr), 0 <= j < lr.len()
  ensures lnum(s, lst(s, j)) == j, lst(s, j) == 0 || nl(s, lst(s, j) - 1)
  decreases j
{
  if j > 0 {
    let a = lst(s, j - 1);
    lemma_line_start(s, lr, j - 1);
    let x = lr[j - 1];
    let y = lr[j];
    let e = lend(s, a);
    lemma_lend_props(s, a);
    lemma_in_line(s, a, nxt(s, e) - 1);
  }
}

/// The j-th entry is the line of i.
pub open spec fn here(s: Seq<char>, lr: Seq<(usize, usize)>, i: int, j: int) -> bool {
  lst(s, j) <= i && (if j < lr.len() - 1 { i < lst(s, j + 1) } else { i <= s.len() })
}
pub proof fn lemma_lines(s: Seq<char>, lr: Seq<(usize, usize)>, i: int)
  requires tab_ok(s, lr), 0 <= i <= s.len()
  ensures forall|j: int| #![trigger lr[j]] 0 <= j < lr.len() && vx_id(lr[j]) && here(s, lr, i, j) ==> lnum(s, i) == j && lstart(s, i) == lst(s, j),
{
  assert forall|j: int| #![trigger lr[j]] 0 <= j < lr.len() && vx_id(lr[j]) && here(s, lr, i, j) implies lnum(s, i) == j && lstart(s, i) == lst(s, j) by {
    let x = lr[j];
    lemma_line_start(s, lr, j);
    lemma_lend_props(s, lst(s, j));
    lemma_in_line(s, lst(s, j), i);
  }
}
pub proof fn lemma_table(s: Seq<char>, lr: Seq<(usize, usize)>, i: int)
  requires tab_ok(s, lr), 0 <= i <= s.len()
  ensures
    // in terms of byte offsets
    forall|j: int| #![trigger lr[j]] 0 <= j < lr.len() ==> is_b(s, lr[j].0 as int) && is_b(s, lr[j].1 as int) && lr[j].0 <= lr[j].1 && idx(s, lr[j].0 as int) == lst(s, j) && idx(s, lr[j].1 as int) == lend(s, lst(s, j))
      && (lr[j].0 <= off(s, i)) == (lst(s, j) <= i) && (off(s, i) <= lr[j].1) == (i <= lend(s, lst(s, j))),
    forall|i: int, j: int| #![trigger lr[i], lr[j]] 0 <= i < j < lr.len() ==> lr[i].1 < lr[j].0,
    lr[0].0 == 0, lr.last().1 == off(s, s.len() as int), off(s, i) <= off(s, s.len() as int),
{
  assert forall|j: int| #![trigger lr[j]] 0 <= j < lr.len() implies is_b(s, lr[j].0 as int) && is_b(s, lr[j].1 as int) && lr[j].0 <= lr[j].1 && idx(s, lr[j].0 as int) == lst(s, j) && idx(s, lr[j].1 as int) == lend(s, lst(s, j))
      && (lr[j].0 <= off(s, i)) == (lst(s, j) <= i) && (off(s, i) <= lr[j].1) == (i <= lend(s, lst(s, j))) by {
    let (a, e) = (lst(s, j), lend(s, lst(s, j)));
    let x = lr[j];
    lemma_idx(s, a); lemma_idx(s, e);
    lemma_off_mono(s, a, e);
    if a <= i { lemma_off_mono(s, a, i); } else { lemma_off_mono(s, i, a); }
    if i <= e { lemma_off_mono(s, i, e); } else { lemma_off_mono(s, e, i); }
  }
  assert forall|j: int| #![trigger lr[j]] 0 <= j < lr.len() - 1 implies lr[j].1 < lr[j + 1].0 by {
    let (x, y) = (lr[j], lr[j + 1]);
    lemma_off_mono(s, lend(s, lst(s, j)), lst(s, j + 1));
  }
  assert forall|i: int, j: int| #![trigger lr[i], lr[j]] 0 <= i < j < lr.len() implies lr[i].1 < lr[j].0 by { lemma_sorted(lr, i, j); }
  lemma_off_mono(s, i, s.len() as int);
}
/// The table is in order.
pub proof fn lemma_sorted(lr: Seq<(usize, usize)>, i: int, j: int)
  requires forall|j: int| #![trigger lr[j]] 0 <= j < lr.len() ==> lr[j].0 <= lr[j].1, forall|j: int| #![trigger lr[j]] 0 <= j < lr.len() - 1 ==> lr[j].1 < lr[j + 1].0, 0 <= i < j < lr.len()
  ensures lr[i].1 < lr[j].0
  decreases j
{ if i < j - 1 { lemma_sorted(lr, i, j - 1); assert(lr[j - 1].1 < lr[j - 1 + 1].0); } }

// ---- ranges
pub open spec fn txt(b: Buffer) -> Seq<char> { b.0.text@ }
pub open spec fn buf_wf(b: Buffer) -> bool { tab_ok(b.0.text@, b.0.line_ranges@) }
pub open spec fn r_wf(r: BufferRange) -> bool {
  buf_wf(r.buf) && r.start_index <= r.end_index && is_b(txt(r.buf), r.start_index as int) && is_b(txt(r.buf), r.end_index as int)
}
pub open spec fn first(r: BufferRange) -> int { idx(txt(r.buf), r.start_index as int) }
pub open spec fn past(r: BufferRange) -> int { idx(txt(r.buf), r.end_index as int) }
/// The text a range shows.
pub open spec fn shown(r: BufferRange) -> Seq<char> { txt(r.buf).subrange(first(r), past(r)) }
pub open spec fn at(r: BufferRange, k: int) -> nat { off(shown(r), k) }
pub proof fn lemma_at(r: BufferRange, k: int)
  requires r_wf(r), 0 <= k <= shown(r).len()
  ensures at(r, k) == off(txt(r.buf), first(r) + k) - r.start_index, is_b(txt(r.buf), off(txt(r.buf), first(r) + k) as int), idx(txt(r.buf), off(txt(r.buf), first(r) + k) as int) == first(r) + k
{ lemma_rng(r); lemma_off_sub(txt(r.buf), first(r), past(r), k); lemma_idx(txt(r.buf), first(r) + k); }
pub proof fn lemma_rng(r: BufferRange)
  requires r_wf(r)
  ensures 0 <= first(r) <= past(r) <= txt(r.buf).len(), off(txt(r.buf), first(r)) == r.start_index, off(txt(r.buf), past(r)) == r.end_index,
    shown(r).len() == past(r) - first(r), (first(r) == past(r)) == (r.start_index == r.end_index)
{
  let t = txt(r.buf);
  let i = choose|i: int| 0 <= i <= t.len() && #[trigger] off(t, i) == r.start_index as int;
  let j = choose|i: int| 0 <= i <= t.len() && #[trigger] off(t, i) == r.end_index as int;
  if j < i { lemma_off_mono(t, j, i); }
}
/// Reading one character more.
pub proof fn lemma_rest(a: BufferRange, n: int, b: BufferRange, c: BufferRange)
  requires r_wf(a), r_wf(b), r_wf(c), 0 <= n < shown(a).len(), rest(a, n, b), rest(b, 1, c)
  ensures rest(a, n + 1, c)
{ assert(shown(a).skip(n).skip(1) =~= shown(a).skip(n + 1)); }
/// b is what is left of a after its first n characters.
pub open spec fn rest(a: BufferRange, n: int, b: BufferRange) -> bool {
  b.buf == a.buf && b.end_index == a.end_index && first(b) == first(a) + n && shown(b) == shown(a).skip(n)
}
/// Reading a character from a gives c and leaves b.
pub open spec fn reads(a: BufferRange, c: Option<char>, b: BufferRange) -> bool {
  match c { Some(c) => shown(a).len() > 0 && c == shown(a)[0] && rest(a, 1, b), None => shown(a).len() == 0 && b == a }
}
/// Advancing a by n characters gives t and leaves b.
pub open spec fn takes(a: BufferRange, n: int, t: Option<&str>, b: BufferRange) -> bool {
  match t { Some(t) => shown(a).len() >= n && t@ == shown(a).take(n) && rest(a, n, b), None => shown(a).len() < n && b == a }
}

pub proof fn lemma_push(s: Seq<char>, lr: Seq<(usize, usize)>, c: int)
  requires tab_open(s, lr), 0 <= lst(s, lr.len() as int) <= c <= s.len(), lend(s, lst(s, lr.len() as int)) == c, off(s, c) <= usize::MAX
  ensures
    c < s.len() ==> tab_open(s, lr.push((off(s, lst(s, lr.len() as int)) as usize, off(s, c) as usize))),
    c == s.len() ==> tab_ok(s, lr.push((off(s, lst(s, lr.len() as int)) as usize, off(s, c) as usize)))
{
  let x = lst(s, lr.len() as int);
  lemma_off_mono(s, x, c);
  let l2 = lr.push((off(s, x) as usize, off(s, c) as usize));
  assert forall|j: int| #![trigger l2[j]] 0 <= j < l2.len() implies ent(s, l2[j], j) && (j < l2.len() - 1 || c < s.len() ==> lend(s, lst(s, j)) < s.len()) by {
    if j < lr.len() { let y = lr[j]; }
  }
}
@fn src/utils/buffer.rs BufferRange::new -> r
  ensures r_wf(r), exists|t: &str| #[trigger] text.vx_ar(t) && shown(r) == t@ && txt(r.buf) == t@
.before_loop 1
  let ghost s = text@;
.loop 1
  invariant_except_break
    tab_open(s, line_ranges@),
  invariant
    text@ == s, char_iter@.len() <= s.len(), char_iter@ == ch_ix(s).skip(s.len() - char_iter@.len()),
    off(s, s.len() as int) <= usize::MAX,
    0 <= lst(s, line_ranges@.len() as int) <= s.len() - char_iter@.len(),
    forall|k: int| lst(s, line_ranges@.len() as int) <= k < s.len() - char_iter@.len() ==> !term(#[trigger] s[k]),
    match line_start { Some(x) => x == off(s, lst(s, line_ranges@.len() as int)), None => lst(s, line_ranges@.len() as int) == s.len() - char_iter@.len() },
  ensures tab_ok(s, line_ranges@)
  decreases char_iter@.len()
.loop_start 1
  let ghost c = s.len() - char_iter@.len();
  proof {
    lemma_off_mono(s, c, s.len() as int);
    if c == s.len() || term(s[c]) { lemma_lend(s, lst(s, line_ranges@.len() as int), c); lemma_push(s, line_ranges@, c); }
    if c < s.len() { assert(ch_ix(s).skip(c).skip(1) =~= ch_ix(s).skip(c + 1)); assert(ch_ix(s).skip(c)[0] == (off(s, c) as usize, s[c])); lemma_off_mono(s, c + 1, s.len() as int); }
    if c + 1 < s.len() { assert(ch_ix(s).skip(c + 1).skip(1) =~= ch_ix(s).skip(c + 2)); assert(ch_ix(s).skip(c + 1)[0] == (off(s, c + 1) as usize, s[c + 1])); }
  }
.end
  proof { lemma_idx(vx_tail.buf.0.text@, 0); lemma_idx(vx_tail.buf.0.text@, vx_tail.buf.0.text@.len() as int); assert(vx_tail.buf.0.text@.subrange(0, vx_tail.buf.0.text@.len() as int) =~= vx_tail.buf.0.text@); }
@end
@fn src/utils/buffer.rs BufferRange::as_str -> r
  requires r_wf(*self)
  ensures r@ == shown(*self)
@end
@fn src/utils/buffer.rs BufferRange::byte_len -> r
  requires r_wf(*self)
  ensures r == off(shown(*self), shown(*self).len() as int)
.start
  proof { lemma_rng(*self); lemma_at(*self, shown(*self).len() as int); }
@end
@fn src/utils/buffer.rs BufferRange::empty -> r
  requires r_wf(*self)
  ensures r == (shown(*self).len() == 0)
.start
  proof { lemma_rng(*self); }
@end
@fn src/utils/buffer.rs BufferRange::read_char_mut -> r
  requires r_wf(*old(self))
  ensures r_wf(*final(self)), reads(*old(self), r, *final(self))
.start
  proof {
    lemma_rng(*self);
    lemma_at(*self, 0);
    if shown(*self).len() > 0 { lemma_at(*self, 1); lemma_off_mono(txt(self.buf), first(*self) + 1, past(*self)); }
  }
.end
  proof {
    lemma_rng(*self);
    if shown(*old(self)).len() > 0 { assert(shown(*self) =~= shown(*old(self)).skip(1)); }
  }
@end
@fn src/utils/buffer.rs BufferRange::read_char -> r
  requires r_wf(*self)
  ensures match r {
    Some(p) => r_wf(p.1) && reads(*self, Some(p.0), p.1),
    None => shown(*self).len() == 0,
  }
.desugar map
@end
@fn src/utils/buffer.rs BufferRange::advance_n_mut -> r
  requires r_wf(*old(self))
  ensures r_wf(*final(self)), takes(*old(self), n as int, r, *final(self))
.start
  proof { lemma_rng(*self); if n <= shown(*self).len() { lemma_at(*self, n as int); lemma_off_mono(txt(self.buf), first(*self), first(*self) + n); } assert(shown(*self).skip(0) =~= shown(*self)); }
.loop_start 1
  let ghost b = *self;
.loop_end 1
  proof { lemma_rng(b); lemma_rest(*old(self), vx_n1 - 1, b, *self); }
.loop 1
  invariant
    r_wf(*self), vx_n1 <= shown(*old(self)).len(), rest(*old(self), vx_n1 as int, *self),
    r_wf(*old(self)), old_start == old(self).start_index,
.end
  proof { assert(txt(old(self).buf).subrange(first(*old(self)), first(*old(self)) + n) =~= shown(*old(self)).take(n as int)); }
@end
@fn src/utils/buffer.rs BufferRange::advance_n -> r
  requires r_wf(*self)
  ensures match r {
    Some(p) => r_wf(p.1) && takes(*self, n as int, Some(p.0), p.1),
    None => shown(*self).len() < n,
  }
.start
  proof { lemma_rng(*self); if n <= shown(*self).len() { lemma_at(*self, n as int); lemma_off_mono(txt(self.buf), first(*self), first(*self) + n); assert(txt(self.buf).subrange(first(*self), first(*self) + n) =~= shown(*self).take(n as int)); } }
@end
@fn src/utils/buffer.rs Buffer::ref_eq -> r
  ensures r ==> *self == *other
@end
@fn src/utils/buffer.rs BufferRange::remove_suffix -> r
  requires r_wf(*self), r_wf(*suffix), self.end_index == suffix.end_index, self.start_index <= suffix.start_index
  ensures r_wf(r), r.buf == self.buf, first(r) == first(*self), past(r) == first(*suffix), shown(*self) == shown(r) + shown(*suffix)
.refuse 1
.end
  proof { lemma_rng(*self); lemma_rng(*suffix); lemma_rng(vx_tail); lemma_off_mono(txt(self.buf), first(*self), first(*suffix)); assert(shown(*self) =~= shown(vx_tail) + shown(*suffix)); }
@end
@fn src/utils/buffer.rs BufferRangeKey::as_str -> r
  requires r_wf(self.0)
  ensures r@ == shown(self.0)
@end
@fn src/utils/buffer.rs Buffer::get_line_str_from_byte_offset -> r
  requires buf_wf(*self), is_b(txt(*self), byte_offset as int)
  ensures ({ let i = idx(txt(*self), byte_offset as int);
    &&& r.0@ == line_text(txt(*self), i)
    &&& r.1 == lnum(txt(*self), i)
    &&& r.2 == line_off(txt(*self), i)
  })
.desugar unwrap_or_else
.start
  let ghost s = txt(*self);
  let ghost i = idx(s, byte_offset as int);
  let ghost lr = self.0.line_ranges@;
  proof {
    assert(0 <= i <= s.len() && off(s, i) == byte_offset);
    lemma_off_mono(s, i, s.len() as int);
    lemma_table(s, lr, i);
    lemma_lines(s, lr, i);
  }
.before_let line
  proof {
    let k = line_range_index as int;
    if k + 1 < lr.len() { assert(lr[k].1 < lr[k + 1].0); }
    assert(here(s, lr, i, k));
    assert(lnum(s, i) == k && lstart(s, i) == lst(s, k));
  }
@end
@fn src/utils/buffer.rs Buffer::get_text_pos_from_byte_offset -> r
  requires buf_wf(*self), is_b(txt(*self), byte_offset as int)
  ensures pos_ok(txt(*self), idx(txt(*self), byte_offset as int), r)
.before_loop 1
  proof { ax_graphemes(line@, true); }
.loop 1
  invariant_except_break col_index == vx_n1
  invariant vx_s1.len() == graphemes(line@, true).len(), vx_s1.len() <= usize::MAX,
    forall|i: int| 0 <= i < vx_s1.len() ==> (#[trigger] vx_s1[i]).0 == graphemes(line@, true)[i],
    forall|i: int, j: int| 0 <= i < j < graphemes(line@, true).len() ==> graphemes(line@, true)[i] < graphemes(line@, true)[j],
    forall|i: int| 0 <= i < col_index ==> (#[trigger] graphemes(line@, true)[i]) < line_byte_offset,
  ensures is_col(line@, line_byte_offset as int, col_index as int)
@end
@fn src/utils/buffer.rs BufferRange::start_pos -> r
  requires r_wf(*self)
  ensures pos_ok(txt(self.buf), first(*self), r)
@end
@fn src/utils/buffer.rs BufferRange::end_pos -> r
  requires r_wf(*self)
  ensures pos_ok(txt(self.buf), past(*self), r)
@end
@fn src/utils/buffer.rs TextPos::line -> r
  ensures r == self.line
@end
@fn src/utils/buffer.rs TextPos::column -> r
  ensures r == self.column
@end
@fn src/utils/buffer.rs TextPos::byte_offset -> r
  ensures r == self.byte_offset
@end
} // verus!
