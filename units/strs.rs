// Model of strings as the sequences of their characters, with byte offsets.  Trusted (see DESIGN.md).
pub open spec fn ch_len(c: char) -> nat { if (c as u32) < 0x80 { 1 } else if (c as u32) < 0x800 { 2 } else if (c as u32) < 0x10000 { 3 } else { 4 } }
/// The number of bytes of the first i characters.
pub open spec fn off(s: Seq<char>, i: int) -> nat decreases i { if i <= 0 { 0 } else { off(s, i - 1) + ch_len(s[i - 1]) } }
/// A byte offset between two characters.
pub open spec fn is_b(s: Seq<char>, b: int) -> bool { exists|i: int| 0 <= i <= s.len() && #[trigger] off(s, i) == b }
/// The number of characters before it.
pub open spec fn idx(s: Seq<char>, b: int) -> int { choose|i: int| 0 <= i <= s.len() && #[trigger] off(s, i) == b }
pub proof fn lemma_off_mono(s: Seq<char>, i: int, j: int)
  requires 0 <= i <= j
  ensures off(s, i) + (j - i) <= off(s, j), i < j ==> off(s, i) < off(s, j)
  decreases j
{ if i < j { lemma_off_mono(s, i, j - 1); } }
pub broadcast proof fn lemma_idx(s: Seq<char>, i: int)
  requires 0 <= i <= s.len()
  ensures idx(s, #[trigger] off(s, i) as int) == i, is_b(s, off(s, i) as int)
{
  let b = off(s, i) as int;
  let j = idx(s, b);
  assert(0 <= j <= s.len() && off(s, j) == b);
  if i < j { lemma_off_mono(s, i, j); }
  if j < i { lemma_off_mono(s, j, i); }
}
pub proof fn lemma_off_sub(s: Seq<char>, a: int, b: int, i: int)
  requires 0 <= a <= b <= s.len(), 0 <= i <= b - a
  ensures off(s.subrange(a, b), i) == off(s, a + i) - off(s, a)
  decreases i
{ if i > 0 { lemma_off_sub(s, a, b, i - 1); } }
/// Where the grapheme clusters of a text begin, as the unicode-segmentation crate sees them.
pub uninterp spec fn graphemes(s: Seq<char>, extended: bool) -> Seq<usize>;
pub axiom fn ax_graphemes(s: Seq<char>, extended: bool)
  ensures forall|i: int, j: int| 0 <= i < j < graphemes(s, extended).len() ==> graphemes(s, extended)[i] < graphemes(s, extended)[j];
pub open spec fn ch_ix(s: Seq<char>) -> Seq<(usize, char)> { Seq::new(s.len(), |i: int| (off(s, i) as usize, s[i])) }
pub trait VxText {
  spec fn tx(&self) -> Seq<char>;
  fn vx_char_indices(&self) -> (r: It<(usize, char)>)
    ensures off(self.tx(), self.tx().len() as int) <= usize::MAX, r@ == ch_ix(self.tx());
  fn vx_grapheme_indices(&self, extended: bool) -> (r: It<(usize, &str)>)
    ensures r@.len() == graphemes(self.tx(), extended).len(), r@.len() <= usize::MAX,
      forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0 == graphemes(self.tx(), extended)[i];
  fn vx_range(&self, a: usize, b: usize) -> (r: &str)
    requires a <= b, is_b(self.tx(), a as int), is_b(self.tx(), b as int)
    ensures r@ == self.tx().subrange(idx(self.tx(), a as int), idx(self.tx(), b as int));
}
impl VxText for String {
  open spec fn tx(&self) -> Seq<char> { self@ }
  #[verifier::external_body] fn vx_char_indices(&self) -> (r: It<(usize, char)>) { unimplemented!() }
  #[verifier::external_body] fn vx_grapheme_indices(&self, extended: bool) -> (r: It<(usize, &str)>) { unimplemented!() }
  #[verifier::external_body] fn vx_range(&self, a: usize, b: usize) -> (r: &str) { unimplemented!() }
}
impl VxText for str {
  open spec fn tx(&self) -> Seq<char> { self@ }
  #[verifier::external_body] fn vx_char_indices(&self) -> (r: It<(usize, char)>) { unimplemented!() }
  #[verifier::external_body] fn vx_grapheme_indices(&self, extended: bool) -> (r: It<(usize, &str)>) { unimplemented!() }
  #[verifier::external_body] fn vx_range(&self, a: usize, b: usize) -> (r: &str) { unimplemented!() }
}
pub assume_specification [String::len] (s: &String) -> (r: usize) ensures r == off(s@, s@.len() as int);
#[verifier::external_body]
pub fn vx_ptr_eq<T>(a: &T, b: &T) -> (r: bool) ensures r ==> *a == *b { unimplemented!() }

// ---- binary search
pub open spec fn rank(o: std::cmp::Ordering) -> int { match o { std::cmp::Ordering::Less => 0, std::cmp::Ordering::Equal => 1, std::cmp::Ordering::Greater => 2 } }
pub open spec fn sorted_by<T, F: FnMut(&T) -> std::cmp::Ordering>(s: Seq<T>, f: F) -> bool {
  forall|i: int, j: int, a: std::cmp::Ordering, b: std::cmp::Ordering| 0 <= i < j < s.len() && #[trigger] call_ensures(f, (&s[i],), a) && #[trigger] call_ensures(f, (&s[j],), b) ==> rank(a) <= rank(b)
}
pub trait VxSearch<T> {
  fn vx_binary_search_by<F: FnMut(&T) -> std::cmp::Ordering>(&self, f: F) -> (r: Result<usize, usize>) where Self: View<V = Seq<T>>
    requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (&#[trigger] self@[i],))
    ensures match r {
      Ok(k) => k < self@.len() && call_ensures(f, (&self@[k as int],), std::cmp::Ordering::Equal),
      Err(k) => k <= self@.len() && (sorted_by(self@, f) ==>
        (forall|i: int| 0 <= i < k ==> call_ensures(f, (&#[trigger] self@[i],), std::cmp::Ordering::Less))
        && (forall|i: int| k <= i < self@.len() ==> call_ensures(f, (&#[trigger] self@[i],), std::cmp::Ordering::Greater))),
    };
}
impl<T> VxSearch<T> for Vec<T> { #[verifier::external_body] fn vx_binary_search_by<F: FnMut(&T) -> std::cmp::Ordering>(&self, f: F) -> (r: Result<usize, usize>) { unimplemented!() } }
