@include ../lib/std.rs
verus! {
@type src/utils.rs Name derive=Clone,PartialEq,Eq,PartialOrd,Ord,Hash
/// The text a name shows.
pub open spec fn text(n: Name) -> Seq<char> { (*n.0)@ }
/// Names are their texts.
pub axiom fn ax_name_ext(a: Name, b: Name)
  requires text(a) == text(b)
  ensures a == b;
pub open spec fn name_of(s: Seq<char>) -> Name { choose|n: Name| text(n) == s }
@fn src/utils.rs Name::new -> r
  ensures exists|t: &str| #[trigger] s.vx_ar(t) && text(r) == t@
@end
@fn src/utils.rs Name::str -> r
  ensures r@ == text(*self)
@end
@fn src/utils.rs Name::make_mut -> r
  ensures r@ == text(*old(self)), text(*final(self)) == final(r)@
@end
@impl src/utils.rs AsRef<str> for Name
  open spec fn vx_ar(&self, r: &str) -> bool { r@ == text(*self) }
@method as_ref -> r
@end
/// A client: a clone shows the same text; writing through either leaves the other alone.
fn client(n: Name, s: String, t: String) {
  let ghost x = text(n);
  let mut n = n;
  let mut m = n.vx_clone();
  assert(text(m) == x);
  let r = m.make_mut();
  *r = s;
  assert(text(n) == x && text(m) == s@);
  let k = m.vx_clone();
  let r = n.make_mut();
  *r = t;
  assert(text(n) == t@ && text(m) == s@ && text(k) == s@);
}
} // verus!
