@include ../lib/std.rs
verus! {
@type src/parsers/mod.rs Token derive=Clone
@type src/parsers/mod.rs VecTokenStream derive=Clone
/// `ts_rest` is what the stream still has to yield.
@trait src/parsers/mod.rs TokenStream
  spec fn ts_wf(&self) -> bool;
  spec fn ts_rest(&self) -> Seq<Token<K, T>>;
@method next -> r
  requires self.ts_wf()
  ensures match r {
    Some((t, s)) => self.ts_rest().len() > 0 && t == self.ts_rest()[0] && s.ts_rest() == self.ts_rest().skip(1) && s.ts_wf(),
    None => self.ts_rest().len() == 0,
  }
@end
@impl src/parsers/mod.rs TokenStream for VecTokenStream
  open spec fn ts_wf(&self) -> bool { self.position <= self.tokens@.len() }
  open spec fn ts_rest(&self) -> Seq<Token<K, T>> { self.tokens@.skip(self.position as int) }
@method next -> r
@end
@fn src/parsers/mod.rs VecTokenStream::from_into_iter -> r
  ensures r.tokens@ == collection.vx_seq(), r.position == 0
@end
@fn src/parsers/mod.rs Token::new -> r
  ensures r.kind == kind, r.value == value
@end
/// What a user sees: the stream made from a collection yields exactly that collection.
pub fn vx_stream_of<K: Clone, T: Clone, C: VxIntoIterator<Item = Token<K, T>>>(c: C) -> (r: VecTokenStream<K, T>)
  ensures r.ts_wf(), r.ts_rest() == c.vx_seq()
{ let r = VecTokenStream::from_into_iter(c); assert(r.ts_rest() =~= c.vx_seq()); r }
} // verus!
