use bongo::parsers::{Token, TokenStream, VecTokenStream};
use bvh::*;
use std::sync::atomic::{AtomicUsize, Ordering};
static P: AtomicUsize = AtomicUsize::new(0);
/// Observes a token through the Earley parser: the root leaf's kind and value.
fn look(t: &Token<u8, u32>) -> Option<(u8, u32)> {
    use bongo::{grammar::build, parsers::{earley, tree::{NodeContent, TreeOwner}}, start_grammar::wrap_grammar_with_start};
    P.fetch_add(1, Ordering::Relaxed);
    for k in 0..4u8 {
        let g = build::<u8, u8, u8, u8>(0u8, |gb| { gb.add_rule(0u8, |rb| { rb.add_prod(0u8, 0u8, |pb| { pb.add_term(k); }); }); }).ok()?;
        let sg = wrap_grammar_with_start(g).ok()?;
        let o = TreeOwner::<u8, u8, u32>::new();
        let h = o.handle();
        let r = earley::parse(&sg, &h, vec![*t]);
        if let Some(n) = r {
            for a in n.alts() { if let NodeContent::Branch(b) = a.content() { for c in b.nodes() { for l in c.alts() { if let NodeContent::Leaf(l) = l.content() { return Some((l.kind(), *l.value())); } } } } }
        }
    }
    None
}
fn main() {
    run("C16", "random token vectors (0-8 tokens, some up to 150, one of 66000) and random reading orders over retained positions; non-trivial: at least two tokens and a position read twice", 10000,
        |r, i| ((0..if i == 0 { 66000 } else if r.below(40) == 0 { r.below(150) } else { r.below(9) }).map(|_| (r.below(4) as u8, r.below(50) as u32)).collect::<Vec<(u8, u32)>>(), (0..r.range(1, 14)).map(|_| r.below(16)).collect::<Vec<_>>()),
        |c| c.0.len() > 1 && c.1.len() > 3,
        |(toks, reads)| {
            let s = VecTokenStream::from_into_iter(shy(toks.iter().map(|(k, v)| Token::new(*k, *v)), toks.len() + reads.len()));
            let mut pool = vec![(s, 0usize)];
            for r in reads {
                let (s, at) = pool[r % pool.len()].clone();
                match s.next() {
                    None => ensure!(at >= toks.len(), "the stream ended at position {} of {}", at, toks.len()),
                    Some((t, n)) => { ensure!(at < toks.len(), "token after the end"); ensure_eq!(look(&t), Some(toks[at]), "token at position {}", at); pool.push((n, at + 1)); }
                }
            }
            let (mut s, mut i) = (pool[0].0.clone(), 0);
            while let Some((t, n)) = s.next() { ensure!(i < toks.len(), "too many tokens"); if i % 64 == 0 || toks.len() < 1000 { ensure_eq!(look(&t), Some(toks[i]), "token {}", i); } s = n; i += 1; }
            ensure_eq!(i, toks.len(), "number of tokens");
            ensure!(s.next().is_none() && s.clone().next().is_none(), "tokens after the end");
            Ok(1)
        });
}
