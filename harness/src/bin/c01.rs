#[path = "../bg.rs"] mod bg;
use bg::*;
use bvh::{cfg::*, *};
use bongo::parsers::{earley, tree::TreeOwner, Token};
use bongo::start_grammar::wrap_grammar_with_start;

#[derive(Clone, Debug)]
struct C { g: G, len: usize, extra: Vec<Vec<u8>> }
fn main() {
    let cur = curated();
    run("C01", "grammars: curated plus random (1-4 nonterminals, 1-3 terminals, 0-4 elements); for each, every token string up to the stated length plus random sentences and mutations; non-trivial: the grammar accepts at least one tried string and rejects another", 40000,
        |r, i| {
            let g = if (i as usize) < cur.len() { cur[i as usize].clone() } else if r.chance(2, 3) { { let o = if r.chance(1, 40) { GenOpts { max_nts: 5, max_terms: 2, max_prods: 4, max_elems: 5, valid: true } } else { GenOpts { max_nts: 3, max_terms: 2, max_prods: 3, max_elems: 3, valid: true } }; gen(r, &o) } } else { gen(r, &GenOpts::default()) };
            let nt = g.terms().len().max(1);
            let len = if nt == 1 { 5 } else if nt == 2 { 4 } else { 3 };
            let mut extra = vec![];
            for _ in 0..6 {
                let mut s = match sentence(&g, r, 7) { Some(s) if s.len() <= 9 => s, _ => (0..r.below(7)).map(|_| r.below(3) as u8).collect() };
                if r.chance(1, 3) && !s.is_empty() { let k = r.below(s.len()); match r.below(3) { 0 => { s.remove(k); } 1 => s[k] = r.below(3) as u8, _ => s.insert(k, r.below(3) as u8) } }
                extra.push(s);
            }
            if r.chance(1, 6) { extra.extend(sentence(&g, r, 12).filter(|s| s.len() <= 14)); }
            C { g, len, extra }
        },
        |c| { let mut t: Vec<u8> = c.g.terms().into_iter().collect(); t.push(7); let v: Vec<bool> = strings(&t, 2).iter().map(|w| c.g.accepts(w)).collect(); v.contains(&true) && v.contains(&false) },
        |c| {
            let g = must_build(&c.g)?;
            let sg = wrap_grammar_with_start(g).map_err(|e| format!("wrapping failed: {:?}", e))?;
            let t: Vec<u8> = c.g.terms().into_iter().collect();
            let mut ws = strings(&t, c.len);
            ws.extend(c.extra.iter().cloned());
            ws.push(vec![9]); ws.push(t.iter().copied().chain([9]).collect());
            let n = ws.len() as u64;
            for w in ws {
                let tree = TreeOwner::<Tk, Ak, u32>::new();
                let h = tree.handle();
                let toks = w.iter().enumerate().map(|(i, k)| Token::new(Tk(*k), i as u32)).collect::<Vec<_>>();
                let got = panics(|| earley::parse(&sg, &h, toks).is_some()).map_err(|p| format!("parse of {:?} panicked: {}", w, p))?;
                ensure_eq!(got, c.g.accepts(&w), "acceptance of {:?} (terminals by index)", w);
            }
            Ok(n)
        });
}
