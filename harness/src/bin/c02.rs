#[path = "../bg.rs"] mod bg;
use bg::*;
use bvh::{cfg::*, *};
use bongo::parsers::{earley, tree::{Node, NodeContent, TreeOwner}, Token};
use bongo::start_grammar::wrap_grammar_with_start;
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
struct C { g: G, len: usize, extra: Vec<Vec<u8>> }
fn read(root: &Node<Tk, Ak, u32>) -> Forest {
    let mut ids: BTreeMap<Node<Tk, Ak, u32>, usize> = BTreeMap::new();
    let mut f = Forest { nodes: vec![vec![]], root: 0 };
    let mut work = vec![root.clone()];
    ids.insert(root.clone(), 0);
    while let Some(n) = work.pop() {
        let mut v = vec![];
        for a in n.alts() {
            match a.content() {
                NodeContent::Leaf(l) => v.push(Alt::Leaf(l.kind().0, *l.value())),
                NodeContent::Branch(b) => {
                    let ch: Vec<_> = b.nodes().collect();
                    let mut c = vec![];
                    for x in ch { let id = match ids.get(&x) { Some(i) => *i, None => { f.nodes.push(vec![]); ids.insert(x.clone(), f.nodes.len() - 1); work.push(x); f.nodes.len() - 1 } }; c.push(id); }
                    v.push(Alt::Branch(b.action().0, c));
                }
            }
        }
        f.nodes[ids[&n]] = v;
    }
    f
}
fn main() {
    let cur = curated();
    run("C02", "grammars: curated plus random; for each, every token string up to the stated length plus random sentences; the returned forest is compared, node by node up to bisimilarity and without repeated alternatives, with the packed forest computed from the grammar; non-trivial: some tried string is ambiguous", 40000,
        |r, i| {
            let g = if (i as usize) < cur.len() { cur[i as usize].clone() } else if r.chance(2, 3) { { let o = if r.chance(1, 40) { GenOpts { max_nts: 5, max_terms: 2, max_prods: 4, max_elems: 5, valid: true } } else { GenOpts { max_nts: 3, max_terms: 2, max_prods: 3, max_elems: 3, valid: true } }; gen(r, &o) } } else { gen(r, &GenOpts::default()) };
            let nt = g.terms().len().max(1);
            let len = if nt == 1 { 4 } else if nt == 2 { 3 } else { 2 };
            let mut extra: Vec<Vec<u8>> = (0..6).filter_map(|_| sentence(&g, r, 6)).filter(|s| s.len() <= 8).collect();
            if r.chance(1, 8) { extra.extend(sentence(&g, r, 9).filter(|s| s.len() <= 11)); }
            C { g, len, extra }
        },
        |c| { let t: Vec<u8> = c.g.terms().into_iter().collect(); strings(&t, 3).into_iter().chain(c.extra.iter().cloned()).any(|w| c.g.forest(&w.iter().map(|k| (*k, 0)).collect::<Vec<_>>()).map_or(false, |f| f.nodes.iter().any(|n| n.len() > 1))) },
        |c| {
            let g = must_build(&c.g)?;
            let sg = wrap_grammar_with_start(g).map_err(|e| format!("wrapping failed: {:?}", e))?;
            let t: Vec<u8> = c.g.terms().into_iter().collect();
            let mut ws = strings(&t, c.len);
            ws.extend(c.extra.iter().cloned());
            let mut n = 0;
            for w in ws {
                for same in [false, true] {
                    let wv: Vec<(u8, u32)> = w.iter().enumerate().map(|(i, k)| (*k, if same { 7 } else { i as u32 })).collect();
                    let want = match c.g.forest(&wv) { Some(f) => f, None => continue };
                    let tree = TreeOwner::<Tk, Ak, u32>::new();
                    let h = tree.handle();
                    let toks = wv.iter().map(|(k, v)| Token::new(Tk(*k), *v)).collect::<Vec<_>>();
                    let node = match earley::parse(&sg, &h, toks) { Some(n) => n, None => return Err(format!("sentence {:?} not accepted", w)) };
                    read(&node).same(&want).map_err(|e| format!("parse of {:?}: {}", wv, e))?;
                    n += 1;
                }
            }
            Ok(n)
        });
}
