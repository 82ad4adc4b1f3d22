#[path = "../bg.rs"] mod bg;
use bg::*;
use bvh::{cfg::*, *};
use std::collections::BTreeSet;
fn main() {
    run("C05", "random sequences of builder calls, most of them describing invalid grammars (missing rules, rules without productions, unreachable nonterminals, repeated heads); non-trivial: invalid, or valid with at least two rules", 600000,
        |r, _| {
            let o = GenOpts { max_nts: 5, max_terms: 2, max_prods: 2, max_elems: 3, valid: false }.vary(r);
            let mut g = gen(r, &o);
            for _ in 0..r.below(3) { match r.below(5) {
                0 if !g.rules.is_empty() => { let k = r.below(g.rules.len()); g.rules.remove(k); }
                1 if !g.rules.is_empty() => { let k = r.below(g.rules.len()); g.rules[k].prods.clear(); }
                2 => g.start = r.below(6) as u8,
                3 if !g.rules.is_empty() => { let k = r.below(g.rules.len()); let mut d = g.rules[k].clone(); d.prods.truncate(1); if r.chance(1, 2) { d.head = r.below(5) as u8; } g.rules.push(d); }
                _ => {}
            } }
            if r.chance(1, 3) { let reach = g.reachable(); g.rules.retain(|x| reach.contains(&x.head)); }
            g
        },
        |g| !g.valid() || g.rules.len() > 1,
        |g| {
            let (u, n, p) = g.errors();
            let s = |x: &BTreeSet<u8>| x.iter().map(|t| Nt(*t)).collect::<BTreeSet<_>>();
            match try_build(g) {
                Ok(_) => ensure!(g.valid(), "invalid grammar accepted: unreachable {:?}, without rules {:?}, without productions {:?}", u, n, p),
                Err(e) => {
                    ensure!(!g.valid(), "valid grammar rejected: {:?}", e);
                    let [eu, en, ep] = e.verif_parts();
                    ensure_eq!(*eu, s(&u), "reported unreachable nonterminals");
                    ensure_eq!(*en, s(&n), "reported nonterminals without rules");
                    ensure_eq!(*ep, s(&p), "reported rules without productions");
                }
            }
            Ok(1)
        });
}
