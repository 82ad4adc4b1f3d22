#[path = "../bg.rs"] mod bg;
use bg::*;
use bvh::{cfg::*, *};
use bongo::grammar::passes::{firsts::Firsts, PassContext};
use std::collections::BTreeSet;
fn main() {
    let cur = curated();
    run("C04", "random grammars; compared with a naive least fixed point; non-trivial: some nonterminal is nullable or left-recursive through another", 400000,
        |r, i| if (i as usize) < cur.len() && !cur[i as usize].nullable_ambiguous() { cur[i as usize].clone() } else { { let o = GenOpts { max_nts: 6, max_terms: 4, max_prods: 3, max_elems: 4, valid: true }.vary(r); gen_unambiguous_null(r, &o) } },
        |g| !g.nullable().is_empty() && g.rules.len() > 1,
        |g| {
            let b = must_build(g)?;
            let ctx = PassContext::new(&b);
            let f = ctx.get_pass::<Firsts<Tk, Nt>>().map_err(|e| format!("unexpected error {:?}", e))?;
            for (h, s) in g.firsts() { ensure_eq!(f.get(&Nt(h)).cloned().unwrap_or_default(), s.iter().map(|t| Tk(*t)).collect::<BTreeSet<_>>(), "FIRST of {:?}", Sym::N(h)); }
            ensure!(f.get(&Nt(99)).map_or(true, |s| s.is_empty()), "FIRST of a foreign nonterminal");
            Ok(1)
        });
}
