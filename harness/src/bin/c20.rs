#[path = "../bg.rs"] mod bg;
use bg::*;
use bvh::{cfg::*, *};
use bongo::grammar::passes::{follows::Follows, PassContext};
use std::collections::BTreeSet;
fn main() {
    let cur = curated();
    run("C20", "random grammars; compared with a naive least fixed point; non-trivial: some nonterminal is nullable", 400000,
        |r, i| if (i as usize) < cur.len() && !cur[i as usize].nullable_ambiguous() { cur[i as usize].clone() } else { { let o = GenOpts { max_nts: 6, max_terms: 4, max_prods: 3, max_elems: 4, valid: true }.vary(r); gen_unambiguous_null(r, &o) } },
        |g| !g.nullable().is_empty() && g.rules.len() > 1,
        |g| {
            let b = must_build(g)?;
            let ctx = PassContext::new(&b);
            let f = ctx.get_pass::<Follows<Tk, Nt>>().map_err(|e| format!("unexpected error {:?}", e))?;
            for (h, s) in g.follows() { ensure_eq!(f.verif_get(&Nt(h)).cloned().unwrap_or_default(), s.iter().map(|t| Tk(*t)).collect::<BTreeSet<_>>(), "FOLLOW of {:?}", Sym::N(h)); }
            Ok(1)
        });
}
