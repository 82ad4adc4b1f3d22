#[path = "../bg.rs"] mod bg;
use bg::*;
use bvh::{cfg::*, *};
use bongo::grammar::passes::{nullable::{Nullable, NullableError}, PassContext};
use bongo::grammar::ProdKey;
use bongo::utils::{TreeNode, TreeValue, Void};
use std::collections::{BTreeMap, BTreeSet};

type Tn = TreeNode<ProdKey<Nt, Ak>, Void>;
/// Expected tree, built from the grammar's own (unique) nullable production.
fn want(g: &G, bgm: &BG, x: u8, nul: &BTreeSet<u8>, depth: usize) -> Option<Tn> {
    if depth == 0 { return None; }
    let m = g.map();
    let k = m[&x].iter().position(|p| prod_nullable(p, nul))?;
    let p = &m[&x][k];
    let bp = bgm.get_rule(&Nt(x)).prods().nth(k)?;
    let mut f = BTreeMap::new();
    for (n, s) in &p.elems { if let (Some(n), Sym::N(y)) = (n, s) { f.insert(name(*n), TreeValue::Node(Box::new(want(g, bgm, *y, nul, depth - 1)?))); } }
    Some(TreeNode::new(bp.prod_key(), f))
}
fn main() {
    let cur = curated();
    run("C03", "random grammars biased towards empty productions; compared with a naive least fixed point; non-trivial: at least one nullable nonterminal", 400000,
        |r, i| if (i as usize) < cur.len() { cur[i as usize].clone() } else { let o = GenOpts { max_nts: 6, max_terms: 2, max_prods: 3, max_elems: 4, valid: true }.vary(r); if r.chance(3, 4) { gen_unambiguous_null(r, &o) } else { gen(r, &o) } },
        |g| !g.nullable().is_empty(),
        |g| {
            let b = must_build(g)?;
            let ctx = PassContext::new(&b);
            let (nul, amb) = (g.nullable(), g.nullable_ambiguous());
            match ctx.get_pass::<Nullable<Nt, Ak>>() {
                Err(NullableError::Ambiguity) => ensure!(amb, "ambiguity reported for a grammar without any"),
                Ok(n) => {
                    ensure!(!amb, "nullable ambiguity not reported");
                    for h in g.map().keys().copied().chain([77]) { ensure_eq!(n.is_nullable(&Nt(h)), nul.contains(&h), "is_nullable of {:?}", Sym::N(h)); }
                    ensure_eq!(n.get_nullable_set(), nul.iter().map(|x| Nt(*x)).collect::<BTreeSet<_>>(), "nullable set");
                    for (h, ps) in g.map() { for (k, p) in ps.iter().enumerate() {
                        let bp = b.get_rule(&Nt(h)).prods().nth(k).ok_or("missing production")?;
                        ensure_eq!(n.is_prod_nullable(&bp), prod_nullable(p, &nul), "nullability of production {} of {:?}", k, Sym::N(h));
                        ensure_eq!(n.get_nullable_info().is_prod_nullable(&bp), prod_nullable(p, &nul), "nullability of production {} of {:?}", k, Sym::N(h));
                    } }
                    for h in g.map().keys() {
                        let got = n.get_nullable_info().get_nullable_action(&Nt(*h));
                        if nul.contains(h) {
                            let w = want(g, &b, *h, &nul, 20).ok_or("no finite tree expected")?;
                            ensure!(got == Some(&w), "empty-derivation tree of {:?}: got {:?}, expected {:?}", Sym::N(*h), got, w);
                        } else { ensure!(got.is_none(), "{:?} has an empty-derivation tree", Sym::N(*h)); }
                    }
                }
            }
            Ok(1)
        });
}
