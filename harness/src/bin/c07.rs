#[path = "../bg.rs"] mod bg;
use bg::*;
use bvh::{cfg::*, *};
use bongo::grammar::{passes::{nullable::Nullable, PassContext}, transform::nonnull::transform_to_nonnull};
use std::collections::BTreeMap;
/// A grammar in which one production has many nullable occurrences.
fn many(r: &mut Rng, o: &GenOpts) -> G {
    for _ in 0..50 {
        let mut g = gen_unambiguous_null(r, o);
        let n: Vec<u8> = g.nullable().into_iter().collect();
        if n.is_empty() { continue; }
        let h = r.below(g.rules.len());
        let q = r.below(g.rules[h].prods.len());
        for _ in 0..r.range(4, 7) { let x = n[r.below(n.len())]; let nm = if r.chance(1, 3) { Some(r.below(4) as u8) } else { None }; let es = &mut g.rules[h].prods[q].elems; let at = r.below(es.len() + 1); es.insert(at, (nm, Sym::N(x))); }
        if g.valid() && !g.nullable_ambiguous() { return g; }
    }
    gen_unambiguous_null(r, o)
}
fn main() {
    let cur = curated();
    run("C07", "random grammars biased towards empty productions; every rule of the result is compared with the expected variants (elements, names, keys, values, empty-derivation trees), and the languages of original and result are compared on all strings up to length 3; non-trivial: some production has a nullable occurrence", 150000,
        |r, i| if (i as usize) < cur.len() { cur[i as usize].clone() } else { let o = GenOpts { max_nts: 4, max_terms: 2, max_prods: 3, max_elems: 4, valid: true }; if r.chance(1, 48) { many(r, &o) } else if r.chance(7, 8) { gen_unambiguous_null(r, &o) } else { gen(r, &o) } },
        |g| { let n = g.nullable(); g.rules.iter().any(|r| r.prods.iter().any(|p| p.elems.iter().any(|e| matches!(e.1, Sym::N(x) if n.contains(&x))))) },
        |g| {
            let b = must_build(g)?;
            let r = transform_to_nonnull(&b);
            let only_empty = g.map().values().any(|ps| ps.iter().all(|p| p.elems.is_empty()));
            if g.nullable_ambiguous() || only_empty { ensure!(r.is_err(), "the transform should have failed"); return Ok(1); }
            let t = r.map_err(|e| format!("unexpected failure: {}", e))?;
            let nul = g.nullable();
            let ctx = PassContext::new(&b);
            let info = ctx.get_pass::<Nullable<Nt, Ak>>().map_err(|_| "nullable pass failed")?;
            ensure_eq!(*t.start_nt(), Nt(g.start), "start");
            ensure_eq!(t.rules().map(|r| *r.head()).collect::<Vec<_>>(), g.map().keys().map(|k| Nt(*k)).collect::<Vec<_>>(), "rule heads");
            let mut plain = vec![];
            for (h, ps) in g.map() {
                let mut want = vec![];
                for p in &ps {
                    let occ: Vec<usize> = (0..p.elems.len()).filter(|i| matches!(p.elems[*i].1, Sym::N(x) if nul.contains(&x))).collect();
                    for mask in 0..1u32 << occ.len() {
                        let out: Vec<usize> = occ.iter().enumerate().filter(|(k, _)| mask >> k & 1 == 1).map(|(_, i)| *i).collect();
                        let elems: Vec<_> = (0..p.elems.len()).filter(|i| !out.contains(i)).map(|i| p.elems[i]).collect();
                        if elems.is_empty() { continue; }
                        let flags: Vec<bool> = (0..p.elems.len()).filter(|i| matches!(p.elems[*i].1, Sym::N(_))).map(|i| out.contains(&i)).collect();
                        let mut args = BTreeMap::new();
                        for i in &out { if let (Some(n), Sym::N(x)) = p.elems[*i] { args.insert(name(n), format!("{:?}", info.get_nullable_info().get_nullable_action(&Nt(x)).ok_or("no tree")?)); } }
                        want.push((p.key, flags, p.val, format!("{:?}", args), format!("{:?}", elems.iter().map(|e| (e.0.map(name), elem(e.1))).collect::<Vec<_>>())));
                    }
                }
                let mut got = vec![];
                let mut pp = vec![];
                for bp in t.get_rule(&Nt(h)).prods() {
                    let (ak, fl) = bp.action_key().verif_parts();
                    let (av, args) = bp.action_value().verif_parts();
                    let args: BTreeMap<_, _> = args.iter().map(|(k, v)| (k.clone(), format!("{:?}", v))).collect();
                    got.push((ak.0, fl.to_vec(), av.0, format!("{:?}", args), format!("{:?}", bp.prod_elements().iter().map(|e| (e.id().cloned(), e.elem().clone())).collect::<Vec<_>>())));
                    pp.push(P { key: 0, val: 0, elems: bp.elements().map(|e| (None, match e { bongo::grammar::Elem::Term(t) => Sym::T(t.0), bongo::grammar::Elem::NonTerm(n) => Sym::N(n.0) })).collect() });
                }
                plain.push(R { head: h, prods: pp });
                want.sort(); got.sort();
                ensure_eq!(got, want, "variants of {:?}", Sym::N(h));
            }
            let tg = G { start: g.start, rules: plain };
            let terms: Vec<u8> = g.terms().into_iter().collect();
            for w in strings(&terms, 3) {
                let (a, c) = (g.spans(&w), tg.spans(&w));
                for h in g.map().keys() { ensure_eq!(c.has(*h, 0, w.len()), a.has(*h, 0, w.len()) && !w.is_empty(), "language of {:?} on {:?}", Sym::N(*h), w); }
            }
            Ok(1)
        });
}
