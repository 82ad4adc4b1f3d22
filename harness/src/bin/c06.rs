#[path = "../bg.rs"] mod bg;
use bg::*;
use bvh::{cfg::*, *};
use bongo::grammar::{build, ProdElement};
use bongo::utils::Name;
fn pe(e: &(Option<u8>, Sym), how: usize) -> ProdElement<Tk, Nt> {
    match (e.0, how % 3) {
        (Some(n), 0) => ProdElement::new_with_name(name(n), elem(e.1)), (n, 1) => ProdElement::new(n.map(name), elem(e.1)),
        (None, 0) => ProdElement::new_empty(elem(e.1)), (None, _) => elem(e.1).into(), (Some(n), _) => ProdElement::new(Some(name(n)), elem(e.1)),
    }
}
fn main() {
    run("C06", "random valid grammars, built through both ways of adding productions, with repeated heads; every accessor of grammar, rules and productions is compared with the builder calls; non-trivial: a repeated head or a named element", 200000,
        |r, _| {
            let mut g = { let o = GenOpts::default().vary(r); gen(r, &o) };
            if r.chance(1, 2) { let k = r.below(g.rules.len()); let mut d = g.rules[k].clone(); for p in &mut d.prods { p.val += 100; } if r.chance(1, 2) { d.prods.reverse(); } let at = r.below(g.rules.len() + 1); g.rules.insert(at, d); }
            (g, r.below(6))
        },
        |(g, _)| g.norm() != *g || g.rules.iter().any(|r| r.prods.iter().any(|p| p.elems.iter().any(|e| e.0.is_some()))),
        |(g, how)| {
            let b = if *how < 3 { must_build(g)? } else {
                build(&Nt(g.start), |gb| {
                    for r in &g.rules { gb.add_rule(&Nt(r.head), |rb| {
                        for p in &r.prods { rb.add_prod_with_elems(&Ak(p.key), &Av(p.val), p.elems.iter().enumerate().map(|(i, e)| pe(e, how + i)).collect::<Vec<_>>()); }
                    }); }
                }).map_err(|e| format!("valid grammar rejected: {:?}", e))?
            };
            let m = g.map();
            ensure_eq!(*b.start_nt(), Nt(g.start), "start");
            ensure_eq!(b.rules().map(|r| *r.head()).collect::<Vec<_>>(), m.keys().map(|k| Nt(*k)).collect::<Vec<_>>(), "rule heads");
            ensure_eq!(b.rule_set().keys().map(|k| **k).collect::<Vec<_>>(), m.keys().map(|k| Nt(*k)).collect::<Vec<_>>(), "rule set keys");
            ensure!(b.try_get_rule(&Nt(200)).is_none(), "rule found for a foreign nonterminal");
            ensure!(panics(|| b.get_rule(&Nt(200)).head()).is_err(), "get_rule of a foreign nonterminal");
            let all: Vec<_> = b.prods().map(|p| (*p.head(), *p.action_key())).collect();
            ensure_eq!(all, m.iter().flat_map(|(h, ps)| ps.iter().map(move |p| (Nt(*h), Ak(p.key)))).collect::<Vec<_>>(), "all productions");
            for (h, ps) in &m {
                let rs = [b.get_rule(&Nt(*h)), b.try_get_rule(&Nt(*h)).ok_or("rule missing")?, *b.rule_set().get(&Nt(*h)).ok_or("rule missing")?, b.rules().find(|r| *r.head() == Nt(*h)).ok_or("rule missing")?];
                for r in rs {
                    ensure_eq!(*r.head(), Nt(*h), "head");
                    ensure!(r == rs[0], "the same rule is unequal to itself");
                    let bps: Vec<_> = r.prods().collect();
                    ensure_eq!(bps.len(), ps.len(), "number of productions of {:?}", Sym::N(*h));
                    for (i, (bp, p)) in bps.iter().zip(ps).enumerate() {
                        let w = format!("production {} of {:?}", i, Sym::N(*h));
                        ensure_eq!(*bp.head(), Nt(*h), "head of {}", w);
                        ensure_eq!(*bp.action_key(), Ak(p.key), "action key of {}", w);
                        ensure_eq!(*bp.action_value(), Av(p.val), "action value of {}", w);
                        ensure!(bp.prod_key().head() == bp.head() && bp.prod_key().action_key() == bp.action_key(), "production key of {}", w);
                        ensure_eq!(bp.num_elements(), p.elems.len(), "element count of {}", w);
                        ensure_eq!(bp.elements().cloned().collect::<Vec<_>>(), p.elems.iter().map(|e| elem(e.1)).collect::<Vec<_>>(), "elements of {}", w);
                        let ids: Vec<Option<Name>> = bp.prod_elements().iter().map(|e| e.id().cloned()).collect();
                        ensure_eq!(ids, p.elems.iter().map(|e| e.0.map(name)).collect::<Vec<_>>(), "names of {}", w);
                        ensure_eq!(bp.prod_elements().iter().map(|e| e.elem().clone()).collect::<Vec<_>>(), p.elems.iter().map(|e| elem(e.1)).collect::<Vec<_>>(), "production elements of {}", w);
                        ensure_eq!(bp.first_elem().cloned(), p.elems.first().map(|e| elem(e.1)), "first element of {}", w);
                        for k in 0..p.elems.len() + 2 {
                            ensure_eq!(bp.element_at(k).cloned(), p.elems.get(k).map(|e| elem(e.1)), "element {} of {}", k, w);
                            ensure!(bp.prod_element_at(k) == bp.prod_elements().get(k), "production element {} of {}", k, w);
                        }
                        for e in bp.elements() { ensure!(e.as_term().is_some() != e.as_nonterm().is_some(), "element kind"); match e.as_ref() { bongo::grammar::Elem::Term(t) => ensure!(e.as_term() == Some(t), "as_ref"), bongo::grammar::Elem::NonTerm(t) => ensure!(e.as_nonterm() == Some(t), "as_ref") } }
                        for (j, o) in bps.iter().enumerate() { ensure!((bp == o) == (i == j) && (bp.cmp(o) == std::cmp::Ordering::Equal) == (i == j), "comparison of productions {} and {} of {:?}", i, j, Sym::N(*h)); }
                    }
                }
            }
            Ok(1)
        });
}
