#[path = "../bg.rs"] mod bg;
use bg::*;
use bvh::{cfg::*, *};
use bongo::state::{ProdState, ProdStateSet};
use std::collections::{BTreeMap, BTreeSet};
use std::cmp::Ordering;
type St<'a> = ProdState<'a, Tk, Nt, Ak, Av>;
type Set<'a> = ProdStateSet<'a, Tk, Nt, Ak, Av>;
fn main() {
    run("C17", "random grammars, all states of all productions, a random subset as a state set and a random step relation for the closure; non-trivial: at least two productions of at least two elements", 10000,
        |r, _| { let g = gen(r, &GenOpts { max_nts: 3, max_terms: 2, max_prods: 3, max_elems: 3, valid: true }); let s: Vec<usize> = (0..r.below(8)).map(|_| r.below(40)).collect(); let e: Vec<(usize, usize)> = (0..r.below(16)).map(|_| (r.below(40), r.below(40))).collect(); (g, s, e) },
        |(g, _, _)| g.rules.iter().flat_map(|r| &r.prods).filter(|p| p.elems.len() > 1).count() > 1,
        |(g, sub, edges)| {
            let b = must_build(g)?;
            let prods: Vec<_> = b.prods().collect();
            let mut all: Vec<(St, usize, usize)> = vec![];
            for (k, p) in prods.iter().enumerate() {
                let mut s = ProdState::from_start(*p);
                for i in 0..=p.num_elements() {
                    ensure!(s.prod() == *p && s.action_key() == p.action_key(), "production of a state");
                    ensure_eq!(s.is_complete(), i == p.num_elements(), "completeness at {}", i);
                    ensure!(s.next_elem() == p.element_at(i) && s.next_prod_elem() == p.prod_element_at(i), "next element at {}", i);
                    for o in (0..4).chain([usize::MAX - 1, usize::MAX]) { ensure!(s.offset_elem(o) == i.checked_add(o).and_then(|k| p.element_at(k)) && s.offset_prod_elem(o) == i.checked_add(o).and_then(|k| p.prod_element_at(k)), "element at offset {} from {}", o, i); }
                    all.push((s.clone(), k, i));
                    for e in [elem(Sym::T(0)), elem(Sym::T(1)), elem(Sym::T(9)), elem(Sym::N(0)), elem(Sym::N(1)), elem(Sym::N(9))] {
                        let a = s.advance_if(&e);
                        ensure_eq!(a.is_some(), p.element_at(i) == Some(&e), "advance_if {:?} at {}", e, i);
                        if let Some(a) = a { ensure!(Some(&a) == s.next_elem_state().map(|x| x.1).as_ref(), "advance_if and next_elem_state differ"); }
                    }
                    match s.next_elem_state() { None => ensure!(i == p.num_elements(), "no next state at {}", i), Some((e, n)) => { ensure!(Some(e) == p.prod_element_at(i), "element passed at {}", i); s = n; } }
                }
            }
            for (x, k, i) in &all { for (y, l, j) in &all {
                let same = k == l && i == j;
                ensure!((x == y) == same && (x.cmp(y) == Ordering::Equal) == same && x.partial_cmp(y) == Some(x.cmp(y)) && x.cmp(y) == y.cmp(x).reverse(), "comparison of states {:?} and {:?}", x, y);
                if k == l { ensure_eq!(x.cmp(y), i.cmp(j), "order within a production"); }
            } }
            let n = all.len();
            let key = |s: &St| all.iter().position(|x| x.0 == *s);
            let ids: BTreeSet<usize> = sub.iter().map(|i| i % n).collect();
            let mk = |ids: &BTreeSet<usize>| shy(ids.iter().map(|i| all[*i].0.clone()), ids.len()).collect::<Set>();
            let mut set: Set = ProdStateSet::new_empty();
            for i in sub { set.add(all[i % n].0.clone()); }
            ensure!(set == mk(&ids) && set.cmp(&mk(&ids)) == Ordering::Equal, "adding and collecting differ");
            ensure!((Set::new_empty() == set) == ids.is_empty(), "emptiness");
            for i in 0..n { let mut o = ids.clone(); o.insert(i); ensure_eq!(mk(&o) == set, ids.contains(&i), "membership of state {:?}", all[i].0); ensure_eq!(mk(&o).cmp(&set) == Ordering::Equal, ids.contains(&i), "comparison of sets"); ensure!(mk(&o).partial_cmp(&set) == Some(mk(&o).cmp(&set)), "partial_cmp of sets"); }
            let got: Vec<usize> = set.complete().map(|s| key(&s).ok_or("foreign state")).collect::<Result<_, _>>()?;
            let want: BTreeSet<usize> = ids.iter().copied().filter(|i| all[*i].0.is_complete()).collect();
            ensure!(got.len() == want.len() && got.into_iter().collect::<BTreeSet<_>>() == want, "complete states");
            let mut want: BTreeMap<_, BTreeSet<usize>> = BTreeMap::new();
            for i in &ids { let (s, k, j) = &all[*i]; if let Some(e) = s.next_prod_elem() { want.entry(e).or_default().insert(all.iter().position(|x| x.1 == *k && x.2 == j + 1).unwrap()); } }
            let nx: Vec<_> = set.nexts().collect();
            ensure_eq!(nx.len(), want.len(), "number of successor sets");
            for (e, s) in nx { ensure!(want.get(e).map(|x| mk(x)) == Some(s), "successor set on {:?}", e); }
            let mut cl = ids.clone();
            loop { let l = cl.len(); for (a, b) in edges { if cl.contains(&(a % n)) { cl.insert(b % n); } } if l == cl.len() { break; } }
            let mut c = set.clone();
            c.take_closure(|s| { let k = key(s).unwrap_or(usize::MAX); edges.iter().filter(|e| e.0 % n == k).map(|e| all[e.1 % n].0.clone()).collect::<Vec<_>>().into_iter() });
            ensure!(c == mk(&cl), "closure");
            ensure!(set == mk(&ids), "the original of a cloned set changed");
            Ok(1)
        });
}
