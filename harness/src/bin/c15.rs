use bongo::utils::*;
use bvh::*;
use std::collections::{BTreeMap, BTreeSet};
#[derive(Clone, Debug)]
struct C { init: Vec<u8>, edges: Vec<(u8, u8)>, pairs: Vec<(u8, u8)>, ops: Vec<(u8, u8, u8, Vec<u8>)>, n: u64, seed: Vec<(u8, Vec<u8>)> }
struct Fp<'a>(&'a [(u8, u8)]);
impl FixedPointProcessor<u8, BTreeSet<u8>> for Fp<'_> {
    fn next(&self, k: &u8, v: &BTreeSet<u8>) -> Vec<(u8, BTreeSet<u8>)> { self.0.iter().filter(|e| e.0 == *k).map(|e| (e.1, v.iter().map(|x| x / 2 + e.1 % 3).collect())).collect() }
    fn merge(&self, t: &mut BTreeSet<u8>, o: BTreeSet<u8>) -> WasChanged { let n = t.len(); t.extend(o); WasChanged::from_changed(t.len() > n) }
}
fn ch(b: bool) -> WasChanged { if b { WasChanged::Changed } else { WasChanged::Unchanged } }
fn main() {
    run("C15", "random initial sets, edge lists, pair lists and histories of up to 12 map insertions, compared with direct computations; non-trivial: at least one edge and one repeated key", 100000,
        |r, _| C {
            init: (0..r.below(4)).map(|_| r.below(8) as u8).collect(), edges: (0..r.below_size(12)).map(|_| (r.below(8) as u8, r.below(8) as u8)).collect(),
            pairs: (0..r.below_size(8)).map(|_| (r.below(4) as u8, r.below(4) as u8)).collect(),
            ops: (0..r.below_size(12)).map(|_| (r.below(3) as u8, r.below(4) as u8, r.below(4) as u8, (0..r.below(4)).map(|_| r.below(5) as u8).collect())).collect(), n: r.next() % 100000,
            seed: (0..r.below(3)).map(|_| (r.below(4) as u8, (0..r.below(3)).map(|_| r.below(5) as u8).collect())).collect() },
        |c| !c.edges.is_empty() && c.pairs.len() > 4,
        |c| {
            let step = |x: &u8| c.edges.iter().filter(|e| e.0 == *x).map(|e| e.1).collect::<Vec<_>>();
            let mut reach: BTreeSet<u8> = c.init.iter().copied().collect();
            loop { let n = reach.len(); for x in reach.clone() { reach.extend(step(&x)); } if n == reach.len() { break; } }
            let asked = std::cell::RefCell::new(BTreeSet::new());
            let got = breadth_first_search(shy(c.init.clone(), c.ops.len()), |x| { asked.borrow_mut().insert(*x); shy(step(x), c.pairs.len()) });
            ensure_eq!(got, reach, "breadth_first_search");
            let mut want: BTreeMap<u8, BTreeSet<u8>> = BTreeMap::new();
            for (k, v) in &c.pairs { want.entry(*k).or_default().insert(*v); }
            ensure_eq!(merge_value_pairs(shy(c.pairs.clone(), c.ops.len())), want, "merge_value_pairs");
            let fp = |x: &u64| if *x > 100 { x / 2 } else if *x % 7 == 3 { *x } else { (x * 3 + 1) % 101 };
            let mut x = c.n;
            for _ in 0..400 { x = fp(&x); }
            if fp(&x) == x { let y = fixed_point(c.n, |v| fp(v)); ensure_eq!(fp(&y), y, "fixed_point stopped at a moving value"); ensure_eq!(y, x, "fixed_point"); }
            let it: Vec<u8> = c.init.clone();
            ensure_eq!(take_only(shy(it.iter().copied(), c.ops.len())), if it.len() == 1 { Some(it[0]) } else { None }, "take_only of {:?}", it);
            for a in [false, true] { ensure_eq!(WasChanged::from_changed(a), ch(a), "from_changed"); for b in [false, true] { ensure_eq!(ch(a).join(ch(b)), ch(a || b), "join"); let mut m = ch(a); m.merge(ch(b)); ensure_eq!(m, ch(a || b), "merge"); } }
            let mut cnt = 0;
            let flags: Vec<bool> = c.pairs.iter().map(|p| p.0 == 1).collect();
            ensure_eq!(change_iter(shy(flags.iter(), c.ops.len()), |f| { cnt += 1; ch(*f) }), ch(flags.contains(&true)), "change_iter");
            ensure_eq!(cnt, flags.len(), "change_iter visits every item");
            let mut left = c.init.len();
            let mut calls = 0;
            change_loop(|| { calls += 1; if left > 0 { left -= 1; WasChanged::Changed } else { WasChanged::Unchanged } });
            ensure_eq!(calls, c.init.len() + 1, "change_loop calls");
            // CollectMap
            let seed: BTreeMap<u8, BTreeSet<u8>> = c.seed.iter().map(|(k, v)| (*k, v.iter().copied().collect())).collect();
            for mut m in [CollectMap::<u8, u8>::new(), CollectMap::default(), CollectMap::from_seed(seed.clone())] {
                let mut w: BTreeMap<u8, BTreeSet<u8>> = m.iter().map(|(k, v)| (*k, v.clone())).collect();
                for (op, k, s, vs) in &c.ops {
                    let before = w.get(k).cloned().unwrap_or_default();
                    let mut after = before.clone();
                    let r = match op {
                        0 => { after.insert(*s); m.insert(*k, *s) }
                        1 => { after.extend(vs); m.insert_iter(*k, shy(vs.clone(), vs.len() + c.ops.len())) }
                        _ => { after.extend(w.get(s).cloned().unwrap_or_default()); m.insert_from_key_set(*k, *s) }
                    };
                    ensure_eq!(r, ch(after.len() > before.len()), "change reported by {:?}", (op, k, s, vs));
                    if !after.is_empty() { w.insert(*k, after); }
                    for q in 0..5u8 { ensure_eq!(m.get(&q).cloned().unwrap_or_default(), w.get(&q).cloned().unwrap_or_default(), "set of key {} after {:?}", q, (op, k, s, vs)); }
                }
                let nonempty = |x: BTreeMap<u8, BTreeSet<u8>>| x.into_iter().filter(|(_, v)| !v.is_empty()).collect::<BTreeMap<_, _>>();
                ensure_eq!(nonempty(m.iter().map(|(k, v)| (*k, v.clone())).collect()), nonempty(w.clone()), "iteration");
                ensure_eq!(nonempty(m.into_inner()), nonempty(w), "into_inner");
            }
            ensure_eq!(CollectMap::from_seed(seed.clone()).into_inner(), seed, "from_seed");
            // apply_fixed_point: least fixed point above the start
            let start: BTreeMap<u8, BTreeSet<u8>> = c.pairs.iter().map(|(k, v)| (*k, [v * 10].into())).collect();
            let p = Fp(&c.edges);
            let mut w = start.clone();
            loop { let o = w.clone(); for (k, v) in o.clone() { for (nk, nv) in p.next(&k, &v) { w.entry(nk).or_default().extend(nv); } } if o == w { break; } }
            let mut t = start;
            apply_fixed_point(&p, &mut t);
            ensure_eq!(t, w, "apply_fixed_point");
            Ok(1)
        });
}
