use bongo::utils::Name;
use bvh::*;
use std::hash::{Hash, Hasher};
fn h(n: &Name) -> u64 { let mut s = std::collections::hash_map::DefaultHasher::new(); n.hash(&mut s); s.finish() }
#[derive(Clone, Debug)]
enum Op { New(String), Clone(usize), Push(usize, char), Clear(usize), Drop(usize), Set(usize, String) }
fn main() {
    run("C19", "random histories of 1-20 creations, clones, mutations and drops of names, all texts, comparisons and hashes checked against plain strings after every step; non-trivial: a mutation after a clone", 100000,
        |r, _| (0..r.range_size(1, 20)).map(|_| { let s: String = (0..r.below_size(4)).map(|_| *r.pick(&['a', 'b', 'é', 'A', 'B', 'É', '1', '_', ' ', '"', '\n', '\u{0}', '😀', 'e', '\u{301}'])).collect(); let k = r.below(8); match r.below(8) { 0 | 1 => Op::New(s), 2 | 3 | 4 => Op::Clone(k), 5 => Op::Push(k, 'x'), 6 => if r.chance(1, 2) { Op::Clear(k) } else { Op::Drop(k) }, _ => Op::Set(k, s) } }).collect::<Vec<_>>(),
        |o| o.iter().any(|x| matches!(x, Op::Clone(_))) && o.iter().any(|x| matches!(x, Op::Push(..) | Op::Set(..))),
        |ops| {
            let mut v = vec![(Name::new("p"), "p".to_string())];
            for op in ops {
                let n = v.len();
                match op {
                    Op::New(s) => v.push((Name::new(s), s.clone())),
                    Op::Clone(k) => { let c = v[k % n].clone(); v.push((c.0.clone(), c.1)); }
                    Op::Push(k, c) => { let x = &mut v[k % n]; x.0.make_mut().push(*c); x.1.push(*c); }
                    Op::Clear(k) => { let x = &mut v[k % n]; x.0.make_mut().clear(); x.1.clear(); }
                    Op::Set(k, s) => { let x = &mut v[k % n]; *x.0.make_mut() = s.clone(); x.1 = s.clone(); }
                    Op::Drop(k) => if n > 1 { v.remove(k % n); },
                }
                for (a, s) in &v {
                    ensure_eq!(a.str(), s.as_str(), "text after {:?}", op);
                    let r: &str = a.as_ref();
                    ensure!(r == s && format!("{}", a) == *s && format!("{:?}", a) == *s, "views of {:?}", s);
                    for (b, t) in &v { ensure!((a == b) == (s == t) && a.cmp(b) == s.cmp(t) && (s != t || h(a) == h(b)), "comparison of {:?} and {:?}", s, t); }
                }
            }
            Ok(1)
        });
}
