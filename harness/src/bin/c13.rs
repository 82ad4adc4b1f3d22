use bongo::utils::type_map::{TypeKey, TypeMap};
use bvh::*;
use std::collections::BTreeMap;
#[derive(PartialEq, Eq, PartialOrd, Ord, Clone)] struct K1(u8);
#[derive(PartialEq, Eq, PartialOrd, Ord, Clone)] struct K2(u8);
#[derive(PartialEq, Eq, PartialOrd, Ord, Clone)] struct K3(u8);
#[derive(PartialEq, Eq, PartialOrd, Ord, Clone)] struct K4();
impl TypeKey for K1 { type ValueType = u32; }
impl TypeKey for K2 { type ValueType = u32; }
impl TypeKey for K3 { type ValueType = String; }
impl TypeKey for K4 { type ValueType = (u32, u32); }
// Two key types of the same name, with values of different types: `std::any::type_name` cannot tell them apart.
trait Same { fn ins(&self, m: &mut TypeMap, k: u8, v: u32); fn set(&self, m: &mut TypeMap, k: u8, v: u32) -> bool; fn look(&self, m: &TypeMap, k: u8) -> Option<u32>; }
macro_rules! same { ($v:ty, $to:expr, $from:expr) => {{
    #[derive(PartialEq, Eq, PartialOrd, Ord, Clone)] struct K(u8);
    impl TypeKey for K { type ValueType = $v; }
    struct S;
    impl Same for S {
        fn ins(&self, m: &mut TypeMap, k: u8, v: u32) { m.insert(K(k), $to(v)) }
        fn set(&self, m: &mut TypeMap, k: u8, v: u32) -> bool { m.get_mut(&K(k)).map(|p| *p = $to(v)).is_some() }
        fn look(&self, m: &TypeMap, k: u8) -> Option<u32> { m.get(&K(k)).map($from) }
    }
    Box::new(S)
}} }
fn same(t: u8) -> Box<dyn Same> {
    if t == 4 { same!(u32, |v: u32| v, |v: &u32| *v) } else { same!(u64, |v: u32| v as u64 + 7, |v: &u64| (*v - 7) as u32) }
}
#[derive(Clone, Debug)]
enum Op { Ins(usize, u8, u8, u32), Mut(usize, u8, u8, u32), Merge(usize, usize) }
fn get(m: &TypeMap, t: u8, k: u8) -> Option<u32> { match t { 0 => m.get(&K1(k)).copied(), 1 => m.get(&K2(k)).copied(), 2 => m.get(&K3(k)).map(|s| s.parse().unwrap()), 4 | 5 => same(t).look(m, k), _ => m.get(&K4()).map(|p| p.0) } }
fn main() {
    run("C13", "random histories of 1-30 insertions, mutations through get_mut and merges over two maps, six key types, two of them with the same name, and five key values, all lookups compared with plain maps after every step; non-trivial: at least one merge and two key types", 100000,
        |r, _| (0..r.range_size(1, 30)).map(|_| { let (m, t, k, v) = (r.below(2), r.below(6) as u8, r.below(5) as u8, r.below(1000) as u32); match r.below(6) { 0 | 1 | 2 => Op::Ins(m, t, k, v), 3 | 4 => Op::Mut(m, t, k, v), _ => Op::Merge(m, 1 - m) } }).collect::<Vec<_>>(),
        |o| o.iter().any(|x| matches!(x, Op::Merge(..))) && o.iter().any(|x| matches!(x, Op::Ins(_, 0, ..))) && o.iter().any(|x| matches!(x, Op::Ins(_, 1, ..))),
        |ops| {
            let mut ms = [TypeMap::new(), TypeMap::new()];
            let mut want: [BTreeMap<(u8, u8), u32>; 2] = Default::default();
            for op in ops {
                match op {
                    Op::Ins(m, t, k, v) => { let x = &mut ms[*m]; match t { 0 => x.insert(K1(*k), *v), 1 => x.insert(K2(*k), *v), 2 => x.insert(K3(*k), v.to_string()), 4 | 5 => same(*t).ins(x, *k, *v), _ => x.insert(K4(), (*v, 1)) } want[*m].insert((*t, if *t == 3 { 0 } else { *k }), *v); }
                    Op::Mut(m, t, k, v) => {
                        let x = &mut ms[*m];
                        let key = (*t, if *t == 3 { 0 } else { *k });
                        let had = match t { 0 => x.get_mut(&K1(*k)).map(|p| *p = *v).is_some(), 1 => x.get_mut(&K2(*k)).map(|p| *p = *v).is_some(), 2 => x.get_mut(&K3(*k)).map(|p| *p = v.to_string()).is_some(), 4 | 5 => same(*t).set(x, *k, *v), _ => x.get_mut(&K4()).map(|p| p.0 = *v).is_some() };
                        ensure_eq!(had, want[*m].contains_key(&key), "presence for get_mut");
                        if had { want[*m].insert(key, *v); }
                    }
                    Op::Merge(a, b) => {
                        let (l, r) = ms.split_at_mut(1);
                        if *a == 0 { l[0].merge(&mut r[0]) } else { r[0].merge(&mut l[0]) }
                        let o = std::mem::take(&mut want[*b]);
                        want[*a].extend(o);
                    }
                }
                for m in 0..2 { for t in 0..6 { for k in 0..5 { ensure_eq!(get(&ms[m], t, k), want[m].get(&(t, if t == 3 { 0 } else { k })).copied(), "lookup of key {} of type {} in map {} after {:?}", k, t, m, op); } } }
            }
            Ok(1)
        });
}
