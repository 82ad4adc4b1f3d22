use bongo::utils::{mergeables::*, WasChanged};
use bvh::*;
use std::collections::BTreeMap;
#[derive(Clone, Debug, PartialEq, Eq)]
struct M(Vec<u8>);
impl Mergable for M { fn merge(&mut self, o: &Self) -> WasChanged { if o.0.len() == 3 { return WasChanged::Unchanged; } self.0.extend(&o.0); WasChanged::from_changed(o.0.len() != 1) } }
#[derive(Clone, Debug)]
struct Key(u8, u8);
impl PartialEq for Key { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
impl Eq for Key {}
impl PartialOrd for Key { fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl Ord for Key { fn cmp(&self, o: &Self) -> std::cmp::Ordering { self.0.cmp(&o.0) } }
// insert_cow borrows the map for the whole life of the value given, so each map is used through a leaked reference step by step.
fn cow(m: &mut MergableMap<Key, M>, v: Value<Key, M>, how: u8) -> WasChanged {
    match how { 0 => m.insert(v), 1 => m.insert_cow(v), 2 => m.insert_cow(&v), 3 => m.insert_cow(ValueRef::from(&v)), _ => m.insert_cow(ValueCow::Owned(v)) }
}
fn main() {
    run("C18", "random histories of 1-14 insertions (owned, borrowed, copy-on-write) over five keys with a non-commutative, tell-tale merge, all lookups compared with a plain map after every step; non-trivial: a key inserted twice", 100000,
        |r, _| (0..r.range_size(1, 14)).map(|_| (r.below(5) as u8, r.below(100) as u8, (0..r.below(4)).map(|_| r.below(9) as u8).collect::<Vec<_>>(), r.below(5) as u8)).collect::<Vec<_>>(),
        |o| o.iter().map(|x| x.0).collect::<std::collections::BTreeSet<_>>().len() < o.len(),
        |ops| {
            for mut m in [MergableMap::<Key, M>::new(), MergableMap::default()] {
                let mut w: BTreeMap<u8, (u8, M)> = BTreeMap::new();
                for (k, tag, v, how) in ops {
                    let val = Value::verif_new(Key(*k, *tag), M(v.clone()));
                    ensure!(val.key().1 == *tag && *val.value() == M(v.clone()), "value accessors");
                    let r = cow(&mut m, val, *how);
                    let want = match w.get_mut(k) { Some((_, x)) => x.merge(&M(v.clone())), None => { w.insert(*k, (*tag, M(v.clone()))); WasChanged::Changed } };
                    ensure_eq!(r, want, "change reported for {:?}", (k, v, how));
                    for q in 0..6u8 {
                        let e = m.get_entry(&Key(q, 200));
                        ensure_eq!(e.map(|e| (e.key().1, e.value().clone())), w.get(&q).cloned(), "entry {} after {:?}", q, (k, v, how));
                        if let Some(e) = m.get_entry(&Key(q, 200)) { let v = e.to_value(); let c = ValueCow::from(e); let (a, b) = (c.to_owned(), c.into_owned()); for x in [v, a, b] { ensure!(x.key().1 == w[&q].0 && *x.value() == w[&q].1, "copies of an entry"); } }
                    }
                }
            }
            Ok(1)
        });
}
