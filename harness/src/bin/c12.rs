use bongo::parsers::tree::*;
use bvh::*;
use std::collections::{BTreeMap, BTreeSet};
#[derive(Clone, Debug)]
struct C { n: usize, alts: Vec<(usize, u8, Option<Vec<usize>>, u8)>, root: usize }
/// An action, written in a way that needs care in a label.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord)]
struct A(u8);
const TEXTS: [&str; 6] = ["plus", "\\n", "say \"hi\"", "\\", "\\\"x\\l", "a<b>"];
impl std::fmt::Debug for A { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(TEXTS[self.0 as usize]) } }
/// The text between the quotation mark at the start of `s` and the one that ends it, as it is shown.
fn shown(s: &str) -> String {
    let mut out = String::new();
    let mut it = s.chars();
    loop { match it.next() { None | Some('"') => return out, Some('\\') => match it.next() { Some('n') => out.push('\n'), Some('l') => out.push('\n'), Some(c) => out.push(c), None => return out }, Some(c) => out.push(c) } }
}
fn main() {
    run("C12", "random forests (1-7 nodes, 0-12 alternatives attached to random nodes, shared and cyclic) and a random root; the rendered text is parsed back and compared with the reachable part (node and alternative identity up to renaming); non-trivial: at least one unreachable node and one reachable branch", 40000,
        |r, _| { let n = r.range_size(1, 7); let (na, fan) = (r.size(13), r.size(4)); C { n, alts: (0..r.below(na)).map(|_| (r.below(n), r.below(6) as u8, if r.chance(1, 3) { None } else { Some((0..r.below(fan)).map(|_| r.below(n)).collect()) }, r.below(6) as u8)).collect(), root: r.below(n) } },
        |c| { let mut s: BTreeSet<usize> = [c.root].into(); loop { let k = s.len(); for a in &c.alts { if s.contains(&a.0) { s.extend(a.2.iter().flatten()); } } if s.len() == k { break; } } s.len() > 1 && s.len() < c.n },
        |c| {
            let owner = TreeOwner::<u8, A, A>::new();
            let h = owner.handle();
            let nodes: Vec<_> = (0..c.n).map(|_| h.make_node()).collect();
            type K = (u8, Option<Vec<usize>>, u8);
            let mut at: BTreeMap<usize, BTreeSet<K>> = BTreeMap::new();
            let mut named: BTreeMap<K, _> = BTreeMap::new();
            for (n, a, k, v) in &c.alts {
                let key: K = (*a, k.clone(), if k.is_some() { 0 } else { *v });
                let alt = match k { None => h.make_leaf_alt(*a, A(*v)), Some(k) => h.make_branch_alt(A(*a), k.iter().map(|i| nodes[*i].clone()).collect::<Vec<_>>()) };
                nodes[*n].add_alt(&alt);
                at.entry(*n).or_default().insert(key.clone());
                named.insert(key, alt);
            }
            // reachable part
            let mut rn: BTreeSet<usize> = [c.root].into();
            let mut ra: BTreeSet<K> = BTreeSet::new();
            loop {
                let l = (rn.len(), ra.len());
                for n in rn.clone() { for k in at.get(&n).into_iter().flatten() { ra.insert(k.clone()); rn.extend(k.1.iter().flatten()); } }
                if l == (rn.len(), ra.len()) { break; }
            }
            let dot = nodes[c.root].to_dot();
            let mut seen: BTreeMap<String, String> = BTreeMap::new();
            let mut edges: Vec<(String, String)> = vec![];
            for l in dot.lines() {
                let l = l.trim();
                if l.starts_with("digraph") || l == "}" || l.is_empty() { continue; }
                if let Some((a, b)) = l.split_once(" -> ") { let b = b.split(|x| x == '[' || x == ';').next().unwrap(); edges.push((a.to_string(), b.to_string())); }
                else { let id = l.split('[').next().unwrap().to_string(); let lab = l.split("label=\"").nth(1).map(shown).unwrap_or_default(); ensure!(seen.insert(id.clone(), lab).is_none(), "{} listed twice in\n{}", id, dot); }
            }
            let dn: Vec<&String> = seen.keys().filter(|k| k.starts_with('n')).collect();
            let da: Vec<&String> = seen.keys().filter(|k| k.starts_with('a')).collect();
            ensure_eq!(dn.len() + da.len(), seen.len(), "identifiers");
            ensure_eq!(dn.len(), rn.len(), "listed nodes in\n{}", dot);
            ensure_eq!(da.len(), ra.len(), "listed alternatives in\n{}", dot);
            // nodes are numbered in creation order, so identities can be matched exactly
            let nn: BTreeMap<usize, String> = rn.iter().map(|i| (*i, format!("n{}", i))).collect();
            for s in nn.values() { ensure!(seen.contains_key(s), "node {} is missing from\n{}", s, dot); }
            let label = |k: &K| match &k.1 { Some(_) => format!("{:?}", A(k.0)), None => format!("{:?}({:?})", k.0, A(k.2)) };
            // expected out-edges of each node as multisets of (label, ordered children)
            for i in &rn {
                let mut want: Vec<(String, Vec<String>)> = at.get(i).into_iter().flatten().map(|k| (label(k), k.1.iter().flatten().map(|x| nn[x].clone()).collect())).collect();
                let outs: Vec<&String> = edges.iter().filter(|e| e.0 == nn[i]).map(|e| &e.1).collect();
                let mut got = vec![];
                for a in &outs { let l = seen.get(*a).ok_or_else(|| format!("edge to unlisted {}", a))?; got.push((l.clone(), edges.iter().filter(|e| e.0 == **a).map(|e| e.1.clone()).collect::<Vec<_>>())); }
                want.sort(); got.sort();
                ensure_eq!(got, want, "alternatives of node {} in\n{}", i, dot);
                ensure_eq!(outs.iter().collect::<BTreeSet<_>>().len(), outs.len(), "repeated edge in\n{}", dot);
            }
            let total: usize = rn.iter().map(|i| at.get(i).map_or(0, |s| s.len())).sum::<usize>() + ra.iter().map(|k| k.1.as_ref().map_or(0, |v| v.len())).sum::<usize>();
            ensure_eq!(edges.len(), total, "number of edges in\n{}", dot);
            Ok(1)
        });
}
