use bongo::parsers::tree::*;
use bongo::utils::WasChanged;
use bvh::*;
use std::collections::BTreeSet;
#[derive(Clone, Debug)]
enum Op { Node, LeafNode(u8, u8), BranchNode(u8, Vec<usize>), LeafAlt(u8, u8), BranchAlt(u8, Vec<usize>), LazyBranch(u8, Vec<usize>), Add(usize, usize), AddAll(usize, usize), Cross(u8) }
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum Content { Leaf(u8, u8), Branch(u8, Vec<usize>) }
type N<'a> = Node<'a, u8, u8, u8>;
type A<'a> = Alternative<'a, u8, u8, u8>;
fn content(a: &A, nodes: &[N]) -> Result<Content, String> {
    Ok(match a.content() {
        NodeContent::Leaf(l) => Content::Leaf(l.kind(), *l.value()),
        NodeContent::Branch(b) => { let mut v = vec![]; for n in b.nodes() { v.push(nodes.iter().position(|x| *x == n).ok_or("branch child is no node of the tree")?); } Content::Branch(b.action(), v) }
    })
}
fn main() {
    run("C11", "random histories of 1-25 tree operations (nodes, leaf and branch alternatives, adding, merging, operations mixing two trees, children from iterators that use the tree), compared with plain sets after every step; non-trivial: some alternative is made twice or merged", 60000,
        |r, _| {
            let n = r.range_size(1, 25); let fan = r.size(4);
            (0..n).map(|_| { let kids = |r: &mut Rng| (0..r.below(fan)).map(|_| r.below(30)).collect::<Vec<_>>(); let (a, b) = (r.below(2) as u8, r.below(3) as u8);
                match r.below(12) { 0 | 1 => Op::Node, 2 => Op::LeafNode(a, b), 3 => Op::BranchNode(a, kids(r)), 4 | 5 => Op::LeafAlt(a, b), 6 => Op::BranchAlt(a, kids(r)), 7 => Op::LazyBranch(a, kids(r)), 8 | 9 => Op::Add(r.below(30), r.below(30)), 10 => Op::AddAll(r.below(30), r.below(30)), _ => if r.chance(1, 3) { Op::Cross(r.below(9) as u8) } else { Op::Add(r.below(30), r.below(30)) } } }).collect::<Vec<_>>()
        },
        |ops| ops.iter().any(|o| matches!(o, Op::AddAll(..))) || ops.iter().filter(|o| matches!(o, Op::LeafAlt(..))).count() > 3,
        |ops| {
            let owner = TreeOwner::<u8, u8, u8>::new();
            let h = owner.handle();
            let other = TreeOwner::<u8, u8, u8>::default();
            let oh = other.handle();
            let (on, oa) = (oh.make_leaf_node(0, 0), oh.make_leaf_alt(0, 1));
            let mut nodes: Vec<N> = vec![];
            let mut sets: Vec<BTreeSet<Content>> = vec![];
            let mut alts: Vec<(A, Content)> = vec![];
            for op in ops {
                let n = nodes.len();
                let kids = |k: &Vec<usize>| if n == 0 { vec![] } else { k.iter().map(|x| x % n).collect::<Vec<_>>() };
                match op {
                    Op::Node => { let x = h.make_node(); ensure!(!nodes.contains(&x), "make_node returned an existing node"); nodes.push(x); sets.push(BTreeSet::new()); }
                    Op::LeafNode(k, v) => { let x = h.make_leaf_node(*k, *v); ensure!(!nodes.contains(&x), "make_leaf_node returned an existing node"); nodes.push(x); sets.push([Content::Leaf(*k, *v)].into()); }
                    Op::BranchNode(a, k) => { let k = kids(k); let x = h.make_branch_node(*a, k.iter().map(|i| nodes[*i].clone()).collect::<Vec<_>>()); ensure!(!nodes.contains(&x), "make_branch_node returned an existing node"); nodes.push(x); sets.push([Content::Branch(*a, k)].into()); }
                    Op::LeafAlt(k, v) => alts.push((h.make_leaf_alt(*k, *v), Content::Leaf(*k, *v))),
                    Op::BranchAlt(a, k) => { let k = kids(k); alts.push((h.make_branch_alt(*a, k.iter().map(|i| nodes[*i].clone()).collect::<Vec<_>>()), Content::Branch(*a, k))); }
                    Op::LazyBranch(a, k) => {
                        // children supplied by an iterator that uses the tree while it runs
                        let k = kids(k);
                        let before = n;
                        let made: Vec<N> = vec![];
                        let made = std::cell::RefCell::new(made);
                        let alt = h.make_branch_alt(*a, k.iter().map(|i| { let x = h.make_node(); x.add_all(&nodes[*i]); made.borrow_mut().push(x.clone()); x }));
                        let made = made.into_inner();
                        let ids: Vec<usize> = (0..made.len()).map(|i| before + i).collect();
                        for (x, i) in made.iter().zip(&k) { ensure!(!nodes.contains(x), "make_node returned an existing node"); nodes.push(x.clone()); sets.push(sets[*i].clone()); }
                        alts.push((alt, Content::Branch(*a, ids)));
                    }
                    Op::Add(i, j) => if n > 0 && !alts.is_empty() {
                        let (i, j) = (i % n, j % alts.len());
                        let c = nodes[i].add_alt(&alts[j].0);
                        ensure_eq!(c, WasChanged::from_changed(sets[i].insert(alts[j].1.clone())), "change reported by add_alt");
                    },
                    Op::AddAll(i, j) => if n > 0 {
                        let (i, j) = (i % n, j % n);
                        let c = nodes[i].add_all(&nodes[j]);
                        let s = sets[j].clone();
                        let old = sets[i].len();
                        sets[i].extend(s);
                        ensure_eq!(c, WasChanged::from_changed(sets[i].len() > old), "change reported by add_all");
                    },
                    Op::Cross(k) => {
                        let r = match k {
                            0 if n > 0 => panics(|| { nodes[0].add_alt(&oa); }),
                            1 if n > 0 => panics(|| { nodes[0].add_all(&on); }),
                            2 => panics(|| { h.make_branch_alt(1, vec![on.clone()]); }),
                            3 => panics(|| { let mut v: Vec<N> = nodes.iter().take(2).cloned().collect(); v.push(on.clone()); h.make_branch_alt(1, v); }),
                            5 if n > 0 => panics(|| { h.make_branch_alt(1, vec![on.clone(), nodes[0].clone()]); }),
                            6 if n > 0 => panics(|| { on.add_all(&nodes[n - 1]); }),
                            7 if !alts.is_empty() => panics(|| { on.add_alt(&alts[0].0); }),
                            8 if n > 0 => panics(|| { oh.make_branch_node(1, nodes.clone()); }),
                            4 => { ensure!(!h.is_same(&oh) && h.is_same(&owner.handle()) && h == owner.handle() && h != oh, "handle identity"); Err(String::new()) }
                            _ => Err(String::new()),
                        };
                        ensure!(r.is_err(), "mixing trees went through ({:?})", op);
                    }
                }
                for (i, x) in nodes.iter().enumerate() {
                    let mut got = BTreeSet::new();
                    let mut cnt = 0;
                    for a in x.alts() { got.insert(content(&a, &nodes)?); cnt += 1; ensure!(alts.iter().filter(|(_, c)| *c == content(&a, &nodes).unwrap()).all(|(b, _)| *b == a), "equal contents, unequal alternatives"); }
                    ensure_eq!(got, sets[i], "alternatives of node {} after {:?}", i, op);
                    ensure_eq!(cnt, sets[i].len(), "number of alternatives of node {} after {:?}", i, op);
                }
                for (a, c) in &alts { ensure_eq!(content(a, &nodes)?, *c, "content of an alternative after {:?}", op); }
                for (a, c) in &alts { for (b, d) in &alts { ensure!((a == b) == (c == d), "alternatives {:?} and {:?} compare wrongly", c, d); } }
                ensure!(on.alts().count() == 1 && content(&oa, &[])? == Content::Leaf(0, 1), "the other tree changed");
                if n > 0 { ensure!(nodes[0].handle() == h, "handle of a node"); }
            }
            Ok(1)
        });
}
