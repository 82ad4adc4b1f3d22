//! Context-free grammars as plain data, with naive fixed-point oracles.
use crate::Rng;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Sym { T(u8), N(u8) }
impl std::fmt::Debug for Sym {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { match self { Sym::T(t) => write!(f, "{}", (b'a' + t) as char), Sym::N(n) => write!(f, "<{}>", (b'A' + n) as char) } }
}
#[derive(Clone, PartialEq, Eq)]
pub struct P { pub key: u32, pub val: u32, pub elems: Vec<(Option<u8>, Sym)> }
impl std::fmt::Debug for P {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "#{}=[", self.key)?;
        for (n, s) in &self.elems { if let Some(n) = n { write!(f, "n{}:", n)?; } write!(f, "{:?} ", s)?; }
        write!(f, "]")
    }
}
#[derive(Clone, PartialEq, Eq)]
pub struct R { pub head: u8, pub prods: Vec<P> }
impl std::fmt::Debug for R {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{:?} => {:?}", Sym::N(self.head), self.prods) }
}
/// The raw builder calls: rules in order, heads may repeat.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct G { pub start: u8, pub rules: Vec<R> }

impl G {
    /// head -> productions, a later rule replacing an earlier one.
    pub fn map(&self) -> BTreeMap<u8, Vec<P>> { self.rules.iter().map(|r| (r.head, r.prods.clone())).collect() }
    pub fn norm(&self) -> G { G { start: self.start, rules: self.map().into_iter().map(|(head, prods)| R { head, prods }).collect() } }
    pub fn terms(&self) -> BTreeSet<u8> { self.syms().filter_map(|s| if let Sym::T(t) = s { Some(t) } else { None }).collect() }
    pub fn rhs_nts(&self) -> BTreeSet<u8> { self.syms().filter_map(|s| if let Sym::N(t) = s { Some(t) } else { None }).collect() }
    fn syms(&self) -> impl Iterator<Item = Sym> + '_ { self.norm().rules.into_iter().flat_map(|r| r.prods).flat_map(|p| p.elems).map(|e| e.1) }
    pub fn reachable(&self) -> BTreeSet<u8> {
        let m = self.map();
        let mut s: BTreeSet<u8> = [self.start].into();
        loop {
            let n = s.len();
            for h in s.clone() { for p in m.get(&h).into_iter().flatten() { for e in &p.elems { if let Sym::N(x) = e.1 { s.insert(x); } } } }
            if s.len() == n { return s; }
        }
    }
    /// (unreachable, without rules, without productions)
    pub fn errors(&self) -> (BTreeSet<u8>, BTreeSet<u8>, BTreeSet<u8>) {
        let m = self.map();
        let reach = self.reachable();
        let mut used = self.rhs_nts();
        let unreach = used.iter().copied().filter(|x| !reach.contains(x)).collect();
        used.insert(self.start);
        (unreach, used.into_iter().filter(|x| !m.contains_key(x)).collect(), m.iter().filter(|(_, p)| p.is_empty()).map(|(h, _)| *h).collect())
    }
    pub fn valid(&self) -> bool { let (a, b, c) = self.errors(); a.is_empty() && b.is_empty() && c.is_empty() }
    pub fn nullable(&self) -> BTreeSet<u8> {
        let m = self.map();
        let mut s = BTreeSet::new();
        loop {
            let n = s.len();
            for (h, ps) in &m { if ps.iter().any(|p| prod_nullable(p, &s)) { s.insert(*h); } }
            if s.len() == n { return s; }
        }
    }
    pub fn nullable_ambiguous(&self) -> bool {
        let n = self.nullable();
        self.map().values().any(|ps| ps.iter().filter(|p| prod_nullable(p, &n)).count() > 1)
    }
    pub fn firsts(&self) -> BTreeMap<u8, BTreeSet<u8>> {
        let (m, nul) = (self.map(), self.nullable());
        let mut f: BTreeMap<u8, BTreeSet<u8>> = m.keys().map(|k| (*k, BTreeSet::new())).collect();
        loop {
            let old = f.clone();
            for (h, ps) in &m { for p in ps { let s = seq_first(&p.elems, &f, &nul); f.get_mut(h).unwrap().extend(s); } }
            if old == f { return f; }
        }
    }
    pub fn follows(&self) -> BTreeMap<u8, BTreeSet<u8>> {
        let (m, nul, fi) = (self.map(), self.nullable(), self.firsts());
        let mut f: BTreeMap<u8, BTreeSet<u8>> = m.keys().map(|k| (*k, BTreeSet::new())).collect();
        loop {
            let old = f.clone();
            for (h, ps) in &m { for p in ps { for i in 0..p.elems.len() { if let Sym::N(x) = p.elems[i].1 {
                let rest = &p.elems[i + 1..];
                let mut s = seq_first(rest, &fi, &nul);
                if rest.iter().all(|e| matches!(e.1, Sym::N(y) if nul.contains(&y))) { s.extend(f[h].iter().copied()); }
                f.get_mut(&x).unwrap().extend(s);
            } } } }
            if old == f { return f; }
        }
    }
    /// spans[x][i][j]: nonterminal x derives w[i..j].
    pub fn spans(&self, w: &[u8]) -> Spans {
        let m = self.map();
        let n = w.len();
        let mut s = Spans { n, d: m.keys().map(|k| (*k, vec![false; (n + 1) * (n + 1)])).collect() };
        loop {
            let mut changed = false;
            for (h, ps) in &m { for i in 0..=n {
                for p in ps { for j in s.ends(&p.elems, w, i) { let c = &mut s.d.get_mut(h).unwrap()[i * (n + 1) + j]; if !*c { *c = true; changed = true; } } }
            } }
            if !changed { return s; }
        }
    }
    pub fn accepts(&self, w: &[u8]) -> bool { self.spans(w).has(self.start, 0, w.len()) }
    /// The packed forest of w: nodes are (symbol occurrence spans); see `Forest`.
    pub fn forest(&self, w: &[(u8, u32)]) -> Option<Forest> {
        let kinds: Vec<u8> = w.iter().map(|x| x.0).collect();
        let sp = self.spans(&kinds);
        if !sp.has(self.start, 0, w.len()) { return None; }
        let m = self.map();
        let mut f = Forest { nodes: vec![], root: 0 };
        let mut ids: BTreeMap<(Sym, usize, usize), usize> = BTreeMap::new();
        let mut work = vec![(Sym::N(self.start), 0, w.len())];
        ids.insert(work[0], 0);
        f.nodes.push(vec![]);
        while let Some(key) = work.pop() {
            let id = ids[&key];
            let alts = match key.0 {
                Sym::T(_) => vec![Alt::Leaf(w[key.1].0, w[key.1].1)],
                Sym::N(x) => {
                    let mut v = vec![];
                    for p in &m[&x] {
                        let mut splits = vec![];
                        sp.splits(&p.elems, &kinds, key.1, key.2, &mut vec![], &mut splits);
                        for ks in splits {
                            let mut ch = vec![];
                            let mut at = key.1;
                            for (e, k) in p.elems.iter().zip(&ks) {
                                let kk = (e.1, at, *k);
                                let nid = *ids.entry(kk).or_insert_with(|| { f.nodes.push(vec![]); work.push(kk); f.nodes.len() - 1 });
                                ch.push(nid);
                                at = *k;
                            }
                            v.push(Alt::Branch(p.key, ch));
                        }
                    }
                    v
                }
            };
            f.nodes[id] = alts;
        }
        Some(f)
    }
}
pub fn prod_nullable(p: &P, s: &BTreeSet<u8>) -> bool { p.elems.iter().all(|e| matches!(e.1, Sym::N(x) if s.contains(&x))) }
fn seq_first(es: &[(Option<u8>, Sym)], f: &BTreeMap<u8, BTreeSet<u8>>, nul: &BTreeSet<u8>) -> BTreeSet<u8> {
    let mut r = BTreeSet::new();
    for e in es { match e.1 { Sym::T(t) => { r.insert(t); return r; } Sym::N(x) => { r.extend(f[&x].iter().copied()); if !nul.contains(&x) { return r; } } } }
    r
}

pub struct Spans { n: usize, d: BTreeMap<u8, Vec<bool>> }
impl Spans {
    pub fn has(&self, x: u8, i: usize, j: usize) -> bool { i <= j && self.d.get(&x).map_or(false, |v| v[i * (self.n + 1) + j]) }
    fn elem(&self, s: Sym, w: &[u8], i: usize, j: usize) -> bool { match s { Sym::T(t) => j == i + 1 && w[i] == t, Sym::N(x) => self.has(x, i, j) } }
    fn ends(&self, es: &[(Option<u8>, Sym)], w: &[u8], i: usize) -> BTreeSet<usize> {
        let mut c: BTreeSet<usize> = [i].into();
        for e in es { c = c.iter().flat_map(|a| (*a..=self.n).filter(move |b| self.elem(e.1, w, *a, *b))).collect(); }
        c
    }
    fn splits(&self, es: &[(Option<u8>, Sym)], w: &[u8], i: usize, j: usize, acc: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if es.is_empty() { if i == j { out.push(acc.clone()); } return; }
        if !self.ends(es, w, i).contains(&j) { return; }
        for k in i..=j { if self.elem(es[0].1, w, i, k) { acc.push(k); self.splits(&es[1..], w, k, j, acc, out); acc.pop(); } }
    }
}

#[derive(Clone, Debug)]
pub enum Alt { Leaf(u8, u32), Branch(u32, Vec<usize>) }
#[derive(Clone, Debug)]
pub struct Forest { pub nodes: Vec<Vec<Alt>>, pub root: usize }
impl Forest {
    /// Do both forests unfold to the same trees (bisimilarity), with no alternative repeated in a node of `self`?
    pub fn same(&self, o: &Forest) -> Result<(), String> {
        let off = self.nodes.len();
        let mut all = self.nodes.clone();
        all.extend(o.nodes.iter().map(|n| n.iter().map(|a| match a { Alt::Branch(k, c) => Alt::Branch(*k, c.iter().map(|x| x + off).collect()), l => l.clone() }).collect()));
        let mut col = vec![0usize; all.len()];
        let mut classes = 1;
        type S = (u8, u32, u32, Vec<usize>);
        loop {
            let mut m: BTreeMap<Vec<S>, usize> = BTreeMap::new();
            let mut nc = vec![];
            for n in &all {
                let mut s: Vec<S> = n.iter().map(|a| match a { Alt::Leaf(k, v) => (0, *k as u32, *v, vec![]), Alt::Branch(k, c) => (1, *k, 0, c.iter().map(|x| col[*x]).collect()) }).collect();
                s.sort(); s.dedup();
                let l = m.len();
                nc.push(*m.entry(s).or_insert(l));
            }
            let k = m.len();
            col = nc;
            if k == classes { break; }
            classes = k;
        }
        if col[self.root] != col[off + o.root] { return Err("the forest does not hold exactly the derivation trees".into()); }
        for (i, n) in self.nodes.iter().enumerate() {
            let s: BTreeSet<S> = n.iter().map(|a| match a { Alt::Leaf(k, v) => (0, *k as u32, *v, vec![]), Alt::Branch(k, c) => (1, *k, 0, c.iter().map(|x| col[*x]).collect()) }).collect();
            if s.len() != n.len() { return Err(format!("node {} holds the same derivation twice", i)); }
        }
        Ok(())
    }
}

pub struct GenOpts { pub max_nts: usize, pub max_terms: usize, pub max_prods: usize, pub max_elems: usize, pub valid: bool }
impl Default for GenOpts { fn default() -> Self { GenOpts { max_nts: 4, max_terms: 3, max_prods: 3, max_elems: 4, valid: true } } }

impl GenOpts {
    /// Now and then a larger grammar (over the same terminals).
    pub fn vary(self, r: &mut Rng) -> GenOpts { if r.chance(1, 40) { GenOpts { max_nts: self.max_nts + 4, max_prods: self.max_prods + 3, max_elems: self.max_elems + 5, ..self } } else { self } }
}
pub fn gen(r: &mut Rng, o: &GenOpts) -> G {
    let nts = r.range(1, o.max_nts);
    let terms = r.range(1, o.max_terms);
    let empt = r.below(4);
    let ntw = r.range(1, 4);
    let distinct = r.chance(1, 2);
    let mut key = 0;
    let nt_perm: Vec<u8> = { let mut v: Vec<u8> = (0..nts as u8).collect(); for i in (1..v.len()).rev() { v.swap(i, r.below(i + 1)); } v };
    let mut rules = vec![];
    for h in 0..nts {
        let np = r.range(1, o.max_prods);
        let mut prods = vec![];
        for k in 0..np {
            let lo = if r.chance(1, 2) { 1 } else { 0 };
            let ne = if r.chance(empt, 8) { 0 } else { r.range(lo, o.max_elems) };
            let unit = r.chance(1, 8);
            let elems = (0..if unit { 1 } else { ne }).map(|_| {
                let s = if unit || r.chance(ntw, 6) { Sym::N(nt_perm[r.below(nts)]) } else { Sym::T(r.below(terms) as u8) };
                (if r.chance(1, 3) { Some(r.below(4) as u8) } else { None }, s)
            }).collect();
            key += 1;
            prods.push(P { key: if distinct { key } else { k as u32 }, val: r.below(5) as u32, elems });
        }
        if r.chance(1, 12) && np > 1 { let d = prods[0].elems.clone(); prods[np - 1].elems = d; }
        rules.push(R { head: nt_perm[h], prods });
    }
    let mut g = G { start: nt_perm[0], rules };
    if o.valid {
        // Drop the rules whose head is unreachable (now and then keep harmless ones).
        let reach = g.reachable();
        let keep = r.chance(1, 4);
        g.rules.retain(|x| reach.contains(&x.head) || (keep && x.prods.iter().all(|p| p.elems.iter().all(|e| match e.1 { Sym::N(y) => reach.contains(&y), _ => true }))));
        debug_assert!(g.valid());
    }
    g
}
/// A grammar without nullable ambiguity (empties the production list of offenders until there is none).
pub fn gen_unambiguous_null(r: &mut Rng, o: &GenOpts) -> G {
    for _ in 0..200 { let g = gen(r, o); if !g.nullable_ambiguous() { return g; } }
    G { start: 0, rules: vec![R { head: 0, prods: vec![P { key: 0, val: 0, elems: vec![(None, Sym::T(0))] }] }] }
}
pub fn parse_g(s: &str) -> G {
    // "S: a S b | ; T: ..." lower-case terminals, upper-case nonterminals (A..), n:X names an element.
    let mut rules = vec![];
    let mut key = 0;
    for r in s.split(';') {
        let (h, b) = r.split_once(':').unwrap();
        let prods = b.split('|').map(|p| { key += 1; P { key, val: key * 10, elems: p.split_whitespace().enumerate().map(|(i, x)| { let c = x.bytes().last().unwrap(); (if x.len() > 1 { Some(i as u8) } else { None }, if c.is_ascii_uppercase() { Sym::N(c - b'A') } else { Sym::T(c - b'a') }) }).collect() } }).collect();
        rules.push(R { head: h.trim().as_bytes()[0] - b'A', prods });
    }
    G { start: rules[0].head, rules }
}
pub fn curated() -> Vec<G> {
    [
        "S: a S b | ", "S: S S | a", "S: S S S | S S | a", "S: A A; A: a | a a", "S: S | a", "S: S S | S | a | ", "S: a S | a", "S: S a | a", "S: A B C; A: a | ; B: b | ; C: c | ",
        "S: E; E: E a E | E b E | c", "S: A | B; A: B | a; B: A | b", "S: A B; A: a A | ; B: A b | b", "S: a", "S: ", "S: A; A: ", "S: A A A; A: a | ", "S: a S a | b S b | a | b | ", "S: a A; A: S | ",
        "S: xA xB; A: xC a | ; B: xC b; C: | c", "S: A B c; A: a | B; B: b | A", "S: A S a | b; A: ", "S: S A | a; A: ", "S: A B; A: C; B: C; C: a | a a | ", "S: A; A: B; B: C; C: A | a", "S: b | A S; A: a | A A",
        "S: A B C; A: a; B: b B | ; C: c C | d", "S: A a | B b; A: C; B: C; C: c | c c", "S: A a A b | B b B a; A: ; B: ", "S: xA yA; A: zA a | b", "S: A B; A: a | a b | a b c; B: b c d | c d | d",
    ].iter().map(|s| parse_g(s)).collect()
}
/// All strings over `terms` up to length n.
pub fn strings(terms: &[u8], n: usize) -> Vec<Vec<u8>> {
    let mut r = vec![vec![]];
    let mut last = vec![vec![]];
    for _ in 0..n { let mut nx: Vec<Vec<u8>> = vec![]; for w in &last { for t in terms { let mut v = w.clone(); v.push(*t); nx.push(v); } } r.extend(nx.iter().cloned()); last = nx; }
    r
}
/// A random sentence of the grammar, if a short one is found.
pub fn sentence(g: &G, r: &mut Rng, max: usize) -> Option<Vec<u8>> {
    let m = g.map();
    // minimal yield length per nonterminal
    let mut min: BTreeMap<u8, usize> = BTreeMap::new();
    let plen = |p: &P, min: &BTreeMap<u8, usize>| -> Option<usize> { p.elems.iter().map(|e| match e.1 { Sym::T(_) => Some(1), Sym::N(x) => min.get(&x).copied() }).sum() };
    loop { let old = min.clone(); for (h, ps) in &m { for p in ps { if let Some(l) = plen(p, &min) { let e = min.entry(*h).or_insert(l); *e = (*e).min(l); } } } if old == min { break; } }
    let mut budget = 60i32;
    fn go(x: u8, m: &BTreeMap<u8, Vec<P>>, min: &BTreeMap<u8, usize>, r: &mut Rng, out: &mut Vec<u8>, budget: &mut i32, max: usize) -> Option<()> {
        *budget -= 1;
        let ok: Vec<&P> = m[&x].iter().filter(|p| p.elems.iter().all(|e| match e.1 { Sym::T(_) => true, Sym::N(y) => min.contains_key(&y) })).collect();
        if ok.is_empty() || *budget < -200 { return None; }
        let len = |p: &P| p.elems.iter().map(|e| match e.1 { Sym::T(_) => 1, Sym::N(y) => min[&y] }).sum::<usize>();
        let p = if *budget > 0 && out.len() < max { *r.pick(&ok) } else { *ok.iter().min_by_key(|p| (len(p), p.elems.len())).unwrap() };
        for e in &p.elems { match e.1 { Sym::T(t) => out.push(t), Sym::N(y) => go(y, m, min, r, out, budget, max)? } if out.len() > 2 * max { return None; } }
        Some(())
    }
    if !min.contains_key(&g.start) { return None; }
    let mut out = vec![];
    go(g.start, &m, &min, r, &mut out, &mut budget, max)?;
    Some(out)
}
