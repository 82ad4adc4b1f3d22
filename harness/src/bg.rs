//! Plain grammars <-> bongo grammars.
#![allow(dead_code)]
use bongo::grammar::{build, Elem, Grammar, GrammarErrors};
use bongo::utils::Name;
use bvh::cfg::{Sym, G};

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct Tk(pub u8);
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct Nt(pub u8);
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct Ak(pub u32);
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Av(pub u32);
pub type BG = Grammar<Tk, Nt, Ak, Av>;
pub type BElem = Elem<Tk, Nt>;

pub fn name(n: u8) -> Name { match n { 0 => Name::new("start"), 1 => Name::new(""), 2 => Name::new("é b"), _ => Name::new(&format!("n{}", n)) } }
pub fn elem(s: Sym) -> BElem { match s { Sym::T(t) => Elem::Term(Tk(t)), Sym::N(n) => Elem::NonTerm(Nt(n)) } }
pub fn try_build(g: &G) -> Result<BG, GrammarErrors<Nt>> {
    build(Nt(g.start), |gb| {
        for r in &g.rules {
            gb.add_rule(Nt(r.head), |rb| {
                for p in &r.prods {
                    rb.add_prod(Ak(p.key), Av(p.val), |pb| {
                        for (n, s) in &p.elems {
                            match (n, s) {
                                (None, Sym::T(t)) => pb.add_term(Tk(*t)),
                                (None, Sym::N(x)) => pb.add_nonterm(Nt(*x)),
                                (Some(n), Sym::T(t)) => pb.add_named_term(name(*n), Tk(*t)),
                                (Some(n), Sym::N(x)) => pb.add_named_nonterm(name(*n), Nt(*x)),
                            };
                        }
                    });
                }
            });
        }
    })
}
pub fn must_build(g: &G) -> Result<BG, String> { try_build(g).map_err(|e| format!("valid grammar rejected: {:?}", e)) }
