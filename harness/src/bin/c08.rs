#[path = "../bg.rs"] mod bg;
use bg::*;
use bvh::{cfg::*, *};
use bongo::grammar::{Elem, ProdElement};
use bongo::start_grammar::*;
use bongo::utils::Name;
fn main() {
    run("C08", "random valid grammars, wrapped; every rule and production is compared with the original; non-trivial: more than one rule or a named element", 200000,
        |r, _| { let o = GenOpts::default().vary(r); gen(r, &o) },
        |g| g.rules.len() > 1 || g.rules[0].prods.iter().any(|p| p.elems.iter().any(|e| e.0.is_some())),
        |g| {
            let b = must_build(g)?;
            let w = wrap_grammar_with_start(b.clone()).map_err(|e| format!("wrapping failed: {:?}", e))?;
            ensure_eq!(*w.start_nt(), StartNonTerminal::Start, "start");
            let sp = w.start_prod();
            let want = vec![ProdElement::new(Some(Name::new("start")), Elem::NonTerm(StartNonTerminal::NTerm(Nt(g.start)))), ProdElement::new(None, Elem::Term(StreamTerminal::EndOfStream))];
            ensure!(sp.prod_elements() == &want && *sp.head() == StartNonTerminal::Start && *sp.action_key() == StartActionKey::Start && matches!(sp.action_value(), StartActionValue::Start), "start production {:?}", sp);
            ensure!(w.start_rule().prods().count() == 1 && w.start_rule().prods().next() == Some(sp) && *w.start_rule().head() == StartNonTerminal::Start, "start rule");
            let heads: Vec<_> = w.rules().map(|r| r.head().clone()).collect();
            ensure_eq!(heads.len(), b.rules().count() + 1, "number of rules");
            let rest: Vec<_> = heads.into_iter().filter(|h| *h != StartNonTerminal::Start).collect();
            ensure_eq!(rest, b.rules().map(|r| StartNonTerminal::NTerm(*r.head())).collect::<Vec<_>>(), "rule heads");
            for r in b.rules() {
                let wr = w.get_rule(&StartNonTerminal::NTerm(*r.head()));
                let (x, y): (Vec<_>, Vec<_>) = (r.prods().collect(), wr.prods().collect());
                ensure_eq!(y.len(), x.len(), "number of productions of {:?}", r.head());
                for (p, q) in x.iter().zip(&y) {
                    ensure_eq!(*q.action_key(), StartActionKey::ActionKey(*p.action_key()), "action key");
                    ensure!(matches!(q.action_value(), StartActionValue::ActionValue(v) if v == p.action_value()), "action value");
                    ensure!(q.action_key().as_base() == Some(p.action_key()), "as_base");
                    ensure_eq!(*q.head(), StartNonTerminal::NTerm(*p.head()), "head");
                    let e: Vec<_> = p.prod_elements().iter().map(|e| ProdElement::new(e.id().cloned(), match e.elem() { Elem::Term(t) => Elem::Term(StreamTerminal::Term(*t)), Elem::NonTerm(n) => Elem::NonTerm(StartNonTerminal::NTerm(*n)) })).collect();
                    ensure_eq!(*q.prod_elements(), e, "elements");
                    for e in q.elements() { if let Elem::Term(t) = e { ensure!(!t.is_eos(), "end of stream inside"); for k in 0..4 { ensure_eq!(t.has_kind(&Tk(k)), *t == StreamTerminal::Term(Tk(k)), "has_kind"); } } }
                }
            }
            let eos: StreamTerminal<Tk> = StreamTerminal::EndOfStream;
            ensure!(eos.is_eos() && !eos.has_kind(&Tk(0)), "end of stream terminal");
            Ok(1)
        });
}
