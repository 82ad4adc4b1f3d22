#[path = "../bg.rs"] mod bg;
use bg::*;
use bvh::{cfg::*, *};
use bongo::grammar::passes::{nullable::Nullable, firsts::Firsts, Pass, PassContext};
use std::cell::RefCell;
use std::rc::Rc;
use std::any::Any;
#[derive(Clone, Debug)]
struct C { deps: Vec<Vec<usize>>, fails: Vec<bool>, swallow: Vec<bool>, reqs: Vec<usize> }
thread_local! { static CFG: RefCell<(Option<C>, Vec<u64>)> = RefCell::new((None, vec![0; 5])); }
#[derive(Debug)] struct E(usize);
impl std::fmt::Display for E { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "E{}", self.0) } }
impl std::error::Error for E {}
struct Pn<const N: usize>(u64);
impl<const N: usize> Pass<Tk, Nt, Ak, Av> for Pn<N> {
    type Error = E;
    fn run_pass(ctx: &PassContext<Tk, Nt, Ak, Av>) -> Result<Self, E> {
        let (c, run) = CFG.with(|x| { let mut x = x.borrow_mut(); x.1[N] += 1; (x.0.clone().unwrap(), x.1[N]) });
        for d in &c.deps[N] { let r = req(ctx, *d); if !c.swallow[N] { r.map(|_| ())?; } }
        if c.fails[N] { Err(E(N)) } else { Ok(Pn(run)) }
    }
}
fn req(ctx: &PassContext<Tk, Nt, Ak, Av>, n: usize) -> Result<(Rc<dyn Any>, u64), E> {
    Ok(match n { 0 => { let r = ctx.get_pass::<Pn<0>>()?; let v = r.0; (r, v) } 1 => { let r = ctx.get_pass::<Pn<1>>()?; let v = r.0; (r, v) } 2 => { let r = ctx.get_pass::<Pn<2>>()?; let v = r.0; (r, v) } 3 => { let r = ctx.get_pass::<Pn<3>>()?; let v = r.0; (r, v) } _ => { let r = ctx.get_pass::<Pn<4>>()?; let v = r.0; (r, v) } })
}
#[derive(Debug, PartialEq)] enum Out { Ok, Err(usize), Panic }
/// Reference: done = computed, run = in progress.
fn sim(c: &C, n: usize, done: &mut Vec<bool>, run: &mut Vec<bool>, cnt: &mut Vec<u64>) -> Out {
    if done[n] { return Out::Ok; }
    if run[n] { return Out::Panic; }
    run[n] = true; cnt[n] += 1;
    for d in &c.deps[n] { match sim(c, *d, done, run, cnt) { Out::Panic => return Out::Panic, Out::Err(e) if !c.swallow[n] => { run[n] = false; return Out::Err(e); } _ => {} } }
    run[n] = false;
    if c.fails[n] { Out::Err(n) } else { done[n] = true; Out::Ok }
}
/// Two passes of the same name: `std::any::type_name` cannot tell them apart.
macro_rules! same { ($n:expr) => {{
    struct P(u32);
    impl Pass<Tk, Nt, Ak, Av> for P { type Error = E; fn run_pass(_: &PassContext<Tk, Nt, Ak, Av>) -> Result<Self, E> { Ok(P($n)) } }
    |c: &PassContext<Tk, Nt, Ak, Av>| c.get_pass::<P>().ok().map(|p| p.0)
}} }
fn main() {
    let g = parse_g("S: a S | ");
    run("C14", "random dependency graphs over five passes (some failing, some swallowing the errors of others, some cyclic) and request sequences of 1-8, compared with a reference evaluation: outcome, error, identity of results, number of runs; plus the real passes; non-trivial: a dependency and a repeated request", 100000,
        |r, _| { let cyc = r.chance(1, 4); let q = r.below(4); C { deps: (0..5).map(|i| (0..r.below(3)).filter_map(|_| { let d = r.below(5); if cyc || d > i { Some(d) } else { None } }).collect()).collect(), fails: (0..5).map(|_| r.chance(q, 6)).collect(), swallow: (0..5).map(|_| r.chance(1, 4)).collect(), reqs: (0..r.range_size(1, 8)).map(|_| r.below(5)).collect() } },
        |c| c.deps.iter().any(|d| !d.is_empty()) && c.reqs.len() > c.reqs.iter().collect::<std::collections::BTreeSet<_>>().len(),
        |c| {
            let b = must_build(&g)?;
            let ctx = PassContext::new(&b);
            ensure!(std::ptr::eq(ctx.grammar(), &b), "grammar of the context");
            CFG.with(|x| *x.borrow_mut() = (Some(c.clone()), vec![0; 5]));
            let (mut done, mut run, mut cnt) = (vec![false; 5], vec![false; 5], vec![0; 5]);
            let mut got: Vec<Option<(Rc<dyn Any>, u64)>> = vec![None; 5];
            for n in &c.reqs {
                let want = sim(c, *n, &mut done, &mut run, &mut cnt);
                let r = panics(|| req(&ctx, *n));
                let out = match &r { Err(_) => Out::Panic, Ok(Err(e)) => Out::Err(e.0), Ok(Ok(_)) => Out::Ok };
                ensure_eq!(out, want, "outcome of requesting pass {}", n);
                if want == Out::Panic { break; }
                ensure_eq!(CFG.with(|x| x.borrow().1.clone()), cnt, "numbers of runs");
                if let Ok(Ok(v)) = r { if let Some(o) = &got[*n] { ensure!(Rc::ptr_eq(&o.0, &v.0) && o.1 == v.1, "a repeated request gave a different result"); } got[*n] = Some(v); }
            }
            for _ in 0..2 {
                let (one, two) = (same!(1), same!(2));
                ensure_eq!(panics(|| (one(&ctx), two(&ctx))).ok(), Some((Some(1), Some(2))), "results of two passes of the same name");
                let (x, y) = (ctx.get_pass::<Nullable<Nt, Ak>>().map_err(|e| format!("{:?}", e))?, ctx.get_pass::<Nullable<Nt, Ak>>().map_err(|e| format!("{:?}", e))?);
                ensure!(Rc::ptr_eq(&x, &y) && x.is_nullable(&Nt(b'S' - b'A')), "nullable pass");
                let (x, y) = (ctx.get_pass::<Firsts<Tk, Nt>>().map_err(|e| format!("{:?}", e))?, ctx.get_pass::<Firsts<Tk, Nt>>().map_err(|e| format!("{:?}", e))?);
                ensure!(Rc::ptr_eq(&x, &y), "firsts pass");
            }
            Ok(1)
        });
}
