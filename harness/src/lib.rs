//! Case runner shared by the property harnesses.  Knows nothing about bongo.
use std::collections::HashSet;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub mod cfg;

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    /// `n`, but now and then several times as much: sizes are mostly small, not always.
    pub fn size(&mut self, n: usize) -> usize { if self.chance(1, 40) { n * self.range(3, 8) } else { n } }
    pub fn below_size(&mut self, n: usize) -> usize { let n = self.size(n); self.below(n) }
    pub fn range_size(&mut self, a: usize, n: usize) -> usize { let n = self.size(n); self.range(a, n) }
    pub fn new(seed: u64, idx: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ idx.wrapping_mul(0xD1B54A32D192ED03) ^ 0x1234_5678_9ABC_DEF1);
        r.next(); r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// 0 <= result < n
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() % n as u64) as usize } }
    pub fn range(&mut self, a: usize, b: usize) -> usize { a + self.below(b - a + 1) }
    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len())] }
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($m:tt)*) => { { let (a, b) = (&$a, &$b); if !(a == b) { return Err(format!("{}: got {:?}, expected {:?}", format!($($m)*), a, b)); } } };
}

/// Runs `f` and reports whether it panicked.
pub fn panics<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "panic".into())
    })
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\r' => o.push_str("\\r"), '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Args { seed: u64, cases: u64, only: Option<u64>, trace: Option<String>, secs: u64, threads: usize, case_secs: u64 }
fn args() -> Args {
    let mut a = Args { seed: 1, cases: 0, only: None, trace: None, secs: 60, threads: 8, case_secs: 60 };
    let v: Vec<String> = std::env::args().skip(1).collect();
    let mut i = 0;
    while i + 1 < v.len() {
        let n = || v[i + 1].parse::<u64>().unwrap_or(0);
        match v[i].as_str() {
            "--seed" => a.seed = n(), "--cases" => a.cases = n(), "--only" => a.only = Some(n()), "--secs" => a.secs = n(),
            "--threads" => a.threads = n() as usize, "--case-secs" => a.case_secs = n(), "--trace" => a.trace = Some(v[i + 1].clone()),
            o => panic!("unknown argument {}", o),
        }
        i += 2;
    }
    a
}

/// Generates case i from (seed, i), runs `check` on it, and prints one JSON object.
/// `sub` counts the evaluations inside a case (e.g. the strings tried on one grammar).
pub fn run<C: Debug + Send>(
    prop: &str, rule: &str, default_cases: u64,
    gen: impl Fn(&mut Rng, u64) -> C + Sync,
    nontrivial: impl Fn(&C) -> bool + Sync,
    check: impl Fn(&C) -> Result<u64, String> + Sync,
) {
    let a = args();
    std::panic::set_hook(Box::new(|_| {}));
    let total = if a.cases > 0 { a.cases } else { default_cases };
    let (lo, hi, threads) = match a.only { Some(i) => (i, i + 1, 1), None => (0, total, if a.trace.is_some() { 1 } else { a.threads }) };
    let next = AtomicU64::new(lo);
    let evals = AtomicU64::new(0);
    let done = AtomicU64::new(0);
    let fail: Mutex<Option<(u64, String, String)>> = Mutex::new(None);
    let samples: Mutex<Vec<String>> = Mutex::new(vec![]);
    let distinct: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
    let cur: Vec<Mutex<Option<(u64, Instant, String)>>> = (0..threads).map(|_| Mutex::new(None)).collect();
    let start = Instant::now();
    let report = |f: &Option<(u64, String, String)>, done: u64| {
        let s = samples.lock().unwrap();
        let fs = match f { None => "null".to_string(), Some((i, c, m)) => format!("{{\"index\":{},\"case\":{},\"message\":{}}}", i, js(c), js(m)) };
        println!("{{\"property\":{},\"seed\":{},\"cases\":{},\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"samples\":[{}],\"failure\":{},\"wall_s\":{:.2}}}",
            js(prop), a.seed, done, evals.load(Ordering::SeqCst), distinct.lock().unwrap().len(), js(rule), s.iter().map(|x| js(x)).collect::<Vec<_>>().join(","), fs, start.elapsed().as_secs_f64());
    };
    let stop = std::sync::atomic::AtomicBool::new(false);
    std::thread::scope(|sc| {
        let mut hs = vec![];
        for t in 0..threads {
            let (next, evals, done, fail, samples, distinct, cur, gen, nontrivial, check, a) = (&next, &evals, &done, &fail, &samples, &distinct, &cur, &gen, &nontrivial, &check, &a);
            hs.push(std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(sc, move || loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= hi || start.elapsed() > Duration::from_secs(a.secs) { break; }
                if fail.lock().unwrap().as_ref().map_or(false, |f| f.0 < i) { break; }
                let c = gen(&mut Rng::new(a.seed, i), i);
                let desc = format!("{:?}", c);
                if let Some(p) = &a.trace { let _ = std::fs::write(p, format!("{}\n{}", i, desc)); }
                *cur[t].lock().unwrap() = Some((i, Instant::now(), desc.clone()));
                let r = match panics(|| check(&c)) { Ok(r) => r, Err(p) => Err(format!("unexpected panic: {}", p)) };
                *cur[t].lock().unwrap() = None;
                done.fetch_add(1, Ordering::SeqCst);
                match r {
                    Ok(n) => {
                        evals.fetch_add(n, Ordering::SeqCst);
                        if nontrivial(&c) {
                            let mut h = std::collections::hash_map::DefaultHasher::new();
                            desc.hash(&mut h);
                            let fresh = distinct.lock().unwrap().insert(h.finish());
                            if fresh && i % 37 == 5 { let mut s = samples.lock().unwrap(); if s.len() < 3 { let mut d = desc; if d.len() > 600 { d = d.chars().take(600).collect(); } s.push(d); } }
                        }
                    }
                    Err(m) => { let mut f = fail.lock().unwrap(); if f.as_ref().map_or(true, |x| i < x.0) { *f = Some((i, desc, m)); } }
                }
            }).unwrap());
        }
        let (cur, fail, report, stop, done) = (&cur, &fail, &report, &stop, &done);
        sc.spawn(move || loop {
            std::thread::sleep(Duration::from_millis(100));
            if stop.load(Ordering::SeqCst) { break; }
            for c in cur {
                let g = c.lock().unwrap().clone();
                if let Some((i, t, d)) = g {
                    if t.elapsed() > Duration::from_secs(a.case_secs) {
                        let _ = fail;
                        report(&Some((i, d, format!("no answer within {} s (does not terminate)", a.case_secs))), done.load(Ordering::SeqCst));
                        std::process::exit(1);
                    }
                }
            }
        });
        for h in hs { let _ = h.join(); }
        stop.store(true, Ordering::SeqCst);
    });
    let f = fail.lock().unwrap().take();
    report(&f, done.load(Ordering::SeqCst));
    std::process::exit(if f.is_some() { 1 } else { 0 });
}

/// An iterator that tells less about its length than it knows.
#[derive(Clone)]
pub struct Shy<I>(pub I, pub usize);
impl<I: Iterator> Iterator for Shy<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { self.0.next() }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let (l, u) = self.0.size_hint();
        match self.1 % 3 { 0 => (l, u), 1 => (0, None), _ => (l.min(1), u.map(|x| x.saturating_add(3))) }
    }
}
pub fn shy<C: IntoIterator>(c: C, mode: usize) -> Shy<C::IntoIter> { Shy(c.into_iter(), mode) }
