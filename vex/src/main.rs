//! vex: mechanical extraction of functions of /repo into a Verus file.
//!
//!   vex REPO UNIT OUT.rs REPORT.txt
//!
//! A unit is Verus text with directives (lines starting with '@').  Every
//! function body that ends up in OUT.rs is parsed from REPO's current source
//! on every run; nothing of it is kept here.  See DESIGN.md for the list of
//! rewrites.  Exit 0: written.  Exit 3: an anchor was lost or a construct is
//! outside what the extraction handles (message on stderr).

mod spec;
mod unit;
mod xform;

use std::process::exit;

pub fn die(msg: String) -> ! {
    eprintln!("vex: {}", msg);
    exit(3)
}

/// The source files of the crate, by their path from its root.
pub fn sources(repo: &str) -> Vec<String> {
    fn walk(d: &std::path::Path, root: &str, out: &mut Vec<String>) {
        let mut es: Vec<_> = match std::fs::read_dir(d) { Ok(r) => r.filter_map(|e| e.ok()).map(|e| e.path()).collect(), Err(_) => return };
        es.sort();
        for e in es {
            if e.is_dir() { walk(&e, root, out); }
            else if e.extension().map_or(false, |x| x == "rs") { out.push(e.strip_prefix(root).unwrap().to_string_lossy().into_owned()); }
        }
    }
    let mut out = vec![];
    walk(&std::path::Path::new(repo).join("src"), repo, &mut out);
    out
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() != 6 {
        eprintln!("usage: vex REPO BASE UNIT OUT.rs REPORT");
        exit(2);
    }
    let mut u = unit::Unit::new(&a[1], &a[2]);
    u.file(&a[3], false);
    u.resolve();
    let (text, report) = u.finish();
    std::fs::write(&a[4], text).unwrap();
    std::fs::write(&a[5], report).unwrap();
}
