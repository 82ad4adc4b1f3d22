//! Unit files: directives, item lookup, emission.
use crate::die;
use crate::xform::{self, Ctx};
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet};
use syn::{Item, ImplItem, TraitItem};

/// One contract: sections of annotation text for one function.
#[derive(Clone, Default, Debug)]
pub struct Contract {
    pub ret: String,
    /// (section header, text)
    pub sections: Vec<(String, String)>,
}
impl Contract {
    pub fn get(&self, name: &str) -> Option<&str> {
        self.sections.iter().find(|(n, _)| n == name).map(|(_, t)| t.as_str())
    }
}

enum Piece {
    Text(String),
    Type { file: String, name: String, opts: Vec<String> },
    Fn { file: String, path: String, opts: Vec<String>, c: Contract, use_only: bool },
    /// Items of the source that are relied on as they stand.
    Pin { file: String, text: String },
    /// A trait impl or a trait definition, emitted as one block.
    Block { file: String, head: String, methods: BTreeMap<String, Contract>, pre: String, use_only: bool, is_trait: bool, opts: Vec<String> },
}

pub struct Unit {
    repo: String,
    base: String,
    pieces: Vec<Piece>,
    files: BTreeMap<String, syn::File>,
    inlines: Vec<(String, String)>,
    erase: BTreeSet<String>,
    types: BTreeMap<String, String>,
    specable: BTreeSet<String>,
    dropbound: BTreeSet<String>,
    renames: BTreeMap<String, String>,
    seen: BTreeSet<String>,
    report: Vec<String>,
    out: String,
    /// functions that are handed the state behind a lock, and whether they may change it
    threads: BTreeMap<String, bool>,
    helpers_any: BTreeMap<String, (syn::Signature, syn::Block)>,
}

/// Method names of std that a function of the crate may share.
const COMMON: &str = "new default clone insert get get_mut iter iter_mut into_iter next len is_empty push pop eq ne cmp partial_cmp lt le gt ge map filter fmt from into as_ref as_mut borrow borrow_mut deref drop hash add sub mul contains contains_key keys values remove extend append clear first last find position any all count sum min max take skip zip rev chain fold collect cloned copied unwrap expect ok err is_some is_none is_ok is_err and_then or_else entry or_insert or_insert_with or_default then then_with swap replace sort dedup retain drain split join trim chars bytes lines to_string to_owned as_str as_bytes parse write read flush index value key name id";

impl Unit {
    pub fn new(repo: &str, base: &str) -> Self {
        Unit {
            repo: repo.into(), base: base.into(), pieces: vec![], files: BTreeMap::new(), inlines: vec![],
            erase: BTreeSet::new(), types: BTreeMap::new(), specable: BTreeSet::new(), dropbound: BTreeSet::new(),
            renames: BTreeMap::new(), seen: BTreeSet::new(), report: vec![], out: String::new(), threads: BTreeMap::new(), helpers_any: BTreeMap::new(),
        }
    }

    fn src(&mut self, file: &str) -> syn::File {
        if !self.files.contains_key(file) {
            let p = format!("{}/{}", self.repo, file);
            let t = std::fs::read_to_string(&p).unwrap_or_else(|e| die(format!("cannot read {}: {}", file, e)));
            let f = syn::parse_file(&t).unwrap_or_else(|e| die(format!("cannot parse {}: {}", file, e)));
            self.files.insert(file.into(), f);
        }
        self.files[file].clone()
    }

    pub fn file(&mut self, path: &str, use_only: bool) {
        if !self.seen.insert(path.to_string()) {
            return;
        }
        let t = std::fs::read_to_string(format!("{}/{}", self.base, path)).unwrap_or_else(|e| die(format!("{}: {}", path, e)));
        let lines: Vec<&str> = t.lines().collect();
        let mut text = String::new();
        let mut i = 0;
        while i < lines.len() {
            let l = lines[i];
            i += 1;
            if !l.starts_with('@') {
                text.push_str(l);
                text.push('\n');
                continue;
            }
            if !text.is_empty() {
                self.pieces.push(Piece::Text(std::mem::take(&mut text)));
            }
            let w: Vec<String> = l.split_whitespace().map(|s| s.to_string()).collect();
            match w[0].as_str() {
                "@include" => self.file(&w[1], use_only),
                "@use" => self.file(&w[1], true),
                "@inline" => self.inlines.push((w[1].clone(), w[2].clone())),
                "@erase" => self.erase.extend(w[1..].iter().cloned()),
                "@dropbound" => self.dropbound.extend(w[1..].iter().cloned()),
                "@specable" => self.specable.extend(w[1..].iter().cloned()),
                "@subst" => { self.types.insert(w[1].clone(), w[2..].join(" ")); }
                "@rename" => { self.renames.insert(w[1].clone(), w[2].clone()); }
                "@pin" => {
                    let mut text = String::new();
                    while i < lines.len() && lines[i] != "@end" { text.push_str(lines[i]); text.push('\n'); i += 1; }
                    i += 1;
                    self.pieces.push(Piece::Pin { file: w[1].clone(), text });
                }
                "@type" => self.pieces.push(Piece::Type { file: w[1].clone(), name: w[2].clone(), opts: w[3..].to_vec() }),
                "@fn" => {
                    let (c, ni) = Self::contract(&lines, i, &w);
                    i = ni;
                    let opts: Vec<String> = w[3..].iter().take_while(|x| *x != "->").cloned().collect();
                    let uo = use_only || opts.iter().any(|o| o == "trusted");
                    self.pieces.push(Piece::Fn { file: w[1].clone(), path: w[2].clone(), opts, c, use_only: uo });
                }
                "@impl" | "@trait" => {
                    let is_trait = w[0] == "@trait";
                    let mut opts = vec![];
                    let mut head = vec![];
                    for x in &w[2..] { if let Some(o) = x.strip_prefix('+') { opts.push(o.to_string()) } else { head.push(x.clone()) } }
                    let mut methods = BTreeMap::new();
                    let mut pre = String::new();
                    while i < lines.len() && lines[i] != "@end" {
                        if lines[i].starts_with("@method") {
                            let mw: Vec<String> = lines[i].split_whitespace().map(|s| s.to_string()).collect();
                            let mut ww = vec!["@fn".to_string(), "".to_string()];
                            ww.extend(mw[1..].iter().cloned());
                            let mut j = i + 1;
                            while j < lines.len() && !lines[j].starts_with("@method") && lines[j] != "@end" { j += 1; }
                            let sub: Vec<&str> = lines[i + 1..j].iter().cloned().chain(std::iter::once("@end")).collect();
                            let (c, _) = Self::contract(&sub, 0, &ww);
                            methods.insert(mw[1].clone(), c);
                            i = j;
                        } else {
                            pre.push_str(lines[i]);
                            pre.push('\n');
                            i += 1;
                        }
                    }
                    i += 1;
                    self.pieces.push(Piece::Block { file: w[1].clone(), head: head.join(" "), methods, pre, use_only, is_trait, opts });
                }
                o => die(format!("{}: unknown directive {}", path, o)),
            }
        }
        if !text.is_empty() {
            self.pieces.push(Piece::Text(text));
        }
    }

    fn contract(lines: &[&str], mut i: usize, w: &[String]) -> (Contract, usize) {
        let mut c = Contract::default();
        c.ret = w.iter().position(|x| x == "->").map(|p| w[p + 1].clone()).unwrap_or("vx_ret".into());
        let mut cur = String::from("spec");
        let mut text = String::new();
        while i < lines.len() && lines[i] != "@end" {
            if let Some(h) = lines[i].strip_prefix('.') {
                if !text.trim().is_empty() || cur != "spec" {
                    c.sections.push((cur.clone(), std::mem::take(&mut text)));
                }
                text.clear();
                cur = h.trim().to_string();
                if let Some(d) = h.trim().strip_prefix("desugar ") { cur = "desugar".into(); text = d.to_string(); }
                if let Some(d) = h.trim().strip_prefix("mutable ") { cur = "mutable".into(); text = d.to_string(); }
                if let Some(d) = h.trim().strip_prefix("thread ") { cur = "thread".into(); text = d.to_string(); }
                if let Some(d) = h.trim().strip_prefix("pass ") { cur = "pass".into(); text = d.to_string(); }
                if let Some(d) = h.trim().strip_prefix("refuse ") { cur = "refuse".into(); text = d.to_string(); }
            } else {
                text.push_str(lines[i]);
                text.push('\n');
            }
            i += 1;
        }
        c.sections.push((cur, text));
        (c, i + 1)
    }

    fn find_impls<'a>(f: &'a syn::File, ty: &str) -> Vec<&'a syn::ItemImpl> {
        f.items.iter().filter_map(|it| match it {
            Item::Impl(im) if im.trait_.is_none() && xform::type_name(&im.self_ty) == ty => Some(im),
            _ => None,
        }).collect()
    }

    /// The text of an item without its documentation, for comparison.
    fn plain(it: &Item) -> String {
        let mut it = it.clone();
        match &mut it {
            Item::Impl(i) => {
                i.attrs.clear();
                for m in i.items.iter_mut() { if let ImplItem::Fn(m) = m { m.attrs.clear(); } }
            }
            Item::Fn(f) => f.attrs.clear(),
            Item::Struct(s) => s.attrs.retain(|a| !a.path().is_ident("doc")),
            _ => {}
        }
        it.to_token_stream().to_string()
    }
    fn impl_of(it: &Item) -> Option<(String, String)> {
        match it {
            Item::Impl(im) => im.trait_.as_ref().map(|(_, p, _)| (p.segments.last().unwrap().ident.to_string(), xform::type_name(&im.self_ty))),
            _ => None,
        }
    }

    /// The text of the units takes comparing, copying and borrowing the extracted types to be what
    /// the derived implementations do.  An implementation written by hand has to have a contract
    /// here (`@impl`) or to be one that is relied on as it stands (`@pin`).
    fn hand_written(&mut self, pieces: &[Piece]) {
        let mut types: BTreeMap<String, String> = BTreeMap::new();
        let mut ok: BTreeSet<(String, String)> = BTreeSet::new();
        for p in pieces {
            match p {
                Piece::Type { file, name, .. } => { types.insert(name.clone(), file.clone()); }
                Piece::Block { head, is_trait: false, .. } => {
                    let (t, ty) = head.split_once(" for ").unwrap();
                    ok.insert((t.split('<').next().unwrap().to_string(), ty.to_string()));
                }
                Piece::Pin { file, text } => {
                    let want = syn::parse_file(text).unwrap_or_else(|e| die(format!("cannot parse the pinned items of {}: {}", file, e)));
                    let have: BTreeSet<String> = self.src(file).items.iter().map(Self::plain).collect();
                    for it in &want.items {
                        let t = Self::plain(it);
                        if !have.contains(&t) { die(format!("lost anchor: {} is relied on to have {}", file, t)); }
                        if let Some(k) = Self::impl_of(it) { ok.insert(k); }
                        self.report.push(format!("pin {} {}", file, t.chars().take(80).collect::<String>()));
                    }
                }
                _ => {}
            }
        }
        for file in crate::sources(&self.repo) {
            let f = self.src(&file);
            for it in &f.items {
                if let Some((t, ty)) = Self::impl_of(it) {
                    if !["PartialEq", "PartialOrd", "Ord", "Hash", "Clone", "Borrow", "Deref"].contains(&t.as_str()) { continue; }
                    let def = match types.get(&ty) { Some(d) => d, None => continue };
                    let own = f.items.iter().any(|it| match it { Item::Struct(s) => s.ident == ty, Item::Enum(s) => s.ident == ty, _ => false });
                    if (own && *def != file) || ok.contains(&(t.clone(), ty.clone())) { continue; }
                    die(format!("lost anchor: {} has a hand-written {} for {}", file, t, ty));
                }
            }
        }
    }

    pub fn resolve(&mut self) {
        let pieces = std::mem::take(&mut self.pieces);
        self.hand_written(&pieces);
        // Everything that has a contract of its own, by (file, path).
        let mut known: BTreeSet<(String, String)> = BTreeSet::new();
        for p in &pieces {
            match p {
                Piece::Fn { file, path, .. } => { known.insert((file.clone(), path.clone())); }
                _ => {}
            }
        }
        for p in &pieces {
            let cs: Vec<(String, &Contract)> = match p {
                Piece::Fn { path, c, .. } => vec![(path.clone(), c)],
                Piece::Block { head, methods, .. } => methods.iter().map(|(n, c)| (format!("{}::{}", head.rsplit(" for ").next().unwrap().split(|c| c == ' ' || c == '<').next().unwrap(), n), c)).collect(),
                _ => vec![],
            };
            for (n, c) in cs {
                if let Some(t) = c.get("thread") {
                    let m = t.contains("&mut");
                    if let Some((_, l)) = n.rsplit_once("::") { self.threads.insert(format!(".{}", l), m); }
                    self.threads.insert(n, m);
                }
            }
            if let Piece::Text(t) = p {
                for l in t.lines() { if let Some(r) = l.trim().strip_prefix("// vx-thread ") { let w: Vec<&str> = r.split_whitespace().collect(); self.threads.insert(if w[0].contains("::") { w[0].to_string() } else { format!(".{}", w[0]) }, w[1] == "mut"); } }
            }
        }
        self.helpers_any = self.any(&pieces);
        let mut inline_defs = BTreeMap::new();
        for (file, path) in self.inlines.clone() {
            let f = self.src(&file);
            let d = Self::lookup_fn(&f, &path).unwrap_or_else(|| die(format!("lost anchor: {} {}", file, path)));
            let name = path.rsplit("::").next().unwrap().to_string();
            inline_defs.insert(name, (d.1.clone(), d.2.clone()));
        }
        for p in pieces {
            let l0 = self.out.matches('\n').count() + 1;
            let label = match &p {
                Piece::Text(_) => "text".to_string(),
                Piece::Pin { .. } => continue,
                Piece::Type { file, name, .. } => format!("type {} {}", file, name),
                Piece::Fn { file, path, .. } => format!("fn {} {}", file, path),
                Piece::Block { file, head, is_trait, .. } => format!("{} {} {}", if *is_trait { "trait" } else { "impl" }, file, head),
            };
            match p {
                Piece::Pin { .. } => {}
                Piece::Text(t) => self.out.push_str(&t),
                Piece::Type { file, name, opts } => {
                    let f = self.src(&file);
                    self.emit_type(&f, &file, &name, &opts);
                }
                Piece::Fn { file, path, opts, c, use_only } => {
                    let f = self.src(&file);
                    let (im, sig, block) = Self::lookup_fn(&f, &path).unwrap_or_else(|| die(format!("lost anchor: {} {}", file, path)));
                    let mut ctx = self.ctx(&f, &file, &path, &inline_defs, &known);
                    let body = xform::emit_fn(&mut ctx, &sig, Some(&block), &c, use_only, true);
                    self.report.append(&mut ctx.report);
                    let attrs = if use_only { String::new() } else { opts.iter().filter(|o| o.starts_with("#[")).cloned().collect::<Vec<_>>().join("\n") };
                    if let Some(im) = im {
                        let head = xform::impl_head(&ctx, &im, None);
                        self.out.push_str(&format!("{} {{\n{}\n{}\n}}\n", head, attrs, body));
                    } else {
                        self.out.push_str(&format!("{}\n{}\n", attrs, body));
                    }
                    self.report.push(format!("fn {} {} {}", file, path, if use_only { "use" } else { "prove" }));
                }
                Piece::Block { file, head, methods, pre, use_only, is_trait, opts } => {
                    let f = self.src(&file);
                    if is_trait {
                        let tr = f.items.iter().find_map(|it| match it { Item::Trait(t) if t.ident == head => Some(t.clone()), _ => None })
                            .unwrap_or_else(|| die(format!("lost anchor: {} trait {}", file, head)));
                        let ctx0 = self.ctx(&f, &file, &head, &inline_defs, &known);
                        let mut body = String::new();
                        for it in &tr.items {
                            match it {
                                TraitItem::Fn(m) => {
                                    let c = methods.get(&m.sig.ident.to_string()).cloned().unwrap_or_default();
                                    let mut ctx = self.ctx(&f, &file, &format!("{}::{}", head, m.sig.ident), &inline_defs, &known);
                                    body.push_str(&xform::emit_fn(&mut ctx, &m.sig, m.default.as_ref(), &c, false, false));
                                    self.report.append(&mut ctx.report);
                                }
                                TraitItem::Type(t) => {
                                    let mut t = t.clone();
                                    t.attrs.clear();
                                    xform::drop_bounds(&ctx0, &mut t.bounds);
                                    body.push_str(&t.to_token_stream().to_string());
                                }
                                o => die(format!("unsupported trait item in {}: {}", head, o.to_token_stream())),
                            }
                            body.push('\n');
                        }
                        self.out.push_str(&format!("{} {{\n{}\n{}\n}}\n", xform::trait_head(&ctx0, &tr), pre, body));
                        self.report.push(format!("trait {} {}", file, head));
                    } else {
                        // "Trait for Type"
                        let (tname, ty) = head.split_once(" for ").unwrap_or_else(|| die(format!("bad @impl {}", head)));
                        let im = f.items.iter().find_map(|it| match it {
                            Item::Impl(im) => match &im.trait_ {
                                Some((_, p, _)) if (p.segments.last().unwrap().ident == tname || p.to_token_stream().to_string().replace(' ', "") == tname.replace(' ', "")) && xform::type_name(&im.self_ty) == ty => Some(im.clone()),
                                _ => None,
                            },
                            _ => None,
                        }).unwrap_or_else(|| die(format!("lost anchor: {} impl {}", file, head)));
                        let ctx0 = self.ctx(&f, &file, &head, &inline_defs, &known);
                        let mut body = String::new();
                        for it in &im.items {
                            match it {
                                ImplItem::Fn(m) => {
                                    let n = m.sig.ident.to_string();
                                    let c = methods.get(&n).cloned().unwrap_or_default();
                                    let mut ctx = self.ctx(&f, &file, &format!("{}::{}", ty, n), &inline_defs, &known);
                                    body.push_str(&xform::emit_fn(&mut ctx, &m.sig, Some(&m.block), &c, use_only, opts.iter().any(|o| o == "inherent")));
                                    self.report.append(&mut ctx.report);
                                    self.report.push(format!("fn {} <{}>::{} {}", file, head, n, if use_only { "use" } else { "prove" }));
                                }
                                ImplItem::Type(t) => body.push_str(&xform::impl_type(&ctx0, t.clone())),
                                o => body.push_str(&o.to_token_stream().to_string()),
                            }
                            body.push('\n');
                        }
                        for n in methods.keys() {
                            if !im.items.iter().any(|it| matches!(it, ImplItem::Fn(m) if m.sig.ident == n.as_str())) {
                                die(format!("lost anchor: {} impl {} method {}", file, head, n));
                            }
                        }
                        let tname2 = if opts.iter().any(|o| o == "inherent") { None } else { im.trait_.as_ref().map(|t| t.1.clone()) };
                        self.out.push_str(&format!("{} {{\n{}\n{}\n}}\n", xform::impl_head(&ctx0, &im, tname2.as_ref()), pre, body));
                    }
                }
            }
            let l1 = self.out.matches('\n').count();
            self.report.push(format!("range {} {} {}", l0, l1, label));
        }
    }

    fn ctx(&self, f: &syn::File, file: &str, path: &str, inline_defs: &BTreeMap<String, (syn::Signature, syn::Block)>, known: &BTreeSet<(String, String)>) -> Ctx {
        // Helpers of the same file without a contract of their own are inlined.
        let ty = path.rsplit_once("::").map(|x| x.0.to_string());
        let mut helpers_fn = BTreeMap::new();
        let mut helpers_m = BTreeMap::new();
        for it in &f.items {
            match it {
                Item::Fn(d) => {
                    let n = d.sig.ident.to_string();
                    if !known.contains(&(file.to_string(), n.clone())) && n != path {
                        helpers_fn.insert(n, (d.sig.clone(), (*d.block).clone()));
                    }
                }
                Item::Impl(im) if im.trait_.is_none() => {
                    let t = xform::type_name(&im.self_ty);
                    if Some(&t) == ty.as_ref() {
                        for m in &im.items {
                            if let ImplItem::Fn(m) = m {
                                let n = m.sig.ident.to_string();
                                let full = format!("{}::{}", t, n);
                                if !known.contains(&(file.to_string(), full.clone())) && full != path {
                                    helpers_m.insert(n, (m.sig.clone(), m.block.clone()));
                                }
                            }
                        }
                    }
                }
                _ => {}
            }
        }
        Ctx {
            file: file.into(), path: path.into(), self_ty: ty,
            inline_defs: inline_defs.clone(), helpers_fn, helpers_m, helpers_any: self.helpers_any.clone(),
            erase: self.erase.clone(), types: self.types.clone(), specable: self.specable.clone(),
            dropbound: self.dropbound.clone(), renames: self.renames.clone(), counter: 0, report: vec![],
            erased_fields: self.erased_fields(), iter_params: BTreeSet::new(), mods: self.mods(), threads: self.threads.clone(), pass: BTreeSet::new(),
        }
    }

    /// Functions and inherent methods of the crate that have no contract in this unit and whose
    /// name nothing else bears: calls of them are inlined, wherever they are defined.
    fn any(&self, pieces: &[Piece]) -> BTreeMap<String, (syn::Signature, syn::Block)> {
        let mut not: BTreeSet<String> = COMMON.split(' ').map(|s| s.to_string()).collect();
        for (a, b) in xform::METHODS { not.insert(a.to_string()); not.insert(b.to_string()); }
        for p in pieces {
            match p {
                Piece::Text(t) => {
                    let w: Vec<&str> = t.split(|c: char| !c.is_alphanumeric() && c != '_').filter(|s| !s.is_empty()).collect();
                    for k in w.windows(2) { if k[0] == "fn" { not.insert(k[1].to_string()); } }
                }
                Piece::Fn { path, .. } => { not.insert(path.rsplit("::").next().unwrap().to_string()); }
                Piece::Block { methods, .. } => not.extend(methods.keys().cloned()),
                _ => {}
            }
        }
        let mut found: BTreeMap<String, Vec<(syn::Signature, syn::Block)>> = BTreeMap::new();
        let mut todo = vec![std::path::PathBuf::from(format!("{}/src", self.repo))];
        while let Some(d) = todo.pop() {
            for e in std::fs::read_dir(&d).into_iter().flatten().flatten() {
                let p = e.path();
                if p.is_dir() { todo.push(p); continue; }
                if p.extension().map_or(true, |x| x != "rs") { continue; }
                let Some(f) = std::fs::read_to_string(&p).ok().and_then(|t| syn::parse_file(&t).ok()) else { continue };
                for it in &f.items {
                    match it {
                        Item::Fn(d) => found.entry(d.sig.ident.to_string()).or_default().push((d.sig.clone(), (*d.block).clone())),
                        Item::Impl(im) => for m in &im.items {
                            if let ImplItem::Fn(m) = m {
                                if im.trait_.is_some() { not.insert(m.sig.ident.to_string()); }
                                found.entry(m.sig.ident.to_string()).or_default().push((m.sig.clone(), m.block.clone()));
                            }
                        },
                        Item::Trait(t) => for m in &t.items { if let TraitItem::Fn(m) = m { not.insert(m.sig.ident.to_string()); } },
                        _ => {}
                    }
                }
            }
        }
        found.into_iter().filter(|(n, v)| v.len() == 1 && !not.contains(n)).map(|(n, mut v)| (n, v.pop().unwrap())).collect()
    }

    fn mods(&self) -> BTreeSet<String> {
        let mut r = BTreeSet::new();
        let mut todo = vec![std::path::PathBuf::from(format!("{}/src", self.repo))];
        while let Some(d) = todo.pop() {
            for e in std::fs::read_dir(&d).into_iter().flatten().flatten() {
                let p = e.path();
                if p.is_dir() { todo.push(p.clone()); }
                if let Some(s) = p.file_stem() { r.insert(s.to_string_lossy().to_string()); }
            }
        }
        r
    }

    fn erased_fields(&self) -> BTreeSet<String> {
        let mut r = BTreeSet::new();
        for f in self.files.values() {
            for it in &f.items {
                if let Item::Struct(s) = it {
                    for fld in &s.fields {
                        if let (syn::Type::Path(p), Some(id)) = (&fld.ty, &fld.ident) {
                            if self.erase.contains(&p.path.segments.last().unwrap().ident.to_string()) {
                                r.insert(id.to_string());
                            }
                        }
                    }
                }
            }
        }
        r
    }

    fn lookup_fn(f: &syn::File, path: &str) -> Option<(Option<syn::ItemImpl>, syn::Signature, syn::Block)> {
        if let Some((ty, name)) = path.rsplit_once("::") {
            for im in Self::find_impls(f, ty) {
                for it in &im.items {
                    if let ImplItem::Fn(m) = it {
                        if m.sig.ident == name {
                            return Some((Some(im.clone()), m.sig.clone(), m.block.clone()));
                        }
                    }
                }
            }
            None
        } else {
            f.items.iter().find_map(|it| match it {
                Item::Fn(d) if d.sig.ident == path => Some((None, d.sig.clone(), (*d.block).clone())),
                _ => None,
            })
        }
    }

    fn emit_type(&mut self, f: &syn::File, file: &str, name: &str, opts: &[String]) {
        let ctx = self.ctx(f, file, name, &BTreeMap::new(), &BTreeSet::new());
        let it = f.items.iter().find(|it| match it {
            Item::Struct(s) => s.ident == name,
            Item::Enum(s) => s.ident == name,
            Item::Type(s) => s.ident == name,
            _ => false,
        }).unwrap_or_else(|| die(format!("lost anchor: {} type {}", file, name))).clone();
        let mut attrs = String::new();
        for o in opts {
            if let Some(ps) = o.strip_prefix("reject=") {
                for p in ps.split(',') {
                    attrs.push_str(&format!("#[verifier::reject_recursive_types({})]\n", p));
                }
            } else if let Some(ps) = o.strip_prefix("derive=") {
                attrs.push_str(&format!("#[derive({})]\n", ps));
            }
        }
        let ax = if opts.iter().any(|o| o == "ord") { xform::derived_ord(&ctx, &it) } else { String::new() };
        let t = xform::emit_type(&ctx, it, opts.iter().any(|o| o == "eq"));
        self.out.push_str(&format!("{}{}\n{}", attrs, t, ax));
        self.report.push(format!("type {} {}", file, name));
    }

    pub fn finish(self) -> (String, String) {
        (self.out, self.report.join("\n") + "\n")
    }
}
