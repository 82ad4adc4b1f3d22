//! The rewrites applied to extracted code (see DESIGN.md, "what the extraction changes").
use crate::die;
use crate::spec;
use crate::unit::Contract;
use proc_macro2::{Span, TokenStream};
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Ctx {
    pub file: String,
    pub path: String,
    pub self_ty: Option<String>,
    pub inline_defs: BTreeMap<String, (Signature, Block)>,
    pub helpers_fn: BTreeMap<String, (Signature, Block)>,
    pub helpers_m: BTreeMap<String, (Signature, Block)>,
    /// functions and methods of the crate, of other types and files, whose name is unmistakable
    pub helpers_any: BTreeMap<String, (Signature, Block)>,
    pub erase: BTreeSet<String>,
    pub types: BTreeMap<String, String>,
    pub specable: BTreeSet<String>,
    pub dropbound: BTreeSet<String>,
    pub renames: BTreeMap<String, String>,
    pub counter: usize,
    pub report: Vec<String>,
    pub erased_fields: BTreeSet<String>,
    /// type parameters bounded by Iterator
    pub iter_params: BTreeSet<String>,
    pub threads: BTreeMap<String, bool>,
    pub pass: BTreeSet<String>,
    /// module names of the crate
    pub mods: BTreeSet<String>,
}

pub fn type_name(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        Type::Reference(r) => format!("&{}", type_name(&r.elem)),
        o => o.to_token_stream().to_string(),
    }
}

fn id(s: &str) -> Ident {
    Ident::new(s, Span::call_site())
}

// ---------------------------------------------------------------- types

struct Types<'c> {
    ctx: &'c Ctx,
}
fn last(p: &Path) -> String {
    p.segments.last().unwrap().ident.to_string()
}
fn iter_item(p: &Path) -> Option<Type> {
    if let PathArguments::AngleBracketed(a) = &p.segments.last().unwrap().arguments {
        for g in &a.args {
            if let GenericArgument::AssocType(t) = g {
                if t.ident == "Item" {
                    return Some(t.ty.clone());
                }
            }
        }
    }
    None
}
impl<'c> VisitMut for Types<'c> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::ImplTrait(it) = t {
            for b in &it.bounds {
                if let TypeParamBound::Trait(tb) = b {
                    if last(&tb.path) == "Iterator" {
                        let mut item = iter_item(&tb.path).unwrap_or_else(|| die("impl Iterator without Item".into()));
                        self.visit_type_mut(&mut item);
                        *t = parse_quote!(It<#item>);
                        return;
                    }
                }
            }
        }
        if let Type::Path(p) = t {
            let n = last(&p.path);
            if self.ctx.erase.contains(&n) {
                if let PathArguments::AngleBracketed(a) = &p.path.segments.last().unwrap().arguments {
                    let lt = a.args.iter().find_map(|g| if let GenericArgument::Lifetime(l) = g { Some(l.clone()) } else { None });
                    let ty = a.args.iter().find_map(|g| if let GenericArgument::Type(l) = g { Some(l.clone()) } else { None });
                    if let Some(mut ty) = ty {
                        self.visit_type_mut(&mut ty);
                        *t = match lt {
                            Some(l) if l.ident != "_" => parse_quote!(&#l #ty),
                            _ => parse_quote!(&#ty),
                        };
                        return;
                    }
                }
            }
            // I::Item and I for parameters bounded by Iterator
            let s = &p.path.segments;
            if s.len() == 2 && s[1].ident == "Item" && self.ctx.iter_params.contains(&s[0].ident.to_string()) {
                let nm = id(&format!("{}_Item", s[0].ident));
                *t = parse_quote!(#nm);
                return;
            }
            if s.len() == 1 && self.ctx.iter_params.contains(&s[0].ident.to_string()) {
                let nm = id(&format!("{}_Item", s[0].ident));
                *t = parse_quote!(It<#nm>);
                return;
            }
        }
        if let Type::TraitObject(o) = t {
            if let Some(TypeParamBound::Trait(b)) = o.bounds.first() {
                if let Some(to) = self.ctx.types.get(&format!("dyn:{}", last(&b.path))) { *t = parse_str(to).unwrap(); return; }
            }
        }
        if let Type::Paren(i) = t { let i = (*i.elem).clone(); if let Type::TraitObject(_) = i { *t = i; self.visit_type_mut(t); return; } }
        visit_mut::visit_type_mut(self, t);
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        let n = p.segments.len();
        let l = last(p);
        if let Some(to) = [("IntoIterator", "VxIntoIterator"), ("Into", "VxInto"), ("From", "VxConv"), ("AsRef", "VxAsRef")].iter().find(|x| x.0 == l) {
            let args = p.segments.last().unwrap().arguments.clone();
            let to = id(to.1);
            *p = parse_quote!(#to);
            p.segments.last_mut().unwrap().arguments = args;
        } else if let Some(to) = self.ctx.types.get(&l) {
            let args = p.segments.last().unwrap().arguments.clone();
            let mut np: Path = parse_str(to).unwrap();
            if np.segments.last().unwrap().arguments.is_none() {
                np.segments.last_mut().unwrap().arguments = args;
            }
            *p = np;
        } else if n >= 2 && ["Rc", "Arc"].contains(&p.segments[n - 2].ident.to_string().as_str()) && ["make_mut", "get_mut", "ptr_eq", "unwrap_or_clone"].contains(&l.as_str()) {
            let nm = id(&format!("vx_{}_{}", p.segments[n - 2].ident.to_string().to_lowercase(), l));
            *p = parse_quote!(#nm);
        } else if n >= 2 {
            // std::collections::btree_map::Entry::X, Vector::new, crate::utils::F, super::F
            let mut segs: Vec<PathSegment> = p.segments.iter().cloned().collect();
            if let Some(to) = self.ctx.types.get(&segs[n - 2].ident.to_string()) {
                let np: Path = parse_str(to).unwrap();
                let args = segs[n - 2].arguments.clone();
                segs[n - 2] = np.segments.last().unwrap().clone();
                if segs[n - 2].arguments.is_none() { segs[n - 2].arguments = args; }
                p.segments = segs.into_iter().collect();
            }
            let first = p.segments[0].ident.to_string();
            if (["std", "core", "alloc", "crate", "super", "self"].contains(&first.as_str()) || self.ctx.mods.contains(&first)) && p.segments.len() > 1 {
                // keep the last type-like prefix
                let segs: Vec<PathSegment> = p.segments.iter().cloned().collect();
                let mut k = segs.len() - 1;
                while k > 0 && segs[k - 1].ident.to_string().chars().next().unwrap().is_uppercase() { k -= 1; }
                let lastl = segs.last().unwrap().ident.to_string();
                if first == "std" && lastl.chars().next().unwrap().is_lowercase() && k == segs.len() - 1 {
                    // std free function: keep module
                    k -= 1;
                    let m = segs[k].ident.to_string();
                    if m == "iter" || m == "mem" || m == "ptr" {
                        let nm = id(&format!("vx_{}_{}", m, lastl));
                        let mut sg: PathSegment = parse_quote!(#nm);
                        sg.arguments = segs.last().unwrap().arguments.clone();
                        p.segments = vec![sg].into_iter().collect();
                        p.leading_colon = None;
                        return;
                    }
                }
                if k > 0 && segs[k - 1].ident == "btree_map" { k -= 1; }
                p.segments = segs[k..].iter().cloned().collect();
                p.leading_colon = None;
            }
        }
    }
    fn visit_generics_mut(&mut self, g: &mut Generics) {
        fix_generics(self.ctx, g);
        visit_mut::visit_generics_mut(self, g);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = &*c.func {
                let s = &p.path.segments;
                if s.len() == 2 && self.ctx.erase.contains(&s[0].ident.to_string()) && s[1].ident == "new" {
                    let a = c.args[0].clone();
                    *e = a;
                    return;
                }
            }
        }
        if let Expr::Unary(u) = e {
            if let (UnOp::Deref(_), Expr::Field(f)) = (&u.op, &*u.expr) {
                if let Member::Named(n) = &f.member {
                    if self.ctx.erased_fields.contains(&n.to_string()) {
                        let a = (*u.expr).clone();
                        *e = a;
                        return;
                    }
                }
            }
        }
    }
}

pub fn drop_bounds(ctx: &Ctx, bs: &mut punctuated::Punctuated<TypeParamBound, Token![+]>) {
    let keep: Vec<TypeParamBound> = bs.iter().filter(|b| match b {
        TypeParamBound::Trait(t) => {
            if let TraitBoundModifier::Maybe(_) = t.modifier { return true; }
            !ctx.dropbound.contains(&last(&t.path))
        }
        _ => true,
    }).cloned().collect();
    *bs = keep.into_iter().collect();
}

fn fix_generics(ctx: &Ctx, g: &mut Generics) {
    for p in g.params.iter_mut() {
        if let GenericParam::Type(t) = p {
            drop_bounds(ctx, &mut t.bounds);
            if t.bounds.is_empty() { t.colon_token = None; }
        }
    }
    if let Some(w) = &mut g.where_clause {
        for p in w.predicates.iter_mut() {
            if let WherePredicate::Type(t) = p { drop_bounds(ctx, &mut t.bounds); }
        }
        let keep: Vec<WherePredicate> = w.predicates.iter().filter(|p| match p {
            WherePredicate::Type(t) => !t.bounds.is_empty(),
            _ => true,
        }).cloned().collect();
        w.predicates = keep.into_iter().collect();
        if w.predicates.is_empty() { g.where_clause = None; }
    }
}

/// Type parameters bounded by Iterator become It<..>.
fn iterator_params(g: &mut Generics) -> (BTreeSet<String>, BTreeMap<String, Type>) {
    let mut set = BTreeSet::new();
    let mut fixed = BTreeMap::new();
    let mut check = |name: String, bs: &punctuated::Punctuated<TypeParamBound, Token![+]>| -> bool {
        for b in bs {
            if let TypeParamBound::Trait(t) = b {
                if last(&t.path) == "Iterator" {
                    if let Some(i) = iter_item(&t.path) { fixed.insert(name, i); } else { set.insert(name); }
                    return true;
                }
            }
        }
        false
    };
    let mut remove = BTreeSet::new();
    for p in g.params.iter_mut() {
        if let GenericParam::Type(t) = p {
            if check(t.ident.to_string(), &t.bounds) { remove.insert(t.ident.to_string()); }
        }
    }
    if let Some(w) = &mut g.where_clause {
        let mut keep = vec![];
        for p in w.predicates.iter() {
            if let WherePredicate::Type(t) = p {
                if check(type_name(&t.bounded_ty), &t.bounds) {
                    remove.insert(type_name(&t.bounded_ty));
                    continue;
                }
            }
            keep.push(p.clone());
        }
        w.predicates = keep.into_iter().collect();
    }
    let mut np = vec![];
    for p in g.params.iter() {
        match p {
            GenericParam::Type(t) if remove.contains(&t.ident.to_string()) => {
                if set.contains(&t.ident.to_string()) {
                    let nm = id(&format!("{}_Item", t.ident));
                    np.push(parse_quote!(#nm));
                }
            }
            o => np.push(o.clone()),
        }
    }
    g.params = np.into_iter().collect();
    (set, fixed)
}

struct SubstTy(BTreeMap<String, Type>);
impl VisitMut for SubstTy {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(p) = t {
            let s = &p.path.segments;
            if let Some(i) = self.0.get(&s[0].ident.to_string()) {
                if s.len() == 1 { *t = parse_quote!(It<#i>); return; }
                if s.len() == 2 && s[1].ident == "Item" { *t = i.clone(); return; }
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
}

fn split_generics(g: &Generics) -> (TokenStream, TokenStream) {
    let p = &g.params;
    let w = &g.where_clause;
    let ps = if p.is_empty() { quote!() } else { quote!(<#p>) };
    (ps, quote!(#w))
}

pub fn impl_head(ctx: &Ctx, im: &ItemImpl, tr: Option<&Path>) -> String {
    let mut im = im.clone();
    Types { ctx }.visit_generics_mut(&mut im.generics);
    Types { ctx }.visit_type_mut(&mut im.self_ty);
    // name anonymous lifetimes of the self type
    let (g, w) = split_generics(&im.generics);
    let ty = &im.self_ty;
    match tr {
        Some(p) => {
            let mut p = p.clone();
            Types { ctx }.visit_path_mut(&mut p);
            format!("impl{} {} for {} {}", g, p.to_token_stream(), ty.to_token_stream(), w)
        }
        None => format!("impl{} {} {}", g, ty.to_token_stream(), w),
    }
}

pub fn trait_head(ctx: &Ctx, t: &ItemTrait) -> String {
    let mut t = t.clone();
    Types { ctx }.visit_generics_mut(&mut t.generics);
    drop_bounds(ctx, &mut t.supertraits);
    let (g, w) = split_generics(&t.generics);
    let sup = &t.supertraits;
    let c = if sup.is_empty() { quote!() } else { quote!(: #sup) };
    format!("pub trait {}{} {} {}", t.ident, g, c, w)
}

pub fn impl_type(ctx: &Ctx, mut t: ImplItemType) -> String {
    Types { ctx }.visit_impl_item_type_mut(&mut t);
    t.to_token_stream().to_string()
}
/// A derived implementation is the usual one only without options on the fields.
fn field_attrs(what: &str, attrs: &[Attribute]) {
    for a in attrs {
        if last(a.path()) == "derivative" {
            let t = a.to_token_stream().to_string();
            if ["PartialEq", "Eq", "PartialOrd", "Ord", "Hash", "Clone"].iter().any(|n| t.split(|c: char| !c.is_alphanumeric()).any(|w| w == *n)) { die(format!("{}: unsupported option of a derived trait: {}", what, t)); }
        }
    }
}
fn derives_eq(what: &str, attrs: &[Attribute]) {
    let ok = attrs.iter().any(|a| ["derive", "derivative"].contains(&last(a.path()).as_str()) && a.to_token_stream().to_string().split(|c: char| !c.is_alphanumeric()).any(|w| w == "PartialEq"));
    if !ok { die(format!("lost anchor: {} derives PartialEq", what)); }
}
fn derives(attrs: &[Attribute], name: &str) -> bool {
    attrs.iter().any(|a| ["derive", "derivative"].contains(&last(a.path()).as_str()) && a.to_token_stream().to_string().split(|c: char| !c.is_alphanumeric()).any(|w| w == name))
}
/// The order that deriving Ord gives: by variant in the order of their declaration, then field by field.
pub fn derived_ord(ctx: &Ctx, it: &Item) -> String {
    let (name, gens, attrs, variants): (_, _, _, Vec<(Option<&Ident>, &Fields)>) = match it {
        Item::Struct(s) => (&s.ident, &s.generics, &s.attrs, vec![(None, &s.fields)]),
        Item::Enum(e) => (&e.ident, &e.generics, &e.attrs, e.variants.iter().map(|v| (Some(&v.ident), &v.fields)).collect()),
        _ => die(format!("{}: ord of something else than a type", ctx.file)),
    };
    if !derives(attrs, "Ord") { die(format!("lost anchor: {} {} derives Ord", ctx.file, name)); }
    if gens.params.iter().any(|p| !matches!(p, GenericParam::Type(_))) { die(format!("{} {}: ord of a type with such parameters", ctx.file, name)); }
    let ps = gens.type_params().map(|p| p.ident.to_string()).collect::<Vec<_>>().join(", ");
    let pat = |v: Option<&Ident>, f: &Fields, x: &str| {
        let c = match v { Some(v) => format!("{}::{}", name, v), None => name.to_string() };
        match f {
            Fields::Unit => c,
            Fields::Unnamed(u) => format!("{}({})", c, (0..u.unnamed.len()).map(|i| format!("{}{}", x, i)).collect::<Vec<_>>().join(", ")),
            Fields::Named(n) => format!("{} {{ {} }}", c, n.named.iter().enumerate().map(|(i, f)| format!("{}: {}{}", f.ident.as_ref().unwrap(), x, i)).collect::<Vec<_>>().join(", ")),
        }
    };
    let any = |v: Option<&Ident>, f: &Fields| {
        let c = match v { Some(v) => format!("{}::{}", name, v), None => name.to_string() };
        match f { Fields::Unit => c, Fields::Unnamed(_) => format!("{}(..)", c), Fields::Named(_) => format!("{} {{ .. }}", c) }
    };
    let mut arms = vec![];
    for (i, (v, f)) in variants.iter().enumerate() {
        let mut r = "std::cmp::Ordering::Equal".to_string();
        for k in (0..f.len()).rev() { r = if k + 1 == f.len() { format!("vx_ord(a{0}, b{0})", k) } else { format!("vx_lex(vx_ord(a{0}, b{0}), {1})", k, r) }; }
        arms.push(format!("({}, {}) => {}", pat(*v, f, "a"), pat(*v, f, "b"), r));
        for (j, (w, g)) in variants.iter().enumerate() {
            if i != j { arms.push(format!("({}, {}) => std::cmp::Ordering::{}", any(*v, f), any(*w, g), if i < j { "Less" } else { "Greater" })); }
        }
    }
    format!("pub axiom fn ax_ord_{0}<{1}>(x: {0}<{1}>, y: {0}<{1}>) ensures vx_ord(x, y) == (match (x, y) {{ {2} }});\n", name, ps, arms.join(", "))
}
pub fn emit_type(ctx: &Ctx, mut it: Item, eq: bool) -> String {
    fn strip(f: &mut Fields) {
        for x in f.iter_mut() {
            x.attrs.clear();
            x.vis = parse_quote!(pub);
        }
    }
    match &mut it {
        Item::Struct(s) => {
            let what = format!("{} type {}", ctx.file, s.ident);
            for f in s.fields.iter() { field_attrs(&what, &f.attrs); }
            if eq { derives_eq(&what, &s.attrs); }
            s.attrs.clear();
            s.vis = parse_quote!(pub);
            for f in s.fields.iter_mut() { f.attrs.clear(); }
            strip(&mut s.fields);
        }
        Item::Enum(e) => {
            let what = format!("{} type {}", ctx.file, e.ident);
            for v in e.variants.iter() { field_attrs(&what, &v.attrs); for f in v.fields.iter() { field_attrs(&what, &f.attrs); } }
            if eq { derives_eq(&what, &e.attrs); }
            e.attrs.clear();
            e.vis = parse_quote!(pub);
            for v in e.variants.iter_mut() {
                v.attrs.clear();
                for f in v.fields.iter_mut() { f.attrs.clear(); }
            }
        }
        Item::Type(t) => { t.attrs.clear(); t.vis = parse_quote!(pub); }
        _ => {}
    }
    Types { ctx }.visit_item_mut(&mut it);
    rustfmt(&it.to_token_stream().to_string())
}

// ---------------------------------------------------------------- inlining

struct RenameLocals {
    map: BTreeMap<String, String>,
}
impl VisitMut for RenameLocals {
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
        visit_mut::visit_pat_ident_mut(self, p);
        if let Some(n) = self.map.get(&p.ident.to_string()) { p.ident = id(n); }
    }
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        if p.path.segments.len() == 1 && p.qself.is_none() {
            if let Some(n) = self.map.get(&p.path.segments[0].ident.to_string()) { p.path.segments[0].ident = id(n); }
        } else {
            visit_mut::visit_expr_path_mut(self, p);
        }
    }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        // `S { a }` shorthand
        if f.colon_token.is_none() {
            if let (Member::Named(n), Expr::Path(p)) = (&f.member, &f.expr) {
                if self.map.contains_key(&n.to_string()) {
                    let mut e = p.clone();
                    self.visit_expr_path_mut(&mut e);
                    let m = f.member.clone();
                    *f = parse_quote!(#m: #e);
                    return;
                }
            }
        }
        visit_mut::visit_field_value_mut(self, f);
    }
}
struct Bindings(BTreeSet<String>);
impl<'a> Visit<'a> for Bindings {
    fn visit_pat_ident(&mut self, p: &'a PatIdent) {
        let n = p.ident.to_string();
        if n.chars().next().unwrap().is_lowercase() || n.starts_with('_') { self.0.insert(n); }
        visit::visit_pat_ident(self, p);
    }
}
struct HasReturn(bool);
impl<'a> Visit<'a> for HasReturn {
    fn visit_expr_return(&mut self, _: &'a ExprReturn) { self.0 = true; }
    fn visit_expr_try(&mut self, _: &'a ExprTry) { self.0 = true; }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
}
struct HasReturnDeep(bool);
impl<'a> Visit<'a> for HasReturnDeep {
    fn visit_expr_return(&mut self, _: &'a ExprReturn) { self.0 = true; }
    fn visit_expr_try(&mut self, _: &'a ExprTry) { self.0 = true; }
}
struct Mentions<'n>(&'n str, usize);
impl<'a, 'n> Visit<'a> for Mentions<'n> {
    fn visit_path(&mut self, p: &'a Path) {
        if p.is_ident(self.0) { self.1 += 1; }
        visit::visit_path(self, p);
    }
    fn visit_macro(&mut self, m: &'a Macro) {
        if m.tokens.to_string().split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| w == self.0) { self.1 += 1; }
    }
}

/// Replaces calls `f(args)` of a closure-valued parameter by the closure's body.
struct BetaReduce {
    name: String,
    clo: ExprClosure,
}
impl VisitMut for BetaReduce {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = &*c.func {
                if p.path.is_ident(&self.name) {
                    *e = beta(&self.clo, c.args.iter().cloned().collect());
                }
            }
        }
    }
}
fn beta(clo: &ExprClosure, args: Vec<Expr>) -> Expr {
    let mut stmts: Vec<Stmt> = vec![];
    for (p, a) in clo.inputs.iter().zip(args) {
        stmts.push(parse_quote!(let #p = #a;));
    }
    let body = &clo.body;
    if stmts.is_empty() {
        return (**body).clone();
    }
    if let Expr::Block(b) = &**body {
        if b.label.is_none() && b.attrs.is_empty() {
            stmts.extend(b.block.stmts.iter().cloned());
            return parse_quote!({ #(#stmts)* });
        }
    }
    parse_quote!({ #(#stmts)* #body })
}

/// The statements with every `return` in tail position, or None.
fn tail(stmts: &[Stmt], opt: bool) -> Option<Vec<Stmt>> {
    fn has(s: &Stmt) -> bool { let mut h = HasReturn(false); h.visit_stmt(s); h.0 }
    fn hase(e: &Expr) -> bool { let mut h = HasReturn(false); h.visit_expr(e); h.0 }
    fn diverges(b: &[Stmt]) -> bool { matches!(b.last(), Some(Stmt::Expr(Expr::Return(_), _))) }
    fn blk(s: Vec<Stmt>) -> Block { Block { brace_token: Default::default(), stmts: s } }
    fn val(e: &Expr, opt: bool) -> Option<Vec<Stmt>> { tail(&[Stmt::Expr(e.clone(), None)], opt) }
    let Some(i) = stmts.iter().position(has) else { return Some(stmts.to_vec()) };
    let rest = &stmts[i + 1..];
    let mut out = stmts[..i].to_vec();
    let last: Expr = match &stmts[i] {
        Stmt::Expr(Expr::Return(r), _) => { let e = r.expr.clone()?; return val(&e, opt).map(|v| { out.extend(v); out }) }
        Stmt::Expr(Expr::Block(b), _) if b.label.is_none() && rest.is_empty() => { out.extend(vec![Stmt::Expr(Expr::Block(ExprBlock { attrs: vec![], label: None, block: blk(tail(&b.block.stmts, opt)?) }), None)]); return Some(out) }
        Stmt::Expr(Expr::If(f), semi) => {
            if hase(&f.cond) { return None; }
            let els: Vec<Stmt> = match &f.else_branch {
                None => vec![],
                Some((_, e)) => match &**e { Expr::Block(b) => b.block.stmts.clone(), o => vec![Stmt::Expr(o.clone(), None)] },
            };
            let (a, b) = if rest.is_empty() && semi.is_none() && f.else_branch.is_some() {
                (tail(&f.then_branch.stmts, opt)?, tail(&els, opt)?)
            } else if diverges(&f.then_branch.stmts) {
                let mut v = els.clone();
                if let Some(Stmt::Expr(e, s @ None)) = v.last_mut() { let _ = e; *s = Some(Default::default()); }
                v.extend(rest.to_vec());
                (tail(&f.then_branch.stmts, opt)?, tail(&v, opt)?)
            } else if diverges(&els) {
                let mut v = f.then_branch.stmts.clone();
                if let Some(Stmt::Expr(_, s @ None)) = v.last_mut() { *s = Some(Default::default()); }
                v.extend(rest.to_vec());
                (tail(&v, opt)?, tail(&els, opt)?)
            } else { return None };
            let c = &f.cond;
            let (a, b) = (blk(a), blk(b));
            parse_quote!(if #c #a else #b)
        }
        Stmt::Expr(Expr::Match(m), semi) if rest.is_empty() && semi.is_none() => {
            if hase(&m.expr) { return None; }
            let mut m = m.clone();
            for arm in &mut m.arms {
                if arm.guard.as_ref().map_or(false, |g| hase(&g.1)) { return None; }
                let b = blk(val(&arm.body, opt)?);
                arm.body = Box::new(parse_quote!(#b));
                arm.comma = Some(Default::default());
            }
            Expr::Match(m)
        }
        Stmt::Local(l) => {
            let pat = &l.pat;
            let init = l.init.as_ref()?;
            if let Some((_, d)) = &init.diverge {
                if hase(&init.expr) { return None; }
                let Expr::Block(d) = &**d else { return None };
                if !diverges(&d.block.stmts) { return None; }
                let (a, b, e) = (blk(tail(rest, opt)?), blk(tail(&d.block.stmts, opt)?), &init.expr);
                parse_quote!(if let #pat = #e #a else #b)
            } else {
                match &*init.expr {
                    Expr::Try(t) if opt && !hase(&t.expr) => {
                        let pat = if let Pat::Type(t) = pat { &*t.pat } else { pat };
                        let (a, e) = (blk(tail(rest, opt)?), &t.expr);
                        parse_quote!(match #e { Some(#pat) => #a, None => None })
                    }
                    Expr::Match(m) if !hase(&m.expr) && m.arms.iter().filter(|a| !matches!(&*a.body, Expr::Return(_))).count() == 1 => {
                        let mut m = m.clone();
                        for arm in &mut m.arms {
                            if arm.guard.as_ref().map_or(false, |g| hase(&g.1)) { return None; }
                            let v = if let Expr::Return(r) = &*arm.body { val(r.expr.as_ref()?, opt)? } else {
                                let e = &arm.body;
                                let mut v: Vec<Stmt> = vec![parse_quote!(let #pat = #e;)];
                                v.extend(rest.to_vec());
                                tail(&v, opt)?
                            };
                            let b = blk(v);
                            arm.body = Box::new(parse_quote!(#b));
                            arm.comma = Some(Default::default());
                        }
                        Expr::Match(m)
                    }
                    _ => return None,
                }
            }
        }
        _ => return None,
    };
    out.push(Stmt::Expr(last, None));
    Some(out)
}

struct Inliner<'c> {
    ctx: &'c mut Ctx,
    changed: bool,
    depth: usize,
}
impl<'c> Inliner<'c> {
    fn inline(&mut self, name: &str, sig: &Signature, block: &Block, recv: Option<Expr>, args: Vec<Expr>) -> Expr {
        self.ctx.counter += 1;
        if self.ctx.counter > 60 { die(format!("{}: inlining does not end", self.ctx.path)); }
        let k = self.ctx.counter;
        let mut block = block.clone();
        // `return e;` as the last statement is a tail expression
        if let Some(Stmt::Expr(Expr::Return(r), _)) = block.stmts.last() {
            if let Some(e) = r.expr.clone() {
                let n = block.stmts.len();
                block.stmts[n - 1] = Stmt::Expr(*e, None);
            }
        }
        let mut hr = HasReturn(false);
        hr.visit_block(&block);
        if hr.0 {
            let opt = matches!(&sig.output, ReturnType::Type(_, t) if matches!(&**t, Type::Path(p) if last(&p.path) == "Option"));
            if let Some(s) = tail(&block.stmts, opt) { block.stmts = s; hr = HasReturn(false); hr.visit_block(&block); }
        }
        if hr.0 { die(format!("{}: call of {} cannot be inlined (it returns early)", self.ctx.path, name)); }
        // rename the callee's locals
        let mut b = Bindings(BTreeSet::new());
        b.visit_block(&block);
        for i in &sig.inputs {
            if let FnArg::Typed(t) = i { b.visit_pat(&t.pat); }
        }
        let mut map: BTreeMap<String, String> = b.0.iter().map(|n| (n.clone(), format!("{}_h{}", n, k))).collect();
        let mut stmts: Vec<Stmt> = vec![];
        if let Some(r) = recv {
            let is_self = matches!(&r, Expr::Path(p) if p.path.is_ident("self"));
            if !is_self {
                let nm = id(&format!("self_h{}", k));
                map.insert("self".into(), nm.to_string());
                match sig.inputs.first() {
                    Some(FnArg::Receiver(rc)) if rc.reference.is_some() && rc.mutability.is_some() => stmts.push(parse_quote!(let #nm = &mut #r;)),
                    Some(FnArg::Receiver(rc)) if rc.reference.is_some() => stmts.push(parse_quote!(let #nm = &#r;)),
                    _ => stmts.push(parse_quote!(let #nm = #r;)),
                }
            }
        }
        let mut rn = RenameLocals { map };
        rn.visit_block_mut(&mut block);
        let mut params: Vec<(Pat, Type)> = sig.inputs.iter().filter_map(|i| if let FnArg::Typed(t) = i { Some(((*t.pat).clone(), (*t.ty).clone())) } else { None }).collect();
        if params.len() != args.len() { die(format!("{}: inlining {}: argument count", self.ctx.path, name)); }
        for ((pat, _), arg) in params.iter_mut().zip(args) {
            rn.visit_pat_mut(pat);
            match (&*pat, &arg) {
                (Pat::Ident(pi), Expr::Closure(c)) => {
                    let mut h = HasReturnDeep(false);
                    h.visit_expr(&c.body);
                    if h.0 { die(format!("{}: closure with return passed to {}", self.ctx.path, name)); }
                    let nm = pi.ident.to_string();
                    BetaReduce { name: nm.clone(), clo: c.clone() }.visit_block_mut(&mut block);
                    let mut m = Mentions(&nm, 0);
                    m.visit_block(&block);
                    if m.1 > 0 { stmts.push(parse_quote!(let #pat = #arg;)); }
                }
                _ => stmts.push(parse_quote!(let #pat = #arg;)),
            }
        }
        self.changed = true;
        self.ctx.report.push(format!("inlined {} into {}", name, self.ctx.path));
        let bs = &block.stmts;
        parse_quote!({ #(#stmts)* #(#bs)* })
    }
}
impl<'c> Inliner<'c> {
    /// A helper passed by name becomes a closure that calls it.
    fn eta(&self, a: &mut Expr) {
        let Expr::Path(p) = &*a else { return };
        if p.qself.is_some() { return; }
        let (segs, n) = (&p.path.segments, last(&p.path));
        let d = if segs.len() == 1 { self.ctx.helpers_fn.get(&n) } else if segs.len() == 2 && (segs[0].ident == "Self" || Some(segs[0].ident.to_string()) == self.ctx.self_ty) { self.ctx.helpers_m.get(&n) } else { None };
        let Some((s, _)) = d else { return };
        let ps: Vec<Ident> = s.inputs.iter().enumerate().map(|(i, a)| match a {
            FnArg::Typed(t) => match &*t.pat { Pat::Ident(p) => p.ident.clone(), _ => id(&format!("vx_e{}", i)) },
            _ => id(&format!("vx_e{}", i)),
        }).collect();
        if matches!(s.inputs.first(), Some(FnArg::Receiver(_))) {
            let (f, m) = (&ps[0], id(&n));
            let r = &ps[1..];
            *a = parse_quote!(|#(#ps),*| #f.#m(#(#r),*));
        } else {
            let q = p.clone();
            *a = parse_quote!(|#(#ps),*| #q(#(#ps),*));
        }
    }
}
impl<'c> VisitMut for Inliner<'c> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Call(c) => for a in c.args.iter_mut() { self.eta(a) },
            Expr::MethodCall(c) => for a in c.args.iter_mut() { self.eta(a) },
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let segs = &p.path.segments;
                    let n = last(&p.path);
                    let d = if segs.len() == 1 || ["crate", "super", "self", "utils"].contains(&segs[segs.len() - 2].ident.to_string().as_str()) || self.ctx.inline_defs.contains_key(&n) {
                        self.ctx.inline_defs.get(&n).or_else(|| if segs.len() == 1 { self.ctx.helpers_fn.get(&n) } else { None }).or_else(|| self.ctx.helpers_any.get(&n).filter(|d| !matches!(d.0.inputs.first(), Some(FnArg::Receiver(_))))).cloned()
                    } else if segs.len() == 2 && (segs[0].ident == "Self" || Some(segs[0].ident.to_string()) == self.ctx.self_ty) {
                        self.ctx.helpers_m.get(&n).cloned().filter(|d| !matches!(d.0.inputs.first(), Some(FnArg::Receiver(_))))
                    } else {
                        None
                    };
                    if let Some((s, b)) = d {
                        *e = self.inline(&n, &s, &b, None, c.args.iter().cloned().collect());
                    }
                }
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                let is_self = matches!(&*m.receiver, Expr::Path(p) if p.path.is_ident("self"));
                let d = self.ctx.inline_defs.get(&n).filter(|d| matches!(d.0.inputs.first(), Some(FnArg::Receiver(_)))).cloned()
                    .or_else(|| if is_self { self.ctx.helpers_m.get(&n).cloned() } else { None })
                    .or_else(|| self.ctx.helpers_any.get(&n).filter(|d| matches!(d.0.inputs.first(), Some(FnArg::Receiver(_)))).cloned());
                if let Some((s, b)) = d {
                    *e = self.inline(&n, &s, &b, Some((*m.receiver).clone()), m.args.iter().cloned().collect());
                }
            }
            _ => {}
        }
    }
}

// ---------------------------------------------------------------- option combinators with a literal closure

/// Is the receiver visibly an iterator (and not an Option or a Result)?
fn is_iter_chain(e: &Expr) -> bool {
    match e {
        Expr::MethodCall(m) => match m.method.to_string().as_str() {
            "iter" | "into_iter" | "iter_mut" | "keys" | "values" | "enumerate" | "flat_map" | "filter_map" | "chain" => true,
            "map" | "filter" | "cloned" | "copied" => is_iter_chain(&m.receiver),
            _ => false,
        },
        Expr::Paren(p) => is_iter_chain(&p.expr),
        _ => false,
    }
}
struct Desugar(BTreeSet<String>);
impl VisitMut for Desugar {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let m = match e { Expr::MethodCall(m) => m.clone(), _ => return };
        let n = m.method.to_string();
        let n = if n == "map" && self.0.contains("result_map") { "result_map".to_string() } else { n };
        if is_iter_chain(&m.receiver) { return; }
        // `a.eq(&b)`, `a.ne(&b)`: the operators
        if (n == "eq" || n == "ne") && m.args.len() == 1 && self.0.contains("eq") {
            if let Expr::Reference(r) = &m.args[0] {
                let (a, b) = (&m.receiver, &r.expr);
                *e = if n == "eq" { parse_quote!((#a == #b)) } else { parse_quote!((#a != #b)) };
            }
            return;
        }
        // these can only be Option's, Result's or bool's
        let always = match n.as_str() {
            "map_or" | "map_or_else" | "is_some_and" | "is_none_or" | "ok_or_else" => true,
            "unwrap_or_else" | "or_else" | "then" => matches!(m.args.last(), Some(Expr::Closure(c)) if c.inputs.is_empty()),
            _ => false,
        };
        if !always && !self.0.contains(&n) { return; }
        let clo = match m.args.last() {
            Some(Expr::Closure(c)) => c.clone(),
            Some(Expr::Path(f)) if n != "unwrap_or_else" && n != "ok_or_else" => parse_quote!(|vx_y| #f(vx_y)),
            _ => return,
        };
        let mut h = HasReturnDeep(false);
        h.visit_expr(&clo.body);
        if h.0 { return; }
        let (r, b) = (&m.receiver, &clo.body);
        let p = clo.inputs.first();
        *e = match (n.as_str(), p) {
            ("and_then", Some(p)) => parse_quote!(match #r { Some(#p) => #b, None => None }),
            ("map", Some(p)) => parse_quote!(match #r { Some(#p) => Some(#b), None => None }),
            ("map_or", Some(p)) => { let d = &m.args[0]; if matches!(d, Expr::Lit(_) | Expr::Path(_)) { parse_quote!(match #r { Some(#p) => #b, None => #d }) } else { parse_quote!(match (#r, #d) { (Some(#p), _) => #b, (None, vx_d) => vx_d }) } }
            ("filter", Some(p)) => parse_quote!(match #r { Some(vx_x) => { let vx_b = { let #p = &vx_x; #b }; if vx_b { Some(vx_x) } else { None } } None => None }),
            ("unwrap_or_else", Some(p)) => parse_quote!(match #r { Ok(vx_x) => vx_x, Err(#p) => #b }),
            ("unwrap_or_else", None) => parse_quote!(match #r { Some(vx_x) => vx_x, None => #b }),
            ("or_else", None) => parse_quote!(match #r { Some(vx_x) => Some(vx_x), None => #b }),
            ("then", None) => parse_quote!(if #r { Some(#b) } else { None }),
            ("is_some_and", Some(p)) => parse_quote!(match #r { Some(#p) => #b, None => false }),
            ("is_none_or", Some(p)) => parse_quote!(match #r { Some(#p) => #b, None => true }),
            ("map_or_else", Some(p)) => match &m.args[0] { Expr::Closure(d) if d.inputs.is_empty() => { let d = &d.body; parse_quote!(match #r { Some(#p) => #b, None => #d }) } _ => return },
            ("ok_or_else", None) => parse_quote!(match #r { Some(vx_x) => Ok(vx_x), None => Err(#b) }),
            ("result_map", Some(p)) => parse_quote!(match #r { Ok(#p) => Ok(#b), Err(vx_x) => Err(vx_x) }),
            ("map_err", Some(p)) => parse_quote!(match #r { Ok(vx_x) => Ok(vx_x), Err(#p) => Err(#b) }),
            _ => return,
        };
    }
}

/// `r.m({ lets; closure })` becomes `{ let vx_r = r; lets; vx_r.m(closure) }`.
struct BlockArg;
impl VisitMut for BlockArg {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let m = match e { Expr::MethodCall(m) if m.args.len() == 1 => m.clone(), _ => return };
        let b = match &m.args[0] { Expr::Block(b) if b.label.is_none() => b.block.clone(), _ => return };
        let (c, lets) = match b.stmts.split_last() { Some((Stmt::Expr(c @ Expr::Closure(_), None), r)) => (c.clone(), r.to_vec()), _ => return };
        if !lets.iter().all(|s| matches!(s, Stmt::Local(_))) { return; }
        let (r, n) = (&m.receiver, &m.method);
        *e = parse_quote!({ let vx_rc = #r; #(#lets)* vx_rc.#n(#c) });
    }
}

/// A constructor used as a function is written out as a closure: `it.map(E::V)` becomes `it.map(|vx_x| E::V(vx_x))`.
struct Eta;
impl VisitMut for Eta {
    fn visit_expr_method_call_mut(&mut self, m: &mut ExprMethodCall) {
        visit_mut::visit_expr_method_call_mut(self, m);
        if !["map", "map_err", "and_then", "flat_map", "filter_map"].contains(&m.method.to_string().as_str()) || m.args.len() != 1 { return; }
        if let Expr::Path(p) = &m.args[0] {
            if last(&p.path).starts_with(|c: char| c.is_uppercase()) { let p = p.clone(); m.args[0] = parse_quote!(|vx_x| #p(vx_x)); }
        }
    }
}

/// `it.for_each(|x| body)` becomes `for x in it { body }`.
struct ForEach;
impl VisitMut for ForEach {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let m = match e { Expr::MethodCall(m) if m.method == "for_each" && m.args.len() == 1 => m.clone(), _ => return };
        let c = match &m.args[0] { Expr::Closure(c) if c.inputs.len() == 1 => c.clone(), _ => return };
        let mut h = HasReturnDeep(false);
        h.visit_expr(&c.body);
        if h.0 { return; }
        let (r, p, b) = (&m.receiver, &c.inputs[0], &c.body);
        *e = match &**b { Expr::Block(b) => { let b = &b.block; parse_quote!(for #p in #r #b) } b => parse_quote!(for #p in #r { #b; }) };
    }
}

// ---------------------------------------------------------------- macros

/// `.refuse N ..`: these assertions of the function are its documented way to refuse an argument.
struct Refuse { n: usize, which: Vec<usize>, panics: bool }
impl VisitMut for Refuse {
    fn visit_expr_call_mut(&mut self, c: &mut ExprCall) {
        visit_mut::visit_expr_call_mut(self, c);
        if let Expr::Path(p) = &mut *c.func {
            if p.path.is_ident("vx_assert") {
                self.n += 1;
                if self.which.contains(&self.n) { p.path = parse_quote!(vx_refuse_unless); }
            }
            if self.panics && p.path.is_ident("vx_panic") { p.path = parse_quote!(vx_refuse); }
        }
    }
}
struct Macros;
impl Macros {
    fn args(m: &Macro) -> Vec<Expr> {
        m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).map(|p| p.into_iter().collect()).unwrap_or_else(|_| die(format!("cannot parse arguments of {}!", last(&m.path))))
    }
    /// `format!` with plain `{}` and `{:?}` places: the pieces, in order.
    fn format(m: &Macro) -> Expr {
        let bad = || -> ! { die(format!("unsupported format! {}", m.tokens)) };
        let a = Self::args(m);
        let l = match a.first() { Some(Expr::Lit(ExprLit { lit: Lit::Str(l), .. })) => l.value(), _ => bad() };
        let mut r: Expr = parse_quote!(VxFmt::new());
        let (mut text, mut k) = (String::new(), 1);
        let mut it = l.chars().peekable();
        while let Some(c) = it.next() {
            match c {
                '{' | '}' if it.peek() == Some(&c) => { it.next(); text.push(c); }
                '{' => {
                    let mut h = String::new();
                    loop { match it.next() { Some('}') => break, Some(c) => h.push(c), None => bad() } }
                    if !text.is_empty() { let t = std::mem::take(&mut text); r = parse_quote!(#r.lit(#t)); }
                    let (n, how) = h.split_once(':').unwrap_or((&h, ""));
                    let x: Expr = if n.is_empty() { k += 1; a.get(k - 1).cloned().unwrap_or_else(|| bad()) } else { parse_str(n).unwrap_or_else(|_| bad()) };
                    if !matches!(x, Expr::Assign(_)) && (n.is_empty() || matches!(x, Expr::Path(_))) {} else { bad() }
                    r = match how { "" => parse_quote!(#r.disp(&#x)), "?" => parse_quote!(#r.dbg(&#x)), _ => bad() };
                }
                '}' => bad(),
                c => text.push(c),
            }
        }
        if k != a.len() { bad() }
        if !text.is_empty() { r = parse_quote!(#r.lit(#text)); }
        parse_quote!(#r.end())
    }
    fn expand(m: &Macro) -> Option<Option<Expr>> {
        let n = last(&m.path);
        if m.path.segments[0].ident == "log" { return Some(None); }
        match n.as_str() {
            "trace" | "debug" | "println" | "eprintln" | "print" | "eprint" => Some(None),
            "assert" | "debug_assert" => { let a = Self::args(m); let c = &a[0]; Some(Some(parse_quote!(vx_assert(#c)))) }
            "assert_eq" | "debug_assert_eq" => { let a = Self::args(m); let (x, y) = (&a[0], &a[1]); Some(Some(parse_quote!(vx_assert(vx_eq(&(#x), &(#y)))))) }
            "assert_ne" => { let a = Self::args(m); let (x, y) = (&a[0], &a[1]); Some(Some(parse_quote!(vx_assert(!vx_eq(&(#x), &(#y)))))) }
            "panic" | "unreachable" | "unimplemented" | "todo" => Some(Some(parse_quote!(vx_panic()))),
            "matches" => {
                struct Mt(Expr, Pat, Option<Expr>);
                impl parse::Parse for Mt {
                    fn parse(i: parse::ParseStream) -> Result<Self> {
                        let e = i.parse()?;
                        i.parse::<Token![,]>()?;
                        let p = Pat::parse_multi_with_leading_vert(i)?;
                        let g = if i.peek(Token![if]) { i.parse::<Token![if]>()?; Some(i.parse()?) } else { None };
                        let _ = i.parse::<Option<Token![,]>>()?;
                        Ok(Mt(e, p, g))
                    }
                }
                let mt: Mt = m.parse_body().unwrap_or_else(|_| die("cannot parse matches!".into()));
                let (e, p) = (mt.0, mt.1);
                let g = mt.2.map(|g| quote!(if #g));
                Some(Some(parse_quote!(match #e { #p #g => true, _ => false })))
            }
            "vec" => {
                if m.tokens.is_empty() { Some(Some(parse_quote!(Vec::new()))) } else {
                    let a = Self::args(m);
                    let k = id("vx_v");
                    Some(Some(parse_quote!({ let mut #k = Vec::new(); #(#k.push(#a);)* #k })))
                }
            }
            "anyhow" => Some(Some(parse_quote!(vx_any_error()))),
            "format" => Some(Some(Self::format(m))),
            "__vx" => None,
            o => die(format!("unsupported macro {}!", o)),
        }
    }
}
impl VisitMut for Macros {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e {
            match Self::expand(&m.mac) {
                Some(Some(x)) => *e = x,
                Some(None) => *e = parse_quote!(()),
                None => {}
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        for s in std::mem::take(&mut b.stmts) {
            match s {
                Stmt::Macro(m) => match Self::expand(&m.mac) {
                    Some(Some(x)) => out.push(Stmt::Expr(x, m.semi_token)),
                    Some(None) => {}
                    None => out.push(Stmt::Macro(m)),
                },
                Stmt::Item(Item::Use(_)) => {}
                o => out.push(o),
            }
        }
        b.stmts = out;
        visit_mut::visit_block_mut(self, b);
    }
}

// ---------------------------------------------------------------- methods and operators

pub const METHODS: &[(&str, &str)] = &[
    ("iter", "vx_iter"), ("into_iter", "vx_into_iter"), ("keys", "vx_keys"), ("values", "vx_values"),
    ("entry", "vx_entry"), ("clone", "vx_clone"), ("cloned", "vx_cloned"), ("copied", "vx_copied"), ("windows", "vx_windows"), ("extend", "vx_extend"),
    ("char_indices", "vx_char_indices"), ("grapheme_indices", "vx_grapheme_indices"), ("binary_search_by", "vx_binary_search_by"), ("to_owned", "vx_clone"), ("iter_mut", "vx_iter_mut"), ("cmp", "vx_cmp"), ("partial_cmp", "vx_partial_cmp"), ("then_with", "vx_then_with"),
    ("into_keys", "vx_into_keys"), ("get_mut", "vx_get_mut"), ("get_key_value", "vx_get_key_value"), ("into", "vx_into"), ("into_values", "vx_into_values"),
    ("union", "vx_union"), ("difference", "vx_difference"), ("intersection", "vx_intersection"), ("is_subset", "vx_is_subset"), ("is_superset", "vx_is_superset"),
    ("is_disjoint", "vx_is_disjoint"), ("pop_first", "vx_pop_first"), ("pop_last", "vx_pop_last"), ("retain", "vx_retain"),
];

struct Methods<'c> {
    ctx: &'c Ctx,
}
fn is_lit(e: &Expr) -> bool {
    match e {
        Expr::Lit(_) => true,
        Expr::Paren(p) => is_lit(&p.expr),
        Expr::Unary(u) => is_lit(&u.expr),
        _ => false,
    }
}
impl<'c> Methods<'c> {
    fn thread(&self, n: &str) -> Option<Expr> {
        let m = self.ctx.threads.get(n)?;
        let l = n.rsplit(|c| c == ':' || c == '.').next().unwrap();
        // names that std's collections also have are passed on where the contract says so
        if l == "insert" && !self.ctx.pass.contains(l) || self.ctx.pass.contains(&format!("-{}", l)) { return None; }
        Some(if *m { parse_quote!(&mut *vx_t) } else { parse_quote!(&*vx_t) })
    }
}
impl<'c> VisitMut for Methods<'c> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                if let Some(a) = self.thread(&format!(".{}", n)) { m.args.push(a); }
                if let Expr::Paren(p) = &*m.receiver {
                    if let Expr::Range(ra) = &*p.expr {
                        if ra.start.is_some() && ra.end.is_some() && ["map", "filter", "filter_map", "flat_map", "rev", "any", "all", "chain", "enumerate", "skip", "take", "zip", "find", "find_map", "position", "fold", "collect", "inspect"].contains(&n.as_str()) {
                            let r = &m.receiver;
                            m.receiver = Box::new(parse_quote!(#r.vx_into_iter()));
                        }
                    }
                }
                if let Some((_, to)) = METHODS.iter().find(|(f, _)| *f == n) {
                    m.method = id(to);
                } else if let Some(to) = self.ctx.renames.get(&n) {
                    m.method = id(to);
                }
            }
            Expr::Cast(c) if matches!(&*c.ty, Type::Ptr(_)) => { let x = &c.expr; *e = parse_quote!(vx_addr(#x)); }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let mut k: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    if k[0] == "Self" { k[0] = self.ctx.path.rsplit_once("::").map(|x| x.0.to_string()).unwrap_or_default(); }
                    if let Some(a) = self.thread(&k.join("::")) { c.args.push(a); }
                }
            }
            Expr::Reference(rf) if rf.mutability.is_none() => {
                // `&e[a..b]`
                if let Expr::Index(ix) = &*rf.expr {
                    if let Expr::Range(ra) = &*ix.index {
                        if let (Some(a), Some(b), RangeLimits::HalfOpen(_)) = (&ra.start, &ra.end, &ra.limits) {
                            let x = &ix.expr;
                            *e = parse_quote!(#x.vx_range(#a, #b));
                        }
                    }
                }
            }
            Expr::Binary(b) => {
                let (l, r) = (&b.left, &b.right);
                match b.op {
                    BinOp::Eq(_) if !is_lit(l) && !is_lit(r) => *e = parse_quote!(vx_eq(&(#l), &(#r))),
                    // (the code has no bit sets: these are on bool)
                    BinOp::BitOrAssign(_) => *e = parse_quote!({ let vx_b = #r; #l = #l || vx_b; }),
                    BinOp::BitAndAssign(_) => *e = parse_quote!({ let vx_b = #r; #l = #l && vx_b; }),
                    BinOp::Ne(_) if !is_lit(l) && !is_lit(r) => *e = parse_quote!((!vx_eq(&(#l), &(#r)))),
                    _ => {}
                }
            }
            Expr::Path(p) if p.path.segments.len() >= 2 => {
                let n = last(&p.path);
                if let Some((_, to)) = METHODS.iter().find(|(f, _)| *f == n) {
                    p.path.segments.last_mut().unwrap().ident = id(to);
                } else if let Some(to) = self.ctx.renames.get(&n) {
                    p.path.segments.last_mut().unwrap().ident = id(to);
                }
            }
            _ => {}
        }
    }
}

// ---------------------------------------------------------------- adaptors over state that is passed along

/// An iterator adaptor whose closure uses the state passed along (`vx_t`) becomes a loop that makes its items, in order:
/// `r.map(|p| e)` is `let vx_rN = r; let mut vx_oN = Vec::new(); for p in vx_rN { let vx_eN = e; vx_oN.push(vx_eN); } vx_oN.vx_into_iter()`.
struct ThreadLoops { n: usize }
fn is_thread(e: &Expr) -> bool { matches!(e.to_token_stream().to_string().as_str(), "& mut * vx_t" | "& * vx_t") }
fn uses_thread(e: &impl ToTokens) -> bool { let t = e.to_token_stream().to_string(); t.contains("* vx_t") || t.contains("*vx_t") }
impl ThreadLoops {
    fn lift(&mut self, e: &mut Expr, out: &mut Vec<Stmt>) {
        match e {
            Expr::MethodCall(m) => {
                self.lift(&mut m.receiver, out);
                if m.args.len() != 1 { return; }
                let c = match &m.args[0] { Expr::Closure(c) if c.inputs.len() == 1 && uses_thread(&c.body) => c.clone(), _ => return };
                let k = m.method.to_string();
                if !["map", "filter_map", "flat_map"].contains(&k.as_str()) { return; }
                let mut h = HasReturnDeep(false);
                h.visit_expr(&c.body);
                if h.0 { return; }
                self.n += 1;
                let n = self.n;
                let (r, o, x) = (id(&format!("vx_r{}", n)), id(&format!("vx_o{}", n)), id(&format!("vx_e{}", n)));
                let (rc, p, b) = (&m.receiver, &c.inputs[0], &c.body);
                out.push(parse_quote!(let #r = #rc;));
                out.push(parse_quote!(let mut #o = Vec::new();));
                let put: Stmt = match k.as_str() {
                    "map" => parse_quote!(#o.push(#x);),
                    "filter_map" => parse_quote!(match #x { Some(vx_y) => { #o.push(vx_y); } None => {} }),
                    _ => parse_quote!(#o.vx_extend(#x);),
                };
                let lp: Expr = match &**b {
                    Expr::Block(b) if b.label.is_none() && matches!(b.block.stmts.last(), Some(Stmt::Expr(_, None))) => {
                        let mut st = b.block.stmts.clone();
                        let l = match st.pop() { Some(Stmt::Expr(l, None)) => l, _ => unreachable!() };
                        parse_quote!(for #p in #r { #(#st)* let #x = #l; #put })
                    }
                    b => parse_quote!(for #p in #r { let #x = #b; #put }),
                };
                out.push(Stmt::Expr(lp, None));
                *e = parse_quote!(#o.vx_into_iter());
            }
            Expr::Paren(p) => self.lift(&mut p.expr, out),
            Expr::Call(c) if !c.args.is_empty() && matches!(&*c.func, Expr::Path(_)) => self.lift(&mut c.args[0], out),
            Expr::Return(r) => { if let Some(x) = &mut r.expr { self.lift(x, out); } }
            _ => {}
        }
    }
}
impl VisitMut for ThreadLoops {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            match &mut s {
                Stmt::Local(l) => if let Some(i) = &mut l.init { if i.diverge.is_none() { self.lift(&mut i.expr, &mut out); } },
                Stmt::Expr(e, _) => self.lift(e, &mut out),
                _ => {}
            }
            out.push(s);
        }
        b.stmts = out;
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
}

// ---------------------------------------------------------------- loops

struct Loops {
    n: usize,
    kinds: Vec<&'static str>,
    has_break: Vec<(usize, bool)>,
    fors: BTreeSet<usize>,
    /// loops over `&mut place`
    muts: BTreeMap<usize, String>,
    /// those zipped with another iterator
    zips: BTreeSet<usize>,
}
/// The value of a loop body is `()`: something may follow it.
fn end_stmt(b: &mut Block) {
    if let Some(Stmt::Expr(_, semi @ None)) = b.stmts.last_mut() { *semi = Some(Default::default()); }
}
/// The place of `&mut place` or `place.iter_mut()`.
fn mut_place(e: &Expr) -> Option<Expr> {
    fn place(e: &Expr) -> bool { match e { Expr::Path(p) => p.path.get_ident().is_some(), Expr::Field(f) => place(&f.base), Expr::Paren(p) => place(&p.expr), _ => false } }
    match e {
        Expr::Paren(p) => mut_place(&p.expr),
        Expr::Reference(r) if r.mutability.is_some() && place(&r.expr) => Some((*r.expr).clone()),
        Expr::MethodCall(m) if (m.method == "iter_mut" || m.method == "vx_iter_mut") && m.args.is_empty() && place(&m.receiver) => Some((*m.receiver).clone()),
        _ => None,
    }
}
/// An iterator over `&mut` elements that is bound to a name and used by one `for` goes into that `for`
/// (making the iterator has no effect, and the borrow checker keeps the place unchanged up to the loop).
struct ForwardIter;
fn mut_chain(e: &Expr) -> bool {
    if let Expr::MethodCall(m) = e { if m.method == "zip" { return mut_place(&m.receiver).is_some() && matches!(m.args.first(), Some(Expr::Path(_))); } }
    matches!(e, Expr::MethodCall(_)) && mut_place(e).is_some()
}
struct IntoFor<'e> { name: String, e: &'e Expr, done: usize }
impl<'e> VisitMut for IntoFor<'e> {
    fn visit_expr_for_loop_mut(&mut self, f: &mut ExprForLoop) {
        if let Expr::Path(p) = &*f.expr { if p.path.is_ident(&self.name) { *f.expr = self.e.clone(); self.done += 1; } }
        visit_mut::visit_expr_for_loop_mut(self, f);
    }
    fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
}
impl VisitMut for ForwardIter {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut i = 0;
        while i < b.stmts.len() {
            if let Stmt::Local(Local { pat: Pat::Ident(pi), init: Some(init), .. }) = &b.stmts[i] {
                if init.diverge.is_none() && mut_chain(&init.expr) {
                    let (n, e) = (pi.ident.to_string(), (*init.expr).clone());
                    let mut m = Mentions(&n, 0);
                    for s in &b.stmts[i + 1..] { m.visit_stmt(s); }
                    if m.1 == 1 {
                        let mut f = IntoFor { name: n, e: &e, done: 0 };
                        let mut rest = b.stmts.split_off(i + 1);
                        for s in rest.iter_mut() { f.visit_stmt_mut(s); }
                        if f.done == 1 { b.stmts.pop(); b.stmts.append(&mut rest); continue; }
                        b.stmts.append(&mut rest);
                    }
                }
            }
            i += 1;
        }
        visit_mut::visit_block_mut(self, b);
    }
}
struct OwnBreak(bool);
impl<'a> Visit<'a> for OwnBreak {
    fn visit_expr_break(&mut self, _: &'a ExprBreak) { self.0 = true; }
    fn visit_expr_for_loop(&mut self, l: &'a ExprForLoop) { let mut b = LabBreak(false); b.visit_block(&l.body); self.0 |= b.0; }
    fn visit_expr_while(&mut self, l: &'a ExprWhile) { let mut b = LabBreak(false); b.visit_block(&l.body); self.0 |= b.0; }
    fn visit_expr_loop(&mut self, l: &'a ExprLoop) { let mut b = LabBreak(false); b.visit_block(&l.body); self.0 |= b.0; }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
}
struct LabBreak(bool);
impl<'a> Visit<'a> for LabBreak {
    fn visit_expr_break(&mut self, b: &'a ExprBreak) { if b.label.is_some() { self.0 = true; } }
}
/// `break e` of a `loop` becomes an assignment and a plain `break`.
struct ValueBreak { var: Ident, found: bool }
impl VisitMut for ValueBreak {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) | Expr::Closure(_) => {}
            Expr::Break(b) if b.expr.is_some() && b.label.is_none() => {
                self.found = true;
                let (v, x) = (&self.var, b.expr.as_ref().unwrap());
                *e = parse_quote!({ #v = #x; break; });
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
}
impl VisitMut for Loops {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::ForLoop(f) => {
                self.n += 1;
                self.kinds.push("for");
                let n = self.n;
                let lit = LitInt::new(&n.to_string(), Span::call_site());
                let mut ob = OwnBreak(false);
                ob.visit_block(&f.body);
                self.has_break.push((n, ob.0));
                self.fors.insert(n);
                self.visit_expr_mut(&mut f.expr);
                self.visit_block_mut(&mut f.body);
                end_stmt(&mut f.body);
                let it = id(&format!("vx_it{}", n));
                let (pat, ex, body, label) = (&f.pat, &f.expr, &f.body.stmts, &f.label);
                // `place.iter_mut().zip(other)`
                if let Expr::MethodCall(m) = &**ex {
                    if let (true, Some(pl), Some(o)) = (m.method == "zip", mut_place(&m.receiver), m.args.first()) {
                        self.muts.insert(n, pl.to_token_stream().to_string());
                        self.zips.insert(n);
                        let k = id(&format!("vx_k{}", n));
                        let z = id(&format!("vx_z{}", n));
                        *e = parse_quote!({
                            let mut #k: usize = 0;
                            let mut #z = (#o).vx_into_iter();
                            __vx!(ghost #lit);
                            __vx!(before_loop #lit);
                            #label loop {
                                __vx!(loop #lit);
                                if #k >= #pl.len() { break; }
                                match #z.next() {
                                    None => break,
                                    Some(vx_y) => {
                                        let #pat = (#pl.vx_at_mut(#k), vx_y);
                                        #k = #k + 1;
                                        __vx!(step #lit);
                                        #(#body)*
                                        __vx!(loop_end #lit);
                                    }
                                }
                            }
                            __vx!(after_loop #lit);
                        });
                        return;
                    }
                }
                if let Some(pl) = mut_place(ex) {
                    self.muts.insert(n, pl.to_token_stream().to_string());
                    let k = id(&format!("vx_k{}", n));
                    *e = parse_quote!({
                        let mut #k: usize = 0;
                        __vx!(ghost #lit);
                        __vx!(before_loop #lit);
                        #label loop {
                            __vx!(loop #lit);
                            if #k >= #pl.len() { break; }
                            let #pat = #pl.vx_at_mut(#k);
                            #k = #k + 1;
                            __vx!(step #lit);
                            #(#body)*
                            __vx!(loop_end #lit);
                        }
                        __vx!(after_loop #lit);
                    });
                    return;
                }
                let ex2: Expr = match &**ex {
                    Expr::Range(_) => parse_quote!((#ex)),
                    Expr::Reference(_) => parse_quote!((#ex)),
                    o => o.clone(),
                };
                *e = parse_quote!({
                    let mut #it = #ex2.vx_into_iter();
                    __vx!(ghost #lit);
                    __vx!(before_loop #lit);
                    #label loop {
                        __vx!(loop #lit);
                        match #it.next() {
                            None => break,
                            Some(#pat) => {
                                __vx!(step #lit);
                                #(#body)*
                                __vx!(loop_end #lit);
                            }
                        }
                    }
                    __vx!(after_loop #lit);
                });
            }
            Expr::While(w) => {
                self.n += 1;
                self.kinds.push(if matches!(&*w.cond, Expr::Let(_)) { "while-let" } else { "while" });
                let n = self.n;
                let lit = LitInt::new(&n.to_string(), Span::call_site());
                let mut ob = OwnBreak(false);
                ob.visit_block(&w.body);
                self.has_break.push((n, ob.0));
                self.visit_expr_mut(&mut w.cond);
                self.visit_block_mut(&mut w.body);
                end_stmt(&mut w.body);
                let (label, body) = (&w.label, &w.body.stmts);
                if let Expr::Let(l) = &*w.cond {
                    let (p, x) = (&l.pat, &l.expr);
                    *e = parse_quote!({
                        __vx!(before_loop #lit);
                        #label loop {
                            __vx!(loop #lit);
                            __vx!(loop_start #lit);
                            match #x { #p => { #(#body)* __vx!(loop_end #lit); } _ => { __vx!(loop_exit #lit); break } }
                        }
                        __vx!(after_loop #lit);
                    });
                } else {
                    let c = &w.cond;
                    *e = parse_quote!({
                        __vx!(before_loop #lit);
                        #label while #c {
                            __vx!(loop #lit);
                            __vx!(loop_start #lit);
                            #(#body)*
                            __vx!(loop_end #lit);
                        }
                        __vx!(after_loop #lit);
                    });
                }
            }
            Expr::Loop(l) => {
                self.n += 1;
                self.kinds.push("loop");
                let n = self.n;
                let lit = LitInt::new(&n.to_string(), Span::call_site());
                self.has_break.push((n, true));
                let mut ob = OwnBreak(false);
                ob.visit_block(&l.body);
                self.visit_block_mut(&mut l.body);
                end_stmt(&mut l.body);
                let (label, body) = (&l.label, &l.body.stmts);
                // a `loop` with a value or whose end is not reached keeps its shape
                let mut vb = ValueBreak { var: id(&format!("vx_brk{}", n)), found: false };
                let mut body = Block { brace_token: Default::default(), stmts: body.clone() };
                vb.visit_block_mut(&mut body);
                let body = &body.stmts;
                let lp: Expr = parse_quote!(#label loop {
                    __vx!(loop #lit);
                    __vx!(loop_start #lit);
                    #(#body)*
                    __vx!(loop_end #lit);
                });
                *e = if vb.found {
                    let v = &vb.var;
                    parse_quote!({ let #v; __vx!(before_loop #lit); #lp; __vx!(after_loop #lit); #v })
                } else if ob.0 {
                    parse_quote!({ __vx!(before_loop #lit); #lp; __vx!(after_loop #lit); })
                } else { lp };
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
}

// ---------------------------------------------------------------- closures

struct Closures<'c> {
    ctx: &'c Ctx,
    n: usize,
    auto: BTreeMap<usize, Option<String>>,
}
impl<'c> VisitMut for Closures<'c> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Closure(c) = e {
            self.n += 1;
            let n = self.n;
            let lit = LitInt::new(&n.to_string(), Span::call_site());
            visit_mut::visit_expr_mut(self, &mut c.body);
            let mut pre: Vec<Stmt> = vec![];
            let mut inputs: punctuated::Punctuated<Pat, Token![,]> = punctuated::Punctuated::new();
            for (i, p) in c.inputs.iter().enumerate() {
                let simple = match p {
                    Pat::Ident(pi) => pi.subpat.is_none() && pi.by_ref.is_none() && pi.mutability.is_none(),
                    Pat::Type(t) => matches!(&*t.pat, Pat::Ident(_)),
                    _ => false,
                };
                if simple { inputs.push(p.clone()); } else {
                    let nm = id(&format!("vx_p{}", i));
                    if !matches!(p, Pat::Wild(_)) {
                        match p {
                            Pat::Reference(r) if r.mutability.is_none() => { let p = &r.pat; pre.push(parse_quote!(let #p = *#nm;)) }
                            p => pre.push(parse_quote!(let #p = #nm;)),
                        }
                    }
                    inputs.push(parse_quote!(#nm));
                }
            }
            let body = (*c.body).clone();
            let s = spec::to_spec(self.ctx, &body).map(|b| if pre.is_empty() { b } else {
                let mut s = b;
                for p in pre.iter().rev() {
                    if let Stmt::Local(l) = p {
                        let (pt, ex) = (&l.pat, &l.init.as_ref().unwrap().expr);
                        s = format!("(match {} {{ {} => {} }})", ex.to_token_stream(), pt.to_token_stream(), s);
                    }
                }
                s
            });
            self.auto.insert(n, s);
            let inner: Vec<Stmt> = match &body {
                Expr::Block(b) if b.label.is_none() => b.block.stmts.clone(),
                o => vec![Stmt::Expr(o.clone(), None)],
            };
            c.inputs = inputs;
            c.output = ReturnType::Default;
            c.body = Box::new(parse_quote!({ __vx!(closure #lit); #(#pre)* #(#inner)* }));
            return;
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

// ---------------------------------------------------------------- naming the steps of method chains

/// `a.b().c()` in a let, a tail or a statement becomes `let vx_0_1 = a.b(); vx_0_1.c()`
/// (`vx_K_N` inside closure K), so that proof text can name the intermediate values.
struct Steps {
    hoist: bool, ends: BTreeSet<usize>, done: BTreeSet<String> }
fn hoist(e: &mut Expr, out: &mut Vec<Stmt>, k: usize, n: &mut usize) {
    match e {
        Expr::MethodCall(m) => {
            hoist(&mut m.receiver, out, k, n);
            if let Expr::MethodCall(_) | Expr::Call(_) | Expr::Struct(_) = &*m.receiver {
                *n += 1;
                let v = id(&format!("vx_{}_{}", k, n));
                let r = &m.receiver;
                out.push(parse_quote!(let mut #v = #r;));
                m.receiver = Box::new(parse_quote!(#v));
            }
            // an argument that uses the state passed along, after everything before it
            if m.args.len() == 1 && matches!(&m.args[0], Expr::MethodCall(_)) && uses_thread(&m.args[0]) && matches!(&*m.receiver, Expr::Path(_)) {
                hoist(&mut m.args[0], out, k, n);
                *n += 1;
                let v = id(&format!("vx_{}_{}", k, n));
                let r = &m.args[0];
                out.push(parse_quote!(let #v = #r;));
                m.args[0] = parse_quote!(#v);
            }
        }
        Expr::Struct(s) => {
            let mut seen = false;
            for f in s.fields.iter_mut() {
                if seen { break; }
                seen = uses_thread(&f.expr);
                hoist(&mut f.expr, out, k, n);
            }
        }
        Expr::Paren(p) => hoist(&mut p.expr, out, k, n),
        Expr::Call(c) if !c.args.is_empty() && c.args.iter().skip(1).all(is_thread) && matches!(&*c.func, Expr::Path(_)) => {
            hoist(&mut c.args[0], out, k, n);
            if let Expr::MethodCall(_) = &c.args[0] {
                *n += 1;
                let v = id(&format!("vx_{}_{}", k, n));
                let r = &c.args[0];
                out.push(parse_quote!(let #v = #r;));
                c.args[0] = parse_quote!(#v);
            }
        }
        Expr::Return(r) => { if let Some(x) = &mut r.expr { hoist(x, out, k, n); } }
        _ => {}
    }
}
struct StepBlock { k: usize, n: usize }
impl VisitMut for StepBlock {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            match &mut s {
                Stmt::Local(l) => if let Some(i) = &mut l.init { if i.diverge.is_none() { hoist(&mut i.expr, &mut out, self.k, &mut self.n); } },
                Stmt::Expr(e, _) => hoist(e, &mut out, self.k, &mut self.n),
                _ => {}
            }
            out.push(s);
        }
        b.stmts = out;
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
}
fn closure_number(b: &Block) -> Option<usize> {
    if let Some(Stmt::Macro(m)) = b.stmts.first() {
        let t = m.mac.tokens.to_string();
        if last(&m.mac.path) == "__vx" { return t.strip_prefix("closure ").and_then(|x| x.trim().parse().ok()); }
    }
    None
}
impl VisitMut for Steps {
    fn visit_expr_closure_mut(&mut self, c: &mut ExprClosure) {
        if let Expr::Block(b) = &mut *c.body {
            if let Some(k) = closure_number(&b.block) {
                if self.hoist { StepBlock { k, n: 0 }.visit_block_mut(&mut b.block); }
                let n = b.block.stmts.len();
                if self.ends.contains(&k) {
                    if let Some(Stmt::Expr(e, None)) = b.block.stmts.last().cloned() {
                        let key = format!("closure_end {}", k);
                        let l = LitStr::new(&key, Span::call_site());
                        let t = id(&format!("vx_tail_{}", k));
                        b.block.stmts[n - 1] = parse_quote!(let #t = #e;);
                        b.block.stmts.push(parse_quote!(__vx!(proof #l);));
                        b.block.stmts.push(Stmt::Expr(parse_quote!(#t), None));
                        self.done.insert(key);
                    } else {
                        let key = format!("closure_end {}", k);
                        let l = LitStr::new(&key, Span::call_site());
                        b.block.stmts.push(parse_quote!(__vx!(proof #l);));
                        self.done.insert(key);
                    }
                }
            }
        }
        visit_mut::visit_expr_closure_mut(self, c);
    }
}

// ---------------------------------------------------------------- anchors in statement lists

struct CallCount<'n> {
    name: &'n str,
    n: usize,
}
impl<'a, 'n> Visit<'a> for CallCount<'n> {
    fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
        visit::visit_expr_method_call(self, m);
        let s = m.method.to_string();
        if s == self.name || s == format!("vx_{}", self.name) { self.n += 1; }
    }
    fn visit_expr_call(&mut self, c: &'a ExprCall) {
        visit::visit_expr_call(self, c);
        if let Expr::Path(p) = &*c.func {
            let s = last(&p.path);
            if s == self.name || s == format!("vx_{}", self.name) { self.n += 1; }
        }
    }
}
struct Anchors {
    /// (kind, name, k, section)
    want: Vec<(String, String, usize, String)>,
    lets: BTreeMap<String, usize>,
    calls: BTreeMap<String, usize>,
    rets: usize,
    done: BTreeSet<String>,
    /// also in closures
    deep: bool,
}
fn has_nested_block(s: &Stmt) -> bool {
    struct B(bool);
    impl<'a> Visit<'a> for B {
        fn visit_block(&mut self, _: &'a Block) { self.0 = true; }
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    }
    let mut b = B(false);
    b.visit_stmt(s);
    b.0
}
impl VisitMut for Anchors {
    fn visit_expr_closure_mut(&mut self, c: &mut ExprClosure) { if self.deep { visit_mut::visit_expr_closure_mut(self, c); } }
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out: Vec<Stmt> = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            let mut before = vec![];
            let mut after = vec![];
            if !has_nested_block(&s) {
                let names: BTreeSet<String> = self.want.iter().filter(|w| w.0.ends_with("_call")).map(|w| w.1.clone()).collect();
                for n in names {
                    let mut cc = CallCount { name: &n, n: 0 };
                    cc.visit_stmt(&s);
                    let base = *self.calls.get(&n).unwrap_or(&0);
                    for k in base + 1..=base + cc.n {
                        for w in &self.want {
                            if w.1 == n && w.2 == k {
                                if w.0 == "after_call" { after.push(w.3.clone()); }
                                if w.0 == "before_call" { before.push(w.3.clone()); }
                            }
                        }
                    }
                    let cnt = cc.n;
                    self.calls.insert(n.clone(), base + cnt);
                }
            }
            if let Stmt::Expr(Expr::Return(r), _) = &s {
                self.rets += 1;
                let k = self.rets;
                if let Some(w) = self.want.iter().find(|w| w.0 == "before_return" && w.2 == k) {
                    let sec = w.3.clone();
                    self.done.insert(sec.clone());
                    let l = LitStr::new(&sec, Span::call_site());
                    if let Some(e) = &r.expr {
                        out.push(parse_quote!(let vx_retv = #e;));
                        out.push(parse_quote!(__vx!(proof #l);));
                        out.push(parse_quote!(return vx_retv;));
                        continue;
                    } else {
                        before.push(sec);
                    }
                }
            }
            if let Stmt::Local(l) = &s {
                let mut bd = Bindings(BTreeSet::new());
                bd.visit_pat(&l.pat);
                for n in bd.0 {
                    let k = self.lets.entry(n.clone()).or_insert(0);
                    *k += 1;
                    for w in &self.want {
                        if w.0 == "after_let" && w.1 == n && w.2 == *k { after.push(w.3.clone()); }
                        if w.0 == "before_let" && w.1 == n && w.2 == *k { before.push(w.3.clone()); }
                    }
                }
            }
            visit_mut::visit_stmt_mut(self, &mut s);
            for x in before { self.done.insert(x.clone()); let l = LitStr::new(&x, Span::call_site()); out.push(parse_quote!(__vx!(proof #l);)); }
            let tail = matches!(&s, Stmt::Expr(_, None));
            if tail && !after.is_empty() {
                if let Stmt::Expr(e, None) = &s {
                    let e = e.clone();
                    out.push(parse_quote!(let vx_tailv = #e;));
                    for x in after { self.done.insert(x.clone()); let l = LitStr::new(&x, Span::call_site()); out.push(parse_quote!(__vx!(proof #l);)); }
                    out.push(Stmt::Expr(parse_quote!(vx_tailv), None));
                }
                continue;
            }
            out.push(s);
            for x in after { self.done.insert(x.clone()); let l = LitStr::new(&x, Span::call_site()); out.push(parse_quote!(__vx!(proof #l);)); }
        }
        b.stmts = out;
    }
}

// ---------------------------------------------------------------- emission

pub fn rustfmt(src: &str) -> String {
    use std::io::Write;
    use std::process::{Command, Stdio};
    let mut ch = match Command::new("rustfmt").args(["--edition", "2021", "--config", "max_width=110"]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn() {
        Ok(c) => c,
        Err(_) => return src.to_string(),
    };
    ch.stdin.take().unwrap().write_all(src.as_bytes()).unwrap();
    let o = ch.wait_with_output().unwrap();
    if o.status.success() { String::from_utf8(o.stdout).unwrap() } else { src.to_string() }
}

/// `__vx!(kind arg);` -> f(kind, arg); returns None to drop it.
/// `x_hN` is the name a local of an expanded callee gets. Where the annotations name one that the
/// body does not have (the loop was written out by hand, say), they mean the body's own `x`.
fn unhyg(plain: &str, text: &str) -> String {
    let word = |c: char| c.is_alphanumeric() || c == '_';
    let words = |s: &str| s.split(|c: char| !word(c)).map(|w| w.to_string()).collect::<BTreeSet<_>>();
    let have = words(plain);
    let mut out = text.to_string();
    for w in words(text) {
        let Some(i) = w.rfind("_h") else { continue };
        if i == 0 || w[i + 2..].is_empty() || !w[i + 2..].chars().all(|c| c.is_ascii_digit()) || have.contains(&w) || !have.contains(&w[..i]) { continue; }
        let mut res = String::new();
        let mut rest = out.as_str();
        while let Some(p) = rest.find(&w) {
            let before = rest[..p].chars().last().or(res.chars().last());
            let after = rest[p + w.len()..].chars().next();
            res.push_str(&rest[..p]);
            res.push_str(if before.map_or(false, word) || after.map_or(false, word) { &w } else { &w[..i] });
            rest = &rest[p + w.len()..];
        }
        res.push_str(rest);
        out = res;
    }
    out
}

fn replace_marks(text: &str, f: &mut dyn FnMut(&str, &str) -> (bool, String)) -> String {
    let mut out = String::new();
    let mut rest = text;
    loop {
        let p = match rest.find("__vx!(").or_else(|| rest.find("__vx ! (")) {
            None => { out.push_str(rest); return out; }
            Some(p) => p,
        };
        out.push_str(&rest[..p]);
        let open = p + rest[p..].find('(').unwrap();
        let close = open + rest[open..].find(')').unwrap();
        let inner = rest[open + 1..close].trim();
        let (kind, arg) = inner.split_once(char::is_whitespace).unwrap_or((inner, ""));
        let mut end = close + 1;
        let after = &rest[end..];
        let t = after.trim_start();
        if t.starts_with(';') { end += after.len() - t.len() + 1; }
        let (header, s) = f(kind, arg.trim().trim_matches('"'));
        if header {
            // move before the preceding `{`
            let b = out.rfind('{').unwrap();
            assert!(out[b + 1..].trim().is_empty());
            out.truncate(b);
            out.push_str(&format!("\n{}\n{{", s));
        } else {
            out.push_str(&s);
        }
        rest = &rest[end..];
    }
}

struct Callbacks(BTreeSet<String>);
impl VisitMut for Callbacks {
    fn visit_type_param_bound_mut(&mut self, b: &mut TypeParamBound) {
        if let TypeParamBound::Trait(t) = b {
            let l = t.path.segments.last_mut().unwrap();
            if l.ident == "FnMut" { l.ident = id("Fn"); }
        }
    }
    fn visit_type_param_mut(&mut self, t: &mut TypeParam) {
        visit_mut::visit_type_param_mut(self, t);
        if t.bounds.iter().any(|b| matches!(b, TypeParamBound::Trait(t) if last(&t.path) == "Fn")) { self.0.insert(t.ident.to_string()); }
    }
    fn visit_predicate_type_mut(&mut self, t: &mut PredicateType) {
        visit_mut::visit_predicate_type_mut(self, t);
        if t.bounds.iter().any(|b| matches!(b, TypeParamBound::Trait(t) if last(&t.path) == "Fn")) { self.0.insert(type_name(&t.bounded_ty)); }
    }
}

/// `.unsize`: the places where a value becomes a trait object are made explicit.
struct Unsize;
fn is_dyn_ref(t: &Type) -> bool {
    fn obj(t: &Type) -> bool { match t { Type::TraitObject(_) => true, Type::Paren(p) => obj(&p.elem), _ => false } }
    matches!(t, Type::Reference(r) if obj(&r.elem))
}
impl VisitMut for Unsize {
    fn visit_local_mut(&mut self, l: &mut Local) {
        visit_mut::visit_local_mut(self, l);
        if let (Pat::Type(t), Some(i)) = (&l.pat, &mut l.init) {
            if is_dyn_ref(&t.ty) { let e = &i.expr; i.expr = Box::new(parse_quote!(vx_unsize(#e))); }
        }
    }
    fn visit_expr_call_mut(&mut self, c: &mut ExprCall) {
        visit_mut::visit_expr_call_mut(self, c);
        if let Expr::Path(p) = &mut *c.func {
            if p.path.is_ident("vx_unsize") { return; }
            let s: Vec<String> = p.path.segments.iter().map(|x| x.ident.to_string()).collect();
            let n = s.len();
            if n >= 2 && s[n - 1] == "new" && (s[n - 2] == "Box" || s[n - 2] == "Rc") {
                p.path = Path::from(id(&format!("vx_{}_unsize", s[n - 2].to_lowercase())));
            }
        }
    }
}

/// `.guards`: a guard lives to the end of its block, so its borrow is made to.
struct Guards;
fn is_guard(e: &Expr) -> bool {
    match e {
        Expr::MethodCall(m) => match m.method.to_string().as_str() {
            "borrow" | "borrow_mut" | "vx_read" | "vx_write" => m.args.is_empty(),
            "unwrap" | "expect" => is_guard(&m.receiver),
            "read" | "write" | "lock" => m.args.is_empty(),
            _ => false,
        },
        Expr::Paren(p) => is_guard(&p.expr),
        _ => false,
    }
}
/// `&guard` where the target's type is expected.
struct ReborrowGuard<'n>(&'n [Ident]);
impl<'n> VisitMut for ReborrowGuard<'n> {
    fn visit_expr_reference_mut(&mut self, r: &mut ExprReference) {
        visit_mut::visit_expr_reference_mut(self, r);
        if let Expr::Path(p) = &*r.expr { if self.0.iter().any(|n| p.path.is_ident(n)) { let x = &r.expr; r.expr = Box::new(parse_quote!(*#x)); } }
    }
}
impl VisitMut for Guards {
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        let mut names = vec![];
        for s in &b.stmts {
            if let Stmt::Local(l) = s {
                if let (Pat::Ident(p), Some(i)) = (&l.pat, &l.init) { if is_guard(&i.expr) { names.push(p.ident.clone()); } }
            }
            // an explicit drop ends it
            if let Stmt::Expr(Expr::Call(c), _) = s {
                if let (Expr::Path(f), Some(Expr::Path(a))) = (&*c.func, c.args.first()) {
                    if last(&f.path) == "drop" { names.retain(|n| !a.path.is_ident(n)); }
                }
            }
        }
        if names.is_empty() { return; }
        let mut r = ReborrowGuard(&names);
        for s in b.stmts.iter_mut() { r.visit_stmt_mut(s); }
        names.reverse();
        let uses: Vec<Stmt> = names.iter().map(|n| parse_quote!(vx_use(&*#n);)).collect();
        match b.stmts.pop() {
            Some(Stmt::Expr(e, None)) => {
                b.stmts.push(parse_quote!(let vx_g = #e;));
                b.stmts.extend(uses);
                b.stmts.push(Stmt::Expr(parse_quote!(vx_g), None));
            }
            Some(s) => { b.stmts.push(s); b.stmts.extend(uses); }
            None => {}
        }
    }
}

pub fn emit_fn(ctx: &mut Ctx, sig: &Signature, block: Option<&Block>, c: &Contract, use_only: bool, vis: bool) -> String {
    let mut sig = sig.clone();
    if let Some(d) = c.get("mutable") {
        // shared state that the callee changes through a cell is passed as `&mut`
        for i in sig.inputs.iter_mut() {
            match i {
                FnArg::Receiver(r) if d.split_whitespace().any(|x| x == "self") && r.reference.is_some() => *i = parse_quote!(&mut self),
                FnArg::Typed(t) => if let (Pat::Ident(p), Type::Reference(r)) = (&*t.pat, &mut *t.ty) { if d.split_whitespace().any(|x| p.ident == x) { r.mutability = Some(Default::default()); } },
                _ => {}
            }
        }
    }
    if let Some(d) = c.get("thread") {
        let a: FnArg = parse_str(d.trim()).unwrap_or_else(|_| die(format!("{}: bad .thread", ctx.path)));
        sig.inputs.push(a);
    }
    ctx.pass = c.get("pass").map(|d| d.split_whitespace().map(|x| x.to_string()).collect()).unwrap_or_default();
    let dyn_result = matches!(&sig.output, ReturnType::Type(_, t) if is_dyn_ref(t));
    let (set, fixed) = iterator_params(&mut sig.generics);
    ctx.iter_params = set;
    let mut sub = SubstTy(fixed);
    sub.visit_signature_mut(&mut sig);
    let mut block: Option<Block> = block.cloned();
    if let Some(b) = &mut block { sub.visit_block_mut(b); }
    // mutable argument patterns are kept: Verus accepts `mut x: T`.
    Types { ctx }.visit_signature_mut(&mut sig);
    // callbacks: FnMut is read as Fn (a relation between arguments and results)
    let mut cb = Callbacks(BTreeSet::new());
    cb.visit_signature_mut(&mut sig);
    for i in sig.inputs.iter_mut() {
        if let FnArg::Typed(t) = i {
            let is_cb = matches!(&*t.ty, Type::ImplTrait(_)) || cb.0.contains(&type_name(&t.ty));
            if let (true, Pat::Ident(pi)) = (is_cb, &mut *t.pat) { pi.mutability = None; }
        }
    }
    let name = {
        let n = sig.ident.to_string();
        METHODS.iter().find(|(f, _)| *f == n && matches!(sig.inputs.first(), Some(FnArg::Receiver(_))) && vis).map(|x| x.1.to_string()).or(ctx.renames.get(&n).cloned()).unwrap_or(n)
    };
    let (g, w) = split_generics(&sig.generics);
    let inputs = &sig.inputs;
    let out = match &sig.output {
        ReturnType::Default => if c.ret != "vx_ret" && !c.ret.is_empty() { format!("-> ({}: ())", c.ret) } else { String::new() },
        ReturnType::Type(_, t) => format!("-> ({}: {})", if c.ret.is_empty() { "vx_ret" } else { &c.ret }, t.to_token_stream()),
    };
    let v = if vis { "pub " } else { "" };
    let attr = c.get("attr").unwrap_or("").to_string();
    let head = format!("{} fn {}{}({}) {} {}\n{}", v, name, g, inputs.to_token_stream(), out, w, c.get("spec").unwrap_or("").trim_end());
    if use_only {
        return format!("#[verifier::external_body]\n{}\n{{ unimplemented!() }}\n", head);
    }
    let mut block = match block {
        None => return format!("{};\n", head),
        Some(b) => b,
    };
    let mut used: BTreeSet<String> = ["spec", "attr", "mutable", "thread", "pass"].iter().map(|s| s.to_string()).collect();
    // inlining to a fixed point
    for d in 0..8 {
        let mut inl = Inliner { ctx, changed: false, depth: d };
        inl.visit_block_mut(&mut block);
        if !inl.changed { break; }
    }
    used.insert("desugar".into());
    Desugar(c.get("desugar").unwrap_or("").split_whitespace().map(|x| x.to_string()).collect()).visit_block_mut(&mut block);
    if c.get("guards").is_some() {
        used.insert("guards".into());
        Guards.visit_block_mut(&mut block);
    }
    if c.get("unsize").is_some() {
        used.insert("unsize".into());
        Unsize.visit_block_mut(&mut block);
        if dyn_result {
            if let Some(Stmt::Expr(e, None)) = block.stmts.last_mut() { let x = e.clone(); *e = parse_quote!(vx_unsize(#x)); }
        }
    }
    BlockArg.visit_block_mut(&mut block);
    Eta.visit_block_mut(&mut block);
    ForwardIter.visit_block_mut(&mut block);
    ForEach.visit_block_mut(&mut block);
    Macros.visit_block_mut(&mut block);
    if let Some(d) = c.get("refuse") {
        used.insert("refuse".into());
        Refuse { n: 0, panics: d.split_whitespace().any(|x| x == "panic"), which: d.split_whitespace().filter_map(|x| x.parse().ok()).collect() }.visit_block_mut(&mut block);
    }
    Types { ctx }.visit_block_mut(&mut block);
    Methods { ctx }.visit_block_mut(&mut block);
    if c.get("thread").is_some() { ThreadLoops { n: 0 }.visit_block_mut(&mut block); }
    let mut loops = Loops { n: 0, kinds: vec![], has_break: vec![], fors: BTreeSet::new(), muts: BTreeMap::new(), zips: BTreeSet::new() };
    loops.visit_block_mut(&mut block);
    let mut clos = Closures { ctx, n: 0, auto: BTreeMap::new() };
    clos.visit_block_mut(&mut block);
    let (nclos, auto) = (clos.n, clos.auto);
    let hoist = c.get("steps").is_some();
    if hoist {
        used.insert("steps".into());
        StepBlock { k: 0, n: 0 }.visit_block_mut(&mut block);
    }
    let ends = c.sections.iter().filter_map(|(s, _)| s.strip_prefix("closure_end ").and_then(|x| x.trim().parse().ok())).collect();
    let mut st = Steps { hoist, ends, done: BTreeSet::new() };
    st.visit_block_mut(&mut block);
    used.extend(st.done);
    // anchors
    let mut want = vec![];
    for (s, _) in &c.sections {
        let w: Vec<&str> = s.split_whitespace().collect();
        if w.is_empty() { continue; }
        match w[0] {
            "after_let" | "before_let" | "after_call" | "before_call" => want.push((w[0].to_string(), w[1].to_string(), w.get(2).and_then(|x| x.parse().ok()).unwrap_or(1), s.clone())),
            "before_return" => want.push((w[0].to_string(), String::new(), w.get(1).and_then(|x| x.parse().ok()).unwrap_or(1), s.clone())),
            _ => {}
        }
    }
    let mut anc = Anchors { want, lets: BTreeMap::new(), calls: BTreeMap::new(), rets: 0, done: BTreeSet::new(), deep: c.get("deep").is_some() };
    if anc.deep { used.insert("deep".into()); }
    anc.visit_block_mut(&mut block);
    used.extend(anc.done.iter().cloned());
    // start / end
    if c.get("end").is_some() {
        used.insert("end".into());
        let n = block.stmts.len();
        match block.stmts.last().cloned() {
            Some(Stmt::Expr(e, None)) if sig.output != ReturnType::Default => {
                let ty = match &sig.output { ReturnType::Type(_, t) => (**t).clone(), _ => unreachable!() };
                block.stmts[n - 1] = parse_quote!(let vx_tail: #ty = #e;);
                block.stmts.push(parse_quote!(__vx!(proof "end");));
                block.stmts.push(Stmt::Expr(parse_quote!(vx_tail), None));
            }
            _ => block.stmts.push(parse_quote!(__vx!(proof "end");)),
        }
    }
    if c.get("start").is_some() {
        used.insert("start".into());
        block.stmts.insert(0, parse_quote!(__vx!(proof "start");));
    }
    let text = rustfmt(&format!("fn x() {}", block.to_token_stream()));
    let body = text[text.find('{').unwrap()..].trim_end().to_string();
    let hb: BTreeMap<usize, bool> = loops.has_break.iter().cloned().collect();
    let nl = loops.n;
    let mut f = |kind: &str, arg: &str| -> (bool, String) {
        match kind {
            "ghost" if loops.zips.contains(&arg.trim().parse().unwrap_or(0)) => (false, format!("let ghost vx_s{0} = {1}@; let ghost vx_t{0} = vx_z{0}@; let ghost mut vx_n{0}: int = 0; proof {{ assert(vx_z{0}@ =~= vx_t{0}.skip(0)); }}", arg, loops.muts[&arg.trim().parse().unwrap()])),
            "ghost" if loops.muts.contains_key(&arg.trim().parse().unwrap_or(0)) => (false, format!("let ghost vx_s{0} = {1}@; let ghost mut vx_n{0}: int = 0;", arg, loops.muts[&arg.trim().parse().unwrap()])),
            "ghost" => (false, format!("let ghost vx_s{0} = vx_it{0}@; let ghost mut vx_n{0}: int = 0; proof {{ vx_ends(vx_s{0}); assert(vx_it{0}@ =~= vx_s{0}.skip(0)); }}", arg)),
            "step" => {
                let k = format!("loop_start {}", arg);
                let extra = c.get(&k).unwrap_or("");
                if !extra.is_empty() { used.insert(k); }
                if loops.zips.contains(&arg.trim().parse().unwrap_or(0)) { return (false, format!("proof {{ vx_n{0} = vx_n{0} + 1; }} assert(vx_z{0}@ =~= vx_t{0}.skip(vx_n{0}));\n{1}", arg, extra)); }
                if loops.muts.contains_key(&arg.trim().parse().unwrap_or(0)) { return (false, format!("proof {{ vx_n{0} = vx_n{0} + 1; }}\n{1}", arg, extra)); }
                (false, format!("proof {{ vx_n{0} = vx_n{0} + 1; }} assert(vx_it{0}@ =~= vx_s{0}.skip(vx_n{0})); proof {{ vx_step(vx_s{0}, vx_n{0}); }}\n{1}", arg, extra))
            }
            "loop" => {
                let n: usize = arg.parse().unwrap();
                let k = format!("loop {}", n);
                used.insert(k.clone());
                let user = c.get(&k).unwrap_or("").trim_end();
                if !loops.fors.contains(&n) { return (true, user.to_string()); }
                // split user text into parts
                let (mut inv, mut ens, mut dec, mut exb) = (String::new(), String::new(), String::new(), String::new());
                let mut cur = 0;
                for l in user.lines() {
                    let t = l.trim_start();
                    let (c2, t) = if let Some(r) = t.strip_prefix("invariant_except_break") { (3, r) } else if let Some(r) = t.strip_prefix("invariant") { (0, r) } else if let Some(r) = t.strip_prefix("ensures") { (1, r) } else if let Some(r) = t.strip_prefix("decreases") { (2, r) } else { (cur, t) };
                    cur = c2;
                    let d = match cur { 0 => &mut inv, 1 => &mut ens, 2 => &mut dec, _ => &mut exb };
                    d.push_str(t);
                    d.push('\n');
                }
                fn comma(s: &str) -> String { let t = s.trim_end(); if t.trim().is_empty() || t.ends_with(',') { t.to_string() } else { format!("{},", t) } }
                let mut s = format!("invariant 0 <= vx_n{0} <= vx_s{0}.len(), vx_it{0}@ == vx_s{0}.skip(vx_n{0}),\n{1}", n, comma(&inv));
                if let Some(p) = loops.muts.get(&n) {
                    s = format!("invariant 0 <= vx_n{0} <= vx_s{0}.len(), vx_k{0} == vx_n{0}, {1}@.len() == vx_s{0}.len(), forall|vx_i: int| vx_n{0} <= vx_i < vx_s{0}.len() ==> #[trigger] {1}@[vx_i] == vx_s{0}[vx_i],\n{2}", n, p, comma(&inv));
                }
                if loops.zips.contains(&n) { s = s.replacen("invariant ", &format!("invariant vx_n{0} <= vx_t{0}.len(), vx_z{0}@ == vx_t{0}.skip(vx_n{0}), ", n), 1); }
                if !exb.trim().is_empty() { s = format!("invariant_except_break\n{}\n{}", comma(&exb), s); }
                let brk = hb[&n];
                if !brk && loops.zips.contains(&n) { s.push_str(&format!("\nensures vx_n{0} == vx_s{0}.len() || vx_n{0} == vx_t{0}.len(),\n{1}", n, comma(&ens))); }
                else if !brk { s.push_str(&format!("\nensures vx_n{0} == vx_s{0}.len(),\n{1}", n, comma(&ens))); }
                else if !ens.trim().is_empty() { s.push_str(&format!("\nensures {}", comma(&ens))); }
                if dec.trim().is_empty() { s.push_str(&format!("\ndecreases vx_s{0}.len() - vx_n{0}", n)); } else { s.push_str(&format!("\ndecreases {}", dec)); }
                (true, s)
            }
            "loop_start" | "loop_end" | "before_loop" | "after_loop" | "loop_exit" => {
                let k = format!("{} {}", kind, arg);
                let t = c.get(&k).unwrap_or("").to_string();
                if !t.is_empty() { used.insert(k); }
                (false, t)
            }
            "closure" => {
                let n: usize = arg.parse().unwrap();
                let k = format!("closure {}", n);
                if let Some(t) = c.get(&k) { used.insert(k.clone()); return (true, t.trim().to_string()); }
                match auto.get(&n) {
                    Some(Some(s)) => (true, format!("-> (vx_r: _) ensures vx_same(vx_r, {})", s)),
                    _ => (false, String::new()),
                }
            }
            "proof" => (false, c.get(arg).unwrap_or("").to_string()),
            _ => (false, String::new()),
        }
    };
    let marked = replace_marks(&body, &mut f);
    let body = unhyg(&body, &marked);
    if body != marked { ctx.report.push(format!("lost {} {}: an annotation names a local of an expanded callee that is not there", ctx.file, ctx.path)); }
    for (s, t) in &c.sections {
        if !used.contains(s) && !t.trim().is_empty() && !s.starts_with("opt ") {
            // The rest is still verified; the driver takes a failure in it for a lost annotation.
            ctx.report.push(format!("lost {} {}: annotation '{}' has no place in the current source ({} loops, {} closures)", ctx.file, ctx.path, s, nl, nclos));
        }
    }
    for n in 1..=nl {
        if c.get(&format!("loop {}", n)).is_none() {
            ctx.report.push(format!("lost {} {}: loop {} is new, nothing is known about it", ctx.file, ctx.path, n));
        }
    }
    if nl > 0 { ctx.report.push(format!("loops {} {} {}", ctx.file, ctx.path, loops.kinds.join(","))); }
    let iso = if nl > 0 && !attr.contains("loop_isolation") { "#[verifier::loop_isolation(false)]\n#[verifier::allow_complex_invariants]\n" } else { "" };
    format!("{}{}\n{}\n{}\n", iso, attr, head, body)
}
