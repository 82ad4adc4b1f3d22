//! Exec expression -> spec expression, for the automatic contracts of closures.
use crate::xform::Ctx;
use quote::ToTokens;
use syn::*;

fn method_ok(ctx: &Ctx, n: &str) -> bool {
    ctx.specable.contains(n)
}

pub fn to_spec(ctx: &Ctx, e: &Expr) -> Option<String> {
    Some(match e {
        Expr::Path(p) => p.to_token_stream().to_string(),
        Expr::Lit(l) => l.to_token_stream().to_string(),
        Expr::Paren(p) => format!("({})", to_spec(ctx, &p.expr)?),
        Expr::Field(f) => format!("{}.{}", to_spec(ctx, &f.base)?, f.member.to_token_stream()),
        Expr::Reference(r) if r.mutability.is_none() => format!("&{}", to_spec(ctx, &r.expr)?),
        Expr::Unary(u) => format!("({}{})", u.op.to_token_stream(), to_spec(ctx, &u.expr)?),
        Expr::Binary(b) => match b.op {
            BinOp::Eq(_) | BinOp::Ne(_) | BinOp::And(_) | BinOp::Or(_) | BinOp::Lt(_) | BinOp::Le(_) | BinOp::Gt(_) | BinOp::Ge(_) => {
                format!("({} {} {})", to_spec(ctx, &b.left)?, b.op.to_token_stream(), to_spec(ctx, &b.right)?)
            }
            _ => return None,
        },
        Expr::Tuple(t) => {
            let v: Option<Vec<String>> = t.elems.iter().map(|x| to_spec(ctx, x)).collect();
            let v = v?;
            if v.len() == 1 { format!("({},)", v[0]) } else { format!("({})", v.join(", ")) }
        }
        Expr::Struct(s) if s.rest.is_none() => {
            let mut v = vec![];
            for f in &s.fields {
                v.push(format!("{}: {}", f.member.to_token_stream(), to_spec(ctx, &f.expr)?));
            }
            format!("{} {{ {} }}", s.path.to_token_stream(), v.join(", "))
        }
        Expr::Call(c) => {
            let p = match &*c.func { Expr::Path(p) => p, _ => return None };
            let n = p.path.segments.last().unwrap().ident.to_string();
            let v: Option<Vec<String>> = c.args.iter().map(|x| to_spec(ctx, x)).collect();
            let v = v?;
            if n == "vx_eq" { return Some(format!("({} == {})", v[0], v[1])); }
            if n.chars().next().unwrap().is_uppercase() || method_ok(ctx, &n) {
                format!("{}({})", p.to_token_stream(), v.join(", "))
            } else {
                return None;
            }
        }
        Expr::MethodCall(m) => {
            let n = m.method.to_string();
            let r = to_spec(ctx, &m.receiver)?;
            if n == "vx_clone" && m.args.is_empty() { return Some(format!("vx_cloned({})", r)); }
            if !method_ok(ctx, &n) { return None; }
            let v: Option<Vec<String>> = m.args.iter().map(|x| to_spec(ctx, x)).collect();
            format!("{}.{}({})", r, n, v?.join(", "))
        }
        Expr::If(i) => {
            let el = &i.else_branch.as_ref()?.1;
            if let Expr::Let(_) = &*i.cond { return None; }
            format!("(if {} {{ {} }} else {{ {} }})", to_spec(ctx, &i.cond)?, block(ctx, &i.then_branch)?, to_spec(ctx, el)?)
        }
        Expr::Match(m) => {
            let mut s = format!("(match {} {{ ", to_spec(ctx, &m.expr)?);
            for a in &m.arms {
                let g = match &a.guard { Some((_, g)) => format!(" if {}", to_spec(ctx, g)?), None => String::new() };
                s.push_str(&format!("{}{} => {}, ", a.pat.to_token_stream(), g, to_spec(ctx, &a.body)?));
            }
            s + "})"
        }
        Expr::Block(b) if b.label.is_none() => format!("({{ {} }})", block(ctx, &b.block)?),
        _ => return None,
    })
}

fn block(ctx: &Ctx, b: &Block) -> Option<String> {
    let mut s = String::new();
    let n = b.stmts.len();
    for (i, st) in b.stmts.iter().enumerate() {
        match st {
            Stmt::Local(l) => {
                let init = l.init.as_ref()?;
                if init.diverge.is_some() { return None; }
                s.push_str(&format!("let {} = {}; ", l.pat.to_token_stream(), to_spec(ctx, &init.expr)?));
            }
            Stmt::Expr(e, None) if i + 1 == n => s.push_str(&to_spec(ctx, e)?),
            _ => return None,
        }
    }
    if n == 0 || !matches!(b.stmts[n - 1], Stmt::Expr(_, None)) { return None; }
    Some(s)
}
