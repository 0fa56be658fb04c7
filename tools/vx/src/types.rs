//! Mapping of the project's types to the verifier model's types, and light type inference.
use quote::ToTokens;
use std::collections::{HashMap, HashSet};
use syn::*;

fn gargs(p: &PathSegment) -> Vec<GenericArgument> {
    match &p.arguments {
        PathArguments::AngleBracketed(a) => a.args.iter().cloned().collect(),
        _ => vec![],
    }
}
fn targ(a: &GenericArgument) -> Option<&Type> {
    match a {
        GenericArgument::Type(t) => Some(t),
        _ => None,
    }
}
fn is_one(t: &Type) -> bool {
    let s = t.to_token_stream().to_string().replace(' ', "");
    s == "U1" || s == "Const<1>" || s.ends_with("::U1") || s.ends_with("::Const<1>")
}

pub fn map_ty(t: &Type, sc: &HashSet<String>, self_ty: &str) -> Option<String> {
    match t {
        Type::Paren(p) => map_ty(&p.elem, sc, self_ty),
        Type::Reference(r) => {
            let m = map_ty(&r.elem, sc, self_ty)?;
            Some(if r.mutability.is_some() { format!("&mut {}", m) } else { format!("&{}", m) })
        }
        Type::Tuple(tt) => {
            let v: Option<Vec<_>> = tt.elems.iter().map(|e| map_ty(e, sc, self_ty)).collect();
            let v = v?;
            Some(if v.is_empty() { "()".into() } else { format!("({})", v.join(", ")) })
        }
        Type::Path(p) => {
            let seg = p.path.segments.last()?;
            let n = seg.ident.to_string();
            let a = gargs(seg);
            if p.path.segments.len() == 1 && sc.contains(&n) {
                return Some("Sc".into());
            }
            match n.as_str() {
                "usize" | "bool" | "u32" | "u64" | "u8" | "i32" | "i64" | "isize" => Some(n),
                "Self" => Some(self_ty.to_string()),
                "Matrix" => {
                    let e = map_ty(targ(a.first()?)?, sc, self_ty)?;
                    let col = a.get(2).and_then(targ).map(is_one).unwrap_or(false);
                    match (e.as_str(), col) {
                        ("Sc", true) => Some("Vc".into()),
                        ("usize", true) => Some("Piv".into()),
                        ("Sc", false) => Some("Mat".into()),
                        _ => None,
                    }
                }
                "OVector" | "VectorView" | "VectorViewMut" | "Vector" | "DVector" => {
                    let e = map_ty(targ(a.first()?)?, sc, self_ty)?;
                    match e.as_str() {
                        "Sc" => Some("Vc".into()),
                        "usize" => Some("Piv".into()),
                        _ => None,
                    }
                }
                "Result" => {
                    let x = map_ty(targ(a.first()?)?, sc, self_ty)?;
                    let y = map_ty(targ(a.get(1)?)?, sc, self_ty)?;
                    Some(format!("Result<{}, {}>", x, y))
                }
                "Option" => Some(format!("Option<{}>", map_ty(targ(a.first()?)?, sc, self_ty)?)),
                "Error" | "LSolverType" => Some(n),
                "NLP" => Some("NLP".into()),
                _ => {
                    // single-letter problem/solver generics keep their name when the contract declares them
                    if a.is_empty() && n.len() <= 3 && n.chars().all(|c| c.is_uppercase()) {
                        Some(n)
                    } else if a.is_empty() || ["Dense", "Newton"].contains(&n.as_str()) {
                        if ["Dense", "Newton"].contains(&n.as_str()) { Some(n) } else { None }
                    } else {
                        None
                    }
                }
            }
        }
        _ => None,
    }
}

pub fn strip_ref(t: &str) -> &str {
    t.trim_start_matches("&mut ").trim_start_matches('&')
}

pub type Env = HashMap<String, String>;

pub fn path_ident(e: &Expr) -> Option<String> {
    match e {
        Expr::Path(p) if p.qself.is_none() => p.path.get_ident().map(|i| i.to_string()),
        Expr::Paren(p) => path_ident(&p.expr),
        Expr::Group(p) => path_ident(&p.expr),
        _ => None,
    }
}

/// textual place `x`, `self.f`
pub fn place(e: &Expr) -> Option<String> {
    match e {
        Expr::Paren(p) => place(&p.expr),
        Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => place(&u.expr),
        Expr::Reference(r) => place(&r.expr),
        Expr::Field(f) => {
            let b = place(&f.base)?;
            match &f.member {
                Member::Named(i) => Some(format!("{}.{}", b, i)),
                _ => None,
            }
        }
        _ => path_ident(e),
    }
}

pub fn ty(e: &Expr, env: &Env) -> String {
    match e {
        Expr::Lit(l) => match &l.lit {
            Lit::Int(_) => "usize".into(),
            Lit::Bool(_) => "bool".into(),
            Lit::Float(_) => "Sc".into(),
            _ => "?".into(),
        },
        Expr::Paren(p) => ty(&p.expr, env),
        Expr::Group(p) => ty(&p.expr, env),
        Expr::Reference(r) => ty(&r.expr, env),
        Expr::Unary(u) => match u.op {
            UnOp::Not(_) => "bool".into(),
            _ => ty(&u.expr, env),
        },
        Expr::Cast(c) => c.ty.to_token_stream().to_string(),
        Expr::Binary(b) => {
            use BinOp::*;
            match b.op {
                Lt(_) | Le(_) | Gt(_) | Ge(_) | Eq(_) | Ne(_) | And(_) | Or(_) => "bool".into(),
                _ => {
                    let l = ty(&b.left, env);
                    if l == "Sc" || l == "Vc" {
                        l
                    } else {
                        let r = ty(&b.right, env);
                        if r == "Sc" { r } else { l }
                    }
                }
            }
        }
        Expr::Path(_) | Expr::Field(_) => {
            place(e).and_then(|p| env.get(&p).cloned()).map(|t| strip_ref(&t).to_string()).unwrap_or("?".into())
        }
        Expr::Call(c) => {
            let f = c.func.to_token_stream().to_string().replace(' ', "");
            if f.starts_with("Sc::") { "Sc".into() } else if f.starts_with("vx_v") || f.starts_with("Vc::") { "Vc".into() } else if f.starts_with("Piv::") { "Piv".into() } else if f.starts_with("vx_monus") || f.starts_with("vx_min") || f.starts_with("vx_max") { "usize".into() } else { "?".into() }
        }
        Expr::MethodCall(m) => {
            let r = ty(&m.receiver, env);
            match m.method.to_string().as_str() {
                "at2" => "Sc".into(),
                "at1" => if r == "Piv" { "usize".into() } else { "Sc".into() },
                "nrows" | "ncols" | "len" => "usize".into(),
                "column" | "component_mul" | "clone_owned" => "Vc".into(),
                "map" | "zip_map" if r == "Vc" => r,
                "dot" | "norm_squared" | "norm" | "sum" if r == "Vc" => "Sc".into(),
                "clone" => r,
                "abs" | "recip" | "neg" | "sqrt" | "powi" | "mul" | "add" | "sub" | "div" | "max" | "min" | "mul_add" | "signum" => r,
                "is_zero" | "is_finite" | "lt" | "gt" | "le" | "ge" | "eq" | "ne" => "bool".into(),
                _ => "?".into(),
            }
        }
        Expr::Block(b) => match b.block.stmts.last() {
            Some(Stmt::Expr(e, None)) => ty(e, env),
            _ => "?".into(),
        },
        Expr::If(i) => match i.then_branch.stmts.last() {
            Some(Stmt::Expr(e, None)) => ty(e, env),
            _ => "?".into(),
        },
        _ => "?".into(),
    }
}
