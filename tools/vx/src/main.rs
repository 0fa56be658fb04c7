//! vx: mechanical extraction of target functions from /repo's current source into the Rust
//! subset the verifier accepts. Every rewrite below preserves meaning; a construct outside
//! the subset is reported as "lost", never guessed at.
mod inline;
mod norm;
mod rename;
mod returns;
mod summary;
mod types;

use quote::ToTokens;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap, HashSet};
use syn::visit_mut::VisitMut;
use syn::*;

#[derive(Clone)]
pub struct FnDef {
    pub sig: Signature,
    pub block: Block,
    pub self_ty: Option<String>,
    pub scalars: HashSet<String>,
    pub line: usize,
    pub file: String,
}

#[derive(Default, Clone)]
pub struct Program {
    pub free: BTreeMap<String, FnDef>,
    pub methods: BTreeMap<(String, String), FnDef>,
    pub structs: BTreeMap<String, (ItemStruct, HashSet<String>)>,
    pub consts: BTreeMap<String, Expr>,
    /// functions with a contract of their own: (type, name)
    pub contract: HashSet<(String, String)>,
}

fn is_test_cfg(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        a.path().is_ident("cfg") && {
            let t = a.meta.to_token_stream().to_string();
            t.contains("test") || t.contains("feature")
        }
    })
}

/// type parameters bounded by a numeric trait stand for the scalar type
fn scalars_of(g: &Generics) -> HashSet<String> {
    let mut s = HashSet::new();
    let num = |b: &syn::punctuated::Punctuated<TypeParamBound, Token![+]>| {
        let t = b.to_token_stream().to_string();
        ["RealField", "Scalar", "Float", "ComplexField", "ClosedMul"].iter().any(|k| t.contains(k))
    };
    for p in &g.params {
        if let GenericParam::Type(tp) = p {
            if num(&tp.bounds) {
                s.insert(tp.ident.to_string());
            }
        }
    }
    if let Some(w) = &g.where_clause {
        for p in &w.predicates {
            if let WherePredicate::Type(pt) = p {
                if num(&pt.bounds) {
                    s.insert(pt.bounded_ty.to_token_stream().to_string());
                }
            }
        }
    }
    s
}

fn ty_head(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        Type::Reference(r) => ty_head(&r.elem),
        _ => String::new(),
    }
}

fn collect(items: &[Item], file: &str, prog: &mut Program) {
    for it in items {
        match it {
            Item::Fn(f) if !is_test_cfg(&f.attrs) => {
                let d = FnDef {
                    scalars: scalars_of(&f.sig.generics),
                    sig: f.sig.clone(),
                    block: (*f.block).clone(),
                    self_ty: None,
                    line: f.sig.ident.span().start().line,
                    file: file.into(),
                };
                prog.free.insert(f.sig.ident.to_string(), d);
            }
            Item::Const(c) if !is_test_cfg(&c.attrs) => {
                prog.consts.insert(c.ident.to_string(), (*c.expr).clone());
            }
            Item::Struct(s) if !is_test_cfg(&s.attrs) => {
                prog.structs.insert(s.ident.to_string(), (s.clone(), scalars_of(&s.generics)));
            }
            Item::Impl(im) if !is_test_cfg(&im.attrs) => {
                let st = ty_head(&im.self_ty);
                let sc = scalars_of(&im.generics);
                for i in &im.items {
                    match i {
                        ImplItem::Fn(f) if !is_test_cfg(&f.attrs) => {
                            let mut s2 = sc.clone();
                            s2.extend(scalars_of(&f.sig.generics));
                            prog.methods.insert(
                                (st.clone(), f.sig.ident.to_string()),
                                FnDef {
                                    sig: f.sig.clone(),
                                    block: f.block.clone(),
                                    self_ty: Some(st.clone()),
                                    scalars: s2,
                                    line: f.sig.ident.span().start().line,
                                    file: file.into(),
                                },
                            );
                        }
                        ImplItem::Const(c) => {
                            prog.consts.insert(c.ident.to_string(), c.expr.clone());
                        }
                        _ => {}
                    }
                }
            }
            Item::Trait(tr) if !is_test_cfg(&tr.attrs) => {
                let st = tr.ident.to_string();
                let sc = scalars_of(&tr.generics);
                for i in &tr.items {
                    if let TraitItem::Fn(f) = i {
                        if let Some(b) = &f.default {
                            let mut s2 = sc.clone();
                            s2.extend(scalars_of(&f.sig.generics));
                            prog.methods.insert(
                                (st.clone(), f.sig.ident.to_string()),
                                FnDef {
                                    sig: f.sig.clone(),
                                    block: b.clone(),
                                    self_ty: Some(st.clone()),
                                    scalars: s2,
                                    line: f.sig.ident.span().start().line,
                                    file: file.into(),
                                },
                            );
                        }
                    }
                }
            }
            Item::Mod(m) if !is_test_cfg(&m.attrs) => {
                if let Some((_, its)) = &m.content {
                    collect(its, file, prog);
                }
            }
            _ => {}
        }
    }
}

/// calls of a function, under its new name
struct Recall<'a> {
    old: &'a (String, String),
    new: &'a str,
    me: Option<String>,
}
impl<'a> VisitMut for Recall<'a> {
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        syn::visit_mut::visit_expr_path_mut(self, p);
        let s: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
        let n = s.len();
        if s[n - 1] != self.old.1 || p.qself.is_some() {
            return;
        }
        let hit = if self.old.0.is_empty() {
            n == 1 || s[n - 2].chars().next().map(|c| c.is_lowercase()).unwrap_or(false)
        } else {
            n >= 2 && (s[n - 2] == self.old.0 || (s[n - 2] == "Self" && self.me.as_deref() == Some(&self.old.0)))
        };
        if hit {
            let i = Ident::new(self.new, proc_macro2::Span::call_site());
            *p = parse_quote!(#i);
        }
    }
}

pub struct Out {
    pub lost: Vec<String>,
}

fn main() {
    let cfg: Value = serde_json::from_str(&std::fs::read_to_string(std::env::args().nth(1).unwrap()).unwrap()).unwrap();
    let mut prog = Program::default();
    let mut errs: Vec<String> = vec![];
    for f in cfg["files"].as_array().unwrap() {
        let f = f.as_str().unwrap();
        match std::fs::read_to_string(f).map_err(|e| e.to_string()).and_then(|s| syn::parse_file(&s).map_err(|e| e.to_string())) {
            Ok(ast) => collect(&ast.items, f, &mut prog),
            Err(e) => errs.push(format!("{}: {}", f, e)),
        }
    }
    for t in cfg["targets"].as_array().unwrap() {
        let (name, st) = (t["name"].as_str().unwrap().to_string(), t["self"].as_str());
        prog.contract.insert((st.unwrap_or("").to_string(), name.clone()));
        // a free function known by another name, or become an associated one: the only one of the right type
        if st.is_none() && !prog.free.contains_key(&name) && t["types"].is_array() {
            let want: Vec<&str> = t["types"].as_array().unwrap().iter().map(|x| x.as_str().unwrap()).collect();
            let fits = |d: &FnDef| {
                let mut got = vec![];
                for i in &d.sig.inputs {
                    match i {
                        FnArg::Receiver(_) => return false,
                        FnArg::Typed(pt) => got.push(types::map_ty(&pt.ty, &d.scalars, "").unwrap_or_default()),
                    }
                }
                let ret = match &d.sig.output {
                    ReturnType::Default => Some("()".to_string()),
                    ReturnType::Type(_, t) => types::map_ty(t, &d.scalars, ""),
                };
                got == want && ret.as_deref() == t["ret"].as_str()
            };
            let mut c: Vec<(String, String)> = prog.free.iter().filter(|(_, d)| fits(d)).map(|(n, _)| (String::new(), n.clone())).collect();
            c.extend(prog.methods.iter().filter(|(_, d)| fits(d)).map(|(k, _)| k.clone()));
            if c.len() == 1 {
                let old = c.pop().unwrap();
                let mut d = if old.0.is_empty() { prog.free.remove(&old.1).unwrap() } else { prog.methods.remove(&old).unwrap() };
                let mut r = Recall { old: &old, new: &name, me: d.self_ty.clone() };
                r.visit_block_mut(&mut d.block);
                d.self_ty = None;
                for f in prog.free.values_mut().chain(prog.methods.values_mut()) {
                    Recall { old: &old, new: &name, me: f.self_ty.clone() }.visit_block_mut(&mut f.block);
                }
                prog.free.insert(name, d);
            }
        }
    }
    let reserved: Vec<String> = cfg["reserved"].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect()).unwrap_or_default();
    let mut out = vec![];
    for t in cfg["targets"].as_array().unwrap() {
        let name = t["name"].as_str().unwrap();
        let canon: Vec<String> = t["params"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().into()).collect();
        let def = match t["self"].as_str() {
            Some(s) => prog.methods.get(&(s.to_string(), name.to_string())).cloned(),
            None => prog.free.get(name).cloned(),
        };
        match def {
            None => out.push(json!({"name": name, "self": t["self"], "lost": [format!("function {} not found", name)]})),
            Some(d) => out.push(process(&prog, name, d, &canon, &reserved)),
        }
    }
    let mut structs = serde_json::Map::new();
    for s in cfg["structs"].as_array().unwrap_or(&vec![]) {
        let n = s.as_str().unwrap();
        if let Some((st, sc)) = prog.structs.get(n) {
            let mut fl = vec![];
            let mut lost = vec![];
            for f in &st.fields {
                let ty = types::map_ty(&f.ty, sc, n);
                match (&f.ident, ty) {
                    (Some(i), Some(t)) => fl.push(json!([i.to_string(), t])),
                    _ => lost.push(format!("field of {} has unsupported type {}", n, f.ty.to_token_stream())),
                }
            }
            structs.insert(n.into(), json!({"fields": fl, "lost": lost}));
        } else {
            structs.insert(n.into(), json!({"fields": [], "lost": [format!("struct {} not found", n)]}));
        }
    }
    println!("{}", serde_json::to_string_pretty(&json!({"fns": out, "structs": structs, "errors": errs})).unwrap());
}

fn process(prog: &Program, name: &str, d: FnDef, canon: &[String], reserved: &[String]) -> Value {
    let mut lost: Vec<String> = vec![];
    let self_ty = d.self_ty.clone();
    let mut block = d.block.clone();
    norm::strip(&mut block, &mut lost);
    // inline private helpers until none is left
    let mut inl = inline::Inliner { prog, self_ty: self_ty.clone(), depth: 0, lost: vec![], uniq: 0, inlined: vec![], tail: false, unit: matches!(d.sig.output, ReturnType::Default) };
    inl.run(&mut block);
    lost.extend(inl.lost.clone());
    // parameters, renamed to the canonical names of the contract
    let mut params = vec![];
    let mut ren = rename::Renamer::new();
    // names that mean something in the annotations are not for locals
    ren.used.extend(canon.iter().chain(reserved).cloned());
    ren.push();
    let mut k = 0;
    let mut has_self = Value::Null;
    for inp in &d.sig.inputs {
        match inp {
            FnArg::Receiver(r) if self_ty.as_deref() == Some("Matrix") && r.mutability.is_none() => {
                // an extension method of the vector type: the receiver is the first parameter of the contract
                let cn = canon.get(k).cloned().unwrap_or_default();
                ren.bind_as("self", &cn);
                params.push(json!({"name": cn, "ty": "&Vc", "orig": "self"}));
                k += 1;
            }
            FnArg::Receiver(r) => {
                has_self = json!(match (&r.reference, &r.mutability) {
                    (Some(_), Some(_)) => "&mut self",
                    (Some(_), None) => "&self",
                    _ => "self",
                });
            }
            FnArg::Typed(pt) => {
                let ty = types::map_ty(&pt.ty, &d.scalars, self_ty.as_deref().unwrap_or(""));
                let nm = match &*pt.pat {
                    Pat::Ident(pi) => pi.ident.to_string(),
                    _ => {
                        lost.push("parameter pattern".into());
                        "_".into()
                    }
                };
                let cn = canon.get(k).cloned().unwrap_or_else(|| nm.clone());
                if k >= canon.len() {
                    lost.push(format!("extra parameter {}", nm));
                }
                ren.bind_as(&nm, &cn);
                match ty {
                    Some(t) => params.push(json!({"name": cn, "ty": t, "orig": nm})),
                    None => {
                        lost.push(format!("parameter type {}", pt.ty.to_token_stream()));
                        params.push(json!({"name": cn, "ty": "?", "orig": nm}));
                    }
                }
                k += 1;
            }
        }
    }
    if k < canon.len() {
        lost.push(format!("parameters missing: expected {}", canon.len()));
    }
    ren.block(&mut block);
    let ret = match &d.sig.output {
        ReturnType::Default => Some("()".to_string()),
        ReturnType::Type(_, t) => types::map_ty(t, &d.scalars, self_ty.as_deref().unwrap_or("")),
    };
    if ret.is_none() {
        lost.push("return type".into());
    }
    let ptypes: HashMap<String, String> =
        params.iter().map(|p| (p["name"].as_str().unwrap().to_string(), p["ty"].as_str().unwrap().to_string())).collect();
    let mut n = norm::Norm::new(prog, d.scalars.clone(), ptypes.clone(), self_ty.clone());
    n.run(&mut block);
    lost.extend(n.lost.clone());
    let loops = summary::annotate(&mut block, &n, &mut lost);
    if ret.as_deref() != Some("()") {
        RetNorm.visit_block_mut(&mut block);
        if matches!(block.stmts.last(), Some(Stmt::Expr(_, None))) {
            if let Some(Stmt::Expr(e, None)) = block.stmts.pop() {
                if simple(&e) {
                    block.stmts.push(Stmt::Expr(e, None));
                } else {
                    block.stmts.push(parse_quote!(let vx_ret = #e;));
                    block.stmts.push(Stmt::Expr(parse_quote!(vx_ret), None));
                }
            }
        }
    }
    let text = norm::print_block(&block);
    json!({
        "name": name, "self": self_ty, "recv": has_self, "params": params, "ret": ret, "body": text,
        "loops": loops, "locals": n.locals_json(), "lost": lost, "line": d.line, "file": d.file,
        "inlined": inl.inlined,
    })
}

/// results are named before they are returned, so that ghost code can stand between
struct RetNorm;
fn simple(e: &Expr) -> bool {
    matches!(e, Expr::Path(_) | Expr::Lit(_) | Expr::Macro(_))
}
impl VisitMut for RetNorm {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        syn::visit_mut::visit_expr_mut(self, e);
        if let Expr::Return(r) = e {
            if let Some(x) = &r.expr {
                *e = if simple(x) { parse_quote!({ return #x; }) } else { parse_quote!({ let vx_ret = #x; return vx_ret; }) };
            }
        }
    }
}
