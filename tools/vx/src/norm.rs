//! Normalisation passes: each rewrites one construct into an equivalent one the verifier accepts.
use crate::types::{self, path_ident, Env};
use crate::Program;
use proc_macro2::{Span, TokenStream};
use quote::ToTokens;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap, HashSet};
use syn::parse::Parser;
use syn::punctuated::Punctuated;
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub fn ident(s: &str) -> Ident {
    Ident::new(s, Span::call_site())
}

// ---------------------------------------------------------------- strip
struct Strip<'a> {
    k: usize,
    lost: &'a mut Vec<String>,
}
fn attrs_off(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("cfg") && a.meta.to_token_stream().to_string().contains("feature"))
}
fn stmt_attrs(s: &Stmt) -> Vec<Attribute> {
    match s {
        Stmt::Local(l) => l.attrs.clone(),
        Stmt::Macro(m) => m.attrs.clone(),
        Stmt::Expr(e, _) => match e {
            Expr::Block(b) => b.attrs.clone(),
            Expr::If(b) => b.attrs.clone(),
            Expr::Call(b) => b.attrs.clone(),
            Expr::MethodCall(b) => b.attrs.clone(),
            Expr::Macro(b) => b.attrs.clone(),
            _ => vec![],
        },
        _ => vec![],
    }
}
const LOGS: &[&str] = &["trace", "debug", "info", "warn", "error", "println", "eprintln", "print", "eprint", "profile_scope"];

impl<'a> Strip<'a> {
    fn mac(&mut self, m: &Macro) -> Option<Expr> {
        let n = m.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
        let args = || Punctuated::<Expr, Token![,]>::parse_terminated.parse2(m.tokens.clone()).ok();
        match n.as_str() {
            x if LOGS.contains(&x) => Some(parse_quote!(())),
            "assert" | "debug_assert" => {
                let a = args()?;
                let c = a.first()?;
                Some(parse_quote!(vx_assert(#c)))
            }
            "assert_eq" | "debug_assert_eq" => {
                let a = args()?;
                let (x, y) = (a.first()?, a.iter().nth(1)?);
                Some(parse_quote!(vx_assert(#x == #y)))
            }
            "assert_ne" | "debug_assert_ne" => {
                let a = args()?;
                let (x, y) = (a.first()?, a.iter().nth(1)?);
                Some(parse_quote!(vx_assert(#x != #y)))
            }
            "panic" | "unreachable" | "todo" | "unimplemented" => Some(parse_quote!(vx_unreachable())),
            "matches" => {
                let f = |i: syn::parse::ParseStream| -> Result<Expr> {
                    let e: Expr = i.parse()?;
                    i.parse::<Token![,]>()?;
                    let p = Pat::parse_multi_with_leading_vert(i)?;
                    if i.peek(Token![if]) {
                        i.parse::<Token![if]>()?;
                        let g: Expr = i.parse()?;
                        Ok(parse_quote!(match #e { #p if #g => true, _ => false }))
                    } else {
                        Ok(parse_quote!(match #e { #p => true, _ => false }))
                    }
                };
                f.parse2(m.tokens.clone()).ok()
            }
            _ => None,
        }
    }
}
impl<'a> VisitMut for Strip<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        b.stmts.retain(|s| !attrs_off(&stmt_attrs(s)) && !matches!(s, Stmt::Item(Item::Use(_))));
        for s in &mut b.stmts {
            if let Stmt::Macro(m) = s {
                match self.mac(&m.mac) {
                    Some(e) => *s = Stmt::Expr(e, if m.semi_token.is_some() { Some(Default::default()) } else { None }),
                    None => self.lost.push(format!("macro {}", m.mac.path.to_token_stream())),
                }
            }
            if let Stmt::Item(i) = s {
                self.lost.push(format!("nested item {}", i.to_token_stream().to_string().chars().take(30).collect::<String>()));
            }
        }
        // several variables at once
        let mut k = 0;
        for s in std::mem::take(&mut b.stmts) {
            b.stmts.extend(each(s, &mut k));
        }
        // logging statements have no effect on the state
        b.stmts.retain(|s| match s {
            Stmt::Expr(Expr::Tuple(t), Some(_)) => !t.elems.is_empty(),
            _ => true,
        });
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e {
            match self.mac(&m.mac) {
                Some(x) => *e = x,
                None => self.lost.push(format!("macro {}", m.mac.path.to_token_stream())),
            }
        }
        if let Expr::MethodCall(m) = e {
            if m.method == "apply" && m.args.len() == 1 {
                let (r, f) = (&m.receiver, &m.args[0]);
                *e = parse_quote!(#r.iter_mut().for_each(#f));
            }
        }
        // entry by entry with another vector
        if let Expr::MethodCall(m) = e {
            if m.method == "zip_apply" && m.args.len() == 2 {
                let other = match unparen(&m.args[0]) {
                    Expr::Reference(r) => (*r.expr).clone(),
                    x => x.clone(),
                };
                if let Expr::Closure(c) = unparen(&m.args[1]) {
                    if c.inputs.len() == 2 && types::place(&m.receiver).is_some() && types::place(&other).is_some() {
                        let (r, x, y, b) = (&m.receiver, &c.inputs[0], &c.inputs[1], &c.body);
                        *e = parse_quote!({ vx_assert(#r.len() == #other.len()); #r.iter_mut().zip(#other.iter().copied()).for_each(|(#x, #y)| #b); });
                    }
                }
            }
        }
        // column after column
        if let Expr::ForLoop(f) = e {
            if let Some((m, mu, lo, hi, rev, ix)) = columns(&f.expr) {
                let (pat, index) = match (&ix, &*f.pat) {
                    (None, p) => (p.clone(), None),
                    (Some(d), Pat::Tuple(t)) if t.elems.len() == 2 => (t.elems[1].clone(), Some((t.elems[0].clone(), d.clone()))),
                    _ => {
                        self.lost.push("columns".into());
                        return;
                    }
                };
                self.k += 1;
                let j = ident(&format!("vx_j{}", self.k));
                let get = ident(if mu { "column_mut" } else { "column" });
                let range: Expr = if rev { parse_quote!((#lo..#hi).rev()) } else { parse_quote!(#lo..#hi) };
                let ixs: Option<Stmt> = index.filter(|(p, _)| !matches!(p, Pat::Wild(_))).map(|(p, d)| match d {
                    Some(d) => parse_quote!(let #p = #j - #d;),
                    None => parse_quote!(let #p = #j;),
                });
                let (lab, body) = (&f.label, &f.body.stmts);
                *e = parse_quote!(#lab for #j in #range { #ixs let #pat = #m.#get(#j); #(#body)* });
            }
        }
        // the first position of the largest magnitude, in a vector or in consecutive rows of it
        if let Expr::MethodCall(m) = e {
            if (m.method == "iamax" || m.method == "icamax") && m.args.is_empty() {
                let mut part: Option<(Expr, Expr, Option<Expr>)> = None;
                if let Expr::MethodCall(r) = unparen(&m.receiver) {
                    if r.method == "rows_range" && r.args.len() == 1 {
                        if let Expr::Range(x) = unparen(&r.args[0]) {
                            let lo = x.start.as_ref().map(|l| (**l).clone()).unwrap_or_else(|| parse_quote!(0));
                            let hi: Option<Expr> = x.end.as_ref().map(|h| match x.limits {
                                RangeLimits::HalfOpen(_) => (**h).clone(),
                                RangeLimits::Closed(_) => parse_quote!((#h) + 1),
                            });
                            part = Some(((*r.receiver).clone(), lo, hi));
                        }
                    } else if r.method == "rows" && r.args.len() == 2 {
                        let (lo, n) = (&r.args[0], &r.args[1]);
                        part = Some(((*r.receiver).clone(), lo.clone(), Some(parse_quote!((#lo) + (#n)))));
                    }
                }
                let (base, lo, hi) = part.unwrap_or_else(|| ((*m.receiver).clone(), parse_quote!(0), None));
                self.k += 1;
                let (w, l, h, b, i) = (ident(&format!("vx_w{}", self.k)), ident(&format!("vx_wl{}", self.k)), ident(&format!("vx_wh{}", self.k)), ident(&format!("vx_wb{}", self.k)), ident(&format!("vx_wi{}", self.k)));
                let named: Option<Stmt> = if types::place(&base).is_some() { None } else { Some(parse_quote!(let #w = #base;)) };
                let v: Expr = if named.is_some() { parse_quote!(#w) } else { base };
                let hi: Expr = hi.unwrap_or_else(|| parse_quote!(#v.len()));
                *e = parse_quote!({ #named let #l = #lo; let #h = #hi; vx_assert(#l < #h && #h <= #v.len()); let mut #b = #l; for #i in (#l + 1)..#h { if #v[#i].abs() > #v[#b].abs() { #b = #i; } } #b - #l });
            }
        }
        // the old value of a variable
        if let Expr::Call(c) = e {
            let f = c.func.to_token_stream().to_string().replace(' ', "");
            if ["mem::replace", "std::mem::replace", "core::mem::replace"].contains(&f.as_str()) && c.args.len() == 2 {
                if let Expr::Reference(r) = &c.args[0] {
                    if types::place(&r.expr).is_some() {
                        let (x, v) = (&r.expr, &c.args[1]);
                        *e = parse_quote!({ let vx_new = #v; let vx_old = #x; #x = vx_new; vx_old });
                    }
                }
            }
        }
        if let Expr::Unsafe(_) = e {
            self.lost.push("unsafe block".into());
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        visit_mut::visit_field_value_mut(self, f);
    }
    fn visit_attribute_mut(&mut self, _: &mut Attribute) {}
}
/// `m.column_iter_mut()` with enumerate, skip, take, rev: matrix, mutable, range of columns, downwards, offset of the index if there is one
#[allow(clippy::type_complexity)]
fn columns(e: &Expr) -> Option<(Expr, bool, Expr, Expr, bool, Option<Option<Expr>>)> {
    let Expr::MethodCall(m) = unparen(e) else { return None };
    let n = m.method.to_string();
    if n == "column_iter" || n == "column_iter_mut" {
        types::place(&m.receiver)?;
        let r = &m.receiver;
        return Some(((**r).clone(), n == "column_iter_mut", parse_quote!(0), parse_quote!(#r.ncols()), false, None));
    }
    let (r, mu, lo, hi, rev, ix) = columns(&m.receiver)?;
    match (n.as_str(), m.args.first()) {
        ("enumerate", None) if ix.is_none() && !rev => {
            let d = if is_zero_lit(&lo) { None } else { Some(lo.clone()) };
            Some((r, mu, lo, hi, rev, Some(d)))
        }
        ("rev", None) => Some((r, mu, lo, hi, !rev, ix)),
        ("skip", Some(a)) if !rev && matches!(unparen(a), Expr::Path(_) | Expr::Lit(_) | Expr::Binary(_)) && is_zero_lit(&lo) => Some((r, mu, parse_quote!((#a)), hi, rev, ix)),
        ("take", Some(a)) if !rev && is_zero_lit(&lo) => Some((r, mu, lo, parse_quote!(vx_min(#hi, #a)), rev, ix)),
        _ => None,
    }
}
/// `let (a, b) = (x, y)` and `(a, b) = (x, y)` one by one, through temporaries where a later value mentions an earlier target
fn each(s: Stmt, k: &mut usize) -> Vec<Stmt> {
    let strip_paren = |e: &Expr| -> Option<ExprTuple> {
        match e {
            Expr::Tuple(t) if t.elems.len() >= 2 => Some(t.clone()),
            _ => None,
        }
    };
    let mut out = vec![];
    match &s {
        Stmt::Local(l) => {
            let (pat, tys) = match &l.pat {
                Pat::Tuple(p) => (p, None),
                Pat::Type(t) => match (&*t.pat, &*t.ty) {
                    (Pat::Tuple(p), Type::Tuple(ty)) if p.elems.len() == ty.elems.len() => (p, Some(ty)),
                    _ => return vec![s],
                },
                _ => return vec![s],
            };
            let Some(init) = &l.init else { return vec![s] };
            // two different columns, written apart
            if let Expr::MethodCall(m) = &*init.expr {
                let cols = m.args.iter().all(|a| !matches!(unparen(a), Expr::Range(_)));
                if m.method == "columns_range_pair_mut" && m.args.len() == 2 && cols && pat.elems.len() == 2 && tys.is_none() && types::place(&m.receiver).is_some() {
                    *k += 1;
                    let (r, a, b) = (&m.receiver, ident(&format!("vx_l{}", k)), ident(&format!("vx_r{}", k)));
                    let (x, y, p, q) = (&m.args[0], &m.args[1], &pat.elems[0], &pat.elems[1]);
                    out.push(parse_quote!(let #a = #x;));
                    out.push(parse_quote!(let #b = #y;));
                    out.push(parse_quote!(vx_assert(#a != #b && #a < #r.ncols() && #b < #r.ncols());));
                    out.push(parse_quote!(let #p = #r.column_mut(#a);));
                    out.push(parse_quote!(let #q = #r.column_mut(#b);));
                    return out;
                }
            }
            let Some(v) = strip_paren(&init.expr) else { return vec![s] };
            if init.diverge.is_some() || v.elems.len() != pat.elems.len() || !pat.elems.iter().all(|p| matches!(p, Pat::Ident(i) if i.subpat.is_none() && i.by_ref.is_none()) || matches!(p, Pat::Wild(_))) {
                return vec![s];
            }
            let clash = pat.elems.iter().enumerate().any(|(i, p)| matches!(p, Pat::Ident(q) if v.elems.iter().skip(i + 1).any(|e| mentions_expr(e, &q.ident.to_string()))));
            let mut late: Vec<Stmt> = vec![];
            for (i, (p, e)) in pat.elems.iter().zip(&v.elems).enumerate() {
                let ty = tys.map(|t| &t.elems[i]);
                let put = |p: &Pat, e: Expr| -> Stmt {
                    match ty {
                        Some(t) => parse_quote!(let #p: #t = #e;),
                        None => parse_quote!(let #p = #e;),
                    }
                };
                if clash {
                    *k += 1;
                    let t = ident(&format!("vx_e{}_{}", i, k));
                    out.push(parse_quote!(let #t = #e;));
                    late.push(put(p, parse_quote!(#t)));
                } else {
                    out.push(put(p, e.clone()));
                }
            }
            out.extend(late);
            out
        }
        Stmt::Expr(Expr::Assign(a), _) => {
            let (Some(p), Some(v)) = (strip_paren(&a.left), strip_paren(&a.right)) else { return vec![s] };
            if p.elems.len() != v.elems.len() {
                return vec![s];
            }
            let mut late: Vec<Stmt> = vec![];
            for (i, (p, e)) in p.elems.iter().zip(&v.elems).enumerate() {
                *k += 1;
                let t = ident(&format!("vx_e{}_{}", i, k));
                out.push(parse_quote!(let #t = #e;));
                if !matches!(p, Expr::Infer(_)) {
                    late.push(parse_quote!(#p = #t;));
                }
            }
            out.extend(late);
            out
        }
        _ => vec![s],
    }
}
struct DropAttrs;
impl VisitMut for DropAttrs {
    fn visit_local_mut(&mut self, l: &mut Local) {
        l.attrs.clear();
        visit_mut::visit_local_mut(self, l);
    }
    fn visit_expr_block_mut(&mut self, l: &mut ExprBlock) {
        l.attrs.clear();
        visit_mut::visit_expr_block_mut(self, l);
    }
    fn visit_expr_for_loop_mut(&mut self, l: &mut ExprForLoop) {
        l.attrs.clear();
        visit_mut::visit_expr_for_loop_mut(self, l);
    }
    fn visit_expr_if_mut(&mut self, l: &mut ExprIf) {
        l.attrs.clear();
        visit_mut::visit_expr_if_mut(self, l);
    }
}
pub fn strip(b: &mut Block, lost: &mut Vec<String>) {
    Strip { k: 0, lost }.visit_block_mut(b);
    DropAttrs.visit_block_mut(b);
}

// ---------------------------------------------------------------- scalar type parameter paths
struct ScPaths<'a>(&'a HashSet<String>);
impl<'a> VisitMut for ScPaths<'a> {
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        if p.qself.is_none() && p.path.segments.len() == 2 {
            let s = p.path.segments[0].ident.to_string();
            if self.0.contains(&s) {
                p.path.segments[0].ident = ident("Sc");
            }
        }
        if let Some(q) = &p.qself {
            if let Type::Path(t) = &*q.ty {
                if t.path.get_ident().map(|i| self.0.contains(&i.to_string())).unwrap_or(false) {
                    let last = p.path.segments.last().unwrap().clone();
                    *p = parse_quote!(Sc::#last);
                }
            }
        }
        visit_mut::visit_expr_path_mut(self, p);
    }
}
pub fn scalar_paths(b: &mut Block, sc: &HashSet<String>) {
    ScPaths(sc).visit_block_mut(b);
}

// ---------------------------------------------------------------- helpers
pub struct Mentions<'a> {
    pub name: &'a str,
    pub hit: bool,
}
impl<'a, 'ast> Visit<'ast> for Mentions<'a> {
    fn visit_expr_path(&mut self, p: &'ast ExprPath) {
        if p.path.get_ident().map(|i| i == self.name).unwrap_or(false) {
            self.hit = true;
        }
    }
}
pub fn mentions_expr(e: &Expr, name: &str) -> bool {
    let mut m = Mentions { name, hit: false };
    m.visit_expr(e);
    m.hit
}
pub fn mentions_stmt(e: &Stmt, name: &str) -> bool {
    let mut m = Mentions { name, hit: false };
    m.visit_stmt(e);
    m.hit
}
pub struct Assigned {
    pub set: HashSet<String>,
}
impl<'ast> Visit<'ast> for Assigned {
    fn visit_expr_assign(&mut self, a: &'ast ExprAssign) {
        if let Some(p) = types::place(&a.left) {
            self.set.insert(p);
        }
        if let Expr::Index(ix) = &*a.left {
            if let Some(p) = types::place(&ix.expr) {
                self.set.insert(p);
            }
        }
        visit::visit_expr_assign(self, a);
    }
    fn visit_expr_binary(&mut self, b: &'ast ExprBinary) {
        if binop_of(&b.op).is_some() {
            if let Some(p) = types::place(&b.left) {
                self.set.insert(p);
            }
            if let Expr::Index(ix) = &*b.left {
                if let Some(p) = types::place(&ix.expr) {
                    self.set.insert(p);
                }
            }
        }
        visit::visit_expr_binary(self, b);
    }
    fn visit_expr_method_call(&mut self, m: &'ast ExprMethodCall) {
        if MUTATORS.contains(&m.method.to_string().as_str()) {
            if let Some(p) = types::place(&m.receiver) {
                self.set.insert(p);
            }
        }
        visit::visit_expr_method_call(self, m);
    }
    fn visit_expr_reference(&mut self, r: &'ast ExprReference) {
        if r.mutability.is_some() {
            if let Some(p) = types::place(&r.expr) {
                self.set.insert(p);
            }
        }
        visit::visit_expr_reference(self, r);
    }
}
use syn::visit;
pub const MUTATORS: &[&str] = &[
    "put1", "put2", "swap", "swap_rows", "swap_columns", "neg_mut", "copy_from", "set_column", "fill", "vx_add_assign",
    "vx_sub_assign", "add_assign", "sub_assign", "mul_assign", "vx_mul_assign", "vx_div_assign", "axpy", "scale_mut", "set_row", "set_zero",
];
pub fn assigned_block(b: &Block) -> HashSet<String> {
    let mut a = Assigned { set: HashSet::new() };
    a.visit_block(b);
    a.set
}

pub fn binop_of(op: &BinOp) -> Option<TokenStream> {
    use BinOp::*;
    Some(match op {
        AddAssign(_) => quote::quote!(+),
        SubAssign(_) => quote::quote!(-),
        MulAssign(_) => quote::quote!(*),
        DivAssign(_) => quote::quote!(/),
        RemAssign(_) => quote::quote!(%),
        BitAndAssign(_) => quote::quote!(&),
        BitOrAssign(_) => quote::quote!(|),
        _ => return None,
    })
}

fn unparen(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => unparen(&p.expr),
        Expr::Group(p) => unparen(&p.expr),
        _ => e,
    }
}

/// replace an identifier by an expression
pub struct SubstId<'a> {
    pub map: &'a HashMap<String, Expr>,
}
impl<'a> VisitMut for SubstId<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(_) = e {
            if let Some(i) = path_ident(e) {
                if let Some(x) = self.map.get(&i) {
                    *e = match x {
                        Expr::Path(_) | Expr::Lit(_) | Expr::Paren(_) | Expr::MethodCall(_) | Expr::Call(_) | Expr::Field(_) | Expr::Index(_) => x.clone(),
                        _ => parse_quote!((#x)),
                    };
                    return;
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

// ---------------------------------------------------------------- iterators
#[derive(Clone)]
enum Elem {
    Val(Expr),
    Ref(Expr),
    Mut(Expr),
    Pair(Box<Elem>, Box<Elem>),
    Map(Pat, Box<Elem>, Expr),
}
#[derive(Clone)]
struct It {
    lo: Expr,
    hi: Expr,
    rev: bool,
    elem: Elem,
}
fn is_zero_lit(e: &Expr) -> bool {
    matches!(unparen(e), Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) if i.base10_digits() == "0")
}
fn ctr() -> Expr {
    parse_quote!(__CTR)
}

#[derive(Clone, Debug)]
pub struct LoopInfo {
    pub canonical: bool,
    pub var: String,
    pub ctr: String,
    pub lo: Option<Expr>,
    pub hi: Option<Expr>,
    pub desc: bool,
}

pub struct Norm<'a> {
    pub prog: &'a Program,
    pub scalars: HashSet<String>,
    pub env: Env,
    pub self_ty: Option<String>,
    pub lost: Vec<String>,
    pub n: usize,
    pub loops: BTreeMap<String, LoopInfo>,
    pub mut_locals: Vec<(String, String)>,
}

impl<'a> Norm<'a> {
    pub fn new(prog: &'a Program, scalars: HashSet<String>, env: Env, self_ty: Option<String>) -> Self {
        let mut env = env;
        if let Some(st) = &self_ty {
            if let Some((s, sc)) = prog.structs.get(st) {
                for f in &s.fields {
                    if let (Some(i), Some(t)) = (&f.ident, types::map_ty(&f.ty, sc, st)) {
                        env.insert(format!("self.{}", i), t);
                    }
                }
            }
        }
        Norm { prog, scalars, env, self_ty, lost: vec![], n: 0, loops: BTreeMap::new(), mut_locals: vec![] }
    }
    fn fresh(&mut self, p: &str) -> Ident {
        self.n += 1;
        ident(&format!("__{}{}", p, self.n))
    }

    fn parse_iter(&self, e: &Expr) -> Option<It> {
        match unparen(e) {
            Expr::Range(r) => {
                let lo = r.start.as_ref()?;
                let hi = r.end.as_ref()?;
                let hi: Expr = match r.limits {
                    RangeLimits::HalfOpen(_) => (**hi).clone(),
                    RangeLimits::Closed(_) => parse_quote!((#hi) + 1),
                };
                Some(It { lo: (**lo).clone(), hi, rev: false, elem: Elem::Val(ctr()) })
            }
            Expr::MethodCall(m) => {
                let r = &m.receiver;
                let name = m.method.to_string();
                let arg = m.args.first();
                match name.as_str() {
                    "iter" => {
                        types::place(r)?;
                        let r = (**r).clone();
                        Some(It { lo: parse_quote!(0), hi: parse_quote!(#r.len()), rev: false, elem: Elem::Ref(parse_quote!(#r[__CTR])) })
                    }
                    "iter_mut" => {
                        types::place(r)?;
                        let r = (**r).clone();
                        Some(It { lo: parse_quote!(0), hi: parse_quote!(#r.len()), rev: false, elem: Elem::Mut(parse_quote!(#r[__CTR])) })
                    }
                    "into_iter" | "by_ref" => self.parse_iter(r),
                    "copied" | "cloned" => {
                        let mut i = self.parse_iter(r)?;
                        i.elem = match i.elem {
                            Elem::Ref(e) => Elem::Val(e),
                            _ => return None,
                        };
                        Some(i)
                    }
                    "rev" => {
                        let mut i = self.parse_iter(r)?;
                        i.rev = !i.rev;
                        Some(i)
                    }
                    "enumerate" => {
                        let mut i = self.parse_iter(r)?;
                        if i.rev {
                            return None;
                        }
                        let ix: Expr = if is_zero_lit(&i.lo) {
                            ctr()
                        } else {
                            let lo = &i.lo;
                            parse_quote!((__CTR - (#lo)))
                        };
                        i.elem = Elem::Pair(Box::new(Elem::Val(ix)), Box::new(i.elem));
                        Some(i)
                    }
                    "take" => {
                        let mut i = self.parse_iter(r)?;
                        if i.rev {
                            return None;
                        }
                        let (lo, hi, a) = (i.lo.clone(), i.hi.clone(), arg?);
                        i.hi = if is_zero_lit(&lo) { parse_quote!(vx_min(#hi, #a)) } else { parse_quote!(vx_min(#hi, (#lo) + (#a))) };
                        Some(i)
                    }
                    "skip" => {
                        let mut i = self.parse_iter(r)?;
                        if i.rev {
                            return None;
                        }
                        let (lo, a) = (i.lo.clone(), arg?);
                        i.lo = if is_zero_lit(&lo) { a.clone() } else { parse_quote!((#lo) + (#a)) };
                        Some(i)
                    }
                    "zip" => {
                        let mut i = self.parse_iter(r)?;
                        let a = arg?;
                        let j = self.parse_iter(a).or_else(|| {
                            // zip(&v) / zip(v.iter())
                            if let Expr::Reference(rf) = unparen(a) {
                                let v = &rf.expr;
                                types::place(v)?;
                                let v2: Expr = parse_quote!(#v.iter());
                                return self.parse_iter(&v2);
                            }
                            None
                        })?;
                        if i.rev || j.rev || !is_zero_lit(&i.lo) || !is_zero_lit(&j.lo) {
                            return None;
                        }
                        let (a, b) = (i.hi.clone(), j.hi.clone());
                        i.hi = if a.to_token_stream().to_string() == b.to_token_stream().to_string() { a } else { parse_quote!(vx_min(#a, #b)) };
                        i.elem = Elem::Pair(Box::new(i.elem), Box::new(j.elem));
                        Some(i)
                    }
                    "map" => {
                        let mut i = self.parse_iter(r)?;
                        let c = match unparen(arg?) {
                            Expr::Closure(c) => c,
                            _ => return None,
                        };
                        if c.inputs.len() != 1 {
                            return None;
                        }
                        i.elem = Elem::Map(c.inputs[0].clone(), Box::new(i.elem), (*c.body).clone());
                        Some(i)
                    }
                    _ => None,
                }
            }
            Expr::Reference(r) => {
                types::place(&r.expr)?;
                let v = &r.expr;
                let e: Expr = if r.mutability.is_some() { parse_quote!(#v.iter_mut()) } else { parse_quote!(#v.iter()) };
                self.parse_iter(&e)
            }
            _ => None,
        }
    }

    /// statements binding `pat` to the element at counter value `i`; substitutions go to `subs`
    fn bind_elem(&mut self, pat: &Pat, el: &Elem, i: &Ident, pre: &mut Vec<Stmt>, der: &mut HashSet<String>, subs: &mut HashMap<String, Expr>) -> Option<()> {
        let at = |e: &Expr| {
            let mut m = HashMap::new();
            m.insert("__CTR".to_string(), parse_quote!(#i));
            let mut e = e.clone();
            SubstId { map: &m }.visit_expr_mut(&mut e);
            e
        };
        match (pat, el) {
            (Pat::Wild(_), Elem::Val(_) | Elem::Ref(_) | Elem::Mut(_)) => {}
            (Pat::Paren(p), _) => return self.bind_elem(&p.pat, el, i, pre, der, subs),
            (Pat::Type(p), _) => return self.bind_elem(&p.pat, el, i, pre, der, subs),
            (Pat::Tuple(t), Elem::Pair(a, b)) if t.elems.len() == 2 => {
                self.bind_elem(&t.elems[0], a, i, pre, der, subs)?;
                self.bind_elem(&t.elems[1], b, i, pre, der, subs)?;
            }
            (Pat::Ident(p), Elem::Val(e)) => {
                let (id, e) = (&p.ident, at(e));
                if e.to_token_stream().to_string() != id.to_string() {
                    let m = &p.mutability;
                    pre.push(parse_quote!(let #m #id = #e;));
                }
            }
            (Pat::Ident(p), Elem::Ref(e)) => {
                let (id, e) = (&p.ident, at(e));
                der.insert(id.to_string());
                pre.push(parse_quote!(let #id = #e;));
            }
            (Pat::Reference(r), Elem::Ref(e)) => match &*r.pat {
                Pat::Ident(p) => {
                    let (id, e) = (&p.ident, at(e));
                    pre.push(parse_quote!(let #id = #e;));
                }
                Pat::Wild(_) => {}
                _ => return None,
            },
            (Pat::Ident(p), Elem::Mut(e)) => {
                der.insert(p.ident.to_string());
                subs.insert(p.ident.to_string(), at(e));
            }
            (p, Elem::Map(mp, inner, body)) => {
                let mut d2 = HashSet::new();
                self.bind_elem(mp, inner, i, pre, &mut d2, subs)?;
                let mut body = body.clone();
                Deref { names: &d2 }.visit_expr_mut(&mut body);
                match p {
                    Pat::Ident(id) => {
                        let id = &id.ident;
                        pre.push(parse_quote!(let #id = #body;));
                    }
                    Pat::Wild(_) => {}
                    _ => return None,
                }
            }
            _ => return None,
        }
        Some(())
    }

    // ------------------------------------------------------------ driver
    pub fn run(&mut self, b: &mut Block) {
        scalar_paths(b, &self.scalars.clone());
        Paths.visit_block_mut(b);
        Dims { env: &self.env }.visit_block_mut(b);
        crate::returns::Closures { lost: &mut self.lost }.visit_block_mut(b);
        crate::returns::named_closures(b, &mut self.lost);
        self.infer(b);
        Terminals { n: self }.visit_block_mut(b);
        hoist_loops(b);
        whiles_to_for(b, &mut self.lost);
        Rotate.visit_block_mut(b);
        Mirror.visit_block_mut(b);
        Whole { k: 0 }.visit_block_mut(b);
        For { n: self }.visit_block_mut(b);
        Combin.visit_block_mut(b);
        TryOp.visit_block_mut(b);
        self.infer(b);
        self.views(b);
        Idx { n: self }.visit_block_mut(b);
        self.infer(b);
        Ops { n: self }.visit_block_mut(b);
        Guards { n: self }.visit_block_mut(b);
        crate::returns::final_loop(b);
        Loops { n: self }.visit_block_mut(b);
        ArmLoops.visit_block_mut(b);
        self.infer(b);
        LocalTypes { n: self }.visit_block_mut(b);
        self.lost.sort();
        self.lost.dedup();
    }

    pub fn infer(&mut self, b: &Block) {
        struct C<'x, 'y> {
            n: &'x mut Norm<'y>,
        }
        impl<'x, 'y, 'ast> Visit<'ast> for C<'x, 'y> {
            fn visit_local(&mut self, l: &'ast Local) {
                visit::visit_local(self, l);
                let (pat, ann) = match &l.pat {
                    Pat::Type(t) => (&*t.pat, Some(&*t.ty)),
                    p => (p, None),
                };
                if let Pat::Ident(p) = pat {
                    let mut t = ann.and_then(|t| types::map_ty(t, &self.n.scalars, self.n.self_ty.as_deref().unwrap_or("")));
                    if t.is_none() {
                        if let Some(i) = &l.init {
                            t = Some(types::ty(&i.expr, &self.n.env));
                        }
                    }
                    let t = t.unwrap_or("?".into());
                    let name = p.ident.to_string();
                    if p.mutability.is_some() {
                        self.n.mut_locals.retain(|(a, _)| *a != name);
                        self.n.mut_locals.push((name.clone(), t.clone()));
                    }
                    self.n.env.insert(name, t);
                }
            }
        }
        C { n: self }.visit_block(b);
    }

    /// `let mut c = m.column_mut(k)`: writes through c are writes to m
    fn views(&mut self, b: &mut Block) {
        struct V {
            alias: HashMap<String, (Expr, Expr)>,
            lost: Vec<String>,
            k: usize,
        }
        impl VisitMut for V {
            fn visit_block_mut(&mut self, b: &mut Block) {
                let mut out = vec![];
                for s in std::mem::take(&mut b.stmts) {
                    if let Stmt::Local(l) = &s {
                        if let (Pat::Ident(p), Some(i)) = (&l.pat, &l.init) {
                            if let Expr::MethodCall(m) = unparen(&i.expr) {
                                if m.method == "column_mut" && m.args.len() == 1 && types::place(&m.receiver).is_some() {
                                    self.k += 1;
                                    let id = ident(&format!("__view{}", self.k));
                                    let a = &m.args[0];
                                    out.push(parse_quote!(let #id = #a;));
                                    self.alias.insert(p.ident.to_string(), ((*m.receiver).clone(), parse_quote!(#id)));
                                    continue;
                                }
                            }
                        }
                    }
                    out.push(s);
                }
                b.stmts = out;
                visit_mut::visit_block_mut(self, b);
            }
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                if let Expr::Index(ix) = e {
                    if let Some((m, c)) = path_ident(&ix.expr).and_then(|i| self.alias.get(&i).cloned()) {
                        self.visit_expr_mut(&mut ix.index);
                        let i = match unparen(&ix.index) {
                            Expr::Tuple(t) => t.elems[0].clone(),
                            x => x.clone(),
                        };
                        *e = parse_quote!(#m[(#i, #c)]);
                        return;
                    }
                }
                if let Expr::MethodCall(x) = e {
                    if let Some((m, c)) = path_ident(&x.receiver).and_then(|i| self.alias.get(&i).cloned()) {
                        if x.method == "len" || x.method == "nrows" {
                            *e = parse_quote!(#m.nrows());
                            return;
                        }
                        // the only column of a view is 0
                        let rows = |e: &Expr| match unparen(e) {
                            Expr::Tuple(t) if t.elems.len() == 2 && is_zero_lit(&t.elems[1]) => Some(t.elems[0].clone()),
                            _ => None,
                        };
                        let two: Option<Vec<Expr>> = match x.method.to_string().as_str() {
                            "swap_rows" => Some(x.args.iter().cloned().collect()),
                            "swap" => x.args.iter().map(rows).collect(),
                            _ => None,
                        };
                        if let Some(mut two) = two.filter(|t| t.len() == 2) {
                            let c = c.clone();
                            for a in two.iter_mut() {
                                self.visit_expr_mut(a);
                            }
                            let (p, q) = (&two[0], &two[1]);
                            *e = parse_quote!(#m.swap((#p, #c), (#q, #c)));
                            return;
                        }
                    }
                }
                if let Some(i) = path_ident(e) {
                    if self.alias.contains_key(&i) {
                        self.lost.push(format!("column view {} used as a whole", i));
                    }
                }
                visit_mut::visit_expr_mut(self, e);
            }
        }
        let mut v = V { alias: HashMap::new(), lost: vec![], k: 0 };
        v.visit_block_mut(b);
        for l in self.loops.values_mut() {
            for x in [&mut l.lo, &mut l.hi].into_iter().flatten() {
                v.visit_expr_mut(x);
            }
        }
        self.lost.extend(v.lost);
    }

    pub fn locals_json(&self) -> Value {
        json!(self.mut_locals.iter().map(|(a, t)| json!({"name": a, "ty": t})).collect::<Vec<_>>())
    }
}

struct Deref<'a> {
    names: &'a HashSet<String>,
}
impl<'a> VisitMut for Deref<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Unary(u) = e {
            if matches!(u.op, UnOp::Deref(_)) {
                if let Some(i) = path_ident(&u.expr) {
                    if self.names.contains(&i) {
                        *e = (*u.expr).clone();
                        return;
                    }
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

/// constructor paths of nalgebra types and of type aliases
struct Paths;
/// conversions of numbers into the scalar type
fn number(e: &Expr) -> Option<Expr> {
    match e {
        Expr::Paren(p) => number(&p.expr),
        Expr::Group(p) => number(&p.expr),
        Expr::Reference(r) => number(&r.expr),
        Expr::Cast(c) if c.ty.to_token_stream().to_string() == "f64" => {
            let x = &c.expr;
            Some(parse_quote!(Sc::from_int((#x) as usize)))
        }
        Expr::Unary(u) if matches!(u.op, UnOp::Neg(_)) => Some(literal(-float(&u.expr)?)),
        _ => Some(literal(float(e)?)),
    }
}
fn float(e: &Expr) -> Option<f64> {
    match e {
        Expr::Paren(p) => float(&p.expr),
        Expr::Lit(l) => match &l.lit {
            Lit::Float(f) if f.suffix().is_empty() || f.suffix() == "f64" => f.base10_parse().ok(),
            _ => None,
        },
        _ => None,
    }
}
fn literal(x: f64) -> Expr {
    if x.to_bits() == 0 {
        return parse_quote!(Sc::zero());
    }
    if x == 1.0 {
        return parse_quote!(Sc::one());
    }
    let (mut n, mut d) = (x, 1u64);
    while n != n.trunc() && d < 1 << 40 {
        n *= 2.0;
        d *= 2;
    }
    if n == n.trunc() && n.abs() < (1u64 << 53) as f64 && x != 0.0 {
        let m = LitInt::new(&format!("{}i64", n.abs() as i64), proc_macro2::Span::call_site());
        let d = LitInt::new(&format!("{}u64", d), proc_macro2::Span::call_site());
        return if x < 0.0 { parse_quote!(Sc::dyadic(-#m, #d)) } else { parse_quote!(Sc::dyadic(#m, #d)) };
    }
    let b = LitInt::new(&format!("{}u64", x.to_bits()), proc_macro2::Span::call_site());
    parse_quote!(Sc::literal(#b))
}
impl VisitMut for Paths {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        // what a call of a conversion gets, and whether it gives an option
        let conv = |e: &Expr| -> Option<(bool, Expr)> {
            let Expr::Call(c) = e else { return None };
            let Expr::Path(p) = &*c.func else { return None };
            let f: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            let (last, sc) = (f.last()?.as_str(), f[0] == "Sc");
            if c.args.len() != 1 {
                return None;
            }
            let a = &c.args[0];
            match last {
                "convert" if f.len() == 1 || ["nalgebra", "na", "simba"].contains(&f[0].as_str()) => Some((false, number(a)?)),
                "from_subset" if sc => Some((false, number(a)?)),
                "from_f64" if sc => Some((true, number(a)?)),
                "from_usize" if sc => Some((true, parse_quote!(Sc::from_int(#a)))),
                "from_u32" | "from_u16" | "from_u8" if sc => Some((true, parse_quote!(Sc::from_int((#a) as usize)))),
                _ => None,
            }
        };
        if let Some((false, r)) = conv(e) {
            *e = r;
        } else if let Expr::MethodCall(m) = e {
            if m.method == "unwrap" || m.method == "expect" {
                if let Some((true, r)) = conv(&m.receiver) {
                    *e = r;
                }
            }
        }
    }
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        let n = p.path.segments.len();
        if n >= 2 {
            let head = p.path.segments[n - 2].clone();
            let h = head.ident.to_string();
            if ["OVector", "DVector", "SVector", "Matrix", "OMatrix"].contains(&h.as_str()) {
                let last = &p.path.segments[n - 1];
                let piv = head.arguments.to_token_stream().to_string().contains("usize");
                *p = if piv { parse_quote!(Piv::#last) } else { parse_quote!(Vc::#last) };
            }
        }
        if n >= 2 {
            let f: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            if f[0] == "nalgebra" || f[0] == "num_traits" {
                if f[n - 1] == "zero" || f[n - 1] == "one" {
                    let last = p.path.segments[n - 1].ident.clone();
                    *p = parse_quote!(Sc::#last);
                }
            }
        }
    }
}

/// compile-time dimensions become the run-time dimension of a parameter
struct Dims<'a> {
    env: &'a Env,
}
impl<'a> VisitMut for Dims<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let s = e.to_token_stream().to_string().replace(' ', "");
        let mat = self.env.iter().find(|(k, v)| types::strip_ref(v) == "Mat" && !k.starts_with("self")).map(|(k, _)| ident(k));
        let dim = |g: &str| -> Option<Expr> {
            match (g, &mat) {
                ("R", Some(m)) => Some(parse_quote!(#m.nrows())),
                ("C", Some(m)) => Some(parse_quote!(#m.ncols())),
                ("D", Some(m)) => Some(parse_quote!(#m.ncols())),
                ("D", None) => Some(parse_quote!(vx_dim())),
                _ => None,
            }
        };
        for g in ["R", "C", "D"] {
            if s == format!("{}::try_to_usize().unwrap()", g) || s == format!("{}::dim()", g) || s == format!("{}::DIM", g) || s == format!("{}::USIZE", g) {
                if let Some(d) = dim(g) {
                    *e = d;
                    return;
                }
            }
        }
    }
}

/// iterator pipelines ending in a value: sum, fold, for_each, any, all, count
struct Terminals<'a, 'b> {
    n: &'a mut Norm<'b>,
}
impl<'a, 'b> Terminals<'a, 'b> {
    /// `v.map(|x| ..)` and `v.zip_map(&w, |x, y| ..)` on a vector: element by element
    fn map(&mut self, e: &mut Expr, m: &ExprMethodCall) {
        let c = match m.args.last().map(unparen) {
            Some(Expr::Closure(c)) if c.inputs.len() == m.args.len() => c.clone(),
            _ => {
                self.n.lost.push(format!("vector {}", m.method));
                return;
            }
        };
        let (src, out, i) = (self.n.fresh("src"), self.n.fresh("map"), self.n.fresh("k"));
        let mut pre: Vec<Stmt> = vec![];
        let recv = (*m.receiver).clone();
        let recv: Expr = if types::place(&recv).is_some() {
            recv
        } else {
            pre.push(parse_quote!(let #src = #recv;));
            parse_quote!(#src)
        };
        let mut binds: Vec<Stmt> = vec![];
        let x = &c.inputs[0];
        binds.push(parse_quote!(let #x = #recv[#i];));
        if c.inputs.len() == 2 {
            let w = match unparen(&m.args[0]) {
                Expr::Reference(r) => (*r.expr).clone(),
                x => x.clone(),
            };
            if types::place(&w).is_none() {
                self.n.lost.push("vector zip_map".into());
                return;
            }
            let y = &c.inputs[1];
            binds.push(parse_quote!(let #y = #w[#i];));
        }
        let b = &c.body;
        self.n.env.insert(out.to_string(), "Vc".into());
        let v: Expr = parse_quote!({ #(#pre)* let mut #out = #recv.clone(); for #i in 0..#recv.len() { #(#binds)* #out[#i] = #b; } #out });
        *e = v;
    }
}
impl<'a, 'b> VisitMut for Terminals<'a, 'b> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let m = match e {
            Expr::MethodCall(m) => m.clone(),
            _ => return,
        };
        let name = m.method.to_string();
        let whole = types::ty(&m.receiver, &self.n.env) == "Vc";
        if whole && (name == "map" || name == "zip_map") {
            self.map(e, &m);
            return;
        }
        if !["sum", "fold", "for_each"].contains(&name.as_str()) || (whole && name == "sum") {
            return;
        }
        // a temporary as the source of the pipeline is named first
        let mut recv = (*m.receiver).clone();
        let mut pre: Vec<Stmt> = vec![];
        name_source(&mut recv, &mut pre, self.n);
        if self.n.parse_iter(&recv).is_none() {
            self.n.lost.push(format!("iterator pipeline ending in {}", name));
            return;
        }
        let clos = |i: usize| match m.args.iter().nth(i).map(unparen) {
            Some(Expr::Closure(c)) => Some(c.clone()),
            _ => None,
        };
        match name.as_str() {
            "sum" => {
                let acc = self.n.fresh("acc");
                let x = self.n.fresh("x");
                // a trailing reference element is summed by value
                let body: Stmt = parse_quote!(#acc = #acc + #x;);
                *e = parse_quote!({ #(#pre)* let mut #acc = Sc::zero(); for #x in #recv { #body } #acc });
            }
            "fold" => {
                let c = match clos(1) {
                    Some(c) if c.inputs.len() == 2 => c,
                    _ => {
                        self.n.lost.push("fold".into());
                        return;
                    }
                };
                let init = m.args[0].clone();
                let acc = match &c.inputs[0] {
                    Pat::Ident(p) => p.ident.clone(),
                    _ => {
                        self.n.lost.push("fold".into());
                        return;
                    }
                };
                let p = &c.inputs[1];
                let b = &c.body;
                *e = parse_quote!({ #(#pre)* let mut #acc = #init; for #p in #recv { #acc = #b; } #acc });
            }
            "for_each" => {
                let c = match clos(0) {
                    Some(c) if c.inputs.len() == 1 => c,
                    _ => {
                        self.n.lost.push("for_each".into());
                        return;
                    }
                };
                let p = &c.inputs[0];
                let b = &c.body;
                *e = parse_quote!({ #(#pre)* for #p in #recv { #b; } });
            }
            _ => {}
        }
    }
}
/// a block with a loop as an operand comes first; what is evaluated before it is named first
fn hoist_loops(b: &mut Block) {
    struct HasLoop(bool);
    impl<'ast> Visit<'ast> for HasLoop {
        fn visit_expr_for_loop(&mut self, _: &'ast ExprForLoop) {
            self.0 = true;
        }
        fn visit_expr_while(&mut self, _: &'ast ExprWhile) {
            self.0 = true;
        }
        fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
    }
    fn loopy(e: &Expr) -> bool {
        let mut h = HasLoop(false);
        h.visit_expr(e);
        h.0
    }
    struct H {
        k: usize,
    }
    impl H {
        /// operands in evaluation order
        fn operands<'x>(e: &'x mut Expr) -> Vec<&'x mut Expr> {
            match e {
                Expr::Binary(b) if binop_of(&b.op).is_none() && !matches!(b.op, BinOp::And(_) | BinOp::Or(_)) => vec![&mut *b.left, &mut *b.right],
                Expr::MethodCall(m) => std::iter::once(&mut *m.receiver).chain(m.args.iter_mut()).collect(),
                Expr::Call(c) => c.args.iter_mut().collect(),
                Expr::Paren(p) => vec![&mut *p.expr],
                Expr::Unary(u) => vec![&mut *u.expr],
                Expr::Return(r) => r.expr.iter_mut().map(|x| &mut **x).collect(),
                _ => vec![],
            }
        }
        fn go(&mut self, e: &mut Expr, pre: &mut Vec<Stmt>) {
            if !loopy(e) {
                return;
            }
            if let Expr::Block(bl) = e {
                if bl.label.is_none() && matches!(bl.block.stmts.last(), Some(Stmt::Expr(_, None))) {
                    let mut st = std::mem::take(&mut bl.block.stmts);
                    if let Some(Stmt::Expr(last, None)) = st.pop() {
                        pre.extend(st);
                        *e = last;
                        self.go(e, pre);
                    }
                }
                return;
            }
            let mut ops = H::operands(e);
            let at = match ops.iter().rposition(|x| loopy(x)) {
                Some(a) => a,
                None => return,
            };
            let mut asg = Assigned { set: HashSet::new() };
            asg.visit_expr(ops[at]);
            if ops[..at].iter().any(|o| path_ident(o).map(|p| asg.set.contains(&p)).unwrap_or(false)) {
                return;
            }
            for (i, o) in ops.iter_mut().enumerate() {
                if i > at {
                    break;
                }
                self.go(o, pre);
                if i < at && !matches!(**o, Expr::Path(_) | Expr::Lit(_)) {
                    self.k += 1;
                    let t = ident(&format!("__op{}", self.k));
                    let x = (**o).clone();
                    pre.push(parse_quote!(let #t = #x;));
                    **o = parse_quote!(#t);
                }
            }
        }
    }
    impl VisitMut for H {
        fn visit_block_mut(&mut self, b: &mut Block) {
            visit_mut::visit_block_mut(self, b);
            let mut out = vec![];
            for mut s in std::mem::take(&mut b.stmts) {
                let mut pre = vec![];
                match &mut s {
                    Stmt::Local(l) => {
                        if let Some(i) = &mut l.init {
                            if i.diverge.is_none() {
                                self.go(&mut i.expr, &mut pre);
                            }
                        }
                    }
                    Stmt::Expr(e, _) => match e {
                        Expr::Assign(a) if path_ident(&a.left).is_some() => self.go(&mut a.right, &mut pre),
                        Expr::Block(_) => {}
                        _ => self.go(e, &mut pre),
                    },
                    _ => {}
                }
                out.extend(pre);
                out.push(s);
            }
            b.stmts = out;
        }
    }
    H { k: 0 }.visit_block_mut(b);
}
/// give a name to the non-place receiver of `.iter()`
fn name_source(e: &mut Expr, pre: &mut Vec<Stmt>, n: &mut Norm) {
    if let Expr::MethodCall(m) = e {
        let nm = m.method.to_string();
        if nm == "iter" || nm == "iter_mut" {
            if types::place(&m.receiver).is_none() {
                let v = n.fresh("src");
                let r = (*m.receiver).clone();
                let t = types::ty(&r, &n.env);
                n.env.insert(v.to_string(), t);
                pre.push(parse_quote!(let #v = #r;));
                *m.receiver = parse_quote!(#v);
            }
        } else {
            name_source(&mut m.receiver, pre, n);
            if nm == "zip" {
                if let Some(a) = m.args.first_mut() {
                    name_source(a, pre, n);
                }
            }
        }
    }
}

/// Result combinators with closures become matches
struct Combin;
impl VisitMut for Combin {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let m = match e {
            Expr::MethodCall(m) => m.clone(),
            _ => return,
        };
        let r = &m.receiver;
        let clos = match m.args.first().map(unparen) {
            Some(Expr::Closure(c)) if c.inputs.len() == 1 && m.args.len() == 1 => Some((c.inputs[0].clone(), (*c.body).clone())),
            _ => None,
        };
        let arg = m.args.first().cloned();
        match (m.method.to_string().as_str(), clos, arg) {
            ("and_then", Some((p, b)), _) => *e = parse_quote!(match #r { Ok(#p) => #b, Err(vx_e) => Err(vx_e) }),
            ("map", Some((p, b)), _) => *e = parse_quote!(match #r { Ok(#p) => Ok(#b), Err(vx_e) => Err(vx_e) }),
            ("map_err", Some((p, b)), _) => *e = parse_quote!(match #r { Ok(vx_o) => Ok(vx_o), Err(#p) => Err(#b) }),
            ("or_else", Some((p, b)), _) => *e = parse_quote!(match #r { Ok(vx_o) => Ok(vx_o), Err(#p) => #b }),
            ("unwrap_or_else", Some((p, b)), _) => *e = parse_quote!(match #r { Ok(vx_o) => vx_o, Err(#p) => #b }),
            ("and", None, Some(a)) => *e = parse_quote!({ let vx_l = #r; let vx_r = #a; match vx_l { Ok(_) => vx_r, Err(vx_e) => Err(vx_e) } }),
            ("map_err", None, Some(Expr::Path(p))) => *e = parse_quote!(match #r { Ok(vx_o) => Ok(vx_o), Err(vx_e) => Err(#p(vx_e)) }),
            _ => {}
        }
    }
}

/// `e?` in the function itself
struct TryOp;
impl VisitMut for TryOp {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Try(t) = e {
            let x = &t.expr;
            *e = parse_quote!(match #x { Ok(vx_o) => vx_o, Err(vx_e) => return Err(vx_e) });
        }
    }
    fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
}

fn inc_of(s: &Stmt) -> Option<(String, bool)> {
    // x += 1  /  x = x + 1  /  x -= 1
    match s {
        Stmt::Expr(Expr::Binary(b), _) => {
            let one = b.right.to_token_stream().to_string() == "1";
            match b.op {
                BinOp::AddAssign(_) if one => Some((path_ident(&b.left)?, true)),
                BinOp::SubAssign(_) if one => Some((path_ident(&b.left)?, false)),
                _ => None,
            }
        }
        Stmt::Expr(Expr::Assign(a), _) => {
            let x = path_ident(&a.left)?;
            let r = a.right.to_token_stream().to_string();
            if r == format!("{} + 1", x) {
                Some((x, true))
            } else if r == format!("{} - 1", x) {
                Some((x, false))
            } else {
                None
            }
        }
        _ => None,
    }
}

struct HasCont(bool, usize);
impl<'ast> Visit<'ast> for HasCont {
    fn visit_expr_continue(&mut self, c: &'ast ExprContinue) {
        if self.1 == 0 || c.label.is_some() {
            self.0 = true;
        }
    }
    fn visit_expr_break(&mut self, c: &'ast ExprBreak) {
        if self.1 == 0 || c.label.is_some() {
            self.0 = true;
        }
    }
    fn visit_expr_while(&mut self, w: &'ast ExprWhile) {
        self.1 += 1;
        visit::visit_expr_while(self, w);
        self.1 -= 1;
    }
    fn visit_expr_loop(&mut self, w: &'ast ExprLoop) {
        self.1 += 1;
        visit::visit_expr_loop(self, w);
        self.1 -= 1;
    }
    fn visit_expr_for_loop(&mut self, w: &'ast ExprForLoop) {
        self.1 += 1;
        visit::visit_expr_for_loop(self, w);
        self.1 -= 1;
    }
}

/// counting `while` loops become `for` loops (the counter must not be used afterwards)
fn whiles_to_for(b: &mut Block, lost: &mut Vec<String>) {
    struct W;
    impl VisitMut for W {
        fn visit_block_mut(&mut self, b: &mut Block) {
            visit_mut::visit_block_mut(self, b);
            // loop { if c { break; } body }  =>  while !c { body }
            for s in b.stmts.iter_mut() {
                if let Stmt::Expr(Expr::Loop(l), semi) = s {
                    if let Some(Stmt::Expr(Expr::If(i), _)) = l.body.stmts.first() {
                        if i.else_branch.is_none() && i.then_branch.stmts.len() == 1 {
                            if let Stmt::Expr(Expr::Break(br), _) = &i.then_branch.stmts[0] {
                                let mut h = HasCont(false, 0);
                                for t in &l.body.stmts[1..] {
                                    h.visit_stmt(t);
                                }
                                if br.expr.is_none() && br.label.is_none() && l.label.is_none() && !h.0 {
                                    let c = negate(&i.cond);
                                    let rest = &l.body.stmts[1..];
                                    let w: Expr = parse_quote!(while #c { #(#rest)* });
                                    let _ = semi;
                                    *s = Stmt::Expr(w, None);
                                }
                            }
                        }
                    }
                }
            }
            let mut i = 0;
            while i < b.stmts.len() {
                if let Some((decl, st)) = self.try_one(b, i) {
                    b.stmts[i] = st;
                    b.stmts.remove(decl);
                } else {
                    i += 1;
                }
            }
        }
    }
    fn negate(c: &Expr) -> Expr {
        if let Expr::Binary(b) = unparen(c) {
            let (l, r) = (&b.left, &b.right);
            match b.op {
                BinOp::Ge(_) => return parse_quote!(#l < #r),
                BinOp::Gt(_) => return parse_quote!(#l <= #r),
                BinOp::Le(_) => return parse_quote!(#l > #r),
                BinOp::Lt(_) => return parse_quote!(#l >= #r),
                BinOp::Eq(_) => return parse_quote!(#l != #r),
                BinOp::Ne(_) => return parse_quote!(#l == #r),
                _ => {}
            }
        }
        parse_quote!(!(#c))
    }
    impl W {
        fn try_one(&self, b: &Block, i: usize) -> Option<(usize, Stmt)> {
            let w = match &b.stmts[i] {
                Stmt::Expr(Expr::While(w), _) => w,
                _ => return None,
            };
            let c = match unparen(&w.cond) {
                Expr::Binary(c) => c,
                _ => return None,
            };
            // x + e < hi
            let shifted = |l: &Expr, hi: &Expr| -> Option<(String, Expr)> {
                match unparen(l) {
                    Expr::Binary(b) if matches!(b.op, BinOp::Add(_)) => {
                        let (x, e) = match path_ident(&b.left) {
                            Some(x) => (x, &b.right),
                            None => (path_ident(&b.right)?, &b.left),
                        };
                        if mentions_expr(e, &x) || !matches!(unparen(e), Expr::Lit(_)) {
                            return None;
                        }
                        Some((x, parse_quote!(vx_monus(#hi, #e))))
                    }
                    l => path_ident(l).map(|x| (x, hi.clone())),
                }
            };
            let (x, hi, op): (String, Expr, i32) = match c.op {
                BinOp::Lt(_) => {
                    let (x, hi) = shifted(&c.left, &c.right)?;
                    (x, hi, 1)
                }
                BinOp::Ne(_) => {
                    // x != hi, counting up from a literal below it or down to it: the bounds meet
                    let x = path_ident(&c.left)?;
                    match w.body.stmts.first().and_then(inc_of) {
                        Some((y, false)) if y == x && is_zero_lit(&c.right) => (x, (*c.right).clone(), -1),
                        _ => return None,
                    }
                }
                BinOp::Le(_) => {
                    let r = &c.right;
                    (path_ident(&c.left)?, parse_quote!((#r) + 1), 1)
                }
                BinOp::Gt(_) => match path_ident(&c.left) {
                    // k > lo (descending) or hi > k (ascending)
                    Some(x) if w.body.stmts.first().and_then(inc_of) == Some((x.clone(), false)) => (x, (*c.right).clone(), -1),
                    _ => {
                        let (x, hi) = shifted(&c.right, &c.left)?;
                        (x, hi, 1)
                    }
                },
                _ => return None,
            };
            // declared in this block as let mut x = lo, not touched in between, not used after
            let decl = (0..i).rev().find(|&d| match &b.stmts[d] {
                Stmt::Local(l) => matches!(&l.pat, Pat::Ident(p) if p.ident == x && p.mutability.is_some())
                    || matches!(&l.pat, Pat::Type(t) if matches!(&*t.pat, Pat::Ident(p) if p.ident == x)),
                _ => false,
            })?;
            let lo = match &b.stmts[decl] {
                Stmt::Local(l) => (*l.init.as_ref()?.expr).clone(),
                _ => return None,
            };
            if b.stmts[decl + 1..i].iter().any(|s| mentions_stmt(s, &x)) || b.stmts[i + 1..].iter().any(|s| mentions_stmt(s, &x)) {
                return None;
            }
            // the start expression must not be changed in between
            let mut asg = Assigned { set: HashSet::new() };
            for s in &b.stmts[decl + 1..i] {
                asg.visit_stmt(s);
            }
            if asg.set.iter().any(|a| mentions_expr(&lo, a)) {
                return None;
            }
            let mut body = w.body.clone();
            let id = ident(&x);
            if op == 1 {
                if inc_of(body.stmts.last()?) != Some((x.clone(), true)) {
                    return None;
                }
                body.stmts.pop();
            } else {
                body.stmts.remove(0);
            }
            let mut h = HasCont(false, 0);
            h.visit_block(&body);
            if h.0 {
                return None;
            }
            let asg = assigned_block(&body);
            if asg.contains(&x) || asg.iter().any(|a| mentions_expr(&hi, a)) {
                return None;
            }
            let f: Expr = if op == 1 { parse_quote!(for #id in (#lo)..(#hi) #body) } else { parse_quote!(for #id in ((#hi)..(#lo)).rev() #body) };
            Some((decl, Stmt::Expr(f, None)))
        }
    }
    let _ = lost;
    W.visit_block_mut(b);
}

/// `for s in 1..n { let k = n - s; .. }` counts k down; the same for `0..n` with `n - 1 - s` or `n - s - 1`
struct Mirror;
impl VisitMut for Mirror {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let f = match e {
            Expr::ForLoop(f) => f,
            _ => return,
        };
        let s = match &*f.pat {
            Pat::Ident(p) => p.ident.to_string(),
            _ => return,
        };
        let (lo, hi) = match unparen(&f.expr) {
            Expr::Range(r) if matches!(r.limits, RangeLimits::HalfOpen(_)) => match (&r.start, &r.end) {
                (Some(a), Some(b)) => (a.to_token_stream().to_string(), unparen(b).clone()),
                _ => return,
            },
            _ => return,
        };
        let h = hi.to_token_stream().to_string();
        let (k, src) = match f.body.stmts.first() {
            Some(Stmt::Local(l)) => match (&l.pat, &l.init) {
                (Pat::Ident(p), Some(i)) if p.mutability.is_none() => (p.ident.clone(), i.expr.to_token_stream().to_string().replace(['(', ')'], "").split_whitespace().collect::<Vec<_>>().join(" ")),
                _ => return,
            },
            _ => return,
        };
        let asg = assigned_block(&f.body);
        if f.body.stmts[1..].iter().any(|x| mentions_stmt(x, &s)) || asg.iter().any(|a| mentions_expr(&hi, a)) {
            return;
        }
        let whole = src == format!("{} - {}", h, s);
        let last = src == format!("{} - 1 - {}", h, s) || src == format!("{} - {} - 1", h, s);
        let range: Expr = match (lo.as_str(), whole, last) {
            ("1", true, _) => parse_quote!((1..#hi).rev()),
            ("0", true, _) => parse_quote!((1..(#hi) + 1).rev()),
            ("0", _, true) => parse_quote!((0..#hi).rev()),
            _ => return,
        };
        let (lab, st) = (&f.label, &f.body.stmts[1..]);
        *e = parse_quote!(#lab for #k in #range { #(#st)* });
    }
}

/// `m.column_mut(j).rows_mut(a, n).scale_mut(s)`, `v.rows_mut(a, n) *= s`: scaling a part of a column
struct Whole {
    k: usize,
}
impl VisitMut for Whole {
    fn visit_stmt_mut(&mut self, st: &mut Stmt) {
        visit_mut::visit_stmt_mut(self, st);
        let (tgt, s) = match st {
            Stmt::Expr(Expr::MethodCall(m), _) if m.method == "scale_mut" && m.args.len() == 1 => ((*m.receiver).clone(), m.args[0].clone()),
            Stmt::Expr(Expr::Binary(b), _) if matches!(b.op, BinOp::MulAssign(_)) && matches!(unparen(&b.left), Expr::MethodCall(_)) => ((*b.left).clone(), (*b.right).clone()),
            _ => return,
        };
        let call = |e: &Expr, n: &str, k: usize| -> Option<(Expr, Vec<Expr>)> {
            match unparen(e) {
                Expr::MethodCall(m) if m.method == n && m.args.len() == k => Some(((*m.receiver).clone(), m.args.iter().cloned().collect())),
                _ => None,
            }
        };
        let (inner, lo, hi): (Expr, Expr, Option<Expr>) = if let Some((r, a)) = call(&tgt, "rows_mut", 2) {
            let (a, n) = (&a[0], &a[1]);
            (r, a.clone(), Some(parse_quote!((#a) + (#n))))
        } else if let Some((r, a)) = call(&tgt, "rows_range_mut", 1) {
            match unparen(&a[0]) {
                Expr::Range(x) if x.start.is_some() && matches!(x.limits, RangeLimits::HalfOpen(_)) => (r, (**x.start.as_ref().unwrap()).clone(), x.end.as_ref().map(|e| (**e).clone())),
                _ => return,
            }
        } else {
            (tgt.clone(), parse_quote!(0), None)
        };
        let (base, col) = match call(&inner, "column_mut", 1) {
            Some((m, a)) => (m, Some(a[0].clone())),
            None => (inner, None),
        };
        if types::place(&base).is_none() {
            return;
        }
        self.k += 1;
        let (i, j, f) = (ident(&format!("__vi{}", self.k)), ident(&format!("__vj{}", self.k)), ident(&format!("__vs{}", self.k)));
        let hi = hi.unwrap_or_else(|| parse_quote!(#base.nrows()));
        let x: Expr = match col {
            Some(c) => parse_quote!({ let #j = #c; let #f = #s; for #i in (#lo)..(#hi) { #base[(#i, #j)] *= #f; } }),
            None => parse_quote!({ let #f = #s; for #i in (#lo)..(#hi) { #base[#i] *= #f; } }),
        };
        *st = Stmt::Expr(x, None);
    }
}

/// a `while` loop around callbacks is tested at its end: `if c { loop { body; if !c { break; } } }`
struct Rotate;
impl VisitMut for Rotate {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::While(w) = e {
            if matches!(&*w.cond, Expr::Let(_)) || !mentions_expr(&Expr::Block(ExprBlock { attrs: vec![], label: None, block: w.body.clone() }), "problem") {
                return;
            }
            struct Cont(Option<Ident>, usize, bool);
            impl<'ast> Visit<'ast> for Cont {
                fn visit_expr(&mut self, e: &'ast Expr) {
                    let nested = matches!(e, Expr::While(_) | Expr::Loop(_) | Expr::ForLoop(_)) as usize;
                    if let Expr::Continue(c) = e {
                        self.2 |= match &c.label {
                            None => self.1 == 0,
                            Some(l) => self.0.as_ref() == Some(&l.ident),
                        };
                    }
                    self.1 += nested;
                    visit::visit_expr(self, e);
                    self.1 -= nested;
                }
            }
            let mut h = Cont(w.label.as_ref().map(|l| l.name.ident.clone()), 0, false);
            h.visit_block(&w.body);
            if h.2 {
                return;
            }
            let (c, b, l) = (&w.cond, with_semi(&w.body.stmts), &w.label);
            *e = parse_quote!(if #c { #l loop { #(#b)* if !(#c) { break; } } });
        }
    }
}
fn with_semi(st: &[Stmt]) -> Vec<Stmt> {
    let mut st = st.to_vec();
    if let Some(Stmt::Expr(_, semi @ None)) = st.last_mut() {
        *semi = Some(Default::default());
    }
    st
}

/// `for` loops become counting `while` loops with a canonical counter
struct For<'a, 'b> {
    n: &'a mut Norm<'b>,
}
impl<'a, 'b> For<'a, 'b> {
    fn conv(&mut self, f: &ExprForLoop) -> Option<Expr> {
        // without an end
        if let (Expr::Range(r), Pat::Ident(p)) = (unparen(&f.expr), &*f.pat) {
            if let (Some(lo), None) = (&r.start, &r.end) {
                let c = self.n.fresh("n");
                let (lab, body, m, v) = (&f.label, &f.body.stmts, &p.mutability, &p.ident);
                return Some(parse_quote!({ let mut #c: usize = #lo; #lab loop { let #m #v = #c; #c = #c + 1; #(#body)* } }));
            }
        }
        let mut src = (*f.expr).clone();
        let mut pre0: Vec<Stmt> = vec![];
        name_source(&mut src, &mut pre0, self.n);
        let it = self.n.parse_iter(&src)?;
        let c = self.n.fresh("c");
        let lo = self.n.fresh("lo");
        let hi = self.n.fresh("hi");
        // loop variable
        let (var, mut binds, der, subs) = {
            let v = match (&*f.pat, &it.elem) {
                (Pat::Ident(p), Elem::Val(e)) if path_ident(e).as_deref() == Some("__CTR") && p.mutability.is_none() => p.ident.clone(),
                _ => self.n.fresh("i"),
            };
            let mut pre = vec![];
            let mut der = HashSet::new();
            let mut subs = HashMap::new();
            self.n.bind_elem(&f.pat, &it.elem, &v, &mut pre, &mut der, &mut subs)?;
            (v, pre, der, subs)
        };
        let mut body = f.body.clone();
        Deref { names: &der }.visit_block_mut(&mut body);
        if !subs.is_empty() {
            SubstId { map: &subs }.visit_block_mut(&mut body);
        }
        binds.extend(body.stmts);
        let mut stmts = guard_continue(binds);
        if let Some(Stmt::Expr(_, semi @ None)) = stmts.last_mut() {
            *semi = Some(Default::default());
        }
        let (l, h) = (&it.lo, &it.hi);
        self.n.loops.insert(
            c.to_string(),
            LoopInfo { canonical: true, var: var.to_string(), ctr: c.to_string(), lo: Some(l.clone()), hi: Some(h.clone()), desc: it.rev },
        );
        let lab = &f.label;
        let e: Expr = if !it.rev {
            parse_quote!({ #(#pre0)* let #lo = #l; let #hi = #h; let mut #c: usize = #lo;
                #lab while #c < #hi { let #var = #c; #c = #c + 1; #(#stmts)* } })
        } else {
            parse_quote!({ #(#pre0)* let #lo = #l; let #hi = #h; let mut #c: usize = #hi;
                #lab while #c > #lo { #c = #c - 1; let #var = #c; #(#stmts)* } })
        };
        Some(e)
    }
}
/// `if c { continue; } rest`  =>  `if c {} else { rest }`
fn guard_continue(stmts: Vec<Stmt>) -> Vec<Stmt> {
    for (i, s) in stmts.iter().enumerate() {
        if let Stmt::Expr(Expr::If(f), _) = s {
            if f.else_branch.is_none() && f.then_branch.stmts.len() == 1 {
                if let Stmt::Expr(Expr::Continue(c), _) = &f.then_branch.stmts[0] {
                    if c.label.is_none() {
                        let cond = &f.cond;
                        let rest = guard_continue(stmts[i + 1..].to_vec());
                        let mut out = stmts[..i].to_vec();
                        out.push(parse_quote!(if !(#cond) { #(#rest)* }));
                        return out;
                    }
                }
            }
        }
    }
    stmts
}
impl<'a, 'b> VisitMut for For<'a, 'b> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::ForLoop(f) = e {
            match self.conv(f) {
                Some(x) => *e = x,
                None => self.n.lost.push(format!("for loop over {}", f.expr.to_token_stream())),
            }
        }
    }
}

/// indexing becomes at1/at2/put1/put2 calls
struct Idx<'a, 'b> {
    n: &'a mut Norm<'b>,
}
impl<'a, 'b> Idx<'a, 'b> {
    fn get(&self, b: &Expr, i: &Expr) -> Expr {
        match unparen(i) {
            Expr::Tuple(t) if t.elems.len() == 2 => parse_quote!(#b.at2(#t)),
            _ => parse_quote!(#b.at1(#i)),
        }
    }
    fn set(&self, b: &Expr, i: &Expr, v: &Expr) -> Expr {
        match unparen(i) {
            Expr::Tuple(t) if t.elems.len() == 2 => parse_quote!(#b.put2(#t, #v)),
            _ => parse_quote!(#b.put1(#i, #v)),
        }
    }
}
impl<'a, 'b> VisitMut for Idx<'a, 'b> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Assign(a) => {
                if let Expr::Index(ix) = unparen(&a.left).clone() {
                    let (mut b, mut i, mut r) = ((*ix.expr).clone(), (*ix.index).clone(), (*a.right).clone());
                    self.visit_expr_mut(&mut b);
                    self.visit_expr_mut(&mut i);
                    self.visit_expr_mut(&mut r);
                    let v = self.n.fresh("v");
                    let p: Expr = parse_quote!(#v);
                    let s = self.set(&b, &i, &p);
                    *e = parse_quote!({ let #v = #r; #s; });
                    return;
                }
            }
            Expr::Binary(bin) => {
                if let (Some(op), Expr::Index(ix)) = (binop_of(&bin.op), unparen(&bin.left).clone()) {
                    let (mut b, mut i, mut r) = ((*ix.expr).clone(), (*ix.index).clone(), (*bin.right).clone());
                    self.visit_expr_mut(&mut b);
                    self.visit_expr_mut(&mut i);
                    self.visit_expr_mut(&mut r);
                    let v = self.n.fresh("v");
                    let p: Expr = parse_quote!(#v);
                    let (g, s) = (self.get(&b, &i), self.set(&b, &i, &p));
                    *e = parse_quote!({ let #v = #g #op (#r); #s; });
                    return;
                }
            }
            Expr::Reference(r) if r.mutability.is_some() => {
                if let Expr::Index(_) = unparen(&r.expr) {
                    self.n.lost.push("mutable reference to an element".into());
                }
            }
            Expr::MethodCall(m) => {
                if let Expr::Index(_) = unparen(&m.receiver) {
                    let nm = m.method.to_string();
                    if MUTATORS.contains(&nm.as_str()) || nm.ends_with("_mut") || nm.ends_with("_assign") {
                        self.n.lost.push(format!("in-place method {} on an element", nm));
                    }
                }
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Index(ix) = e {
            if let Expr::Range(_) = unparen(&ix.index) {
                self.n.lost.push("range index".into());
            }
            *e = self.get(&ix.expr, &ix.index);
        }
    }
}

/// compound assignment, vector arithmetic, redundant references
struct Ops<'a, 'b> {
    n: &'a mut Norm<'b>,
}
impl<'a, 'b> Ops<'a, 'b> {
    /// a vector operand by reference
    fn vref(&self, e: &Expr) -> Expr {
        match unparen(e) {
            Expr::Reference(r) => self.vref(&r.expr),
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => self.vref(&u.expr),
            x => {
                let isref = path_ident(x).and_then(|i| self.n.env.get(&i).cloned()).map(|t| t.starts_with('&')).unwrap_or(false);
                if isref { x.clone() } else { parse_quote!(&#x) }
            }
        }
    }
}
impl<'a, 'b> VisitMut for Ops<'a, 'b> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Unary(u) if matches!(u.op, UnOp::Neg(_)) && types::ty(&u.expr, &self.n.env) == "Vc" => {
                let x = self.vref(&u.expr);
                *e = parse_quote!(vx_vneg(#x));
            }
            Expr::Binary(b) if matches!(b.op, BinOp::Add(_) | BinOp::Sub(_)) && types::ty(&b.left, &self.n.env) == "Vc" => {
                let (x, y) = (self.vref(&b.left), self.vref(&b.right));
                let f = ident(if matches!(b.op, BinOp::Add(_)) { "vx_vadd" } else { "vx_vsub" });
                *e = parse_quote!(#f(#x, #y));
            }
            Expr::Binary(b) if matches!(b.op, BinOp::Mul(_)) && types::ty(&b.left, &self.n.env) == "Vc" => {
                let x = self.vref(&b.left);
                let y = &b.right;
                *e = parse_quote!(vx_vscale(#x, #y));
            }
            Expr::MethodCall(m) if types::ty(&m.receiver, &self.n.env) == "Vc" => {
                let to = match m.method.to_string().as_str() {
                    "add_assign" => Some("vx_add_assign"),
                    "sub_assign" => Some("vx_sub_assign"),
                    "mul_assign" => Some("vx_mul_assign"),
                    _ => None,
                };
                if let Some(t) = to {
                    m.method = ident(t);
                    if t != "vx_mul_assign" {
                        let a = self.vref(&m.args[0]);
                        m.args[0] = a;
                    }
                    if let Expr::Unary(u) = unparen(&m.receiver) {
                        if matches!(u.op, UnOp::Deref(_)) {
                            m.receiver = u.expr.clone();
                        }
                    }
                }
            }
            Expr::Binary(b) => {
                if let Some(op) = binop_of(&b.op) {
                    let lt = types::ty(&b.left, &self.n.env);
                    let (l, r) = (&b.left, &b.right);
                    if lt == "Vc" {
                        let l2 = match unparen(l) {
                            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => (*u.expr).clone(),
                            x => x.clone(),
                        };
                        let m = ident(match b.op {
                            BinOp::AddAssign(_) => "vx_add_assign",
                            BinOp::SubAssign(_) => "vx_sub_assign",
                            BinOp::MulAssign(_) => "vx_mul_assign",
                            _ => "vx_div_assign",
                        });
                        let r2: Expr = match unparen(r) {
                            Expr::Reference(_) => (**r).clone(),
                                x if types::ty(x, &self.n.env) == "Vc" => {
                                let isref = path_ident(x).and_then(|i| self.n.env.get(&i).cloned()).map(|t| t.starts_with('&')).unwrap_or(false);
                                if isref { x.clone() } else { parse_quote!(&#x) }
                            }
                            x => x.clone(),
                        };
                        *e = parse_quote!(#l2.#m(#r2));
                    } else {
                        *e = parse_quote!(#l = #l #op (#r));
                    }
                }
            }
            Expr::Reference(r) if r.mutability.is_none() => {
                // &p where p is already a reference parameter (auto-deref in the source)
                if let Some(i) = path_ident(&r.expr) {
                    if self.n.env.get(&i).map(|t| t.starts_with('&')).unwrap_or(false) {
                        *e = (*r.expr).clone();
                    }
                }
            }
            _ => {}
        }
    }
}

/// `match m { A => a, P if g => b, rest }` becomes `match m { A => a, _ => if m is P && g { b } else { match m { rest } } }`
struct Guards<'a, 'b> {
    n: &'a mut Norm<'b>,
}
struct Binds(bool);
impl<'ast> Visit<'ast> for Binds {
    fn visit_pat_ident(&mut self, p: &'ast PatIdent) {
        // a lower-case name binds; constants are upper case
        if p.subpat.is_some() || p.ident.to_string().chars().next().map(|c| c.is_lowercase() || c == '_').unwrap_or(false) {
            self.0 = true;
        }
    }
}
fn irrefutable(p: &Pat) -> bool {
    matches!(p, Pat::Wild(_)) || matches!(p, Pat::Ident(i) if i.subpat.is_none() && i.ident.to_string().chars().next().map(|c| c.is_lowercase() || c == '_').unwrap_or(false))
}
fn unguard(m: &Expr, arms: &[Arm]) -> Expr {
    let i = match arms.iter().position(|a| a.guard.is_some()) {
        None => {
            let mut arms = arms.to_vec();
            if !arms.last().map(|a| irrefutable(&a.pat)).unwrap_or(false) {
                arms.push(parse_quote!(_ => vx_absurd(),));
            }
            return parse_quote!(match #m { #(#arms)* });
        }
        Some(i) => i,
    };
    let a = &arms[i];
    let (p, g, b) = (&a.pat, &a.guard.as_ref().unwrap().1, &a.body);
    let rest = unguard(m, &arms[i + 1..]);
    let before = arms[..i].to_vec();
    let mut k = Binds(false);
    k.visit_pat(p);
    let inner: Expr = if irrefutable(p) && !k.0 {
        parse_quote!(if #g { #b } else { #rest })
    } else if !k.0 {
        parse_quote!(if (match #m { #p => #g, _ => false }) { #b } else { #rest })
    } else {
        parse_quote!(match #m { #p => if #g { #b } else { #rest }, _ => { #rest } })
    };
    if before.is_empty() {
        return inner;
    }
    parse_quote!(match #m { #(#before)* _ => { #inner } })
}
impl<'a, 'b> VisitMut for Guards<'a, 'b> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Match(m) = e {
            if !m.arms.iter().any(|a| a.guard.is_some()) {
                return;
            }
            for a in &mut m.arms {
                a.comma = Some(Default::default());
            }
            if matches!(unparen(&m.expr), Expr::Path(_) | Expr::Field(_)) {
                *e = unguard(&m.expr, &m.arms);
            } else {
                let x = self.n.fresh("m");
                let s = &m.expr;
                let r = unguard(&parse_quote!(#x), &m.arms);
                *e = parse_quote!({ let #x = #s; #r });
            }
        }
    }
}

/// loops that break with a value: the value goes through a variable
struct Loops<'a, 'b> {
    n: &'a mut Norm<'b>,
}
struct Breaks<'a> {
    label: Lifetime,
    own: bool,
    depth: usize,
    var: &'a Ident,
    found: bool,
    void: bool,
}
impl<'a> VisitMut for Breaks<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let nested = matches!(e, Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_));
        if nested {
            self.depth += 1;
        }
        visit_mut::visit_expr_mut(self, e);
        if nested {
            self.depth -= 1;
        }
        if let Expr::Break(b) = e {
            let mine = match &b.label {
                Some(l) => self.own && l.ident == self.label.ident,
                None => self.depth == 0,
            };
            if mine {
                let l = &self.label;
                if let Some(v) = &b.expr {
                    let var = self.var;
                    self.found = true;
                    *e = parse_quote!({ #var = #v; break #l; });
                } else {
                    self.void = true;
                    *e = parse_quote!(break #l);
                }
            }
        }
    }
    fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
}
impl<'a, 'b> VisitMut for Loops<'a, 'b> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Loop(l) = e {
            let mut l2 = l.clone();
            let var = self.n.fresh("r");
            let own = l.label.is_some();
            let label = match &l.label {
                Some(x) => x.name.clone(),
                None => Lifetime::new(&format!("'vx{}", self.n.n), Span::call_site()),
            };
            let mut b = Breaks { label: label.clone(), own, depth: 0, var: &var, found: false, void: false };
            b.visit_block_mut(&mut l2.body);
            if b.found {
                l2.label = Some(Label { name: label, colon_token: Default::default() });
                *e = parse_quote!({ let #var; #l2 #var });
            }
        }
    }
}

/// a loop as the whole body of a match arm gets a block of its own
struct ArmLoops;
impl VisitMut for ArmLoops {
    fn visit_arm_mut(&mut self, a: &mut Arm) {
        visit_mut::visit_arm_mut(self, a);
        if matches!(&*a.body, Expr::Loop(_) | Expr::While(_)) {
            let b = &a.body;
            *a.body = parse_quote!({ #b });
        }
    }
}

/// type annotations of locals: mapped or dropped
struct LocalTypes<'a, 'b> {
    n: &'a mut Norm<'b>,
}
impl<'a, 'b> VisitMut for LocalTypes<'a, 'b> {
    fn visit_local_mut(&mut self, l: &mut Local) {
        if let Pat::Type(t) = &l.pat {
            if let Some(m) = types::map_ty(&t.ty, &self.n.scalars, self.n.self_ty.as_deref().unwrap_or("")) {
                let ty: Type = parse_str(&m).unwrap();
                let p = &t.pat;
                let pt: PatType = PatType { attrs: vec![], pat: p.clone(), colon_token: Default::default(), ty: Box::new(ty) };
                l.pat = Pat::Type(pt);
            } else {
                l.pat = (*t.pat).clone();
            }
        }
        visit_mut::visit_local_mut(self, l);
    }
    fn visit_expr_closure_mut(&mut self, c: &mut ExprClosure) {
        self.n.lost.push(format!("closure {}", c.to_token_stream().to_string().chars().take(60).collect::<String>()));
    }
}

// ---------------------------------------------------------------- printing
pub fn print_block(b: &Block) -> String {
    let s = b.to_token_stream().to_string();
    // one statement per line, so that a verifier message points at one statement
    let mut out = String::new();
    let mut ind = 0usize;
    let chars: Vec<char> = s.chars().collect();
    let mut i = 0;
    let mut par = 0i32;
    while i < chars.len() {
        let c = chars[i];
        match c {
            '(' | '[' => {
                par += 1;
                out.push(c);
            }
            ')' | ']' => {
                par -= 1;
                out.push(c);
            }
            '{' => {
                ind += 1;
                out.push('{');
                out.push('\n');
                out.push_str(&"  ".repeat(ind));
                while i + 1 < chars.len() && chars[i + 1] == ' ' {
                    i += 1;
                }
            }
            '}' => {
                ind = ind.saturating_sub(1);
                out.push('\n');
                out.push_str(&"  ".repeat(ind));
                out.push('}');
            }
            ';' => {
                out.push(';');
                out.push('\n');
                out.push_str(&"  ".repeat(ind));
                while i + 1 < chars.len() && chars[i + 1] == ' ' {
                    i += 1;
                }
            }
            _ => out.push(c),
        }
        i += 1;
    }
    let _ = par;
    out.lines().filter(|l| !l.trim().is_empty()).collect::<Vec<_>>().join("\n")
}
