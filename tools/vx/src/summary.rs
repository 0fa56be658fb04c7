//! Loop bookkeeping: markers for the contract weaver, and candidate invariants for loops whose
//! iterations write distinct elements (guesses only; the verifier decides whether they hold).
use crate::norm::{assigned_block, ident, LoopInfo, Norm, SubstId};
use crate::types::{self, path_ident, Env};
use quote::ToTokens;
use serde_json::{json, Value};
use std::collections::{HashMap, HashSet};
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Clone, Debug)]
enum Dim {
    Eq(Expr),
    Range(Expr, Expr),
}
#[derive(Clone, Debug)]
struct Write {
    place: String,
    dims: Vec<Dim>,
    guards: Vec<Expr>,
    val: Expr,
}

fn unparen(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => unparen(&p.expr),
        Expr::Group(p) => unparen(&p.expr),
        _ => e,
    }
}
fn txt(e: &Expr) -> String {
    unparen(e).to_token_stream().to_string()
}

struct Sum<'a> {
    loops: &'a std::collections::BTreeMap<String, LoopInfo>,
    env_ty: Env,
    sym: HashMap<String, Expr>,
    writes: Vec<Write>,
    mutated: HashSet<String>,
    snap: HashMap<String, String>,
}

fn dimvar(d: usize) -> Expr {
    if d == 0 { parse_quote!(__r) } else { parse_quote!(__c) }
}

impl<'a> Sum<'a> {
    fn place_ty(&self, p: &str) -> String {
        types::strip_ref(self.env_ty.get(p).map(|s| s.as_str()).unwrap_or("?")).to_string()
    }
    fn index(&self, p: &str, e: &Expr) -> Vec<Expr> {
        match unparen(e) {
            Expr::Tuple(t) if t.elems.len() == 2 => {
                if self.place_ty(p) == "Vc" || self.place_ty(p) == "Piv" {
                    vec![unparen(&t.elems[0]).clone()]
                } else {
                    t.elems.iter().map(|x| unparen(x).clone()).collect()
                }
            }
            x => vec![x.clone()],
        }
    }
    /// value of an expression in terms of the state at loop start
    fn eval(&self, e: &Expr) -> Expr {
        struct Ev<'x, 'y> {
            s: &'x Sum<'y>,
        }
        impl<'x, 'y> VisitMut for Ev<'x, 'y> {
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                if let Some(i) = path_ident(e) {
                    if let Some(v) = self.s.sym.get(&i) {
                        *e = match v {
                            Expr::Path(_) | Expr::Lit(_) | Expr::MethodCall(_) | Expr::Paren(_) | Expr::Call(_) => v.clone(),
                            _ => parse_quote!((#v)),
                        };
                        return;
                    }
                }
                if let Expr::MethodCall(m) = e {
                    let nm = m.method.to_string();
                    if nm == "at1" || nm == "at2" || nm == "column" {
                        if let Some(p) = types::place(&m.receiver) {
                            for a in &mut m.args {
                                self.visit_expr_mut(a);
                            }
                            if self.s.mutated.contains(&p) && self.s.snap.contains_key(&p) {
                                if nm != "column" {
                                    let ix = self.s.index(&p, &m.args[0]);
                                    for w in self.s.writes.iter().rev() {
                                        if w.place == p && w.guards.is_empty() && w.dims.len() == ix.len() {
                                            let same = w.dims.iter().zip(&ix).all(|(d, i)| matches!(d, Dim::Eq(x) if txt(x) == txt(i)));
                                            if same {
                                                let v = &w.val;
                                                *e = parse_quote!((#v));
                                                return;
                                            }
                                        }
                                    }
                                }
                                let s = ident(&self.s.snap[&p]);
                                *m.receiver = parse_quote!(#s);
                            } else if let Some(i) = path_ident(&m.receiver) {
                                if let Some(v) = self.s.sym.get(&i) {
                                    *m.receiver = v.clone();
                                }
                            }
                            return;
                        }
                    }
                }
                visit_mut::visit_expr_mut(self, e);
            }
        }
        let mut e = e.clone();
        Ev { s: self }.visit_expr_mut(&mut e);
        e
    }
    fn add_write(&mut self, p: String, ix: Vec<Expr>, val: Expr, guards: &[Expr]) {
        self.writes.push(Write { place: p, dims: ix.into_iter().map(Dim::Eq).collect(), guards: guards.to_vec(), val });
    }
    fn stmts(&mut self, b: &[Stmt], guards: &[Expr]) -> Option<()> {
        for s in b {
            match s {
                Stmt::Local(l) => {
                    let pat = match &l.pat {
                        Pat::Type(t) => &*t.pat,
                        p => p,
                    };
                    let id = match pat {
                        Pat::Ident(p) => p,
                        _ => return None,
                    };
                    let name = id.ident.to_string();
                    if self.loops.contains_key(&name) {
                        continue;
                    }
                    if id.mutability.is_some() && self.mutated.contains(&name) {
                        return None;
                    }
                    let v = self.eval(&l.init.as_ref()?.expr);
                    self.sym.insert(name, v);
                }
                Stmt::Expr(e, _) => self.expr(e, guards)?,
                _ => return None,
            }
        }
        Some(())
    }
    fn expr(&mut self, e: &Expr, guards: &[Expr]) -> Option<()> {
        match e {
            Expr::Path(p) if p.to_token_stream().to_string().starts_with("__VX_") => Some(()),
            Expr::Tuple(t) if t.elems.is_empty() => Some(()),
            // an assertion changes nothing
            Expr::Call(c) if path_ident(&c.func).as_deref() == Some("vx_assert") => Some(()),
            Expr::Paren(p) => self.expr(&p.expr, guards),
            Expr::Block(b) => self.stmts(&b.block.stmts, guards),
            Expr::If(i) => {
                let c = self.eval(&i.cond);
                if matches!(unparen(&i.cond), Expr::Let(_)) {
                    return None;
                }
                let mut g = guards.to_vec();
                g.push(c.clone());
                self.stmts(&i.then_branch.stmts, &g)?;
                if let Some((_, el)) = &i.else_branch {
                    let mut g = guards.to_vec();
                    g.push(parse_quote!(!(#c)));
                    self.expr(el, &g)?;
                }
                Some(())
            }
            Expr::Assign(a) => {
                // only the counter step of a canonical loop
                let x = path_ident(&a.left)?;
                if self.loops.contains_key(&x) {
                    Some(())
                } else {
                    None
                }
            }
            Expr::MethodCall(m) => {
                let p = types::place(&m.receiver)?;
                match m.method.to_string().as_str() {
                    "put1" | "put2" => {
                        let i0 = self.eval(&m.args[0]);
                        let ix = self.index(&p, &i0);
                        let v = self.eval(&m.args[1]);
                        self.add_write(p, ix, v, guards);
                        Some(())
                    }
                    "swap" => {
                        let (a0, b0) = (self.eval(&m.args[0]), self.eval(&m.args[1]));
                        let (a, b) = (self.index(&p, &a0), self.index(&p, &b0));
                        let r = &m.receiver;
                        let rd = |x: &Expr| -> Expr {
                            match unparen(x) {
                                Expr::Tuple(_) => parse_quote!(#r.at2(#x)),
                                _ => parse_quote!(#r.at1(#x)),
                            }
                        };
                        let (va, vb) = (self.eval(&rd(&a0)), self.eval(&rd(&b0)));
                        self.add_write(p.clone(), a, vb, guards);
                        self.add_write(p, b, va, guards);
                        Some(())
                    }
                    _ => None,
                }
            }
            Expr::While(w) => {
                let ctr = loop_ctr(w, self.loops)?;
                let info = self.loops[&ctr].clone();
                let (lo, hi) = (self.eval(info.lo.as_ref()?), self.eval(info.hi.as_ref()?));
                let saved = std::mem::take(&mut self.writes);
                self.sym.remove(&info.var);
                self.body(&w.body, &info)?;
                let inner = std::mem::replace(&mut self.writes, saved);
                for mut x in inner {
                    generalize(&mut x, &info.var, &lo, &hi)?;
                    x.guards = guards.iter().cloned().chain(x.guards).collect();
                    self.writes.push(x);
                }
                Some(())
            }
            _ => None,
        }
    }
    /// body of a canonical loop; the leading counter statements are skipped
    fn body(&mut self, b: &Block, info: &LoopInfo) -> Option<()> {
        let st: Vec<Stmt> = b
            .stmts
            .iter()
            .filter(|s| match s {
                Stmt::Local(l) => !matches!(&l.pat, Pat::Ident(p) if p.ident == info.var.as_str()),
                Stmt::Expr(Expr::Assign(a), _) => path_ident(&a.left).as_deref() != Some(info.ctr.as_str()),
                _ => true,
            })
            .cloned()
            .collect();
        self.stmts(&st, &[])
    }
}

fn subst(e: &mut Expr, var: &str, by: &Expr) {
    let mut m = HashMap::new();
    m.insert(var.to_string(), by.clone());
    SubstId { map: &m }.visit_expr_mut(e);
}

/// an index that is affine in `var`: (base, negative), for base + var, var + base, var - base', base - var
fn affine(e: &Expr, var: &str) -> Option<(Option<Expr>, bool)> {
    let has = |e: &Expr| crate::norm::mentions_expr(e, var);
    match unparen(e) {
        e if path_ident(e).as_deref() == Some(var) => Some((None, false)),
        Expr::Binary(b) => {
            let (l, r) = (unparen(&b.left), unparen(&b.right));
            let plus = |a: Option<Expr>, s: Expr| Some(match a { Some(a) => parse_quote!((#a) + (#s)), None => s });
            match b.op {
                BinOp::Add(_) if has(l) && !has(r) => affine(l, var).map(|(a, n)| (plus(a, r.clone()), n)),
                BinOp::Add(_) if has(r) && !has(l) => affine(r, var).map(|(a, n)| (plus(a, l.clone()), n)),
                BinOp::Sub(_) if has(l) && !has(r) => affine(l, var).map(|(a, n)| (Some(match a { Some(a) => parse_quote!((#a) - (#r)), None => parse_quote!(0 - (#r)) }), n)),
                BinOp::Sub(_) if has(r) && !has(l) => match affine(r, var)? {
                    (a, false) => Some((Some(match a { Some(a) => parse_quote!((#l) - (#a)), None => l.clone() }), true)),
                    _ => None,
                },
                _ => None,
            }
        }
        _ => None,
    }
}

/// the terms of an additive integer expression, with cancelling ones removed
fn additive(e: &Expr, sign: bool, out: &mut Vec<(Expr, bool)>, lit: &mut i64) {
    match unparen(e) {
        Expr::Binary(b) if matches!(b.op, BinOp::Add(_) | BinOp::Sub(_)) => {
            additive(&b.left, sign, out, lit);
            additive(&b.right, sign == matches!(b.op, BinOp::Add(_)), out, lit);
        }
        Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) if i.base10_parse::<i64>().is_ok() => {
            let v = i.base10_parse::<i64>().unwrap();
            *lit += if sign { v } else { -v };
        }
        x => match out.iter().position(|(y, s)| *s != sign && txt(y) == txt(x)) {
            Some(k) => {
                out.remove(k);
            }
            None => out.push((x.clone(), sign)),
        },
    }
}
fn simp_int(e: &Expr) -> Expr {
    if !matches!(unparen(e), Expr::Binary(b) if matches!(b.op, BinOp::Add(_) | BinOp::Sub(_))) {
        return e.clone();
    }
    let (mut v, mut lit) = (vec![], 0);
    additive(e, true, &mut v, &mut lit);
    let mut r: Option<Expr> = None;
    v.sort_by_key(|(_, s)| !*s);
    for (x, s) in v {
        r = Some(match r {
            None if s => x,
            None => parse_quote!(0 - (#x)),
            Some(r) if s => parse_quote!(#r + #x),
            Some(r) => parse_quote!(#r - (#x)),
        });
    }
    let l: Expr = LitInt::new(&lit.abs().to_string(), proc_macro2::Span::call_site()).to_expr();
    match r {
        None if lit >= 0 => l,
        None => parse_quote!(0 - #l),
        Some(r) if lit == 0 => r,
        Some(r) if lit > 0 => parse_quote!((#r + #l)),
        Some(r) => parse_quote!((#r - #l)),
    }
}
trait ToExpr {
    fn to_expr(&self) -> Expr;
}
impl ToExpr for LitInt {
    fn to_expr(&self) -> Expr {
        Expr::Lit(ExprLit { attrs: vec![], lit: Lit::Int(self.clone()) })
    }
}
/// simplify the additive expressions in which an index variable is a term
struct SimpIdx(String);
impl VisitMut for SimpIdx {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if matches!(unparen(e), Expr::Binary(b) if matches!(b.op, BinOp::Add(_) | BinOp::Sub(_))) {
            let (mut v, mut lit) = (vec![], 0);
            additive(e, true, &mut v, &mut lit);
            let t = txt(e);
            if v.iter().any(|(x, _)| txt(x) == self.0) || t.split_whitespace().any(|x| x == self.0) && v.iter().all(|(x, _)| path_ident(x).is_some()) {
                *e = simp_int(e);
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

fn generalize(w: &mut Write, var: &str, lo: &Expr, hi: &Expr) -> Option<()> {
    let (d, (base, neg)) = w.dims.iter().enumerate().find_map(|(k, x)| match x {
        Dim::Eq(e) => affine(e, var).map(|a| (k, a)),
        _ => None,
    })?;
    let dv = dimvar(d);
    let (by, lo, hi): (Expr, Expr, Expr) = match (base, neg) {
        (None, _) => (dv, lo.clone(), hi.clone()),
        (Some(b), false) => (parse_quote!((#dv - (#b))), simp_int(&parse_quote!((#lo) + (#b))), simp_int(&parse_quote!((#hi) + (#b)))),
        (Some(b), true) => (parse_quote!(((#b) - #dv)), simp_int(&parse_quote!((#b) - (#hi) + 1)), simp_int(&parse_quote!((#b) - (#lo) + 1))),
    };
    let mut si = SimpIdx(txt(&dimvar(d)));
    for (k, x) in w.dims.iter_mut().enumerate() {
        if k == d {
            *x = Dim::Range(lo.clone(), hi.clone());
        } else {
            match x {
                Dim::Eq(e) => subst(e, var, &by),
                Dim::Range(a, b) => {
                    subst(a, var, &by);
                    subst(b, var, &by);
                }
            }
        }
    }
    for x in &mut w.dims {
        if let Dim::Eq(e) = x {
            si.visit_expr_mut(e);
        }
    }
    for g in &mut w.guards {
        subst(g, var, &by);
        si.visit_expr_mut(g);
    }
    subst(&mut w.val, var, &by);
    si.visit_expr_mut(&mut w.val);
    Some(())
}

pub fn loop_ctr(w: &ExprWhile, loops: &std::collections::BTreeMap<String, LoopInfo>) -> Option<String> {
    if let Expr::Binary(b) = unparen(&w.cond) {
        let c = path_ident(&b.left)?;
        if loops.contains_key(&c) {
            return Some(c);
        }
    }
    None
}

// ---------------------------------------------------------------- printing as specification text
pub struct Sp<'a> {
    pub env: &'a Env,
}
impl<'a> Sp<'a> {
    fn mat(&self, e: &Expr) -> Option<String> {
        let p = types::place(e)?;
        let t = self.env.get(&p)?;
        Some(if t.starts_with('&') { format!("*{}", p) } else { p })
    }
    pub fn p(&self, e: &Expr) -> Option<String> {
        let e = unparen(e);
        match e {
            Expr::Lit(l) => match &l.lit {
                Lit::Int(i) => Some(i.base10_digits().to_string()),
                Lit::Bool(b) => Some(b.value.to_string()),
                _ => None,
            },
            Expr::Path(_) => {
                let i = path_ident(e)?;
                if i == "__r" {
                    return Some("r".into());
                }
                if i == "__c" {
                    return Some("c".into());
                }
                let t = self.env.get(&i)?;
                match types::strip_ref(t) {
                    "usize" => Some(format!("({} as int)", i)),
                    "Sc" | "bool" => Some(i),
                    _ => None,
                }
            }
            Expr::Unary(u) => match u.op {
                UnOp::Not(_) => Some(format!("!({})", self.p(&u.expr)?)),
                UnOp::Neg(_) => Some(format!("fneg({})", self.p(&u.expr)?)),
                UnOp::Deref(_) => self.p(&u.expr),
                _ => None,
            },
            Expr::Reference(r) => self.p(&r.expr),
            Expr::Binary(b) => {
                let (l, r) = (self.p(&b.left)?, self.p(&b.right)?);
                use BinOp::*;
                let sc = types::ty(&b.left, self.env) == "Sc" || types::ty(&b.right, self.env) == "Sc";
                Some(if sc {
                    match b.op {
                        Add(_) => format!("fadd({}, {})", l, r),
                        Sub(_) => format!("fsub({}, {})", l, r),
                        Mul(_) => format!("fmul({}, {})", l, r),
                        Div(_) => format!("fdiv({}, {})", l, r),
                        Lt(_) => format!("flt({}, {})", l, r),
                        Gt(_) => format!("flt({}, {})", r, l),
                        Le(_) => format!("fle({}, {})", l, r),
                        Ge(_) => format!("fle({}, {})", r, l),
                        Eq(_) => format!("feq({}, {})", l, r),
                        Ne(_) => format!("!feq({}, {})", l, r),
                        _ => return None,
                    }
                } else {
                    let o = match b.op {
                        Add(_) => "+",
                        Sub(_) => "-",
                        Mul(_) => "*",
                        Lt(_) => "<",
                        Gt(_) => ">",
                        Le(_) => "<=",
                        Ge(_) => ">=",
                        Eq(_) => "==",
                        Ne(_) => "!=",
                        And(_) => "&&",
                        Or(_) => "||",
                        _ => return None,
                    };
                    format!("({} {} {})", l, o, r)
                })
            }
            Expr::Call(c) => {
                let f = c.func.to_token_stream().to_string().replace(' ', "");
                match f.as_str() {
                    "Sc::zero" => Some("fzero()".into()),
                    "Sc::one" => Some("fone()".into()),
                    "vx_min" => {
                        let (a, b) = (self.p(&c.args[0])?, self.p(&c.args[1])?);
                        Some(format!("(if {} <= {} {{ {} }} else {{ {} }})", a, b, a, b))
                    }
                    "vx_monus" => {
                        let (a, b) = (self.p(&c.args[0])?, self.p(&c.args[1])?);
                        Some(format!("(if {} >= {} {{ {} - {} }} else {{ 0 }})", a, b, a, b))
                    }
                    _ => None,
                }
            }
            Expr::MethodCall(m) => {
                let nm = m.method.to_string();
                match nm.as_str() {
                    "at2" => {
                        if let Expr::Tuple(t) = unparen(&m.args[0]) {
                            let (i, j) = (self.p(&t.elems[0])?, self.p(&t.elems[1])?);
                            let p = types::place(&m.receiver)?;
                            if types::strip_ref(self.env.get(&p)?) == "Mat" {
                                return Some(format!("el({}, {}, {})", self.mat(&m.receiver)?, i, j));
                            }
                            return self.vec_at(&p, &i);
                        }
                        None
                    }
                    "at1" => {
                        let i = self.p(&m.args[0])?;
                        if let Expr::MethodCall(c) = unparen(&m.receiver) {
                            if c.method == "column" {
                                return Some(format!("el({}, {}, {})", self.mat(&c.receiver)?, i, self.p(&c.args[0])?));
                            }
                        }
                        let p = types::place(&m.receiver)?;
                        self.vec_at(&p, &i)
                    }
                    "nrows" | "ncols" | "len" => {
                        let p = types::place(&m.receiver)?;
                        if types::strip_ref(self.env.get(&p)?) == "Mat" {
                            let f = if nm == "nrows" { "rows" } else { "cols" };
                            Some(format!("{}({})", f, self.mat(&m.receiver)?))
                        } else {
                            Some(format!("(({}@).len() as int)", p))
                        }
                    }
                    "abs" => Some(format!("fabs({})", self.p(&m.receiver)?)),
                    "recip" => Some(format!("frecip({})", self.p(&m.receiver)?)),
                    "sqrt" => Some(format!("fsqrt({})", self.p(&m.receiver)?)),
                    "neg" => Some(format!("fneg({})", self.p(&m.receiver)?)),
                    "clone" => self.p(&m.receiver),
                    "is_zero" => Some(format!("feq({}, fzero())", self.p(&m.receiver)?)),
                    _ => None,
                }
            }
            _ => None,
        }
    }
    fn vec_at(&self, p: &str, i: &str) -> Option<String> {
        Some(if p.starts_with("__w") { format!("{}[{}]", p, i) } else { format!("({}@)[{}]", p, i) })
    }
}

fn auto(w: &ExprWhile, info: &LoopInfo, id: usize, n: &Norm) -> Option<Value> {
    let mut mutated = assigned_block(&w.body);
    for l in n.loops.keys() {
        mutated.remove(l);
    }
    let mut env = n.env.clone();
    env.insert("__r".into(), "usize".into());
    env.insert("__c".into(), "usize".into());
    let mut snap = HashMap::new();
    let mut snaps = vec![];
    let mut places: Vec<String> = mutated.iter().cloned().collect();
    places.sort();
    for p in &places {
        let t = types::strip_ref(env.get(p)?).to_string();
        if t == "Mat" || t == "Vc" || t == "Piv" {
            let s = format!("__w{}_{}", id, p.replace('.', "_"));
            let isref = env[p].starts_with('&');
            let src = if t == "Mat" { if isref { format!("*{}", p) } else { p.clone() } } else { format!("{}@", p) };
            env.insert(s.clone(), t);
            snap.insert(p.clone(), s.clone());
            snaps.push(json!([s, src]));
        } else {
            // a scalar carried from iteration to iteration is not elementwise
            let mut declared = HashSet::new();
            Declared { set: &mut declared }.visit_block(&w.body);
            if !declared.contains(p) {
                return None;
            }
        }
    }
    if snap.is_empty() {
        return None;
    }
    let mut s = Sum { loops: &n.loops, env_ty: env.clone(), sym: HashMap::new(), writes: vec![], mutated: mutated.clone(), snap: snap.clone() };
    s.body(&w.body, info)?;
    // locals declared in the body are symbolic values; types of expressions still come from env
    let ctr = ident(&info.ctr);
    let (lo, hi): (Expr, Expr) = if info.desc { (parse_quote!(#ctr), info.hi.clone()?) } else { (info.lo.clone()?, parse_quote!(#ctr)) };
    let mut ws = s.writes;
    for x in &mut ws {
        generalize(x, &info.var, &lo, &hi)?;
    }
    env.insert(info.ctr.clone(), "usize".into());
    let sp = Sp { env: &env };
    let mut invs = vec![];
    for p in &places {
        let sn = match snap.get(p) {
            Some(s) => s,
            None => continue,
        };
        let isref = env[p].starts_with('&');
        let two = types::strip_ref(&env[p]) == "Mat";
        let me = if two { if isref { format!("*{}", p) } else { p.clone() } } else { format!("{}@", p) };
        let mut t = if two { format!("el({}, r, c)", sn) } else { format!("{}[r]", sn) };
        for x in ws.iter().filter(|x| x.place == *p) {
            let mut g = vec![];
            for (k, d) in x.dims.iter().enumerate() {
                let v = if k == 0 { "r" } else { "c" };
                match d {
                    Dim::Eq(e) => g.push(format!("{} == {}", v, sp.p(e)?)),
                    Dim::Range(a, b) => g.push(format!("{} <= {} && {} < {}", sp.p(a)?, v, v, sp.p(b)?)),
                }
            }
            for y in &x.guards {
                g.push(sp.p(y)?);
            }
            t = format!("(if {} {{ {} }} else {{ {} }})", g.join(" && "), sp.p(&x.val)?, t);
        }
        if two {
            invs.push(format!("rows({m}) == rows({s}) && cols({m}) == cols({s})", m = me, s = sn));
            invs.push(format!("forall|r: int, c: int| #[trigger] el({}, r, c) == {}", me, t));
        } else {
            invs.push(format!("({}).len() == {}.len()", me, sn));
            invs.push(format!("forall|r: int| 0 <= r < {}.len() ==> #[trigger] ({})[r] == {}", sn, me, t));
        }
    }
    Some(json!({"snaps": snaps, "invs": invs}))
}

struct Declared<'a> {
    set: &'a mut HashSet<String>,
}
impl<'a, 'ast> Visit<'ast> for Declared<'a> {
    fn visit_pat_ident(&mut self, p: &'ast PatIdent) {
        self.set.insert(p.ident.to_string());
    }
}

struct Facts {
    methods: Vec<String>,
    ret: bool,
    brk: bool,
}
impl<'ast> Visit<'ast> for Facts {
    fn visit_expr_method_call(&mut self, m: &'ast ExprMethodCall) {
        let p = types::place(&m.receiver).unwrap_or_default();
        self.methods.push(format!("{}.{}", p, m.method));
        visit::visit_expr_method_call(self, m);
    }
    fn visit_expr_return(&mut self, r: &'ast ExprReturn) {
        self.ret = true;
        visit::visit_expr_return(self, r);
    }
    fn visit_expr_break(&mut self, r: &'ast ExprBreak) {
        self.brk = true;
        visit::visit_expr_break(self, r);
    }
}

pub fn annotate(b: &mut Block, n: &Norm, lost: &mut Vec<String>) -> Vec<Value> {
    struct A<'x, 'y> {
        n: &'x Norm<'y>,
        out: Vec<Value>,
        next: usize,
        stack: Vec<usize>,
    }
    impl<'x, 'y> A<'x, 'y> {
        fn facts(&mut self, body: &Block, id: usize, kind: &str, info: Option<&LoopInfo>, w: Option<&ExprWhile>, parent: Option<usize>) {
            let mut f = Facts { methods: vec![], ret: false, brk: false };
            f.visit_block(body);
            let mut declared = HashSet::new();
            Declared { set: &mut declared }.visit_block(body);
            let mut m: Vec<String> = assigned_block(body).into_iter().filter(|x| !declared.contains(x) && !self.n.loops.contains_key(x)).collect();
            m.sort();
            let m: Vec<Value> = m.iter().map(|x| json!([x, self.n.env.get(x).cloned().unwrap_or("?".into())])).collect();
            let au = match (w, info) {
                (Some(w), Some(i)) => auto(w, i, id, self.n),
                _ => None,
            };
            let sp = Sp { env: &self.n.env };
            self.out.push(json!({
                "id": id, "parent": parent, "kind": kind, "desc": info.map(|i| i.desc), "ctr": info.map(|i| i.ctr.clone()),
                "var": info.map(|i| i.var.clone()),
                "lo": info.and_then(|i| i.lo.as_ref()).map(txt), "hi": info.and_then(|i| i.hi.as_ref()).map(txt),
                "lo_spec": info.and_then(|i| i.lo.as_ref()).and_then(|e| sp.p(e)),
                "hi_spec": info.and_then(|i| i.hi.as_ref()).and_then(|e| sp.p(e)),
                "mutated": m, "methods": f.methods, "returns": f.ret, "breaks": f.brk, "auto": au,
            }));
        }
    }
    impl<'x, 'y> VisitMut for A<'x, 'y> {
        fn visit_block_mut(&mut self, b: &mut Block) {
            let old = std::mem::take(&mut b.stmts);
            let len = old.len();
            for (k, mut s) in old.into_iter().enumerate() {
                let is_loop = matches!(&s, Stmt::Expr(Expr::While(_) | Expr::Loop(_), _));
                if !is_loop {
                    self.visit_stmt_mut(&mut s);
                    b.stmts.push(s);
                    continue;
                }
                self.next += 1;
                let id = self.next;
                let parent = self.stack.last().cloned();
                let mark = |p: &str| -> Stmt {
                    let i = ident(&format!("__VX_{}_{}", p, id));
                    parse_quote!(#i;)
                };
                b.stmts.push(mark("PRE"));
                self.stack.push(id);
                let mut post = true;
                if let Stmt::Expr(e, semi) = &mut s {
                    match e {
                        Expr::While(w) => {
                            let info = loop_ctr(w, &self.n.loops).map(|c| self.n.loops[&c].clone());
                            let kind = if info.is_some() { "canonical" } else { "while" };
                            self.facts(&w.body.clone(), id, kind, info.as_ref(), Some(&w.clone()), parent);
                            self.visit_block_mut(&mut w.body);
                            if let Some(Stmt::Expr(_, s2 @ None)) = w.body.stmts.last_mut() {
                                *s2 = Some(Default::default());
                            }
                            w.body.stmts.insert(0, mark("LOOP"));
                            // after the counter step of a canonical loop
                            if info.is_some() {
                                w.body.stmts.insert(3, mark("BODY"));
                            } else {
                                w.body.stmts.insert(1, mark("BODY"));
                            }
                            w.body.stmts.push(mark("END"));
                        }
                        Expr::Loop(l) => {
                            self.facts(&l.body.clone(), id, "loop", None, None, parent);
                            self.visit_block_mut(&mut l.body);
                            if let Some(Stmt::Expr(_, s2 @ None)) = l.body.stmts.last_mut() {
                                *s2 = Some(Default::default());
                            }
                            l.body.stmts.insert(0, mark("LOOP"));
                            l.body.stmts.insert(1, mark("BODY"));
                            if k + 1 == len && semi.is_none() {
                                post = false;
                            }
                        }
                        _ => {}
                    }
                    if post && semi.is_none() {
                        // statement position
                    }
                }
                self.stack.pop();
                b.stmts.push(s);
                if post {
                    b.stmts.push(mark("POST"));
                }
            }
        }
    }
    let mut a = A { n, out: vec![], next: 0, stack: vec![] };
    a.visit_block_mut(b);
    // loops hidden in expression position were not given markers
    struct Hidden(usize);
    impl<'ast> Visit<'ast> for Hidden {
        fn visit_expr_while(&mut self, w: &'ast ExprWhile) {
            self.0 += 1;
            visit::visit_expr_while(self, w);
        }
        fn visit_expr_loop(&mut self, w: &'ast ExprLoop) {
            self.0 += 1;
            visit::visit_expr_loop(self, w);
        }
        fn visit_expr_for_loop(&mut self, _: &'ast ExprForLoop) {
            self.0 += 1000;
        }
    }
    let mut h = Hidden(0);
    h.visit_block(b);
    if h.0 != a.next {
        lost.push("loop in expression position".into());
    }
    let mut out = a.out;
    out.sort_by_key(|x| x["id"].as_u64());
    out
}
