//! Inlining of private helper functions (those without a contract of their own), so that a
//! function is checked together with the helpers it was split into.
use crate::{norm, rename::Renamer, returns, types, Program};
use quote::ToTokens;
use std::collections::HashMap;
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Inliner<'a> {
    pub prog: &'a Program,
    pub self_ty: Option<String>,
    pub depth: usize,
    pub lost: Vec<String>,
    pub uniq: usize,
    /// the call being visited is the last thing the target does: what it returns, the target returns
    pub tail: bool,
    /// the target returns nothing
    pub unit: bool,
    pub inlined: Vec<String>,
}

fn block_expr(stmts: Vec<Stmt>) -> Expr {
    Expr::Block(ExprBlock { attrs: vec![], label: None, block: Block { brace_token: Default::default(), stmts } })
}

/// replace uses of a by-reference parameter by the argument place
struct Subst {
    map: HashMap<String, Expr>,
}
fn unref(e: &Expr) -> (Expr, bool) {
    match e {
        Expr::Reference(r) => ((*r.expr).clone(), true),
        Expr::Paren(p) => unref(&p.expr),
        _ => (e.clone(), false),
    }
}
impl Subst {
    fn hit(&self, e: &Expr) -> Option<Expr> {
        types::path_ident(e).and_then(|i| self.map.get(&i).cloned())
    }
}
impl VisitMut for Subst {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => {
                if let Some(a) = self.hit(&u.expr) {
                    let (x, was) = unref(&a);
                    *e = if was { x } else { parse_quote!(*#x) };
                    return;
                }
            }
            Expr::Reference(r) => {
                // &p where p is itself a reference parameter
                if let Some(a) = self.hit(&r.expr) {
                    let (x, was) = unref(&a);
                    let m = &r.mutability;
                    *e = if was { parse_quote!(& #m #x) } else { x };
                    return;
                }
            }
            Expr::MethodCall(m) => {
                if let Some(a) = self.hit(&m.receiver) {
                    *m.receiver = unref(&a).0;
                    for x in &mut m.args {
                        self.visit_expr_mut(x);
                    }
                    return;
                }
            }
            Expr::Field(f) => {
                if let Some(a) = self.hit(&f.base) {
                    *f.base = unref(&a).0;
                    return;
                }
            }
            Expr::Index(ix) => {
                if let Some(a) = self.hit(&ix.expr) {
                    *ix.expr = unref(&a).0;
                    self.visit_expr_mut(&mut ix.index);
                    return;
                }
            }
            Expr::Path(_) => {
                if let Some(a) = self.hit(e) {
                    *e = a;
                    return;
                }
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

fn is_place(e: &Expr) -> bool {
    match e {
        Expr::Path(_) => types::path_ident(e).is_some(),
        Expr::Field(f) => is_place(&f.base),
        Expr::Paren(p) => is_place(&p.expr),
        Expr::Reference(r) => is_place(&r.expr),
        Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => is_place(&u.expr),
        _ => false,
    }
}

impl<'a> Inliner<'a> {
    pub fn run(&mut self, b: &mut Block) {
        self.tail_block(b);
    }

    fn tail_block(&mut self, b: &mut Block) {
        let Some(last) = b.stmts.pop() else { return };
        for s in &mut b.stmts {
            self.visit_stmt_mut(s);
        }
        match last {
            Stmt::Expr(Expr::Return(ExprReturn { expr: Some(x), .. }), _) => b.stmts.push(Stmt::Expr(*x, None)),
            s => b.stmts.push(s),
        }
        match b.stmts.pop() {
            Some(Stmt::Expr(mut e, semi)) if semi.is_none() || (self.unit && matches!(e, Expr::Call(_) | Expr::MethodCall(_))) => {
                let was = e.clone();
                self.tail_expr(&mut e);
                match e {
                    // the statements of a helper take the place of its call
                    Expr::Block(x) if x.label.is_none() && matches!(was, Expr::Call(_) | Expr::MethodCall(_)) => b.stmts.extend(x.block.stmts),
                    e => b.stmts.push(Stmt::Expr(e, semi)),
                }
            }
            Some(mut s) => {
                self.visit_stmt_mut(&mut s);
                b.stmts.push(s);
            }
            None => {}
        }
    }

    fn tail_expr(&mut self, e: &mut Expr) {
        match e {
            Expr::Call(_) | Expr::MethodCall(_) => {
                self.tail = true;
                self.visit_expr_mut(e);
                self.tail = false;
            }
            Expr::Block(x) if x.label.is_none() => self.tail_block(&mut x.block),
            Expr::If(i) => {
                self.visit_expr_mut(&mut i.cond);
                self.tail_block(&mut i.then_branch);
                if let Some((_, x)) = &mut i.else_branch {
                    self.tail_expr(x);
                }
            }
            e => self.visit_expr_mut(e),
        }
    }

    fn expand(&mut self, name: &str, def: &crate::FnDef, recv: Option<Expr>, args: Vec<Expr>) -> Option<Expr> {
        if self.depth > 6 {
            self.lost.push(format!("helper {} too deep or recursive", name));
            return None;
        }
        let tail = std::mem::take(&mut self.tail) && (!self.unit || matches!(def.sig.output, ReturnType::Default));
        let mut block = def.block.clone();
        norm::strip(&mut block, &mut self.lost);
        norm::scalar_paths(&mut block, &def.scalars);
        self.uniq += 1;
        let mut ren = Renamer::new();
        ren.push();
        let mut lets: Vec<Stmt> = vec![];
        let mut map = HashMap::new();
        let mut ai = args.into_iter();
        for inp in &def.sig.inputs {
            match inp {
                FnArg::Receiver(_) => {
                    if let Some(r) = &recv {
                        if types::path_ident(r).as_deref() != Some("self") {
                            self.lost.push(format!("helper method {} called on something other than self", name));
                            return None;
                        }
                    }
                }
                FnArg::Typed(pt) => {
                    let arg = ai.next()?;
                    let (pn, is_mut) = match &*pt.pat {
                        Pat::Ident(pi) => (pi.ident.to_string(), pi.mutability.is_some()),
                        _ => {
                            self.lost.push(format!("helper {} has a pattern parameter", name));
                            return None;
                        }
                    };
                    let un = format!("{}_h{}", pn, self.uniq);
                    ren.bind_as(&pn, &un);
                    let by_ref = matches!(&*pt.ty, Type::Reference(_));
                    if by_ref && is_place(&arg) {
                        map.insert(un, arg);
                    } else {
                        let id = Ident::new(&un, proc_macro2::Span::call_site());
                        let m: Option<Token![mut]> = if is_mut { Some(Default::default()) } else { None };
                        lets.push(parse_quote!(let #m #id = #arg;));
                    }
                }
            }
        }
        // make every local of the helper unique to this expansion
        ren.suffix = format!("_h{}", self.uniq);
        ren.block(&mut block);
        let x = returns::Exit(None);
        if !tail && returns::has_stmts(&x, &block.stmts) {
            match returns::close(&x, &block.stmts) {
                Some(s) => block.stmts = s,
                None => {
                    self.lost.push(format!("helper {} returns from a nested position", name));
                    return None;
                }
            }
        }
        Subst { map }.visit_block_mut(&mut block);
        self.depth += 1;
        if tail {
            self.tail_block(&mut block);
        } else {
            self.visit_block_mut(&mut block);
        }
        self.depth -= 1;
        self.inlined.push(name.to_string());
        lets.extend(block.stmts);
        Some(block_expr(lets))
    }
}

impl<'a> VisitMut for Inliner<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let tail = std::mem::take(&mut self.tail);
        visit_mut::visit_expr_mut(self, e);
        self.tail = tail;
        let prog = self.prog;
        match e {
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let last = segs.last().cloned().unwrap_or_default();
                    let args: Vec<Expr> = c.args.iter().cloned().collect();
                    if segs.len() >= 2 {
                        let t = if segs[segs.len() - 2] == "Self" { self.self_ty.clone().unwrap_or_default() } else { segs[segs.len() - 2].clone() };
                        if prog.contract.contains(&(t.clone(), last.clone())) {
                            return;
                        }
                        // a type or trait: its functions are no free functions
                        let named = t.chars().next().map(|c| c.is_uppercase()).unwrap_or(true);
                        if named && !prog.methods.contains_key(&(t.clone(), last.clone())) {
                            return;
                        }
                        if let Some(d) = prog.methods.get(&(t, last.clone())) {
                            let d = d.clone();
                            let mut args = args;
                            let recv = if d.sig.receiver().is_some() && !args.is_empty() {
                                let r = args.remove(0);
                                Some(unref(&r).0)
                            } else {
                                None
                            };
                            if let Some(x) = self.expand(&last, &d, recv, args) {
                                *e = x;
                            }
                            return;
                        }
                    }
                    if prog.contract.contains(&(String::new(), last.clone())) {
                        return;
                    }
                    if let Some(d) = prog.free.get(&last) {
                        let d = d.clone();
                        if let Some(x) = self.expand(&last, &d, None, args) {
                            *e = x;
                        }
                    }
                }
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                if types::path_ident(&m.receiver).as_deref() == Some("self") && !prog.contract.contains(&(self.self_ty.clone().unwrap_or_default(), name.clone())) {
                    if let Some(st) = &self.self_ty {
                        if let Some(d) = prog.methods.get(&(st.clone(), name.clone())) {
                            let d = d.clone();
                            let args: Vec<Expr> = m.args.iter().cloned().collect();
                            if let Some(x) = self.expand(&name, &d, Some((*m.receiver).clone()), args) {
                                *e = x;
                            }
                        }
                    }
                }
            }
            Expr::Path(p) => {
                if let Some(i) = p.path.segments.last() {
                    let s = i.ident.to_string();
                    if s.chars().all(|c| c.is_uppercase() || c == '_' || c.is_numeric()) {
                        if let Some(c) = prog.consts.get(&s) {
                            let c = c.clone();
                            *e = parse_quote!((#c));
                        }
                    }
                }
            }
            _ => {}
        }
        let _ = e.to_token_stream();
    }
}
