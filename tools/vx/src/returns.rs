//! Early exits of a body that is placed into another one (helper, closure, labelled block) become
//! structured control flow: what follows a conditional exit moves into the branches that go on.
//! Local names are unique when this runs, so blocks may be spliced.
use crate::types::path_ident;
use std::sync::atomic::{AtomicUsize, Ordering};
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;

static N: AtomicUsize = AtomicUsize::new(0);
fn fresh(p: &str) -> Ident {
    Ident::new(&format!("{}{}", p, N.fetch_add(1, Ordering::Relaxed)), proc_macro2::Span::call_site())
}

/// the exit looked for: `return` (None) or `break 'l` (Some(l))
#[derive(Clone)]
pub struct Exit(pub Option<Ident>);

impl Exit {
    fn value(&self, e: &Expr) -> Option<Expr> {
        let unit: Expr = parse_quote!(());
        match (e, &self.0) {
            (Expr::Return(r), None) => Some(r.expr.as_ref().map(|x| (**x).clone()).unwrap_or(unit)),
            (Expr::Break(b), Some(l)) if b.label.as_ref().map(|x| x.ident == *l).unwrap_or(false) => {
                Some(b.expr.as_ref().map(|x| (**x).clone()).unwrap_or(unit))
            }
            _ => None,
        }
    }
}
struct Has<'a>(&'a Exit, bool);
impl<'a, 'ast> Visit<'ast> for Has<'a> {
    fn visit_expr(&mut self, e: &'ast Expr) {
        if self.0.value(e).is_some() {
            self.1 = true;
        }
        if self.0 .0.is_none() && matches!(e, Expr::Try(_)) {
            self.1 = true;
        }
        visit::visit_expr(self, e);
    }
    fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
}
pub fn has_expr(x: &Exit, e: &Expr) -> bool {
    let mut h = Has(x, false);
    h.visit_expr(e);
    h.1
}
fn has_stmt(x: &Exit, s: &Stmt) -> bool {
    let mut h = Has(x, false);
    h.visit_stmt(s);
    h.1
}
pub fn has_stmts(x: &Exit, b: &[Stmt]) -> bool {
    b.iter().any(|s| has_stmt(x, s))
}
fn blk(stmts: Vec<Stmt>) -> Expr {
    Expr::Block(ExprBlock { attrs: vec![], label: None, block: Block { brace_token: Default::default(), stmts } })
}
fn stmts_of(e: &Expr) -> Vec<Stmt> {
    match e {
        Expr::Block(b) if b.label.is_none() => b.block.stmts.clone(),
        e => vec![Stmt::Expr(e.clone(), None)],
    }
}
/// control never gets past the end
fn diverges(st: &[Stmt]) -> bool {
    match st.last() {
        Some(Stmt::Expr(e, _)) => match e {
            Expr::Return(_) | Expr::Break(_) | Expr::Continue(_) => true,
            Expr::Block(b) if b.label.is_none() => diverges(&b.block.stmts),
            Expr::If(i) => match &i.else_branch {
                Some((_, e)) => diverges(&i.then_branch.stmts) && diverges(&stmts_of(e)),
                None => false,
            },
            Expr::Match(m) => !m.arms.is_empty() && m.arms.iter().all(|a| diverges(&stmts_of(&a.body))),
            Expr::Loop(l) => !breaks_out(l),
            _ => false,
        },
        _ => false,
    }
}
/// a `break` of this loop itself
fn breaks_out(l: &ExprLoop) -> bool {
    struct B {
        label: Option<Ident>,
        depth: usize,
        hit: bool,
    }
    impl<'ast> Visit<'ast> for B {
        fn visit_expr(&mut self, e: &'ast Expr) {
            let nested = matches!(e, Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_));
            if let Expr::Break(b) = e {
                match &b.label {
                    None if self.depth == 0 => self.hit = true,
                    Some(x) if self.label.as_ref().map(|y| *y == x.ident).unwrap_or(false) => self.hit = true,
                    _ => {}
                }
            }
            if nested {
                self.depth += 1;
            }
            visit::visit_expr(self, e);
            if nested {
                self.depth -= 1;
            }
        }
        fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
    }
    let mut b = B { label: l.label.as_ref().map(|x| x.name.ident.clone()), depth: 0, hit: false };
    b.visit_block(&l.body);
    b.hit
}
fn with_rest(mut a: Vec<Stmt>, rest: &[Stmt]) -> Vec<Stmt> {
    if diverges(&a) || rest.is_empty() {
        return a;
    }
    if let Some(Stmt::Expr(_, semi @ None)) = a.last_mut() {
        *semi = Some(Default::default());
    }
    a.extend(rest.iter().cloned());
    a
}

/// `e?` spelled out
struct Tries;
impl VisitMut for Tries {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Try(t) = e {
            let x = &t.expr;
            *e = parse_quote!(match #x { Ok(vx_o) => vx_o, Err(vx_e) => return Err(vx_e) });
        }
    }
    fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
}

/// take out of `e` the part evaluated first that contains an exit; None when something else is evaluated before it
fn hoist(x: &Exit, e: &mut Expr, pre: &mut Vec<Stmt>) -> Option<()> {
    if !has_expr(x, e) {
        return Some(());
    }
    let take = |e: &mut Expr, pre: &mut Vec<Stmt>| {
        let t = fresh("vx_t");
        let old = std::mem::replace(e, parse_quote!(#t));
        pre.push(parse_quote!(let #t = #old;));
    };
    let fixed = |e: &Expr| matches!(e, Expr::Path(_) | Expr::Lit(_)) || crate::types::place(e).is_some();
    match e {
        Expr::Match(_) | Expr::If(_) | Expr::Block(_) | Expr::Loop(_) => {
            take(e, pre);
            Some(())
        }
        Expr::Paren(p) => hoist(x, &mut p.expr, pre),
        Expr::Unary(u) => hoist(x, &mut u.expr, pre),
        Expr::Field(f) => hoist(x, &mut f.base, pre),
        Expr::Reference(r) => hoist(x, &mut r.expr, pre),
        Expr::Binary(b) if !matches!(b.op, BinOp::And(_) | BinOp::Or(_)) => {
            hoist(x, &mut b.left, pre)?;
            if has_expr(x, &b.right) {
                if !fixed(&b.left) {
                    take(&mut b.left, pre);
                }
                hoist(x, &mut b.right, pre)?;
            }
            Some(())
        }
        Expr::Binary(b) if !has_expr(x, &b.right) => hoist(x, &mut b.left, pre),
        Expr::MethodCall(m) => {
            hoist(x, &mut m.receiver, pre)?;
            let n = m.args.iter().rposition(|a| has_expr(x, a));
            if let Some(n) = n {
                if !fixed(&m.receiver) {
                    return None;
                }
                for (i, a) in m.args.iter_mut().enumerate() {
                    if i <= n {
                        if !has_expr(x, a) && !fixed(a) {
                            return None;
                        }
                        hoist(x, a, pre)?;
                    }
                }
            }
            Some(())
        }
        Expr::Call(c) => {
            let n = c.args.iter().rposition(|a| has_expr(x, a))?;
            for (i, a) in c.args.iter_mut().enumerate() {
                if i <= n {
                    if !has_expr(x, a) && !fixed(a) {
                        return None;
                    }
                    hoist(x, a, pre)?;
                }
            }
            Some(())
        }
        _ => None,
    }
}

pub fn close(x: &Exit, stmts: &[Stmt]) -> Option<Vec<Stmt>> {
    let mut b = Block { brace_token: Default::default(), stmts: stmts.to_vec() };
    if x.0.is_none() {
        Tries.visit_block_mut(&mut b);
    }
    elim(x, &b.stmts, 0)
}

fn elim(x: &Exit, stmts: &[Stmt], depth: usize) -> Option<Vec<Stmt>> {
    if depth > 60 {
        return None;
    }
    let go = |s: &[Stmt]| elim(x, s, depth + 1);
    for (i, s) in stmts.iter().enumerate() {
        if !has_stmt(x, s) {
            if let Stmt::Expr(Expr::Continue(_) | Expr::Break(_), _) = s {
                return Some(stmts[..=i].to_vec());
            }
            continue;
        }
        let rest = &stmts[i + 1..];
        let mut out: Vec<Stmt> = stmts[..i].to_vec();
        if let Some((j, bind)) = join(x, s, rest) {
            // several branches go on: they meet in a value, an exit carries its own
            let inner = elim(x, &j, depth + 1)?;
            let r = elim(x, rest, depth + 1)?;
            let b = blk(inner);
            let t = fresh("vx_j");
            out.push(parse_quote!(let #t = #b;));
            out.push(Stmt::Expr(parse_quote!(match #t { Ok(#bind) => { #(#r)* } Err(vx_x) => vx_x }), None));
            return Some(out);
        }
        let again = |pre: Vec<Stmt>, s: Stmt| -> Option<Vec<Stmt>> {
            let mut v = pre;
            v.push(s);
            v.extend(rest.iter().cloned());
            elim(x, &v, depth + 1)
        };
        match s {
            Stmt::Expr(e, semi) => {
                if let Some(mut v) = x.value(e) {
                    if !has_expr(x, &v) {
                        out.push(Stmt::Expr(v, None));
                        return Some(out);
                    }
                    if matches!(v, Expr::Match(_) | Expr::If(_) | Expr::Block(_)) {
                        out.extend(go(&[Stmt::Expr(v, None)])?);
                        return Some(out);
                    }
                    let mut pre = vec![];
                    hoist(x, &mut v, &mut pre)?;
                    pre.push(Stmt::Expr(v, None));
                    out.extend(go(&pre)?);
                    return Some(out);
                }
                match e {
                    Expr::If(f) => {
                        if has_expr(x, &f.cond) {
                            let mut f2 = f.clone();
                            let mut pre = vec![];
                            match &mut *f2.cond {
                                Expr::Let(l) => hoist(x, &mut l.expr, &mut pre)?,
                                c => hoist(x, c, &mut pre)?,
                            }
                            out.extend(again(pre, Stmt::Expr(Expr::If(f2), *semi))?);
                            return Some(out);
                        }
                        let els = f.else_branch.as_ref().map(|(_, e)| stmts_of(e)).unwrap_or_default();
                        let t = go(&with_rest(f.then_branch.stmts.clone(), rest))?;
                        let e2 = go(&with_rest(els, rest))?;
                        let c = &f.cond;
                        let tb = Block { brace_token: Default::default(), stmts: t };
                        let eb = blk(e2);
                        out.push(Stmt::Expr(parse_quote!(if #c #tb else #eb), None));
                        return Some(out);
                    }
                    Expr::Match(m) => {
                        if has_expr(x, &m.expr) {
                            let mut m2 = m.clone();
                            let mut pre = vec![];
                            hoist(x, &mut m2.expr, &mut pre)?;
                            out.extend(again(pre, Stmt::Expr(Expr::Match(m2), *semi))?);
                            return Some(out);
                        }
                        let mut m2 = m.clone();
                        for a in &mut m2.arms {
                            if a.guard.as_ref().map(|g| has_expr(x, &g.1)).unwrap_or(false) {
                                return None;
                            }
                            let st = go(&with_rest(stmts_of(&a.body), rest))?;
                            *a.body = blk(st);
                            a.comma = Some(Default::default());
                        }
                        out.push(Stmt::Expr(Expr::Match(m2), None));
                        return Some(out);
                    }
                    Expr::Block(b) if b.label.is_none() => {
                        out.extend(go(&with_rest(b.block.stmts.clone(), rest))?);
                        return Some(out);
                    }
                    Expr::While(w) => {
                        let (c, b) = (&w.cond, &w.body.stmts);
                        if has_expr(x, c) || matches!(&**c, Expr::Let(_)) {
                            let mut c2 = (**c).clone();
                            let mut pre = vec![];
                            hoist(x, &mut c2, &mut pre)?;
                            let lab = &w.label;
                            let l: Expr = parse_quote!(#lab loop { #(#pre)* if !(#c2) { break; } #(#b)* });
                            out.extend(again(vec![], Stmt::Expr(l, *semi))?);
                            return Some(out);
                        }
                        out.extend(after_loop(x, e, rest, depth)?);
                        return Some(out);
                    }
                    Expr::ForLoop(_) => {
                        out.extend(after_loop(x, e, rest, depth)?);
                        return Some(out);
                    }
                    Expr::Loop(l) => {
                        if !breaks_out(l) || (rest.is_empty() && semi.is_none()) {
                            // the loop is left by exits only, or its value is that of the body: an exit ends the loop with its value
                            let mut l2 = l.clone();
                            let name: Lifetime = match &l.label {
                                Some(n) => n.name.clone(),
                                None => Lifetime { apostrophe: proc_macro2::Span::call_site(), ident: fresh("vxq") },
                            };
                            l2.label = Some(Label { name: name.clone(), colon_token: Default::default() });
                            let mut ok = true;
                            To { x, ok: &mut ok, make: &|v| parse_quote!(break #name #v) }.visit_block_mut(&mut l2.body);
                            if !ok {
                                return None;
                            }
                            out.push(Stmt::Expr(Expr::Loop(l2), None));
                            return Some(out);
                        }
                        out.extend(after_loop(x, e, rest, depth)?);
                        return Some(out);
                    }
                    Expr::Assign(a) => {
                        if has_expr(x, &a.left) {
                            return None;
                        }
                        let mut a2 = a.clone();
                        let mut pre = vec![];
                        hoist(x, &mut a2.right, &mut pre)?;
                        out.extend(again(pre, Stmt::Expr(Expr::Assign(a2), *semi))?);
                        return Some(out);
                    }
                    _ => {
                        let mut e2 = e.clone();
                        let mut pre = vec![];
                        hoist(x, &mut e2, &mut pre)?;
                        out.extend(again(pre, Stmt::Expr(e2, *semi))?);
                        return Some(out);
                    }
                }
            }
            Stmt::Local(l) => {
                let init = l.init.as_ref()?;
                let p = &l.pat;
                if let Some((_, d)) = &init.diverge {
                    // let P = e else { .. };
                    let e = &init.expr;
                    let m: Stmt = parse_quote!(match #e { #p => { #(#rest)* } _ => #d });
                    out.extend(go(&[drop_semi(m)])?);
                    return Some(out);
                }
                // the value is bound in each branch that yields one
                let bind = |st: Vec<Stmt>| -> Option<Vec<Stmt>> {
                    let mut st = st;
                    if !diverges(&st) {
                        match st.pop() {
                            Some(Stmt::Expr(v, None)) => st.push(parse_quote!(let #p = #v;)),
                            _ => return None,
                        }
                        st.extend(rest.iter().cloned());
                    }
                    elim(x, &st, depth + 1)
                };
                match &*init.expr {
                    Expr::Match(m) if !has_expr(x, &m.expr) => {
                        let mut m2 = m.clone();
                        for a in &mut m2.arms {
                            if a.guard.as_ref().map(|g| has_expr(x, &g.1)).unwrap_or(false) {
                                return None;
                            }
                            // `Ok(v) => v`: bind the pattern itself
                            let b = stmts_of(&a.body);
                            if let (Pat::TupleStruct(ts), [Stmt::Expr(v, None)]) = (&mut a.pat, &b[..]) {
                                if ts.elems.len() == 1 && path_ident(v).as_deref() == Some("vx_o") {
                                    if let Pat::Ident(q) = &ts.elems[0] {
                                        if q.ident == "vx_o" && !matches!(p, Pat::Type(_)) {
                                            ts.elems[0] = p.clone();
                                            *a.body = blk(go(rest)?);
                                            a.comma = Some(Default::default());
                                            continue;
                                        }
                                    }
                                }
                            }
                            *a.body = blk(bind(b)?);
                            a.comma = Some(Default::default());
                        }
                        out.push(Stmt::Expr(Expr::Match(m2), None));
                        return Some(out);
                    }
                    Expr::If(f) if !has_expr(x, &f.cond) => {
                        let t = bind(f.then_branch.stmts.clone())?;
                        let e2 = bind(stmts_of(&f.else_branch.as_ref()?.1))?;
                        let c = &f.cond;
                        let tb = Block { brace_token: Default::default(), stmts: t };
                        let eb = blk(e2);
                        out.push(Stmt::Expr(parse_quote!(if #c #tb else #eb), None));
                        return Some(out);
                    }
                    Expr::Block(b) if b.label.is_none() => {
                        out.extend(bind(b.block.stmts.clone())?);
                        return Some(out);
                    }
                    e => {
                        let mut pre = vec![];
                        let mut l2 = l.clone();
                        let e2 = &mut l2.init.as_mut()?.expr;
                        match &mut **e2 {
                            Expr::Match(m) => hoist(x, &mut m.expr, &mut pre)?,
                            Expr::If(f) => match &mut *f.cond {
                                Expr::Let(l) => hoist(x, &mut l.expr, &mut pre)?,
                                c => hoist(x, c, &mut pre)?,
                            },
                            Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_) => return None,
                            e2 => hoist(x, e2, &mut pre)?,
                        }
                        let _ = e;
                        if pre.is_empty() {
                            return None;
                        }
                        out.extend(again(pre, Stmt::Local(l2))?);
                        return Some(out);
                    }
                }
            }
            _ => return None,
        }
    }
    Some(stmts.to_vec())
}
fn drop_semi(s: Stmt) -> Stmt {
    match s {
        Stmt::Expr(e, _) => Stmt::Expr(e, None),
        s => s,
    }
}

/// branches of a statement that go on after it
fn falls(st: &[Stmt]) -> usize {
    match st.last() {
        Some(Stmt::Expr(e, _)) => match e {
            Expr::Block(b) if b.label.is_none() => falls(&b.block.stmts),
            Expr::If(f) => falls(&f.then_branch.stmts) + f.else_branch.as_ref().map(|(_, e)| falls(&stmts_of(e))).unwrap_or(1),
            Expr::Match(m) => m.arms.iter().map(|a| falls(&stmts_of(&a.body))).sum(),
            _ => !diverges(st) as usize,
        },
        _ => 1,
    }
}
fn join(x: &Exit, s: &Stmt, rest: &[Stmt]) -> Option<(Vec<Stmt>, Pat)> {
    let small = rest.len() <= 1
        && rest.iter().all(|s| {
            let mut b = vec![s.clone()];
            !has_stmts(x, &b) && falls(&b) <= 1 && {
                b.clear();
                !quote::ToTokens::to_token_stream(s).to_string().contains("loop")
            }
        });
    if small {
        return None;
    }
    let wrap = |e: &Expr| -> Option<Expr> {
        let mut e = e.clone();
        let mut ok = true;
        let v = x.0.clone();
        let mk = |val: Expr| -> Expr {
            match &v {
                None => parse_quote!(return Err(#val)),
                Some(l) => {
                    let lt = Lifetime { apostrophe: proc_macro2::Span::call_site(), ident: l.clone() };
                    parse_quote!(break #lt Err(#val))
                }
            }
        };
        To { x, ok: &mut ok, make: &mk }.visit_expr_mut(&mut e);
        if ok { Some(e) } else { None }
    };
    match s {
        Stmt::Expr(e @ (Expr::If(_) | Expr::Match(_) | Expr::Block(ExprBlock { label: None, .. })), _) if falls(&[s.clone()]) > 1 => {
            let head_ok = match e {
                Expr::If(f) => !has_expr(x, &f.cond),
                Expr::Match(m) => !has_expr(x, &m.expr),
                _ => true,
            };
            if !head_ok {
                return None;
            }
            let w = wrap(e)?;
            Some((vec![Stmt::Expr(w, Some(Default::default())), Stmt::Expr(parse_quote!(Ok(())), None)], parse_quote!(_)))
        }
        Stmt::Local(l) => {
            let init = l.init.as_ref()?;
            if init.diverge.is_some() {
                return None;
            }
            let e = &init.expr;
            let head_ok = match &**e {
                Expr::If(f) => !has_expr(x, &f.cond),
                Expr::Match(m) => !has_expr(x, &m.expr),
                Expr::Block(b) => b.label.is_none(),
                _ => false,
            };
            if !head_ok || falls(&stmts_of(e)) <= 1 {
                return None;
            }
            let w = wrap(e)?;
            let t = fresh("vx_t");
            let (bind, ty): (Pat, Option<Type>) = match &l.pat {
                Pat::Type(p) => ((*p.pat).clone(), Some((*p.ty).clone())),
                p => (p.clone(), None),
            };
            let st: Stmt = match ty {
                Some(ty) => parse_quote!(let #t: #ty = #w;),
                None => parse_quote!(let #t = #w;),
            };
            Some((vec![st, Stmt::Expr(parse_quote!(Ok(#t)), None)], bind))
        }
        _ => None,
    }
}

/// a loop that may also end by itself: the exit's value goes through a variable
fn after_loop(x: &Exit, e: &Expr, rest: &[Stmt], depth: usize) -> Option<Vec<Stmt>> {
    let mut e = e.clone();
    let q = fresh("vx_q");
    let lab = match &mut e {
        Expr::Loop(ExprLoop { label, .. }) | Expr::While(ExprWhile { label, .. }) | Expr::ForLoop(ExprForLoop { label, .. }) => {
            let name: Lifetime = match label {
                Some(n) => n.name.clone(),
                None => Lifetime { apostrophe: proc_macro2::Span::call_site(), ident: fresh("vxq") },
            };
            *label = Some(Label { name: name.clone(), colon_token: Default::default() });
            name
        }
        _ => return None,
    };
    let mut ok = true;
    {
        let mk = |v: Expr| -> Expr { parse_quote!({ #q = Some(#v); break #lab; }) };
        let mut t = To { x, ok: &mut ok, make: &mk };
        match &mut e {
            Expr::Loop(l) => t.visit_block_mut(&mut l.body),
            Expr::While(l) => t.visit_block_mut(&mut l.body),
            Expr::ForLoop(l) => t.visit_block_mut(&mut l.body),
            _ => {}
        }
    }
    if !ok {
        return None;
    }
    let r = elim(x, rest, depth + 1)?;
    let mut out: Vec<Stmt> = vec![parse_quote!(let mut #q = None;)];
    out.push(Stmt::Expr(e, Some(Default::default())));
    out.push(Stmt::Expr(parse_quote!(match #q { Some(vx_v) => vx_v, None => { #(#r)* } }), None));
    Some(out)
}

struct To<'a> {
    x: &'a Exit,
    ok: &'a mut bool,
    make: &'a dyn Fn(Expr) -> Expr,
}
impl<'a> VisitMut for To<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Some(v) = self.x.value(e) {
            *e = (self.make)(v);
        } else if self.x.0.is_none() && matches!(e, Expr::Try(_)) {
            *self.ok = false;
        }
    }
    fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
}

/// a body that ends in a loop left by `return` only: the value leaves the loop by `break`
pub fn final_loop(b: &mut Block) {
    let x = Exit(None);
    let Some(Stmt::Expr(Expr::Loop(l), semi)) = b.stmts.last_mut() else { return };
    if breaks_out(l) || !has_stmts(&x, &l.body.stmts) {
        return;
    }
    let mut l2 = l.clone();
    let name: Lifetime = match &l.label {
        Some(n) => n.name.clone(),
        None => Lifetime { apostrophe: proc_macro2::Span::call_site(), ident: fresh("vxq") },
    };
    l2.label = Some(Label { name: name.clone(), colon_token: Default::default() });
    let mut ok = true;
    To { x: &x, ok: &mut ok, make: &|v| parse_quote!(break #name #v) }.visit_block_mut(&mut l2.body);
    if ok {
        *l = l2;
        *semi = None;
    }
}

/// closures and labelled blocks, innermost first
pub struct Closures<'a> {
    pub lost: &'a mut Vec<String>,
}
impl<'a> VisitMut for Closures<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Closure(c) => {
                let x = Exit(None);
                if has_expr(&x, &c.body) {
                    match close(&x, &stmts_of(&c.body)) {
                        Some(s) => *c.body = blk(s),
                        None => self.lost.push("closure with a nested return".into()),
                    }
                }
            }
            Expr::Block(b) => {
                if let Some(l) = b.label.take() {
                    let x = Exit(Some(l.name.ident.clone()));
                    match close(&x, &b.block.stmts) {
                        Some(s) => b.block.stmts = s,
                        None => self.lost.push("labelled block".into()),
                    }
                }
            }
            _ => {}
        }
    }
}

/// `let f = |..| body;` used only in calls: the calls become the body
pub fn named_closures(b: &mut Block, lost: &mut Vec<String>) {
    struct Uses<'a>(&'a str, usize, usize);
    impl<'a, 'ast> Visit<'ast> for Uses<'a> {
        fn visit_expr_call(&mut self, c: &'ast ExprCall) {
            if path_ident(&c.func).as_deref() == Some(self.0) {
                self.1 += 1;
            }
            visit::visit_expr_call(self, c);
        }
        fn visit_expr_path(&mut self, p: &'ast ExprPath) {
            if p.path.get_ident().map(|i| i == self.0).unwrap_or(false) {
                self.2 += 1;
            }
        }
    }
    struct Rep<'a> {
        f: &'a str,
        c: &'a ExprClosure,
        ok: bool,
    }
    impl<'a> VisitMut for Rep<'a> {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            visit_mut::visit_expr_mut(self, e);
            if let Expr::Call(c) = e {
                if path_ident(&c.func).as_deref() == Some(self.f) {
                    if c.args.len() != self.c.inputs.len() {
                        self.ok = false;
                        return;
                    }
                    let mut st: Vec<Stmt> = vec![];
                    for (p, a) in self.c.inputs.iter().zip(c.args.iter()) {
                        st.push(parse_quote!(let #p = #a;));
                    }
                    st.extend(stmts_of(&self.c.body));
                    *e = blk(st);
                }
            }
        }
    }
    struct W<'a> {
        lost: &'a mut Vec<String>,
    }
    impl<'a> VisitMut for W<'a> {
        fn visit_block_mut(&mut self, b: &mut Block) {
            let mut i = 0;
            while i < b.stmts.len() {
                let hit = match &b.stmts[i] {
                    Stmt::Local(Local { pat: Pat::Ident(p), init: Some(init), .. }) => match &*init.expr {
                        Expr::Closure(c) if init.diverge.is_none() => Some((p.ident.to_string(), c.clone())),
                        _ => None,
                    },
                    _ => None,
                };
                if let Some((f, c)) = hit {
                    let mut u = Uses(&f, 0, 0);
                    for s in &b.stmts[i + 1..] {
                        u.visit_stmt(s);
                    }
                    if u.1 == u.2 && c.capture.is_none() {
                        let mut r = Rep { f: &f, c: &c, ok: true };
                        for s in &mut b.stmts[i + 1..] {
                            r.visit_stmt_mut(s);
                        }
                        if !r.ok {
                            self.lost.push("closure call".into());
                        }
                        b.stmts.remove(i);
                        continue;
                    }
                }
                i += 1;
            }
            visit_mut::visit_block_mut(self, b);
        }
    }
    W { lost }.visit_block_mut(b);
}
