//! Give every local a unique name (alpha conversion), so later rewrites need no scoping care.
use std::collections::{HashMap, HashSet};
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Renamer {
    pub used: HashSet<String>,
    pub suffix: String,
    scopes: Vec<HashMap<String, String>>,
}

impl Renamer {
    pub fn new() -> Self {
        Renamer { used: HashSet::new(), suffix: String::new(), scopes: vec![] }
    }
    pub fn push(&mut self) {
        self.scopes.push(HashMap::new());
    }
    pub fn pop(&mut self) {
        self.scopes.pop();
    }
    pub fn bind_as(&mut self, name: &str, to: &str) {
        self.used.insert(to.into());
        self.scopes.last_mut().unwrap().insert(name.into(), to.into());
    }
    fn bind(&mut self, name: &str) -> String {
        let mut n = format!("{}{}", name, self.suffix);
        let mut i = 1;
        while self.used.contains(&n) {
            n = format!("{}{}_{}", name, self.suffix, i);
            i += 1;
        }
        self.used.insert(n.clone());
        self.scopes.last_mut().unwrap().insert(name.into(), n.clone());
        n
    }
    fn look(&self, name: &str) -> Option<String> {
        self.scopes.iter().rev().find_map(|s| s.get(name).cloned())
    }
    pub fn block(&mut self, b: &mut Block) {
        self.visit_block_mut(b);
    }
}

fn binding_name(s: &str) -> bool {
    s.chars().next().map(|c| c.is_lowercase() || c == '_').unwrap_or(false)
}

impl VisitMut for Renamer {
    fn visit_block_mut(&mut self, b: &mut Block) {
        self.push();
        for s in &mut b.stmts {
            self.visit_stmt_mut(s);
        }
        self.pop();
    }
    fn visit_local_mut(&mut self, l: &mut Local) {
        if let Some(i) = &mut l.init {
            self.visit_expr_mut(&mut i.expr);
            if let Some((_, e)) = &mut i.diverge {
                self.visit_expr_mut(e);
            }
        }
        self.visit_pat_mut(&mut l.pat);
    }
    fn visit_expr_closure_mut(&mut self, c: &mut ExprClosure) {
        self.push();
        for p in &mut c.inputs {
            self.visit_pat_mut(p);
        }
        self.visit_expr_mut(&mut c.body);
        self.pop();
    }
    fn visit_arm_mut(&mut self, a: &mut Arm) {
        self.push();
        self.visit_pat_mut(&mut a.pat);
        if let Some((_, g)) = &mut a.guard {
            self.visit_expr_mut(g);
        }
        self.visit_expr_mut(&mut a.body);
        self.pop();
    }
    fn visit_expr_for_loop_mut(&mut self, f: &mut ExprForLoop) {
        self.visit_expr_mut(&mut f.expr);
        self.push();
        self.visit_pat_mut(&mut f.pat);
        self.visit_block_mut(&mut f.body);
        self.pop();
    }
    fn visit_expr_let_mut(&mut self, l: &mut ExprLet) {
        self.visit_expr_mut(&mut l.expr);
        self.visit_pat_mut(&mut l.pat);
    }
    fn visit_expr_if_mut(&mut self, i: &mut ExprIf) {
        self.push();
        self.visit_expr_mut(&mut i.cond);
        self.visit_block_mut(&mut i.then_branch);
        self.pop();
        if let Some((_, e)) = &mut i.else_branch {
            self.visit_expr_mut(e);
        }
    }
    fn visit_expr_while_mut(&mut self, i: &mut ExprWhile) {
        self.push();
        self.visit_expr_mut(&mut i.cond);
        self.visit_block_mut(&mut i.body);
        self.pop();
    }
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        if p.qself.is_none() {
            if let Some(id) = p.path.get_ident().cloned() {
                if let Some(n) = self.look(&id.to_string()) {
                    p.path = Path::from(Ident::new(&n, id.span()));
                }
            }
        }
    }
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
        let s = p.ident.to_string();
        if binding_name(&s) {
            let n = self.bind(&s);
            p.ident = Ident::new(&n, p.ident.span());
        }
        if let Some((_, sp)) = &mut p.subpat {
            self.visit_pat_mut(sp);
        }
    }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        if f.colon_token.is_none() {
            f.colon_token = Some(Default::default());
        }
        visit_mut::visit_field_value_mut(self, f);
    }
    fn visit_field_pat_mut(&mut self, f: &mut FieldPat) {
        if f.colon_token.is_none() {
            f.colon_token = Some(Default::default());
        }
        visit_mut::visit_field_pat_mut(self, f);
    }
}
