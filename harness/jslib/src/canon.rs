//! Erasure: remove everything the instrumenter is allowed to add, then compare with the input.
//! Both sides go through the same canonical form (bodies are blocks, `else` present, arrow bodies
//! are blocks, no parentheses), so the way a wrapper is built does not matter.
use crate::covdata::*;
use swc_core::common::util::take::Take;
use swc_core::common::DUMMY_SP;
use swc_core::ecma::ast::*;
use swc_core::ecma::visit::{VisitMut, VisitMutWith};

#[derive(Default)]
pub struct Eraser { pub found: Vec<Ctr>, pub bad: Vec<&'static str>, pub logic: u32 }

fn is_temp(e: &Expr) -> bool {
    if let Expr::Member(m) = unparen(e) { if let (Some(i), MemberProp::Ident(p)) = (cov_call(&m.obj), &m.prop) { return p.sym.strip_prefix(&*i.sym) == Some("_temp"); } }
    false
}
impl Eraser {
    fn take_stmts(&mut self, v: &mut Vec<Stmt>) {
        let mut out = Vec::with_capacity(v.len());
        for s in v.drain(..) {
            if let Some(c) = counter_stmt(&s) { self.found.push(c); continue; }
            out.push(s);
        }
        *v = out;
    }
    /// `(cov().b[i][j]++, (cov().t = E, cov().t && .. ? cov().bT[i][j]++ : null, cov().t))`
    fn logic_wrap(&mut self, c: Ctr, e: &mut Expr) -> Option<Expr> {
        let mut x = e; while let Expr::Paren(p) = x { x = &mut p.expr; }
        let Expr::Seq(q) = x else { return None };
        if q.exprs.len() != 3 || !is_temp(&q.exprs[2]) { return None; }
        let ct = if let Expr::Cond(k) = unparen(&q.exprs[1]) { counter(unparen(&k.cons))? } else { return None };
        if let Expr::Assign(a) = unparen(&q.exprs[0]) {
            if a.op != AssignOp::Assign { return None; }
            match &a.left { AssignTarget::Simple(SimpleAssignTarget::Member(m)) => if !is_temp(&Expr::Member(m.clone())) { return None; }, _ => return None }
        } else { return None; }
        if ct.kind != b't' || c.kind != b'b' || ct.id != c.id || ct.idx != c.idx { self.bad.push("truthiness counter does not match its branch counter"); }
        self.found.push(ct);
        self.logic += 1;
        let mut first = q.exprs[0].take();
        loop { match *first { Expr::Paren(p) => first = p.expr, Expr::Assign(a) => return Some(*a.right), _ => return None } }
    }
}
impl VisitMut for Eraser {
    fn visit_mut_expr(&mut self, e: &mut Expr) {
        loop {
            if let Expr::Paren(p) = e { let x = p.expr.take(); *e = *x; continue; }
            let mut rep = None;
            if let Expr::Seq(q) = e {
                if q.exprs.len() == 2 {
                    if let Some(c) = counter(unparen(&q.exprs[0])) {
                        self.found.push(c);
                        let inner = self.logic_wrap(c, &mut q.exprs[1]);
                        rep = Some(match inner { Some(x) => x, None => *q.exprs[1].take() });
                    }
                }
            }
            match rep { Some(x) => *e = x, None => break }
        }
        e.visit_mut_children_with(self);
        if let Some(_) = counter(e) { self.bad.push("counter in an unexpected place"); }
        if cov_call(e).is_some() { self.bad.push("coverage function call left in the program"); }
    }
    fn visit_mut_stmts(&mut self, v: &mut Vec<Stmt>) { self.take_stmts(v); v.visit_mut_children_with(self); }
    fn visit_mut_module_items(&mut self, m: &mut Vec<ModuleItem>) {
        let mut out = vec![];
        for i in m.drain(..) {
            if let ModuleItem::Stmt(s) = &i { if let Some(c) = counter_stmt(s) { self.found.push(c); continue; } }
            out.push(i);
        }
        *m = out;
        m.visit_mut_children_with(self);
    }
    fn visit_mut_module(&mut self, m: &mut Module) {
        m.body.retain(|i| if let ModuleItem::Stmt(s) = i { !(fn_decl_cov(s).is_some() || cov_call_stmt(s)) } else { true });
        m.visit_mut_children_with(self);
    }
    fn visit_mut_script(&mut self, m: &mut Script) {
        m.body.retain(|s| !(fn_decl_cov(s).is_some() || cov_call_stmt(s)));
        m.visit_mut_children_with(self);
    }
}

pub struct Canon { pub spans: bool }
fn to_block(s: &mut Box<Stmt>) {
    if let Stmt::Block(_) = **s { return; }
    let x = *s.take();
    **s = Stmt::Block(BlockStmt { span: DUMMY_SP, stmts: vec![x], ..Default::default() });
}
impl VisitMut for Canon {
    fn visit_mut_expr(&mut self, e: &mut Expr) {
        while let Expr::Paren(p) = e { let x = p.expr.take(); *e = *x; }
        e.visit_mut_children_with(self);
    }
    fn visit_mut_if_stmt(&mut self, s: &mut IfStmt) {
        to_block(&mut s.cons);
        if s.alt.is_none() { s.alt = Some(Box::new(Stmt::Block(BlockStmt { span: DUMMY_SP, ..Default::default() }))); }
        if let Some(a) = &mut s.alt { to_block(a); }
        s.visit_mut_children_with(self);
    }
    fn visit_mut_for_stmt(&mut self, s: &mut ForStmt) { to_block(&mut s.body); s.visit_mut_children_with(self); }
    fn visit_mut_for_in_stmt(&mut self, s: &mut ForInStmt) { to_block(&mut s.body); s.visit_mut_children_with(self); }
    fn visit_mut_for_of_stmt(&mut self, s: &mut ForOfStmt) { to_block(&mut s.body); s.visit_mut_children_with(self); }
    fn visit_mut_while_stmt(&mut self, s: &mut WhileStmt) { to_block(&mut s.body); s.visit_mut_children_with(self); }
    fn visit_mut_do_while_stmt(&mut self, s: &mut DoWhileStmt) { to_block(&mut s.body); s.visit_mut_children_with(self); }
    fn visit_mut_with_stmt(&mut self, s: &mut WithStmt) { to_block(&mut s.body); s.visit_mut_children_with(self); }
    fn visit_mut_arrow_expr(&mut self, a: &mut ArrowExpr) {
        if let BlockStmtOrExpr::Expr(x) = &mut *a.body {
            let r = Stmt::Return(ReturnStmt { span: DUMMY_SP, arg: Some(x.take()) });
            *a.body = BlockStmtOrExpr::BlockStmt(BlockStmt { span: DUMMY_SP, stmts: vec![r], ..Default::default() });
        }
        a.visit_mut_children_with(self);
    }
    fn visit_mut_block_stmt(&mut self, b: &mut BlockStmt) { b.span = DUMMY_SP; b.visit_mut_children_with(self); }
    fn visit_mut_return_stmt(&mut self, b: &mut ReturnStmt) { b.span = DUMMY_SP; b.visit_mut_children_with(self); }
}
