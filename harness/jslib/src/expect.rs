//! What the coverage maps must list for a program (statements, functions, branches with their
//! source ranges) and, after a run, how often each was reached. Written from istanbul's rules,
//! independently of the instrumenter.
use crate::covdata::*;
use crate::exec::*;
use swc_core::common::comments::{Comments, SingleThreadedComments};
use swc_core::common::{Span, Spanned};
use swc_core::ecma::ast::*;
use swc_core::ecma::visit::{Visit, VisitWith};

#[derive(Clone, Debug)]
/// `alt`: where the counter is allowed / known to sit instead, for initialisers that hold a function
pub struct Stm { pub span: Span, pub key: (u8, u32), pub what: &'static str, pub tag: &'static str, pub alt: Option<(u8, Span)>, pub opt: bool }
#[derive(Default)]
struct HasFn(bool);
impl Visit for HasFn {
    fn visit_function(&mut self, _: &Function) { self.0 = true; }
    fn visit_arrow_expr(&mut self, _: &ArrowExpr) { self.0 = true; }
    fn visit_class(&mut self, _: &Class) { self.0 = true; }
    fn visit_block_stmt(&mut self, _: &BlockStmt) { self.0 = true; }
}
pub fn has_fn(e: &Expr) -> bool { let mut h = HasFn::default(); e.visit_with(&mut h); h.0 }
#[derive(Clone, Debug)]
pub struct Fun { pub name: Option<String>, pub decl: Span, pub body: Span, pub tag: &'static str }
#[derive(Clone, Debug)]
pub struct Bra { pub ty: &'static str, pub span: Span, pub key: u8, pub paths: Vec<(Span, u32)>, pub tag: &'static str }
pub struct Expect<'c> { pub comments: &'c SingleThreadedComments, pub s: Vec<Stm>, pub f: Vec<Fun>, pub b: Vec<Bra>, pub tag: &'static str, pub methods: Vec<String>, pub ignored: u32, pub dirs: Dirs, pub tpls: Vec<Span>, class: Option<Span>, decl: Option<Span>, export_const: bool }

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum H { Next, If, Else }

/// the hint a comment carries: `istanbul ignore next|if|else` at its start, ended by a non-word
/// character or the end of the comment
fn space(c: char) -> bool { c == ' ' || c == '\u{a0}' || ('\t'..='\r').contains(&c) }
pub fn hint_of(text: &str) -> Option<H> {
    let mut t = text.trim_start_matches(space);
    for w in ["istanbul", "ignore"] {
        t = t.strip_prefix(w)?;
        let r = t.trim_start_matches(space);
        if r.len() == t.len() { return None; }
        t = r;
    }
    for (w, h) in [("next", H::Next), ("if", H::If), ("else", H::Else)] {
        if let Some(r) = t.strip_prefix(w) { return match r.bytes().next() { None => Some(h), Some(c) if !(c.is_ascii_alphanumeric() || c == b'_') => Some(h), _ => None }; }
    }
    None
}

/// `istanbul ignore file` at the start of a comment
pub fn file_hint(text: &str) -> bool {
    let ws = |c: u8| c == b' ' || (c >= 9 && c <= 13);
    let mut t = text.as_bytes();
    while let Some((c, r)) = t.split_first() { if ws(*c) { t = r } else { break } }
    for w in [&b"istanbul"[..], b"ignore", b"file"] {
        for x in w { match t.split_first() { Some((c, r)) if c == x => t = r, _ => return false } }
        if w == b"file" { return match t.first() { None => true, Some(c) => !(c.is_ascii_alphanumeric() || *c == b'_') }; }
        let n = t.len();
        while let Some((c, r)) = t.split_first() { if ws(*c) { t = r } else { break } }
        if t.len() == n { return false; }
    }
    false
}

impl<'c> Expect<'c> {
    pub fn new(comments: &'c SingleThreadedComments, p: &Program) -> Self { Expect { dirs: Dirs::of(p), comments, s: vec![], f: vec![], b: vec![], tag: "", methods: vec![], ignored: 0, tpls: vec![], class: None, decl: None, export_const: false } }
    fn hint(&self, s: Span) -> Option<H> { self.comments.get_leading(s.lo)?.iter().find_map(|c| hint_of(&c.text)) }
    fn skip(&mut self, s: Span) -> bool { let r = self.hint(s) == Some(H::Next); if r { self.ignored += 1; } r }
    fn stm(&mut self, span: Span, key: (u8, u32), what: &'static str) { let tag = self.tag; self.s.push(Stm { span, key, what, tag, alt: None, opt: false }); }
    /// a branch all of whose paths are hinted away has no entry
    fn bra(&mut self, b: Bra) { if !b.paths.is_empty() { self.b.push(b); } }
    fn fun(&mut self, name: Option<String>, decl: Span, body: Span) { let tag = self.tag; self.f.push(Fun { name, decl, body, tag }); }
    fn tagged(&mut self, t: &'static str, f: impl FnOnce(&mut Self)) { let o = self.tag; if o.is_empty() { self.tag = t; } f(self); self.tag = o; }
    fn leaves(&mut self, e: &Expr, n: &mut u32, out: &mut Vec<(Span, u32)>) {
        if self.hint(e.span()) == Some(H::Next) { *n += leaves(e); self.ignored += 1; return; }
        if let Expr::Bin(b) = unparen(e) {
            if is_logical(b.op) {
                if self.hint(b.span) == Some(H::Next) { *n += leaves(e); self.ignored += 1; return; }
                self.leaves(&b.left, n, out);
                self.leaves(&b.right, n, out);
                return;
            }
        }
        out.push((e.span(), *n));
        *n += 1;
    }
    fn leaf_children(&mut self, e: &Expr) {
        if self.hint(e.span()) == Some(H::Next) { return; }
        if let Expr::Bin(b) = unparen(e) { if is_logical(b.op) { if self.hint(b.span) == Some(H::Next) { return; } self.leaf_children(&b.left); self.leaf_children(&b.right); return; } }
        e.visit_with(self);
    }
    fn method_ignored(&self, name: &str) -> bool { self.methods.iter().any(|m| m == name) }
}
macro_rules! simple { ($($f:ident $t:ident),* $(,)?) => { $(
    fn $f(&mut self, n: &$t) { if self.skip(n.span) { return; } self.stm(n.span, (b's', 0), stringify!($t)); n.visit_children_with(self); }
)* } }
macro_rules! plain { ($($f:ident $t:ident),* $(,)?) => { $(
    fn $f(&mut self, n: &$t) { if self.skip(n.span) { return; } n.visit_children_with(self); }
)* } }
impl<'c> Visit for Expect<'c> {
    simple!(visit_for_stmt ForStmt, visit_for_in_stmt ForInStmt, visit_for_of_stmt ForOfStmt, visit_while_stmt WhileStmt, visit_do_while_stmt DoWhileStmt, visit_labeled_stmt LabeledStmt, visit_continue_stmt ContinueStmt, visit_break_stmt BreakStmt, visit_return_stmt ReturnStmt, visit_throw_stmt ThrowStmt, visit_try_stmt TryStmt, visit_with_stmt WithStmt);
    plain!(visit_paren_expr ParenExpr, visit_block_stmt BlockStmt, visit_debugger_stmt DebuggerStmt, visit_export_default_decl ExportDefaultDecl);
    fn visit_tagged_tpl(&mut self, n: &TaggedTpl) { if self.skip(n.span) { return; } self.tpls.push(n.span); n.visit_children_with(self); }
    fn visit_class(&mut self, n: &Class) { let o = self.class.replace(n.span); n.visit_children_with(self); self.class = o; }
    fn visit_module_item(&mut self, n: &ModuleItem) { if self.skip(n.span()) { return; } n.visit_children_with(self); }
    fn visit_stmt(&mut self, n: &Stmt) { if self.skip(n.span()) { return; } n.visit_children_with(self); }
    fn visit_expr_stmt(&mut self, n: &ExprStmt) {
        if self.dirs.has(n.span.lo.0) || self.skip(n.span) { return; }
        self.stm(n.span, (b's', 0), "ExprStmt");
        n.visit_children_with(self);
    }
    fn visit_export_decl(&mut self, n: &ExportDecl) {
        if self.skip(n.span) { return; }
        if let Decl::Var(v) = &n.decl { if v.kind == VarDeclKind::Const && !v.declare { self.stm(n.span, (b'e', 0), "export const"); self.export_const = true; } }
        n.visit_children_with(self);
        self.export_const = false;
    }
    fn visit_var_decl(&mut self, n: &VarDecl) { if self.skip(n.span) { return; } let (o, e) = (self.decl.replace(n.span), self.export_const); for d in &n.decls { self.export_const = e && o.is_none(); d.visit_with(self); } self.decl = o; }
    fn visit_var_declarator(&mut self, n: &VarDeclarator) {
        if self.skip(n.span) { return; }
        if let Some(i) = &n.init {
            // an exported const is one statement, together with a function it holds
            self.stm(i.span(), (b's', 0), "variable initialiser");
            let opt = self.export_const;
            if has_fn(i) { let s = self.s.last_mut().unwrap(); s.opt = opt; s.alt = self.decl.map(|d| (b'v', d)); }
        }
        n.visit_children_with(self);
    }
    fn visit_if_stmt(&mut self, n: &IfStmt) {
        if self.skip(n.span) { return; }
        self.stm(n.span, (b's', 0), "IfStmt");
        let h = self.hint(n.span);
        let mut paths = vec![];
        if h != Some(H::If) { paths.push((n.span, 0)); }
        if h != Some(H::Else) { paths.push((n.span, 1)); }
        let tag = self.tag;
        self.bra(Bra { ty: "if", span: n.span, key: b'i', paths, tag });
        n.test.visit_with(self);
        if h != Some(H::If) { n.cons.visit_with(self); } else { self.ignored += 1; }
        if h != Some(H::Else) { if let Some(a) = &n.alt { a.visit_with(self); } } else { self.ignored += 1; }
    }
    fn visit_cond_expr(&mut self, n: &CondExpr) {
        if self.skip(n.span) { return; }
        let mut paths = vec![];
        if self.hint(n.cons.span()) != Some(H::Next) { paths.push((n.cons.span(), 0)); }
        if self.hint(n.alt.span()) != Some(H::Next) { paths.push((n.alt.span(), 1)); }
        let tag = self.tag;
        self.bra(Bra { ty: "cond-expr", span: n.span, key: b'c', paths, tag });
        n.visit_children_with(self);
    }
    fn visit_switch_stmt(&mut self, n: &SwitchStmt) {
        if self.skip(n.span) { return; }
        self.stm(n.span, (b's', 0), "SwitchStmt");
        let mut paths = vec![];
        for (i, c) in n.cases.iter().enumerate() { if self.hint(c.span) != Some(H::Next) { paths.push((c.span, i as u32)); } }
        let tag = self.tag;
        self.bra(Bra { ty: "switch", span: n.span, key: b'w', paths, tag });
        n.discriminant.visit_with(self);
        for c in &n.cases { if !self.skip(c.span) { c.visit_children_with(self); } }
    }
    fn visit_bin_expr(&mut self, n: &BinExpr) {
        if self.skip(n.span) { return; }
        if !is_logical(n.op) { return n.visit_children_with(self); }
        let mut paths = vec![];
        let mut k = 0;
        self.leaves(&n.left, &mut k, &mut paths);
        self.leaves(&n.right, &mut k, &mut paths);
        let tag = self.tag;
        self.bra(Bra { ty: "binary-expr", span: n.span, key: b'l', paths, tag });
        self.leaf_children(&n.left);
        self.leaf_children(&n.right);
    }
    fn visit_assign_pat(&mut self, n: &AssignPat) {
        if self.skip(n.span) { return; }
        let tag = self.tag;
        let off = self.hint(n.right.span()) == Some(H::Next);
        let paths = if off { vec![] } else { vec![(n.right.span(), 0)] };
        self.bra(Bra { ty: "default-arg", span: n.span, key: b'd', paths, tag });
        n.left.visit_with(self);
        if off { self.ignored += 1; } else { n.right.visit_with(self); }
    }
    fn visit_assign_pat_prop(&mut self, n: &AssignPatProp) {
        if self.skip(n.span) { return; }
        let Some(v) = &n.value else { return };
        let tag = self.tag;
        let off = self.hint(v.span()) == Some(H::Next);
        let paths = if off { vec![] } else { vec![(v.span(), 0)] };
        self.bra(Bra { ty: "default-arg", span: n.span, key: b'o', paths, tag });
        if off { self.ignored += 1; } else { v.visit_with(self); }
    }
    fn visit_fn_decl(&mut self, n: &FnDecl) {
        if self.skip(n.function.span) { return; }
        if let Some(b) = &n.function.body { self.fun(Some(n.ident.sym.to_string()), n.ident.span, b.span); }
        n.visit_children_with(self);
    }
    fn visit_fn_expr(&mut self, n: &FnExpr) {
        if self.skip(n.function.span) { return; }
        if let Some(i) = &n.ident { if self.method_ignored(&i.sym) { self.ignored += 1; return; } }
        if let Some(b) = &n.function.body { self.fun(n.ident.as_ref().map(|i| i.sym.to_string()), n.ident.as_ref().map_or(n.function.span, |i| i.span), b.span); }
        n.visit_children_with(self);
    }
    fn visit_arrow_expr(&mut self, n: &ArrowExpr) {
        if self.skip(n.span) { return; }
        let b = match &*n.body { BlockStmtOrExpr::BlockStmt(b) => b.span, BlockStmtOrExpr::Expr(e) => e.span() };
        self.fun(None, n.span, b);
        if let BlockStmtOrExpr::Expr(e) = &*n.body { if self.hint(e.span()) == Some(H::Next) { self.ignored += 1; } else { self.stm(e.span(), (b's', 1), "arrow expression body"); } }
        n.visit_children_with(self);
    }
    fn visit_decl(&mut self, n: &Decl) {
        if match n { Decl::Class(d) => d.declare, Decl::Fn(d) => d.declare, Decl::Var(d) => d.declare, Decl::TsModule(d) => d.declare, Decl::TsEnum(d) => d.declare || d.is_const, _ => false } { return; }
        n.visit_children_with(self);
    }
    fn visit_class_decl(&mut self, n: &ClassDecl) { if self.skip(n.class.span) { return; } n.visit_children_with(self); }
    fn visit_class_method(&mut self, n: &ClassMethod) {
        if self.skip(n.span) { return; }
        let (name, sp) = match &n.key { PropName::Ident(i) => (Some(i.sym.to_string()), i.span), _ => (None, n.function.span) };
        if let Some(n) = &name { if self.method_ignored(n) { self.ignored += 1; return; } }
        if let Some(b) = &n.function.body { self.fun(name, sp, b.span); }
        n.visit_children_with(self);
    }
    fn visit_private_method(&mut self, n: &PrivateMethod) {
        if self.skip(n.span) { return; }
        self.tagged("private method", |s| {
            if let Some(b) = &n.function.body { s.fun(None, n.function.span, b.span); }
            n.visit_children_with(s);
        });
    }
    fn visit_constructor(&mut self, n: &Constructor) {
        if self.skip(n.span) { return; }
        if self.method_ignored("constructor") { self.ignored += 1; return; }
        self.tagged("constructor", |s| {
            if let Some(b) = &n.body { s.fun(Some("constructor".into()), n.key.span(), b.span); }
            n.visit_children_with(s);
        });
    }
    fn visit_class_prop(&mut self, n: &ClassProp) {
        if self.skip(n.span) { return; }
        if let Some(v) = &n.value { self.stm(v.span(), (b's', 0), "class field"); if has_fn(v) { self.s.last_mut().unwrap().alt = self.class.map(|c| (b'k', c)); } }
        n.visit_children_with(self);
    }
    fn visit_private_prop(&mut self, n: &PrivateProp) {
        if self.skip(n.span) { return; }
        if let Some(v) = &n.value { self.stm(v.span(), (b's', 0), "class field"); if has_fn(v) { self.s.last_mut().unwrap().alt = self.class.map(|c| (b'k', c)); } }
        n.visit_children_with(self);
    }
    fn visit_method_prop(&mut self, n: &MethodProp) {
        if self.skip(n.function.span) { return; }
        let (name, sp) = match &n.key { PropName::Ident(i) => (Some(i.sym.to_string()), i.span), k => (None, k.span()) };
        if let Some(n) = &name { if self.method_ignored(n) { self.ignored += 1; return; } }
        if let Some(b) = &n.function.body { self.fun(name, sp, b.span); }
        n.visit_children_with(self);
    }
    fn visit_getter_prop(&mut self, n: &GetterProp) {
        if self.skip(n.span) { return; }
        let (name, sp) = match &n.key { PropName::Ident(i) => (Some(i.sym.to_string()), i.span), _ => (None, n.span) };
        if let Some(n) = &name { if self.method_ignored(n) { self.ignored += 1; return; } }
        if let Some(b) = &n.body { self.fun(name, sp, b.span); }
        n.visit_children_with(self);
    }
    fn visit_setter_prop(&mut self, n: &SetterProp) {
        if self.skip(n.span) { return; }
        let (name, sp) = match &n.key { PropName::Ident(i) => (Some(i.sym.to_string()), i.span), _ => (None, n.span) };
        if let Some(n) = &name { if self.method_ignored(n) { self.ignored += 1; return; } }
        if let Some(b) = &n.body { self.fun(name, sp, b.span); }
        n.visit_children_with(self);
    }
}
