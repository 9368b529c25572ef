//! C21: whatever the parser accepts is instrumented without an abort, into a valid program
use crate::tx::*;
use jslib::check::*;
use jslib::covdata::*;
use jslib::gents::*;
use jslib::parse::*;
use std::sync::Arc;
use swc_core::common::comments::SingleThreadedComments;
use swc_core::common::SourceMap;
use swc_core::ecma::ast::*;
use swc_core::ecma::visit::{Visit, VisitMutWith, VisitWith};
use swc_coverage_instrument::{create_coverage_instrumentation_visitor, InstrumentOptions};
use symx_rt::*;

fn again(p: &Program, ts: bool, deep: bool) -> bool {
    let mut q = p.clone();
    // the text of the coverage function is the same up to names and data
    if deep { match &mut q { Program::Module(m) => m.body.retain(|i| !matches!(i, ModuleItem::Stmt(s) if fn_decl_cov(s).is_some())), Program::Script(m) => m.body.retain(|s| fn_decl_cov(s).is_none()) } }
    q.visit_mut_with(&mut Parens);
    let text = print(&q);
    parse_with(&Default::default(), &SingleThreadedComments::default(), &text, matches!(p, Program::Module(_)), full(ts)).is_some()
}
/// coverage code in places that do not exist at run time
#[derive(Default)]
struct Ambient { depth: u32, bad: bool }
impl Ambient { fn within(&mut self, on: bool, f: impl FnOnce(&mut Self)) { self.depth += on as u32; f(self); self.depth -= on as u32; } }
impl Visit for Ambient {
    fn visit_expr(&mut self, e: &Expr) { if self.depth > 0 && (counter(e).is_some() || cov_call(e).is_some()) { self.bad = true; } e.visit_children_with(self); }
    fn visit_fn_decl(&mut self, n: &FnDecl) { self.within(n.declare, |s| n.visit_children_with(s)) }
    fn visit_function(&mut self, n: &Function) { self.within(n.body.is_none(), |s| n.visit_children_with(s)) }
    fn visit_class_decl(&mut self, n: &ClassDecl) { self.within(n.declare, |s| n.visit_children_with(s)) }
    fn visit_var_decl(&mut self, n: &VarDecl) { self.within(n.declare, |s| n.visit_children_with(s)) }
    fn visit_ts_module_decl(&mut self, n: &TsModuleDecl) { self.within(n.declare, |s| n.visit_children_with(s)) }
    fn visit_ts_enum_decl(&mut self, n: &TsEnumDecl) { self.within(n.declare || n.is_const, |s| n.visit_children_with(s)) }
    fn visit_ts_interface_decl(&mut self, n: &TsInterfaceDecl) { self.within(true, |s| n.visit_children_with(s)) }
    fn visit_ts_type_alias_decl(&mut self, n: &TsTypeAliasDecl) { self.within(true, |s| n.visit_children_with(s)) }
    fn visit_ts_type(&mut self, n: &TsType) { self.within(true, |s| n.visit_children_with(s)) }
    fn visit_class_prop(&mut self, n: &ClassProp) { self.within(n.declare || n.is_abstract, |s| n.visit_children_with(s)) }
}
fn instrumented(t: &'static Templates, ts: bool, fuel: u32, hints: u32, module: bool, opts: InstrumentOptions, place: bool) -> Option<Run> {
    let src = program_at(t, fuel, hints, false, place);
    ctx(&src);
    let cm: Arc<SourceMap> = Default::default();
    let comments = SingleThreadedComments::default();
    let Some(orig) = parse_with(&cm, &comments, &src, module, full(ts)) else { assume(false); return None };
    let mut out = orig.clone();
    let mut v = create_coverage_instrumentation_visitor(cm.clone(), comments.clone(), opts.clone(), "a.js".to_string());
    out.visit_mut_with(&mut v);
    cover("instrumented");
    if native() { println!("SOURCE\n{}\nINSTRUMENTED\n{}", src, print_safe(&out)); }
    note_bytes(src.as_bytes());
    Some(Run { src, orig, out, comments, opts, file: "a.js".into() })
}
fn option_set(k: u64) -> InstrumentOptions {
    match k {
        0 => InstrumentOptions::default(),
        1 => InstrumentOptions { report_logic: true, ..Default::default() },
        _ => InstrumentOptions { ignore_class_methods: vec!["m".into(), "g1".into()], compact: true, ..Default::default() },
    }
}
fn accepted(t: &'static Templates, ts: bool, fuel: u32, hints: u32) {
    warm(true);
    let deep = fuel > 1;
    let module = deep && ts || choose(2, "module") == 1;
    let opts = option_set(if deep { 1 } else { choose(3, "options") });
    let Some(r) = instrumented(t, ts, fuel, hints, module, opts, !deep) else { return };
    let mut a = Ambient::default();
    r.out.visit_with(&mut a);
    check(!a.bad, || "coverage code in a place that does not exist at run time".into());
    check_erasure(&r);
    if r.src.contains("ignore file") && r.out == r.orig { cover("left alone"); } else { check_bijection(&r); }
    check_directives(&r);
    if !again(&r.out, ts, deep) { check(!again(&r.orig, ts, deep), || "the output is not a valid program".into()); cover("printer breaks it anyway"); } else { cover("valid again"); }
}
/// namespaces in blocks and functions are no TypeScript (the parser takes them, the compiler rejects them)
#[derive(Default)]
struct Misplaced { depth: u32, bad: bool }
impl Visit for Misplaced {
    fn visit_stmt(&mut self, n: &Stmt) { self.depth += 1; if self.depth > 1 && matches!(n, Stmt::Decl(Decl::TsModule(_))) { self.bad = true; } n.visit_children_with(self); self.depth -= 1; }
    fn visit_block_stmt(&mut self, n: &BlockStmt) { self.depth += 1; n.visit_children_with(self); self.depth -= 1; }
    fn visit_ts_module_block(&mut self, n: &TsModuleBlock) { let d = std::mem::replace(&mut self.depth, 0); n.visit_children_with(self); self.depth = d; }
}
/// one aspect of every program of the templates
fn aspect(t: &'static Templates, ts: bool, fuel: u32, wants: &[Want]) {
    warm(true);
    let module = fuel > 1 || choose(2, "module") == 1;
    let opts = option_set(if fuel > 1 || wants == [Want::Truth] { 1 } else { choose(2, "options") });
    let Some(r) = instrumented(t, ts, fuel, 0, module, opts, false) else { return };
    if ts { let mut m = Misplaced::default(); r.orig.visit_with(&mut m); if m.bad { assume(false); } }
    if wants == [Want::Behaviour] { check_erasure(&r); }
    compare_any(&case(&r), wants);
}
macro_rules! aspects { ($($w:ident $js:ident $ts:ident $js2:ident $ts2:ident),*) => { $(
    pub fn $js() { aspect(&JS, false, 1, &[Want::$w]) }
    pub fn $ts() { aspect(&TS, true, 1, &[Want::$w]) }
    pub fn $js2() { aspect(&JS_SHORT, false, 2, &[Want::$w]) }
    pub fn $ts2() { aspect(&TS, true, 2, &[Want::$w]) }
)* } }
aspects!(Behaviour entry_behaviour_js entry_behaviour_ts entry_behaviour_js2 entry_behaviour_ts2, Stmts entry_stmts_js entry_stmts_ts entry_stmts_js2 entry_stmts_ts2, Funcs entry_funcs_js entry_funcs_ts entry_funcs_js2 entry_funcs_ts2, Branches entry_branches_js entry_branches_ts entry_branches_js2 entry_branches_ts2, Truth entry_truth_js entry_truth_ts entry_truth_js2 entry_truth_ts2);
fn templates_bijection(t: &'static Templates, ts: bool) {
    warm(true);
    let module = choose(2, "module") == 1;
    let opts = option_set(choose(3, "options"));
    if let Some(r) = instrumented(t, ts, 1, 1, module, opts, false) { if !(r.src.contains("ignore file") && r.out == r.orig) { check_bijection(&r); } }
}
pub fn entry_bijection_js() { templates_bijection(&JS, false) }
pub fn entry_bijection_ts() { templates_bijection(&TS, true) }
pub fn entry_ts() { accepted(&TS, true, 1, 1) }
pub fn entry_ts_nested() { accepted(&TS, true, 2, 0) }
pub fn entry_js() { accepted(&JS, false, 1, 0) }
pub fn entry_js_short() { accepted(&JS_SHORT, false, 2, 0) }
pub fn entry_js_nested() { accepted(&JS, false, 2, 0) }
/// which templates the parser takes at all
pub fn list() {
    for (t, ts) in [(&TS, true), (&JS, false)] {
        for (kind, l) in [("item", t.items), ("expr", t.exprs), ("member", t.members)] { for x in l {
            let s = x.replace("$N", "7").replace("$H", "").replace("$S", "f();").replace("$E", "f()").replace("$M", "m() {}");
            let s = match kind { "item" => s, "expr" => format!("h({});", s), _ => format!("class K extends H {{ {} }}", s) };
            let p = |m| parse_with(&Default::default(), &SingleThreadedComments::default(), &s, m, full(ts)).is_some();
            if !p(true) { println!("{} {} {}: {}", if ts { "ts" } else { "js" }, if p(false) { "script only" } else { "NEVER" }, kind, s); }
        } }
    }
}
