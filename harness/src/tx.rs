use jslib::canon::*;
use jslib::check::*;
use jslib::covdata::*;
use jslib::gen::*;
use jslib::gents::*;
use swc_core::ecma::parser::Syntax;
use jslib::parse::*;
use std::sync::Arc;
use swc_core::common::{comments::SingleThreadedComments, EqIgnoreSpan, SourceMap};
use swc_core::ecma::ast::*;
use swc_core::ecma::visit::{VisitMutWith, VisitWith};
use swc_coverage_instrument::*;
use symx_rt::*;

pub struct Run { pub src: String, pub orig: Program, pub out: Program, pub comments: SingleThreadedComments, pub opts: InstrumentOptions, pub file: String }

pub fn transform(src: &str, module: bool, opts: InstrumentOptions, file: &str) -> Option<Run> { transform_as(src, module, false, opts, file) }
pub fn transform_as(src: &str, module: bool, ts: bool, opts: InstrumentOptions, file: &str) -> Option<Run> { transform_syn(src, module, if ts { Syntax::Typescript(Default::default()) } else { Syntax::Es(Default::default()) }, opts, file) }
pub fn transform_syn(src: &str, module: bool, syntax: Syntax, opts: InstrumentOptions, file: &str) -> Option<Run> {
    let cm: Arc<SourceMap> = Default::default();
    let comments = SingleThreadedComments::default();
    let orig = parse_with(&cm, &comments, src, module, syntax)?;
    let mut out = orig.clone();
    let mut v = create_coverage_instrumentation_visitor(cm.clone(), comments.clone(), opts.clone(), file.to_string());
    out.visit_mut_with(&mut v);
    if native() { println!("SOURCE\n{}\nINSTRUMENTED\n{}", src, print_safe(&out)); }
    Some(Run { src: src.to_string(), orig, out, comments, opts, file: file.to_string() })
}

/// where the programs come from
#[derive(Clone, Copy)]
pub enum Src { Gen { p: &'static Profile, fuel: u32, hints: u32, n: u32 }, Tpl { t: &'static Templates, ts: bool, fuel: u32, hints: u32, strs: bool } }
pub const fn gen(p: &'static Profile, fuel: u32, hints: u32, n: u32) -> Src { Src::Gen { p, fuel, hints, n } }
pub const fn js(fuel: u32) -> Src { Src::Tpl { t: if fuel > 1 { &JS_SHORT } else { &JS }, ts: false, fuel, hints: 0, strs: false } }
pub const fn ts(fuel: u32) -> Src { Src::Tpl { t: &TS, ts: true, fuel, hints: 0, strs: false } }
impl Src {
    pub fn syntax(self) -> Syntax { match self { Src::Gen { .. } => Syntax::Es(Default::default()), Src::Tpl { ts, .. } => full(ts) } }
    pub fn make(self) -> String { match self { Src::Gen { p, fuel, hints, n } => gen_src(p, fuel, hints, n), Src::Tpl { t, fuel, hints, strs, .. } => program(t, fuel, hints, strs) } }
    /// where the program is a template somebody calls what it declares
    pub fn runs(self, r: &Run, wants: &[Want]) { let c = case(r); match self { Src::Gen { .. } => compare_all(&c, wants), _ => compare_any(&c, wants) } }
    pub fn transform(self, src: &str, module: bool, opts: InstrumentOptions, file: &str) -> Option<Run> { transform_syn(src, module, self.syntax(), opts, file) }
}
pub fn case(r: &Run) -> Case<'_> { Case { src: &r.src, orig: &r.orig, out: &r.out, comments: &r.comments, logic: r.opts.report_logic, methods: r.opts.ignore_class_methods.clone(), path: &r.file, var: &r.opts.coverage_variable } }

/// parse a throw-away program with a hint so lazily built tables are shared by every path
pub fn warm(module: bool) {
    transform("/* istanbul ignore next */ a; b ? c : d;", module, InstrumentOptions::default(), "a.js");
}

pub fn gen_src(p: &'static Profile, fuel: u32, hints: u32, n: u32) -> String {
    let mut g = G::new(p, fuel);
    g.hint_fuel = hints;
    g.program(n);
    g.src
}

pub fn erased(out: &Program) -> (Program, Eraser) {
    let mut e = Eraser::default();
    let mut x = out.clone();
    x.visit_mut_with(&mut e);
    (x, e)
}
pub fn canon(p: &Program) -> Program { let mut x = p.clone(); x.visit_mut_with(&mut Canon { spans: false }); x }

pub fn check_erasure(r: &Run) {
    let (e, er) = erased(&r.out);
    let (a, b) = (canon(&r.orig), canon(&e));
    let same = match (&a, &b) {
        (Program::Module(a), Program::Module(b)) => a.body == b.body,
        (Program::Script(a), Program::Script(b)) => a.body == b.body,
        _ => false,
    };
    let weak = same || a.eq_ignore_span(&b);
    if native() && !same { println!("ERASED\n{}\nEXPECTED\n{}", print(&b), print(&a)); }
    check(weak, || "the program differs after removing the injected counters".into());
    check(same || !weak, || "source positions of the original nodes changed".into());
    for m in &er.bad { fail(m); }
}

/// directives keep working: every directive prologue is still in front
pub fn check_directives(r: &Run) {
    use jslib::exec::Dirs;
    let (a, b) = (Dirs::of(&r.orig), Dirs::of(&r.out));
    check(a.at.iter().all(|d| b.at.contains(d)), || "a directive is no longer in front of the code".into());
    check(b.at.iter().all(|d| a.at.contains(d)), || "a string statement became a directive".into());
}

/// every counter in the code has its slot in the coverage object and vice versa
pub fn check_bijection(r: &Run) {
    let (_, er) = erased(&r.out);
    let pre = preamble(&r.out);
    let Some(d) = pre.data.as_ref().and_then(covd) else { fail("coverage object unreadable"); return };
    let bt = d.bt.clone().unwrap_or_default();
    for c in &er.found {
        let ok = match (c.kind, c.idx) {
            (b's', None) => d.s.iter().any(|x| x.0 == c.id) && d.sm.iter().any(|x| x.0 == c.id),
            (b'f', None) => d.f.iter().any(|x| x.0 == c.id) && d.fm.iter().any(|x| x.id == c.id),
            (b'b', Some(i)) => d.b.iter().any(|x| x.0 == c.id && (i as usize) < x.1.len()) && d.bm.iter().any(|x| x.id == c.id && (i as usize) < x.locs.len()),
            (b't', Some(i)) => bt.iter().any(|x| x.0 == c.id && (i as usize) < x.1.len()),
            _ => false,
        };
        check(ok, || format!("counter {}[{}] has no slot in the coverage object", c.kind as char, c.id));
        check(er.found.iter().filter(|x| *x == c).count() == 1, || format!("counter {} used twice", c.kind as char));
    }
    let has = |k: u8, id: u32, i: Option<u32>| er.found.iter().any(|c| c.kind == k && c.id == id && c.idx == i);
    let tpls = Tpls::of(&r.orig);
    for (i, sp) in &d.sm { check(has(b's', *i, None), || if tpls.0.iter().any(|t| rng(&r.src, *t) == *sp) { "statement entry of a tagged template without counter".into() } else { "statement entry without counter".into() }); }
    for x in &d.fm { check(has(b'f', x.id, None), || "function entry without counter".into()); }
    for x in &d.bm { for i in 0..x.locs.len() { check(has(b'b', x.id, Some(i as u32)), || format!("branch path of {} without counter", x.ty)); } }
    for (id, v) in &bt { for i in 0..v.len() { check(has(b't', *id, Some(i as u32)), || "truthiness slot without counter".into()); } }
    check(d.s.iter().all(|x| x.1 == 0) && d.f.iter().all(|x| x.1 == 0) && d.b.iter().all(|x| x.1.iter().all(|y| *y == 0)) && bt.iter().all(|x| x.1.iter().all(|y| *y == 0)), || "a hit count does not start at 0".into());
    let keys = |a: Vec<u32>, b: Vec<u32>| a == b;
    check(keys(d.s.iter().map(|x| x.0).collect(), d.sm.iter().map(|x| x.0).collect()), || "s and statementMap keys differ".into());
    check(keys(d.f.iter().map(|x| x.0).collect(), d.fm.iter().map(|x| x.id).collect()), || "f and fnMap keys differ".into());
    check(d.b.len() == d.bm.len() && d.bm.iter().all(|m| d.b.iter().any(|x| x.0 == m.id && x.1.len() == m.locs.len())), || "b and branchMap differ".into());
    check(bt.iter().all(|t| d.b.iter().any(|x| x.0 == t.0 && x.1.len() == t.1.len())), || "bT and b differ".into());
}

#[derive(Default)]
struct Tpls(Vec<swc_core::common::Span>);
impl Tpls { fn of(p: &Program) -> Tpls { let mut t = Tpls::default(); p.visit_with(&mut t); t } }
impl swc_core::ecma::visit::Visit for Tpls { fn visit_tagged_tpl(&mut self, t: &TaggedTpl) { self.0.push(t.span); t.visit_children_with(self); } }

pub static ALL: Profile = Profile {
    stmts: &[S::Call, S::Expr, S::VarInit, S::VarMulti, S::LetConst, S::IfOnly, S::IfElse, S::IfBare, S::IfBareElse, S::IfElseIf, S::For, S::ForBare, S::ForIn, S::ForOf, S::While, S::DoWhile, S::Switch, S::SwitchFall, S::TryCatch, S::TryFinally, S::Labeled, S::LabeledLoop, S::Throw, S::Block, S::Fn, S::FnDefault, S::FnStrict, S::Class, S::ClassFields, S::ClassOther, S::Return, S::Debugger, S::Str, S::Empty, S::ObjLit, S::ObjOther, S::Two, S::Destruct, S::Async, S::Gen, S::Continue, S::With, S::Import, S::ExportVar, S::ExportFn, S::ExportDefFn, S::ExportDefExpr, S::ExportClass, S::ExportNames],
    exprs: &[E::Call, E::Cond, E::CondParen, E::And, E::Or, E::Nullish, E::And3, E::OrAnd, E::ParenOr, E::AndCallOr, E::Arrow, E::ArrowExpr, E::ArrowDefault, E::Fn, E::FnNamed, E::ObjMethod, E::ClassE, E::Tagged, E::Tpl, E::Arr, E::Not, E::Add, E::Assign, E::LogAssign, E::Seq, E::CallArg, E::Member, E::OptChain, E::New, E::Await, E::Var],
    hints: &["istanbul ignore next", "istanbul ignore if", "istanbul ignore else"],
    module: true,
};

fn opts(report: bool) -> InstrumentOptions { InstrumentOptions { report_logic: report, ..Default::default() } }

pub fn entry_erasure() { shape(&ALL, 2, check_erasure) }
pub fn entry_bijection() { shape(&ALL, 2, check_bijection) }

pub static DIRS: Profile = Profile {
    stmts: &[S::Call, S::Str, S::StrParen, S::Fn2, S::FnStrict, S::Two, S::Class, S::ClassOther, S::ObjLit, S::ObjOther, S::Block, S::Expr, S::VarInit, S::IfElse],
    exprs: &[E::Call, E::Arrow, E::ArrowStrict, E::ArrowExpr, E::Fn, E::ClassE],
    hints: &[], module: true,
};
pub fn entry_directives() { directives(gen(&DIRS, 2, 0, 2)) }
pub fn entry_directives_deep() { directives(gen(&DIRS, 3, 0, 2)) }
pub fn entry_directives_js() { directives(Src::Tpl { t: &JS, ts: false, fuel: 1, hints: 0, strs: true }) }
pub fn entry_directives_ts() { directives(Src::Tpl { t: &TS, ts: true, fuel: 1, hints: 0, strs: true }) }
fn directives(s: Src) {
    warm(true);
    let module = choose(2, "module") == 1;
    let src = s.make();
    ctx(&src);
    let Some(r) = s.transform(&src, module, opts(false), "a.js") else { assume(false); return };
    cover("transformed");
    if !jslib::exec::Dirs::of(&r.orig).at.is_empty() { cover("has directive"); }
    note_bytes(src.as_bytes());
    check_directives(&r);
}

pub fn check_runs(r: &Run, want: Want) { compare(&case(r), want) }
pub const EVERY: [Want; 4] = [Want::Behaviour, Want::Stmts, Want::Funcs, Want::Branches];
pub fn check_all(r: &Run) { check_all_of(gen(&ALL, 0, 0, 0), r) }
pub fn check_all_of(s: Src, r: &Run) {
    check_erasure(r);
    check_bijection(r);
    s.runs(r, &EVERY);
}
/// hints anywhere in the program
fn hinted(p: &'static Profile, fuel: u32, n: u32) { hinted_n(p, fuel, 1, n) }
fn hinted_n(p: &'static Profile, fuel: u32, hints: u32, n: u32) {
    warm(true);
    let module = choose(2, "module") == 1;
    let src = gen_src(p, fuel, hints, n);
    ctx(&src);
    let Some(r) = transform(&src, module, opts(false), "a.js") else { assume(false); return };
    cover("transformed");
    note_bytes(src.as_bytes());
    check_all(&r);
}
/// hints and ignored methods together, one aspect
fn with_hints(p: &'static Profile, fuel: u32, f: fn(&Run)) {
    warm(true);
    let module = choose(2, "module") == 1;
    let k = choose(2, "options");
    let o = InstrumentOptions { report_logic: k == 1, ignore_class_methods: if k == 1 { vec!["m".into(), "g2".into()] } else { vec![] }, ..Default::default() };
    let src = gen_src(p, fuel, 1, 1);
    ctx(&src);
    let Some(r) = transform(&src, module, o, "a.js") else { assume(false); return };
    cover("transformed");
    note_bytes(src.as_bytes());
    f(&r);
}
pub static LOGICH: Profile = Profile {
    stmts: &[S::Call, S::Expr, S::VarInit, S::IfBareElse, S::Class],
    exprs: &[E::Call, E::And, E::Or, E::Nullish, E::And3, E::OrAnd, E::ParenOr, E::AndCallOr, E::Cond, E::ArrowExpr, E::LogAssign, E::ObjMethod],
    hints: &["istanbul ignore next"], module: true,
};
pub fn entry_bijection_arms() { with_hints(&ARMS, 2, check_bijection) }
pub static ARMS: Profile = Profile { stmts: &[S::Call, S::Expr, S::VarInit, S::IfElse, S::IfBareElse, S::IfElseIf, S::Switch, S::Fn, S::Class, S::ExportDefExpr], exprs: &[E::Call, E::And, E::OrAnd, E::Cond, E::ArrowExpr, E::ObjMethod], hints: &["istanbul ignore next", "istanbul ignore else"], module: true };
pub fn entry_bijection_hints() { with_hints(&ALL, 1, check_bijection) }
pub fn entry_behaviour_hints() { with_hints(&ALL, 1, |r| { check_erasure(r); check_runs(r, Want::Behaviour) }) }
pub fn entry_truth_hints() { with_hints(&LOGICH, 2, |r| { check_bijection(r); check_runs(r, Want::Truth) }) }
pub static HALL: Profile = Profile { stmts: ALL.stmts, exprs: ALL.exprs, hints: &["istanbul ignore next", "istanbul ignore if", "istanbul ignore else", "istanbul ignore next */ /* why", "why */ // istanbul ignore next\n /*"], module: true };
pub fn entry_hints() { hinted(&HALL, 1, 2) }
/// a hint anywhere between the tokens of a template
fn hint_between(s: Src, few: bool) {
    const H: [&str; 4] = ["/* istanbul ignore next */ ", "/* istanbul ignore if */ ", "/* istanbul ignore else */ ", "// istanbul ignore next\n"];
    warm(true);
    let module = choose(2, "module") == 1;
    let mut src = s.make();
    let b = src.as_bytes();
    let at: Vec<usize> = (0..b.len()).filter(|i| *i == 0 || b" \n({[;:,".contains(&b[*i - 1]) && !b" \n;)".contains(&b[*i]) && !src[*i..].starts_with("=>")).collect();
    let i = at[choose(at.len() as u64, "place") as usize];
    src.insert_str(i, H[if few { choose(2, "hint") * 2 } else { choose(H.len() as u64, "hint") } as usize]);
    ctx(&src);
    let Some(r) = s.transform(&src, module, opts(false), "a.js") else { assume(false); return };
    cover("transformed");
    note_bytes(src.as_bytes());
    check_all_of(s, &r);
}
/// comments with any text, short, long and beyond ASCII, with and without a hint
pub fn entry_comment_texts() {
    const ODD: [&str; 18] = ["", " ", "é", "ééé", "ääääää", "aääääää", "漢字漢字", "😀😀", "a😀😀😀", "\u{2028}", "@license (c) a", "istanbul", "istanbul ignore", "istanbul ignore nextone", "istanbul ignore next é漢😀", "é istanbul ignore next", "\u{a0}istanbul ignore next", "istanbul ignore file é"];
    const PROG: [&str; 4] = ["f1();\nif (f2()) { f3(); } else { f4(); }\n", "function g() { return f1(); }\nvar a = f2(), b = () => f3();\n", "class K { m() { f1(); } p = f2(); }\n", "export default f1() ? f2() : f3() || f4();\n"];
    warm(true);
    let mut src = String::from(PROG[choose(4, "program") as usize]);
    let b = src.as_bytes();
    let at: Vec<usize> = (0..b.len()).filter(|i| *i == 0 || b" \n({[;:,".contains(&b[*i - 1]) && !b" \n;)".contains(&b[*i]) && !src[*i..].starts_with("=>")).collect();
    let i = at[choose(at.len() as u64, "place") as usize];
    let t = ODD[choose(ODD.len() as u64, "text") as usize];
    let mut c = String::new();
    if choose(2, "line") == 1 { if t == "\u{2028}" { assume(false); } c.push_str("//"); c.push_str(t); c.push('\n'); } else { c.push_str("/*"); c.push_str(t); c.push_str("*/ "); }
    src.insert_str(i, &c);
    ctx(&src);
    let s = js(1);
    let Some(r) = s.transform(&src, true, opts(false), "a.js") else { assume(false); return };
    cover("transformed");
    note_bytes(src.as_bytes());
    if r.out == r.orig && jslib::expect::file_hint(t) { cover("file left alone"); return; }
    check_all_of(s, &r);
}
pub fn entry_hints_js() { hint_between(js(1), true) }
pub fn entry_hints_ts() { hint_between(ts(1), true) }
pub fn entry_hints_js_all() { hint_between(js(1), false) }
pub fn entry_hints_ts_all() { hint_between(ts(1), false) }
pub fn entry_hints_deep() { hinted_n(&HCTRL, 2, 2, 1) }
pub static HCTRL: Profile = Profile {
    stmts: &[S::Call, S::Expr, S::VarInit, S::IfElse, S::IfBareElse, S::Switch, S::Fn, S::Class, S::ExportVar, S::ExportDefExpr],
    exprs: &[E::Call, E::Cond, E::Or, E::Arrow, E::FnNamed],
    hints: &["istanbul ignore next", "istanbul ignore if", "istanbul ignore else"], module: true,
};
/// overwrites one byte of an interned string (its hash is not looked at again)
pub fn poke(a: &str, i: usize, b: u8) { unsafe { *(a.as_ptr() as *mut u8).add(i) = b; } }
/// every comment that is one byte away from a hint
pub fn entry_hint_text() {
    use swc_core::common::comments::Comments;
    warm(true);
    const BASE: [&str; 4] = [" istanbul ignore next ", "istanbul ignore if", " istanbul  ignore else\n", "istanbul ignore next"];
    let mut t = BASE[choose(4, "base") as usize].as_bytes().to_vec();
    let edit = choose(4, "edit");
    let at = choose(t.len() as u64 + 1, "at") as usize;
    match edit {
        0 => if at != 0 { assume(false) },
        1 => { if at == t.len() { assume(false) } t.remove(at.min(t.len() - 1)); }
        2 => t.insert(at, b'?'),
        _ => { if at == t.len() { assume(false) } t[at.min(BASE[0].len() - 1)] = b'?'; }
    }
    let src = "f1();\nif ( f2() ) { f3(); } else { f4(); }\n";
    let cm: Arc<SourceMap> = Default::default();
    let comments = SingleThreadedComments::default();
    let Some(orig) = parse(&cm, &comments, src, true) else { return };
    let text: swc_core::atoms::Atom = unsafe { String::from_utf8_unchecked(t.clone()) }.into();
    if edit >= 2 { let c = u8v("char"); assume(c < 128); poke(&text, at, c); t[at] = c; }
    comments.add_leading(swc_core::common::BytePos(7), swc_core::common::comments::Comment { kind: swc_core::common::comments::CommentKind::Block, span: swc_core::common::DUMMY_SP, text: text.clone() });
    let mut out = orig.clone();
    let mut v = create_coverage_instrumentation_visitor(cm.clone(), comments.clone(), opts(false), "a.js".to_string());
    out.visit_mut_with(&mut v);
    cover("transformed");
    let h = jslib::expect::hint_of(&text);
    if h.is_some() { cover("is a hint"); } else { cover("is not a hint"); }
    let pre = preamble(&out);
    let Some(d) = pre.data.as_ref().and_then(covd) else { fail("coverage object unreadable"); return };
    use jslib::expect::H;
    // f1(); if; f3(); f4()
    let (s, b) = match h { None => (4, 2), Some(H::Next) => (1, 0), Some(H::If) => (3, 1), Some(H::Else) => (3, 1) };
    if native() { println!("comment {:?}: {:?}, {} statements, {:?}", text, h, d.sm.len(), d.bm); }
    check(d.sm.len() == s, || "a comment has an effect that its text does not ask for".into());
    check(d.bm.iter().map(|x| x.locs.len()).sum::<usize>() == b, || "a comment has an effect on branches that its text does not ask for".into());
}
/// `ignore file` at the head of a file leaves everything as it was, any other comment nothing
pub fn entry_hint_file() {
    warm(true);
    const BASE: [&str; 3] = [" istanbul ignore file ", "istanbul ignore file", "* istanbul ignore file"];
    let mut t = BASE[choose(3, "base") as usize].as_bytes().to_vec();
    let edit = choose(3, "edit");
    let at = choose(t.len() as u64 + 1, "at") as usize;
    let n = t.len();
    match edit {
        0 => if at != 0 { assume(false) },
        1 => t.insert(at, b'?'),
        _ => { if at == n { assume(false) } t[at.min(n - 1)] = b'?'; }
    }
    let body = ["f1();\n", "'use strict';\nf1();\n", "import a from 'm';\n", "function g() { f1(); }\n", ""][choose(5, "body") as usize];
    let head = ["", "#!/bin/node\n", "// other\n", "/* other */ "][choose(4, "head") as usize];
    let module = choose(2, "module") == 1;
    if edit > 0 && (!head.is_empty() || !module) { assume(false); }
    let mut src = String::new();
    src.push_str(head); src.push_str("/*"); src.push_str(unsafe { std::str::from_utf8_unchecked(&t) }); src.push_str("*/ "); src.push_str(body);
    ctx(&src);
    let cm: Arc<SourceMap> = Default::default();
    let comments = SingleThreadedComments::default();
    let Some(orig) = parse(&cm, &comments, &src, module) else { assume(false); return };
    let mut text = None;
    {
        let (l, tr) = comments.borrow_all();
        for c in l.values().chain(tr.values()) { for c in c { if c.text.as_bytes() == &t[..] { text = Some(c.text.clone()); } } }
    }
    let Some(text) = text else { fail("HARNESS comment not found"); return };
    if edit > 0 { let c = u8v("char"); assume(c < 128); poke(&text, at, c); }
    let mut out = orig.clone();
    let mut v = create_coverage_instrumentation_visitor(cm.clone(), comments.clone(), opts(false), "a.js".to_string());
    out.visit_mut_with(&mut v);
    cover("transformed");
    let h = jslib::expect::file_hint(&text);
    if h { cover("file ignored"); } else { cover("file not ignored"); }
    if native() { println!("{:?} {} {}", text, h, print(&out)); }
    if h { check(out == orig, || "a file with an ignore file hint was changed".into()); }
    else { check(preamble(&out).decls == 1, || "a comment switches off instrumentation that its text does not ask for".into()); }
}
pub fn entry_hints_nested() { hinted(&HCTRL, 2, 1) }
fn runs(p: &'static Profile, fuel: u32, want: Want) {
    warm(true);
    let report = if want == Want::Truth { true } else { choose(2, "report") == 1 };
    let src = gen_src(p, fuel, 0, 1);
    ctx(&src);
    let Some(r) = transform(&src, p.module, opts(report), "a.js") else { assume(false); return };
    cover("transformed");
    note_bytes(src.as_bytes());
    check_runs(&r, want);
}
pub fn entry_behaviour() { runs(&ALL, 2, Want::Behaviour) }
pub fn entry_stmts() { runs(&ALL, 2, Want::Stmts) }
pub fn entry_funcs() { runs(&ALL, 2, Want::Funcs) }
pub fn entry_branches() { runs(&ALL, 2, Want::Branches) }
pub fn entry_truth() { runs(&ALL, 2, Want::Truth) }
/// fewer constructs, one level deeper
pub static CTRL: Profile = Profile {
    stmts: &[S::Call, S::Expr, S::VarInit, S::IfElse, S::IfBareElse, S::For, S::While, S::Switch, S::TryCatch, S::LabeledLoop, S::FnDefault, S::Throw],
    exprs: &[E::Call, E::Cond, E::And, E::Or, E::Arrow, E::Member],
    hints: &[], module: true,
};
pub static FUNS: Profile = Profile {
    stmts: &[S::Call, S::Expr, S::VarInit, S::VarMulti, S::IfBare, S::Fn, S::FnDefault, S::Class, S::ClassFields, S::ClassOther, S::ObjOther, S::Destruct, S::Return, S::Async],
    exprs: &[E::Call, E::Arrow, E::ArrowExpr, E::ArrowDefault, E::FnNamed, E::ObjMethod, E::ClassE, E::Or, E::Tagged],
    hints: &[], module: true,
};
fn shape(p: &'static Profile, fuel: u32, f: fn(&Run)) {
    warm(true);
    let report = choose(2, "report") == 1;
    let src = gen_src(p, fuel, 0, 1);
    ctx(&src);
    let Some(r) = transform(&src, p.module, opts(report), "a.js") else { assume(false); return };
    cover("transformed");
    note_bytes(src.as_bytes());
    f(&r);
}
macro_rules! deep { ($($n:ident $p:ident $w:ident),*) => { $( pub fn $n() { runs(&$p, 3, Want::$w) } )* } }
deep!(entry_behaviour_ctrl CTRL Behaviour, entry_behaviour_funs FUNS Behaviour, entry_stmts_ctrl CTRL Stmts, entry_stmts_funs FUNS Stmts, entry_funcs_ctrl CTRL Funcs, entry_funcs_funs FUNS Funcs, entry_branches_ctrl CTRL Branches, entry_branches_funs FUNS Branches, entry_truth_ctrl CTRL Truth, entry_truth_funs FUNS Truth);
pub fn entry_erasure_deep() { shape(&ALL, 3, check_erasure) }
pub fn entry_bijection_deep() { shape(&ALL, 3, check_bijection) }
/// native debugging aid
pub fn show(src: &str, report: bool, module: bool) {
    let Some(r) = transform_as(src, module, src.contains("/*ts*/"), opts(report), "a.js") else { println!("does not parse"); return };
    check_erasure(&r);
    check_bijection(&r);
    check_directives(&r);
    for w in [Want::Behaviour, Want::Stmts, Want::Funcs, Want::Branches, Want::Truth] { check_runs(&r, w); }
}

/// native: instrument a file and print only the result
pub fn emit(file: &str, report: bool, methods: &[String]) {
    let src = std::fs::read_to_string(file).unwrap();
    let mut o = opts(report);
    o.ignore_class_methods = methods.to_vec();
    let cm: Arc<SourceMap> = Default::default();
    let comments = SingleThreadedComments::default();
    let Some(mut out) = parse(&cm, &comments, &src, true).or_else(|| parse(&cm, &comments, &src, false)) else { println!("PARSE-ERROR"); std::process::exit(3) };
    let mut v = create_coverage_instrumentation_visitor(cm.clone(), comments.clone(), o, "a.js".to_string());
    out.visit_mut_with(&mut v);
    println!("{}", print_safe(&out));
}
