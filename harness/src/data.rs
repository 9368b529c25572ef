//! C09 (the literal states the data), C13 (ignoreClassMethods), C14 (ranges), C22 (history)
use crate::tx::*;
use jslib::covdata::*;
use jslib::gen::*;
use jslib::parse::*;
use std::sync::Arc;
use swc_core::common::comments::SingleThreadedComments;
use swc_core::common::*;
use swc_core::ecma::ast::*;
use swc_core::ecma::visit::{VisitMut, VisitMutWith};
use swc_coverage_instrument::{create_coverage_instrumentation_visitor, InstrumentOptions, SourceMap};
use symx_rt::*;

// ---------------------------------------------------------------------------------------- C13
pub static METH: Profile = Profile {
    stmts: &[S::Call, S::Expr, S::Fn, S::Class, S::ClassOther, S::ClassFields, S::ObjLit, S::ObjOther, S::ExportClass, S::VarInit, S::IfElse],
    exprs: &[E::Call, E::FnNamed, E::Fn, E::ObjMethod, E::ClassE, E::Arrow, E::Or],
    hints: &[], module: true,
};
/// a list of names, the first with one character left open
fn methods(fuel: u32, lists: u64) { methods_of(gen(&METH, fuel, 0, 1), lists) }
pub fn entry_methods_js() { methods_of(js(1), 3) }
pub fn entry_methods_ts() { methods_of(ts(1), 3) }
pub fn entry_methods_js2() { methods_of(js(2), 1) }
fn methods_of(s: Src, lists: u64) {
    warm(true);
    let mut list: Vec<String> = vec![];
    match choose(lists, "list") {
        0 => list.push(any_char("?", 0)),
        1 => { list.push("m".into()); list.push("g1".into()); }
        2 => { list.push("q".into()); list.push("p".into()); list.push("constructor".into()); }
        3 => list.push(any_char("g?", 1)),
        4 => {}
        5 => list.push("constructor".into()),
        6 => list.push(any_char("constructo?", 10)),
        7 => list.push(any_char("m?", 1)),
        8 => { list.push(any_char("?", 0)); list.push(any_char("?", 0)); }
        _ => list.push("".into()),
    }
    let report = choose(2, "report") == 1;
    let o = InstrumentOptions { ignore_class_methods: list, report_logic: report, ..Default::default() };
    let src = s.make();
    ctx(&format!("{} without {:?}", src, o.ignore_class_methods));
    let Some(r) = s.transform(&src, true, o, "a.js") else { assume(false); return };
    cover("transformed");
    note_bytes(src.as_bytes());
    check_all_of(s, &r);
}
pub fn entry_methods() { methods(1, 4) }
pub fn entry_methods_lists() { methods(1, 10) }
pub fn entry_methods_nested() { methods(2, 4) }
pub fn entry_methods_any() { methods(2, 1) }
/// `pat` with any ASCII byte at `at`
fn any_char(pat: &str, at: usize) -> String {
    let c = u8v("char");
    assume(c < 0x80);
    let mut b = pat.as_bytes().to_vec();
    b[at] = c;
    unsafe { String::from_utf8_unchecked(b) }
}

// ---------------------------------------------------------------------------------------- C22
fn same(a: &Run, b: &Run) -> bool { a.out == b.out && { let (x, y) = (a.comments.borrow_all(), b.comments.borrow_all()); *x.0 == *y.0 && *x.1 == *y.1 } }
static REP: Profile = Profile { stmts: ALL.stmts, exprs: ALL.exprs, hints: &["istanbul ignore next", "istanbul ignore else"], module: true };
pub fn entry_repeat() { repeat(gen(&REP, 1, 1, 1)) }
pub fn entry_repeat_js() { repeat(js(1)) }
pub fn entry_repeat_ts() { repeat(ts(1)) }
fn repeat(s: Src) {
    let first = choose(2, "first in the process") == 1;
    if !first { warm(true); }
    let o = InstrumentOptions { report_logic: choose(2, "report") == 1, debug_initial_coverage_comment: true, ..Default::default() };
    let src = if first { ["f1() || f2();\n", "function g1() { f2(); }\n", "class K { m() { return f1() ? 1 : 2; } }\n"][choose(3, "src") as usize].to_string() } else { s.make() };
    ctx(&src);
    let t = |src: &str, module: bool, o: InstrumentOptions, file: &str| GLOBALS.set(&Globals::new(), || s.transform(src, module, o, file));
    let Some(a) = t(&src, true, o.clone(), "a.js") else { assume(false); return };
    let other = choose(6, "other");
    let (s2, o2, f2, module) = match other {
        0 => ("f1() && f2();\n", InstrumentOptions { report_logic: true, ..o.clone() }, "b.js", true),
        1 => ("/* istanbul ignore next */ function g() { f1(); }\n", InstrumentOptions { coverage_variable: "other".into(), ..o.clone() }, "a.js", false),
        2 => ("/* istanbul ignore file */ f1();\n", o.clone(), "a.js", true),
        3 => ("class K { m() { f1(); } constructor() { f2(); } }\n", InstrumentOptions { ignore_class_methods: vec!["m".into()], input_source_map: Some(SourceMap::default()), ..o.clone() }, "c.js", true),
        4 => ("'use strict'; x ? f1() : f2(); switch (f3()) { case 1: f4(); }\n", InstrumentOptions { compact: true, debug_initial_coverage_comment: false, ..o.clone() }, "a.js", false),
        _ => ("", o.clone(), "", true),
    };
    t(s2, module, o2, f2);
    let Some(b) = t(&src, true, o.clone(), "a.js") else { assume(false); return };
    cover("transformed");
    note_bytes(src.as_bytes());
    check(same(&a, &b), || "the same file is instrumented differently after another".into());
    let (x, y) = (print_safe(&a.out), print_safe(&b.out));
    check(x == y, || "the same file is printed differently after another".into());
}

// ---------------------------------------------------------------------------------------- C09
fn json(v: &serde_json::Value) -> J {
    use serde_json::Value as V;
    match v {
        V::Null => J::Null, V::Bool(b) => J::Bool(*b), V::Number(n) => J::Num(n.as_f64().unwrap_or(f64::NAN)), V::String(s) => J::Str(s.clone()),
        V::Array(a) => J::Arr(a.iter().map(json).collect()), V::Object(o) => J::Obj(o.iter().map(|(k, v)| (k.clone(), json(v))).collect()),
    }
}
/// equal up to the order of keys
fn eqj(a: &J, b: &J) -> bool {
    match (a, b) {
        (J::Obj(x), J::Obj(y)) => x.len() == y.len() && x.iter().all(|(k, v)| x.iter().filter(|z| z.0 == *k).count() == 1 && b.get(k).map_or(false, |w| eqj(v, w))),
        (J::Arr(x), J::Arr(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| eqj(p, q)),
        (J::Other, _) | (_, J::Other) => false,
        _ => a == b,
    }
}
fn map_json(m: &SourceMap) -> J {
    let s = |x: &String| J::Str(x.clone());
    let mut o = vec![("version".to_string(), J::Num(m.version as f64))];
    if let Some(f) = &m.file { o.push(("file".into(), s(f))); }
    if let Some(f) = &m.source_root { o.push(("sourceRoot".into(), s(f))); }
    o.push(("sources".into(), J::Arr(m.sources.iter().map(s).collect())));
    if let Some(c) = &m.sources_content { o.push(("sourcesContent".into(), J::Arr(c.iter().map(|x| x.as_ref().map_or(J::Null, s)).collect()))); }
    o.push(("names".into(), J::Arr(m.names.iter().map(s).collect())));
    o.push(("mappings".into(), s(&m.mappings)));
    J::Obj(o)
}
/// the literal, without what it has beyond the data
fn literal(r: &Run) -> Option<J> {
    let p = preamble(&r.out);
    let Some(J::Obj(o)) = p.data else { fail("coverage object unreadable"); return None };
    let get = |k: &str| o.iter().filter(|x| x.0 == k).map(|x| x.1.clone()).collect::<Vec<_>>();
    let h = get("hash");
    check(h.len() == 1 && h[0].str().is_some() && h[0].str() == p.hash.as_deref(), || "the hash in the coverage object is not the one of the coverage function".into());
    check(get("_coverageSchema") == [J::Str("11020577277169172593".into())], || "the schema mark of the coverage object is missing".into());
    Some(J::Obj(o.into_iter().filter(|x| x.0 != "hash" && x.0 != "_coverageSchema").collect()))
}
fn comment_json(r: &Run) -> Option<J> {
    let all = r.comments.borrow_all();
    let mut found = vec![];
    for c in all.0.values().chain(all.1.values()) { for c in c { if let Some(t) = c.text.strip_prefix("__coverage_data_json_comment__::") { found.push(t.to_string()); } } }
    check(found.len() == 1, || "not exactly one comment with the initial coverage data".into());
    let t = found.first()?;
    if native() { println!("COMMENT {}", t); }
    match serde_json::from_str::<serde_json::Value>(t) { Ok(v) => Some(json(&v)), Err(_) => { fail("the comment with the coverage data is not JSON"); None } }
}
fn some_map() -> SourceMap {
    SourceMap {
        version: [3, 0, u32::MAX][choose(3, "version") as usize],
        file: if choose(2, "file") == 1 { Some("o\"\\.js".into()) } else { None },
        source_root: match choose(3, "root") { 0 => None, 1 => Some("".into()), _ => Some("\u{2028}\n".into()) },
        sources: [vec![], vec!["i.ts".to_string()], vec!["i.ts".into(), "\u{e4}'.ts".into()]][choose(3, "sources") as usize].clone(),
        sources_content: match choose(4, "content") { 0 => None, 1 => Some(vec![]), 2 => Some(vec![None]), _ => Some(vec![Some("a\n\"\\".into()), None]) },
        names: if choose(2, "names") == 1 { vec!["n".into(), "\"".into()] } else { vec![] },
        mappings: if choose(2, "mappings") == 1 { "AAAA;CAAC".into() } else { "".into() },
    }
}
fn check_literal(r: &Run) {
    let (Some(a), Some(b)) = (literal(r), comment_json(r)) else { return };
    if native() && !eqj(&a, &b) { println!("LITERAL {:?}\nJSON    {:?}", a, b); }
    check(eqj(&a, &b), || "the coverage object in the output differs from the coverage data".into());
    match &r.opts.input_source_map {
        None => { check(a.get("inputSourceMap").is_none(), || "an input source map out of nothing".into()); }
        Some(m) => { check(a.get("inputSourceMap").map_or(false, |x| eqj(x, &map_json(m))), || "the input source map in the coverage object differs from the one given".into()); }
    }
    check(a.get("path").and_then(|p| p.str()) == Some(&r.file[..]), || "the path in the coverage object differs from the file name".into());
    check(a.get("all") == Some(&J::Bool(false)), || "an instrumented file is marked as not loaded".into());
    check(a.get("bT").is_some() == r.opts.report_logic || !r.opts.report_logic, || "no truthiness data although asked for".into());
}
/// every combination of the parts of an input source map, and odd file names
pub fn entry_literal_map() { GLOBALS.set(&Globals::new(), literal_map) }
fn literal_map() {
    warm(true);
    let m = if choose(2, "map") == 1 { Some(some_map()) } else { None };
    let file = if m.is_some() { "a.js" } else { ["a.js", "", "a\"b\\c.js", "a\u{2028}\n\u{1F600}.js", "C:\\x\\y.js", "</script>.js"][choose(6, "file") as usize] };
    let o = InstrumentOptions { report_logic: choose(2, "report") == 1, debug_initial_coverage_comment: true, input_source_map: m, ..Default::default() };
    ctx(&format!("{:?} {:?}", file, o.input_source_map));
    let Some(r) = transform("f1() || f2();\n", true, o, file) else { assume(false); return };
    cover("transformed");
    check_literal(&r);
}
/// every program
pub fn entry_literal() { GLOBALS.set(&Globals::new(), || literal_program(gen(&ALL, 1, 0, 2))) }
pub fn entry_literal_js() { GLOBALS.set(&Globals::new(), || literal_program(js(1))) }
pub fn entry_literal_ts() { GLOBALS.set(&Globals::new(), || literal_program(ts(1))) }
pub fn entry_literal_deep() { GLOBALS.set(&Globals::new(), || literal_program(gen(&ALL, 2, 0, 1))) }
fn literal_program(s: Src) {
    warm(true);
    let o = InstrumentOptions { report_logic: choose(2, "report") == 1, debug_initial_coverage_comment: true, ..Default::default() };
    let src = s.make();
    ctx(&src);
    let Some(r) = s.transform(&src, true, o, "a.js") else { assume(false); return };
    cover("transformed");
    note_bytes(src.as_bytes());
    check_literal(&r);
}
/// any character in any string, any version
pub fn entry_literal_values() {
    warm(true);
    mask_hash(true);
    let mut m = SourceMap { version: 3, file: Some("f".into()), source_root: Some("r".into()), sources: vec!["s".into()], sources_content: Some(vec![Some("c".into()), None]), names: vec!["n".into()], mappings: "m".into() };
    let what = choose(9, "what");
    let mut file = "p.js".to_string();
    let mut name = None;
    match what {
        0 => file = any_char("a?z", 1),
        1 => m.file = Some(any_char("a?z", 1)),
        2 => m.source_root = Some(any_char("?", 0)),
        3 => m.sources = vec!["x".into(), any_char("?z", 0)],
        4 => m.sources_content = Some(vec![None, Some(any_char("a?", 1))]),
        5 => m.names = vec![any_char("a?z", 1)],
        6 => m.mappings = any_char("a?", 1),
        7 => { let d = choose(10, "digits") as u32; let v = u32v("version"); assume((d == 0 || v >= 10u32.pow(d)) && (d == 9 || v < 10u32.pow(d + 1))); m.version = v; }
        _ => { let c = u8v("char"); assume(c.is_ascii_alphanumeric() || c == b'_' || c == b'$'); name = Some(c); }
    }
    let o = InstrumentOptions { input_source_map: Some(m), ..Default::default() };
    ctx(&format!("case {}", what));
    let cm: Arc<SourceMapAlias> = Default::default();
    let comments = SingleThreadedComments::default();
    let src = "function gQ() { f1(); }\n";
    let Some(mut orig) = parse(&cm, &comments, src, true) else { return };
    if let (Some(c), Program::Module(x)) = (name, &mut orig) { if let ModuleItem::Stmt(Stmt::Decl(Decl::Fn(f))) = &mut x.body[0] {
        // short atoms hold their bytes inline
        let a = &mut f.ident.sym;
        let at = a.as_ptr() as usize - a as *const _ as usize;
        unsafe { (a as *mut _ as *mut u8).add(at + 1).write_volatile(c); }
    } }
    let mut out = orig.clone();
    let mut v = create_coverage_instrumentation_visitor(cm.clone(), comments.clone(), o.clone(), file.clone());
    out.visit_mut_with(&mut v);
    if native() { println!("{}", print(&out)); }
    cover("transformed");
    let r = Run { src: src.into(), orig, out, comments, opts: o, file };
    let Some(a) = literal(&r) else { return };
    check(a.get("inputSourceMap").map_or(false, |x| eqj(x, &map_json(r.opts.input_source_map.as_ref().unwrap()))), || "the input source map in the coverage object differs from the one given".into());
    check(a.get("path").and_then(|p| p.str()) == Some(&r.file[..]), || "the path in the coverage object differs from the file name".into());
    check(preamble(&r.out).path.as_deref() == Some(&r.file[..]), || "the path in the coverage function differs from the file name".into());
    if let Some(c) = name {
        let n = a.get("fnMap").and_then(|f| f.get("0")).and_then(|f| f.get("name")).and_then(|n| n.str()).unwrap_or("").as_bytes().to_vec();
        check(n.len() == 2 && n[0] == b'g' && n[1] == c, || "the function name in the coverage object differs from the name in the program".into());
    }
}
pub type SourceMapAlias = swc_core::common::SourceMap;
/// equal data have equal hashes, data that differ have different ones
pub fn entry_hash() {
    warm(true);
    let o = InstrumentOptions { report_logic: choose(2, "report") == 1, ..Default::default() };
    let src = gen_src(&ALL, 1, 0, 1);
    ctx(&src);
    let Some(r) = transform(&src, true, o.clone(), "a.js") else { assume(false); return };
    cover("transformed");
    let how = choose(6, "variant");
    // the same constructs at the same places, other names
    let (s2, o2, f2) = match how {
        0 => { let mut b = src.clone().into_bytes(); for i in 0..b.len() - 1 { if b[i] == b'f' && b[i + 1].is_ascii_digit() && (i == 0 || !b[i - 1].is_ascii_alphanumeric()) { b[i] = b'e'; } } (String::from_utf8(b).unwrap(), o.clone(), "a.js") }
        1 => (src.clone(), InstrumentOptions { coverage_variable: "other".into(), compact: true, ..o.clone() }, "a.js"),
        2 => (src.clone(), o.clone(), "b.js"),
        3 => (format!("{} f9();", src), o.clone(), "a.js"),
        4 => (format!("\n{}", src), o.clone(), "a.js"),
        _ => (src.clone(), InstrumentOptions { input_source_map: Some(SourceMap::default()), ..o.clone() }, "a.js"),
    };
    let Some(q) = transform(&s2, true, o2, f2) else { assume(false); return };
    let (Some(a), Some(b)) = (literal(&r), literal(&q)) else { return };
    let eq = eqj(&a, &b);
    if eq { cover("equal data"); } else { cover("different data"); }
    let (h, k) = (preamble(&r.out).hash, preamble(&q.out).hash);
    check(!eq || h == k, || "equal coverage data have different hashes".into());
    check(eq || h != k, || "different coverage data have the same hash".into());
}

// ---------------------------------------------------------------------------------------- C14
/// answers for one position with open numbers, for every other with numbers particular to it
struct Stub { cm: Arc<SourceMapAlias>, at: u32, line: u32, col: u32 }
fn line_at(p: u32) -> u32 { 1000 + 2 * p }
fn col_at(p: u32) -> u32 { 5001 + 2 * p }
impl SourceMapper for Stub {
    fn lookup_char_pos(&self, pos: BytePos) -> Loc {
        if pos.is_dummy() { fail("a dummy position is looked up"); }
        let mut l = self.cm.lookup_char_pos(BytePos(1));
        if pos.0 == self.at { l.line = self.line as usize; l.col = CharPos(self.col as usize); } else { l.line = line_at(pos.0) as usize; l.col = CharPos(col_at(pos.0) as usize); }
        l.col_display = 77;
        l
    }
    fn span_to_lines(&self, sp: Span) -> swc_core::common::source_map::FileLinesResult { self.cm.span_to_lines(sp) }
    fn span_to_string(&self, sp: Span) -> String { self.cm.span_to_string(sp) }
    fn span_to_filename(&self, sp: Span) -> sync::Lrc<FileName> { self.cm.span_to_filename(sp) }
    fn merge_spans(&self, a: Span, b: Span) -> Option<Span> { self.cm.merge_spans(a, b) }
    fn call_span_if_macro(&self, sp: Span) -> Span { self.cm.call_span_if_macro(sp) }
    fn doctest_offset_line(&self, line: usize) -> usize { self.cm.doctest_offset_line(line) }
    fn span_to_snippet(&self, sp: Span) -> Result<String, Box<SpanSnippetError>> { self.cm.span_to_snippet(sp) }
}
fn stubbed(cm: &Arc<SourceMapAlias>, comments: &SingleThreadedComments, p: &Program, at: u32, line: u32, col: u32, report: bool) -> Option<CovD> {
    let mut out = p.clone();
    let o = InstrumentOptions { report_logic: report, ..Default::default() };
    let mut v = create_coverage_instrumentation_visitor(Arc::new(Stub { cm: cm.clone(), at, line, col }), comments.clone(), o, "a.js".to_string());
    out.visit_mut_with(&mut v);
    if native() { println!("{}", print(&out)); }
    let d = preamble(&out).data.as_ref().and_then(covd);
    if d.is_none() { fail("coverage object unreadable"); }
    d
}
/// the ranges of the data: ((kind, id, part), range)
fn ranges(d: &CovD) -> Vec<((u8, u32, u32), [u32; 4])> {
    let mut v = vec![];
    for (i, r) in &d.sm { v.push(((b's', *i, 0), *r)); }
    for f in &d.fm { v.push(((b'f', f.id, 0), f.decl)); v.push(((b'f', f.id, 1), f.loc)); v.push(((b'f', f.id, 2), [f.line, 0, 0, 0])); }
    for b in &d.bm { v.push(((b'b', b.id, 0), b.loc.unwrap_or([9, 9, 9, 9]))); v.push(((b'b', b.id, 1), [b.line.unwrap_or(0), 0, 0, 0])); for (i, r) in b.locs.iter().enumerate() { v.push(((b'b', b.id, 2 + i as u32), *r)); } }
    v
}
/// byte positions of the ranges under the fixed answers; `line` fields have one
fn positions(r: &[u32; 4], line: bool) -> Option<[u32; 2]> {
    let p = |l: u32| if l >= 1002 && l % 2 == 0 { Some((l - 1000) / 2) } else { None };
    if line { return Some([p(r[0])?, 0]); }
    let (a, b) = (p(r[0])?, p(r[2])?);
    if r[1] != col_at(a) || r[3] != col_at(b) { return None; }
    Some([a, b])
}
fn is_line(k: &(u8, u32, u32)) -> bool { (k.0 == b'f' && k.2 == 2) || (k.0 == b'b' && k.2 == 1) }
fn ranged(s: Src, rot: u32) {
    warm(true);
    let report = false;
    let src = s.make();
    ctx(&src);
    let cm: Arc<SourceMapAlias> = Default::default();
    let comments = SingleThreadedComments::default();
    let Some(orig) = parse_with(&cm, &comments, &src, true, s.syntax()) else { assume(false); return };
    let Some(d0) = stubbed(&cm, &comments, &orig, 0, 0, 0, report) else { return };
    let r0 = ranges(&d0);
    let mut pos: Vec<u32> = vec![];
    let mut all = vec![];
    for (k, r) in &r0 {
        let Some(p) = positions(r, is_line(k)) else { fail("a range mixes up start and end or line and column of its positions"); return };
        for x in p { if x != 0 && !pos.contains(&x) { pos.push(x); } }
        all.push((*k, p));
    }
    if pos.is_empty() { cover("no range"); return; }
    pos.sort();
    let at = pos[choose(pos.len() as u64, "position") as usize];
    mask_hash(true);
    let d = match s { Src::Gen { .. } => choose(7, "digits") as u32, _ => [0, 4, 6][choose(3, "digits") as usize] };
    let num = |what: &str, d: u32| { let v = u32v(what); assume((d == 0 || v >= 10u32.pow(d)) && v < 10u32.pow(d + 1)); v };
    let (line, col) = (num("line", d), num("column", (d + rot) % 7));
    ctx(&format!("{} at byte {}", src, at));
    let Some(d1) = stubbed(&cm, &comments, &orig, at, line, col, report) else { return };
    cover("looked up");
    note_bytes(src.as_bytes());
    let r1 = ranges(&d1);
    if !check(r1.len() == all.len() && r1.iter().zip(&all).all(|(a, b)| a.0 == b.0), || "the entries depend on the positions".into()) { return; }
    for ((k, r), (_, p)) in r1.iter().zip(&all) {
        let l = |x: u32| if x == at { line } else { line_at(x) };
        let c = |x: u32| if x == at { col } else { col_at(x) };
        if is_line(k) { check(r[0] == l(p[0]), || "the line of an entry is not the one the source map gives".into()); }
        else { check((r[0] == l(p[0])) & (r[1] == c(p[0])) & (r[2] == l(p[1])) & (r[3] == c(p[1])), || "a range is not the one the source map gives".into()); }
    }
}
pub fn entry_ranges() { ranged(gen(&ALL, 1, 0, 1), 3) }
pub fn entry_ranges_deep() { ranged(gen(&CTRL, 2, 0, 1), 5) }
pub fn entry_ranges_js() { ranged(js(1), 2) }
pub fn entry_ranges_ts() { ranged(ts(1), 4) }
struct Blank(u32, bool);
impl VisitMut for Blank { fn visit_mut_span(&mut self, s: &mut Span) { if if self.1 { s.lo.0 == self.0 } else { s.hi.0 == self.0 } { *s = DUMMY_SP; } } }
/// nodes without a source position
pub fn entry_dummy() { dummy(gen(&ALL, 1, 0, 1)) }
pub fn entry_dummy_js() { dummy(js(1)) }
pub fn entry_dummy_ts() { dummy(ts(1)) }
fn dummy(s: Src) {
    warm(true);
    let src = s.make();
    let cm: Arc<SourceMapAlias> = Default::default();
    let comments = SingleThreadedComments::default();
    let Some(orig) = parse_with(&cm, &comments, &src, true, s.syntax()) else { assume(false); return };
    let at = choose(src.len() as u64 + 2, "position") as u32;
    if at > 0 && at <= src.len() as u32 { let b = src.as_bytes()[at as usize - 1]; if b == b' ' { assume(false); } }
    let lo = choose(2, "start") == 1;
    ctx(&format!("{} without the nodes that {} at byte {}", src, if lo { "start" } else { "end" }, at));
    let Some(d0) = stubbed(&cm, &comments, &orig, 0, 0, 0, false) else { return };
    let mut blank = orig.clone();
    blank.visit_mut_with(&mut Blank(at, lo));
    if blank == orig { assume(false); }
    let Some(d1) = stubbed(&cm, &comments, &blank, 0, 0, 0, false) else { return };
    cover("without positions");
    note_bytes(src.as_bytes());
    let (r0, r1) = (ranges(&d0), ranges(&d1));
    if !check(r0.len() == r1.len() && r0.iter().zip(&r1).all(|(a, b)| a.0 == b.0), || "a construct without position has no entry".into()) { return; }
    for ((k, a), (_, b)) in r0.iter().zip(&r1) {
        let hit = |l: u32| (l.wrapping_sub(1000)) / 2 == at;
        let empty = if is_line(k) { a == b || b[0] == 0 } else if lo && hit(a[0]) || !lo && hit(a[2]) { *b == [0; 4] } else { a == b };
        if native() && !empty { println!("{:?} {:?} {:?}", k, a, b); }
        check(empty, || "the range of a construct without position is not the empty range".into());
    }
}
