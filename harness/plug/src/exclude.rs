//! C11: which files are left alone. Everything goes through `process`; whether a name matches is
//! decided by a small matcher of this file on the parts of name and pattern.
use crate::plugin::process;
use std::sync::Arc;
use swc_core::common::{comments::SingleThreadedComments, Globals, Mark, SourceMap, GLOBALS};
use swc_core::ecma::ast::Program;
use swc_core::ecma::visit::VisitMutWith;
use swc_core::plugin::proxies::*;
use swc_coverage_instrument::{create_coverage_instrumentation_visitor, InstrumentOptions};
use symx_rt::*;

pub struct Out { pub orig: Program, pub out: Program, cm: Arc<SourceMap>, orig_comments: SingleThreadedComments, pub comments: SingleThreadedComments }
impl Out {
    /// what the instrumentation gives for these options and this name
    pub fn expected(&self, o: InstrumentOptions, file: &str) -> (Program, SingleThreadedComments) {
        let c = copy(&self.orig_comments);
        let mut p = self.orig.clone();
        GLOBALS.set(&Globals::new(), || p.visit_mut_with(&mut create_coverage_instrumentation_visitor(self.cm.clone(), c.clone(), o, file.to_string())));
        (p, c)
    }
    pub fn is(&self, e: &(Program, SingleThreadedComments)) -> bool { self.out == e.0 && same(&self.comments, &e.1) }
    pub fn untouched(&self) -> bool { self.out == self.orig && same(&self.comments, &self.orig_comments) }
}
fn copy(c: &SingleThreadedComments) -> SingleThreadedComments {
    let (l, t) = c.borrow_all();
    SingleThreadedComments::from_leading_and_trailing(std::rc::Rc::new(std::cell::RefCell::new(l.clone())), std::rc::Rc::new(std::cell::RefCell::new(t.clone())))
}
fn same(a: &SingleThreadedComments, b: &SingleThreadedComments) -> bool { let (x, y) = (a.borrow_all(), b.borrow_all()); *x.0 == *y.0 && *x.1 == *y.1 }

pub fn run(src: &str, file: Option<&str>, config: Option<&str>) -> Out {
    let cm: Arc<SourceMap> = Default::default();
    let comments = SingleThreadedComments::default();
    let orig = jslib::parse::parse(&cm, &comments, src, true).unwrap();
    let oc = copy(&comments);
    let meta = TransformPluginProgramMetadata { comments: Some(comments.clone()), source_map: PluginSourceMapProxy(cm.clone()), unresolved_mark: Mark::root(), filename: file.map(|x| x.into()), config: config.map(|x| x.into()) };
    let out = GLOBALS.set(&Globals::new(), || process(orig.clone(), meta));
    if native() { println!("FILE {:?} CONFIG {:?}\n{}", file, config, jslib::parse::print(&out)); }
    Out { orig, out, cm, orig_comments: oc, comments }
}

// ---- the oracle --------------------------------------------------------------------------------
fn sep(c: u8) -> bool { c == b'/' || c == b'\\' }
/// rooted?, parts; None: outside (UNC and device names, drive-relative names)
fn parts(s: &[u8]) -> Option<(bool, Vec<Vec<u8>>)> {
    if s.len() >= 2 && is(sep(s[0])) && is(sep(s[1])) { return None; }
    let mut s = s;
    let mut win = false;
    if s.len() >= 2 && is(s[1] == b':') && is(s[0].is_ascii_alphabetic()) {
        if s.len() < 3 || !is(sep(s[2])) { return None; }
        s = &s[2..];
        win = true;
    }
    if !s.is_empty() && is(s[0] == b'\\') { win = true; }
    let root = !s.is_empty() && is(sep(s[0]));
    let mut v = vec![vec![]];
    for &c in &s[root as usize..] { if is(sep(c)) { v.push(vec![]) } else { v.last_mut().unwrap().push(c) } }
    // `//` and `/./` in a name of another system: either reading is fine
    let odd = v.iter().enumerate().any(|(i, p)| (p.is_empty() && !(i == 0 && v.len() == 1)) || (p.len() == 1 && is(p[0] == b'.')));
    if odd && win { return None; }
    Some((root, v))
}
/// one part against one part of a pattern: `*` `?` and literals
fn part(p: &[u8], s: &[u8]) -> bool {
    match p.first() {
        None => s.is_empty(),
        Some(b'*') => (0..=s.len()).any(|i| part(&p[1..], &s[i..])),
        Some(b'?') => !s.is_empty() && part(&p[1..], &s[1..]),
        Some(c) => !s.is_empty() && is(s[0] == *c) && part(&p[1..], &s[1..]),
    }
}
fn tree(p: &[&str], s: &[Vec<u8>]) -> bool {
    match p.first() {
        None => s.is_empty(),
        Some(&"**") => (0..=s.len()).any(|i| tree(&p[1..], &s[i..])),
        Some(x) => !s.is_empty() && part(x.as_bytes(), &s[0]) && tree(&p[1..], &s[1..]),
    }
}
/// pattern: in forward-slash form without drive
fn matches(p: &str, n: &(bool, Vec<Vec<u8>>)) -> bool {
    let root = p.starts_with('/');
    let v: Vec<&str> = p[root as usize..].split('/').collect();
    if v[0] == "**" && !root { return tree(&v, &n.1); }
    root == n.0 && tree(&v, &n.1)
}

/// patterns as configured, and the forward-slash form they stand for (a `!`: cannot be parsed)
static SETS: &[&[(&str, &str)]] = &[
    &[("a/b", "a/b")],
    &[("a\\b", "a/b")],
    &[("**/a", "**/a")],
    &[("**\\a", "**/a")],
    &[("a/**", "a/**")],
    &[("a\\**", "a/**")],
    &[("?/*", "?/*")],
    &[("a*", "a*")],
    &[("/a/*", "/a/*")],
    &[("C:\\a\\*", "/a/*")],
    &[("\\a\\*", "/a/*")],
    &[("c:/a/*", "/a/*")],
    &[("**/*.a", "**/*.a")],
    &[("a/b", "a/b"), ("**/c", "**/c")],
    &[("x", "x"), ("a/?", "a/?"), ("b\\*", "b/*")],
    &[],
    &[("[", "!")],
    &[("a", "a"), ("a/***", "!")],
    &[("**/{a,b}", "**/a|**/b")],
];
fn name(kind: u64, n: u64) -> String {
    let (pre, post): (&str, &str) = [("", ""), ("C:", ""), ("a", ""), ("/a", ""), ("\\a", ""), ("", "a"), ("a", "b"), ("b/", ".a"), ("", "\\b")][kind as usize];
    let mut s = pre.as_bytes().to_vec();
    for _ in 0..n { let c = u8v("char"); assume(c < 0x80 && c >= 0x20); s.push(c); }
    s.extend(post.as_bytes());
    String::from_utf8(s).unwrap()
}
/// tables built on first use are shared by all paths
pub fn warm() { run("/* istanbul ignore next */ a;", Some("b"), Some("{\"unstableExclude\":[\"a/b\"]}")); }
fn exclude(sets: u64, kinds: u64, max: u64) {
    mask_hash(true);
    warm();
    let set = SETS[choose(sets, "patterns") as usize];
    let other = set.len() % 2 == 1;
    let kind = choose(kinds, "kind");
    let s = name(kind, choose(max, "length") + 1);
    let cfg = format!("{{{}\"unstableExclude\":{}{}}}", if other { "\"reportLogic\":true," } else { "" }, serde_json::to_string(&set.iter().map(|x| x.0).collect::<Vec<_>>()).unwrap(), if other { ",\"compact\":true" } else { "" });
    ctx(&format!("{:?} with {}", s, cfg));
    let r = run("a || b;", Some(&s), Some(&cfg));
    let Some(n) = parts(s.as_bytes()) else { return };
    cover("ran");
    let bad = set.iter().any(|x| x.1 == "!");
    let hit = set.iter().any(|x| x.1 != "!" && x.1.split('|').any(|p| matches(p, &n)));
    if hit && bad { return; }
    if hit { cover("left alone"); check(r.untouched(), || "a file whose name matches an exclude pattern is changed".into()); }
    else {
        let o = InstrumentOptions { report_logic: other, compact: other, ..Default::default() };
        check(!r.untouched(), || "a file whose name matches no exclude pattern is not instrumented".into());
        check(r.untouched() || r.is(&r.expected(o, &s)), || "the output of a file that matches no pattern is not that of its instrumentation".into());
    }
}
pub fn entry_exclude() { exclude(SETS.len() as u64, 2, 2) }
pub fn entry_exclude_names() { exclude(SETS.len() as u64, 9, 1) }
pub fn entry_exclude_deep() { exclude(SETS.len() as u64, 2, 3) }
pub fn entry_exclude_long() { exclude(SETS.len() as u64, 9, 3) }
/// names that differ in the separators only: a symbolic choice at each separator
pub fn entry_exclude_separators() {
    mask_hash(true);
    warm();
    let pats: &[&[&str]] = &[&["src", "**", "*.test.ts"], &["**", "node_modules", "**"], &["p", "x", "y.js"], &["", "p", "**"], &["C:", "p", "*", "y.js"], &["*", "x", "?.js"]];
    let names: &[&[&str]] = &[&["src", "a", "b.test.ts"], &["src", "b.test.ts"], &["C:", "p", "x", "y.js"], &["p", "x", "y.js"], &["", "p", "x", "y.js"], &["", "home", "node_modules", "z", "i.js"], &["node_modules", "i.js"], &["src", "test.ts"], &["d:", "p", "x.js"], &["é", "x", "y.js"]];
    let join = |v: &[&str], tag: &str| { let mut b = vec![]; for (i, x) in v.iter().enumerate() { if i > 0 { let c = if var(1, tag) != 0 { b'\\' } else { b'/' }; b.push(c); } b.extend(x.as_bytes()); } unsafe { String::from_utf8_unchecked(b) } };
    let p = pats[choose(pats.len() as u64, "pattern") as usize];
    let n = names[choose(names.len() as u64, "name") as usize];
    // the pattern goes through JSON, its separators are chosen
    let ps = { let m = choose(3, "separators of the pattern"); let mut s = String::new(); for (i, x) in p.iter().enumerate() { if i > 0 { s.push(if m == 0 || (m == 2 && i % 2 == 0) { '/' } else { '\\' }); } s.push_str(x); } s };
    let ns = join(n, "separator");
    let cfg = format!("{{\"unstableExclude\":{}}}", serde_json::to_string(&vec![&ps]).unwrap());
    ctx(&format!("{:?} with {}", ns, cfg));
    let strip = |v: &[&str]| -> (bool, Vec<String>) { let r = v[0].is_empty() || v[0].ends_with(':'); (r, v[r as usize..].iter().map(|x| x.to_string()).collect()) };
    let (pr, pv) = strip(p);
    let (nr, nv) = strip(n);
    let pv: Vec<&str> = pv.iter().map(|x| x.as_str()).collect();
    let nv: Vec<Vec<u8>> = nv.iter().map(|x| x.as_bytes().to_vec()).collect();
    let hit = (pr == nr || (!pr && pv[0] == "**")) && tree(&pv, &nv);
    let r = run("a;", Some(&ns), Some(&cfg));
    cover("ran");
    if hit { cover("left alone"); }
    check(hit == r.untouched(), || if hit { "a file whose name matches an exclude pattern is changed".into() } else { "a file whose name matches no exclude pattern is not instrumented".into() });
}
