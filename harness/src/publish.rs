//! C07: every output publishes its own coverage object under the configured variable
use crate::tx::*;
use jslib::check::*;
use jslib::covdata::*;
use jslib::exec::*;
use jslib::gen::*;
use swc_core::ecma::ast::*;
use swc_core::ecma::visit::{Visit, VisitWith};
use swc_coverage_instrument::*;
use symx_rt::*;

const PATHS: [&str; 16] = ["a.js", "b.js", "/a.js", "./a.js", "A.js", "dir/a.js", "dir\\a.js", "C:\\dir\\a.js", "a.js ", "", "it's \"a\".js", "a\nb.js", "\u{e4}.js", "unknown.js", "a.jsx", "aa.js"];
const VARS: [&str; 4] = ["__coverage__", "__cov2__", "a-b", "it's"];

/// identifiers of the coverage function anywhere in the output
#[derive(Default)]
struct Names { names: Vec<String> }
impl Visit for Names {
    fn visit_ident(&mut self, i: &Ident) { if is_cov_name(&i.sym) && !self.names.iter().any(|n| *n == *i.sym) { self.names.push(i.sym.to_string()); } }
}

/// the shape of the template, whatever the program
fn check_template(r: &Run) {
    let p = preamble(&r.out);
    check(p.decls == 1, || "not exactly one coverage function".into());
    check(p.calls == 1, || "not exactly one call of the coverage function at the top level".into());
    let (Some(d), Some(c)) = (p.decl_at, p.call_at) else { return };
    check(c == d + 1, || "the coverage function is not called right behind its declaration".into());
    let dirs = Dirs::of(&r.out).top as usize;
    check(d == dirs || (d == 1 && dirs == 0), || "the coverage function is not at the head of the program".into());
    check(p.path.as_deref() == Some(&r.file[..]), || "the coverage function holds another path".into());
    check(p.gcv.as_deref() == Some(&r.opts.coverage_variable[..]), || "the coverage function holds another coverage variable".into());
    let mut n = Names::default();
    r.out.visit_with(&mut n);
    check(n.names.len() == 1, || "counters go through more than one coverage function".into());
    let data = p.data.as_ref().and_then(covd);
    check(data.as_ref().map(|d| &d.path[..]) == Some(&r.file[..]), || "the coverage data hold another path".into());
    check(p.hash.is_some() && data.and_then(|d| d.hash) == p.hash, || "the coverage data hold another hash".into());
}
/// the first top-level statement carries no counter: nothing calls the coverage function before it ends
fn uncounted_head(r: &Run) -> bool {
    let p = preamble(&r.out);
    p.decl_at == Some(1) && Dirs::of(&r.out).top == 0 && !stmts_of(&r.out).first().map_or(false, |s| s.map_or(false, |s| counter_stmt(s).is_some()))
}
fn check_published(r: &Run, i: &I) {
    if let Some(u) = i.unsup { fail(&format!("HARNESS instrumented not interpretable: {}", u)); return; }
    match read(i, &r.opts.coverage_variable, &r.file) {
        Some(_) => cover("published"),
        None => fail(if uncounted_head(r) { "the first statement of the program has no counter and threw before the coverage object was published" } else { "no coverage object published under the coverage variable and path" }),
    }
}
fn publish(s: Src) {
    warm(true);
    let module = choose(2, "module") == 1;
    let src = s.make();
    ctx(&src);
    let Some(r) = s.transform(&src, module, InstrumentOptions::default(), "a.js") else { assume(false); return };
    cover("transformed");
    note_bytes(src.as_bytes());
    check_template(&r);
    let mut w = World::new();
    let mut i = I::new(&mut w, false, false);
    i.run(&r.out);
    if i.unsup.is_some() && matches!(s, Src::Tpl { .. }) { cover("not interpreted"); return; }
    check_published(&r, &i);
}
pub fn entry_publish() { publish(gen(&ALL, 1, 1, 1)) }
pub fn entry_publish_js() { publish(js(1)) }
pub fn entry_publish_ts() { publish(ts(1)) }
/// every path and variable: literals, and different names for different paths
pub fn entry_names() {
    warm(true);
    let a = PATHS[choose(PATHS.len() as u64, "path") as usize];
    let b = PATHS[choose(PATHS.len() as u64, "other path") as usize];
    let var = VARS[choose(VARS.len() as u64, "variable") as usize];
    let o = InstrumentOptions { coverage_variable: var.into(), ..Default::default() };
    let src = "f1();\n";
    ctx(&format!("{:?} {:?} {:?}", a, b, var));
    let (Some(ra), Some(rb)) = (transform(src, true, o.clone(), a), transform(src, true, o, b)) else { assume(false); return };
    cover("transformed");
    check_template(&ra);
    check_template(&rb);
    let (na, nb) = (preamble(&ra.out).name, preamble(&rb.out).name);
    check((na == nb) == (a == b), || "the name of the coverage function is not particular to the path".into());
}

pub static SMALL: Profile = Profile { stmts: &[S::Call, S::IfElse, S::Fn, S::VarInit, S::Throw], exprs: &[E::Call, E::Or], hints: &[], module: true };
/// several files evaluated in one process, sharing the coverage variable
pub fn entry_files() {
    warm(true);
    let n = 2;
    let o = InstrumentOptions { coverage_variable: VARS[choose(2, "variable") as usize].into(), ..Default::default() };
    let mut rs: Vec<Run> = vec![];
    for k in 0..n {
        let src = gen_src(&SMALL, 1 - k, 0, 1);
        let file = ["a.js", "dir/b.js"][choose(2, "file") as usize];
        let Some(r) = transform(&src, true, o.clone(), file) else { assume(false); return };
        rs.push(r);
    }
    let again = choose(2, "again") == 1;
    ctx(&format!("{:?}: {} / {:?}: {}{}", rs[0].file, rs[0].src, rs[1].file, rs[1].src, if again { " / first again" } else { "" }));
    cover("transformed");
    let mut order: Vec<usize> = vec![0, 1];
    if again { order.push(0); }
    let mut w = World::new();
    let mut i = I::new(&mut w, false, false);
    let var = &o.coverage_variable;
    // counts of each published object after each run
    let mut last: [Option<Vec<u32>>; 2] = [None, None];
    for k in order {
        let r = &rs[k];
        i.fresh();
        let before = read(&i, var, &r.file);
        i.run(&r.out);
        check_published(r, &i);
        let Some(d) = preamble(&r.out).data.as_ref().and_then(covd) else { fail("coverage object unreadable"); return };
        let Some(now) = read(&i, var, &r.file) else { return };
        check(now.s.len() == d.s.len() && now.f.len() == d.f.len() && now.b.len() == d.b.len(), || "the published object is not the one of the file".into());
        let hits: Vec<u32> = now.s.iter().map(|x| jslib::check::num(&x.1)).collect();
        check(hits.iter().any(|h| *h > 0) || hits.is_empty(), || "running the file does not count".into());
        let same_code = |j: usize| rs[j].file == r.file && rs[j].src == r.src;
        let prev = if same_code(1 - k) { last[0].clone().or(last[1].clone()) } else { last[k].clone() };
        let replaced = rs[1 - k].file == r.file && !same_code(1 - k);
        if let (Some(p), Some(_), false) = (&prev, &before, replaced) {
            cover("same file again");
            // the program is deterministic: each run of the same file adds the same hits again or starts over
            let total = |v: &[u32]| v.iter().sum::<u32>();
            check(total(&hits) > total(p), || "counts of a file evaluated again with the same hash start over".into());
        }
        let other = &rs[1 - k];
        if other.file != r.file {
            if let (Some(p), Some(f)) = (&last[1 - k], read(&i, var, &other.file)) {
                let h: Vec<u32> = f.s.iter().map(|x| jslib::check::num(&x.1)).collect();
                check(h == *p, || "running one file changes the counts of another".into());
                cover("two files");
            } else if last[1 - k].is_some() { fail("the coverage object of another file disappeared"); }
        }
        if replaced || same_code(1 - k) { last[1 - k] = None; }
        last[k] = Some(hits);
    }
}
