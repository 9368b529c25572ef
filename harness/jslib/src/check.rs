//! Compares one original program with its instrumented form under every outcome of the unknown calls.
use crate::covdata::*;
use crate::exec::*;
use crate::expect::*;
use crate::parse::*;
use swc_core::common::comments::SingleThreadedComments;
use swc_core::common::Span;
use swc_core::ecma::ast::*;
use swc_core::ecma::visit::VisitWith;
use symx_rt::*;

#[derive(Clone, Copy, PartialEq)]
pub enum Want { Behaviour, Stmts, Funcs, Branches, Truth }
pub struct Case<'a> { pub src: &'a str, pub orig: &'a Program, pub out: &'a Program, pub comments: &'a SingleThreadedComments, pub logic: bool, pub methods: Vec<String>, pub path: &'a str, pub var: &'a str }

pub fn rng(src: &str, s: Span) -> [u32; 4] { let (a, b) = line_col(src, s.lo.0); let (c, d) = line_col(src, s.hi.0); [a, b, c, d] }

/// the counters as the instrumented program left them
#[derive(Default)]
pub struct Final { pub s: Vec<(String, V)>, pub f: Vec<(String, V)>, pub b: Vec<(String, Vec<V>)>, pub bt: Vec<(String, Vec<V>)> }
pub fn read(i: &I, var: &str, path: &str) -> Option<Final> {
    let V::Obj(g) = i.prop(0, var)? else { return None };
    let V::Obj(c) = i.prop(g, path)? else { return None };
    let flat = |k: &str| -> Option<Vec<(String, V)>> { if let V::Obj(o) = i.prop(c, k)? { Some(i.heap[o].props.iter().map(|(k, v)| (k.clone(), v.clone())).collect()) } else { None } };
    let deep = |k: &str| -> Option<Vec<(String, Vec<V>)>> { let mut o = vec![]; for (k, v) in flat(k)? { if let V::Obj(a) = v { o.push((k, i.heap[a].props.iter().map(|x| x.1.clone()).collect())); } else { return None; } } Some(o) };
    Some(Final { s: flat("s")?, f: flat("f")?, b: deep("b")?, bt: deep("bT").unwrap_or_default() })
}
pub fn num(v: &V) -> u32 { if let V::Num(n) = v { *n as u32 } else { u32::MAX } }
fn at(v: &[(String, V)], id: u32) -> Option<u32> { v.iter().find(|x| kid(&x.0) == Some(id)).map(|x| num(&x.1)) }
fn at2(v: &[(String, Vec<V>)], id: u32, i: usize) -> Option<u32> { v.iter().find(|x| kid(&x.0) == Some(id)).and_then(|x| x.1.get(i)).map(num) }

pub fn compare(c: &Case, want: Want) { compare_all(c, &[want]) }
/// the entries of the maps only (programs the interpreter does not cover)
pub fn compare_maps(c: &Case, wants: &[Want]) {
    let pre = preamble(c.out);
    let Some(d) = pre.data.as_ref().and_then(covd) else { fail("coverage object unreadable"); return };
    let mut x = Expect::new(c.comments, c.orig);
    x.methods = c.methods.clone();
    c.orig.visit_with(&mut x);
    for w in wants { judge(c, *w, None, &d, &x); }
}
/// the runs where the interpreter covers the program, the maps where not
/// (with callers for whatever it declares)
pub fn compare_any(c: &Case, wants: &[Want]) { comparison(c, wants, true) }
/// one run of both programs, then every comparison asked for
pub fn compare_all(c: &Case, wants: &[Want]) { comparison(c, wants, false) }
fn comparison(c: &Case, wants: &[Want], any: bool) {
    let mut w = World::new();
    let (ev0, tr0, hits, names) = {
        let mut a = I::new(&mut w, true, c.logic);
        a.callers = any;
        a.run(c.orig);
        if let Some(u) = a.unsup { if any { if native() { println!("not interpreted: {}", u); } cover("maps only"); return compare_maps(c, wants); } fail(&format!("HARNESS original not interpretable: {}", u)); return; }
        (a.events, a.trace, a.hits, a.names)
    };
    let mut b = I::new(&mut w, false, c.logic);
    b.callers = any;
    b.names = names;
    b.run(c.out);
    if any && b.unsup.is_some() { cover("maps only"); return compare_maps(c, wants); }
    if wants.contains(&Want::Behaviour) {
        if let Some(u) = b.unsup { fail(&format!("HARNESS instrumented not interpretable: {}", u)); return; }
        if native() && ev0 != b.events { println!("TRACE original     {:?}\nTRACE instrumented {:?}", tr0, b.trace); }
        check(ev0 == b.events, || "observable behaviour differs".into());
        cover("ran");
        if wants.len() == 1 { return; }
    }
    if ev0 != b.events { cover("behaviour differs (not this property)"); return; }
    let pre = preamble(c.out);
    let Some(d) = pre.data.as_ref().and_then(covd) else { fail("coverage object unreadable"); return };
    let Some(fin) = read(&b, c.var, c.path) else { cover("no coverage object published (C07)"); return };
    let mut x = Expect::new(c.comments, c.orig);
    x.methods = c.methods.clone();
    c.orig.visit_with(&mut x);
    if x.ignored > 0 { cover("something ignored"); }
    for w in wants { judge(c, *w, Some((&hits, &fin)), &d, &x); }
}
fn judge(c: &Case, want: Want, run: Option<(&Vec<(Hit, u32)>, &Final)>, d: &CovD, x: &Expect) {
    let (no_hits, no_fin) = (vec![], Final::default());
    let (hits, fin) = run.unwrap_or((&no_hits, &no_fin));
    let ran = run.is_some();
    let count = |kind: u8, s: Span, path: u32| hits.iter().find(|x| x.0 == Hit { kind, lo: s.lo.0, hi: s.hi.0, path }).map_or(0, |x| x.1);
    match want {
        Want::Stmts => {
            let mut used = vec![false; d.sm.len()];
            for e in &x.s {
                let r = rng(c.src, e.span);
                let n = count(e.key.0, e.span, e.key.1);
                let alt = e.alt.map(|(k, s)| count(k, s, 0));
                if n > 0 { cover("statement reached"); }
                let m = d.sm.iter().enumerate().position(|(i, m)| !used[i] && m.1 == r && at(&fin.s, m.0) == Some(n)).or_else(|| d.sm.iter().enumerate().position(|(i, m)| !used[i] && m.1 == r));
                match m {
                    None if e.opt => {}
                    None => fail(&format!("{} {} has no statement entry", e.tag, e.what)),
                    Some(i) => {
                        used[i] = true;
                        let got = at(&fin.s, d.sm[i].0);
                        if native() && got != Some(n) { println!("statement {:?} at {:?}: executed {} times, counter says {:?}", e.what, r, n, got); }
                        // counted when the declaration is reached (an earlier declarator may throw)
                        if e.what == "variable initialiser" && alt.is_some() && got == alt { continue; }
                        check(!ran || got == Some(n), || if alt.is_some() && got == alt { "class field holding a function is counted once per class instead of once per instance".into() } else { format!("{} {} is counted wrongly", e.tag, e.what) });
                    }
                }
            }
            for (i, m) in d.sm.iter().enumerate() { if !used[i] { if native() { println!("entry {:?}", m); } fail(if x.tpls.iter().any(|t| rng(c.src, *t) == m.1) { "tagged template has a statement entry of its own" } else { "statement entry for something that is not an executable statement" }); } }
        }
        Want::Funcs => {
            let mut used = vec![false; d.fm.len()];
            let mut anon = 0;
            for e in &x.f {
                let _ = &mut anon;
                let r = rng(c.src, e.body);
                let n = count(b'f', e.body, 0);
                if n > 0 { cover("function entered"); }
                match d.fm.iter().enumerate().position(|(i, m)| !used[i] && m.loc == r) {
                    None => fail(&format!("{} function has no function entry", e.tag)),
                    Some(i) => {
                        used[i] = true;
                        let m = &d.fm[i];
                        let got = at(&fin.f, m.id);
                        if native() && got != Some(n) { println!("function {:?} at {:?}: entered {} times, counter says {:?}", e.name, r, n, got); }
                        check(!ran || got == Some(n), || format!("{} function is counted wrongly", e.tag));
                        if let Some(name) = &e.name { check(&m.name == name, || format!("{} function has the wrong name", e.tag)); }
                        check(m.decl == rng(c.src, e.decl), || format!("{} function has the wrong declaration range", e.tag));
                        check(m.line == m.loc[0], || "function line differs from its body's first line".into());
                    }
                }
            }
            for (i, m) in d.fm.iter().enumerate() { if !used[i] { if native() { println!("entry {:?}", m); } fail("function entry for something that is not a function"); } }
        }
        Want::Branches | Want::Truth => {
            let mut used = vec![false; d.bm.len()];
            for e in &x.b {
                let r = rng(c.src, e.span);
                match d.bm.iter().enumerate().position(|(i, m)| !used[i] && m.loc == Some(r) && m.ty == e.ty) {
                    None => fail(&format!("{} {} has no branch entry", e.tag, e.ty)),
                    Some(i) => {
                        used[i] = true;
                        let m = &d.bm[i];
                        let locs: Vec<[u32; 4]> = e.paths.iter().map(|p| rng(c.src, p.0)).collect();
                        if native() && locs != m.locs { println!("branch {:?} at {:?}: paths {:?}, map says {:?}", e.ty, r, locs, m.locs); }
                        if !check(locs == m.locs, || format!("{} {} lists the wrong paths", e.tag, e.ty)) { continue; }
                        for (k, p) in e.paths.iter().enumerate() {
                            if want == Want::Branches {
                                let n = count(e.key, e.span, p.1);
                                if n > 0 { cover("branch path taken"); }
                                let got = at2(&fin.b, m.id, k);
                                if native() && got != Some(n) { println!("branch {:?} at {:?} path {}: taken {} times, counter says {:?}", e.ty, r, k, n, got); }
                                check(!ran || got == Some(n), || format!("{} {} path is counted wrongly", e.tag, e.ty));
                            } else if e.ty == "binary-expr" && c.logic {
                                let n = count(b't', e.span, p.1);
                                if n > 0 { cover("truthy operand"); }
                                let got = at2(&fin.bt, m.id, k);
                                if native() && got != Some(n) { println!("operand {} at {:?}: non-trivially true {} times, counter says {:?}", k, r, n, got); }
                                check(!ran || got == Some(n), || format!("{} truthiness of an operand is counted wrongly", e.tag));
                            } else {
                                check(!fin.bt.iter().any(|x| kid(&x.0) == Some(m.id)), || "bT entry for a branch that is not a logical expression".into());
                            }
                        }
                        if want == Want::Branches { check(m.line == Some(r[0]), || "branch line differs from its first line".into()); }
                    }
                }
            }
            for (i, m) in d.bm.iter().enumerate() { if !used[i] { if native() { println!("entry {:?}", m); } fail(&format!("{} entry for something that is not a branch", m.ty)); } }
        }
        Want::Behaviour => {}
    }
}
