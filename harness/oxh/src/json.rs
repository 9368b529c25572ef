use crate::cov::*;
use istanbul_oxide::*;
use symx_rt::*;

fn source_map() -> SourceMap {
    SourceMap {
        version: 3,
        file: if choose(2, "file") == 1 { Some("o.js".into()) } else { None },
        source_root: if choose(2, "root") == 1 { Some("".into()) } else { None },
        sources: if choose(2, "sources") == 1 { vec!["i.ts".into()] } else { vec![] },
        sources_content: match choose(3, "content") { 0 => None, 1 => Some(vec![]), _ => Some(vec![Some("a\n".into()), None]) },
        names: if choose(2, "names") == 1 { vec!["n".into(), "\"".into()] } else { vec![] },
        mappings: "AAAA;".into(),
    }
}
fn round(c: &FileCoverage) -> Option<String> {
    let Ok(t) = serde_json::to_string(c) else { fail("the coverage cannot be written as JSON"); return None };
    if native() { println!("JSON {}", t); }
    match serde_json::from_str::<FileCoverage>(&t) {
        Ok(d) => {
            cover("round trip");
            check(d == *c, || "the coverage read back from its JSON is different".into());
            let o = |a: &FileCoverage| (a.s.keys().copied().collect::<Vec<_>>(), a.statement_map.keys().copied().collect::<Vec<_>>(), a.f.keys().copied().collect::<Vec<_>>(), a.b.keys().copied().collect::<Vec<_>>(), a.branch_map.keys().copied().collect::<Vec<_>>());
            check(o(&d) == o(c), || "the order of the entries changed in the JSON".into());
        }
        Err(_) => fail("the JSON of the coverage cannot be read back"),
    }
    Some(t)
}
fn full(with: u64) -> FileCoverage {
    let mut c = empty(with & 1 != 0);
    if with & 2 != 0 { c.statement_map.insert(0, loc(1)); c.s.insert(0, 3); c.statement_map.insert(1, loc(0)); c.s.insert(1, 0); }
    if with & 4 != 0 { c.fn_map.insert(0, func(2, 1)); c.f.insert(0, 1); }
    if with & 8 != 0 { for (k, t) in [(2u32, 1u64), (0, 0), (1, 2), (5, 3), (4, 4)] { c.branch_map.insert(k, branch(t, k != 2)); c.b.insert(k, (0..paths(t)).map(|i| i as u32).collect()); if k == 2 { if let Some(m) = &mut c.b_t { m.insert(k, vec![1, 2]); } } } }
    c
}
/// which optional parts are there
pub fn entry_json_shape() {
    let mut c = full(choose(16, "parts"));
    c.all = choose(2, "all") == 1;
    if choose(2, "map") == 1 { c.input_source_map = Some(source_map()); }
    ctx(&format!("{} map {:?}", describe(&c), c.input_source_map));
    let Some(t) = round(&c) else { return };
    let Ok(v) = serde_json::from_str::<serde_json::Value>(&t) else { fail("not JSON"); return };
    let keys: Vec<&str> = v.as_object().map(|o| o.keys().map(|k| k.as_str()).collect()).unwrap_or_default();
    let mut want = vec!["all", "path", "statementMap", "fnMap", "branchMap", "s", "f", "b"];
    if c.b_t.is_some() { want.push("bT"); }
    if c.input_source_map.is_some() { want.push("inputSourceMap"); }
    check(keys.len() == want.len() && want.iter().all(|k| keys.contains(k)), || "the JSON of a file coverage has other fields than the istanbul format".into());
    let num = |x: &serde_json::Value| x.as_u64().unwrap_or(u64::MAX) as u32;
    let rng = |x: &serde_json::Value, r: &Range| x.as_object().map_or(false, |o| o.len() == 2) && num(&x["start"]["line"]) == r.start.line && num(&x["start"]["column"]) == r.start.column && num(&x["end"]["line"]) == r.end.line && num(&x["end"]["column"]) == r.end.column;
    check(v["all"] == c.all && v["path"] == c.path.as_str(), || "path or marking is wrong in the JSON".into());
    for (k, r) in &c.statement_map { let k = k.to_string(); check(rng(&v["statementMap"][&k], r), || "a statement range is wrong in the JSON".into()); }
    for (k, h) in &c.s { check(num(&v["s"][k.to_string()]) == *h, || "a statement count is wrong in the JSON".into()); }
    for (k, f) in &c.fn_map { let x = &v["fnMap"][k.to_string()]; check(x["name"] == f.name.as_str() && rng(&x["decl"], &f.decl) && rng(&x["loc"], &f.loc) && num(&x["line"]) == f.line, || "a function is wrong in the JSON".into()); }
    for (k, h) in &c.f { check(num(&v["f"][k.to_string()]) == *h, || "a function count is wrong in the JSON".into()); }
    for (k, b) in &c.branch_map {
        let x = &v["branchMap"][k.to_string()];
        let ty = match b.branch_type { BranchType::BinaryExpr => "binary-expr", BranchType::DefaultArg => "default-arg", BranchType::If => "if", BranchType::Switch => "switch", BranchType::CondExpr => "cond-expr" };
        check(x["type"] == ty && b.branch_type.to_string() == ty, || "a branch type is wrong in the JSON".into());
        check(x["locations"].as_array().map_or(false, |l| l.len() == b.locations.len() && l.iter().zip(&b.locations).all(|(a, r)| rng(a, r))) && b.loc.as_ref().map_or(x["loc"].is_null(), |r| rng(&x["loc"], r)) && b.line.map_or(x["line"].is_null(), |l| num(&x["line"]) == l), || "a branch is wrong in the JSON".into());
    }
    for (n, m) in [("b", Some(&c.b)), ("bT", c.b_t.as_ref())] { if let Some(m) = m { for (k, h) in m { check(v[n][k.to_string()].as_array().map_or(false, |a| a.len() == h.len() && a.iter().zip(h).all(|(p, q)| num(p) == *q)), || format!("{} is wrong in the JSON", n)); } } }
    if let Some(m) = &c.input_source_map {
        let x = &v["inputSourceMap"];
        let opt = |k: &str, o: &Option<String>| match o { Some(s) => x[k] == s.as_str(), None => x.get(k).is_none() };
        check(num(&x["version"]) == m.version && opt("file", &m.file) && opt("sourceRoot", &m.source_root) && x["mappings"] == m.mappings.as_str() && x["sources"].as_array().map_or(false, |a| a.len() == m.sources.len()) && x["names"].as_array().map_or(false, |a| a.len() == m.names.len()) && x.get("sourcesContent").is_some() == m.sources_content.is_some(), || "the source map is wrong in the JSON".into());
    }
    // what is absent may be absent in the input as well
    if let Some(o) = v.as_object() { let mut o = o.clone(); if !c.all { o.remove("all"); } let d: Result<FileCoverage, _> = serde_json::from_value(serde_json::Value::Object(o)); check(d.map_or(false, |d| d == c), || "a file coverage without the `all` marking cannot be read".into()); }
}
/// any numbers and any characters
pub fn entry_json_values() { values(6) }
pub fn entry_json_values_deep() { values(11) }
fn values(bits: u32) {
    let mut c = empty(true);
    let what = choose(3, "what");
    let n = if what != 2 { let v = match choose(3, "big") { 0 => { let v = u32v("n"); assume(v < 1 << bits); v } 1 => u32::MAX, _ => 1 << 31 }; v } else { 5 };
    if what == 0 { c.statement_map.insert(0, Range::new(1, n, 2, 3)); c.s.insert(0, 1); }
    if what == 1 { c.branch_map.insert(1, branch(0, true)); c.b.insert(1, vec![n]); c.b_t.as_mut().unwrap().insert(1, vec![7]); c.statement_map.insert(0, loc(0)); c.s.insert(0, 4); }
    if what == 2 {
        let b = u8v("char"); assume(b < 0x80);
        let s = String::from_utf8(vec![b'a', b, b'z']).unwrap_or_default();
        c.path = s.clone();
        c.fn_map.insert(0, Function { name: s, decl: loc(0), loc: loc(1), line: 1 }); c.f.insert(0, 1);
    }
    ctx(&describe(&c));
    round(&c);
}
