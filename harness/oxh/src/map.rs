use crate::cov::*;
use istanbul_oxide::*;
use symx_rt::*;

const PATHS: [&str; 3] = ["a.js", "b.js", "./a.js"];
fn file(max: u64) -> (usize, FileCoverage) {
    let p = choose(PATHS.len() as u64, "path") as usize;
    let mut c = FileCoverage::from_file_path(PATHS[p].into(), false);
    for l in pick(1, 1, max) { c.statement_map.insert(0, loc(l)); c.s.insert(0, hits()); }
    (p, c)
}
/// model: per path, in order of first addition, hits per location
/// and whether the file is still marked as never loaded
type Model = Vec<(usize, [Option<u32>; 2], bool)>;
fn add(m: &mut Model, p: usize, c: &FileCoverage) {
    if !m.iter().any(|x| x.0 == p) { m.push((p, [None; 2], c.all)); }
    else if c.all { return; }
    let e = m.iter_mut().find(|x| x.0 == p).unwrap();
    if e.2 && !c.all { e.1 = [None; 2]; e.2 = false; }
    for l in 0..2u64 { let (n, h) = stmt_at(c, &loc(l)); if n > 0 { e.1[l as usize] = Some(e.1[l as usize].unwrap_or(0).wrapping_add(h)); } }
}
fn agree(m: &CoverageMap, model: &Model) {
    let names: Vec<&str> = m.get_files().iter().map(|s| s.as_str()).collect();
    let want: Vec<&str> = model.iter().map(|x| PATHS[x.0]).collect();
    check(names == want, || "the files of the map are not those added, in order of first addition".into());
    for (i, p) in PATHS.iter().enumerate() {
        let got = m.get_coverage_for_file(p);
        let e = model.iter().find(|x| x.0 == i);
        check(got.is_some() == e.is_some(), || "the map has no coverage for a file added, or for one not added".into());
        if let (Some(g), Some(e)) = (got, e) {
            check(g.path == *p, || "the coverage of a file has another path".into());
            check(g.all == e.2, || "a file is marked as never loaded although it was loaded, or lost the mark".into());
            for l in 0..2u64 {
                let (n, h) = stmt_at(g, &loc(l));
                check(n == e.1[l as usize].is_some() as usize, || "an entry is missing or duplicated in the map".into());
                check(h == e.1[l as usize].unwrap_or(0), || "the hits of a file are not the sum of those added".into());
            }
        }
    }
}
pub fn entry_map() { map(2) }
pub fn entry_map_deep() { map(3) }
/// files marked as never loaded, added one by one or as a map
pub fn entry_map_all() {
    let mut m = CoverageMap::new();
    let mut model: Model = vec![];
    let n = 1 + choose(3, "ops");
    let mut log = String::new();
    for _ in 0..n {
        let p = choose(2, "path") as usize;
        let mut c = FileCoverage::from_file_path(PATHS[p].into(), false);
        let l = choose(2, "at");
        c.statement_map.insert(0, loc(l)); c.s.insert(0, hits());
        c.all = choose(2, "all") == 1;
        log += &format!("add {} {}; ", PATHS[p], describe(&c)); ctx(&log);
        if choose(2, "as a map") == 0 { m.add_coverage_for_file(&c); } else { m.merge(&CoverageMap::from_iter([&c])); }
        add(&mut model, p, &c);
    }
    cover("sequence done");
    agree(&m, &model);
    if choose(2, "filter") == 1 {
        m.filter(|c| !c.all); model.retain(|x| !x.2);
        agree(&m, &model);
        check(m.get_coverage_for_file("./a.js").is_none(), || "a file is made up".into());
    }
}
fn map(max: u64) {
    let mut m = CoverageMap::new();
    let mut model: Model = vec![];
    let n = 1 + choose(max, "ops");
    let mut log = String::new();
    for _ in 0..n {
        match choose(3, "op") {
            0 => { let (p, c) = file(2); log += &format!("add {} {}; ", PATHS[p], describe(&c)); ctx(&log); m.add_coverage_for_file(&c); add(&mut model, p, &c); }
            1 => {
                let (p, c) = file(1); let (q, d) = file(1);
                log += &format!("merge map of {} and {}; ", PATHS[p], PATHS[q]); ctx(&log);
                let o = CoverageMap::from_iter([&c, &d]);
                m.merge(&o); add(&mut model, p, &c); add(&mut model, q, &d);
            }
            _ => { let k = choose(3, "keep") as usize; log += &format!("filter {}; ", PATHS[k]); ctx(&log); m.filter(|c| c.path != PATHS[k]); model.retain(|x| x.0 != k); }
        }
    }
    cover("sequence done");
    if model.len() >= 2 { cover("two files"); }
    agree(&m, &model);
}
#[cfg(verif_hooks)]
pub fn entry_map_summary() {
    let mut m = CoverageMap::new();
    let n = choose(3, "files");
    let mut want = [(0u32, 0u32); 4];
    let mut truth: Option<(u32, u32)> = None;
    for p in 0..n as usize {
        let mut c = FileCoverage::from_file_path(PATHS[p].into(), choose(2, "logic") == 1);
        match choose(4, "kind") {
            0 => { for k in 0..choose(3, "n") as u32 { c.statement_map.insert(k, loc(k as u64)); c.s.insert(k, hit01()); } }
            1 => { c.fn_map.insert(0, func(0, 1)); c.f.insert(0, hit01()); }
            2 => { c.branch_map.insert(0, branch(1, true)); c.b.insert(0, vec![hit01(), hit01()]); if let Some(t) = &mut c.b_t { t.insert(0, vec![hit01(), 1]); } }
            _ => { c.statement_map.insert(0, loc(0)); c.s.insert(0, hit01()); c.f.insert(0, 1); c.fn_map.insert(0, func(0, 1)); c.branch_map.insert(0, branch(1, true)); c.b.insert(0, vec![0, hit01()]); }
        }
        if p < 2 { c.all = choose(2, "all") == 1; }
        let (s, t) = c.to_summary().parts();
        if let Some(t) = t { let x = truth.unwrap_or((0, 0)); truth = Some((x.0 + t.total, x.1 + t.covered)); }
        for i in 0..4 { want[i].0 += s[i].total; want[i].1 += s[i].covered; }
        m.add_coverage_for_file(&c);
    }
    let (s, t) = m.get_coverage_summary().parts();
    if let Some(w) = truth {
        check(t.map_or(false, |t| t.total == w.0 && t.covered == w.1 && t.skipped == 0), || "the truthiness totals of a map are not the sum of those of its files".into());
        if let Some(t) = t { let p = percent_of(conc(w.1 as u64) as u32, w.0); check(matches!(t.pct, SummaryPercentage::Value(v) if v == p), || "the truthiness percentage of a map is wrong".into()); }
    } else { check(t.map_or(true, |t| t.total == 0 && t.covered == 0), || "a map has truthiness totals although no file has".into()); }
    cover("summarised");
    for i in 0..4 {
        check(s[i].total == want[i].0 && s[i].covered == want[i].1 && s[i].skipped == 0, || "the summary of a map is not the sum of the summaries of its files".into());
        if n > 0 { let p = percent_of(conc(want[i].1 as u64) as u32, want[i].0); check(matches!(s[i].pct, SummaryPercentage::Value(v) if v == p), || "the percentage of the summary of a map is wrong".into()); }
    }
}
