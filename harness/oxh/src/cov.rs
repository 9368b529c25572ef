use istanbul_oxide::*;
use symx_rt::*;

/// locations which differ in one coordinate only, or only in where the separators of a textual key are
pub const POOL: [(u32, u32, u32, u32); 9] = [(1, 2, 1, 22), (1, 2, 12, 2), (1, 21, 2, 2), (12, 1, 2, 2), (1, 2, 1, 23), (1, 2, 2, 22), (1, 3, 1, 22), (2, 2, 1, 22), (0, 0, 0, 0)];
pub fn loc(i: u64) -> Range { let p = POOL[i as usize]; Range::new(p.0, p.1, p.2, p.3) }
/// hit counts below 2^28, so that the sums formed here cannot overflow
pub fn hits() -> u32 { let v = u32v("hits"); assume(v < 1 << 28); v }
/// any hit count, known to be zero or not on each path
pub fn hit01() -> u32 { let v = u32v("hits"); is(v > 0); v }

/// a sequence of `n` different elements out of 0..k (structural choice), n itself chosen in lo..=hi
pub fn pick(lo: u64, hi: u64, k: u64) -> Vec<u64> {
    let n = lo + choose(hi - lo + 1, "n");
    let mut v = vec![];
    for _ in 0..n {
        let mut i = choose(k - v.len() as u64, "which");
        let mut s = v.clone(); s.sort();
        for x in s { if x <= i { i += 1; } }
        v.push(i);
    }
    v
}
/// ids for n entries: in order, with a gap, or descending
pub fn ids(n: usize) -> Vec<u32> {
    match choose(if n == 0 { 1 } else { 3 }, "ids") { 0 => (0..n as u32).collect(), 1 => (0..n as u32).map(|i| i * 2 + 1).collect(), _ => (0..n as u32).rev().collect() }
}
pub fn empty(logic: bool) -> FileCoverage { FileCoverage::from_file_path("f".into(), logic) }
pub fn add_stmts(c: &mut FileCoverage, locs: &[u64]) {
    let id = ids(locs.len());
    for (k, l) in locs.iter().enumerate() { c.statement_map.insert(id[k], loc(*l)); c.s.insert(id[k], hits()); }
}
pub fn func(l: u64, tag: u32) -> Function { Function { name: format!("f{}", tag), decl: Range::new(7, tag, 7, tag + 1), loc: loc(l), line: loc(l).start.line } }
pub fn add_fns(c: &mut FileCoverage, locs: &[u64], tag: u32) {
    let id = ids(locs.len());
    for (k, l) in locs.iter().enumerate() { c.fn_map.insert(id[k], func(*l, tag)); c.f.insert(id[k], hits()); }
}
/// branch number l of the pool has l % 3 + 1 paths, the last one of the pool has none
pub fn paths(l: u64) -> usize { if l as usize == POOL.len() - 1 { 0 } else { l as usize % 3 + 1 } }
pub fn branch(l: u64, with_loc: bool) -> Branch {
    let locs: Vec<Range> = (0..paths(l)).map(|i| if i == 0 { loc(l) } else { Range::new(9, i as u32, 9, l as u32) }).collect();
    let ty = [BranchType::If, BranchType::BinaryExpr, BranchType::Switch, BranchType::CondExpr, BranchType::DefaultArg][l as usize % 5];
    if with_loc || paths(l) == 0 { Branch::from_loc(ty, loc(l), locs) } else { Branch::from_line(ty, loc(l).start.line, locs) }
}
/// `truth`: bit k says whether the k-th branch has truthiness counts
pub fn add_branches(c: &mut FileCoverage, locs: &[u64], truth: u64) {
    let id = ids(locs.len());
    for (k, l) in locs.iter().enumerate() {
        c.branch_map.insert(id[k], branch(*l, true));
        c.b.insert(id[k], (0..paths(*l)).map(|_| hits()).collect());
        if truth >> k & 1 == 1 { if let Some(t) = &mut c.b_t { t.insert(id[k], (0..paths(*l)).map(|_| hits()).collect()); } }
    }
}
pub fn stmt_at(c: &FileCoverage, r: &Range) -> (usize, u32) {
    let mut n = 0; let mut h = 0u32;
    for (k, x) in &c.statement_map { if x == r { n += 1; h = h.wrapping_add(*c.s.get(k).unwrap_or(&0)); } }
    (n, h)
}
pub fn fn_at(c: &FileCoverage, r: &Range) -> (usize, u32) {
    let mut n = 0; let mut h = 0u32;
    for (k, x) in &c.fn_map { if x.loc == *r { n += 1; h = h.wrapping_add(*c.f.get(k).unwrap_or(&0)); } }
    (n, h)
}
fn is_at(b: &Branch, l: u64) -> bool { *b == branch(l, true) }
pub fn branch_at(c: &FileCoverage, l: u64) -> (usize, Vec<u32>) { at(c, Some(&c.b), l) }
pub fn truth_at(c: &FileCoverage, l: u64) -> (usize, Vec<u32>) { at(c, c.b_t.as_ref(), l) }
fn at(c: &FileCoverage, m: Option<&BranchHitMap>, l: u64) -> (usize, Vec<u32>) {
    let mut n = 0; let mut h = vec![0u32; 3];
    let Some(m) = m else { return (0, h) };
    for (k, v) in m {
        if let Some(b) = c.branch_map.get(k) { if is_at(b, l) { n += 1; for (i, x) in v.iter().enumerate() { if i < 3 { h[i] = h[i].wrapping_add(*x); } } } }
    }
    (n, h)
}
/// hit maps and location maps belong together
pub fn matching(c: &FileCoverage) {
    check(c.s.len() == c.statement_map.len() && c.s.keys().all(|k| c.statement_map.contains_key(k)), || "s and statementMap do not match".into());
    check(c.f.len() == c.fn_map.len() && c.f.keys().all(|k| c.fn_map.contains_key(k)), || "f and fnMap do not match".into());
    check(c.b.len() == c.branch_map.len() && c.b.keys().all(|k| c.branch_map.contains_key(k)), || "b and branchMap do not match".into());
    check(c.b.iter().all(|(k, v)| c.branch_map.get(k).map_or(false, |b| b.locations.len() == v.len())), || "a branch has not as many counts as locations".into());
    if let Some(t) = &c.b_t { check(t.iter().all(|(k, v)| c.b.get(k).map_or(false, |x| x.len() == v.len())), || "bT and b do not match".into()); }
}
pub fn describe(c: &FileCoverage) -> String {
    let mut s = String::new();
    let r = |r: &Range| format!("{}:{}-{}:{}", r.start.line, r.start.column, r.end.line, r.end.column);
    s += "{"; for (k, x) in &c.statement_map { s += &format!(" s{}@{}", k, r(x)); }
    for (k, x) in &c.fn_map { s += &format!(" f{}@{}", k, r(&x.loc)); }
    for (k, x) in &c.branch_map { s += &format!(" b{}@{}x{}{}", k, x.locations.get(0).map(r).unwrap_or_default(), x.locations.len(), if c.b_t.as_ref().map_or(false, |t| t.contains_key(k)) { "T" } else { "" }); }
    if c.all { s += " all"; }
    if c.b_t.is_some() { s += " logic"; }
    s + " }"
}
