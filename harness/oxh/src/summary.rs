use crate::cov::*;
use crate::merge::same;
use istanbul_oxide::*;
use symx_rt::*;

fn lined(l: u64, k: u32) -> Range { Range::new([1, 2, 11][l as usize], k, 11, 50 + k) }
/// statements on three lines
fn stmts(max: u64) -> FileCoverage {
    let mut c = empty(false);
    let n = choose(max + 1, "n");
    let id = ids(n as usize);
    for k in 0..n { let l = choose(3, "line"); c.statement_map.insert(id[k as usize], lined(l, k as u32)); c.s.insert(id[k as usize], u32v("hits")); }
    c
}
pub fn entry_lines() {
    let c = stmts(3);
    ctx(&describe(&c));
    let m = c.get_line_coverage();
    let u = c.get_uncovered_lines();
    cover("computed");
    for line in [1u32, 2, 11] {
        let here: Vec<u32> = c.statement_map.iter().filter(|(_, r)| r.start.line == line).map(|(k, _)| c.s[k]).collect();
        check(m.contains_key(&line) == !here.is_empty(), || "a line has a count although no statement starts on it, or none".into());
        if let Some(h) = m.get(&line) {
            check(here.iter().fold(true, |r, x| r & (x <= h)), || "the count of a line is below that of a statement on it".into());
            check(here.iter().fold(false, |r, x| r | (x == h)), || "the count of a line is not that of a statement on it".into());
            let n = u.iter().filter(|x| **x == line).count();
            check(n == (*h == 0) as usize, || "the uncovered lines are not the lines without hits".into());
        }
    }
    check(m.keys().all(|l| [1, 2, 11].contains(l)) && u.iter().all(|l| m.contains_key(l)), || "a line is made up".into());
}
#[cfg(verif_hooks)]
pub fn entry_branch_lines() {
    let mut c = empty(false);
    let n = 1 + choose(3, "n");
    let id = ids(n as usize);
    let mut want: Vec<(u32, Vec<u32>)> = vec![];
    for k in 0..n {
        let l = choose(2, "line"); let r = lined(l, k as u32);
        let b = match choose(3, "how") { 0 => Branch::from_line(BranchType::If, r.start.line, vec![]), 1 => Branch::from_loc(BranchType::If, r, vec![]), _ => { let mut b = Branch::from_loc(BranchType::If, Range::new(77, 1, 78, 1), vec![]); b.line = Some(r.start.line); b } };
        let p = 1 + choose(2, "paths");
        let h: Vec<u32> = (0..p).map(|_| u32v("hits")).collect();
        c.branch_map.insert(id[k as usize], b); c.b.insert(id[k as usize], h.clone());
        match want.iter_mut().find(|w| w.0 == r.start.line) { Some(w) => w.1.extend(h), None => want.push((r.start.line, h)) }
    }
    ctx(&describe(&c));
    let m = c.get_branch_coverage_by_line();
    cover("computed");
    check(m.len() == want.len() && want.iter().all(|w| m.contains_key(&w.0)), || "the lines with branches are not exactly those branches start on".into());
    for (l, h) in &want {
        let Some(x) = m.get(l) else { continue };
        let (cov, tot, pct) = x.parts();
        let n: u32 = h.iter().map(|x| (*x > 0) as u32).sum();
        check(tot == h.len() as u32, || "the number of paths on a line is wrong".into());
        check(cov == n, || "the number of covered paths on a line is wrong".into());
        let n = conc(n as u64) as u32;
        check((pct - 100.0 * n as f32 / h.len() as f32).abs() < 0.001, || "the branch percentage of a line is wrong".into());
    }
}
#[cfg(verif_hooks)]
fn pct(t: &SummaryTotals) -> Option<f32> { match t.pct { SummaryPercentage::Value(v) => Some(v), _ => None } }
/// floor(10000 * covered / total) / 100, 100 if there is nothing
fn exact(c: u32, t: u32) -> f32 { if t == 0 { 100.0 } else { (10000u64 * c as u64 / t as u64) as f32 / 100.0 } }
#[cfg(verif_hooks)]
fn totals(t: &SummaryTotals, total: u32, covered: u32, what: &str) {
    check(t.total == total, || format!("total of {} is wrong", what));
    check(t.covered == covered, || format!("covered of {} is wrong", what));
    check(t.skipped == 0, || format!("skipped of {} is wrong", what));
    let c = conc(covered as u64) as u32;
    check(pct(t) == Some(exact(c, total)), || format!("percentage of {} is wrong", what));
}
fn full1(mut c: FileCoverage) -> FileCoverage {
    c.statement_map.insert(0, lined(0, 0)); c.statement_map.insert(1, lined(0, 1)); c.s.insert(0, hit01()); c.s.insert(1, hit01());
    c.fn_map.insert(0, func(0, 1)); c.f.insert(0, hit01());
    c.branch_map.insert(0, branch(1, true)); c.b.insert(0, vec![hit01(), hit01()]);
    if let Some(t) = &mut c.b_t { t.insert(0, vec![hit01(), hit01()]); }
    c
}
#[cfg(verif_hooks)]
pub fn entry_totals() {
    let mut c = empty(choose(2, "logic") == 1);
    let kind = choose(4, "kind");
    if kind == 0 { for k in 0..choose(4, "n") as u32 { let l = choose(3, "line"); c.statement_map.insert(k, lined(l, k)); c.s.insert(k, hit01()); } }
    if kind == 1 { for k in 0..choose(4, "n") as u32 { c.fn_map.insert(k, func(k as u64, k)); c.f.insert(k, hit01()); } }
    if kind == 2 { for k in 0..choose(3, "n") as u32 { let p = choose(3, "paths"); c.branch_map.insert(k, branch(k as u64, true)); c.b.insert(k, (0..p).map(|_| hit01()).collect()); if let Some(t) = &mut c.b_t { if choose(2, "t") == 1 { t.insert(k, (0..p).map(|_| hit01()).collect()); } } } }
    if kind == 3 { c = full1(c); }
    ctx(&describe(&c));
    let s = c.to_summary();
    let (p, bt) = s.parts();
    cover("summarised");
    let pos = |v: &mut dyn Iterator<Item = u32>| v.map(|x| (x > 0) as u32).sum::<u32>();
    let lines: Vec<u32> = [1u32, 2, 11].iter().copied().filter(|l| c.statement_map.values().any(|r| r.start.line == *l)).collect();
    let lc: u32 = lines.iter().map(|l| c.statement_map.iter().filter(|(_, r)| r.start.line == *l).fold(false, |a, (k, _)| a | (c.s[k] > 0)) as u32).sum();
    totals(&p[0], lines.len() as u32, lc, "lines");
    totals(&p[1], c.s.len() as u32, pos(&mut c.s.values().copied()), "statements");
    totals(&p[2], c.f.len() as u32, pos(&mut c.f.values().copied()), "functions");
    let flat: Vec<u32> = c.b.values().flatten().copied().collect();
    totals(&p[3], flat.len() as u32, pos(&mut flat.iter().copied()), "branches");
    check(bt.is_some() == c.b_t.is_some(), || "truthiness totals are there without truthiness data, or missing".into());
    if let (Some(t), Some(m)) = (bt, &c.b_t) { let flat: Vec<u32> = m.values().flatten().copied().collect(); totals(&t, flat.len() as u32, pos(&mut flat.iter().copied()), "truthiness"); }
}
#[cfg(verif_hooks)]
pub fn entry_percent() {
    let bits = 8;
    let (c, t) = (u32v("covered"), u32v("total"));
    assume(c <= t); assume(t < 1 << bits);
    let p = percent_of(c, t);
    cover("computed");
    check(p >= 0.0 && p <= 100.0, || "percentage outside of 0..100".into());
    check((p == 100.0) == (c == t), || "the percentage is 100 without everything covered, or not 100".into());
    // rounded down to two decimals: 10000 * c / t in [100 p, 100 p + 1)
    check((p == 0.0) == (t != 0 && 10000 * c as u64 / (t as u64).max(1) == 0), || "the percentage is 0 although more than 0.01 % is covered".into());
}
#[cfg(verif_hooks)]
pub fn entry_percent_mono() {
    let t = [1u32, 2, 3, 7, 10, 97, 128][choose(7, "total") as usize];
    let c = u32v("covered");
    assume(c <= t);
    let p = percent_of(c, t);
    cover("computed");
    check(p == exact(c, t), || "the percentage is not covered / total rounded down to two decimals".into());
    if is(c < t) { check(percent_of(c + 1, t) >= p, || "the percentage shrinks when more is covered".into()); }
}
/// large totals: windows of covered counts around 0, one half, the ends and the powers of two at
/// which narrower arithmetic would wrap
#[cfg(verif_hooks)]
pub fn entry_percent_large() {
    const T: [u32; 9] = [300, 10000, 42950, 65537, 100003, 1000003, 16777217, 1 << 31, u32::MAX];
    let t = T[choose(T.len() as u64, "total") as usize];
    let base: [u64; 9] = [0, t as u64 / 2, t as u64, 655, 21474, 42949, 429496, 42949672, 1 << 31];
    // 2^16, 2^31 and 2^32 divided by 100, 10000 and 100000
    let k = choose(base.len() as u64, "window") as usize;
    assume(base[k] <= t as u64);
    let lo = base[k].saturating_sub(2) as u32;
    let d = u32v("offset");
    assume(d < 5 && d <= t - lo);
    let c = lo + d;
    let p = percent_of(c, t);
    cover("computed");
    check(p == exact(c, t), || "the percentage of a large total is not covered / total rounded down to two decimals".into());
    check((p == 100.0) == (c == t), || "the percentage of a large total is 100 without everything covered, or not 100".into());
}
/// no arithmetic failure for any two 32-bit numbers
#[cfg(verif_hooks)]
pub fn entry_percent_any() {
    let (c, t) = (u32v("covered"), u32v("total"));
    assume(c <= t);
    // integer part of the definition, at any size
    let _ = percent_of(c, t);
    cover("computed");
}
#[cfg(verif_hooks)]
pub fn entry_summary_merge() {
    let tot = |k: &str| { let (t, c, s) = (u32v(k), u32v(k), u32v(k)); assume(t < 32 && c <= t && s < 1 << 30); SummaryTotals::new(t, c, s, SummaryPercentage::Unknown) };
    let side = |k: &str| { let bt = if choose(2, "truth") == 1 { Some(tot(k)) } else { None }; Summary::new(tot(k), tot(k), tot(k), tot(k), bt) };
    let (mut a, b) = (side("a"), side("b"));
    let (x, xt) = a.parts(); let (y, yt) = b.parts();
    a.merge(&b);
    let (z, zt) = a.parts();
    cover("merged");
    let zero = SummaryTotals::new(0, 0, 0, SummaryPercentage::Unknown);
    check(zt.is_some() == (xt.is_some() || yt.is_some()), || "truthiness totals appear or disappear in the merge".into());
    let three = |a: &SummaryTotals, b: &SummaryTotals, m: &SummaryTotals, n: &str| {
        check((m.total == a.total + b.total) & (m.covered == a.covered + b.covered) & (m.skipped == a.skipped + b.skipped), || format!("totals of {} are not added", n));
    };
    for (i, n) in ["lines", "statements", "functions", "branches"].iter().enumerate() {
        three(&x[i], &y[i], &z[i], n);
        check(pct(&z[i]) == Some(percent_of(x[i].covered + y[i].covered, x[i].total + y[i].total)), || format!("the percentage of {} does not belong to the merged totals", n));
    }
    if let Some(t) = zt {
        three(&xt.unwrap_or(zero), &yt.unwrap_or(zero), &t, "truthiness");
        if yt.is_some() { check(pct(&t) == Some(percent_of(t.covered, t.total)), || "the percentage of truthiness does not belong to the merged totals".into()); }
    }
    check(a.is_empty() == (x[0].total + y[0].total == 0), || "a summary says it is empty although there are lines".into());
}
pub fn entry_reset() {
    let mut c = empty(choose(2, "logic") == 1);
    let kind = choose(4, "kind");
    if kind == 0 { add_stmts(&mut c, &pick(0, 3, 3)); }
    if kind == 1 { add_fns(&mut c, &pick(0, 3, 3), 1); }
    if kind == 2 { let p = pick(0, 2, 3); let t = choose(1 << p.len(), "truth"); add_branches(&mut c, &p, t); }
    if kind == 3 { add_stmts(&mut c, &pick(0, 1, 2)); add_fns(&mut c, &pick(0, 1, 2), 1); add_branches(&mut c, &[1], 1); }
    c.all = choose(2, "all") == 1;
    ctx(&describe(&c));
    let mut r = c.clone();
    r.reset_hits();
    cover("reset");
    let z = |v: &u32| *v == 0;
    check(r.s.values().fold(true, |a, v| a & z(v)), || "a statement count is not zero after the reset".into());
    check(r.f.values().fold(true, |a, v| a & z(v)), || "a function count is not zero after the reset".into());
    check(r.b.values().flatten().fold(true, |a, v| a & z(v)), || "a branch count is not zero after the reset".into());
    check(r.b_t.iter().flat_map(|m| m.values()).flatten().fold(true, |a, v| a & z(v)), || "a truthiness count is not zero after the reset".into());
    // everything but the counts is as before
    let mut back = r.clone();
    for (k, v) in &c.s { if let Some(x) = back.s.get_mut(k) { *x = *v; } }
    for (k, v) in &c.f { if let Some(x) = back.f.get_mut(k) { *x = *v; } }
    for (k, v) in &c.b { if let Some(x) = back.b.get_mut(k) { if x.len() == v.len() { *x = v.clone(); } } }
    if let (Some(m), Some(n)) = (&c.b_t, &mut back.b_t) { for (k, v) in m { if let Some(x) = n.get_mut(k) { if x.len() == v.len() { *x = v.clone(); } } } }
    check(same(&back, &c), || "the reset changed something else than the counts".into());
    if !c.all {
        let mut m = r.clone();
        let mut run = c.clone(); run.all = false;
        m.merge(&run);
        for l in 0..3 { check(stmt_at(&m, &loc(l)).1 == stmt_at(&c, &loc(l)).1 && branch_at(&m, l).1 == branch_at(&c, l).1 && truth_at(&m, l).1 == truth_at(&c, l).1, || "merging a run into the reset coverage does not give the run".into()); }
    }
}
