use crate::cov::*;
use istanbul_oxide::*;
use symx_rt::*;

/// the contract of a.merge(b), checked for all locations of the pool
pub fn check_merge(a: &FileCoverage, b: &FileCoverage) -> FileCoverage {
    let mut m = a.clone();
    ctx(&format!("{} + {}", describe(a), describe(b)));
    m.merge(b);
    cover("merged");
    matching(&m);
    check(m.path == a.path && !m.all && m.input_source_map == a.input_source_map, || "merge changed the path, the source map or the marking".into());
    for l in 0..POOL.len() as u64 {
        let r = loc(l);
        let (x, y, z) = (stmt_at(a, &r), stmt_at(b, &r), stmt_at(&m, &r));
        check(z.0 == (x.0 + y.0).min(1), || "the merged statements are not the union".into());
        check(z.1 == x.1.wrapping_add(y.1), || "statement hits are not added".into());
        let (x, y, z) = (fn_at(a, &r), fn_at(b, &r), fn_at(&m, &r));
        check(z.0 == (x.0 + y.0).min(1), || "the merged functions are not the union".into());
        check(z.1 == x.1.wrapping_add(y.1), || "function hits are not added".into());
        for f in m.fn_map.values().filter(|f| f.loc == r) { check(a.fn_map.values().chain(b.fn_map.values()).any(|g| g == f), || "a function's metadata changed in the merge".into()); }
        let (x, y, z) = (branch_at(a, l), branch_at(b, l), branch_at(&m, l));
        check(z.0 == (x.0 + y.0).min(1), || "the merged branches are not the union".into());
        for i in 0..3 { check(z.1[i] == x.1[i].wrapping_add(y.1[i]), || "branch hits are not added".into()); }
        let (x, y, z) = (truth_at(a, l), truth_at(b, l), truth_at(&m, l));
        check(z.0 == (x.0 + y.0).min(1), || "the merged truthiness data is not the union".into());
        for i in 0..3 { check(z.1[i] == x.1[i].wrapping_add(y.1[i]), || "truthiness hits are not added".into()); }
    }
    check(m.statement_map.values().all(|r| stmt_at(a, r).0 + stmt_at(b, r).0 > 0), || "merge made up a statement".into());
    check(m.fn_map.values().all(|f| fn_at(a, &f.loc).0 + fn_at(b, &f.loc).0 > 0), || "merge made up a function".into());
    check(m.branch_map.values().all(|x| a.branch_map.values().chain(b.branch_map.values()).any(|y| x == y)), || "merge made up or changed a branch".into());
    m
}
const FEW: u64 = 4;
pub fn entry_merge_stmts() {
    let (mut a, mut b) = (empty(false), empty(false));
    add_stmts(&mut a, &pick(0, 3, 3)); add_stmts(&mut b, &pick(0, 3, 3));
    check_merge(&a, &b);
}
pub fn entry_merge_fns() {
    let (mut a, mut b) = (empty(false), empty(false));
    add_fns(&mut a, &pick(0, 2, 3), 1); add_fns(&mut b, &pick(0, 2, 3), 2);
    check_merge(&a, &b);
}
pub fn entry_merge_branches() {
    let (mut a, mut b) = (empty(false), empty(false));
    let all = |v: Vec<u64>| v.into_iter().map(|i| if i == 3 { POOL.len() as u64 - 1 } else { i }).collect::<Vec<_>>();
    add_branches(&mut a, &all(pick(0, 2, FEW)), 0); add_branches(&mut b, &all(pick(0, 2, FEW)), 0);
    check_merge(&a, &b);
}
pub fn entry_merge_truth() { truth(2) }
pub fn entry_merge_truth_deep() { truth(3) }
fn truth(k: u64) {
    let (mut a, mut b) = (empty(choose(2, "logic") == 1), empty(choose(2, "logic") == 1));
    let p = pick(0, 2, k); let t = choose(1 << p.len(), "truth"); add_branches(&mut a, &p, t);
    let p = pick(0, 2, k); let t = choose(1 << p.len(), "truth"); add_branches(&mut b, &p, t);
    check_merge(&a, &b);
}
/// any two locations of the pool, for all three kinds: they are the same entry exactly if equal
pub fn entry_merge_keys() {
    let (i, j) = (choose(POOL.len() as u64, "a"), choose(POOL.len() as u64, "b"));
    let (mut a, mut b) = (empty(true), empty(true));
    for (c, l, t) in [(&mut a, i, 1), (&mut b, j, 2)] {
        c.statement_map.insert(0, loc(l)); c.s.insert(0, hits());
        c.fn_map.insert(0, func(l, t)); c.f.insert(0, hits());
        c.branch_map.insert(0, branch(l, true)); c.b.insert(0, (0..paths(l)).map(|_| hits()).collect());
        c.b_t.as_mut().unwrap().insert(0, (0..paths(l)).map(|_| hits()).collect());
    }
    check_merge(&a, &b);
}
pub fn entry_merge_mixed() {
    let (mut a, mut b) = (empty(true), empty(true));
    for (c, t) in [(&mut a, 1), (&mut b, 2)] {
        let p = pick(0, 1, 2); let n = p.len();
        for l in p { c.statement_map.insert(n as u32, loc(l)); c.s.insert(n as u32, hits()); }
        for l in pick(0, 1, 2) { c.fn_map.insert(3, func(l, t)); c.f.insert(3, hits()); }
        for l in pick(0, 1, 2) { c.branch_map.insert(2, branch(l, true)); c.b.insert(2, (0..paths(l)).map(|_| hits()).collect()); if choose(2, "t") == 1 { c.b_t.as_mut().unwrap().insert(2, (0..paths(l)).map(|_| hits()).collect()); } }
    }
    check_merge(&a, &b);
}
/// files marked as never loaded
pub fn entry_merge_all() {
    let (mut a, mut b) = (empty(true), empty(true));
    for (c, t) in [(&mut a, 1), (&mut b, 2)] {
        match choose(4, "kind") { 0 => add_stmts(c, &pick(0, 2, 2)), 1 => add_fns(c, &pick(0, 1, 2), t), 2 => { let p = pick(0, 1, 2); add_branches(c, &p, 1) } _ => { add_stmts(c, &[0]); add_fns(c, &[0], t); add_branches(c, &[1], 1) } }
    }
    let k = choose(3, "all");
    a.all = k != 1; b.all = k != 0;
    ctx(&format!("{} + {}", describe(&a), describe(&b)));
    let mut m = a.clone();
    m.merge(&b);
    cover("merged");
    if b.all { check(same(&m, &a), || "a file marked as never loaded changed the coverage".into()); }
    else { check(same(&m, &b), || "the coverage of a file marked as never loaded was not replaced".into()); }
}
/// equality without early exits on symbolic counts
pub fn same(x: &FileCoverage, y: &FileCoverage) -> bool {
    let hv = |a: &LineHitMap, b: &LineHitMap| a.len() == b.len() && a.keys().eq(b.keys()) && a.values().zip(b.values()).fold(true, |r, (p, q)| r & (p == q));
    let bv = |a: &BranchHitMap, b: &BranchHitMap| a.len() == b.len() && a.keys().eq(b.keys()) && a.values().zip(b.values()).all(|(p, q)| p.len() == q.len()) && a.values().zip(b.values()).fold(true, |r, (p, q)| r & p.iter().zip(q).fold(true, |r, (u, v)| r & (u == v)));
    x.all == y.all && x.path == y.path && x.statement_map == y.statement_map && x.fn_map == y.fn_map && x.branch_map == y.branch_map && x.input_source_map == y.input_source_map
        && x.b_t.is_some() == y.b_t.is_some() && hv(&x.s, &y.s) & hv(&x.f, &y.f) & bv(&x.b, &y.b) & match (&x.b_t, &y.b_t) { (Some(a), Some(b)) => bv(a, b), _ => true }
}
/// (a + b) + c: order of arrival does not matter
pub fn entry_merge_three() {
    let mut v = vec![empty(true), empty(true), empty(true)];
    for c in v.iter_mut() {
        for l in pick(0, 1, 2) { let k = choose(2, "id") as u32; c.statement_map.insert(k, loc(l)); c.s.insert(k, hits()); }
        for l in pick(0, 1, 2) { c.branch_map.insert(1, branch(l, true)); c.b.insert(1, (0..paths(l)).map(|_| hits()).collect()); c.b_t.as_mut().unwrap().insert(1, (0..paths(l)).map(|_| hits()).collect()); }
    }
    let ab = check_merge(&v[0], &v[1]);
    let abc = check_merge(&ab, &v[2]);
    let bc = check_merge(&v[1], &v[2]);
    let mut a = v[0].clone(); a.merge(&bc);
    let mut cba = v[2].clone(); cba.merge(&v[1]); cba.merge(&v[0]);
    for l in 0..3 {
        let r = loc(l);
        for o in [&a, &cba] {
            check(stmt_at(&abc, &r) == stmt_at(o, &r), || "the order of merging changes statement hits".into());
            check(branch_at(&abc, l).1 == branch_at(o, l).1, || "the order of merging changes branch hits".into());
            check(truth_at(&abc, l).1 == truth_at(o, l).1, || "the order of merging changes truthiness hits".into());
        }
    }
}
