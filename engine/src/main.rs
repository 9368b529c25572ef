mod exec;
mod expr;
mod ir;
mod mem;
mod solver;

use std::io::Write;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::SeqCst};

extern "C" {
    fn fork() -> i32;
    fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    fn _exit(c: i32) -> !;
}

struct Shared { active: AtomicI64, violations: AtomicU64, crashed: AtomicU64 }

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } }
    o.push('"');
    o
}
fn jvals(v: &[(String, u32, u64)]) -> String { format!("[{}]", v.iter().map(|(n, w, x)| format!("[{},{},{}]", js(n), w, x)).collect::<Vec<_>>().join(",")) }

fn dump(e: &exec::Exec, path: &str, t0: std::time::Instant, left: usize) {
    let s = &e.st;
    let mut o = String::new();
    o.push_str(&format!("{{\"complete\":{},\"panics\":{},\"panics_ok\":{},\"assumed\":{},\"instrs\":{},\"forks\":{},\"states\":{},\"checks\":{},\"checks_sym\":{},\"discharged\":{},\"queries\":{},\"qhits\":{},\"unsat\":{},\"sat\":{},\"unknown\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"maxvars\":{},\"left\":{},\"wall\":{:.3}",
        s.complete, s.panics, s.panics_ok, s.assumed, s.instrs, s.forks, s.states, s.checks, s.checks_sym, s.discharged, e.so.queries, e.so.hits, e.so.unsat, e.so.sat, e.so.unknown, e.so.time.as_secs_f64(), e.so.max_time.as_secs_f64(), s.maxvars, left, t0.elapsed().as_secs_f64()));
    o.push_str(&format!(",\"errors\":{{{}}}", s.errors.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(",")));
    o.push_str(&format!(",\"covers\":{{{}}}", s.covers.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(",")));
    o.push_str(&format!(",\"vcount\":{{{}}}", s.vcount.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(",")));
    o.push_str(&format!(",\"violations\":[{}]", s.violations.iter().map(|v| format!("{{\"msg\":{},\"ctx\":{},\"vals\":{}}}", js(&v.msg), js(&v.ctx), jvals(&v.vals))).collect::<Vec<_>>().join(",")));
    o.push_str(&format!(",\"samples\":[{}]", s.samples.iter().map(|v| format!("{{\"ctx\":{},\"vals\":{},\"notes\":{:?}}}", js(&v.ctx), jvals(&v.vals), v.notes)).collect::<Vec<_>>().join(",")));
    let mut fs: Vec<String> = s.funcs.iter().map(|f| js(&exec::demangle(e.pr.fns[*f as usize].name))).collect();
    fs.sort();
    fs.dedup();
    o.push_str(&format!(",\"funcs\":[{}]", fs.join(",")));
    let mut fk: Vec<(u64, String)> = s.forksites.iter().map(|((f, pc), n)| (*n, format!("{}@{}", exec::demangle(e.pr.fns[*f as usize].name), pc))).collect();
    fk.sort_by(|a, b| b.cmp(a));
    fk.truncate(40);
    o.push_str(&format!(",\"forksites\":[{}]}}\n", fk.iter().map(|(n, s)| format!("[{},{}]", n, js(s))).collect::<Vec<_>>().join(",")));
    std::fs::write(path, o).unwrap();
}

fn rss_mb() -> u64 { std::fs::read_to_string("/proc/self/statm").ok().and_then(|t| t.split_whitespace().nth(1).and_then(|x| x.parse::<u64>().ok())).map_or(0, |p| p * 4096 / 1_000_000) }
fn real_main() {
    let mut entry = String::new();
    let mut out = String::from("/tmp/symx-out");
    let mut files: Vec<String> = vec![];
    let (mut jobs, mut timeout, mut qt) = (8i64, 600u64, 20000u32);
    let mut trace = false;
    let mut profile = false;
    let mut fixed: Option<Vec<u64>> = None;
    let mut smt: Option<String> = None;
    let mut maxsamples = 6;
    let mut every = 50;
    let mut cap = 64usize;
    let a: Vec<String> = std::env::args().collect();
    let mut i = 1;
    while i < a.len() {
        match a[i].as_str() {
            "--entry" => { i += 1; entry = a[i].clone(); }
            "--out" => { i += 1; out = a[i].clone(); }
            "--jobs" => { i += 1; jobs = a[i].parse().unwrap(); }
            "--timeout" => { i += 1; timeout = a[i].parse().unwrap(); }
            "--qtimeout" => { i += 1; qt = a[i].parse().unwrap(); }
            "--samples" => { i += 1; maxsamples = a[i].parse().unwrap(); }
            "--every" => { i += 1; every = a[i].parse().unwrap(); }
            "--cap" => { i += 1; cap = a[i].parse().unwrap(); }
            "--trace" => trace = true,
            "--profile" => profile = true,
            "--smt" => { i += 1; smt = Some(a[i].clone()); }
            "--fixed" => { i += 1; fixed = Some(std::fs::read_to_string(&a[i]).unwrap().split_whitespace().map(|x| x.parse().unwrap()).collect()); }
            "--list" => { i += 1; for l in std::fs::read_to_string(&a[i]).unwrap().lines() { if !l.trim().is_empty() { files.push(l.trim().to_string()); } } }
            x => files.push(x.to_string()),
        }
        i += 1;
    }
    let t0 = std::time::Instant::now();
    let pr = ir::Prog::load(&files);
    let tl = t0.elapsed();
    let mut e = exec::Exec::new(pr, qt);
    e.trace = trace;
    e.profile = profile;
    e.fixed = fixed;
    e.so.dump = smt;
    e.max_samples = maxsamples;
    e.sample_every = every;
    e.addr_cap = cap;
    e.deadline = t0 + std::time::Duration::from_secs(timeout);
    let fnid = match e.pr.globals.get(entry.as_str()) { Some(ir::Sym::Fn(i)) => *i, _ => { eprintln!("symx: no entry function {}", entry); std::process::exit(3) } };
    let s0 = e.initial(fnid);
    e.queue.push(s0);
    let sh: &'static Shared = unsafe {
        let p = mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0);
        std::ptr::write(p as *mut Shared, Shared { active: AtomicI64::new(1), violations: AtomicU64::new(0), crashed: AtomicU64::new(0) });
        &*(p as *const Shared)
    };
    // workers leave as soon as they are done; the root adopts and reaps the ones they started
    unsafe { prctl(36, 1, 0, 0, 0); }
    let mut child = false;
    let mut seq = 0;
    loop {
        if e.queue.is_empty() { break; }
        if std::time::Instant::now() > e.deadline { break; }
        if e.queue.len() >= 2 && jobs > 1 {
            if sh.active.load(SeqCst) < jobs {
                if sh.active.fetch_add(1, SeqCst) >= jobs { sh.active.fetch_sub(1, SeqCst); }
                else {
                    let half = e.queue.len() / 2;
                    let pid = unsafe { fork() };
                    if pid == 0 {
                        child = true;
                        e.queue.truncate(half.max(1));
                        e.st = Default::default();
                        e.so.queries = 0; e.so.hits = 0; e.so.sat = 0; e.so.unsat = 0; e.so.unknown = 0; e.so.time = Default::default(); e.so.max_time = Default::default(); e.so.dumped = 0;
                        continue;
                    } else if pid > 0 {
                        e.queue.drain(..half.max(1));
                    } else { sh.active.fetch_sub(1, SeqCst); }
                    seq += 1;
                    let _ = seq;
                    if e.queue.is_empty() { break; }
                }
            }
        }
        let s = e.queue.pop().unwrap();
        e.run(s);
        if e.st.complete % 512 == 511 && rss_mb() > 3300 { eprintln!("symx: worker stops at its memory limit"); break; }
    }
    let left = e.queue.len();
    dump(&e, &format!("{}/{}.json", out, std::process::id()), t0, left);
    if profile {
        let mut v: Vec<(u64, u32)> = e.prof.iter().map(|(f, n)| (*n, *f)).collect();
        v.sort();
        for (n, f) in v.iter().rev().take(40) { eprintln!("{:12} {}", n, exec::demangle(e.pr.fns[*f as usize].name)); }
    }
    sh.active.fetch_sub(1, SeqCst);
    if child { std::io::stdout().flush().ok(); unsafe { _exit(0) } }
    drop(e);
    loop {
        let mut st = 0;
        let k = unsafe { waitpid(-1, &mut st, 0) };
        if k < 0 { break; }
        if st != 0 { sh.crashed.fetch_add(1, SeqCst); eprintln!("symx: worker {} ended with status {:#x}", k, st); sh.active.fetch_sub(1, SeqCst); }
    }
    let c = sh.crashed.load(SeqCst);
    let _ = sh.violations.load(SeqCst);
    eprintln!("symx: load {:.2}s total {:.2}s", tl.as_secs_f64(), t0.elapsed().as_secs_f64());
    if c > 0 { std::process::exit(4); }
}

fn main() {
    let h = std::thread::Builder::new().stack_size(1 << 30).spawn(|| { if std::panic::catch_unwind(real_main).is_err() { unsafe { _exit(5) } } }).unwrap();
    if h.join().is_err() { unsafe { _exit(5) } }
}
