//! Harness interface. Under the symbolic executor the `symx_*` functions are intercepted by name;
//! natively (counterexample replay, translator validation) they read concrete values from the file
//! named by SYMX_REPLAY and print what happened.
use std::sync::Mutex;

struct Native { vals: Vec<u64>, next: usize, ctx: String, names: Vec<String> }
static N: Mutex<Option<Native>> = Mutex::new(None);

fn with<R>(f: impl FnOnce(&mut Native) -> R) -> R {
    let mut g = N.lock().unwrap();
    if g.is_none() {
        let vals = match std::env::var("SYMX_REPLAY") {
            Ok(p) => std::fs::read_to_string(p).unwrap().split_whitespace().map(|x| x.parse().unwrap()).collect(),
            Err(_) => vec![],
        };
        *g = Some(Native { vals, next: 0, ctx: String::new(), names: vec![] });
    }
    f(g.as_mut().unwrap())
}
fn st<'a>(p: *const u8, n: usize) -> &'a str { unsafe { std::str::from_utf8(std::slice::from_raw_parts(p, n)).unwrap_or("?") } }

#[no_mangle] #[inline(never)]
pub extern "C" fn symx_var(w: u32, p: *const u8, n: usize) -> u64 {
    with(|s| {
        let v = s.vals.get(s.next).copied().unwrap_or(0);
        s.next += 1;
        s.names.push(st(p, n).to_string());
        if w >= 64 { v } else { v & ((1u64 << w) - 1) }
    })
}
#[no_mangle] #[inline(never)]
pub extern "C" fn symx_assume(c: bool) { if !c { println!("ASSUME-FAILED"); std::process::exit(0); } }
#[no_mangle] #[inline(never)]
pub extern "C" fn symx_check(c: bool) -> bool { std::hint::black_box(c) }
#[no_mangle] #[inline(never)]
pub extern "C" fn symx_fail(p: *const u8, n: usize) { println!("FAIL {}", st(p, n).replace('\n', "\\n")); with(|s| if !s.ctx.is_empty() { println!("CTX {}", s.ctx.replace('\n', "\\n")) }); }
#[no_mangle] #[inline(never)]
pub extern "C" fn symx_cover(p: *const u8, n: usize) { println!("COVER {}", st(p, n)); }
#[no_mangle] #[inline(never)]
pub extern "C" fn symx_note(v: u64) { println!("NOTE {}", v); }
#[no_mangle] #[inline(never)]
pub extern "C" fn symx_is_native() -> bool { std::hint::black_box(true) }
#[no_mangle] #[inline(never)]
pub extern "C" fn symx_conc(v: u64) -> u64 { std::hint::black_box(v) }
#[no_mangle] #[inline(never)]
pub extern "C" fn symx_peek(v: u64) -> u64 { std::hint::black_box(v) }
#[no_mangle] #[inline(never)]
pub extern "C" fn symx_panic_ok(v: bool) { std::hint::black_box(v); if v { println!("PANIC-OK"); } }
/// under the symbolic executor: SipHash sees a fixed byte in place of each symbolic one (for code
/// whose result must not depend on the value of the hash)
#[no_mangle] #[inline(never)]
pub extern "C" fn symx_mask_hash(v: bool) { std::hint::black_box(v); }
#[no_mangle] #[inline(never)]
pub extern "C" fn symx_ctx(p: *const u8, n: usize) { with(|s| s.ctx = st(p, n).to_string()); }

// ---- convenience layer -------------------------------------------------------------------------
pub fn var(w: u32, name: &str) -> u64 { symx_var(w, name.as_ptr(), name.len()) }
pub fn u8v(name: &str) -> u8 { var(8, name) as u8 }
pub fn u32v(name: &str) -> u32 { var(32, name) as u32 }
pub fn boolv(name: &str) -> bool { var(1, name) & 1 != 0 }
pub fn assume(c: bool) { symx_assume(c) }
/// symbolic value in [0, n)
pub fn below(n: u64, name: &str) -> u64 { if n <= 1 { return 0; } let v = var(if n <= 256 { 8 } else { 32 }, name); assume(v < n); v }
/// structural choice: one path per feasible value
pub fn choose(n: u64, name: &str) -> u64 { if n <= 1 { return 0; } symx_conc(below(n, name)) }
pub fn conc(v: u64) -> u64 { symx_conc(v) }
/// forks on a symbolic condition
pub fn is(c: bool) -> bool { symx_conc(c as u64) != 0 }
pub fn fail(msg: &str) { symx_fail(msg.as_ptr(), msg.len()) }
/// obligation: `c` must hold for every value of the symbolic inputs on this path
#[inline(always)]
pub fn check(c: bool, msg: impl FnOnce() -> String) -> bool { if !symx_check(c) { let m = msg(); fail(&m); false } else { true } }
pub fn cover(tag: &str) { symx_cover(tag.as_ptr(), tag.len()) }
pub fn note(v: u64) { symx_note(v) }
pub fn note_str(s: &str) { note_bytes(s.as_bytes()) }
pub fn note_bytes(b: &[u8]) { let mut h: u64 = 0xcbf29ce484222325; for c in b { h = (h ^ *c as u64).wrapping_mul(0x100000001b3); } symx_note(h) }
pub fn native() -> bool { symx_is_native() }
pub fn panic_ok(v: bool) { symx_panic_ok(v) }
pub fn mask_hash(v: bool) { symx_mask_hash(v) }
pub fn ctx(s: &str) { symx_ctx(s.as_ptr(), s.len()) }
