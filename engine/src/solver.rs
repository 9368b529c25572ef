//! Z3 back end (hand-declared C API).
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::CString;
use std::os::raw::{c_char, c_int, c_uint};

#[repr(C)] pub struct _P { _p: [u8; 0] }
type P = *mut _P;

extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_tactic(c: P, n: *const c_char) -> P;
    fn Z3_tactic_inc_ref(c: P, t: P);
    fn Z3_mk_solver_from_tactic(c: P, t: P) -> P;
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, comp: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sort_32(c: P) -> P;
    fn Z3_mk_fpa_sort_64(c: P) -> P;
    fn Z3_mk_fpa_rne(c: P) -> P;
    fn Z3_mk_fpa_rtz(c: P) -> P;
    fn Z3_mk_fpa_rtp(c: P) -> P;
    fn Z3_mk_fpa_rtn(c: P) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, bv: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_float(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_unsigned(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_signed(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_ubv(c: P, rm: P, t: P, sz: c_uint) -> P;
    fn Z3_mk_fpa_to_sbv(c: P, rm: P, t: P, sz: c_uint) -> P;
    fn Z3_mk_fpa_to_ieee_bv(c: P, t: P) -> P;
    fn Z3_mk_fpa_add(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sub(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_mul(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_div(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sqrt(c: P, rm: P, a: P) -> P;
    fn Z3_mk_fpa_round_to_integral(c: P, rm: P, a: P) -> P;
    fn Z3_mk_fpa_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_leq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_is_nan(c: P, a: P) -> P;
    fn Z3_get_error_code(c: P) -> c_int;
    fn Z3_get_error_msg(c: P, e: c_int) -> *const c_char;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
}

#[derive(Clone, Debug)]
pub enum Res {
    Unsat,
    Sat(Vec<(u32, u64)>),
    Unknown,
}

pub struct Solver {
    c: P,
    s: P,
    tactic: P,
    slow: P,
    asts: Vec<P>, // bv-sorted
    fps: HashMap<E, P>,
    cache: HashMap<Box<[E]>, Res, std::hash::BuildHasherDefault<Fx>>,
    pub queries: u64,
    pub hits: u64,
    pub unsat: u64,
    pub sat: u64,
    pub unknown: u64,
    pub time: std::time::Duration,
    pub max_time: std::time::Duration,
    pub dump: Option<String>,
    pub dumped: u64,
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Solver {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context(cfg);
            let s = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, s);
            let params = |ms: u32| {
                let p = Z3_mk_params(c);
                Z3_params_inc_ref(c, p);
                let k = CString::new("timeout").unwrap();
                Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), ms);
                p
            };
            // the incremental solver answers the easy queries; what it gives up on quickly goes
            // to a fresh solver with preprocessing
            Z3_solver_set_params(c, s, params(timeout_ms.min(60)));
            let slow = params(timeout_ms);
            let k = CString::new("default").unwrap();
            let tactic = Z3_mk_tactic(c, k.as_ptr());
            Z3_tactic_inc_ref(c, tactic);
            Solver { c, s, tactic, slow, asts: vec![], fps: HashMap::new(), cache: Default::default(), queries: 0, hits: 0, unsat: 0, sat: 0, unknown: 0, time: Default::default(), max_time: Default::default(), dump: None, dumped: 0 }
        }
    }
    fn err(&self) {
        unsafe {
            let e = Z3_get_error_code(self.c);
            if e != 0 {
                let m = std::ffi::CStr::from_ptr(Z3_get_error_msg(self.c, e));
                panic!("z3 error {:?}", m);
            }
        }
    }
    fn fsort(&self, w: u32) -> P { unsafe { if w == 64 { Z3_mk_fpa_sort_64(self.c) } else { Z3_mk_fpa_sort_32(self.c) } } }
    /// floating-point view of a bit-vector expression
    fn fp(&mut self, ex: &Exprs, e: E) -> P {
        if let Some(p) = self.fps.get(&e) { return *p; }
        let n = ex.nodes[e as usize];
        let w = n.w as u32;
        let c = self.c;
        use Op::*;
        let p = unsafe {
            let rne = Z3_mk_fpa_rne(c);
            match n.op {
                FAdd | FSub | FMul | FDiv => {
                    let a = self.fp(ex, n.a);
                    let b = self.fp(ex, n.b);
                    match n.op { FAdd => Z3_mk_fpa_add(c, rne, a, b), FSub => Z3_mk_fpa_sub(c, rne, a, b), FMul => Z3_mk_fpa_mul(c, rne, a, b), _ => Z3_mk_fpa_div(c, rne, a, b) }
                }
                UiToF => { let a = self.bv(ex, n.a); Z3_mk_fpa_to_fp_unsigned(c, rne, a, self.fsort(w)) }
                SiToF => { let a = self.bv(ex, n.a); Z3_mk_fpa_to_fp_signed(c, rne, a, self.fsort(w)) }
                FExt | FTrunc => { let a = self.fp(ex, n.a); Z3_mk_fpa_to_fp_float(c, rne, a, self.fsort(w)) }
                FFloor => { let a = self.fp(ex, n.a); Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtn(c), a) }
                FCeil => { let a = self.fp(ex, n.a); Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtp(c), a) }
                FTruncI => { let a = self.fp(ex, n.a); Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtz(c), a) }
                FRint => { let a = self.fp(ex, n.a); Z3_mk_fpa_round_to_integral(c, rne, a) }
                FSqrt => { let a = self.fp(ex, n.a); Z3_mk_fpa_sqrt(c, rne, a) }
                _ => { let a = self.bv(ex, e); Z3_mk_fpa_to_fp_bv(c, a, self.fsort(w)) }
            }
        };
        self.err();
        self.fps.insert(e, p);
        p
    }
    fn b2v(&self, b: P) -> P {
        unsafe {
            let s = Z3_mk_bv_sort(self.c, 1);
            Z3_mk_ite(self.c, b, Z3_mk_unsigned_int64(self.c, 1, s), Z3_mk_unsigned_int64(self.c, 0, s))
        }
    }
    fn bv(&mut self, ex: &Exprs, e: E) -> P {
        if let Some(p) = self.asts.get(e as usize) { if !p.is_null() { return *p; } }
        let n = ex.nodes[e as usize];
        let w = n.w as u32;
        let c = self.c;
        use Op::*;
        let p = unsafe {
            match n.op {
                Const => {
                    let s = CString::new(format!("{}", ex.is_const(e).unwrap())).unwrap();
                    Z3_mk_numeral(c, s.as_ptr(), Z3_mk_bv_sort(c, w))
                }
                Var => {
                    let s = CString::new(format!("v{}_{}", n.a, w)).unwrap();
                    Z3_mk_const(c, Z3_mk_string_symbol(c, s.as_ptr()), Z3_mk_bv_sort(c, w))
                }
                Ite => { let k = self.boolean(ex, n.a); let a = self.bv(ex, n.b); let b = self.bv(ex, n.c); Z3_mk_ite(c, k, a, b) }
                Zext => { let a = self.bv(ex, n.a); Z3_mk_zero_ext(c, w - ex.w(n.a), a) }
                Sext => { let a = self.bv(ex, n.a); Z3_mk_sign_ext(c, w - ex.w(n.a), a) }
                Extract => { let a = self.bv(ex, n.a); Z3_mk_extract(c, n.b + w - 1, n.b, a) }
                Concat => { let a = self.bv(ex, n.a); let b = self.bv(ex, n.b); Z3_mk_concat(c, a, b) }
                Eq | Ult | Ule | Slt | Sle | FOeq | FOlt | FOle | FUno => { let b = self.boolean(ex, e); self.b2v(b) }
                FAdd | FSub | FMul | FDiv | UiToF | SiToF | FExt | FTrunc | FFloor | FCeil | FTruncI | FRint | FSqrt => { let f = self.fp(ex, e); Z3_mk_fpa_to_ieee_bv(c, f) }
                FToUi => { let f = self.fp(ex, n.a); Z3_mk_fpa_to_ubv(c, Z3_mk_fpa_rtz(c), f, w) }
                FToSi => { let f = self.fp(ex, n.a); Z3_mk_fpa_to_sbv(c, Z3_mk_fpa_rtz(c), f, w) }
                FToUiSat | FToSiSat | FRem => panic!("symbolic {:?} not supported", n.op),
                _ => {
                    let a = self.bv(ex, n.a);
                    let b = self.bv(ex, n.b);
                    match n.op {
                        Add => Z3_mk_bvadd(c, a, b), Sub => Z3_mk_bvsub(c, a, b), Mul => Z3_mk_bvmul(c, a, b),
                        UDiv => Z3_mk_bvudiv(c, a, b), SDiv => Z3_mk_bvsdiv(c, a, b), URem => Z3_mk_bvurem(c, a, b), SRem => Z3_mk_bvsrem(c, a, b),
                        And => Z3_mk_bvand(c, a, b), Or => Z3_mk_bvor(c, a, b), Xor => Z3_mk_bvxor(c, a, b),
                        Shl => Z3_mk_bvshl(c, a, b), LShr => Z3_mk_bvlshr(c, a, b), AShr => Z3_mk_bvashr(c, a, b),
                        _ => unreachable!(),
                    }
                }
            }
        };
        self.err();
        if self.asts.len() <= e as usize { self.asts.resize(ex.nodes.len().max(e as usize + 1), std::ptr::null_mut()); }
        self.asts[e as usize] = p;
        p
    }
    fn boolean(&mut self, ex: &Exprs, e: E) -> P {
        let n = ex.nodes[e as usize];
        let c = self.c;
        use Op::*;
        unsafe {
            match n.op {
                Eq | Ult | Ule | Slt | Sle => {
                    let a = self.bv(ex, n.a);
                    let b = self.bv(ex, n.b);
                    match n.op { Eq => Z3_mk_eq(c, a, b), Ult => Z3_mk_bvult(c, a, b), Ule => Z3_mk_bvule(c, a, b), Slt => Z3_mk_bvslt(c, a, b), _ => Z3_mk_bvsle(c, a, b) }
                }
                FOeq | FOlt | FOle | FUno => {
                    let a = self.fp(ex, n.a);
                    let b = self.fp(ex, n.b);
                    match n.op { FOeq => Z3_mk_fpa_eq(c, a, b), FOlt => Z3_mk_fpa_lt(c, a, b), FOle => Z3_mk_fpa_leq(c, a, b), _ => { let x = [Z3_mk_fpa_is_nan(c, a), Z3_mk_fpa_is_nan(c, b)]; Z3_mk_or(c, 2, x.as_ptr()) } }
                }
                And if n.w == 1 => { let x = [self.boolean(ex, n.a), self.boolean(ex, n.b)]; Z3_mk_and(c, 2, x.as_ptr()) }
                Or if n.w == 1 => { let x = [self.boolean(ex, n.a), self.boolean(ex, n.b)]; Z3_mk_or(c, 2, x.as_ptr()) }
                Xor if n.w == 1 && n.b == 1 => { let x = self.boolean(ex, n.a); Z3_mk_not(c, x) }
                _ => {
                    let a = self.bv(ex, e);
                    let s = Z3_mk_bv_sort(c, 1);
                    Z3_mk_eq(c, a, Z3_mk_unsigned_int64(c, 1, s))
                }
            }
        }
    }
    /// satisfiability of the conjunction of `cs` (each of width 1)
    pub fn check(&mut self, ex: &Exprs, cs: &mut Vec<E>) -> Res {
        cs.sort_unstable();
        cs.dedup();
        if cs.iter().any(|&e| e == 0) { return Res::Unsat; }
        cs.retain(|&e| e != 1);
        if let Some(r) = self.cache.get(&cs[..]) { self.hits += 1; return r.clone(); }
        let t0 = std::time::Instant::now();
        self.queries += 1;
        let r = unsafe {
            Z3_solver_push(self.c, self.s);
            let mut vs = NOVARS;
            for &e in cs.iter() {
                let p = self.boolean(ex, e);
                Z3_solver_assert(self.c, self.s, p);
                vs = vs_or(&vs, &ex.vars[e as usize]);
            }
            let mut who = self.s;
            let mut r = Z3_solver_check(self.c, self.s);
            if r == 0 {
                who = Z3_mk_solver_from_tactic(self.c, self.tactic);
                Z3_solver_inc_ref(self.c, who);
                Z3_solver_set_params(self.c, who, self.slow);
                for &e in cs.iter() { let p = self.boolean(ex, e); Z3_solver_assert(self.c, who, p); }
                r = Z3_solver_check(self.c, who);
            }
            if let Some(d) = &self.dump {
                if self.dumped < 400 {
                    let t = std::ffi::CStr::from_ptr(Z3_solver_to_string(self.c, self.s)).to_string_lossy().to_string();
                    let _ = std::fs::write(format!("{}/q{}_{}_{}.smt2", d, std::process::id(), self.dumped, match r { 1 => "sat", -1 => "unsat", _ => "unknown" }), t + "\n(check-sat)\n");
                    self.dumped += 1;
                }
            }
            let r = match r {
                1 => {
                    self.sat += 1;
                    let m = Z3_solver_get_model(self.c, who);
                    Z3_model_inc_ref(self.c, m);
                    // collect variable nodes
                    let mut out = vec![];
                    let mut seen: std::collections::HashSet<E> = Default::default();
                    let mut stack: Vec<E> = cs.clone();
                    while let Some(e) = stack.pop() {
                        if vs_empty(&ex.vars[e as usize]) || !seen.insert(e) { continue; }
                        let n = ex.nodes[e as usize];
                        if n.op == Op::Var {
                            let a = self.bv(ex, e);
                            let mut v: P = std::ptr::null_mut();
                            let mut u = 0u64;
                            if !Z3_model_eval(self.c, m, a, true, &mut v) || !Z3_get_numeral_uint64(self.c, v, &mut u) { panic!("model eval"); }
                            out.push((n.a, u));
                            continue;
                        }
                        stack.push(n.a);
                        match n.op {
                            Op::Ite => { stack.push(n.b); stack.push(n.c); }
                            Op::Extract | Op::Zext | Op::Sext => {}
                            _ if n.op as u8 >= Op::UiToF as u8 => {}
                            _ => stack.push(n.b),
                        }
                    }
                    Z3_model_dec_ref(self.c, m);
                    Res::Sat(out)
                }
                -1 => { self.unsat += 1; Res::Unsat }
                _ => { self.unknown += 1; Res::Unknown }
            };
            if who != self.s { Z3_solver_dec_ref(self.c, who); }
            Z3_solver_pop(self.c, self.s, 1);
            r
        };
        let dt = t0.elapsed();
        self.time += dt;
        if dt > self.max_time { self.max_time = dt; }
        if self.cache.len() > 500_000 { self.cache.clear(); }
        self.cache.insert(cs.clone().into_boxed_slice(), r.clone());
        r
    }
}
