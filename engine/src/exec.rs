//! Symbolic interpreter.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::solver::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;

#[derive(Copy, Clone, Debug, PartialEq)]
pub enum V { C(u64), S(E) }

#[derive(Clone)]
pub struct Frame { pub f: &'static DFunc, pub pc: u32, pub regs: Vec<V>, pub ret_d: u32, pub fobj: u32, pub after: Option<&'static Target> }

#[derive(Clone)]
pub struct VarInfo { pub name: Rc<str>, pub w: u32 }

#[derive(Clone)]
pub struct State {
    pub mem: Mem,
    pub stack: Vec<Rc<Frame>>,
    pub cur: Frame,
    pub cons: Vec<E>,
    pub model: Vec<u64>,
    pub vars: Vec<VarInfo>,
    pub bound: VarSet,
    pub eqs: Vec<(E, u64)>,
    pub notes: Vec<(V, u32)>,
    pub panic_ok: bool,
    pub mask_hash: bool, // SipHash sees a fixed byte in place of each symbolic one
    pub ctx: Vec<(V, u32)>, // bytes of the current case description
    pub failed: bool,
    pub depth: u32,
    pub extra: Vec<u32>, // dynamic allocas
}

#[derive(Debug)]
pub enum Stop { End, Assume, Panic(String), Err(String), Exit(i32) }
type R<T> = Result<T, Stop>;

pub struct Violation { pub msg: String, pub ctx: String, pub vals: Vec<(String, u32, u64)> }
pub struct Sample { pub vals: Vec<(String, u32, u64)>, pub notes: Vec<u64>, pub ctx: String }

#[derive(Default)]
pub struct Stats {
    pub complete: u64, pub panics_ok: u64, pub panics: u64, pub assumed: u64, pub instrs: u64, pub forks: u64, pub states: u64,
    pub checks: u64, pub checks_sym: u64, pub discharged: u64,
    pub errors: BTreeMap<String, u64>,
    pub covers: BTreeMap<String, u64>,
    pub violations: Vec<Violation>,
    pub vcount: BTreeMap<String, u64>,
    pub samples: Vec<Sample>,
    pub funcs: HashSet<u32>,
    pub forksites: HashMap<(u32, u32), u64>,
    pub maxvars: usize,
}

pub struct Exec {
    pub pr: Prog,
    pub ex: Exprs,
    pub so: Solver,
    pub gbase: Vec<Option<Obj>>,
    pub queue: Vec<State>,
    pub st: Stats,
    pub addr_cap: usize,
    pub trace: bool,
    pub max_samples: usize,
    pub sample_every: u64,
    pub fixed: Option<Vec<u64>>,
    pub deadline: std::time::Instant,
    pub profile: bool,
    pub prof: HashMap<u32, u64>,
}

#[derive(Copy, Clone, PartialEq, Debug)]
#[repr(u16)]
enum Ic { No, Alloc, AllocZ, Dealloc, Realloc, Malloc, Calloc, Free, CRealloc, Memalign, Memcpy, Memset, Memcmp, Bcmp, Strlen, PanicFmt, PanicOther, PanicStr, RandKeys, StackLeft, Nop0, Abort, CpuFeat,
    SVar, SAssume, SCheck, SFail, SCover, SNote, SNative, SConc, SPanicOk, SCtx, SPeek, Memchr, Round, Getenv, Print, SMask, SipWrite }

pub fn demangle(n: &str) -> String {
    if let Some(r) = n.strip_prefix("_ZN") {
        let mut out: Vec<&str> = vec![];
        let mut r = r;
        loop {
            let k = r.bytes().take_while(|c| c.is_ascii_digit()).count();
            if k == 0 { break; }
            let len: usize = match r[..k].parse() { Ok(x) => x, _ => break };
            if r.len() < k + len { break; }
            out.push(&r[k..k + len]);
            r = &r[k + len..];
        }
        if let Some(l) = out.last() { if l.len() == 17 && l.starts_with('h') { out.pop(); } }
        let s = out.join("::");
        return s.replace("$LT$", "<").replace("$GT$", ">").replace("$u20$", " ").replace("$RF$", "&").replace("$C$", ",").replace("$u7b$", "{").replace("$u7d$", "}").replace("..", "::");
    }
    n.to_string()
}

fn intercept(n: &str) -> Ic {
    use Ic::*;
    match n {
        "malloc" => return Malloc, "calloc" => return Calloc, "free" => return Free, "realloc" => return CRealloc, "posix_memalign" | "aligned_alloc" => return Memalign,
        "memcpy" | "memmove" => return Memcpy, "memset" => return Memset, "memcmp" => return Memcmp, "bcmp" => return Bcmp, "strlen" => return Strlen, "memchr" => return Memchr,
        "abort" | "_exit" | "exit" => return Abort,
        "__cxa_thread_atexit_impl" | "pthread_key_create" | "pthread_setspecific" | "pthread_getspecific" | "sched_yield" | "syscall" => return Nop0,
        "getenv" => return Getenv,
        "rust_begin_unwind" | "__rust_start_panic" | "rust_panic" => return PanicOther,
        "fmod" | "round" => return Round,
        "symx_var" => return SVar, "symx_assume" => return SAssume, "symx_check" => return SCheck, "symx_fail" => return SFail, "symx_cover" => return SCover, "symx_note" => return SNote,
        "symx_is_native" => return SNative, "symx_conc" => return SConc, "symx_panic_ok" => return SPanicOk, "symx_ctx" => return SCtx, "symx_peek" => return SPeek, "symx_mask_hash" => return SMask,
        _ => {}
    }
    if n.starts_with("_R") {
        for (s, i) in [("12___rust_alloc", Alloc), ("19___rust_alloc_zeroed", AllocZ), ("14___rust_dealloc", Dealloc), ("14___rust_realloc", Realloc), ("17rust_begin_unwind", PanicOther), ("18___rust_start_panic", PanicOther), ("10rust_panic", PanicOther), ("35___rust_no_alloc_shim_is_unstable_v2", Nop0)] { if n.ends_with(s) { return i; } }
        return No;
    }
    match n { "__rust_alloc" | "__rdl_alloc" => return Alloc, "__rust_alloc_zeroed" | "__rdl_alloc_zeroed" => return AllocZ, "__rust_dealloc" | "__rdl_dealloc" => return Dealloc, "__rust_realloc" | "__rdl_realloc" => return Realloc, _ => {} }
    if n.starts_with("_ZN71_$LT$core..hash..sip..Hasher$LT$S$GT$$u20$as$u20$core..hash..Hasher$GT$5write17h") { return SipWrite; }
    if n.starts_with("_ZN") {
        if n.starts_with("_ZN4core9panicking9panic_fmt") || n.starts_with("_ZN4core9panicking18panic_nounwind_fmt") { return PanicFmt; }
        if n.starts_with("_ZN4core9panicking5panic17h") { return PanicStr; }
        if n.starts_with("_ZN4core9panicking") { return PanicOther; }
        if n.starts_with("_ZN3std9panicking20rust_panic_with_hook") || n.starts_with("_ZN3std9panicking11begin_panic") || n.starts_with("_ZN5alloc5alloc18handle_alloc_error") || n.starts_with("_ZN4core6option13unwrap_failed") || n.starts_with("_ZN4core6option13expect_failed") || n.starts_with("_ZN4core6result13unwrap_failed") || n.starts_with("_ZN4core5slice5index") && n.contains("fail") || n.starts_with("_ZN5alloc7raw_vec17capacity_overflow") || n.starts_with("_ZN5alloc7raw_vec12handle_error") || n.starts_with("_ZN4core4cell22panic_already") || n.starts_with("_ZN4core3str16slice_error_fail") || n.starts_with("_ZN3std7process5abort") { return PanicOther; }
        if n.contains("hashmap_random_keys") { return RandKeys; }
        if n.starts_with("_ZN7stacker15remaining_stack") { return StackLeft; }
        if n.starts_with("_ZN3std3sys12thread_local5guard3key6enable") || n.starts_with("_ZN3std3sys12thread_local11destructors10linux_like8register") { return Nop0; }
        if n.starts_with("_ZN10std_detect6detect5cache21detect_and_initialize") || n.starts_with("_ZN3std10std_detect6detect5cache21detect_and_initialize") { return CpuFeat; }
        if n.starts_with("_ZN3std2io5stdio6_print") || n.starts_with("_ZN3std2io5stdio7_eprint") { return Print; }
    }
    No
}

enum Flow { Next, Jump }

impl Exec {
    pub fn new(pr: Prog, timeout_ms: u32) -> Exec {
        Exec { pr, ex: Exprs::new(), so: Solver::new(timeout_ms), gbase: vec![], queue: vec![], st: Default::default(), addr_cap: 64, trace: false, max_samples: 6, sample_every: 50, fixed: None,
            deadline: std::time::Instant::now() + std::time::Duration::from_secs(100000), profile: false, prof: Default::default() }
    }
    pub fn initial(&mut self, fnid: u32) -> State {
        let f = self.pr.decode(&mut self.ex, fnid);
        State { mem: Mem::new(), stack: vec![], cur: Frame { f, pc: 0, regs: vec![V::C(0); f.nregs as usize], ret_d: 0, fobj: 0, after: None }, cons: vec![], model: vec![], vars: vec![], bound: NOVARS, eqs: vec![], notes: vec![], panic_ok: false, mask_hash: false, ctx: vec![], failed: false, depth: 0, extra: vec![] }
    }
    #[inline]
    fn get(&self, st: &State, o: Opd) -> V { match o { Opd::R(r) => st.cur.regs[r as usize], Opd::C(c) => V::C(c), Opd::K(e) => V::S(e) } }
    fn e(&mut self, v: V, w: u32) -> E { match v { V::C(c) => self.ex.cst(w, c as u128), V::S(e) => e } }
    fn norm(&mut self, e: E) -> V { if self.ex.w(e) <= 64 { if let Some(c) = self.ex.is_const(e) { return V::C(c as u64); } } V::S(e) }

    // ------------------------------------------------------------ constraints
    fn eval(&mut self, st: &State, e: E) -> u128 { self.ex.new_gen(); self.ex.eval(e, &st.model) }
    /// constant value if every variable of e is fixed on this path
    fn simp(&mut self, st: &State, e: E) -> Option<u128> {
        if let Some(c) = self.ex.is_const(e) { return Some(c); }
        if vs_empty(&vs_sub(&self.ex.vars[e as usize], &st.bound)) { return Some(self.eval(st, e)); }
        for (x, v) in &st.eqs { if *x == e { return Some(*v as u128); } }
        None
    }
    fn slice(&mut self, st: &State, extra: E) -> Vec<E> {
        let mut vs = self.ex.vars[extra as usize];
        let mut out = vec![extra];
        let mut used = vec![false; st.cons.len()];
        loop {
            let mut ch = false;
            for (i, &c) in st.cons.iter().enumerate() {
                if !used[i] && vs_inter(&self.ex.vars[c as usize], &vs) { used[i] = true; ch = true; out.push(c); vs = vs_or(&vs, &self.ex.vars[c as usize]); }
            }
            if !ch { break; }
        }
        out
    }
    fn query(&mut self, st: &State, extra: E) -> Res {
        if extra == 1 { return Res::Sat(vec![]); }
        if extra == 0 { return Res::Unsat; }
        if st.cons.contains(&extra) { return Res::Sat(vec![]).clone(); }
        let neg = self.ex.not(extra);
        if st.cons.contains(&neg) { return Res::Unsat; }
        let mut cs = self.slice(st, extra);
        self.so.check(&self.ex, &mut cs)
    }
    fn add(&mut self, st: &mut State, c: E) {
        if c == 1 || st.cons.contains(&c) { return; }
        let n = self.ex.nodes[c as usize];
        if n.op == Op::And && n.w == 1 { self.add(st, n.a); self.add(st, n.b); return; }
        st.cons.push(c);
        // a variable (or an expression of one) pinned to a constant
        let mut pin = |this: &mut Self, st: &mut State, e: E, v: u64| {
            let k = this.ex.nodes[e as usize];
            if k.op == Op::Var { st.bound[(k.a / 64) as usize] |= 1u64 << (k.a % 64); }
            else { st.eqs.push((e, v)); }
        };
        if n.op == Op::Eq { if let Some(v) = self.ex.is_const(n.b) { if self.ex.w(n.a) <= 64 { pin(self, st, n.a, v as u64); } } }
        else if n.op == Op::Var { pin(self, st, c, 1); }
        else if n.op == Op::Xor && n.b == 1 && self.ex.nodes[n.a as usize].op == Op::Var { pin(self, st, n.a, 0); }
    }
    fn apply_model(st: &mut State, m: &[(u32, u64)]) { for (i, v) in m { let i = *i as usize; if i >= st.model.len() { st.model.resize(i + 1, 0); } st.model[i] = *v; } }
    fn forked(&mut self, st: &State) {
        self.st.forks += 1;
        *self.st.forksites.entry((st.cur.f.fnid, st.cur.pc)).or_insert(0) += 1;
    }
    /// decide a symbolic condition; returns this state's side and, if the other side is feasible, its state (positioned at the same instruction, constraint added)
    fn decide(&mut self, st: &mut State, c: E) -> R<(bool, Option<State>)> {
        if let Some(v) = self.simp(st, c) { return Ok((v != 0, None)); }
        let v = self.eval(st, c) != 0;
        let nc = self.ex.not(c);
        let (mine, other) = if v { (c, nc) } else { (nc, c) };
        match self.query(st, other) {
            Res::Unsat => { if self.ex.vars[c as usize] != NOVARS { st.eqs.push((c, v as u64)); } Ok((v, None)) }
            Res::Sat(m) => {
                let mut o = st.clone();
                o.depth += 1;
                Self::apply_model(&mut o, &m);
                self.add(&mut o, other);
                self.add(st, mine);
                self.forked(st);
                st.depth += 1;
                Ok((v, Some(o)))
            }
            Res::Unknown => { *self.st.errors.entry("solver: unknown".into()).or_insert(0) += 1; Err(Stop::Err("solver answered unknown".into())) }
        }
    }
    /// a concrete value for e; forks lazily over the other feasible values (the instruction is re-executed there)
    fn conc(&mut self, st: &mut State, v: V, w: u32) -> R<u64> {
        let e = match v { V::C(c) => return Ok(c), V::S(e) => e };
        if let Some(c) = self.simp(st, e) { return Ok(c as u64); }
        let x = self.eval(st, e);
        let k = self.ex.cst(w, x);
        let eq = self.ex.bin(Op::Eq, e, k);
        let ne = self.ex.not(eq);
        match self.query(st, ne) {
            Res::Unsat => { st.eqs.push((e, x as u64)); self.add(st, eq); Ok(x as u64) }
            Res::Sat(m) => {
                let mut o = st.clone();
                Self::apply_model(&mut o, &m);
                self.add(&mut o, ne);
                self.queue.push(o);
                self.forked(st);
                self.add(st, eq);
                st.eqs.push((e, x as u64));
                Ok(x as u64)
            }
            Res::Unknown => Err(Stop::Err("solver answered unknown".into())),
        }
    }

    // ------------------------------------------------------------ memory
    fn gobj(&mut self, id: u32) -> R<()> {
        if id == 0 || id as usize > self.pr.gobjs.len() { return Err(Stop::Err(format!("bad address: object {:#x}", id))); }
        if self.gbase.len() <= id as usize { self.gbase.resize_with(id as usize + 1, || None); }
        if self.gbase[id as usize].is_none() {
            let (b, ro) = self.pr.init_global(&mut self.ex, id);
            self.gbase[id as usize] = Some(Obj { b, sym: None, ro });
        }
        Ok(())
    }
    fn obj<'a>(&'a mut self, st: &'a State, addr: u64, n: u64) -> R<(&'a Obj, u32)> {
        let id = (addr >> 32) as u32;
        let off = addr as u32;
        let o: &Obj = if id < HEAP0 {
            match st.mem.gov.get(&id) { Some(o) => &**o, None => { self.gobj(id)?; self.gbase[id as usize].as_ref().unwrap() } }
        } else {
            match st.mem.get(id) { Some(o) => o, None => return Err(Stop::Err(format!("memory error: access to dead or invalid object {:#x}", addr))) }
        };
        if off as u64 + n > o.b.len() as u64 { return Err(Stop::Err(format!("memory error: out of bounds {:#x}+{} size {}", addr, n, o.b.len()))); }
        Ok((o, off))
    }
    fn obj_mut<'a>(&mut self, st: &'a mut State, addr: u64, n: u64) -> R<(&'a mut Obj, u32)> {
        let id = (addr >> 32) as u32;
        let off = addr as u32;
        let o: &mut Obj = if id < HEAP0 {
            if !st.mem.gov.contains_key(&id) {
                self.gobj(id)?;
                let b = self.gbase[id as usize].as_ref().unwrap().clone();
                if b.ro { return Err(Stop::Err(format!("memory error: write to constant global {}", self.pr.data[self.pr.gobjs[id as usize - 1] as usize].name))); }
                Rc::make_mut(&mut st.mem.gov).insert(id, Rc::new(b));
            }
            Rc::make_mut(Rc::make_mut(&mut st.mem.gov).get_mut(&id).unwrap())
        } else {
            match st.mem.get_mut(id) { Some(o) => o, None => return Err(Stop::Err(format!("memory error: write to dead or invalid object {:#x}", addr))) }
        };
        if off as u64 + n > o.b.len() as u64 { return Err(Stop::Err(format!("memory error: out of bounds write {:#x}+{} size {}", addr, n, o.b.len()))); }
        Ok((o, off))
    }
    fn load(&mut self, st: &State, addr: u64, w: u32) -> R<V> {
        let n = ((w + 7) / 8) as u64;
        let mut parts: Option<Vec<Result<u8, (E, u8)>>> = None;
        let r = {
            let (o, off) = self.obj(st, addr, n)?;
            if o.sym.is_some() && o.has_sym(off, n as u32) {
                let m = o.sym.as_ref().unwrap();
                parts = Some((0..n as u32).map(|i| match m.get(&(off + i)) { Some(x) => Err(*x), None => Ok(o.b[(off + i) as usize]) }).collect());
                0u128
            } else {
                let b = &o.b[off as usize..off as usize + n as usize];
                let mut x = 0u128;
                for i in (0..n as usize).rev() { x = (x << 8) | b[i] as u128; }
                x
            }
        };
        if let Some(ps) = parts {
            let e = self.join(&ps);
            let e = if w < n as u32 * 8 { self.ex.extract(e, 0, w) } else { e };
            return Ok(self.norm(e));
        }
        if w > 64 { let k = self.ex.cst(w, r); return Ok(V::S(k)); }
        Ok(V::C((r & mask(w)) as u64))
    }
    fn join(&mut self, ps: &[Result<u8, (E, u8)>]) -> E {
        if let Err((e, 0)) = ps[0] {
            if self.ex.w(e) == ps.len() as u32 * 8 && ps.iter().enumerate().all(|(i, p)| *p == Err((e, i as u8))) { return e; }
        }
        let mut acc: Option<E> = None;
        for p in ps.iter().rev() {
            let b = match p { Ok(c) => self.ex.cst(8, *c as u128), Err((e, i)) => self.ex.extract(*e, *i as u32 * 8, 8) };
            acc = Some(match acc { None => b, Some(a) => self.ex.concat(a, b) });
        }
        acc.unwrap()
    }
    fn store(&mut self, st: &mut State, addr: u64, w: u32, v: V) -> R<()> {
        let n = ((w + 7) / 8) as u64;
        match v {
            V::C(c) => {
                let (o, off) = self.obj_mut(st, addr, n)?;
                if o.sym.is_some() { o.clear_sym(off, n as u32); }
                o.b[off as usize..off as usize + n as usize].copy_from_slice(&(c as u128).to_le_bytes()[..n as usize]);
            }
            V::S(e) => {
                if let Some(c) = self.simp(st, e) {
                    let (o, off) = self.obj_mut(st, addr, n)?;
                    if o.sym.is_some() { o.clear_sym(off, n as u32); }
                    o.b[off as usize..off as usize + n as usize].copy_from_slice(&c.to_le_bytes()[..n as usize]);
                    return Ok(());
                }
                let e = if w < n as u32 * 8 { self.ex.zext(e, n as u32 * 8) } else { e };
                // store bytes that are constant as constants
                let bytes: Vec<E> = (0..n as u32).map(|i| self.ex.extract(e, i * 8, 8)).collect();
                let consts: Vec<Option<u128>> = bytes.iter().map(|b| self.ex.is_const(*b)).collect();
                let (o, off) = self.obj_mut(st, addr, n)?;
                o.clear_sym(off, n as u32);
                for i in 0..n as u32 {
                    match consts[i as usize] { Some(c) => o.b[(off + i) as usize] = c as u8, None => o.set_sym(off + i, e, i as u8) }
                }
            }
        }
        Ok(())
    }
    /// load through a possibly symbolic address: few feasible values -> if-then-else over them, no fork
    fn load_at(&mut self, st: &mut State, p: V, off: u32, w: u32) -> R<V> {
        let p = match p { V::S(e) => match self.simp(st, e) { Some(c) => V::C(c as u64), None => V::S(e) }, c => c };
        match p {
            V::C(a) => self.load(st, a.wrapping_add(off as u64), w),
            V::S(e) => {
                if let Some(r) = self.table(st, e, off, w)? { return Ok(r); }
                // enumerate feasible addresses
                let vals = match self.enumerate(st, e, self.addr_cap)? { Some(v) => v, None => { let a = self.conc(st, V::S(e), 64)?; return self.load(st, a.wrapping_add(off as u64), w); } };
                let mut acc: Option<E> = None;
                for a in vals.iter().rev() {
                    let v = self.load(st, a.wrapping_add(off as u64), w)?;
                    let v = self.e(v, w);
                    acc = Some(match acc { None => v, Some(r) => { let k = self.ex.cst(64, *a as u128); let c = self.ex.bin(Op::Eq, e, k); self.ex.ite(c, v, r) } });
                }
                let r = acc.unwrap();
                Ok(self.norm(r))
            }
        }
    }
    /// index into a constant table: if every feasible address is inside of the table, the value is
    /// a selection over all its entries (no enumeration)
    fn table(&mut self, st: &mut State, e: E, off: u32, w: u32) -> R<Option<V>> {
        let n = ((w + 7) / 8) as u64;
        let a0 = self.eval(st, e) as u64;
        let id = a0 >> 32;
        if id as u32 >= HEAP0 { return Ok(None); }
        let len = { let (o, _) = match self.obj(st, a0.wrapping_add(off as u64), n) { Ok(x) => x, Err(_) => return Ok(None) }; if !o.ro || o.sym.is_some() { return Ok(None); } o.b.len() as u64 };
        if len < 16 || len > 2048 || (off as u64) + n > len { return Ok(None); }
        // low bits that are known
        let mut stride = 1u64;
        for k in 0..4u32 { let b = self.ex.extract(e, k, 1); if self.ex.is_const(b).is_some() { stride <<= 1; } else { break; } }
        if (len - off as u64) / stride > 512 { return Ok(None); }
        let base = id << 32;
        let (bk, lim) = (self.ex.cst(64, base as u128), self.ex.cst(64, (len - off as u64 - n) as u128));
        let rel = self.ex.bin(Op::Sub, e, bk);
        let out = self.ex.bin(Op::Ult, lim, rel);
        match self.query(st, out) { Res::Unsat => {} _ => return Ok(None) }
        let mut acc: Option<E> = None;
        let mut a = a0 % stride;
        while a + n + off as u64 <= len {
            let v = self.load(st, base + a + off as u64, w)?;
            let v = self.e(v, w);
            acc = Some(match acc { None => v, Some(r) => { let k = self.ex.cst(64, (base + a) as u128); let c = self.ex.bin(Op::Eq, e, k); self.ex.ite(c, v, r) } });
            a += stride;
        }
        Ok(acc.map(|r| self.norm(r)))
    }
    /// all feasible values of e (at most cap), by solver enumeration
    fn enumerate(&mut self, st: &State, e: E, cap: usize) -> R<Option<Vec<u64>>> {
        let w = self.ex.w(e);
        let mut vals = vec![self.eval(st, e) as u64];
        let k = self.ex.cst(w, vals[0] as u128);
        let mut ex = { let q = self.ex.bin(Op::Eq, e, k); self.ex.not(q) };
        loop {
            match self.query(st, ex) {
                Res::Unsat => break,
                Res::Unknown => return Err(Stop::Err("solver answered unknown".into())),
                Res::Sat(m) => {
                    if vals.len() >= cap { return Ok(None); }
                    let mut mo = st.model.clone();
                    for (i, v) in &m { let i = *i as usize; if i >= mo.len() { mo.resize(i + 1, 0); } mo[i] = *v; }
                    self.ex.new_gen();
                    let x = self.ex.eval(e, &mo) as u64;
                    vals.push(x);
                    let k = self.ex.cst(w, x as u128);
                    let q = self.ex.bin(Op::Eq, e, k);
                    let nq = self.ex.not(q);
                    ex = self.ex.bin(Op::And, ex, nq);
                }
            }
        }
        vals.sort_unstable();
        Ok(Some(vals))
    }
    fn copy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 || d == s { return Ok(()); }
        let (b, sy) = {
            let (o, off) = self.obj(st, s, n)?;
            let b = o.b[off as usize..(off as u64 + n) as usize].to_vec();
            let sy: Option<Vec<(u32, (E, u8))>> = o.sym.as_ref().map(|m| m.range(off..off + n as u32).map(|(k, v)| (*k - off, *v)).collect());
            (b, sy)
        };
        let (o, off) = self.obj_mut(st, d, n)?;
        if o.sym.is_some() { o.clear_sym(off, n as u32); }
        o.b[off as usize..(off as u64 + n) as usize].copy_from_slice(&b);
        if let Some(sy) = sy { for (k, (e, i)) in sy { o.set_sym(off + k, e, i); } }
        Ok(())
    }
    fn bytes(&mut self, st: &State, p: u64, n: u64) -> R<Vec<(V, u32)>> {
        let mut v = vec![];
        for i in 0..n { v.push((self.load(st, p + i, 8)?, 8)); }
        Ok(v)
    }
    fn render(&mut self, st: &State, b: &[(V, u32)]) -> String {
        let v: Vec<u8> = b.iter().map(|(v, _)| match v { V::C(c) => *c as u8, V::S(e) => self.eval(st, *e) as u8 }).collect();
        String::from_utf8_lossy(&v).to_string()
    }
    fn vals(&self, st: &State) -> Vec<(String, u32, u64)> { st.vars.iter().enumerate().map(|(i, v)| (v.name.to_string(), v.w, st.model.get(i).copied().unwrap_or(0) & mask(v.w) as u64)).collect() }

    fn violation(&mut self, st: &mut State, msg: String) {
        st.failed = true;
        let n = self.st.vcount.entry(msg.clone()).or_insert(0);
        *n += 1;
        if *n <= 3 && self.st.violations.len() < 400 {
            let c = st.ctx.clone();
            let ctx = self.render(st, &c);
            let vals = self.vals(st);
            self.st.violations.push(Violation { msg, ctx, vals });
        }
    }

    // ------------------------------------------------------------ main loop
    /// run one state to its end
    pub fn run(&mut self, mut st: State) {
        self.st.states += 1;
        let r = self.steps(&mut st);
        if st.vars.len() > self.st.maxvars { self.st.maxvars = st.vars.len(); }
        match r {
            Ok(()) => unreachable!(),
            Err(Stop::End) => {
                self.st.complete += 1;
                if !st.failed && self.st.samples.len() < self.max_samples && (self.st.complete - 1) % self.sample_every == 0 {
                    let notes = st.notes.clone();
                    let notes: Vec<u64> = notes.iter().map(|(v, _)| match v { V::C(c) => *c, V::S(e) => self.eval(&st, *e) as u64 }).collect();
                    let c = st.ctx.clone();
                    let ctx = self.render(&st, &c);
                    self.st.samples.push(Sample { vals: self.vals(&st), notes, ctx });
                }
            }
            Err(Stop::Assume) => self.st.assumed += 1,
            Err(Stop::Exit(c)) => { *self.st.errors.entry(format!("exit({}) called{}", c, self.where_(&st))).or_insert(0) += 1; }
            Err(Stop::Panic(m)) => {
                if st.panic_ok { self.st.panics_ok += 1; } else { self.st.panics += 1; let m2 = format!("PANIC {}", m); self.violation(&mut st, m2); }
            }
            Err(Stop::Err(m)) => {
                let w = self.where_(&st);
                let c = st.ctx.clone();
                let ctx = self.render(&st, &c);
                *self.st.errors.entry(format!("{} at {} [{}]", m, w, ctx)).or_insert(0) += 1;
            }
        }
    }
    pub fn where_(&self, st: &State) -> String {
        let mut s = format!("{}@{}", demangle(st.cur.f.name), st.cur.pc);
        for f in st.stack.iter().rev().take(14) { s.push_str(" < "); s.push_str(&demangle(f.f.name)); }
        s
    }
    fn jump(&mut self, st: &mut State, t: &Target) {
        match t.moves.len() {
            0 => {}
            1 => { let v = self.get(st, t.moves[0].1); st.cur.regs[t.moves[0].0 as usize] = v; }
            _ => {
                let vs: smallbuf::Buf = t.moves.iter().map(|m| self.get(st, m.1)).collect();
                for (m, v) in t.moves.iter().zip(vs.iter()) { st.cur.regs[m.0 as usize] = *v; }
            }
        }
        st.cur.pc = t.pc;
    }
    fn steps(&mut self, st: &mut State) -> R<()> {
        let mut cnt = 0u64;
        let mut mark = 0u32;
        loop {
            let f = st.cur.f;
            let pc = st.cur.pc as usize;
            cnt += 1;
            self.st.instrs += 1;
            if cnt & 0xfffff == 0 && std::time::Instant::now() > self.deadline { return Err(Stop::Err("deadline".into())); }
            if self.profile { *self.prof.entry(f.fnid).or_insert(0) += 1; }
            let _ = &mut mark;
            match self.step(st, f, pc)? {
                Flow::Next => st.cur.pc += 1,
                Flow::Jump => {}
            }
        }
    }
    #[inline]
    fn step(&mut self, st: &mut State, f: &'static DFunc, pc: usize) -> R<Flow> {
        match &f.code[pc] {
            I::Bin { op, w, d, a, b } => {
                let (x, y) = (self.get(st, *a), self.get(st, *b));
                let r = if let (V::C(x), V::C(y)) = (x, y) {
                    let w = *w;
                    let m = if w == 64 { u64::MAX } else { (1u64 << w) - 1 };
                    V::C(match op {
                        Op::Add => x.wrapping_add(y) & m,
                        Op::Sub => x.wrapping_sub(y) & m,
                        Op::Mul => x.wrapping_mul(y) & m,
                        Op::And => x & y,
                        Op::Or => x | y,
                        Op::Xor => x ^ y,
                        Op::Shl => if y >= w as u64 { 0 } else { (x << y) & m },
                        Op::LShr => if y >= w as u64 { 0 } else { x >> y },
                        Op::UDiv => if y == 0 { return Err(Stop::Err("division by zero".into())) } else { x / y },
                        Op::URem => if y == 0 { return Err(Stop::Err("division by zero".into())) } else { x % y },
                        _ => Exprs::fold2(*op, w, x as u128, y as u128).unwrap() as u64,
                    })
                } else {
                    let (x, y) = (self.e(x, *w), self.e(y, *w));
                    let e = self.ex.bin(*op, x, y);
                    self.norm(e)
                };
                st.cur.regs[*d as usize] = r;
            }
            I::ICmp { p, w, d, a, b } => {
                let (x, y) = (self.get(st, *a), self.get(st, *b));
                let r = self.icmp(*p, *w, x, y);
                st.cur.regs[*d as usize] = r;
            }
            I::Load { d, w, p, off } => {
                let p = self.get(st, *p);
                let v = match p { V::C(a) => self.load(st, a.wrapping_add(*off as u64), *w)?, _ => self.load_at(st, p, *off, *w)? };
                st.cur.regs[*d as usize] = v;
            }
            I::Store { w, v, p, off } => {
                let p = self.get(st, *p);
                let p = self.conc(st, p, 64)?;
                let v = self.get(st, *v);
                self.store(st, p.wrapping_add(*off as u64), *w, v)?;
            }
            I::Gep { d, base, off, idx } => {
                let b = self.get(st, *base);
                let mut r = match b { V::C(x) => V::C(x.wrapping_add(*off)), V::S(e) => { let k = self.ex.cst(64, *off as u128); let e = self.ex.bin(Op::Add, e, k); self.norm(e) } };
                for (o, w, sc) in idx.iter() {
                    let x = self.get(st, *o);
                    r = match (r, x) {
                        (V::C(r), V::C(x)) => V::C(r.wrapping_add((sext(x as u128, *w) as i64 as u64).wrapping_mul(*sc))),
                        _ => {
                            let xe = self.e(x, *w);
                            let xe = if *w < 64 { self.ex.sext(xe, 64) } else { xe };
                            let k = self.ex.cst(64, *sc as u128);
                            let m = self.ex.bin(Op::Mul, xe, k);
                            let re = self.e(r, 64);
                            let e = self.ex.bin(Op::Add, re, m);
                            self.norm(e)
                        }
                    };
                }
                st.cur.regs[*d as usize] = r;
            }
            I::Frame { d, off } => {
                if st.cur.fobj == 0 { st.cur.fobj = st.mem.alloc(f.frame as usize); }
                st.cur.regs[*d as usize] = V::C(((st.cur.fobj as u64) << 32) + *off as u64);
            }
            I::Copy { d, a } => { let v = self.get(st, *a); st.cur.regs[*d as usize] = v; }
            I::Cast { op, fw, tw, d, a } => {
                let x = self.get(st, *a);
                let r = match (op, x) {
                    (Cast::Trunc, V::C(x)) => V::C(x & mask(*tw) as u64),
                    (Cast::Zext, V::C(x)) if *tw <= 64 => V::C(x),
                    (Cast::Sext, V::C(x)) if *tw <= 64 => V::C((sext(x as u128, *fw) as u64) & mask(*tw) as u64),
                    _ => {
                        let e = self.e(x, *fw);
                        let e = match op {
                            Cast::Trunc => self.ex.extract(e, 0, *tw),
                            Cast::Zext => self.ex.zext(e, *tw),
                            Cast::Sext => self.ex.sext(e, *tw),
                            Cast::FpTrunc => self.ex.fun(Op::FTrunc, e, *tw),
                            Cast::FpExt => self.ex.fun(Op::FExt, e, *tw),
                            Cast::FpToUi => self.ex.fun(Op::FToUi, e, *tw),
                            Cast::FpToSi => self.ex.fun(Op::FToSi, e, *tw),
                            Cast::UiToFp => self.ex.fun(Op::UiToF, e, *tw),
                            Cast::SiToFp => self.ex.fun(Op::SiToF, e, *tw),
                            Cast::Nop => e,
                        };
                        self.norm(e)
                    }
                };
                st.cur.regs[*d as usize] = r;
            }
            I::Sel { d, c, a, b, w } => {
                let c = self.get(st, *c);
                let (x, y) = (self.get(st, *a), self.get(st, *b));
                let r = match c {
                    V::C(c) => if c & 1 != 0 { x } else { y },
                    V::S(c) => match self.simp(st, c) {
                        Some(c) => if c != 0 { x } else { y },
                        None => { let (x, y) = (self.e(x, *w), self.e(y, *w)); let e = self.ex.ite(c, x, y); self.norm(e) }
                    },
                };
                st.cur.regs[*d as usize] = r;
            }
            I::Br(t) => { self.jump(st, t); return Ok(Flow::Jump); }
            I::CondBr { c, t, f } => {
                let c = self.get(st, *c);
                let v = match c {
                    V::C(c) => c & 1 != 0,
                    V::S(c) => {
                        let (v, o) = self.decide(st, c)?;
                        if let Some(mut o) = o { self.jump(&mut o, if v { f } else { t }); self.queue.push(o); }
                        v
                    }
                };
                self.jump(st, if v { t } else { f });
                return Ok(Flow::Jump);
            }
            I::Switch { w, v, cases, targets } => {
                let x = self.get(st, *v);
                let x = match x { V::S(e) => match self.simp(st, e) { Some(c) => V::C(c as u64), None => V::S(e) }, c => c };
                let ti = match x {
                    V::C(x) => cases.iter().find(|k| k.0 == x).map_or(0, |k| k.1),
                    V::S(e) => self.sym_switch(st, e, *w, cases, targets)?,
                };
                self.jump(st, &targets[ti as usize]);
                return Ok(Flow::Jump);
            }
            I::Call(c) => return self.call(st, c),
            I::Ret(v) => return self.ret(st, v),
            I::Unreachable => return Err(Stop::Err("unreachable executed".into())),
            I::FCmp { p, w, d, a, b } => {
                let (x, y) = (self.get(st, *a), self.get(st, *b));
                let (x, y) = (self.e(x, *w), self.e(y, *w));
                let (neg, p) = (p.starts_with('u') && *p != "uno", *p);
                let o = |this: &mut Self| this.ex.bin(Op::FUno, x, y);
                let e = match p {
                    "oeq" | "ueq" => self.ex.bin(Op::FOeq, x, y),
                    "olt" | "ult" => self.ex.bin(Op::FOlt, x, y),
                    "ole" | "ule" => self.ex.bin(Op::FOle, x, y),
                    "ogt" | "ugt" => self.ex.bin(Op::FOlt, y, x),
                    "oge" | "uge" => self.ex.bin(Op::FOle, y, x),
                    "one" => { let q = self.ex.bin(Op::FOeq, x, y); let n = o(self); let z = self.ex.bin(Op::Or, q, n); self.ex.not(z) }
                    "une" => { let q = self.ex.bin(Op::FOeq, x, y); self.ex.not(q) }
                    "ord" => { let n = o(self); self.ex.not(n) }
                    "uno" => o(self),
                    "true" => 1,
                    _ => 0,
                };
                let e = if neg && p != "une" { let n = o(self); self.ex.bin(Op::Or, e, n) } else { e };
                let r = self.norm(e);
                st.cur.regs[*d as usize] = r;
            }
            I::FNeg { w, d, a } => {
                let x = self.get(st, *a);
                let x = self.e(x, *w);
                let k = self.ex.cst(*w, 1u128 << (*w - 1));
                let e = self.ex.bin(Op::Xor, x, k);
                let r = self.norm(e);
                st.cur.regs[*d as usize] = r;
            }
            I::DynAlloca { d, n, size } => {
                let n = self.get(st, *n);
                let n = self.conc(st, n, 64)?;
                let o = st.mem.alloc((n * size) as usize);
                st.cur.regs[*d as usize] = V::C((o as u64) << 32);
            }
            I::CmpXchg { d, w, p, cmp, new } => {
                let p = self.get(st, *p);
                let p = self.conc(st, p, 64)?;
                let old = self.load(st, p, *w)?;
                let (c, n) = (self.get(st, *cmp), self.get(st, *new));
                let eq = self.icmp(Pred::Eq, *w, old, c);
                let v = match eq { V::C(1) => n, V::C(_) => old, V::S(q) => { let (a, b) = (self.e(n, *w), self.e(old, *w)); let e = self.ex.ite(q, a, b); self.norm(e) } };
                self.store(st, p, *w, v)?;
                st.cur.regs[*d as usize] = old;
                st.cur.regs[*d as usize + 1] = eq;
            }
            I::Rmw { op, w, d, p, v } => {
                let p = self.get(st, *p);
                let p = self.conc(st, p, 64)?;
                let old = self.load(st, p, *w)?;
                let v = self.get(st, *v);
                let (a, b) = (self.e(old, *w), self.e(v, *w));
                let e = match *op {
                    "xchg" => b,
                    "add" => self.ex.bin(Op::Add, a, b),
                    "sub" => self.ex.bin(Op::Sub, a, b),
                    "and" => self.ex.bin(Op::And, a, b),
                    "or" => self.ex.bin(Op::Or, a, b),
                    "xor" => self.ex.bin(Op::Xor, a, b),
                    "umax" => { let c = self.ex.bin(Op::Ult, a, b); self.ex.ite(c, b, a) }
                    "umin" => { let c = self.ex.bin(Op::Ult, a, b); self.ex.ite(c, a, b) }
                    _ => return Err(Stop::Err(format!("atomicrmw {}", op))),
                };
                let nv = self.norm(e);
                self.store(st, p, *w, nv)?;
                st.cur.regs[*d as usize] = old;
            }
            I::Repack { d, src, dw, nd } => {
                // concatenate (little end first), then cut
                let mut acc: Option<E> = None;
                let mut allc = true;
                let mut cv = 0u128;
                let mut sh = 0;
                for (o, w) in src.iter() {
                    let x = self.get(st, *o);
                    match x { V::C(c) if allc && sh < 128 => { cv |= (c as u128) << sh; sh += w; } _ => { allc = false; } }
                }
                if allc && sh <= 128 {
                    for i in 0..*nd {
                        let x = (cv >> (i * dw)) & mask(*dw);
                        st.cur.regs[(*d + i) as usize] = if *dw > 64 { V::S(self.ex.cst(*dw, x)) } else { V::C(x as u64) };
                    }
                } else {
                    for (o, w) in src.iter() {
                        let x = self.get(st, *o);
                        let x = self.e(x, *w);
                        acc = Some(match acc { None => x, Some(l) => self.ex.concat(x, l) });
                    }
                    let e = acc.unwrap();
                    for i in 0..*nd { let x = self.ex.extract(e, i * dw, *dw); let v = self.norm(x); st.cur.regs[(*d + i) as usize] = v; }
                }
            }
            I::Cpuid { d, n } => for i in 0..*n { st.cur.regs[(*d + i) as usize] = V::C(0); },
            I::AsmDiv { d, hi, lo, den } => {
                let g = |s: &Self, o| match s.get(st, o) { V::C(c) => Ok(c as u128), _ => Err(Stop::Err("symbolic asm div".into())) };
                let (h, l, n) = (g(self, *hi)?, g(self, *lo)?, g(self, *den)?);
                let x = (h << 64) | l;
                st.cur.regs[*d as usize] = V::C((x % n) as u64);
                st.cur.regs[*d as usize + 1] = V::C((x / n) as u64);
            }
            I::DynVec { d, src, idx, ins } => {
                let i = self.get(st, *idx);
                let i = self.conc(st, i, 64)? as usize;
                match ins {
                    None => { let v = self.get(st, src[i]); st.cur.regs[*d as usize] = v; }
                    Some(x) => { let x = self.get(st, *x); for j in 0..src.len() { let v = if j == i { x } else { self.get(st, src[j]) }; st.cur.regs[*d as usize + j] = v; } }
                }
            }
        }
        Ok(Flow::Next)
    }
    fn icmp(&mut self, p: Pred, w: u32, x: V, y: V) -> V {
        if let (V::C(x), V::C(y)) = (x, y) {
            let s = |v: u64| sext(v as u128, w) as i64;
            return V::C(match p { Pred::Eq => x == y, Pred::Ne => x != y, Pred::Ugt => x > y, Pred::Uge => x >= y, Pred::Ult => x < y, Pred::Ule => x <= y, Pred::Sgt => s(x) > s(y), Pred::Sge => s(x) >= s(y), Pred::Slt => s(x) < s(y), Pred::Sle => s(x) <= s(y) } as u64);
        }
        let (x, y) = (self.e(x, w), self.e(y, w));
        let e = match p {
            Pred::Eq => self.ex.bin(Op::Eq, x, y),
            Pred::Ne => { let q = self.ex.bin(Op::Eq, x, y); self.ex.not(q) }
            Pred::Ult => self.ex.bin(Op::Ult, x, y),
            Pred::Ule => self.ex.bin(Op::Ule, x, y),
            Pred::Ugt => self.ex.bin(Op::Ult, y, x),
            Pred::Uge => self.ex.bin(Op::Ule, y, x),
            Pred::Slt => self.ex.bin(Op::Slt, x, y),
            Pred::Sle => self.ex.bin(Op::Sle, x, y),
            Pred::Sgt => self.ex.bin(Op::Slt, y, x),
            Pred::Sge => self.ex.bin(Op::Sle, y, x),
        };
        self.norm(e)
    }
    /// fork over the feasible targets of a switch; returns this state's target
    fn sym_switch(&mut self, st: &mut State, e: E, w: u32, cases: &[(u64, u32)], targets: &[Target]) -> R<u32> {
        let mut conds: Vec<E> = vec![0; targets.len()];
        let mut any = 0;
        for (k, t) in cases { let kc = self.ex.cst(w, *k as u128); let q = self.ex.bin(Op::Eq, e, kc); any = self.ex.bin(Op::Or, any, q); conds[*t as usize] = self.ex.bin(Op::Or, conds[*t as usize], q); }
        let none = self.ex.not(any);
        conds[0] = self.ex.bin(Op::Or, conds[0], none);
        let x = self.eval(st, e) as u64;
        let mine = cases.iter().find(|k| k.0 == x).map_or(0, |k| k.1);
        let mut forked = false;
        for (i, t) in targets.iter().enumerate() {
            if i as u32 == mine || conds[i] == 0 { continue; }
            match self.query(st, conds[i]) {
                Res::Unsat => {}
                Res::Unknown => return Err(Stop::Err("solver answered unknown".into())),
                Res::Sat(m) => {
                    let mut o = st.clone();
                    o.depth += 1;
                    Self::apply_model(&mut o, &m);
                    self.add(&mut o, conds[i]);
                    self.jump(&mut o, t);
                    self.queue.push(o);
                    self.forked(st);
                    forked = true;
                }
            }
        }
        if forked { self.add(st, conds[mine as usize]); st.depth += 1; }
        Ok(mine)
    }
    fn ret(&mut self, st: &mut State, v: &[Opd]) -> R<Flow> {
        if st.stack.is_empty() { return Err(Stop::End); }
        if st.cur.fobj != 0 { st.mem.free(st.cur.fobj); }
        let d = st.cur.ret_d as usize;
        let top = st.stack.pop().unwrap();
        let caller = match Rc::try_unwrap(top) { Ok(f) => f, Err(rc) => (*rc).clone() };
        let callee = std::mem::replace(&mut st.cur, caller);
        for (i, o) in v.iter().enumerate() {
            st.cur.regs[d + i] = match *o { Opd::R(r) => callee.regs[r as usize], Opd::C(c) => V::C(c), Opd::K(e) => V::S(e) };
        }
        if let Some(t) = callee.after { self.jump(st, t); }
        Ok(Flow::Jump)
    }
    fn call(&mut self, st: &mut State, c: &'static CallI) -> R<Flow> {
        let fnid = match &c.callee {
            Callee::Fn(i) => *i,
            Callee::Ind(o) => {
                let v = self.get(st, *o);
                let a = self.conc(st, v, 64)?;
                let id = a >> 32;
                if id < FN_BASE || (a as u32) != 0 { return Err(Stop::Err(format!("indirect call to {:#x}", a))); }
                (id - FN_BASE) as u32
            }
            Callee::Intr(id, name) => {
                self.intrinsic(st, *id, name, c)?;
                return Ok(self.done(st, c));
            }
        };
        let ent = &mut self.pr.fns[fnid as usize];
        if !ent.icpt_done { let i = intercept(ent.name); ent.icpt = if i == Ic::No { None } else { Some(i as u16) }; ent.icpt_done = true; }
        if let Some(i) = ent.icpt {
            let ic: Ic = unsafe { std::mem::transmute(i) };
            if ic == Ic::SipWrite { return self.sip_write(st, fnid, c); }
            self.builtin(st, ic, fnid, c)?;
            return Ok(self.done(st, c));
        }
        self.enter(st, fnid, c, None)
    }
    /// a hash over symbolic bytes: on request of the harness the bytes are replaced by a fixed one
    fn sip_write(&mut self, st: &mut State, fnid: u32, c: &'static CallI) -> R<Flow> {
        if !st.mask_hash { return self.enter(st, fnid, c, None); }
        let p = self.carg(st, c, 1)?;
        let n = self.carg(st, c, 2)?;
        let b = self.bytes(st, p, n)?;
        if b.iter().all(|x| matches!(x.0, V::C(_))) { return self.enter(st, fnid, c, None); }
        let id = st.mem.alloc(n as usize);
        let o = st.mem.get_mut(id).unwrap();
        for (i, x) in b.iter().enumerate() { o.b[i] = match x.0 { V::C(v) => v as u8, V::S(_) => b'0' }; }
        self.enter(st, fnid, c, Some((1, V::C((id as u64) << 32))))
    }
    fn enter(&mut self, st: &mut State, fnid: u32, c: &'static CallI, sub: Option<(usize, V)>) -> R<Flow> {
        let ent = &mut self.pr.fns[fnid as usize];
        if ent.range.is_none() {
            return Err(Stop::Err(format!("call to undefined function {}", ent.name)));
        }
        let f = match ent.dec { Some(f) => f, None => self.pr.decode(&mut self.ex, fnid) };
        self.st.funcs.insert(fnid);
        if st.stack.len() > 4000 { return Err(Stop::Err("call depth".into())); }
        let mut regs = vec![V::C(0); f.nregs as usize];
        for (i, o) in c.args.iter().enumerate().take(f.nparams as usize) { regs[i] = self.get(st, *o); }
        if let Some((i, v)) = sub { regs[i] = v; }
        if self.trace { eprintln!("{:indent$}{}", "", demangle(f.name), indent = st.stack.len()); }
        let nf = Frame { f, pc: 0, regs, ret_d: c.d, fobj: 0, after: c.normal.as_ref() };
        let mut old = std::mem::replace(&mut st.cur, nf);
        if c.normal.is_none() { old.pc += 1; }
        st.stack.push(Rc::new(old));
        Ok(Flow::Jump)
    }
    fn done(&mut self, st: &mut State, c: &'static CallI) -> Flow { match &c.normal { Some(t) => { self.jump(st, t); Flow::Jump } None => Flow::Next } }
    fn arg(&self, st: &State, c: &CallI, i: usize) -> V { self.get(st, c.args[i]) }
    fn carg(&mut self, st: &mut State, c: &CallI, i: usize) -> R<u64> { let v = self.arg(st, c, i); self.conc(st, v, c.argw[i]) }
    fn set(&mut self, st: &mut State, c: &CallI, i: u32, v: V) { if i < c.nret { st.cur.regs[(c.d + i) as usize] = v; } }
    fn loc(&mut self, st: &State, p: u64) -> String {
        let g = |s: &mut Self, a: u64, w: u32| match s.load(st, a, w) { Ok(V::C(c)) => Some(c), _ => None };
        (|| {
            let f = g(self, p, 64)?;
            let n = g(self, p + 8, 64)?;
            let line = g(self, p + 16, 32)?;
            if n > 4096 { return None; }
            let b = self.bytes(st, f, n).ok()?;
            let s = self.render(st, &b);
            if line > 1_000_000 { return None; }
            Some(format!("{}:{}", s, line))
        })().unwrap_or_default()
    }
    fn short_where(&self, st: &State) -> String {
        // innermost frame inside the code under test
        for n in std::iter::once(st.cur.f.name).chain(st.stack.iter().rev().map(|f| f.f.name)) {
            let d = demangle(n);
            if d.contains("istanbul_oxide") || d.contains("swc_coverage_instrument") { return d; }
        }
        demangle(st.cur.f.name)
    }
    fn builtin(&mut self, st: &mut State, ic: Ic, fnid: u32, c: &'static CallI) -> R<()> {
        use Ic::*;
        match ic {
            Alloc | AllocZ | Malloc => {
                let n = self.carg(st, c, 0)?;
                if n > 1 << 28 { return Err(Stop::Err(format!("huge allocation {}", n))); }
                let o = st.mem.alloc(n as usize);
                self.set(st, c, 0, V::C((o as u64) << 32));
            }
            Calloc => { let n = self.carg(st, c, 0)? * self.carg(st, c, 1)?; let o = st.mem.alloc(n as usize); self.set(st, c, 0, V::C((o as u64) << 32)); }
            Memalign => return Err(Stop::Err("posix_memalign".into())),
            Dealloc | Free => {
                let p = self.carg(st, c, 0)?;
                if p != 0 { if p as u32 != 0 || !st.mem.free((p >> 32) as u32) { return Err(Stop::Err(format!("memory error: bad free {:#x}", p))); } }
            }
            Realloc | CRealloc => {
                let p = self.carg(st, c, 0)?;
                let n = self.carg(st, c, if ic == Realloc { 3 } else { 1 })?;
                let o = st.mem.alloc(n as usize);
                let na = (o as u64) << 32;
                if p != 0 {
                    let old = self.obj(st, p, 0)?.0.b.len() as u64;
                    self.copy(st, na, p, old.min(n))?;
                    st.mem.free((p >> 32) as u32);
                }
                self.set(st, c, 0, V::C(na));
            }
            Memcpy => { let d = self.carg(st, c, 0)?; let s = self.carg(st, c, 1)?; let n = self.carg(st, c, 2)?; self.copy(st, d, s, n)?; self.set(st, c, 0, V::C(d)); }
            Memset => { let d = self.carg(st, c, 0)?; let n = self.carg(st, c, 2)?; let v = self.arg(st, c, 1); let v = match v { V::C(x) => V::C(x & 255), V::S(e) => { let e = self.ex.extract(e, 0, 8); self.norm(e) } }; self.memset(st, d, v, n)?; self.set(st, c, 0, V::C(d)); }
            Memcmp | Bcmp => {
                let a = self.carg(st, c, 0)?; let b = self.carg(st, c, 1)?; let n = self.carg(st, c, 2)?;
                let r = self.memcmp(st, a, b, n, ic == Bcmp)?;
                self.set(st, c, 0, r);
            }
            Strlen => { let a = self.carg(st, c, 0)?; let mut n = 0; loop { match self.load(st, a + n, 8)? { V::C(0) => break, V::C(_) => n += 1, _ => return Err(Stop::Err("strlen on symbolic".into())) } } self.set(st, c, 0, V::C(n)); }
            Memchr => {
                let a = self.carg(st, c, 0)?; let x = self.carg(st, c, 1)? & 255; let n = self.carg(st, c, 2)?;
                let mut r = 0;
                for i in 0..n { match self.load(st, a + i, 8)? { V::C(y) => if y == x { r = a + i; break; }, v => { let y = self.conc(st, v, 8)?; if y == x { r = a + i; break; } } } }
                self.set(st, c, 0, V::C(r));
            }
            PanicFmt | PanicOther | PanicStr => {
                // find a Location argument among the pointer arguments
                let mut l = String::new();
                if ic == PanicStr {
                    if let (Ok(p), Ok(n)) = (self.carg(st, c, 0), self.carg(st, c, 1)) { if let Ok(b) = self.bytes(st, p, n) { l = format!("'{}' ", self.render(st, &b)); } }
                }
                for i in (0..c.args.len()).rev() {
                    if let V::C(p) = self.arg(st, c, i) { if p >> 32 != 0 && p >> 32 < HEAP0 as u64 { let s = self.loc(st, p); if s.contains(".rs:") { let f = s.rsplit('/').next().unwrap_or(&s).to_string(); l.push_str(&f); break; } } }
                }
                let who = demangle(self.pr.fns[fnid as usize].name);
                return Err(Stop::Panic(format!("{} in {} ({})", who.rsplit("::").next().unwrap_or(&who), self.short_where(st), l)));
            }
            StackLeft => { self.set(st, c, 0, V::C(1)); self.set(st, c, 1, V::C(1 << 40)); }
            RandKeys => { self.set(st, c, 0, V::C(0x0123456789abcdef)); self.set(st, c, 1, V::C(0xfedcba9876543210)); }
            Nop0 => { for i in 0..c.nret { self.set(st, c, i, V::C(0)); } }
            Getenv => self.set(st, c, 0, V::C(0)),
            Print => {}
            Abort => return Err(Stop::Panic(format!("abort in {}", self.short_where(st)))),
            CpuFeat => {
                // "feature detection done, nothing available": bit 63 marks initialised words
                for i in 0..c.nret { self.set(st, c, i, V::C(1 << 63)); }
                // sret form
                if c.nret == 0 && !c.args.is_empty() { let p = self.carg(st, c, 0)?; for i in 0..2 { let _ = self.store(st, p + 8 * i, 64, V::C(1 << 63)); } }
            }
            Round => {
                let name = self.pr.fns[fnid as usize].name;
                let x = self.carg(st, c, 0)?;
                let r = if name == "round" { f64::from_bits(x).round() } else { let y = self.carg(st, c, 1)?; f64::from_bits(x) % f64::from_bits(y) };
                self.set(st, c, 0, V::C(r.to_bits()));
            }
            // ---------------------------------------------------- harness interface
            SVar => {
                let w = self.carg(st, c, 0)? as u32;
                let p = self.carg(st, c, 1)?; let n = self.carg(st, c, 2)?;
                let b = self.bytes(st, p, n)?;
                let name = self.render(st, &b);
                let idx = st.vars.len() as u32;
                if idx >= 256 { return Err(Stop::Err("too many symbolic variables".into())); }
                let v = self.ex.var(w, idx);
                st.vars.push(VarInfo { name: name.into(), w });
                if st.model.len() <= idx as usize { st.model.resize(idx as usize + 1, 0); }
                if let Some(f) = &self.fixed {
                    let x = f.get(idx as usize).copied().unwrap_or(0) & mask(w) as u64;
                    self.set(st, c, 0, V::C(x));
                    st.model[idx as usize] = x;
                    return Ok(());
                }
                let e = self.ex.zext(v, 64);
                self.set(st, c, 0, V::S(e));
            }
            SAssume => {
                let v = self.arg(st, c, 0);
                match v {
                    V::C(x) => if x & 1 == 0 { return Err(Stop::Assume); },
                    V::S(e) => {
                        let e = if self.ex.w(e) > 1 { self.ex.extract(e, 0, 1) } else { e };
                        if let Some(x) = self.simp(st, e) { if x == 0 { return Err(Stop::Assume); } return Ok(()); }
                        if self.eval(st, e) == 0 {
                            match self.query(st, e) { Res::Unsat => return Err(Stop::Assume), Res::Sat(m) => Self::apply_model(st, &m), Res::Unknown => return Err(Stop::Err("solver answered unknown".into())) }
                        }
                        self.add(st, e);
                    }
                }
            }
            SCheck => {
                let v = self.arg(st, c, 0);
                let r = match v {
                    V::C(x) => { self.st.checks += 1; if x & 1 != 0 { self.st.discharged += 1; } x & 1 != 0 }
                    V::S(e) => {
                        let e = if self.ex.w(e) > 1 { self.ex.extract(e, 0, 1) } else { e };
                        if let Some(x) = self.simp(st, e) { self.st.checks += 1; if x != 0 { self.st.discharged += 1; } x != 0 }
                        else {
                            let (v, o) = self.decide(st, e)?;
                            self.st.checks += 1;
                            self.st.checks_sym += 1;
                            if v && o.is_none() { self.st.discharged += 1; }
                            if let Some(mut o) = o {
                                self.set(&mut o, c, 0, V::C(!v as u64));
                                match &c.normal { Some(t) => self.jump(&mut o, t), None => o.cur.pc += 1 }
                                self.queue.push(o);
                            }
                            v
                        }
                    }
                };
                self.set(st, c, 0, V::C(r as u64));
            }
            SFail => {
                let p = self.carg(st, c, 0)?; let n = self.carg(st, c, 1)?;
                let b = self.bytes(st, p, n)?;
                let m = self.render(st, &b);
                self.violation(st, m);
            }
            SCover => {
                let p = self.carg(st, c, 0)?; let n = self.carg(st, c, 1)?;
                let b = self.bytes(st, p, n)?;
                let m = self.render(st, &b);
                *self.st.covers.entry(m).or_insert(0) += 1;
            }
            SNote => { let v = self.arg(st, c, 0); st.notes.push((v, 64)); }
            SNative => self.set(st, c, 0, V::C(0)),
            SConc => { let v = self.carg(st, c, 0)?; self.set(st, c, 0, V::C(v)); }
            SPeek => { let v = self.arg(st, c, 0); let x = match v { V::C(x) => x, V::S(e) => self.eval(st, e) as u64 }; self.set(st, c, 0, V::C(x)); }
            SPanicOk => { let v = self.carg(st, c, 0)?; st.panic_ok = v != 0; }
            SMask => { let v = self.carg(st, c, 0)?; st.mask_hash = v != 0; }
            SipWrite => unreachable!(),
            SCtx => { let p = self.carg(st, c, 0)?; let n = self.carg(st, c, 1)?; st.ctx = self.bytes(st, p, n)?; }
            No => unreachable!(),
        }
        Ok(())
    }
    fn memset(&mut self, st: &mut State, d: u64, v: V, n: u64) -> R<()> {
        if n == 0 { return Ok(()); }
        match v {
            V::C(x) => { let (o, off) = self.obj_mut(st, d, n)?; if o.sym.is_some() { o.clear_sym(off, n as u32); } o.b[off as usize..(off as u64 + n) as usize].fill(x as u8); }
            V::S(_) => for i in 0..n { self.store(st, d + i, 8, v)?; },
        }
        Ok(())
    }
    fn memcmp(&mut self, st: &State, a: u64, b: u64, n: u64, eqonly: bool) -> R<V> {
        if n == 0 { return Ok(V::C(0)); }
        let symbolic = { let (o, off) = self.obj(st, a, n)?; o.has_sym(off, n as u32) } || { let (o, off) = self.obj(st, b, n)?; o.has_sym(off, n as u32) };
        if !symbolic {
            let x = { let (o, off) = self.obj(st, a, n)?; o.b[off as usize..(off as u64 + n) as usize].to_vec() };
            let (o, off) = self.obj(st, b, n)?;
            let y = &o.b[off as usize..(off as u64 + n) as usize];
            return Ok(V::C(match x[..].cmp(y) { std::cmp::Ordering::Less => 0xffff_ffff, std::cmp::Ordering::Equal => 0, _ => 1 }));
        }
        let mut xs = vec![];
        for i in 0..n { let x = self.load(st, a + i, 8)?; let y = self.load(st, b + i, 8)?; let x = self.e(x, 8); let y = self.e(y, 8); xs.push((x, y)); }
        let zero = self.ex.cst(32, 0);
        let one = self.ex.cst(32, 1);
        let neg = self.ex.cst(32, 0xffff_ffff);
        if eqonly {
            let mut all = 1;
            for (x, y) in xs { let q = self.ex.bin(Op::Eq, x, y); all = self.ex.bin(Op::And, all, q); if all == 0 { break; } }
            let r = self.ex.ite(all, zero, one);
            return Ok(self.norm(r));
        }
        let mut r = zero;
        for (x, y) in xs.into_iter().rev() {
            let q = self.ex.bin(Op::Eq, x, y);
            let l = self.ex.bin(Op::Ult, x, y);
            let d = self.ex.ite(l, neg, one);
            r = self.ex.ite(q, r, d);
        }
        Ok(self.norm(r))
    }
    fn intrinsic(&mut self, st: &mut State, id: Intr, name: &str, c: &'static CallI) -> R<()> {
        use Intr::*;
        let w = c.retw.first().copied().unwrap_or(0);
        macro_rules! ee { ($i:expr) => { { let v = self.arg(st, c, $i); self.e(v, c.argw[$i]) } } }
        macro_rules! out { ($i:expr, $e:expr) => { { let e = $e; let v = self.norm(e); self.set(st, c, $i, v); } } }
        match id {
            Memcpy | Memmove => { let d = self.carg(st, c, 0)?; let s = self.carg(st, c, 1)?; let n = self.carg(st, c, 2)?; self.copy(st, d, s, n)?; }
            Memset => { let d = self.carg(st, c, 0)?; let n = self.carg(st, c, 2)?; let v = self.arg(st, c, 1); self.memset(st, d, v, n)?; }
            UAddO | USubO | UMulO | SAddO | SSubO | SMulO => {
                let (a, b) = (ee!(0), ee!(1));
                match id {
                    UAddO => { let r = self.ex.bin(Op::Add, a, b); let o = self.ex.bin(Op::Ult, r, a); out!(0, r); out!(1, o); }
                    USubO => { let r = self.ex.bin(Op::Sub, a, b); let o = self.ex.bin(Op::Ult, a, b); out!(0, r); out!(1, o); }
                    UMulO | SMulO => {
                        let r = self.ex.bin(Op::Mul, a, b);
                        let o = if w <= 64 {
                            let (x, y) = if id == UMulO { (self.ex.zext(a, 2 * w), self.ex.zext(b, 2 * w)) } else { (self.ex.sext(a, 2 * w), self.ex.sext(b, 2 * w)) };
                            let p = self.ex.bin(Op::Mul, x, y);
                            let z = if id == UMulO { self.ex.zext(r, 2 * w) } else { self.ex.sext(r, 2 * w) };
                            let q = self.ex.bin(Op::Eq, p, z);
                            self.ex.not(q)
                        } else {
                            match (self.ex.is_const(a), self.ex.is_const(b)) { (Some(x), Some(y)) => x.checked_mul(y).is_none() as u32, _ => return Err(Stop::Err("wide mul overflow".into())) }
                        };
                        out!(0, r); out!(1, o);
                    }
                    SAddO | SSubO => {
                        let r = self.ex.bin(if id == SAddO { Op::Add } else { Op::Sub }, a, b);
                        let z = self.ex.cst(w, 0);
                        let (sa, sb, sr) = (self.ex.bin(Op::Slt, a, z), self.ex.bin(Op::Slt, b, z), self.ex.bin(Op::Slt, r, z));
                        let ab = { let q = self.ex.bin(Op::Xor, sa, sb); if id == SAddO { self.ex.not(q) } else { q } };
                        let ar = self.ex.bin(Op::Xor, sa, sr);
                        let o = self.ex.bin(Op::And, ab, ar);
                        out!(0, r); out!(1, o);
                    }
                    _ => unreachable!(),
                }
            }
            UMin | UMax | SMin | SMax => {
                let (a, b) = (ee!(0), ee!(1));
                let l = self.ex.bin(if matches!(id, UMin | UMax) { Op::Ult } else { Op::Slt }, a, b);
                let e = if matches!(id, UMin | SMin) { self.ex.ite(l, a, b) } else { self.ex.ite(l, b, a) };
                out!(0, e);
            }
            Fshl | Fshr => {
                let (a, b, s) = (ee!(0), ee!(1), ee!(2));
                let k = self.ex.cst(w, w as u128);
                let s = self.ex.bin(Op::URem, s, k);
                let inv = self.ex.bin(Op::Sub, k, s);
                let e = if id == Fshl { let x = self.ex.bin(Op::Shl, a, s); let y = self.ex.bin(Op::LShr, b, inv); self.ex.bin(Op::Or, x, y) } else { let x = self.ex.bin(Op::Shl, a, inv); let y = self.ex.bin(Op::LShr, b, s); self.ex.bin(Op::Or, x, y) };
                out!(0, e);
            }
            UAddSat => { let (a, b) = (ee!(0), ee!(1)); let r = self.ex.bin(Op::Add, a, b); let o = self.ex.bin(Op::Ult, r, a); let m = self.ex.cst(w, mask(w)); out!(0, self.ex.ite(o, m, r)); }
            USubSat => { let (a, b) = (ee!(0), ee!(1)); let r = self.ex.bin(Op::Sub, a, b); let o = self.ex.bin(Op::Ult, a, b); let m = self.ex.cst(w, 0); out!(0, self.ex.ite(o, m, r)); }
            Cttz | Ctlz => {
                let a = ee!(0);
                match self.ex.is_const(a) {
                    Some(x) => { let r = if id == Cttz { (x | (1u128 << (w - 1)) << 1).trailing_zeros().min(w) } else { (x << (128 - w)).leading_zeros().min(w) }; out!(0, self.ex.cst(w, r as u128)); }
                    None => {
                        let mut e = self.ex.cst(w, w as u128);
                        let order: Vec<u32> = if id == Cttz { (0..w).rev().collect() } else { (0..w).collect() };
                        for i in order { let b = self.ex.extract(a, i, 1); let k = self.ex.cst(w, (if id == Cttz { i } else { w - 1 - i }) as u128); e = self.ex.ite(b, k, e); }
                        out!(0, e);
                    }
                }
            }
            Ctpop => {
                let a = ee!(0);
                match self.ex.is_const(a) { Some(x) => out!(0, self.ex.cst(w, x.count_ones() as u128)), None => { let mut s = self.ex.cst(w, 0); for i in 0..w { let b = self.ex.extract(a, i, 1); let z = self.ex.zext(b, w); s = self.ex.bin(Op::Add, s, z); } out!(0, s); } }
            }
            Bswap => { let a = ee!(0); let mut e: Option<E> = None; for i in 0..w / 8 { let b = self.ex.extract(a, i * 8, 8); e = Some(match e { Some(x) => self.ex.concat(x, b), _ => b }); } out!(0, e.unwrap()); }
            Bitreverse => { let a = ee!(0); let mut e: Option<E> = None; for i in 0..w { let b = self.ex.extract(a, i, 1); e = Some(match e { Some(x) => self.ex.concat(x, b), _ => b }); } out!(0, e.unwrap()); }
            Abs => { let a = ee!(0); let z = self.ex.cst(w, 0); let n = self.ex.bin(Op::Sub, z, a); let s = self.ex.bin(Op::Slt, a, z); out!(0, self.ex.ite(s, n, a)); }
            SCmp | UCmp => {
                let (a, b) = (ee!(0), ee!(1));
                let o = if id == SCmp { Op::Slt } else { Op::Ult };
                let l = self.ex.bin(o, a, b);
                let q = self.ex.bin(Op::Eq, a, b);
                let (m, z, one) = (self.ex.cst(w, mask(w)), self.ex.cst(w, 0), self.ex.cst(w, 1));
                let x = self.ex.ite(q, z, one);
                out!(0, self.ex.ite(l, m, x));
            }
            Trap => return Err(Stop::Panic(format!("trap in {}", self.short_where(st)))),
            LoadRel => {
                let p = self.carg(st, c, 0)?;
                let o = self.carg(st, c, 1)?;
                let x = match self.load(st, p.wrapping_add(o), 32)? { V::C(x) => x, _ => return Err(Stop::Err("llvm.load.relative".into())) };
                let d = if x >> 29 == 7 && ((x & 0x1fff_ffff) as usize) < self.pr.rels.len() { self.pr.rels[(x & 0x1fff_ffff) as usize] } else { x as u32 as i32 as i64 as u64 };
                self.set(st, c, 0, V::C(p.wrapping_add(d)));
            }
            IsConst => self.set(st, c, 0, V::C(0)),
            Expect => { let v = self.arg(st, c, 0); self.set(st, c, 0, v); }
            TlsAddr => { let v = self.arg(st, c, 0); self.set(st, c, 0, v); }
            FAbs => { let a = ee!(0); let k = self.ex.cst(w, mask(w) >> 1); out!(0, self.ex.bin(Op::And, a, k)); }
            FFloor | FTrunc | FCeil | FRint | FSqrt => { let a = ee!(0); let o = match id { FFloor => Op::FFloor, FTrunc => Op::FTruncI, FCeil => Op::FCeil, FRint => Op::FRint, _ => Op::FSqrt }; out!(0, self.ex.fun(o, a, w)); }
            FLog2 => { let a = ee!(0); match (self.ex.is_const(a), w) { (Some(x), 64) => { let r = f64::from_bits(x as u64).log2(); out!(0, self.ex.cst(64, r.to_bits() as u128)) } _ => return Err(Stop::Err("llvm.log2".into())) } }
            FToUiSat | FToSiSat => {
                let a = ee!(0);
                let fw = c.argw[0];
                if self.ex.is_const(a).is_some() || (id == FToUiSat && fw == 64 && self.ex.nodes[a as usize].op == Op::UiToF && self.ex.w(self.ex.nodes[a as usize].a) <= 32.min(w)) { let o = if id == FToUiSat { Op::FToUiSat } else { Op::FToSiSat }; out!(0, self.ex.fun(o, a, w)); }
                else {
                    // clamp explicitly
                    let kf = |this: &mut Self, x: f64| if fw == 64 { this.ex.cst(64, x.to_bits() as u128) } else { this.ex.cst(32, (x as f32).to_bits() as u128) };
                    let (lo, hi, lov, hiv) = if id == FToUiSat { (0.0, (mask(w) as f64) + if w > 52 { 0.0 } else { 1.0 }, 0u128, mask(w)) } else { (-((1u128 << (w - 1)) as f64), (1u128 << (w - 1)) as f64, 1u128 << (w - 1), mask(w) >> 1) };
                    let (lo, hi) = (kf(self, lo), kf(self, hi));
                    let nan = self.ex.bin(Op::FUno, a, a);
                    let below = self.ex.bin(Op::FOle, a, lo);
                    let above = self.ex.bin(Op::FOle, hi, a);
                    let conv = self.ex.fun(if id == FToUiSat { Op::FToUi } else { Op::FToSi }, a, w);
                    let (z, lv, hv) = (self.ex.cst(w, 0), self.ex.cst(w, lov), self.ex.cst(w, hiv));
                    let e = self.ex.ite(above, hv, conv);
                    let e = self.ex.ite(below, lv, e);
                    let e = self.ex.ite(nan, z, e);
                    out!(0, e);
                }
            }
            FCopysign => { let (a, b) = (ee!(0), ee!(1)); let k = self.ex.cst(w, mask(w) >> 1); let s = self.ex.cst(w, 1u128 << (w - 1)); let x = self.ex.bin(Op::And, a, k); let y = self.ex.bin(Op::And, b, s); out!(0, self.ex.bin(Op::Or, x, y)); }
            FMin | FMax => {
                let (a, b) = (ee!(0), ee!(1));
                let l = if id == FMin { self.ex.bin(Op::FOlt, a, b) } else { self.ex.bin(Op::FOlt, b, a) };
                let nb = self.ex.bin(Op::FUno, b, b);
                let cnd = self.ex.bin(Op::Or, l, nb);
                out!(0, self.ex.ite(cnd, a, b));
            }
            FMulAdd => { let (a, b, d) = (ee!(0), ee!(1), ee!(2)); let m = self.ex.bin(Op::FMul, a, b); out!(0, self.ex.bin(Op::FAdd, m, d)); }
            Addcarry | Subborrow => {
                let (ci, a, b) = (ee!(0), ee!(1), ee!(2));
                let w = c.argw[1];
                let z = self.ex.cst(8, 0);
                let nz = { let q = self.ex.bin(Op::Eq, ci, z); self.ex.not(q) };
                let cw = self.ex.zext(nz, w);
                let o = if id == Addcarry { Op::Add } else { Op::Sub };
                let s1 = self.ex.bin(o, a, b);
                let o1 = if id == Addcarry { self.ex.bin(Op::Ult, s1, a) } else { self.ex.bin(Op::Ult, a, b) };
                let s2 = self.ex.bin(o, s1, cw);
                let o2 = if id == Addcarry { self.ex.bin(Op::Ult, s2, s1) } else { self.ex.bin(Op::Ult, s1, cw) };
                let oo = self.ex.bin(Op::Or, o1, o2);
                let co = self.ex.zext(oo, 8);
                out!(0, co); out!(1, s2);
            }
            ReduceAdd | ReduceOr | ReduceAnd | ReduceXor | ReduceUMax | ReduceUMin => {
                let mut e = ee!(0);
                for i in 1..c.args.len() {
                    let x = ee!(i);
                    e = match id { ReduceAdd => self.ex.bin(Op::Add, e, x), ReduceOr => self.ex.bin(Op::Or, e, x), ReduceAnd => self.ex.bin(Op::And, e, x), ReduceXor => self.ex.bin(Op::Xor, e, x),
                        ReduceUMax => { let l = self.ex.bin(Op::Ult, e, x); self.ex.ite(l, x, e) } _ => { let l = self.ex.bin(Op::Ult, e, x); self.ex.ite(l, e, x) } };
                }
                out!(0, e);
            }
            PMovMsk => {
                let n = c.args.len() as u32;
                let mut e: Option<E> = None;
                for i in 0..n { let x = ee!(i as usize); let b = self.ex.extract(x, 7, 1); e = Some(match e { None => b, Some(l) => self.ex.concat(b, l) }); }
                let e = self.ex.zext(e.unwrap(), w);
                out!(0, e);
            }
            _ => return Err(Stop::Err(format!("intrinsic {}", name))),
        }
        Ok(())
    }
}

mod smallbuf {
    use super::V;
    pub struct Buf { a: [V; 16], n: usize, v: Vec<V> }
    impl std::iter::FromIterator<V> for Buf {
        fn from_iter<T: IntoIterator<Item = V>>(it: T) -> Buf {
            let mut b = Buf { a: [V::C(0); 16], n: 0, v: Vec::new() };
            for x in it { if b.n < 16 { b.a[b.n] = x; } else { if b.n == 16 { b.v.extend_from_slice(&b.a); } b.v.push(x); } b.n += 1; }
            b
        }
    }
    impl Buf { pub fn iter(&self) -> std::slice::Iter<'_, V> { if self.n <= 16 { self.a[..self.n].iter() } else { self.v.iter() } } }
}
