//! Reader for textual LLVM IR: indexes modules, decodes functions lazily into a flat register form.
use crate::expr::{Exprs, FxMap, E};
use std::collections::HashMap;
use std::rc::Rc;

pub type S = &'static str;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void, Int(u32), Ptr, F32, F64,
    Struct(Rc<Vec<Ty>>, bool),
    Arr(u64, Rc<Ty>),
    Vec(u32, Rc<Ty>),
    Other,
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 1,
            Ty::Int(w) => match w { 0..=8 => 1, 9..=16 => 2, 17..=32 => 4, 33..=64 => 8, _ => 16 },
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Struct(f, p) => if *p { 1 } else { f.iter().map(|t| t.align()).max().unwrap_or(1) },
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.size().next_power_of_two().max(1),
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::Int(w) => { let b = ((*w as u64) + 7) / 8; let a = self.align(); (b + a - 1) / a * a }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Struct(f, p) => {
                let mut o = 0;
                for t in f.iter() { if !p { let a = t.align(); o = (o + a - 1) / a * a; } o += t.size(); }
                if !p { let a = self.align(); o = (o + a - 1) / a * a; }
                o
            }
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => { let b = (*n as u64) * (t.bits() as u64); (b + 7) / 8 }
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, p) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !p { let a = t.align(); o = (o + a - 1) / a * a; }
                    if k == i { return o; }
                    o += t.size();
                }
                panic!("field_off")
            }
            Ty::Arr(_, t) => i as u64 * t.size(),
            Ty::Vec(_, t) => i as u64 * t.size(),
            _ => panic!("field_off of scalar"),
        }
    }
    pub fn bits(&self) -> u32 {
        match self { Ty::Int(w) => *w, Ty::Ptr | Ty::F64 => 64, Ty::F32 => 32, Ty::Vec(n, t) => n * t.bits(), _ => panic!("bits of {:?}", self) }
    }
    pub fn nslots(&self) -> u32 {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::Struct(f, _) => f.iter().map(|t| t.nslots()).sum(),
            Ty::Arr(n, t) => *n as u32 * t.nslots(),
            Ty::Vec(n, t) => n * t.nslots(),
            _ => 1,
        }
    }
    /// (offset, width) of every scalar slot
    pub fn flat(&self, base: u64, out: &mut Vec<(u64, u32)>) {
        match self {
            Ty::Void | Ty::Other => {}
            Ty::Struct(f, _) => for (i, t) in f.iter().enumerate() { t.flat(base + self.field_off(i), out) },
            Ty::Arr(n, t) => for i in 0..*n { t.flat(base + i * t.size(), out) },
            Ty::Vec(n, t) => for i in 0..*n as u64 { t.flat(base + i * t.size(), out) },
            _ => out.push((base, self.bits())),
        }
    }
    pub fn widths(&self) -> Vec<u32> { let mut v = vec![]; self.flat(0, &mut v); v.into_iter().map(|x| x.1).collect() }
    pub fn elem(&self, i: usize) -> (Ty, u32) {
        // type and first slot of element i
        match self {
            Ty::Struct(f, _) => { let mut s = 0; for k in 0..i { s += f[k].nslots(); } (f[i].clone(), s) }
            Ty::Arr(_, t) | Ty::Vec(_, t) => ((**t).clone(), i as u32 * t.nslots()),
            _ => panic!("elem"),
        }
    }
    fn scalar(&self) -> (Ty, u32) { match self { Ty::Vec(n, t) => ((**t).clone(), *n), t => (t.clone(), 1) } }
}

#[derive(Copy, Clone, Debug, PartialEq)]
pub enum Opd { R(u32), C(u64), K(E) }

#[derive(Copy, Clone, Debug, PartialEq)]
pub enum Cast { Trunc, Zext, Sext, FpTrunc, FpExt, FpToUi, FpToSi, UiToFp, SiToFp, Nop }

#[derive(Copy, Clone, Debug, PartialEq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }

#[derive(Debug)]
pub struct Target { pub pc: u32, pub moves: Box<[(u32, Opd)]> }

#[derive(Debug)]
pub enum Callee { Fn(u32), Ind(Opd), Intr(Intr, S) }

#[derive(Copy, Clone, Debug, PartialEq)]
pub enum Intr {
    Memcpy, Memmove, Memset, UAddO, USubO, UMulO, SAddO, SSubO, SMulO, UMin, UMax, SMin, SMax, Fshl, Fshr, UAddSat, USubSat, SAddSat, SSubSat,
    Cttz, Ctlz, Ctpop, Bswap, Abs, SCmp, UCmp, Trap, LoadRel, IsConst, FAbs, FFloor, FTrunc, FCeil, FRint, FSqrt, FLog2, FToUiSat, FToSiSat, Expect, TlsAddr, Addcarry, Subborrow,
    Bitreverse, FCopysign, FMin, FMax, ReduceAdd, ReduceOr, ReduceAnd, ReduceXor, ReduceUMax, ReduceUMin, PMovMsk, Pshufb, FMulAdd, ObjSize, Asm, Unknown,
}
pub fn intr_id(n: &str) -> Intr {
    use Intr::*;
    let n = n.strip_prefix("llvm.").unwrap_or(n);
    for (p, i) in [("memcpy", Memcpy), ("memmove", Memmove), ("memset", Memset), ("uadd.with", UAddO), ("usub.with", USubO), ("umul.with", UMulO), ("sadd.with", SAddO), ("ssub.with", SSubO), ("smul.with", SMulO),
        ("umin.", UMin), ("umax.", UMax), ("smin.", SMin), ("smax.", SMax), ("fshl", Fshl), ("fshr", Fshr), ("uadd.sat", UAddSat), ("usub.sat", USubSat), ("sadd.sat", SAddSat), ("ssub.sat", SSubSat),
        ("cttz", Cttz), ("ctlz", Ctlz), ("ctpop", Ctpop), ("bswap", Bswap), ("bitreverse", Bitreverse), ("abs.", Abs), ("scmp", SCmp), ("ucmp", UCmp), ("trap", Trap), ("load.relative", LoadRel), ("is.constant", IsConst),
        ("fabs", FAbs), ("floor", FFloor), ("trunc", FTrunc), ("ceil", FCeil), ("rint", FRint), ("nearbyint", FRint), ("roundeven", FRint), ("sqrt", FSqrt), ("log2", FLog2), ("fptoui.sat", FToUiSat), ("fptosi.sat", FToSiSat), ("expect", Expect),
        ("threadlocal.address", TlsAddr), ("x86.addcarry", Addcarry), ("x86.subborrow", Subborrow), ("copysign", FCopysign), ("minnum", FMin), ("maxnum", FMax),
        ("vector.reduce.add", ReduceAdd), ("vector.reduce.or", ReduceOr), ("vector.reduce.and", ReduceAnd), ("vector.reduce.xor", ReduceXor), ("vector.reduce.umax", ReduceUMax), ("vector.reduce.umin", ReduceUMin),
        ("x86.sse2.pmovmskb", PMovMsk), ("x86.ssse3.pshuf.b.128", Pshufb), ("fmuladd", FMulAdd), ("objectsize", ObjSize)] {
        if n.starts_with(p) { return i; }
    }
    Unknown
}

#[derive(Debug)]
pub struct CallI { pub callee: Callee, pub args: Box<[Opd]>, pub argw: Box<[u32]>, pub d: u32, pub nret: u32, pub retw: Box<[u32]>, pub normal: Option<Target> }

#[derive(Debug)]
pub enum I {
    Bin { op: crate::expr::Op, w: u32, d: u32, a: Opd, b: Opd },
    ICmp { p: Pred, w: u32, d: u32, a: Opd, b: Opd },
    FCmp { p: S, w: u32, d: u32, a: Opd, b: Opd },
    Cast { op: Cast, fw: u32, tw: u32, d: u32, a: Opd },
    Sel { d: u32, c: Opd, a: Opd, b: Opd, w: u32 },
    Copy { d: u32, a: Opd },
    FNeg { w: u32, d: u32, a: Opd },
    Load { d: u32, w: u32, p: Opd, off: u32 },
    Store { w: u32, v: Opd, p: Opd, off: u32 },
    Gep { d: u32, base: Opd, off: u64, idx: Box<[(Opd, u32, u64)]> },
    Frame { d: u32, off: u32 },
    DynAlloca { d: u32, n: Opd, size: u64 },
    Call(Box<CallI>),
    Br(Target),
    CondBr { c: Opd, t: Target, f: Target },
    Switch { w: u32, v: Opd, cases: Box<[(u64, u32)]>, targets: Box<[Target]> }, // targets[0] default; case -> index
    Ret(Box<[Opd]>),
    Unreachable,
    CmpXchg { d: u32, w: u32, p: Opd, cmp: Opd, new: Opd },
    Rmw { op: S, w: u32, d: u32, p: Opd, v: Opd },
    Repack { d: u32, src: Box<[(Opd, u32)]>, dw: u32, nd: u32 },
    Cpuid { d: u32, n: u32 },
    DynVec { d: u32, src: Box<[Opd]>, idx: Opd, ins: Option<Opd> }, // extract/insert element with variable index
    AsmDiv { d: u32, hi: Opd, lo: Opd, den: Opd },
}

pub struct DFunc {
    pub name: S,
    pub fnid: u32,
    pub nregs: u32,
    pub nparams: u32,
    pub frame: u32,
    pub code: Vec<I>,
}

pub struct Module { pub path: String, pub text: &'static [u8], pub locals: HashMap<S, Sym>, pub types: HashMap<S, (usize, usize)>, tycache: HashMap<S, Ty> }

#[derive(Copy, Clone, Debug)]
pub enum Sym { Fn(u32), Data(u32), Alias(usize) }

pub struct FnEnt { pub name: S, pub module: u32, pub range: Option<(usize, usize)>, pub dec: Option<&'static DFunc>, pub icpt: Option<u16>, pub icpt_done: bool }
pub struct DataEnt { pub name: S, pub module: u32, pub at: usize, pub obj: u32 }

pub const FN_BASE: u64 = 0x6000_0000;

pub struct Prog {
    pub mods: Vec<Module>,
    pub fns: Vec<FnEnt>,
    pub data: Vec<DataEnt>,
    pub globals: FxMapS<Sym>,
    pub undef_fns: HashMap<S, u32>,
    pub gobjs: Vec<u32>, // object id-1 -> data index
    pub rels: Vec<u64>, // full values of the entries of relative tables
}
type FxMapS<V> = HashMap<S, V>;

pub struct Lex { pub t: &'static [u8], pub p: usize }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum T { W(S), L(S), G(S), N(S), Str(&'static [u8]), CStr(&'static [u8]), P(u8), Meta, Attr, End }

fn s(b: &'static [u8]) -> S { unsafe { std::str::from_utf8_unchecked(b) } }

impl Lex {
    pub fn new(t: &'static [u8]) -> Lex { Lex { t, p: 0 } }
    fn ws(&mut self) {
        while self.p < self.t.len() {
            let c = self.t[self.p];
            if c == b' ' || c == b'\n' || c == b'\t' || c == b'\r' { self.p += 1; }
            else if c == b';' { while self.p < self.t.len() && self.t[self.p] != b'\n' { self.p += 1; } }
            else { break; }
        }
    }
    fn quoted(&mut self) -> &'static [u8] {
        // at opening quote
        self.p += 1;
        let st = self.p;
        while self.t[self.p] != b'"' { self.p += 1; }
        let r = &self.t[st..self.p];
        self.p += 1;
        r
    }
    fn ident(&mut self) -> &'static [u8] {
        if self.t[self.p] == b'"' { return self.quoted(); }
        let st = self.p;
        while self.p < self.t.len() { let c = self.t[self.p]; if c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-' { self.p += 1 } else { break } }
        &self.t[st..self.p]
    }
    pub fn next(&mut self) -> T {
        self.ws();
        if self.p >= self.t.len() { return T::End; }
        let c = self.t[self.p];
        match c {
            b'%' => { self.p += 1; T::L(s(self.ident())) }
            b'@' => { self.p += 1; T::G(s(self.ident())) }
            b'"' => T::Str(self.quoted()),
            b'c' if self.t.get(self.p + 1) == Some(&b'"') => { self.p += 1; T::CStr(self.quoted()) }
            b'!' => {
                self.p += 1;
                if self.p < self.t.len() && (self.t[self.p].is_ascii_alphanumeric() || self.t[self.p] == b'_') { self.ident(); }
                else if self.p < self.t.len() && self.t[self.p] == b'"' { self.quoted(); }
                T::Meta
            }
            b'#' => { self.p += 1; self.ident(); T::Attr }
            b'+' | b'-' if self.p + 1 < self.t.len() && self.t[self.p + 1].is_ascii_alphabetic() => {
                let st = self.p;
                self.p += 1;
                while self.p < self.t.len() && self.t[self.p].is_ascii_alphanumeric() { self.p += 1; }
                if self.p < self.t.len() && self.t[self.p] == b'(' { while self.t[self.p] != b')' { self.p += 1; } self.p += 1; }
                T::N(s(&self.t[st..self.p]))
            }
            b'-' | b'0'..=b'9' => {
                let st = self.p;
                self.p += 1;
                while self.p < self.t.len() { let c = self.t[self.p]; if c.is_ascii_alphanumeric() || c == b'.' || ((c == b'+' || c == b'-') && (self.t[self.p - 1] == b'e')) { self.p += 1 } else { break } }
                T::N(s(&self.t[st..self.p]))
            }
            b'.' => { // "..."
                let st = self.p;
                while self.p < self.t.len() && self.t[self.p] == b'.' { self.p += 1; }
                T::W(s(&self.t[st..self.p]))
            }
            c if c.is_ascii_alphabetic() || c == b'_' || c == b'$' => {
                let st = self.p;
                while self.p < self.t.len() { let c = self.t[self.p]; if c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' { self.p += 1 } else { break } }
                T::W(s(&self.t[st..self.p]))
            }
            _ => { self.p += 1; T::P(c) }
        }
    }
    pub fn peek(&mut self) -> T { let p = self.p; let t = self.next(); self.p = p; t }
    pub fn eat(&mut self, c: u8) -> bool { if self.peek() == T::P(c) { self.next(); true } else { false } }
    pub fn exp(&mut self, c: u8) { let t = self.next(); if t != T::P(c) { panic!("expected '{}' got {:?} near: {}", c as char, t, self.ctx()); } }
    pub fn eatw(&mut self, w: &str) -> bool { if let T::W(x) = self.peek() { if x == w { self.next(); return true; } } false }
    pub fn ctx(&self) -> String { let a = self.p.saturating_sub(120); let b = (self.p + 120).min(self.t.len()); String::from_utf8_lossy(&self.t[a..b]).to_string() }
    /// skip a balanced bracket group whose opener is the next token
    fn balanced(&mut self) {
        let mut d = 0;
        loop {
            match self.next() {
                T::P(b'(') | T::P(b'[') | T::P(b'{') => d += 1,
                T::P(b')') | T::P(b']') | T::P(b'}') => { d -= 1; if d == 0 { return; } }
                T::End => panic!("unbalanced"),
                _ => {}
            }
        }
    }
}

fn find_nl(t: &[u8], p: usize) -> usize {
    extern "C" { fn memchr(s: *const u8, c: i32, n: usize) -> *const u8; }
    if p >= t.len() { return t.len(); }
    unsafe { let r = memchr(t.as_ptr().add(p), 10, t.len() - p); if r.is_null() { t.len() } else { r as usize - t.as_ptr() as usize } }
}
/// the @name following position p in a line
fn gname(t: &'static [u8], mut p: usize) -> S {
    while t[p] != b'@' { if t[p] == b'"' { p += 1; while t[p] != b'"' { p += 1; } } p += 1; }
    let mut l = Lex { t, p };
    match l.next() { T::G(n) => n, _ => unreachable!() }
}

pub struct RawMod { path: String, text: &'static [u8], defs: Vec<(S, usize, usize, bool)>, data: Vec<(S, usize, bool, bool)>, types: Vec<(S, usize, usize)> }

/// textual scan for definitions; cheap, run in parallel
pub fn scan(path: &str) -> RawMod {
    let v = std::fs::read(path).unwrap_or_else(|e| panic!("{}: {}", path, e));
    let text: &'static [u8] = Box::leak(v.into_boxed_slice());
    let mut m = RawMod { path: path.to_string(), text, defs: vec![], data: vec![], types: vec![] };
    let mut p = 0;
    while p < text.len() {
        let e = find_nl(text, p);
        if e > p {
            match text[p] {
                b'd' if text[p..].starts_with(b"define ") => {
                    let name = gname(text, p);
                    // ends with a line that is exactly "}"
                    let mut q = e + 1;
                    loop { let e2 = find_nl(text, q); if text[q] == b'}' && e2 == q + 1 { break; } q = e2 + 1; if q >= text.len() { panic!("unterminated function"); } }
                    let head = &text[p..e.min(p + 60)];
                    let local = head.starts_with(b"define internal") || head.starts_with(b"define private");
                    m.defs.push((name, p, q, local));
                    p = q + 2;
                    continue;
                }
                b'@' => {
                    let mut l = Lex { t: text, p };
                    let name = match l.next() { T::G(n) => n, _ => unreachable!() };
                    l.exp(b'=');
                    let mut local = false;
                    let mut ext = false;
                    loop {
                        match l.next() {
                            T::W("internal") | T::W("private") => local = true,
                            T::W("external") | T::W("extern_weak") => ext = true,
                            T::W("global") | T::W("constant") => { if !ext { m.data.push((name, p, local, false)); } break; }
                            T::W("alias") => { m.data.push((name, p, local, true)); break; }
                            T::P(b'(') => { l.p -= 1; l.balanced(); }
                            T::End => break,
                            _ => {}
                        }
                        if l.p > e { break; }
                    }
                }
                b'%' => {
                    let mut l = Lex { t: text, p };
                    if let T::L(n) = l.next() { l.exp(b'='); if l.eatw("type") { m.types.push((n, l.p, e)); } }
                }
                _ => {}
            }
        }
        p = e + 1;
    }
    m
}

const TYPEWORDS: &[&str] = &["ptr", "void", "float", "double", "label", "metadata", "half", "fp128", "x86_fp80", "token", "opaque"];
fn is_int_ty(w: &str) -> bool { w.len() > 1 && w.as_bytes()[0] == b'i' && w[1..].bytes().all(|c| c.is_ascii_digit()) }
const VALWORDS: &[&str] = &["null", "undef", "poison", "true", "false", "zeroinitializer", "getelementptr", "inttoptr", "ptrtoint", "bitcast", "splat", "none", "add", "sub", "trunc", "mul", "xor", "icmp", "select", "asm", "and", "shl", "or", "lshr"];

impl Prog {
    pub fn load(paths: &[String]) -> Prog {
        let n = paths.len();
        let raws: Vec<RawMod> = {
            let next = std::sync::atomic::AtomicUsize::new(0);
            let out = std::sync::Mutex::new((0..n).map(|_| None).collect::<Vec<Option<RawMod>>>());
            std::thread::scope(|sc| {
                for _ in 0..8 {
                    sc.spawn(|| loop {
                        let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                        if i >= n { break; }
                        let r = scan(&paths[i]);
                        out.lock().unwrap()[i] = Some(r);
                    });
                }
            });
            out.into_inner().unwrap().into_iter().map(|x| x.unwrap()).collect()
        };
        let mut pr = Prog { mods: vec![], fns: vec![], data: vec![], globals: Default::default(), undef_fns: Default::default(), gobjs: vec![], rels: vec![] };
        for r in raws {
            let mi = pr.mods.len() as u32;
            let mut locals = HashMap::new();
            for (n, a, b, local) in r.defs {
                let id = pr.fns.len() as u32;
                pr.fns.push(FnEnt { name: n, module: mi, range: Some((a, b)), dec: None, icpt: None, icpt_done: false });
                if local { locals.insert(n, Sym::Fn(id)); } else { pr.globals.entry(n).or_insert(Sym::Fn(id)); }
            }
            for (n, a, local, alias) in r.data {
                let sy = if alias { Sym::Alias(a) } else { let id = pr.data.len() as u32; pr.data.push(DataEnt { name: n, module: mi, at: a, obj: 0 }); Sym::Data(id) };
                if local || alias { locals.insert(n, sy); if !local { pr.globals.entry(n).or_insert(match sy { Sym::Alias(_) => { pr.data.push(DataEnt { name: n, module: mi, at: a, obj: u32::MAX }); Sym::Data(pr.data.len() as u32 - 1) } x => x }); } } else { pr.globals.entry(n).or_insert(sy); }
            }
            pr.mods.push(Module { path: r.path, text: r.text, locals, types: r.types.into_iter().map(|(n, a, b)| (n, (a, b))).collect(), tycache: HashMap::new() });
        }
        pr
    }
    pub fn resolve(&mut self, m: u32, name: S) -> Option<Sym> {
        let sy = match self.mods[m as usize].locals.get(name) { Some(s) => Some(*s), None => self.globals.get(name).copied() };
        match sy {
            Some(Sym::Alias(at)) => {
                let target = self.alias_target(m, at);
                self.resolve(m, target)
            }
            Some(Sym::Data(d)) if self.data[d as usize].obj == u32::MAX => {
                let (dm, at) = (self.data[d as usize].module, self.data[d as usize].at);
                let target = self.alias_target(dm, at);
                self.resolve(dm, target)
            }
            x => x,
        }
    }
    fn alias_target(&mut self, m: u32, at: usize) -> S {
        let text = self.mods[m as usize].text;
        let e = find_nl(text, at);
        let mut l = Lex::new(&text[at..e]);
        l.next();
        loop { if let T::W("alias") = l.next() { break; } }
        loop { match l.next() { T::G(n) => return n, T::End => panic!("alias"), _ => {} } }
    }
    pub fn fn_by_name(&mut self, m: u32, name: S) -> u32 {
        match self.resolve(m, name) {
            Some(Sym::Fn(i)) => i,
            Some(_) => panic!("{} is data", name),
            None => {
                if let Some(i) = self.undef_fns.get(name) { return *i; }
                let id = self.fns.len() as u32;
                self.fns.push(FnEnt { name, module: m, range: None, dec: None, icpt: None, icpt_done: false });
                self.undef_fns.insert(name, id);
                id
            }
        }
    }
    pub fn addr_of(&mut self, m: u32, name: S) -> u64 {
        match self.resolve(m, name) {
            Some(Sym::Fn(i)) => (FN_BASE + i as u64) << 32,
            Some(Sym::Data(d)) => {
                let de = &mut self.data[d as usize];
                if de.obj == 0 { self.gobjs.push(d); de.obj = self.gobjs.len() as u32; }
                (de.obj as u64) << 32
            }
            Some(Sym::Alias(_)) => unreachable!(),
            None => {
                // undefined: function declaration or extern weak data
                if name.starts_with("__cxa_thread_atexit_impl") || name == "gnu_get_libc_version" || name.starts_with("__dso_handle") { return 0; }
                let i = self.fn_by_name(m, name);
                (FN_BASE + i as u64) << 32
            }
        }
    }
    /// (size, bytes, constant?) of a global object
    pub fn init_global(&mut self, ex: &mut Exprs, obj: u32) -> (Vec<u8>, bool) {
        let d = self.gobjs[obj as usize - 1];
        let (m, at) = (self.data[d as usize].module, self.data[d as usize].at);
        let text = self.mods[m as usize].text;
        let e = find_nl(text, at);
        let mut l = Lex::new(&text[at..e]);
        l.next();
        l.exp(b'=');
        let cst;
        loop { match l.next() { T::W("global") => { cst = false; break; } T::W("constant") => { cst = true; break; } T::P(b'(') => { l.p -= 1; l.balanced(); } T::End => panic!("global"), _ => {} } }
        let ty = self.ty(m, &mut l);
        let mut out = vec![0u8; ty.size() as usize];
        self.const_bytes(ex, m, &mut l, &ty, &mut out);
        (out, cst)
    }
    pub fn ty(&mut self, m: u32, l: &mut Lex) -> Ty {
        match l.next() {
            T::W(w) => {
                if is_int_ty(w) { return Ty::Int(w[1..].parse().unwrap()); }
                match w { "ptr" => { if l.eatw("addrspace") { l.balanced(); } Ty::Ptr } "void" => Ty::Void, "float" => Ty::F32, "double" => Ty::F64, "label" | "metadata" | "token" | "opaque" => Ty::Other, _ => panic!("type {} near {}", w, l.ctx()) }
            }
            T::P(b'{') => { let f = self.tylist(m, l, b'}'); Ty::Struct(Rc::new(f), false) }
            T::P(b'[') => { let n = match l.next() { T::N(n) => n.parse::<u64>().unwrap(), x => panic!("{:?}", x) }; l.next(); let t = self.ty(m, l); l.exp(b']'); Ty::Arr(n, Rc::new(t)) }
            T::P(b'<') => {
                if l.eat(b'{') { let f = self.tylist(m, l, b'}'); l.exp(b'>'); return Ty::Struct(Rc::new(f), true); }
                let n = match l.next() { T::N(n) => n.parse::<u32>().unwrap(), x => panic!("{:?} {}", x, l.ctx()) };
                l.next();
                let t = self.ty(m, l);
                l.exp(b'>');
                Ty::Vec(n, Rc::new(t))
            }
            T::L(n) => {
                if let Some(t) = self.mods[m as usize].tycache.get(n) { return t.clone(); }
                let (a, b) = *self.mods[m as usize].types.get(n).unwrap_or_else(|| panic!("named type {}", n));
                let text = self.mods[m as usize].text;
                let mut l2 = Lex::new(&text[a..b]);
                let t = self.ty(m, &mut l2);
                self.mods[m as usize].tycache.insert(n, t.clone());
                t
            }
            x => panic!("type expected, got {:?} near {}", x, l.ctx()),
        }
    }
    fn tylist(&mut self, m: u32, l: &mut Lex, end: u8) -> Vec<Ty> {
        let mut f = vec![];
        if l.eat(end) { return f; }
        loop { f.push(self.ty(m, l)); if l.eat(b',') { continue; } l.exp(end); return f; }
    }
    fn int_lit(w: u32, n: &str) -> u128 {
        let v: u128 = if let Some(h) = n.strip_prefix("0x") { u128::from_str_radix(h, 16).unwrap() } else if let Some(x) = n.strip_prefix('-') { (x.parse::<u128>().unwrap() as i128).wrapping_neg() as u128 } else { n.parse::<u128>().unwrap_or_else(|_| panic!("int {}", n)) };
        v & crate::expr::mask(w)
    }
    fn float_lit(ty: &Ty, n: &str) -> u64 {
        if n.as_bytes().get(1).map_or(false, |c| c.is_ascii_alphabetic() && n.as_bytes()[0] != b'0') {
            let neg = n.starts_with('-');
            let b = &n[1..];
            let pay = b.find("0x").map(|i| u64::from_str_radix(&b[i + 2..b.len() - 1], 16).unwrap());
            let f64ty = matches!(ty, Ty::F64);
            let (inf, q, sgn) = if f64ty { (0x7ff0u64 << 48, 1u64 << 51, 1u64 << 63) } else { (0x7f80_0000, 1 << 22, 1 << 31) };
            let v = if b == "inf" { inf } else if b == "qnan" { inf | q } else if b.starts_with("snan") { inf | pay.unwrap() } else if b.starts_with("nan") { inf | q | pay.unwrap() } else { panic!("fp const {}", n) };
            return if neg { v | sgn } else { v };
        }
        let d = if let Some(h) = n.strip_prefix("0x") { f64::from_bits(u64::from_str_radix(h, 16).unwrap()) } else { n.parse::<f64>().unwrap() };
        match ty { Ty::F64 => d.to_bits(), _ => (d as f32).to_bits() as u64 }
    }
    fn kst(ex: &mut Exprs, w: u32, v: u128) -> Opd { if w <= 64 { Opd::C((v & crate::expr::mask(w)) as u64) } else { Opd::K(ex.cst(w, v)) } }
    fn zero(ex: &mut Exprs, ty: &Ty) -> Vec<Opd> { ty.widths().into_iter().map(|w| Self::kst(ex, w, 0)).collect() }
    /// constant of the given type (next tokens), flattened
    pub fn konst(&mut self, ex: &mut Exprs, m: u32, l: &mut Lex, ty: &Ty) -> Vec<Opd> {
        match l.next() {
            T::N(n) => match ty { Ty::F32 | Ty::F64 => vec![Opd::C(Self::float_lit(ty, n))], Ty::Int(w) => vec![Self::kst(ex, *w, Self::int_lit(*w, n))], _ => panic!("number for {:?}", ty) },
            T::G(n) => vec![Opd::C(self.addr_of(m, n))],
            T::W("true") => vec![Opd::C(1)],
            T::W("false") => vec![Opd::C(0)],
            T::W("null") | T::W("none") => vec![Opd::C(0)],
            T::W("undef") | T::W("poison") | T::W("zeroinitializer") => Self::zero(ex, ty),
            T::W("splat") => { l.exp(b'('); let t = self.ty(m, l); let v = self.konst(ex, m, l, &t); l.exp(b')'); let n = ty.scalar().1; (0..n).flat_map(|_| v.clone()).collect() }
            T::W("getelementptr") => vec![Opd::C(self.const_gep(ex, m, l))],
            T::W(c @ ("inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "addrspacecast")) => {
                l.exp(b'(');
                let t = self.ty(m, l);
                let v = self.konst(ex, m, l, &t);
                if !l.eatw("to") { panic!("to") }
                let t2 = self.ty(m, l);
                l.exp(b')');
                if let (Opd::C(x), "trunc", 32) = (v[0], c, t2.bits()) {
                    // entry of a relative table: keep the whole difference
                    if x >> 32 != 0 && x >> 32 != 0xffff_ffff { let i = self.rels.iter().position(|r| *r == x).unwrap_or_else(|| { self.rels.push(x); self.rels.len() - 1 }); return vec![Opd::C(0xE000_0000 | i as u64)]; }
                }
                match v[0] { Opd::C(x) => vec![Opd::C(x & crate::expr::mask(t2.bits()) as u64)], o => vec![o] }
            }
            T::W(c @ ("add" | "sub" | "mul" | "xor" | "and" | "or" | "shl" | "lshr")) => {
                while let T::W("nuw") | T::W("nsw") = l.peek() { l.next(); }
                l.exp(b'(');
                let t = self.ty(m, l); let a = self.konst(ex, m, l, &t); l.exp(b',');
                let t2 = self.ty(m, l); let b = self.konst(ex, m, l, &t2); l.exp(b')');
                let (a, b) = match (a[0], b[0]) { (Opd::C(a), Opd::C(b)) => (a, b), _ => panic!() };
                let r = match c { "add" => a.wrapping_add(b), "sub" => a.wrapping_sub(b), "mul" => a.wrapping_mul(b), "xor" => a ^ b, "and" => a & b, "or" => a | b, "shl" => a << b, _ => a >> b };
                vec![Opd::C(r & crate::expr::mask(t.bits()) as u64)]
            }
            T::P(b'{') => self.konst_list(ex, m, l, b'}'),
            T::P(b'[') => self.konst_list(ex, m, l, b']'),
            T::P(b'<') => { if l.eat(b'{') { let r = self.konst_list(ex, m, l, b'}'); l.exp(b'>'); r } else { self.konst_list(ex, m, l, b'>') } }
            T::CStr(b) => unescape(b).into_iter().map(|x| Opd::C(x as u64)).collect(),
            x => panic!("constant expected: {:?} near {}", x, l.ctx()),
        }
    }
    fn konst_list(&mut self, ex: &mut Exprs, m: u32, l: &mut Lex, end: u8) -> Vec<Opd> {
        let mut v = vec![];
        if l.eat(end) { return v; }
        loop { let t = self.ty(m, l); v.extend(self.konst(ex, m, l, &t)); if l.eat(b',') { continue; } l.exp(end); return v; }
    }
    fn gep_flags(l: &mut Lex) {
        loop { match l.peek() { T::W("inbounds") | T::W("nuw") | T::W("nusw") | T::W("nsw") => { l.next(); } T::W("inrange") => { l.next(); l.balanced(); } _ => break } }
    }
    fn const_gep(&mut self, ex: &mut Exprs, m: u32, l: &mut Lex) -> u64 {
        Self::gep_flags(l);
        l.exp(b'(');
        let t = self.ty(m, l);
        l.exp(b',');
        let pt = self.ty(m, l);
        let base = match self.konst(ex, m, l, &pt)[0] { Opd::C(x) => x, _ => panic!() };
        let mut cur = t;
        let mut off = 0u64;
        let mut first = true;
        while l.eat(b',') {
            let it = self.ty(m, l);
            let k = match self.konst(ex, m, l, &it)[0] { Opd::C(x) => crate::expr::sext(x as u128, it.bits()) as i64 as u64, _ => panic!() };
            if first { off = off.wrapping_add(k.wrapping_mul(cur.size())); first = false; }
            else { off = off.wrapping_add(cur.field_off(k as usize)); cur = cur.elem(k as usize).0; }
        }
        l.exp(b')');
        base.wrapping_add(off)
    }
    fn const_bytes(&mut self, ex: &mut Exprs, m: u32, l: &mut Lex, ty: &Ty, out: &mut [u8]) {
        match l.peek() {
            T::W("zeroinitializer") | T::W("undef") | T::W("poison") | T::W("null") => { l.next(); }
            T::CStr(b) => { l.next(); let v = unescape(b); out[..v.len()].copy_from_slice(&v); }
            T::P(c @ (b'{' | b'[' | b'<')) if !matches!(ty, Ty::Vec(..)) => {
                l.next();
                let packed = c == b'<';
                if packed { l.exp(b'{'); }
                let end = if c == b'[' { b']' } else { b'}' };
                let mut i = 0;
                if !l.eat(end) {
                    loop {
                        let t = self.ty(m, l);
                        let o = ty.field_off(i) as usize;
                        let n = t.size() as usize;
                        self.const_bytes(ex, m, l, &t, &mut out[o..o + n]);
                        i += 1;
                        if l.eat(b',') { continue; }
                        l.exp(end);
                        break;
                    }
                }
                if packed { l.exp(b'>'); }
            }
            _ => {
                let v = self.konst(ex, m, l, ty);
                let mut fl = vec![];
                ty.flat(0, &mut fl);
                for (o, (off, w)) in v.iter().zip(fl) {
                    let val = match o { Opd::C(x) => *x as u128, Opd::K(e) => ex.is_const(*e).unwrap(), _ => panic!() };
                    let n = ((w + 7) / 8) as usize;
                    out[off as usize..off as usize + n].copy_from_slice(&val.to_le_bytes()[..n]);
                }
            }
        }
    }

    // ------------------------------------------------------------------ function decoding
    pub fn decode(&mut self, ex: &mut Exprs, fnid: u32) -> &'static DFunc {
        if let Some(d) = self.fns[fnid as usize].dec { return d; }
        let (m, name) = (self.fns[fnid as usize].module, self.fns[fnid as usize].name);
        let (a, b) = self.fns[fnid as usize].range.unwrap_or_else(|| panic!("call to undefined function {}", name));
        let text: &'static [u8] = &self.mods[m as usize].text[a..b];
        let f = Dec { pr: self, ex, m, regs: HashMap::new(), nregs: 0, code: vec![], frame: 0, name, fnid }.run(text);
        let f: &'static DFunc = Box::leak(Box::new(f));
        self.fns[fnid as usize].dec = Some(f);
        f
    }
}

fn unescape(b: &[u8]) -> Vec<u8> {
    let mut v = Vec::with_capacity(b.len());
    let mut i = 0;
    let hx = |c: u8| (c as char).to_digit(16).unwrap() as u8;
    while i < b.len() { if b[i] == b'\\' { if b[i + 1] == b'\\' { v.push(b'\\'); i += 2; } else { v.push(hx(b[i + 1]) * 16 + hx(b[i + 2])); i += 3; } } else { v.push(b[i]); i += 1; } }
    v
}

struct Dec<'a> { pr: &'a mut Prog, ex: &'a mut Exprs, m: u32, regs: HashMap<S, (u32, Ty)>, nregs: u32, code: Vec<I>, frame: u32, name: S, fnid: u32 }

type Phi = (u32, Ty, Vec<(Vec<Opd>, S)>); // dest slot, type, incoming

impl<'a> Dec<'a> {
    fn reg(&mut self, name: S, ty: &Ty) -> u32 {
        if let Some((r, t)) = self.regs.get(name) {
            if t != ty { if t.nslots() != ty.nslots() { panic!("register {} type mismatch {:?} {:?} in {}", name, t, ty, self.name); } }
            return *r;
        }
        let r = self.nregs;
        self.nregs += ty.nslots();
        self.regs.insert(name, (r, ty.clone()));
        r
    }
    fn val(&mut self, l: &mut Lex, ty: &Ty) -> Vec<Opd> {
        if let T::L(n) = l.peek() {
            l.next();
            let r = self.reg(n, ty);
            return (0..ty.nslots()).map(|i| Opd::R(r + i)).collect();
        }
        self.pr.konst(self.ex, self.m, l, ty)
    }
    fn ty(&mut self, l: &mut Lex) -> Ty { self.pr.ty(self.m, l) }
    fn tyval(&mut self, l: &mut Lex) -> (Ty, Vec<Opd>) { let t = self.ty(l); let v = self.val(l, &t); (t, v) }
    fn skip_attrs(&mut self, l: &mut Lex) {
        loop {
            match l.peek() {
                T::W(w) if is_int_ty(w) || TYPEWORDS.contains(&w) || VALWORDS.contains(&w) => return,
                T::W(w) => { l.next(); if w == "align" { if let T::N(_) = l.peek() { l.next(); continue; } } if l.peek() == T::P(b'(') { l.balanced(); } }
                T::Attr => { l.next(); }
                T::Str(_) => { l.next(); if l.eat(b'=') { l.next(); } }
                _ => return,
            }
        }
    }
    fn run(mut self, text: &'static [u8]) -> DFunc {
        // header
        let e = find_nl(text, 0);
        let mut l = Lex::new(&text[..e]);
        loop { if let T::G(_) = l.peek() { break; } match l.next() { T::End => panic!("header"), T::P(b'(') => { l.p -= 1; l.balanced(); } _ => {} } }
        l.next();
        l.exp(b'(');
        let mut nun = 0;
        if !l.eat(b')') {
            loop {
                if l.eatw("...") { l.exp(b')'); break; }
                let t = self.ty(&mut l);
                // attributes then name
                loop { match l.peek() { T::W(_) => self.skip_attrs(&mut l), _ => break } }
                match l.peek() {
                    T::L(n) => { l.next(); if n.bytes().all(|c| c.is_ascii_digit()) { nun += 1; } self.reg(n, &t); }
                    _ => { let n: S = Box::leak(format!("{}", nun).into_boxed_str()); nun += 1; self.reg(n, &t); }
                }
                if l.eat(b',') { continue; }
                l.exp(b')');
                break;
            }
        }
        let nparams = self.nregs;
        // split into blocks of logical lines
        let mut lines: Vec<&'static [u8]> = vec![];
        let mut p = e + 1;
        while p < text.len() {
            let mut q = find_nl(text, p);
            let line = &text[p..q];
            let tr = trim(line);
            if tr.is_empty() || tr[0] == b';' || tr[0] == b'#' { p = q + 1; continue; }
            // continuation handling
            let body = strip_asg(tr);
            if body.starts_with(b"switch ") { while !has_close(&text[p..q]) { q = find_nl(text, q + 1); } }
            else if body.starts_with(b"invoke ") { q = find_nl(text, q + 1); }
            else if body.starts_with(b"landingpad") { loop { let q2 = find_nl(text, q + 1); let nx = &text[(q + 1).min(text.len())..q2]; if nx.starts_with(b"          ") { q = q2; } else { break; } } }
            lines.push(&text[p..q]);
            p = q + 1;
        }
        // pass 1: labels & phis
        let mut block: S = Box::leak(format!("{}", nun).into_boxed_str());
        let mut blocks: Vec<(S, Vec<&'static [u8]>)> = vec![];
        let mut started = false;
        for ln in lines {
            if ln[0] != b' ' {
                let tr = trim(ln);
                let name = if tr[0] == b'"' { let mut x = Lex::new(tr); s(x.quoted()) } else { let i = tr.iter().position(|c| *c == b':').unwrap(); s(&tr[..i]) };
                block = name;
                blocks.push((name, vec![]));
                started = true;
            } else {
                if !started { blocks.push((block, vec![])); started = true; }
                blocks.last_mut().unwrap().1.push(trim(ln));
            }
        }
        let mut bidx: HashMap<S, usize> = HashMap::new();
        for (i, b) in blocks.iter().enumerate() { bidx.insert(b.0, i); }
        let mut phis: Vec<Vec<Phi>> = vec![];
        for (_, b) in blocks.iter() {
            let mut v = vec![];
            for ln in b {
                let mut l = Lex::new(ln);
                if let T::L(d) = l.peek() {
                    l.next(); l.exp(b'=');
                    if !l.eatw("phi") { break; }
                    while let T::W(w) = l.peek() { if is_int_ty(w) || TYPEWORDS.contains(&w) { break; } l.next(); }
                    let t = self.ty(&mut l);
                    let r = self.reg(d, &t);
                    let mut inc = vec![];
                    loop {
                        l.exp(b'[');
                        let o = self.val(&mut l, &t);
                        l.exp(b',');
                        let bl = match l.next() { T::L(x) => x, x => panic!("{:?}", x) };
                        l.exp(b']');
                        inc.push((o, bl));
                        if !l.eat(b',') { break; }
                        if l.peek() == T::Meta { break; }
                    }
                    v.push((r, t, inc));
                } else { break; }
            }
            phis.push(v);
        }
        // pass 2: decode
        let mut starts = vec![0u32; blocks.len()];
        let mut fix: Vec<usize> = vec![]; // instruction indices with block targets to patch
        for (bi, (bn, b)) in blocks.iter().enumerate() {
            starts[bi] = self.code.len() as u32;
            let np = phis[bi].len();
            for ln in &b[np..] {
                let before = self.code.len();
                self.inst(ln, bn, &bidx, &phis);
                for k in before..self.code.len() {
                    if matches!(self.code[k], I::Br(..) | I::CondBr { .. } | I::Switch { .. }) { fix.push(k); }
                    if let I::Call(c) = &self.code[k] { if c.normal.is_some() { fix.push(k); } }
                }
            }
        }
        for k in fix {
            match &mut self.code[k] {
                I::Br(t) => t.pc = starts[t.pc as usize],
                I::CondBr { t, f, .. } => { t.pc = starts[t.pc as usize]; f.pc = starts[f.pc as usize]; }
                I::Switch { targets, .. } => for t in targets.iter_mut() { t.pc = starts[t.pc as usize]; },
                I::Call(c) => { let t = c.normal.as_mut().unwrap(); t.pc = starts[t.pc as usize]; }
                _ => {}
            }
        }
        DFunc { name: self.name, fnid: self.fnid, nregs: self.nregs, nparams, frame: self.frame, code: self.code }
    }
    fn target(&mut self, to: S, from: S, bidx: &HashMap<S, usize>, phis: &[Vec<Phi>]) -> Target {
        let b = *bidx.get(to).unwrap_or_else(|| panic!("block {} in {}", to, self.name));
        let mut mv = vec![];
        for (d, t, inc) in &phis[b] {
            let (o, _) = inc.iter().find(|(_, f)| *f == from).unwrap_or_else(|| panic!("phi edge {}->{} in {}", from, to, self.name));
            for i in 0..t.nslots() { if o[i as usize] != Opd::R(d + i) { mv.push((d + i, o[i as usize])); } }
        }
        Target { pc: b as u32, moves: mv.into_boxed_slice() }
    }
    fn label(&mut self, l: &mut Lex) -> S { if !l.eatw("label") { panic!("label {}", l.ctx()) } match l.next() { T::L(x) => x, x => panic!("{:?}", x) } }
    fn inst(&mut self, ln: &'static [u8], bn: S, bidx: &HashMap<S, usize>, phis: &[Vec<Phi>]) {
        use crate::expr::Op;
        let mut l = Lex::new(ln);
        let mut dname: Option<S> = None;
        if let T::L(n) = l.peek() { l.next(); l.exp(b'='); dname = Some(n); }
        let op = match l.next() { T::W(w) => w, x => panic!("inst {:?}", x) };
        macro_rules! d { ($t:expr) => { match dname { Some(n) => self.reg(n, $t), None => { let r = self.nregs; self.nregs += $t.nslots(); r } } } }
        match op {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                while let T::W(w) = l.peek() { if is_int_ty(w) || TYPEWORDS.contains(&w) { break; } l.next(); }
                let t = self.ty(&mut l);
                let a = self.val(&mut l, &t);
                l.exp(b',');
                let b = self.val(&mut l, &t);
                let d = d!(&t);
                let o = match op { "add" => Op::Add, "sub" => Op::Sub, "mul" => Op::Mul, "udiv" => Op::UDiv, "sdiv" => Op::SDiv, "urem" => Op::URem, "srem" => Op::SRem, "shl" => Op::Shl, "lshr" => Op::LShr, "ashr" => Op::AShr, "and" => Op::And, "or" => Op::Or, "xor" => Op::Xor, "fadd" => Op::FAdd, "fsub" => Op::FSub, "fmul" => Op::FMul, "fdiv" => Op::FDiv, _ => Op::FRem };
                let w = t.scalar().0.bits();
                for i in 0..a.len() { self.code.push(I::Bin { op: o, w, d: d + i as u32, a: a[i], b: b[i] }); }
            }
            "icmp" => {
                l.eatw("samesign");
                let p = match l.next() { T::W(w) => match w { "eq" => Pred::Eq, "ne" => Pred::Ne, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "ult" => Pred::Ult, "ule" => Pred::Ule, "sgt" => Pred::Sgt, "sge" => Pred::Sge, "slt" => Pred::Slt, _ => Pred::Sle }, _ => panic!() };
                let t = self.ty(&mut l);
                let a = self.val(&mut l, &t);
                l.exp(b',');
                let b = self.val(&mut l, &t);
                let (st, n) = t.scalar();
                let rt = if let Ty::Vec(..) = t { Ty::Vec(n, Rc::new(Ty::Int(1))) } else { Ty::Int(1) };
                let d = d!(&rt);
                for i in 0..a.len() { self.code.push(I::ICmp { p, w: st.bits(), d: d + i as u32, a: a[i], b: b[i] }); }
            }
            "fcmp" => {
                let mut p = "";
                loop { match l.peek() { T::W(w) if is_int_ty(w) || TYPEWORDS.contains(&w) => break, T::W(w) => { l.next(); p = w; } _ => break } }
                let t = self.ty(&mut l);
                let a = self.val(&mut l, &t);
                l.exp(b',');
                let b = self.val(&mut l, &t);
                let (st, n) = t.scalar();
                let rt = if let Ty::Vec(..) = t { Ty::Vec(n, Rc::new(Ty::Int(1))) } else { Ty::Int(1) };
                let d = d!(&rt);
                for i in 0..a.len() { self.code.push(I::FCmp { p, w: st.bits(), d: d + i as u32, a: a[i], b: b[i] }); }
            }
            "fneg" => {
                while let T::W(w) = l.peek() { if is_int_ty(w) || TYPEWORDS.contains(&w) { break; } l.next(); }
                let (t, a) = self.tyval(&mut l);
                let d = d!(&t);
                for i in 0..a.len() { self.code.push(I::FNeg { w: t.scalar().0.bits(), d: d + i as u32, a: a[i] }); }
            }
            "trunc" | "zext" | "sext" | "fptrunc" | "fpext" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "ptrtoint" | "inttoptr" | "bitcast" | "addrspacecast" | "freeze" => {
                while let T::W("nuw") | T::W("nsw") | T::W("nneg") | T::W("fast") | T::W("samesign") = l.peek() { l.next(); }
                let (t, a) = self.tyval(&mut l);
                if op == "freeze" { let d = d!(&t); for i in 0..a.len() { self.code.push(I::Copy { d: d + i as u32, a: a[i] }); } return; }
                if !l.eatw("to") { panic!("to: {}", l.ctx()) }
                let t2 = self.ty(&mut l);
                let d = d!(&t2);
                let (s1, n1) = t.scalar();
                let (s2, n2) = t2.scalar();
                if op == "bitcast" && (n1 != n2) {
                    let src: Vec<(Opd, u32)> = a.iter().map(|o| (*o, s1.bits())).collect();
                    self.code.push(I::Repack { d, src: src.into_boxed_slice(), dw: s2.bits(), nd: n2 });
                    return;
                }
                let c = match op { "trunc" => Cast::Trunc, "zext" => Cast::Zext, "sext" => Cast::Sext, "fptrunc" => Cast::FpTrunc, "fpext" => Cast::FpExt, "fptoui" => Cast::FpToUi, "fptosi" => Cast::FpToSi, "uitofp" => Cast::UiToFp, "sitofp" => Cast::SiToFp,
                    _ => if s1.bits() > s2.bits() { Cast::Trunc } else if s1.bits() < s2.bits() { Cast::Zext } else { Cast::Nop } };
                for i in 0..a.len() { if c == Cast::Nop { self.code.push(I::Copy { d: d + i as u32, a: a[i] }) } else { self.code.push(I::Cast { op: c, fw: s1.bits(), tw: s2.bits(), d: d + i as u32, a: a[i] }) } }
            }
            "select" => {
                while let T::W(w) = l.peek() { if is_int_ty(w) || TYPEWORDS.contains(&w) { break; } l.next(); }
                let (ct, c) = self.tyval(&mut l);
                l.exp(b',');
                let (t, a) = self.tyval(&mut l);
                l.exp(b',');
                let (_, b) = self.tyval(&mut l);
                let d = d!(&t);
                let ws = t.widths();
                for i in 0..a.len() { let cc = if let Ty::Vec(..) = ct { c[i] } else { c[0] }; self.code.push(I::Sel { d: d + i as u32, c: cc, a: a[i], b: b[i], w: ws[i] }); }
            }
            "load" => {
                while let T::W("atomic") | T::W("volatile") = l.peek() { l.next(); }
                let t = self.ty(&mut l);
                l.exp(b',');
                let (_, p) = self.tyval(&mut l);
                let d = d!(&t);
                if let Ty::Vec(n, et) = &t { if et.bits() % 8 != 0 {
                    let tw = n * et.bits();
                    let r = self.nregs; self.nregs += 1;
                    self.code.push(I::Load { d: r, w: tw, p: p[0], off: 0 });
                    self.code.push(I::Repack { d, src: vec![(Opd::R(r), tw)].into_boxed_slice(), dw: et.bits(), nd: *n });
                    return;
                } }
                let mut fl = vec![];
                t.flat(0, &mut fl);
                for (i, (off, w)) in fl.iter().enumerate() { self.code.push(I::Load { d: d + i as u32, w: *w, p: p[0], off: *off as u32 }); }
            }
            "store" => {
                while let T::W("atomic") | T::W("volatile") = l.peek() { l.next(); }
                let (t, v) = self.tyval(&mut l);
                l.exp(b',');
                let (_, p) = self.tyval(&mut l);
                if let Ty::Vec(_, et) = &t { assert!(et.bits() % 8 == 0); }
                let mut fl = vec![];
                t.flat(0, &mut fl);
                for (i, (off, w)) in fl.iter().enumerate() { self.code.push(I::Store { w: *w, v: v[i], p: p[0], off: *off as u32 }); }
            }
            "alloca" => {
                l.eatw("inalloca");
                let t = self.ty(&mut l);
                let mut n: Option<(Ty, Vec<Opd>)> = None;
                let mut al = t.align().max(8);
                while l.eat(b',') {
                    if l.eatw("align") { if let T::N(x) = l.next() { al = x.parse().unwrap(); } }
                    else if let T::W(w) = l.peek() { if is_int_ty(w) { n = Some(self.tyval(&mut l)); } else { break; } }
                    else { break; }
                }
                let d = d!(&Ty::Ptr);
                let sz = t.size();
                match n {
                    Some((_, v)) if !matches!(v[0], Opd::C(_)) => self.code.push(I::DynAlloca { d, n: v[0], size: sz }),
                    nn => {
                        let cnt = match nn { Some((_, v)) => match v[0] { Opd::C(x) => x, _ => 1 }, None => 1 };
                        let al = al as u32;
                        self.frame = (self.frame + al - 1) / al * al;
                        self.code.push(I::Frame { d, off: self.frame });
                        self.frame += (sz * cnt) as u32;
                    }
                }
            }
            "getelementptr" => {
                Prog::gep_flags(&mut l);
                let t = self.ty(&mut l);
                l.exp(b',');
                let (bt, base) = self.tyval(&mut l);
                if let Ty::Vec(..) = bt { panic!("vector gep") }
                let mut cur = t;
                let mut off = 0u64;
                let mut idx = vec![];
                let mut first = true;
                while l.peek() == T::P(b',') {
                    l.next();
                    if l.peek() == T::Meta { break; }
                    let (it, k) = self.tyval(&mut l);
                    let iw = it.bits();
                    if let Opd::C(x) = k[0] {
                        let x = crate::expr::sext(x as u128, iw) as i64 as u64;
                        if first { off = off.wrapping_add(x.wrapping_mul(cur.size())); }
                        else { off = off.wrapping_add(cur.field_off(x as usize)); cur = cur.elem(x as usize).0; }
                    } else {
                        let sc = if first { cur.size() } else { let e = match &cur { Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(), _ => panic!("gep idx") }; let z = e.size(); cur = e; z };
                        idx.push((k[0], iw, sc));
                    }
                    first = false;
                }
                let d = d!(&Ty::Ptr);
                self.code.push(I::Gep { d, base: base[0], off, idx: idx.into_boxed_slice() });
            }
            "tail" | "musttail" | "notail" | "call" | "invoke" => {
                if op != "call" && op != "invoke" { l.next(); }
                self.call(&mut l, op == "invoke", dname, bn, bidx, phis);
            }
            "br" => {
                if let T::W("label") = l.peek() { let t = self.label(&mut l); let t = self.target(t, bn, bidx, phis); self.code.push(I::Br(t)); }
                else {
                    let (_, c) = self.tyval(&mut l);
                    l.exp(b',');
                    let t = self.label(&mut l);
                    l.exp(b',');
                    let f = self.label(&mut l);
                    let t = self.target(t, bn, bidx, phis);
                    let f = self.target(f, bn, bidx, phis);
                    self.code.push(I::CondBr { c: c[0], t, f });
                }
            }
            "switch" => {
                let (t, v) = self.tyval(&mut l);
                l.exp(b',');
                let dl = self.label(&mut l);
                let mut targets = vec![self.target(dl, bn, bidx, phis)];
                let mut names = vec![dl];
                let mut cases = vec![];
                l.exp(b'[');
                while !l.eat(b']') {
                    let (_, k) = self.tyval(&mut l);
                    l.exp(b',');
                    let x = self.label(&mut l);
                    let ti = match names.iter().position(|n| *n == x) { Some(i) => i, None => { let tt = self.target(x, bn, bidx, phis); targets.push(tt); names.push(x); names.len() - 1 } };
                    let kv = match k[0] { Opd::C(x) => x, Opd::K(e) => self.ex.is_const(e).unwrap() as u64, _ => panic!() };
                    cases.push((kv, ti as u32));
                }
                self.code.push(I::Switch { w: t.bits(), v: v[0], cases: cases.into_boxed_slice(), targets: targets.into_boxed_slice() });
            }
            "ret" => {
                let t = self.ty(&mut l);
                let v = if t == Ty::Void { vec![] } else { self.val(&mut l, &t) };
                self.code.push(I::Ret(v.into_boxed_slice()));
            }
            "unreachable" | "resume" => self.code.push(I::Unreachable),
            "fence" => {}
            "extractvalue" => {
                let (t, v) = self.tyval(&mut l);
                let mut cur = t;
                let mut slot = 0;
                while l.eat(b',') { match l.next() { T::N(n) => { let (e, sl) = cur.elem(n.parse().unwrap()); cur = e; slot += sl; } _ => break } }
                let d = d!(&cur);
                for i in 0..cur.nslots() { self.code.push(I::Copy { d: d + i, a: v[(slot + i) as usize] }); }
            }
            "insertvalue" => {
                let (t, v) = self.tyval(&mut l);
                l.exp(b',');
                let (_, x) = self.tyval(&mut l);
                let mut cur = t.clone();
                let mut slot = 0;
                while l.eat(b',') { match l.next() { T::N(n) => { let (e, sl) = cur.elem(n.parse().unwrap()); cur = e; slot += sl; } _ => break } }
                let d = d!(&t);
                for i in 0..t.nslots() { let a = if i >= slot && i < slot + cur.nslots() { x[(i - slot) as usize] } else { v[i as usize] }; self.code.push(I::Copy { d: d + i, a }); }
            }
            "extractelement" => {
                let (t, v) = self.tyval(&mut l);
                l.exp(b',');
                let (_, k) = self.tyval(&mut l);
                let d = d!(&t.scalar().0);
                match k[0] { Opd::C(i) => self.code.push(I::Copy { d, a: v[i as usize] }), o => self.code.push(I::DynVec { d, src: v.into_boxed_slice(), idx: o, ins: None }) }
            }
            "insertelement" => {
                let (t, v) = self.tyval(&mut l);
                l.exp(b',');
                let (_, x) = self.tyval(&mut l);
                l.exp(b',');
                let (_, k) = self.tyval(&mut l);
                let d = d!(&t);
                match k[0] {
                    Opd::C(i) => for j in 0..v.len() { self.code.push(I::Copy { d: d + j as u32, a: if j as u64 == i { x[0] } else { v[j] } }); },
                    o => self.code.push(I::DynVec { d, src: v.into_boxed_slice(), idx: o, ins: Some(x[0]) }),
                }
            }
            "shufflevector" => {
                let (t, a) = self.tyval(&mut l);
                l.exp(b',');
                let (_, b) = self.tyval(&mut l);
                l.exp(b',');
                let (mt, k) = self.tyval(&mut l);
                let n = mt.scalar().1;
                let rt = Ty::Vec(n, Rc::new(t.scalar().0));
                let d = d!(&rt);
                for i in 0..n as usize { let ix = match k[i] { Opd::C(x) => x as usize, _ => panic!() }; let o = if ix < a.len() { a[ix] } else { b[ix - a.len()] }; self.code.push(I::Copy { d: d + i as u32, a: o }); }
            }
            "cmpxchg" => {
                while let T::W("weak") | T::W("volatile") = l.peek() { l.next(); }
                let (_, p) = self.tyval(&mut l);
                l.exp(b',');
                let (t, c) = self.tyval(&mut l);
                l.exp(b',');
                let (_, n) = self.tyval(&mut l);
                let rt = Ty::Struct(Rc::new(vec![t.clone(), Ty::Int(1)]), false);
                let d = d!(&rt);
                self.code.push(I::CmpXchg { d, w: t.bits(), p: p[0], cmp: c[0], new: n[0] });
            }
            "atomicrmw" => {
                l.eatw("volatile");
                let o = match l.next() { T::W(w) => w, _ => panic!() };
                let (_, p) = self.tyval(&mut l);
                l.exp(b',');
                let (t, v) = self.tyval(&mut l);
                let d = d!(&t);
                self.code.push(I::Rmw { op: o, w: t.bits(), d, p: p[0], v: v[0] });
            }
            "landingpad" => { let t = self.ty(&mut l); let d = d!(&t); for i in 0..t.nslots() { self.code.push(I::Copy { d: d + i, a: Opd::C(0) }); } }
            _ => panic!("unsupported instruction {} in {}: {}", op, self.name, s(ln)),
        }
    }
    fn call(&mut self, l: &mut Lex, invoke: bool, dname: Option<S>, bn: S, bidx: &HashMap<S, usize>, phis: &[Vec<Phi>]) {
        self.skip_attrs(l);
        let rt = self.ty(l);
        if l.peek() == T::P(b'(') { l.balanced(); }
        let mut asm = false;
        let mut asmtext: &'static [u8] = b"";
        let callee = match l.peek() {
            T::G(n) => {
                l.next();
                if n.starts_with("llvm.") { Callee::Intr(intr_id(n), n) } else {
                    match self.pr.resolve(self.m, n) { Some(Sym::Data(_)) => panic!("call data"), _ => Callee::Fn(self.pr.fn_by_name(self.m, n)) }
                }
            }
            T::W("asm") => { l.next(); loop { match l.next() { T::Str(t) => { asmtext = t; break; } _ => {} } } l.exp(b','); l.next(); asm = true; Callee::Intr(Intr::Asm, "asm") }
            _ => { let v = self.val(l, &Ty::Ptr); Callee::Ind(v[0]) }
        };
        l.exp(b'(');
        let mut args = vec![];
        let mut argw = vec![];
        if !l.eat(b')') {
            loop {
                if let T::W("metadata") = l.peek() {
                    l.next();
                    // metadata operand: skip to , or )
                    let mut depth = 0;
                    loop { match l.peek() { T::P(b'(') => { depth += 1; l.next(); } T::P(b')') if depth == 0 => break, T::P(b')') => { depth -= 1; l.next(); } T::P(b',') if depth == 0 => break, _ => { l.next(); } } }
                } else {
                    let t = self.ty(l);
                    loop {
                        match l.peek() {
                            T::W(w) if VALWORDS.contains(&w) => break,
                            T::W(w) => { l.next(); if w == "align" { if let T::N(_) = l.peek() { l.next(); continue; } } if l.peek() == T::P(b'(') { l.balanced(); } }
                            T::Str(_) => { l.next(); }
                            _ => break,
                        }
                    }
                    let v = self.val(l, &t);
                    argw.extend(t.widths());
                    args.extend(v);
                }
                if l.eat(b',') { continue; }
                l.exp(b')');
                break;
            }
        }
        let n = rt.nslots();
        let d = match dname { Some(x) => self.reg(x, &rt), None => { let r = self.nregs; self.nregs += n; r } };
        let mut normal = None;
        if invoke {
            loop { match l.next() { T::W("to") => break, T::P(b'[') => { l.p -= 1; l.balanced(); } T::End => panic!("invoke"), _ => {} } }
            let nl = self.label(l);
            normal = Some(self.target(nl, bn, bidx, phis));
        }
        if asm {
            let tx = s(asmtext);
            if tx.trim().is_empty() { for i in 0..n { self.code.push(I::Copy { d: d + i, a: Opd::C(0) }); } }
            else if tx.contains("cpuid") || tx.contains("xgetbv") { self.code.push(I::Cpuid { d, n }); }
            else if tx.starts_with("div ") && args.len() == 3 { self.code.push(I::AsmDiv { d, den: args[0], lo: args[2], hi: args[1] }); let _ = (); }
            else { eprintln!("note: inline asm {:?} in {}", tx, self.name); self.code.push(I::Unreachable); }
            if let Some(t) = normal { self.code.push(I::Br(t)); }
            return;
        }
        if let Callee::Intr(id, name) = &callee {
            let id = *id;
            let nm = *name;
            if nm.starts_with("llvm.lifetime") || nm.starts_with("llvm.dbg") || nm.starts_with("llvm.experimental.noalias") || nm.starts_with("llvm.assume") || nm.starts_with("llvm.prefetch") || nm.starts_with("llvm.x86.sse2.pause") { if let Some(t) = normal { self.code.push(I::Br(t)); } return; }
            // element-wise vector intrinsics are expanded lane by lane
            if let Ty::Vec(lanes, et) = &rt {
                let k = *lanes as usize;
                let elementwise = ["llvm.umin", "llvm.umax", "llvm.smin", "llvm.smax", "llvm.ctpop", "llvm.usub.sat", "llvm.uadd.sat", "llvm.abs", "llvm.fshl", "llvm.fshr", "llvm.bswap"].iter().any(|p| nm.starts_with(p));
                if elementwise {
                    let nargs = args.len() / k;
                    for i in 0..k {
                        let a: Vec<Opd> = if nm.starts_with("llvm.abs") { vec![args[i], args[k]] } else { (0..nargs).map(|j| args[j * k + i]).collect() };
                        let aw: Vec<u32> = a.iter().map(|_| et.bits()).collect();
                        self.code.push(I::Call(Box::new(CallI { callee: Callee::Intr(id, nm), args: a.into(), argw: aw.into(), d: d + i as u32, nret: 1, retw: vec![et.bits()].into(), normal: None })));
                    }
                    return;
                }
            }
        }
        self.code.push(I::Call(Box::new(CallI { callee, args: args.into_boxed_slice(), argw: argw.into_boxed_slice(), d, nret: n, retw: rt.widths().into_boxed_slice(), normal })));
    }
}

fn trim(b: &'static [u8]) -> &'static [u8] {
    let mut i = 0;
    while i < b.len() && (b[i] == b' ' || b[i] == b'\t') { i += 1; }
    &b[i..]
}
fn strip_asg(b: &'static [u8]) -> &'static [u8] {
    if b[0] != b'%' { return b; }
    let mut l = Lex::new(b);
    l.next();
    if l.eat(b'=') { trim(&b[l.p..]) } else { b }
}
fn has_close(b: &[u8]) -> bool {
    // a switch is complete once its "]" line has been seen
    let mut q = false;
    let mut d = 0i32;
    let mut seen = false;
    for &c in b { match c { b'"' => q = !q, b'[' if !q => { d += 1; seen = true; } b']' if !q => d -= 1, _ => {} } }
    seen && d == 0
}
#[allow(unused)]
fn _unused(_: FxMap<u32, u32>) {}
