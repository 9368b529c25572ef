//! Small-step-free interpreter for the JavaScript subset the generator emits. It runs the original
//! program (counting how often each statement, function body and branch path starts) and the
//! instrumented one (executing the injected preamble and counters for real, on a heap).
//! Calls to unknown functions return a value whose nature is symbolic: one 3-bit variable per
//! (call site, occurrence), shared by both runs.
use crate::covdata::unparen;
use std::rc::Rc;
use swc_core::common::{Span, Spanned};
use swc_core::ecma::ast::*;
use symx_rt::*;

#[derive(Clone, Debug)]
pub enum V { Undef, Null, Bool(bool), Num(f64), Str(Rc<str>), Obj(usize), Op(usize), Prim(u64) }
pub enum Ab { Break(Option<String>), Continue(Option<String>), Return(V), Throw(V) }
pub type R<T> = Result<T, Ab>;

pub enum Body<'a> { Block(&'a BlockStmt), Expr(&'a Expr), None }
pub struct Clo<'a> { pub params: Vec<&'a Pat>, pub body: Body<'a>, pub name: String, pub rec: bool, pub id: u32 }
pub enum K<'a> { Plain, Array, Fn(Rc<Clo<'a>>), Class(&'a Class, String), Native(&'static str), Super }
pub struct Obj<'a> { pub props: Vec<(String, V)>, pub acc: Vec<V>, pub k: K<'a> }

/// 0 undefined, 1 null, 2 other falsy, 3 empty array, 4 empty object, 5 truthy primitive, 6 array, 7 object
pub struct OpInfo { key: u64, kind: u64, truthy: Option<bool>, nullish: Option<bool>, undef: Option<bool>, nontriv: Option<bool>, arr: Option<bool>, plain: Option<bool> }
/// outcomes shared by the two runs
#[derive(Default)]
pub struct World { ops: Vec<OpInfo>, eqs: Vec<(u64, bool)>, pub limit: u32, pub budget: u32, forks: u32 }

fn mix(h: u64, v: u64) -> u64 { (h ^ v).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(23) }
pub fn hs(s: &str) -> u64 { let mut h: u64 = 0xcbf29ce484222325; for c in s.as_bytes() { h = (h ^ *c as u64).wrapping_mul(0x100000001b3); } h }

impl World {
    pub fn new() -> Self { World { limit: 2, budget: 6, ..Default::default() } }
    fn op(&mut self, key: u64, occ: u32) -> V {
        if occ >= self.limit { return V::Undef; }
        let k = mix(key, occ as u64 + 1);
        if let Some(i) = self.ops.iter().position(|o| o.key == k) { return V::Op(i); }
        if self.forks >= self.budget { return V::Undef; }
        self.ops.push(OpInfo { key: k, kind: var(3, "result"), truthy: None, nullish: None, undef: None, nontriv: None, arr: None, plain: None });
        V::Op(self.ops.len() - 1)
    }
    fn ask(&mut self, i: usize, f: impl Fn(u64) -> bool, slot: impl Fn(&mut OpInfo) -> &mut Option<bool>) -> bool {
        if let Some(b) = *slot(&mut self.ops[i]) { return b; }
        self.forks += 1;
        let b = is(f(self.ops[i].kind));
        *slot(&mut self.ops[i]) = Some(b);
        b
    }
    fn truthy(&mut self, i: usize) -> bool { self.ask(i, |k| k >= 3, |o| &mut o.truthy) }
    fn nullish(&mut self, i: usize) -> bool { if self.ops[i].truthy == Some(true) { return false; } self.ask(i, |k| k <= 1, |o| &mut o.nullish) }
    fn undef(&mut self, i: usize) -> bool { if self.ops[i].truthy == Some(true) { return false; } self.ask(i, |k| k == 0, |o| &mut o.undef) }
    fn nontriv(&mut self, i: usize) -> bool { if self.ops[i].truthy == Some(false) { return false; } self.ask(i, |k| k >= 5, |o| &mut o.nontriv) }
    fn arr(&mut self, i: usize) -> bool { if self.ops[i].truthy == Some(false) { return false; } self.ask(i, |k| k == 3 || k == 6, |o| &mut o.arr) }
    fn plain(&mut self, i: usize) -> bool { if self.ops[i].truthy == Some(false) { return false; } self.ask(i, |k| k == 4 || k == 7, |o| &mut o.plain) }
    fn equal(&mut self, a: u64, b: u64) -> bool {
        let k = mix(mix(7, a), b);
        if let Some(e) = self.eqs.iter().find(|e| e.0 == k) { return e.1; }
        if self.forks >= self.budget { return false; }
        self.forks += 1;
        let v = boolv("equal");
        let v = is(v);
        self.eqs.push((k, v));
        v
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Hit { pub kind: u8, pub lo: u32, pub hi: u32, pub path: u32 }

pub struct I<'a, 'w> {
    pub w: &'w mut World,
    pub heap: Vec<Obj<'a>>,
    pub env: Vec<(String, V)>,
    pub occ: Vec<(u64, u32)>,
    pub events: Vec<u64>,
    pub hits: Vec<(Hit, u32)>,
    pub record: bool,
    pub logic: bool,
    pub steps: u32,
    pub depth: u32,
    pub unsup: Option<&'static str>,
    pub trace: Vec<String>,
    /// afterwards somebody calls every function and class the program declared
    pub callers: bool,
    pub names: Vec<String>,
    clo: u32,
    dirs: Dirs,
}
const P_OBJ: u64 = 11; const P_ARR: u64 = 12; const P_OTHER: u64 = 13;
fn type_err() -> Ab { Ab::Throw(V::Prim(0x7e)) }

impl<'a, 'w> I<'a, 'w> {
    pub fn new(w: &'w mut World, record: bool, logic: bool) -> Self {
        I { w, heap: vec![Obj { props: vec![], acc: vec![], k: K::Plain }], env: vec![], occ: vec![], events: vec![], hits: vec![], record, logic, steps: 0, depth: 0, unsup: None, trace: vec![], callers: false, names: vec![], clo: 0, dirs: Dirs::default() }
    }
    /// before the next program of the same process: the same calls have the same outcomes again
    pub fn fresh(&mut self) { self.occ.clear(); self.steps = 0; self.events.clear(); self.hits.clear(); }
    fn tick(&mut self) { self.steps += 1; if self.steps > 4000 || self.depth > 12 { cover("step-limit"); assume(false); } }
    fn no(&mut self, m: &'static str) -> V { self.unsup = Some(m); self.w.budget = 0; V::Undef }
    fn hit(&mut self, kind: u8, s: Span, path: u32) {
        if !self.record { return; }
        let h = Hit { kind, lo: s.lo.0, hi: s.hi.0, path };
        match self.hits.iter_mut().find(|x| x.0 == h) { Some(x) => x.1 += 1, None => self.hits.push((h, 1)) }
    }
    pub fn count(&self, kind: u8, s: Span, path: u32) -> u32 { let h = Hit { kind, lo: s.lo.0, hi: s.hi.0, path }; self.hits.iter().find(|x| x.0 == h).map_or(0, |x| x.1) }
    fn event(&mut self, e: u64, what: &str) { self.events.push(e); if native() { self.trace.push(what.to_string()); } }
    fn get_occ(&mut self, k: u64) -> u32 {
        match self.occ.iter_mut().find(|x| x.0 == k) { Some(x) => { x.1 += 1; x.1 - 1 } None => { self.occ.push((k, 1)); 0 } }
    }
    fn alloc(&mut self, k: K<'a>) -> V { self.heap.push(Obj { props: vec![], acc: vec![], k }); V::Obj(self.heap.len() - 1) }
    pub fn sum(&self, v: &V, d: u32) -> u64 {
        match v {
            V::Undef => 1, V::Null => 2, V::Bool(b) => 3 + *b as u64, V::Num(n) => mix(5, n.to_bits()), V::Str(s) => mix(6, hs(s)), V::Op(i) => mix(7, self.w.ops[*i].key), V::Prim(p) => mix(8, *p),
            V::Obj(i) => {
                let o = &self.heap[*i];
                let mut h = match &o.k { K::Plain => 20, K::Array => 21, K::Fn(c) => mix(22, hs(&c.name)), K::Class(_, n) => mix(23, hs(n)), K::Native(n) => mix(24, hs(n)), K::Super => 25 };
                if d > 0 { for (k, v) in &o.props { h = mix(mix(h, hs(k)), self.sum(v, d - 1)); } }
                h
            }
        }
    }
    fn truthy(&mut self, v: &V) -> bool {
        match v { V::Undef | V::Null => false, V::Bool(b) => *b, V::Num(n) => *n != 0.0, V::Str(s) => !s.is_empty(), V::Obj(_) | V::Prim(_) => true, V::Op(i) => self.w.truthy(*i) }
    }
    fn nullish(&mut self, v: &V) -> bool { match v { V::Undef | V::Null => true, V::Op(i) => self.w.nullish(*i), _ => false } }
    fn is_undef(&mut self, v: &V) -> bool { match v { V::Undef => true, V::Op(i) => self.w.undef(*i), _ => false } }
    /// istanbul's "non-trivially truthy"
    fn nontriv(&mut self, v: &V) -> bool {
        match v {
            V::Op(i) => self.w.nontriv(*i),
            V::Obj(i) => match &self.heap[*i].k { K::Plain => self.heap[*i].props.len() + self.heap[*i].acc.len() > 0, K::Array => !self.heap[*i].props.is_empty(), _ => true },
            _ => self.truthy(v),
        }
    }
    pub fn lookup(&self, n: &str) -> Option<V> { self.env.iter().rev().find(|x| x.0 == n).map(|x| x.1.clone()) }
    fn set(&mut self, n: &str, v: V) { match self.env.iter_mut().find(|x| x.0 == n) { Some(x) => x.1 = v, None => self.env.push((n.to_string(), v)) } }
    pub fn prop(&self, o: usize, k: &str) -> Option<V> { self.heap[o].props.iter().find(|x| x.0 == k).map(|x| x.1.clone()) }
    fn set_prop(&mut self, o: usize, k: &str, v: V) { match self.heap[o].props.iter_mut().find(|x| x.0 == k) { Some(x) => x.1 = v, None => self.heap[o].props.push((k.to_string(), v)) } }
    pub fn run(&mut self, p: &'a Program) {
        if self.record { self.dirs = Dirs::of(p); }
        let mut decls: Vec<&'a FnDecl> = vec![];
        let r = match p {
            Program::Script(s) => self.stmts(&s.body),
            Program::Module(m) => {
                for i in &m.body {
                    match i {
                        ModuleItem::Stmt(Stmt::Decl(Decl::Fn(f))) => decls.push(f),
                        ModuleItem::ModuleDecl(ModuleDecl::ExportDecl(ExportDecl { decl: Decl::Fn(f), .. })) => decls.push(f),
                        _ => {}
                    }
                }
                for f in decls { self.hoist(f); }
                let mut r = Ok(());
                for i in &m.body { r = self.item(i); if r.is_err() { break; } }
                r
            }
        };
        let r = if self.callers && r.is_ok() { self.visitors() } else { r };
        if let Err(Ab::Throw(v)) = r { let s = self.sum(&v, 2); self.event(mix(90, s), "uncaught"); }
    }
    fn visitors(&mut self) -> R<()> {
        if self.record { self.names = self.env.iter().map(|e| e.0.clone()).collect(); }
        for n in self.names.clone() { if let Some(v @ V::Obj(_)) = self.lookup(&n) { self.event(mix(91, hs(&n)), "visited"); self.exercise(&v)?; } }
        Ok(())
    }
    fn ts_body(&mut self, b: &'a TsNamespaceBody) -> R<()> {
        match b {
            TsNamespaceBody::TsModuleBlock(m) => { for i in &m.body { if let ModuleItem::Stmt(Stmt::Decl(Decl::Fn(f))) = i { self.hoist(f); } if let ModuleItem::ModuleDecl(ModuleDecl::ExportDecl(ExportDecl { decl: Decl::Fn(f), .. })) = i { self.hoist(f); } } for i in &m.body { self.item(i)?; } Ok(()) }
            TsNamespaceBody::TsNamespaceDecl(d) => self.ts_body(&d.body),
        }
    }
    fn decl(&mut self, d: &'a Decl) -> R<()> {
        match d {
            Decl::Fn(_) | Decl::TsInterface(_) | Decl::TsTypeAlias(_) => Ok(()),
            Decl::Class(c) if c.declare => Ok(()),
            Decl::Var(c) if c.declare => Ok(()),
            Decl::Class(c) => { let v = self.class(&c.class, c.ident.sym.to_string())?; self.set(&c.ident.sym, v); Ok(()) }
            Decl::Var(v) => self.var_decl(v),
            Decl::Using(u) => { for d in &u.decls { if let Some(e) = &d.init { self.hit(b's', e.span(), 0); let v = self.named(e, None)?; self.bind(&d.name, v)?; } } Ok(()) }
            Decl::TsModule(m) => { if !m.declare { if let Some(b) = &m.body { self.ts_body(b)?; } } Ok(()) }
            Decl::TsEnum(e) => { if !e.declare && !e.is_const { for m in &e.members { if let Some(i) = &m.init { let v = self.expr(i)?; let s = self.sum(&v, 2); self.event(mix(92, s), "enum"); } } } Ok(()) }
        }
    }
    fn item(&mut self, i: &'a ModuleItem) -> R<()> {
        match i {
            ModuleItem::Stmt(s) => self.stmt(s, None),
            ModuleItem::ModuleDecl(d) => match d {
                ModuleDecl::Import(_) | ModuleDecl::ExportNamed(_) | ModuleDecl::ExportAll(_) => Ok(()),
                ModuleDecl::ExportDecl(e) => {
                    if let Decl::Var(v) = &e.decl { if v.kind == VarDeclKind::Const && !v.declare { self.hit(b'e', e.span, 0); } }
                    match &e.decl { Decl::Fn(f) => { let v = self.lookup(&f.ident.sym).unwrap_or(V::Undef); self.exercise(&v)?; } Decl::Class(c) if !c.declare => { let v = self.class(&c.class, c.ident.sym.to_string())?; self.exercise(&v)?; } d => self.decl(d)? }
                    Ok(())
                }
                ModuleDecl::ExportDefaultDecl(e) => {
                    let v = match &e.decl { DefaultDecl::Fn(f) => self.func(&f.function, "default".into(), true), DefaultDecl::Class(c) => self.class(&c.class, "default".into())?, _ => V::Undef };
                    self.exercise(&v)?;
                    Ok(())
                }
                ModuleDecl::ExportDefaultExpr(e) => { let v = self.expr(&e.expr)?; self.exercise(&v)?; Ok(()) }
                ModuleDecl::TsExportAssignment(e) => { let v = self.expr(&e.expr)?; self.exercise(&v)?; Ok(()) }
                ModuleDecl::TsImportEquals(_) | ModuleDecl::TsNamespaceExport(_) => Ok(()),
            },
        }
    }
    fn hoist(&mut self, f: &'a FnDecl) { let v = self.func(&f.function, f.ident.sym.to_string(), true); self.set(&f.ident.sym, v); }
    pub fn stmts(&mut self, v: &'a [Stmt]) -> R<()> {
        for s in v { if let Stmt::Decl(Decl::Fn(f)) = s { self.hoist(f); } }
        for s in v { self.stmt(s, None)?; }
        Ok(())
    }
    fn func(&mut self, f: &'a Function, name: String, rec: bool) -> V {
        self.clo += 1;
        let id = self.clo;
        let c = Clo { params: f.params.iter().map(|p| &p.pat).collect(), body: match &f.body { Some(b) => Body::Block(b), None => Body::None }, name, rec, id };
        self.alloc(K::Fn(Rc::new(c)))
    }
    fn arrow(&mut self, a: &'a ArrowExpr, name: String) -> V {
        self.clo += 1;
        let id = self.clo;
        let c = Clo { params: a.params.iter().collect(), body: match &*a.body { BlockStmtOrExpr::BlockStmt(b) => Body::Block(b), BlockStmtOrExpr::Expr(e) => Body::Expr(e) }, name, rec: true, id };
        self.alloc(K::Fn(Rc::new(c)))
    }
    fn class(&mut self, c: &'a Class, name: String) -> R<V> {
        self.hit(b'k', c.span, 0);
        if let Some(s) = &c.super_class { self.expr(s)?; }
        for m in &c.body {
            let k = match m { ClassMember::Method(m) => Some(&m.key), ClassMember::ClassProp(p) => Some(&p.key), _ => None };
            if let Some(PropName::Computed(k)) = k { self.expr(&k.expr)?; }
        }
        for m in &c.body {
            match m {
                ClassMember::ClassProp(p) if p.is_static => self.field(p.value.as_deref())?,
                ClassMember::PrivateProp(p) if p.is_static => self.field(p.value.as_deref())?,
                ClassMember::StaticBlock(b) => self.stmts(&b.body.stmts)?,
                _ => {}
            }
        }
        Ok(self.alloc(K::Class(c, name)))
    }
    fn field(&mut self, v: Option<&'a Expr>) -> R<()> { if let Some(e) = v { self.hit(b's', e.span(), 0); let v = self.expr(e)?; let s = self.sum_anon(&v); self.event(mix(60, s), "field"); } Ok(()) }
    /// summary that does not depend on inferred function names
    fn sum_anon(&mut self, v: &V) -> u64 { if let V::Obj(i) = v { if let K::Fn(_) | K::Class(..) = self.heap[*i].k { return 61; } } self.sum(v, 2) }
    pub fn call(&mut self, f: &V, args: &[V]) -> R<V> {
        self.tick();
        let V::Obj(i) = f else {
            if self.nullish(f) { return Err(type_err()); }
            return Err(type_err());
        };
        let c = match &self.heap[*i].k {
            K::Fn(c) => c.clone(),
            K::Native("return this") => return Ok(V::Obj(0)),
            _ => return Err(type_err()),
        };
        self.depth += 1;
        let r = self.enter(&c, args);
        self.depth -= 1;
        r
    }
    fn enter(&mut self, c: &Clo<'a>, args: &[V]) -> R<V> {
        for (i, p) in c.params.iter().enumerate() { self.bind(p, args.get(i).cloned().unwrap_or(V::Undef))?; }
        match &c.body {
            Body::Block(b) => {
                if c.rec { self.hit(b'f', b.span, 0); }
                match self.stmts(&b.stmts) { Ok(()) => Ok(V::Undef), Err(Ab::Return(v)) => Ok(v), Err(e) => Err(e) }
            }
            Body::Expr(e) => { self.hit(b'f', e.span(), 0); self.hit(b's', e.span(), 1); self.expr(e) }
            Body::None => Ok(V::Undef),
        }
    }
    /// what an unknown callee may do with a value it receives
    fn exercise(&mut self, v: &V) -> R<()> {
        let V::Obj(i) = v else { return Ok(()) };
        if self.depth > 8 { return Ok(()); }
        enum W<'x> { F(bool), C(&'x Class), O }
        let w = match &self.heap[*i].k { K::Fn(c) => W::F(!c.params.is_empty()), K::Class(c, _) => W::C(*c), K::Plain | K::Array => W::O, _ => return Ok(()) };
        match w {
            W::F(p) => {
                let r = self.call(v, &[])?; let s = self.sum(&r, 2); self.event(mix(50, s), "returned");
                if p { let r = self.call(v, &[V::Prim(77)])?; let s = self.sum(&r, 2); self.event(mix(51, s), "returned"); }
            }
            W::C(c) => {
                // two instances
                for _ in 0..2 { for m in &c.body { match m { ClassMember::ClassProp(p) if !p.is_static => self.field(p.value.as_deref())?, ClassMember::PrivateProp(p) if !p.is_static => self.field(p.value.as_deref())?, _ => {} } } }
                for m in &c.body {
                    let f = match m {
                        ClassMember::Constructor(k) => {
                            self.clo += 1;
                            let id = self.clo;
                            let params = k.params.iter().filter_map(|p| if let ParamOrTsParamProp::Param(p) = p { Some(&p.pat) } else { None }).collect();
                            let c = Clo { params, body: match &k.body { Some(b) => Body::Block(b), None => Body::None }, name: "constructor".into(), rec: true, id };
                            self.alloc(K::Fn(Rc::new(c)))
                        }
                        ClassMember::Method(m) => self.func(&m.function, String::new(), true),
                        ClassMember::PrivateMethod(m) => self.func(&m.function, String::new(), true),
                        _ => continue,
                    };
                    let r = self.call(&f, &[])?; let s = self.sum(&r, 2); self.event(mix(52, s), "returned");
                }
            }
            W::O => {
                let n = self.heap[*i].props.len();
                for k in 0..n { let x = self.heap[*i].props[k].1.clone(); self.exercise(&x)?; }
                let n = self.heap[*i].acc.len();
                for k in 0..n { let x = self.heap[*i].acc[k].clone(); let r = self.call(&x, &[])?; let s = self.sum(&r, 2); self.event(mix(53, s), "returned"); }
            }
        }
        Ok(())
    }
    fn opaque(&mut self, name: &str, args: &[V]) -> R<V> {
        self.tick();
        let mut h = hs(name);
        let key = h;
        for a in args { h = mix(h, self.sum(a, 2)); }
        self.event(h, name);
        for a in args { self.exercise(a)?; }
        let o = self.get_occ(key);
        Ok(self.w.op(key, o))
    }
    fn key_of(&mut self, v: &V) -> String {
        match v { V::Str(s) => s.to_string(), V::Num(n) => { let u = *n as u32; if u as f64 == *n { let mut s = String::new(); let mut d = 1; while u / d >= 10 { d *= 10; } while d > 0 { s.push((b'0' + (u / d % 10) as u8) as char); d /= 10; } s } else { "num".into() } } V::Op(_) => "op".into(), _ => "key".into() }
    }
    fn get(&mut self, o: &V, k: &str, at: u32) -> R<V> {
        match o {
            V::Undef | V::Null => Err(type_err()),
            V::Obj(i) => {
                if let Some(v) = self.prop(*i, k) { return Ok(v); }
                if let K::Array = self.heap[*i].k { if k == "length" { return Ok(V::Num(self.heap[*i].props.len() as f64)); } }
                Ok(V::Undef)
            }
            V::Op(i) => {
                if self.w.nullish(*i) { return Err(type_err()); }
                if k == "length" && self.w.arr(*i) { return Ok(V::Num(if self.w.nontriv(*i) { 1.0 } else { 0.0 })); }
                let _ = at;
                let key = mix(mix(41, self.w.ops[*i].key), hs(k));
                let occ = self.get_occ(key);
                Ok(self.w.op(key, occ))
            }
            _ => Ok(V::Undef),
        }
    }
    pub fn bind(&mut self, p: &'a Pat, v: V) -> R<()> {
        match p {
            Pat::Ident(i) => { self.set(&i.id.sym, v); Ok(()) }
            Pat::Assign(a) => {
                let v = if self.is_undef(&v) { self.hit(b'd', a.span, 0); self.named(&a.right, None)? } else { v };
                self.bind(&a.left, v)
            }
            Pat::Object(o) => {
                if self.nullish(&v) { return Err(type_err()); }
                for p in &o.props {
                    match p {
                        ObjectPatProp::KeyValue(kv) => { let k = self.prop_key(&kv.key)?; let x = self.get(&v, &k, kv.value.span().lo.0)?; self.bind(&kv.value, x)?; }
                        ObjectPatProp::Assign(a) => {
                            let x = self.get(&v, &a.key.id.sym, a.span.lo.0)?;
                            let x = match &a.value { Some(d) if self.is_undef(&x) => { self.hit(b'o', a.span, 0); self.expr(d)? } _ => x };
                            self.set(&a.key.id.sym, x);
                        }
                        ObjectPatProp::Rest(r) => self.bind(&r.arg, V::Prim(31))?,
                    }
                }
                Ok(())
            }
            Pat::Array(a) => {
                if self.nullish(&v) { return Err(type_err()); }
                for (i, p) in a.elems.iter().enumerate() { if let Some(p) = p { let k = self.key_of(&V::Num(i as f64)); let x = self.get(&v, &k, p.span().lo.0)?; self.bind(p, x)?; } }
                Ok(())
            }
            Pat::Rest(r) => { let v = self.alloc(K::Array); self.bind(&r.arg, v) }
            Pat::Expr(e) => self.assign_expr(e, v),
            _ => { self.no("pattern"); Ok(()) }
        }
    }
    fn assign_expr(&mut self, e: &'a Expr, v: V) -> R<()> {
        match unparen(e) {
            Expr::Ident(i) => { self.set(&i.sym, v); Ok(()) }
            Expr::Member(m) => self.assign_member(m, v),
            _ => { self.no("assign target"); Ok(()) }
        }
    }
    fn assign_member(&mut self, m: &'a MemberExpr, v: V) -> R<()> {
        let o = self.expr(&m.obj)?;
        let k = self.member_key(m)?;
        self.put(&o, &k, v)
    }
    fn put(&mut self, o: &V, k: &str, v: V) -> R<()> {
        match o { V::Obj(i) => self.set_prop(*i, k, v), V::Op(i) => { if self.w.nullish(*i) { return Err(type_err()); } let s = self.sum(&v, 2); self.event(mix(70, mix(s, hs(k))), "store"); } V::Undef | V::Null => return Err(type_err()), _ => {} }
        Ok(())
    }
    fn member_key(&mut self, m: &'a MemberExpr) -> R<String> {
        Ok(match &m.prop { MemberProp::Ident(i) => i.sym.to_string(), MemberProp::Computed(c) => { let v = self.expr(&c.expr)?; self.key_of(&v) } MemberProp::PrivateName(p) => p.name.to_string() })
    }
    fn prop_key(&mut self, k: &'a PropName) -> R<String> {
        Ok(match k { PropName::Ident(i) => i.sym.to_string(), PropName::Str(s) => s.value.to_string(), PropName::Num(n) => { self.key_of(&V::Num(n.value)) } PropName::Computed(c) => { let v = self.expr(&c.expr)?; self.key_of(&v) } PropName::BigInt(_) => "big".into() })
    }
    fn var_decl(&mut self, v: &'a VarDecl) -> R<()> {
        self.hit(b'v', v.span, 0);
        for d in &v.decls {
            match (&d.name, &d.init) {
                (n, Some(e)) => {
                    self.hit(b's', e.span(), 0);
                    let name = if let Pat::Ident(i) = n { Some(&*i.id.sym) } else { None };
                    let v = self.named(e, name)?;
                    self.bind(n, v)?;
                }
                (Pat::Assign(a), None) => { let v = self.expr(&a.right)?; self.bind(&a.left, v)?; }
                (Pat::Ident(i), None) => if self.lookup(&i.id.sym).is_none() { self.set(&i.id.sym, V::Undef) },
                _ => {}
            }
        }
        Ok(())
    }
    fn named(&mut self, e: &'a Expr, n: Option<&str>) -> R<V> {
        let nm = || n.unwrap_or("").to_string();
        match unparen(e) {
            Expr::Arrow(a) => { let n = nm(); Ok(self.arrow(a, n)) }
            Expr::Fn(f) if f.ident.is_none() => { let n = nm(); Ok(self.func(&f.function, n, true)) }
            Expr::Class(c) if c.ident.is_none() => { let n = nm(); self.class(&c.class, n) }
            _ => self.expr(e),
        }
    }
    fn label_eq(l: &Option<String>, mine: Option<&str>) -> bool { match (l, mine) { (None, _) => true, (Some(a), Some(b)) => a == b, _ => false } }
    /// loop body: Ok(true) = leave the loop
    fn body(&mut self, s: &'a Stmt, label: Option<&str>) -> R<bool> {
        self.tick();
        match self.stmt(s, None) {
            Ok(()) => Ok(false),
            Err(Ab::Break(None)) => Ok(true),
            Err(Ab::Continue(l)) if Self::label_eq(&l, label) => Ok(false),
            Err(e) => Err(e),
        }
    }
    fn iterations(&mut self, v: &V, key: u64, of: bool) -> R<u32> {
        if self.nullish(v) { return if of { Err(type_err()) } else { Ok(0) }; }
        let o = self.get_occ(key);
        let k = mix(mix(43, key), o as u64);
        let a = self.w.equal(k, 1);
        if !a { return Ok(0); }
        Ok(if self.w.equal(k, 2) { 2 } else { 1 })
    }
    pub fn stmt(&mut self, s: &'a Stmt, label: Option<&str>) -> R<()> {
        self.tick();
        match s {
            Stmt::Expr(e) => {
                if !self.dirs.has(e.span.lo.0) { self.hit(b's', e.span, 0); }
                let v = self.expr(&e.expr)?;
                if self.callers && self.depth == 0 { self.exercise(&v)?; }
                Ok(())
            }
            Stmt::Block(b) => self.stmts(&b.stmts),
            Stmt::Empty(_) => Ok(()),
            Stmt::Debugger(d) => { self.hit(b'g', d.span, 0); Ok(()) }
            Stmt::With(w) => { self.hit(b's', w.span, 0); let v = self.expr(&w.obj)?; if self.nullish(&v) { return Err(type_err()); } self.stmt(&w.body, None) }
            Stmt::Return(r) => { self.hit(b's', r.span, 0); let v = match &r.arg { Some(e) => self.expr(e)?, None => V::Undef }; Err(Ab::Return(v)) }
            Stmt::Labeled(l) => {
                self.hit(b's', l.span, 0);
                match self.stmt(&l.body, Some(&l.label.sym)) { Err(Ab::Break(Some(x))) if x == *l.label.sym => Ok(()), r => r }
            }
            Stmt::Break(b) => { self.hit(b's', b.span, 0); Err(Ab::Break(b.label.as_ref().map(|l| l.sym.to_string()))) }
            Stmt::Continue(b) => { self.hit(b's', b.span, 0); Err(Ab::Continue(b.label.as_ref().map(|l| l.sym.to_string()))) }
            Stmt::If(i) => {
                self.hit(b's', i.span, 0);
                let v = self.expr(&i.test)?;
                if self.truthy(&v) { self.hit(b'i', i.span, 0); self.stmt(&i.cons, None) } else { self.hit(b'i', i.span, 1); if let Some(a) = &i.alt { self.stmt(a, None) } else { Ok(()) } }
            }
            Stmt::Switch(w) => {
                self.hit(b's', w.span, 0);
                let d = self.expr(&w.discriminant)?;
                for c in &w.cases { for s in &c.cons { if let Stmt::Decl(Decl::Fn(f)) = s { self.hoist(f); } } }
                let mut at = None;
                for (i, c) in w.cases.iter().enumerate() { if let Some(t) = &c.test { let t = self.expr(t)?; if self.strict_eq(&d, &t) { at = Some(i); break; } } }
                if at.is_none() { at = w.cases.iter().position(|c| c.test.is_none()); }
                if let Some(a) = at {
                    for (i, c) in w.cases.iter().enumerate().skip(a) {
                        self.hit(b'w', w.span, i as u32);
                        for s in &c.cons { match self.stmt(s, None) { Ok(()) => {} Err(Ab::Break(None)) => return Ok(()), Err(e) => return Err(e) } }
                    }
                }
                Ok(())
            }
            Stmt::Throw(t) => { self.hit(b's', t.span, 0); let v = self.expr(&t.arg)?; Err(Ab::Throw(v)) }
            Stmt::Try(t) => {
                self.hit(b's', t.span, 0);
                let mut r = self.stmts(&t.block.stmts);
                if let (Err(Ab::Throw(v)), Some(h)) = (&r, &t.handler) {
                    let v = v.clone();
                    r = (|| { if let Some(p) = &h.param { self.bind(p, v)?; } self.stmts(&h.body.stmts) })();
                }
                if let Some(f) = &t.finalizer { self.stmts(&f.stmts)?; }
                r
            }
            Stmt::While(w) => {
                self.hit(b's', w.span, 0);
                loop { let v = self.expr(&w.test)?; if !self.truthy(&v) { return Ok(()); } if self.body(&w.body, label)? { return Ok(()); } }
            }
            Stmt::DoWhile(w) => {
                self.hit(b's', w.span, 0);
                loop { if self.body(&w.body, label)? { return Ok(()); } let v = self.expr(&w.test)?; if !self.truthy(&v) { return Ok(()); } }
            }
            Stmt::For(f) => {
                self.hit(b's', f.span, 0);
                match &f.init { Some(VarDeclOrExpr::VarDecl(v)) => self.var_decl(v)?, Some(VarDeclOrExpr::Expr(e)) => { self.expr(e)?; } None => {} }
                loop {
                    if let Some(t) = &f.test { let v = self.expr(t)?; if !self.truthy(&v) { return Ok(()); } }
                    if self.body(&f.body, label)? { return Ok(()); }
                    if let Some(u) = &f.update { self.expr(u)?; }
                }
            }
            Stmt::ForIn(f) => { self.hit(b's', f.span, 0); let v = self.expr(&f.right)?; self.each(&v, f.span, &f.left, &f.body, label, false) }
            Stmt::ForOf(f) => { self.hit(b's', f.span, 0); let v = self.expr(&f.right)?; self.each(&v, f.span, &f.left, &f.body, label, true) }
            Stmt::Decl(d) => self.decl(d),
        }
    }
    fn each(&mut self, v: &V, sp: Span, left: &'a ForHead, body: &'a Stmt, label: Option<&str>, of: bool) -> R<()> {
        let n = self.iterations(v, sp.lo.0 as u64, of)?;
        for i in 0..n {
            let x = V::Prim(mix(sp.lo.0 as u64, i as u64));
            match left { ForHead::VarDecl(d) => if let Some(d) = d.decls.first() { self.bind(&d.name, x)? }, ForHead::Pat(p) => self.bind(p, x)?, _ => { self.no("for head"); } }
            if self.body(body, label)? { return Ok(()); }
        }
        Ok(())
    }
    fn strict_eq(&mut self, a: &V, b: &V) -> bool {
        match (a, b) {
            (V::Op(_), _) | (_, V::Op(_)) => { let (x, y) = (self.sum(a, 2), self.sum(b, 2)); if x == y { true } else { self.w.equal(x, y) } }
            (V::Undef, V::Undef) | (V::Null, V::Null) => true,
            (V::Bool(a), V::Bool(b)) => a == b, (V::Num(a), V::Num(b)) => a == b, (V::Str(a), V::Str(b)) => a == b, (V::Obj(a), V::Obj(b)) => a == b, (V::Prim(a), V::Prim(b)) => a == b,
            _ => false,
        }
    }
    fn args(&mut self, a: &'a [ExprOrSpread]) -> R<Vec<V>> { let mut v = vec![]; for x in a { let y = self.expr(&x.expr)?; if x.spread.is_some() { let s = self.sum(&y, 2); v.push(V::Prim(mix(33, s))); } else { v.push(y); } } Ok(v) }
    fn leaf(&mut self, e: &'a Expr, root: Span, n: &mut u32) -> R<V> {
        // leaves are numbered left to right over the whole chain, evaluated or not
        if let Expr::Bin(b) = unparen(e) {
            if is_logical(b.op) {
                let l = self.leaf(&b.left, root, n)?;
                let cut = match b.op { BinaryOp::LogicalAnd => !self.truthy(&l), BinaryOp::LogicalOr => self.truthy(&l), _ => !self.nullish(&l) };
                if cut { *n += leaves(&b.right); return Ok(l); }
                return self.leaf(&b.right, root, n);
            }
        }
        let k = *n;
        *n += 1;
        self.hit(b'l', root, k);
        let v = self.expr(e)?;
        if self.record && self.logic && self.nontriv(&v) { self.hit(b't', root, k); }
        Ok(v)
    }
    pub fn expr(&mut self, e: &'a Expr) -> R<V> {
        self.tick();
        Ok(match e {
            Expr::Paren(p) => self.expr(&p.expr)?,
            Expr::Ident(i) => match &*i.sym { "undefined" => V::Undef, n => match self.lookup(n) { Some(v) => v, None => { self.event(mix(80, hs(n)), n); V::Undef } } },
            Expr::Lit(l) => match l { Lit::Str(s) => V::Str((&*s.value).into()), Lit::Bool(b) => V::Bool(b.value), Lit::Null(_) => V::Null, Lit::Num(n) => V::Num(n.value), _ => V::Prim(5) },
            Expr::Seq(s) => { let mut r = V::Undef; for e in &s.exprs { r = self.expr(e)?; } r }
            Expr::Bin(b) if is_logical(b.op) => {
                if self.record { let mut n = 0; self.leaf(e, b.span, &mut n)? } else {
                    let l = self.expr(&b.left)?;
                    let cut = match b.op { BinaryOp::LogicalAnd => !self.truthy(&l), BinaryOp::LogicalOr => self.truthy(&l), _ => !self.nullish(&l) };
                    if cut { l } else { self.expr(&b.right)? }
                }
            }
            Expr::Bin(b) => {
                let l = self.expr(&b.left)?;
                let r = self.expr(&b.right)?;
                match b.op { BinaryOp::EqEqEq => V::Bool(self.strict_eq(&l, &r)), BinaryOp::NotEqEq => V::Bool(!self.strict_eq(&l, &r)), op => { let h = mix(mix(34 + op as u64 * 100, self.sum(&l, 2)), self.sum(&r, 2)); V::Prim(h) } }
            }
            Expr::Unary(u) => { let v = self.expr(&u.arg)?; match u.op { UnaryOp::Bang => V::Bool(!self.truthy(&v)), UnaryOp::Void => V::Undef, op => V::Prim(mix(35 + op as u64 * 100, self.sum(&v, 2))) } }
            Expr::Cond(c) => { let t = self.expr(&c.test)?; if self.truthy(&t) { self.hit(b'c', c.span, 0); self.expr(&c.cons)? } else { self.hit(b'c', c.span, 1); self.expr(&c.alt)? } }
            Expr::Fn(f) => { let n = f.ident.as_ref().map_or(String::new(), |i| i.sym.to_string()); self.func(&f.function, n, true) }
            Expr::Arrow(a) => self.arrow(a, String::new()),
            Expr::Class(c) => { let n = c.ident.as_ref().map_or(String::new(), |i| i.sym.to_string()); self.class(&c.class, n)? }
            Expr::Array(a) => { let mut v = vec![]; for x in &a.elems { v.push(match x { Some(x) => self.expr(&x.expr)?, None => V::Undef }); } let o = self.alloc(K::Array); if let V::Obj(i) = o { for (k, x) in v.into_iter().enumerate() { let k = self.key_of(&V::Num(k as f64)); self.heap[i].props.push((k, x)); } } o }
            Expr::Object(o) => {
                let r = self.alloc(K::Plain);
                let V::Obj(i) = r else { unreachable!() };
                for p in &o.props {
                    match p {
                        PropOrSpread::Spread(s) => { let v = self.expr(&s.expr)?; let h = self.sum(&v, 2); self.heap[i].props.push(("...".into(), V::Prim(h))); }
                        PropOrSpread::Prop(p) => match &**p {
                            Prop::KeyValue(kv) => { let k = self.prop_key(&kv.key)?; let v = self.expr(&kv.value)?; self.heap[i].props.push((k, v)); }
                            Prop::Shorthand(id) => { let v = self.lookup(&id.sym).unwrap_or(V::Undef); self.heap[i].props.push((id.sym.to_string(), v)); }
                            Prop::Method(m) => { let k = self.prop_key(&m.key)?; let v = self.func(&m.function, String::new(), true); self.heap[i].props.push((k, v)); }
                            Prop::Getter(g) => { self.prop_key(&g.key)?; let v = self.accessor(vec![], g.body.as_ref()); self.heap[i].acc.push(v); }
                            Prop::Setter(g) => { self.prop_key(&g.key)?; let v = self.accessor(vec![&*g.param], g.body.as_ref()); self.heap[i].acc.push(v); }
                            Prop::Assign(_) => { self.no("cover initialised name"); }
                        },
                    }
                }
                r
            }
            Expr::Assign(a) => return self.assign(a),
            Expr::Update(u) => {
                match unparen(&u.arg) {
                    Expr::Ident(i) => { let v = self.lookup(&i.sym).unwrap_or(V::Undef); let h = self.sum(&v, 2); self.set(&i.sym, V::Prim(mix(36, h))); v }
                    Expr::Member(m) => {
                        let o = self.expr(&m.obj)?;
                        let k = self.member_key(m)?;
                        let v = self.get(&o, &k, m.span.lo.0)?;
                        let d = if u.op == UpdateOp::PlusPlus { 1.0 } else { -1.0 };
                        let n = match &v { V::Num(n) => V::Num(*n + d), V::Undef => V::Str("NaN".into()), x => V::Prim(mix(37, self.sum(x, 2))) };
                        self.put(&o, &k, n)?;
                        v
                    }
                    _ => self.no("update target"),
                }
            }
            Expr::Member(m) => {
                if let Expr::Ident(o) = &*m.obj { if let MemberProp::Ident(p) = &m.prop { if (&*o.sym, &*p.sym) == ("Object", "prototype") { return Ok(V::Prim(P_OBJ)); } } }
                let o = self.expr(&m.obj)?;
                let k = self.member_key(m)?;
                self.get(&o, &k, m.span.lo.0)?
            }
            Expr::OptChain(o) => match &*o.base {
                OptChainBase::Member(m) => { let b = self.expr(&m.obj)?; if o.optional && self.nullish(&b) { return Ok(V::Undef); } let k = self.member_key(m)?; self.get(&b, &k, m.span.lo.0)? }
                OptChainBase::Call(c) => {
                    // recv?.p(args): short-circuits the whole chain
                    let (recv, opt) = match unparen(&c.callee) { Expr::OptChain(i) => match &*i.base { OptChainBase::Member(m) => (self.expr(&m.obj)?, i.optional), _ => return Ok(self.no("optional call")) }, x => (self.expr(x)?, o.optional) };
                    if opt && self.nullish(&recv) { return Ok(V::Undef); }
                    let mut a = self.args(&c.args)?;
                    a.push(recv);
                    self.opaque("optcall", &a)?
                }
            },
            Expr::Call(c) => return self.call_expr(c),
            Expr::New(n) => {
                let a = match &n.args { Some(a) => self.args(a)?, None => vec![] };
                match unparen(&n.callee) {
                    Expr::Ident(i) if i.sym.contains(".constructor)") || &*i.sym == "Function" => { if a.len() == 1 && matches!(&a[0], V::Str(s) if &**s == "return this") { self.alloc(K::Native("return this")) } else { self.alloc(K::Native("function")) } }
                    Expr::Member(m) if matches!(&m.prop, MemberProp::Ident(p) if &*p.sym == "constructor") => { if a.len() == 1 && matches!(&a[0], V::Str(s) if &**s == "return this") { self.alloc(K::Native("return this")) } else { self.alloc(K::Native("function")) } }
                    Expr::Ident(i) => self.opaque(&i.sym, &a)?,
                    x => { let v = self.expr(x)?; let s = self.sum(&v, 2); self.event(mix(38, s), "new"); self.opaque("new", &a)? }
                }
            }
            Expr::Tpl(t) => { let mut h = 39; for x in &t.exprs { let v = self.expr(x)?; h = mix(h, self.sum(&v, 2)); } V::Prim(h) }
            Expr::TaggedTpl(t) => {
                let mut a = vec![];
                let tag = if let Expr::Ident(i) = unparen(&t.tag) { hs(&i.sym) } else { let v = self.expr(&t.tag)?; self.sum(&v, 2) };
                for x in &t.tpl.exprs { a.push(self.expr(x)?); }
                a.push(V::Prim(tag));
                a.push(V::Prim(t.span.lo.0 as u64));
                self.opaque("tag", &a)?
            }
            Expr::Await(a) => { let v = self.expr(&a.arg)?; let s = self.sum(&v, 2); self.event(mix(44, s), "await"); v }
            Expr::Yield(y) => { let v = match &y.arg { Some(a) => self.expr(a)?, None => V::Undef }; let s = self.sum(&v, 2); self.event(mix(45, s), "yield"); V::Prim(46) }
            Expr::This(_) => V::Prim(47),
            Expr::TsAs(x) => self.expr(&x.expr)?,
            Expr::TsNonNull(x) => self.expr(&x.expr)?,
            Expr::TsTypeAssertion(x) => self.expr(&x.expr)?,
            Expr::TsSatisfies(x) => self.expr(&x.expr)?,
            Expr::TsConstAssertion(x) => self.expr(&x.expr)?,
            Expr::TsInstantiation(x) => self.expr(&x.expr)?,
            Expr::MetaProp(m) => V::Prim(mix(93, m.kind as u64)),
            Expr::SuperProp(m) => { let k = match &m.prop { SuperProp::Ident(i) => i.sym.to_string(), SuperProp::Computed(c) => { let v = self.expr(&c.expr)?; self.key_of(&v) } }; self.event(mix(94, hs(&k)), "super property"); V::Prim(mix(94, hs(&k))) }
            Expr::PrivateName(p) => V::Prim(hs(&p.name)),
            Expr::JSXElement(e) => self.jsx(e)?,
            Expr::JSXFragment(e) => { let mut h = 95; for c in &e.children { h = mix(h, self.jsx_child(c)?); } V::Prim(h) }
            _ => self.no("expression"),
        })
    }
    fn jsx(&mut self, e: &'a JSXElement) -> R<V> {
        let mut h = 96;
        for a in &e.opening.attrs {
            match a {
                JSXAttrOrSpread::SpreadElement(s) => { let v = self.expr(&s.expr)?; h = mix(h, self.sum(&v, 2)); }
                JSXAttrOrSpread::JSXAttr(a) => match &a.value {
                    Some(JSXAttrValue::JSXExprContainer(c)) => h = mix(h, self.jsx_expr(&c.expr)?),
                    Some(JSXAttrValue::JSXElement(e)) => { let v = self.jsx(e)?; h = mix(h, self.sum(&v, 2)); }
                    _ => {}
                },
            }
        }
        for c in &e.children { h = mix(h, self.jsx_child(c)?); }
        Ok(V::Prim(h))
    }
    fn jsx_expr(&mut self, e: &'a JSXExpr) -> R<u64> { match e { JSXExpr::Expr(e) => { let v = self.expr(e)?; Ok(self.sum(&v, 2)) } _ => Ok(0) } }
    fn jsx_child(&mut self, c: &'a JSXElementChild) -> R<u64> {
        match c {
            JSXElementChild::JSXExprContainer(c) => self.jsx_expr(&c.expr),
            JSXElementChild::JSXSpreadChild(c) => { let v = self.expr(&c.expr)?; Ok(self.sum(&v, 2)) }
            JSXElementChild::JSXElement(e) => { let v = self.jsx(e)?; Ok(self.sum(&v, 2)) }
            JSXElementChild::JSXFragment(f) => { let mut h = 97; for c in &f.children { h = mix(h, self.jsx_child(c)?); } Ok(h) }
            _ => Ok(1),
        }
    }
    fn accessor(&mut self, params: Vec<&'a Pat>, b: Option<&'a BlockStmt>) -> V {
        self.clo += 1;
        let id = self.clo;
        self.alloc(K::Fn(Rc::new(Clo { params, body: match b { Some(b) => Body::Block(b), None => Body::None }, name: String::new(), rec: true, id })))
    }
    fn assign(&mut self, a: &'a AssignExpr) -> R<V> {
        let logical = matches!(a.op, AssignOp::AndAssign | AssignOp::OrAssign | AssignOp::NullishAssign);
        match &a.left {
            AssignTarget::Simple(SimpleAssignTarget::Ident(i)) => {
                if a.op == AssignOp::Assign { let v = self.named(&a.right, None)?; self.set(&i.id.sym, v.clone()); return Ok(v); }
                let old = self.lookup(&i.id.sym).unwrap_or(V::Undef);
                if logical {
                    let go = match a.op { AssignOp::AndAssign => self.truthy(&old), AssignOp::OrAssign => !self.truthy(&old), _ => self.nullish(&old) };
                    if !go { return Ok(old); }
                    let v = self.named(&a.right, None)?; self.set(&i.id.sym, v.clone()); return Ok(v);
                }
                let r = self.expr(&a.right)?;
                let v = V::Prim(mix(mix(48, self.sum(&old, 2)), self.sum(&r, 2)));
                self.set(&i.id.sym, v.clone());
                Ok(v)
            }
            AssignTarget::Simple(SimpleAssignTarget::Member(m)) => {
                let o = self.expr(&m.obj)?;
                let k = self.member_key(m)?;
                if a.op != AssignOp::Assign { return Ok(self.no("compound member assignment")); }
                let v = self.named(&a.right, None)?;
                self.put(&o, &k, v.clone())?;
                Ok(v)
            }
            AssignTarget::Pat(p) => {
                let v = self.expr(&a.right)?;
                match p {
                    AssignTargetPat::Object(o) => { if self.nullish(&v) { return Err(type_err()); } for p in &o.props { match p {
                        ObjectPatProp::KeyValue(kv) => { let k = self.prop_key(&kv.key)?; let x = self.get(&v, &k, 0)?; self.bind(&kv.value, x)?; }
                        ObjectPatProp::Assign(a) => { let x = self.get(&v, &a.key.id.sym, 0)?; let x = match &a.value { Some(d) if self.is_undef(&x) => { self.hit(b'o', a.span, 0); self.expr(d)? } _ => x }; self.set(&a.key.id.sym, x); }
                        ObjectPatProp::Rest(_) => {} } } }
                    AssignTargetPat::Array(o) => { if self.nullish(&v) { return Err(type_err()); } for (i, p) in o.elems.iter().enumerate() { if let Some(p) = p { let k = self.key_of(&V::Num(i as f64)); let x = self.get(&v, &k, 0)?; self.bind(p, x)?; } } }
                    _ => { self.no("pattern target"); }
                }
                Ok(v)
            }
            _ => Ok(self.no("assignment target")),
        }
    }
    fn call_expr(&mut self, c: &'a CallExpr) -> R<V> {
        let Callee::Expr(f) = &c.callee else { let a = self.args(&c.args)?; return self.opaque("super", &a) };
        match unparen(f) {
            Expr::Member(m) => {
                if let (Expr::Ident(o), MemberProp::Ident(p)) = (&*m.obj, &m.prop) {
                    let which = match (&*o.sym, &*p.sym) { ("Array", "isArray") => 1, ("Object", "getPrototypeOf") => 2, ("Object", "values") => 3, _ => 0 };
                    if which > 0 {
                        let a = self.args(&c.args)?;
                        let v = a.into_iter().next().unwrap_or(V::Undef);
                        return self.builtin(which, &v);
                    }
                }
                let o = self.expr(&m.obj)?;
                if self.nullish(&o) { return Err(type_err()); }
                let k = self.member_key(m)?;
                let mut a = self.args(&c.args)?;
                a.push(o);
                self.opaque(&k, &a)
            }
            Expr::Ident(i) => {
                let f = self.lookup(&i.sym);
                let a = self.args(&c.args)?;
                match f { Some(f @ V::Obj(_)) => self.call(&f, &a), None => self.opaque(&i.sym, &a), Some(_) => Err(type_err()) }
            }
            x => {
                let f = self.expr(x)?;
                let a = self.args(&c.args)?;
                match f { V::Obj(_) => self.call(&f, &a), _ => Err(type_err()) }
            }
        }
    }
    fn builtin(&mut self, which: u32, v: &V) -> R<V> {
        let (arr, plain) = match v {
            V::Op(i) => (self.w.truthy(*i) && self.w.arr(*i), self.w.truthy(*i) && !matches!(self.w.ops[*i].arr, Some(true)) && self.w.plain(*i)),
            V::Obj(i) => (matches!(self.heap[*i].k, K::Array), matches!(self.heap[*i].k, K::Plain)),
            _ => (false, false),
        };
        match which {
            1 => Ok(V::Bool(arr)),
            2 => { if self.nullish(v) { return Err(type_err()); } Ok(V::Prim(if plain { P_OBJ } else if arr { P_ARR } else { P_OTHER })) }
            _ => {
                if self.nullish(v) { return Err(type_err()); }
                let n = match v { V::Op(i) => (arr || plain) && self.w.nontriv(*i), V::Obj(i) => (arr || plain) && self.heap[*i].props.len() + self.heap[*i].acc.len() > 0, _ => false };
                let r = self.alloc(K::Array);
                if n { if let V::Obj(i) = r { self.heap[i].props.push(("0".into(), V::Undef)); } }
                Ok(r)
            }
        }
    }
}
pub fn is_logical(op: BinaryOp) -> bool { matches!(op, BinaryOp::LogicalAnd | BinaryOp::LogicalOr | BinaryOp::NullishCoalescing) }
pub fn leaves(e: &Expr) -> u32 { if let Expr::Bin(b) = unparen(e) { if is_logical(b.op) { return leaves(&b.left) + leaves(&b.right); } } 1 }
/// directive prologues: (start of the directive, its value)
#[derive(Default)]
pub struct Dirs { pub at: Vec<(u32, String)>, pub top: u32 }
impl Dirs {
    pub fn of(p: &Program) -> Dirs {
        use swc_core::ecma::visit::VisitWith;
        let mut d = Dirs::default();
        match p {
            Program::Script(s) => d.add(s.body.iter()),
            Program::Module(m) => d.add(m.body.iter().map_while(|i| if let ModuleItem::Stmt(s) = i { Some(s) } else { None })),
        }
        d.top = d.at.len() as u32;
        p.visit_with(&mut d);
        d
    }
    pub fn has(&self, lo: u32) -> bool { self.at.iter().any(|x| x.0 == lo) }
    fn add<'a>(&mut self, v: impl Iterator<Item = &'a Stmt>) {
        for s in v { match s { Stmt::Expr(e) => match &*e.expr { Expr::Lit(Lit::Str(x)) => self.at.push((e.span.lo.0, x.value.to_string())), _ => return }, _ => return } }
    }
}
impl swc_core::ecma::visit::Visit for Dirs {
    fn visit_function(&mut self, f: &Function) { use swc_core::ecma::visit::VisitWith; if let Some(b) = &f.body { self.add(b.stmts.iter()); } f.visit_children_with(self); }
    fn visit_constructor(&mut self, f: &Constructor) { use swc_core::ecma::visit::VisitWith; if let Some(b) = &f.body { self.add(b.stmts.iter()); } f.visit_children_with(self); }
    fn visit_getter_prop(&mut self, f: &GetterProp) { use swc_core::ecma::visit::VisitWith; if let Some(b) = &f.body { self.add(b.stmts.iter()); } f.visit_children_with(self); }
    fn visit_setter_prop(&mut self, f: &SetterProp) { use swc_core::ecma::visit::VisitWith; if let Some(b) = &f.body { self.add(b.stmts.iter()); } f.visit_children_with(self); }
    fn visit_arrow_expr(&mut self, f: &ArrowExpr) { use swc_core::ecma::visit::VisitWith; if let BlockStmtOrExpr::BlockStmt(b) = &*f.body { self.add(b.stmts.iter()); } f.visit_children_with(self); }
}
