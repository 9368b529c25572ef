//! Reads what the instrumented program carries: counters, preamble, coverage object literal.
use swc_core::ecma::ast::*;

#[derive(Clone, Debug, PartialEq)]
pub enum J { Null, Bool(bool), Num(f64), Str(String), Arr(Vec<J>), Obj(Vec<(String, J)>), Other }
impl J {
    pub fn get(&self, k: &str) -> Option<&J> { if let J::Obj(v) = self { v.iter().find(|x| x.0 == k).map(|x| &x.1) } else { None } }
    pub fn num(&self) -> Option<u32> { if let J::Num(n) = self { let u = *n as u32; if u as f64 == *n { Some(u) } else { None } } else { None } }
    pub fn str(&self) -> Option<&str> { if let J::Str(s) = self { Some(s) } else { None } }
    pub fn entries(&self) -> &[(String, J)] { if let J::Obj(v) = self { v } else { &[] } }
    pub fn arr(&self) -> &[J] { if let J::Arr(v) = self { v } else { &[] } }
    pub fn range(&self) -> Option<[u32; 4]> {
        let (s, e) = (self.get("start")?, self.get("end")?);
        if s.entries().len() != 2 || e.entries().len() != 2 || self.entries().len() != 2 { return None; }
        Some([s.get("line")?.num()?, s.get("column")?.num()?, e.get("line")?.num()?, e.get("column")?.num()?])
    }
}
pub fn unparen(e: &Expr) -> &Expr { let mut e = e; while let Expr::Paren(p) = e { e = &p.expr; } e }

pub fn lit(e: &Expr) -> J {
    match unparen(e) {
        Expr::Lit(Lit::Null(_)) => J::Null,
        Expr::Lit(Lit::Bool(b)) => J::Bool(b.value),
        Expr::Lit(Lit::Num(n)) => {
            // the printer emits `raw` when present: it must denote the value
            if let Some(r) = &n.raw { let u = n.value as u32; if !(u as f64 == n.value && &**r == u.to_string().as_str()) && r.parse::<f64>().ok() != Some(n.value) { return J::Other; } }
            J::Num(n.value)
        }
        Expr::Lit(Lit::Str(s)) => {
            if let Some(r) = &s.raw { if js_unescape(r).as_deref() != Some(&*s.value) { return J::Other; } }
            J::Str(s.value.to_string())
        }
        Expr::Array(a) => J::Arr(a.elems.iter().map(|x| match x { Some(x) if x.spread.is_none() => lit(&x.expr), _ => J::Other }).collect()),
        Expr::Object(o) => {
            let mut v = vec![];
            for p in &o.props {
                if let PropOrSpread::Prop(p) = p {
                    if let Prop::KeyValue(kv) = &**p {
                        let k = match &kv.key { PropName::Ident(i) => i.sym.to_string(), PropName::Str(s) => s.value.to_string(), _ => return J::Other };
                        v.push((k, lit(&kv.value)));
                        continue;
                    }
                }
                return J::Other;
            }
            J::Obj(v)
        }
        _ => J::Other,
    }
}

/// value of a JS string literal text (subset: simple escapes), None if it is not one literal
pub fn js_unescape(raw: &str) -> Option<String> {
    let b = raw.as_bytes();
    if b.len() < 2 { return None; }
    let q = b[0];
    if (q != b'"' && q != b'\'') || b[b.len() - 1] != q { return None; }
    let inner = &raw[1..raw.len() - 1];
    let mut out = String::new();
    let mut it = inner.chars();
    while let Some(c) = it.next() {
        if c as u32 == q as u32 || c == '\n' || c == '\r' { return None; }
        if c != '\\' { out.push(c); continue; }
        match it.next()? {
            'n' => out.push('\n'), 'r' => out.push('\r'), 't' => out.push('\t'), 'b' => out.push('\u{8}'), 'f' => out.push('\u{c}'), 'v' => out.push('\u{b}'), '0' => out.push('\0'),
            'u' | 'x' => return None,
            c => out.push(c),
        }
    }
    Some(out)
}

#[derive(Clone, Debug)]
pub struct BranchD { pub id: u32, pub loc: Option<[u32; 4]>, pub ty: String, pub locs: Vec<[u32; 4]>, pub line: Option<u32> }
#[derive(Clone, Debug)]
pub struct FnD { pub id: u32, pub name: String, pub decl: [u32; 4], pub loc: [u32; 4], pub line: u32 }
#[derive(Clone, Debug, Default)]
pub struct CovD { pub path: String, pub sm: Vec<(u32, [u32; 4])>, pub fm: Vec<FnD>, pub bm: Vec<BranchD>, pub s: Vec<(u32, u32)>, pub f: Vec<(u32, u32)>, pub b: Vec<(u32, Vec<u32>)>, pub bt: Option<Vec<(u32, Vec<u32>)>>, pub hash: Option<String>, pub schema: Option<String>, pub all: Option<bool> }

pub fn kid(k: &str) -> Option<u32> { let n: u32 = k.parse().ok()?; if n.to_string() == k { Some(n) } else { None } }
pub fn covd(j: &J) -> Option<CovD> {
    let mut c = CovD { path: j.get("path")?.str()?.to_string(), ..Default::default() };
    for (k, v) in j.get("statementMap")?.entries() { c.sm.push((kid(k)?, v.range()?)); }
    for (k, v) in j.get("fnMap")?.entries() { c.fm.push(FnD { id: kid(k)?, name: v.get("name")?.str()?.to_string(), decl: v.get("decl")?.range()?, loc: v.get("loc")?.range()?, line: v.get("line")?.num()? }); }
    for (k, v) in j.get("branchMap")?.entries() {
        let mut locs = vec![];
        for l in v.get("locations")?.arr() { locs.push(l.range()?); }
        c.bm.push(BranchD { id: kid(k)?, loc: match v.get("loc") { Some(l) => Some(l.range()?), None => None }, ty: v.get("type")?.str()?.to_string(), locs, line: match v.get("line") { Some(l) => Some(l.num()?), None => None } });
    }
    for (k, v) in j.get("s")?.entries() { c.s.push((kid(k)?, v.num()?)); }
    for (k, v) in j.get("f")?.entries() { c.f.push((kid(k)?, v.num()?)); }
    fn vecs(j: &J) -> Option<Vec<(u32, Vec<u32>)>> { let mut o = vec![]; for (k, v) in j.entries() { let mut x = vec![]; for n in v.arr() { x.push(n.num()?); } o.push((kid(k)?, x)); } Some(o) }
    c.b = vecs(j.get("b")?)?;
    if let Some(t) = j.get("bT") { c.bt = Some(vecs(t)?); }
    c.hash = j.get("hash").and_then(|x| x.str()).map(|x| x.to_string());
    c.schema = j.get("_coverageSchema").and_then(|x| x.str()).map(|x| x.to_string());
    c.all = match j.get("all") { Some(J::Bool(b)) => Some(*b), _ => None };
    Some(c)
}

/// `cov_<digits>`
pub fn is_cov_name(s: &str) -> bool { match s.strip_prefix("cov_") { Some(r) => !r.is_empty() && r.bytes().all(|c| c.is_ascii_digit()), None => false } }
pub fn cov_call(e: &Expr) -> Option<&Ident> {
    if let Expr::Call(c) = e { if let Callee::Expr(x) = &c.callee { if let Expr::Ident(i) = unparen(x) { if c.args.is_empty() && is_cov_name(&i.sym) { return Some(i); } } } }
    None
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Ctr { pub kind: u8, pub id: u32, pub idx: Option<u32> }
fn index(p: &MemberProp) -> Option<u32> {
    if let MemberProp::Computed(c) = p { if let Expr::Lit(Lit::Num(n)) = unparen(&c.expr) { let u = n.value as u32; if u as f64 == n.value { return Some(u); } } }
    None
}
/// the injected counter expression `cov_n().s[i]++` (or f, b[i][j], bT[i][j])
pub fn counter(e: &Expr) -> Option<Ctr> {
    let Expr::Update(UpdateExpr { op: UpdateOp::PlusPlus, arg, .. }) = e else { return None };
    let Expr::Member(m) = &**arg else { return None };
    let i = index(&m.prop)?;
    let Expr::Member(m2) = &*m.obj else { return None };
    let kind = |m: &MemberExpr| -> Option<u8> {
        cov_call(&m.obj)?;
        if let MemberProp::Ident(x) = &m.prop { match &*x.sym { "s" => Some(b's'), "f" => Some(b'f'), "b" => Some(b'b'), "bT" => Some(b't'), _ => None } } else { None }
    };
    if let Some(k) = kind(m2) { return Some(Ctr { kind: k, id: i, idx: None }); }
    let id = index(&m2.prop)?;
    let Expr::Member(m3) = &*m2.obj else { return None };
    Some(Ctr { kind: kind(m3)?, id, idx: Some(i) })
}
pub fn counter_stmt(s: &Stmt) -> Option<Ctr> { if let Stmt::Expr(x) = s { counter(&x.expr) } else { None } }

/// value of `var <name> = <init>` in the preamble function, in either spelling
pub fn assigned<'a>(s: &'a Stmt, name: &str) -> Option<&'a Expr> {
    let Stmt::Decl(Decl::Var(v)) = s else { return None };
    for d in &v.decls {
        match (&d.name, &d.init) {
            (Pat::Ident(i), Some(e)) if &*i.id.sym == name => return Some(e),
            (Pat::Assign(a), None) => if let Pat::Ident(i) = &*a.left { if &*i.id.sym == name { return Some(&a.right); } },
            _ => {}
        }
    }
    None
}

#[derive(Clone, Debug, Default)]
pub struct Preamble { pub decl_at: Option<usize>, pub call_at: Option<usize>, pub decls: u32, pub calls: u32, pub name: String, pub data: Option<J>, pub path: Option<String>, pub hash: Option<String>, pub gcv: Option<String> }
pub fn fn_decl_cov(s: &Stmt) -> Option<&FnDecl> { if let Stmt::Decl(Decl::Fn(f)) = s { if is_cov_name(&f.ident.sym) { return Some(f); } } None }
pub fn cov_call_stmt(s: &Stmt) -> bool { if let Stmt::Expr(x) = s { cov_call(&x.expr).is_some() } else { false } }
pub fn stmts_of(p: &Program) -> Vec<Option<&Stmt>> {
    match p {
        Program::Module(m) => m.body.iter().map(|i| if let ModuleItem::Stmt(s) = i { Some(s) } else { None }).collect(),
        Program::Script(s) => s.body.iter().map(Some).collect(),
    }
}
pub fn preamble(p: &Program) -> Preamble {
    let mut r = Preamble::default();
    for (i, s) in stmts_of(p).iter().enumerate() {
        let Some(s) = s else { continue };
        if let Some(f) = fn_decl_cov(s) {
            r.decls += 1; r.decl_at = Some(i); r.name = f.ident.sym.to_string();
            if let Some(b) = &f.function.body {
                for s in &b.stmts {
                    if let Some(e) = assigned(s, "coverageData") { r.data = Some(lit(e)); }
                    if let Some(e) = assigned(s, "path") { r.path = lit(e).str().map(|x| x.to_string()); }
                    if let Some(e) = assigned(s, "hash") { r.hash = lit(e).str().map(|x| x.to_string()); }
                    if let Some(e) = assigned(s, "gcv") { r.gcv = lit(e).str().map(|x| x.to_string()); }
                }
            }
        }
        if cov_call_stmt(s) { r.calls += 1; if r.call_at.is_none() { r.call_at = Some(i); } }
    }
    r
}
