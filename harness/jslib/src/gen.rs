//! Source programs as a function of symbolic structural choices: `fuel` bounds the number of
//! non-trivial constructs, every arrangement of at most `fuel` constructs of the profile is one path.
use symx_rt::choose;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum S { Call, VarInit, LetConst, IfOnly, IfElse, IfBare, IfBareElse, For, ForBare, ForIn, ForOf, While, DoWhile, Switch, SwitchFall, TryCatch, TryFinally, Labeled, LabeledLoop, Throw, Block, Fn, FnDefault, Class, With, Return, Debugger, ObjLit, Str, Empty, Two, IfElseIf, FnStrict, Expr, Destruct, ClassFields, ClassOther, ObjOther, Async, Gen, Continue, VarMulti, StrParen, Fn2, Import, ExportVar, ExportFn, ExportDefFn, ExportDefExpr, ExportClass, ExportNames }
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum E { Call, Cond, And, Or, Nullish, And3, OrAnd, ParenOr, Arrow, ArrowExpr, Fn, FnNamed, ObjMethod, ClassE, Tagged, Tpl, Arr, Not, Add, Assign, Seq, CallArg, Member, OptChain, New, ArrowDefault, LogAssign, ArrowStrict, Var, Num, Await, AndCallOr, CondParen }

pub struct Profile { pub stmts: &'static [S], pub exprs: &'static [E], pub hints: &'static [&'static str], pub module: bool }

#[derive(Clone, Copy, Default)]
pub struct Ctx { pub func: bool, pub lup: bool, pub label: bool, pub asn: bool, pub single: bool }

pub struct G<'p> { pub src: String, pub fuel: u32, pub hint_fuel: u32, pub id: u32, pub p: &'p Profile, pub hinted: u32, pub top: bool }

impl<'p> G<'p> {
    pub fn new(p: &'p Profile, fuel: u32) -> Self { G { src: String::new(), fuel, hint_fuel: 0, id: 0, p, hinted: 0, top: false } }
    pub fn t(&mut self, s: &str) { self.src.push_str(s) }
    fn fresh(&mut self) -> u32 { self.id += 1; self.id }
    fn num(&mut self, pre: &str, n: u32) { self.t(pre); if n >= 10 { self.src.push((b'0' + (n / 10) as u8) as char); } self.src.push((b'0' + (n % 10) as u8) as char); }
    pub fn call(&mut self) { let n = self.fresh(); self.num("f", n); self.t("()"); }
    fn name(&mut self, pre: &str) -> u32 { let n = self.fresh(); self.num(pre, n); n }
    pub fn hint(&mut self) {
        if self.hint_fuel == 0 || self.p.hints.is_empty() { return; }
        let k = choose(self.p.hints.len() as u64 + 1, "hint") as usize;
        if k > 0 { self.hint_fuel -= 1; self.hinted += 1; self.t("/* "); let h = self.p.hints[k - 1]; self.t(h); self.t(" */ "); }
    }
    fn pick_s(&mut self, c: Ctx, top: bool) -> S {
        if self.fuel == 0 { return S::Call; }
        let k = choose(self.p.stmts.len() as u64, "s") as usize;
        let s = self.p.stmts[k];
        let ok = match s {
            S::Return => c.func,
            S::Continue => c.lup,
            S::LetConst | S::Fn | S::Fn2 | S::FnDefault | S::FnStrict | S::Class | S::ClassFields | S::ClassOther | S::Async | S::Gen | S::Destruct | S::Two => !c.single,
            S::Import | S::ExportVar | S::ExportFn | S::ExportDefFn | S::ExportDefExpr | S::ExportClass | S::ExportNames => top && self.p.module,
            S::With => !self.p.module,
            _ => true,
        };
        if !ok { symx_rt::assume(false); }
        if s != S::Call { self.fuel -= 1; }
        s
    }
    pub fn list(&mut self, c: Ctx) { let c = Ctx { single: false, ..c }; self.stmt(c); }
    fn block(&mut self, c: Ctx) { self.hint(); self.t("{ "); self.list(c); self.t(" }"); }
    pub fn stmt(&mut self, c: Ctx) {
        let top = std::mem::take(&mut self.top);
        self.hint();
        let s = self.pick_s(c, top);
        let single = Ctx { single: true, ..c };
        let lup = Ctx { lup: true, ..c };
        let func = Ctx { func: true, lup: false, label: false, single: false, asn: false };
        match s {
            S::Call => { self.call(); self.t(";"); }
            S::Expr => { self.expr(c); self.t(";"); }
            S::Two => { self.stmt(c); self.t(" "); self.stmt(c); }
            S::VarInit => { self.t("var "); self.name("v"); self.t(" = "); self.expr(c); self.t(";"); }
            S::VarMulti => { self.t("var "); self.name("v"); self.t(" = "); self.expr(c); self.t(", "); self.hint(); self.name("v"); self.t(", "); self.hint(); self.name("v"); self.t(" = "); self.expr(c); self.t(";"); }
            S::LetConst => { if choose(2, "lc") == 0 { self.t("let ") } else { self.t("const ") }; self.name("v"); self.t(" = "); self.expr(c); self.t(";"); }
            S::IfOnly => { self.t("if ( "); self.expr(c); self.t(" ) "); self.block(c); }
            S::IfElse => { self.t("if ( "); self.expr(c); self.t(" ) "); self.block(c); self.t(" else "); self.block(c); }
            S::IfBare => { self.t("if ( "); self.expr(c); self.t(" ) "); self.stmt(single); }
            S::IfBareElse => { self.t("if ( "); self.expr(c); self.t(" ) "); self.call(); self.t("; else "); self.stmt(single); }
            S::IfElseIf => { self.t("if ( "); self.expr(c); self.t(" ) "); self.block(c); self.t(" else if ( "); self.expr(c); self.t(" ) "); self.block(c); }
            S::For => { self.t("for ( var "); self.name("v"); self.t(" = "); self.expr(c); self.t(" ; "); self.expr(c); self.t(" ; "); self.expr(c); self.t(" ) "); self.block(lup); }
            S::ForBare => { self.t("for ( ; "); self.expr(c); self.t(" ; ) "); self.stmt(Ctx { single: true, ..lup }); }
            S::ForIn => { self.t("for ( var "); self.name("v"); self.t(" in "); self.expr(c); self.t(" ) "); self.stmt(Ctx { single: true, ..lup }); }
            S::ForOf => { self.t("for ( var "); self.name("v"); self.t(" of "); self.expr(c); self.t(" ) "); self.block(lup); }
            S::While => { self.t("while ( "); self.expr(c); self.t(" ) "); self.stmt(Ctx { single: true, ..lup }); }
            S::DoWhile => { self.t("do "); self.block(lup); self.t(" while ( "); self.expr(c); self.t(" );"); }
            S::Switch => { self.t("switch ( "); self.expr(c); self.t(" ) { "); self.hint(); self.t("case "); self.expr(c); self.t(" : "); self.list(c); self.t(" break;\n"); self.hint(); self.t("default : "); self.list(c); self.t(" }"); }
            S::SwitchFall => { self.t("switch ( "); self.call(); self.t(" ) { "); self.hint(); self.t("case 1 : "); self.hint(); self.t("case "); self.call(); self.t(" : "); self.list(c); self.t("\n"); self.hint(); self.t("default : "); self.call(); self.t(";\n"); self.hint(); self.t("case "); self.expr(c); self.t(" : }"); }
            S::TryCatch => { self.t("try "); self.block(c); self.t(" catch ( e ) "); self.block(c); }
            S::TryFinally => { self.t("try "); self.block(c); self.t(" finally "); self.block(c); }
            S::Labeled => { self.t("l : "); self.block(Ctx { label: true, ..c }); }
            S::LabeledLoop => { self.t("l : while ( "); self.expr(c); self.t(" ) { if ( "); self.call(); self.t(" ) { break l; } "); self.list(lup); self.t(" continue l; }"); }
            S::Throw => { self.t("throw "); self.expr(c); self.t(";"); }
            S::Block => self.block(c),
            S::Fn => { self.t("function "); let n = self.name("g"); self.t(" ( ) "); self.fbody(func); self.t(" "); self.num("g", n); self.t("();"); }
            S::Async => { self.t("async function "); let n = self.name("g"); self.t(" ( ) "); self.fbody(Ctx { asn: true, ..func }); self.t(" "); self.num("g", n); self.t("();"); }
            S::Gen => { self.t("function* "); let n = self.name("g"); self.t(" ( ) { yield "); self.expr(c); self.t("; "); self.list(func); self.t(" } "); self.num("h(g", n); self.t(");"); }
            S::FnDefault => { self.t("function "); let n = self.name("g"); self.t(" ( "); self.hint(); self.t("a = "); self.expr(c); self.t(" ) "); self.fbody(func); self.t(" "); self.num("g", n); self.t("(); "); self.num("g", n); self.t("(1);"); }
            S::FnStrict => { self.t("function "); let n = self.name("g"); self.t(" ( ) { 'use strict'; "); self.list(func); self.t(" } "); self.num("g", n); self.t("();"); }
            S::Class => { self.t("class "); let n = self.name("K"); self.t(" { "); self.hint(); self.t("m ( ) "); self.fbody(func); self.t(" } "); self.num("h(K", n); self.t(");"); }
            S::ClassFields => { self.t("class "); let n = self.name("K"); self.t(" { "); self.hint(); self.t("p = "); self.expr(Ctx { func: false, ..c }); self.t(";\n"); self.hint(); self.t("static q = "); self.expr(Ctx { func: false, ..c }); self.t(";\n"); self.hint(); self.t("#r = "); self.expr(Ctx { func: false, ..c }); self.t("; } "); self.num("h(K", n); self.t(");"); }
            S::ClassOther => {
                self.t("class "); let n = self.name("K"); self.t(" { "); self.hint();
                match choose(10, "cm") {
                    0 => self.t("constructor ( ) "), 1 => self.t("#x ( ) "), 2 => self.t("get p ( ) "), 3 => self.t("set p ( v ) "), 4 => self.t("'m' ( ) "), 5 => self.t("static m ( ) "), 6 => self.t("async m ( ) "), 7 => self.t("* m ( ) "), 8 => self.t("static get p ( ) "), _ => self.t("static "),
                }
                self.block(Ctx { func: false, ..func }); self.t(" } "); self.num("h(K", n); self.t(");");
            }
            S::Import => { self.t("import "); self.name("i"); self.t(" from 'm';"); }
            S::ExportVar => { self.t("export "); match choose(3, "ek") { 0 => self.t("const "), 1 => self.t("let "), _ => self.t("var ") }; self.name("v"); self.t(" = "); self.expr(c); self.t(";"); }
            S::ExportFn => { self.t("export function "); let n = self.name("g"); self.t(" ( ) "); self.fbody(func); self.t(" "); self.num("g", n); self.t("();"); }
            S::ExportDefFn => { self.t("export default function "); let n = if choose(2, "named") == 1 { Some(self.name("g")) } else { None }; self.t(" ( ) "); self.fbody(func); if let Some(n) = n { self.t(" "); self.num("g", n); self.t("();"); } }
            S::ExportDefExpr => { self.t("export default "); self.expr(c); self.t(";"); }
            S::ExportClass => { self.t("export "); if choose(2, "def") == 1 { self.t("default "); } self.t("class "); let n = self.name("K"); self.t(" { "); self.hint(); self.t("m ( ) "); self.fbody(func); self.t(" } "); self.num("h(K", n); self.t(");"); }
            S::ExportNames => { self.t("var "); let n = self.name("v"); self.t(" = "); self.expr(c); self.t("; export { "); self.num("v", n); self.t(" }; export * from 'm';"); }
            S::With => { self.t("with ( "); self.expr(c); self.t(" ) "); self.stmt(single); }
            S::Return => { self.t("return "); self.expr(c); self.t(";"); }
            S::Debugger => self.t("debugger;"),
            S::Str => self.t("'text';"),
            S::StrParen => self.t("( 'text' );"),
            S::Fn2 => { self.t("function "); let n = self.name("g"); self.t(" ( ) { "); self.list(func); self.t(" "); self.list(func); self.t(" } "); self.num("g", n); self.t("();"); }
            S::Empty => self.t(";"),
            S::Continue => self.t("continue;"),
            S::ObjLit => { self.t("h( { "); self.hint(); self.t("m ( ) "); self.fbody(func); self.t(" } );"); }
            S::ObjOther => {
                self.t("h( { "); self.hint();
                match choose(5, "om") { 0 => self.t("get p ( ) "), 1 => self.t("set p ( v ) "), 2 => self.t("[ 'c' ] ( ) "), 3 => self.t("'s' ( ) "), _ => self.t("get 's' ( ) ") }
                self.fbody(func); self.t(" } );");
            }
            S::Destruct => { self.t("var { "); self.hint(); self.t("a = "); self.expr(c); self.t(" , b : [ "); self.hint(); self.t("d = "); self.expr(c); self.t(" ] } = "); self.call(); self.t(";"); }
        }
    }
    fn fbody(&mut self, c: Ctx) { self.hint(); self.t("{ "); self.list(c); self.t(" }"); }
    pub fn expr(&mut self, c: Ctx) {
        self.hint();
        if self.fuel == 0 || self.p.exprs.is_empty() { return self.call(); }
        let k = choose(self.p.exprs.len() as u64, "e") as usize;
        let e = self.p.exprs[k];
        if e != E::Call { self.fuel -= 1; }
        if e == E::Await && !c.asn { symx_rt::assume(false); }
        let func = Ctx { func: true, ..Default::default() };
        match e {
            E::Call => self.call(),
            E::Var => self.t("x"),
            E::Num => self.t("7"),
            E::Cond => { self.t("( "); self.expr(c); self.t(" ? "); self.expr(c); self.t(" : "); self.expr(c); self.t(" )"); }
            E::CondParen => { self.call(); self.t(" ? "); self.call(); self.t(" : "); self.call(); }
            E::And => { self.t("( "); self.expr(c); self.t(" && "); self.expr(c); self.t(" )"); }
            E::Or => { self.expr(c); self.t(" || "); self.expr(c); }
            E::Nullish => { self.t("( "); self.expr(c); self.t(" ?? "); self.expr(c); self.t(" )"); }
            E::And3 => { self.call(); self.t(" && "); self.call(); self.t(" && "); self.call(); }
            E::OrAnd => { self.call(); self.t(" || "); self.call(); self.t(" && "); self.call(); }
            E::ParenOr => { self.t("( "); self.call(); self.t(" || "); self.call(); self.t(" ) && "); self.call(); }
            E::AndCallOr => { self.call(); self.t(" && "); self.t("h( "); self.call(); self.t(" || "); self.call(); self.t(" )"); }
            E::Arrow => { self.t("h( ( ) => "); self.fbody(func); self.t(" )"); }
            E::ArrowExpr => { self.t("h( ( ) => "); self.expr(func); self.t(" )"); }
            E::ArrowDefault => { self.t("h( ( "); self.hint(); self.t("a = "); self.expr(c); self.t(" ) => "); self.call(); self.t(" )"); }
            E::ArrowStrict => { self.t("h( ( ) => { 'use strict'; "); self.call(); self.t("; } )"); }
            E::Fn => { self.t("h( function ( ) "); self.fbody(func); self.t(" )"); }
            E::FnNamed => { self.t("h( function "); self.name("g"); self.t(" ( ) "); self.fbody(func); self.t(" )"); }
            E::ObjMethod => { self.t("h( { "); self.hint(); self.t("m ( ) "); self.fbody(func); self.t(" , "); self.hint(); self.t("k : "); self.expr(c); self.t(" } )"); }
            E::ClassE => { self.t("h( class { "); self.hint(); self.t("m ( ) "); self.fbody(func); self.t(" } )"); }
            E::Tagged => { self.t("t`a${ "); self.expr(c); self.t(" }b`"); }
            E::Tpl => { self.t("`a${ "); self.expr(c); self.t(" }b`"); }
            E::Arr => { self.t("[ "); self.expr(c); self.t(" , "); self.expr(c); self.t(" ]"); }
            E::Not => { self.t("! "); self.expr_atom(c); }
            E::Add => { self.t("( "); self.expr(c); self.t(" + "); self.expr(c); self.t(" )"); }
            E::Assign => { self.t("( x = "); self.expr(c); self.t(" )"); }
            E::LogAssign => { self.t("( x ||= "); self.expr(c); self.t(" )"); }
            E::Seq => { self.t("( "); self.expr(c); self.t(" , "); self.expr(c); self.t(" )"); }
            E::CallArg => { self.t("h( "); self.expr(c); self.t(" )"); }
            E::Member => { self.t("h( "); self.expr(c); self.t(" ).p"); }
            E::OptChain => { self.call(); self.t("?.p( "); self.expr(c); self.t(" )"); }
            E::New => { self.t("new H( "); self.expr(c); self.t(" )"); }
            E::Await => { self.t("( await "); self.expr(c); self.t(" )"); }
        }
    }
    fn expr_atom(&mut self, c: Ctx) { self.t("( "); self.expr(c); self.t(" )"); }
    /// top-level statement list of `n` statements
    pub fn program(&mut self, n: u32) { for _ in 0..n { self.top = true; self.stmt(Ctx::default()); self.t("\n"); } }
}
