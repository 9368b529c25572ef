use std::sync::Arc;
use swc_core::common::{comments::SingleThreadedComments, FileName, SourceMap};
use swc_core::ecma::ast::*;
use swc_core::ecma::parser::{lexer::Lexer, EsSyntax, Parser, StringInput, Syntax};

pub fn parse(cm: &Arc<SourceMap>, comments: &SingleThreadedComments, src: &str, module: bool) -> Option<Program> { parse_as(cm, comments, src, module, false) }
pub fn parse_as(cm: &Arc<SourceMap>, comments: &SingleThreadedComments, src: &str, module: bool, ts: bool) -> Option<Program> {
    parse_with(cm, comments, src, module, if ts { Syntax::Typescript(Default::default()) } else { Syntax::Es(EsSyntax::default()) })
}
pub fn full(ts: bool) -> Syntax {
    if ts { Syntax::Typescript(swc_core::ecma::parser::TsSyntax { decorators: true, ..Default::default() }) }
    else { Syntax::Es(EsSyntax { jsx: true, decorators: true, decorators_before_export: true, import_attributes: true, auto_accessors: true, explicit_resource_management: true, ..Default::default() }) }
}
pub fn parse_with(cm: &Arc<SourceMap>, comments: &SingleThreadedComments, src: &str, module: bool, syntax: Syntax) -> Option<Program> {
    let fm = cm.new_source_file(FileName::Anon.into(), src.to_string());
    let lexer = Lexer::new(syntax, EsVersion::latest(), StringInput::from(&*fm), Some(comments));
    let mut p = Parser::new_from(lexer);
    let r = if module { p.parse_module().map(Program::Module) } else { p.parse_script().map(Program::Script) };
    match r { Ok(p2) => if p.take_errors().is_empty() { Some(p2) } else { None }, Err(_) => None }
}

/// only used natively, to show what happened
pub fn print(p: &Program) -> String {
    use swc_core::ecma::codegen::{text_writer::JsWriter, Config, Emitter, Node};
    let cm: swc_core::common::sync::Lrc<SourceMap> = Default::default();
    let mut buf = vec![];
    {
        let wr = JsWriter::new(cm.clone(), "\n", &mut buf, None);
        let mut e = Emitter { cfg: Config::default(), cm: cm.clone(), comments: None, wr };
        match p { Program::Module(m) => m.emit_with(&mut e).unwrap(), Program::Script(m) => m.emit_with(&mut e).unwrap() };
    }
    String::from_utf8(buf).unwrap()
}

/// 1-based line and 0-based column of a byte position (positions start at 1), the column in UTF-16 units
pub fn line_col(src: &str, pos: u32) -> (u32, u32) {
    let (mut l, mut c) = (1, 0);
    for b in src.as_bytes()[..(pos as usize - 1).min(src.len())].iter() { if *b == b'\n' { l += 1; c = 0 } else if *b & 0xc0 != 0x80 { c += 1 + (*b >= 0xf0) as u32 } }
    (l, c)
}

use swc_core::ecma::visit::{VisitMut, VisitMutWith};
/// the printer adds no parentheses of its own: make precedence explicit
pub struct Parens;
impl VisitMut for Parens {
    fn visit_mut_expr(&mut self, e: &mut Expr) {
        e.visit_mut_children_with(self);
        if matches!(e, Expr::Seq(_) | Expr::Assign(_) | Expr::Cond(_) | Expr::Bin(_) | Expr::Yield(_) | Expr::Await(_) | Expr::New(_) | Expr::Unary(_)) {
            let x = std::mem::replace(e, Expr::Invalid(Invalid { span: swc_core::common::DUMMY_SP }));
            *e = Expr::Paren(ParenExpr { span: swc_core::common::DUMMY_SP, expr: Box::new(x) });
        }
    }
}
pub fn print_safe(p: &Program) -> String { let mut p = p.clone(); p.visit_mut_with(&mut Parens); print(&p) }
