#![allow(dead_code)]
use std::sync::Arc;
use fall_parse::{Expr, ExprRef, NodeTypeRef, Context, Arg, PrattTable, Prefix, Infix, RegexLexer, LexRule, ParserDefinition};
use fall_tree::*;
pub use fall_parse;
pub const WS: NodeType = NodeType(100);
// one token type per letter a..j, then digits n=111; node types 201..220
pub const NAMES: &[&str] = &["WS","a","b","c","d","e","f","g","h","i","j","num"];
pub struct Imp { def: ParserDefinition, lexer: RegexLexer, me: Arc<std::sync::Mutex<Option<Language>>> }
impl LanguageImpl for Imp {
    fn parse(&self, text: Text, metrics: &Metrics, builder: &mut TreeBuilder) -> Option<Box<dyn std::any::Any + Sync + Send>> {
        let l = self.me.lock().unwrap().clone().unwrap();
        fall_parse::parse(&l, &self.lexer, &self.def, text, metrics, builder)
    }
    fn reparse(&self, inc: &dyn std::any::Any, edit: &TextEdit, text: Text, metrics: &Metrics, builder: &mut TreeBuilder) -> Option<Box<dyn std::any::Any + Sync + Send>> {
        let l = self.me.lock().unwrap().clone().unwrap();
        fall_parse::reparse(&l, &self.lexer, &self.def, inc, edit, text, metrics, builder)
    }
    fn node_type_info(&self, ty: NodeType) -> NodeTypeInfo {
        let n: &'static str = match ty.0 { 0 => "ERROR", 100..=111 => NAMES[(ty.0 - 100) as usize],
            201 => "FILE", 202 => "N2", 203 => "N3", 204 => "N4", 205 => "N5", 206 => "N6", 207 => "N7", 208 => "N8", 209=>"N9", _ => "OTHER" };
        NodeTypeInfo { name: n, whitespace_like: ty == WS }
    }
}
pub fn lang(rules: Vec<Expr>) -> Language { lang_lex(rules, vec![]) }
pub fn lang_lex(rules: Vec<Expr>, extra: Vec<(&str, &str)>) -> Language {
    let mut lex = vec![LexRule::new(WS, r"\s+", None)];
    for (i, n) in NAMES.iter().enumerate().skip(1) {
        lex.push(LexRule::new(NodeType(100 + i as u32), if *n == "num" { r"\d+" } else { n }, None));
    }
    for (i, (_, re)) in extra.iter().enumerate() { lex.push(LexRule::new(NodeType(112 + i as u32), re, None)); }
    // node_types: 0 ERROR, 1..=12 tokens (1 = WS, 2 = a, ...), 13 = FILE(201), 14 = N2 ...
    let mut nt = vec![ERROR];
    for i in 100..=111 { nt.push(NodeType(i)) }
    for i in 201..=210 { nt.push(NodeType(i)) }
    let def = ParserDefinition { node_types: nt, syntactical_rules: rules, .. Default::default() };
    let me = Arc::new(std::sync::Mutex::new(None));
    let l = Language::new(Imp { def, lexer: RegexLexer::new(lex), me: me.clone() });
    *me.lock().unwrap() = Some(l.clone());
    l
}
pub fn e(i: u32) -> ExprRef { ExprRef(i) }
pub fn t(c: char) -> Expr { let i = NAMES.iter().position(|n| n.starts_with(c)).unwrap() as u32; Expr::Token(NodeTypeRef(i + 1)) }
pub fn tt(c: char) -> NodeTypeRef { let i = NAMES.iter().position(|n| n.starts_with(c)).unwrap() as u32; NodeTypeRef(i + 1) }
/// node type number n: 1 = FILE, 2 = N2 ...
pub fn nt(n: u32) -> NodeTypeRef { NodeTypeRef(12 + n) }
pub fn node(n: u32, body: u32) -> Expr { Expr::Pub { ty: nt(n), body: ExprRef(body), replaceable: false } }
pub fn and(v: &[u32]) -> Expr { Expr::And(v.iter().map(|&i| ExprRef(i)).collect(), None) }
pub fn and_c(v: &[u32], c: usize) -> Expr { Expr::And(v.iter().map(|&i| ExprRef(i)).collect(), Some(c)) }
pub fn or(v: &[u32]) -> Expr { Expr::Or(v.iter().map(|&i| ExprRef(i)).collect()) }
pub fn rep(i: u32) -> Expr { Expr::Rep(ExprRef(i)) }
pub fn opt(i: u32) -> Expr { Expr::Opt(ExprRef(i)) }
pub fn not(i: u32) -> Expr { Expr::Not(ExprRef(i)) }
pub fn cached(i: u32) -> Expr { Expr::Cached(ExprRef(i)) }
pub fn tree(l: &Language, s: &str) -> String { fall_tree::dump_file(&l.parse(s.to_string())) }
pub fn attempt<F: FnOnce() -> String>(f: F) -> String { match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) { Ok(s) => s, Err(_) => "PANIC".to_string() } }
/// parse `a`, apply replacement of [from,to) by `ins`, reparse; compare with fresh parse
pub fn inc(l: &Language, a: &str, from: u32, to: u32, ins: &str) -> (String, String) {
    let f = l.parse(a.to_string());
    let mut b = TextEditBuilder::new(f.text());
    b.replace(TextRange::from_to(tu(from), tu(to)), ins.to_string());
    let ed = b.build();
    let g = l.reparse(&f, &ed);
    let fresh = l.parse(g.text().to_string());
    (fall_tree::dump_file(&g), fall_tree::dump_file(&fresh))
}
