//! Compiles the parser sources of the repository (read from the repository: run.sh copies them
//! next to this file) against small stand-ins, and prints the parse of stdin.
#![allow(warnings)]
mod syntax_kind;
mod syntax_error;
#[macro_use]
pub mod parse;
pub use parse::SyntaxKind;
pub use rowan::{TextRange, TextSize};
pub use syntax_error::SyntaxError;
pub mod syntax_node { pub use rowan::GreenNode; }
pub mod ast {
    #[derive(PartialEq, Eq)]
    pub enum CommentPlacement { Inner, Outer }
    pub struct CommentKind { pub doc: Option<CommentPlacement> }
    impl CommentKind {
        pub fn from_text(t: &str) -> CommentKind {
            CommentKind { doc: if t.starts_with("///") { Some(CommentPlacement::Outer) } else { None } }
        }
    }
}
#[derive(Default)]
pub struct SyntaxTreeBuilder { stack: Vec<(u16, Vec<rowan::GreenNode>)>, done: Vec<rowan::GreenNode>, errors: Vec<SyntaxError> }
impl SyntaxTreeBuilder {
    pub fn finish_raw(self) -> (rowan::GreenNode, Vec<SyntaxError>) {
        assert_eq!(self.stack.len(), 0, "unbalanced tree");
        assert_eq!(self.done.len(), 1, "one root expected");
        (self.done.into_iter().next().unwrap(), self.errors)
    }
    pub fn token(&mut self, kind: SyntaxKind, text: &str) {
        self.stack.last_mut().expect("token outside of a node").1.push(rowan::GreenNode::Token(kind.into(), text.into()));
    }
    pub fn start_node(&mut self, kind: SyntaxKind) { self.stack.push((kind.into(), vec![])); }
    pub fn finish_node(&mut self) {
        let (k, c) = self.stack.pop().expect("finish without start");
        let n = rowan::GreenNode::Node(k, c);
        match self.stack.last_mut() { Some(p) => p.1.push(n), None => self.done.push(n) }
    }
    pub fn error(&mut self, e: parse::ParseError, pos: TextSize) { self.errors.push(SyntaxError::new_at_offset(*e.0, pos)); }
}
fn show(n: &rowan::GreenNode, d: usize) {
    match n {
        rowan::GreenNode::Node(k, c) => { println!("{}{:?}", "  ".repeat(d), SyntaxKind::from(*k)); for x in c { show(x, d + 1) } }
        rowan::GreenNode::Token(k, t) => println!("{}{:?} {:?}", "  ".repeat(d), SyntaxKind::from(*k), t),
    }
}
fn text(n: &rowan::GreenNode, o: &mut String) {
    match n { rowan::GreenNode::Node(_, c) => for x in c { text(x, o) }, rowan::GreenNode::Token(_, t) => o.push_str(t) }
}
fn main() {
    let src = std::io::read_to_string(std::io::stdin()).unwrap();
    let (t, errs) = parse::parse_text(&src, parse::entry_points::source_file);
    if std::env::args().any(|a| a == "--tree") { show(&t, 0); }
    for e in &errs { println!("error {:?}: {}", e.range(), e); }
    let mut o = String::new();
    text(&t, &mut o);
    assert_eq!(o, src, "the tree does not cover the input text");
    println!("PARSED");
}
