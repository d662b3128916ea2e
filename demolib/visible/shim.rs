//! a small stand-in for the syntax tree and the database
use std::cell::RefCell;
use std::rc::Rc;
#[allow(non_camel_case_types)]
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum SyntaxKind { FILE, MODULE, SCRIPT, STRUCT, ENUM, FUN, CONST, SCHEMA, SPEC_FUN, SPEC_INLINE_FUN, ITEM_SPEC, MODULE_SPEC, SPEC_BLOCK_EXPR, LEMMA, BLOCK, USE_STMT, USE_SPECK, PATH, PATH_TYPE, PATH_EXPR, ATTR_ITEM, FRIEND, VISIBILITY_MODIFIER, ERROR }
use SyntaxKind::*;
#[derive(Debug, Clone, Default)]
struct N { kind: Option<SyntaxKind>, label: String, attrs: Option<Vec<String>>, tokens: Vec<String>, to: String, up: usize, kids: Vec<usize>, file: u32 }
thread_local! { static T: RefCell<Vec<N>> = Default::default(); static PKG: RefCell<Vec<(u32, u32)>> = Default::default(); }
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)] pub struct SyntaxNode(usize);
pub type SyntaxElement = SyntaxNode;
fn g<R>(n: usize, f: impl Fn(&N) -> R) -> R { T.with(|t| f(&t.borrow()[n])) }
pub const MSL: [SyntaxKind; 7] = [SCHEMA, SPEC_FUN, SPEC_INLINE_FUN, ITEM_SPEC, MODULE_SPEC, SPEC_BLOCK_EXPR, LEMMA];
impl SyntaxNode {
    pub fn kind(&self) -> SyntaxKind { g(self.0, |n| n.kind.unwrap()) }
    pub fn parent(&self) -> Option<SyntaxNode> { let u = g(self.0, |n| n.up); (u != usize::MAX).then_some(SyntaxNode(u)) }
    pub fn children(&self) -> Vec<SyntaxNode> { g(self.0, |n| n.kids.clone()).into_iter().map(SyntaxNode).collect() }
    pub fn ancestors(&self) -> impl Iterator<Item = SyntaxNode> { std::iter::successors(Some(*self), |n| n.parent()) }
    pub fn as_node(&self) -> Option<&SyntaxNode> { Some(self) }
    pub fn file(&self) -> u32 { g(self.0, |n| n.file) }
    pub fn preorder_with_tokens(&self) -> std::vec::IntoIter<WalkEvent<NodeOrToken<SyntaxNode, ()>>> {
        fn go(n: SyntaxNode, o: &mut Vec<WalkEvent<NodeOrToken<SyntaxNode, ()>>>) {
            o.push(WalkEvent::Enter(NodeOrToken::Node(n)));
            o.push(WalkEvent::Enter(NodeOrToken::Token(())));
            o.push(WalkEvent::Leave(NodeOrToken::Token(())));
            for k in n.children() { go(k, o) }
            o.push(WalkEvent::Leave(NodeOrToken::Node(n)));
        }
        let mut o = vec![];
        go(*self, &mut o);
        o.into_iter()
    }
}
pub enum WalkEvent<T> { Enter(T), Leave(T) }
pub enum NodeOrToken<N, T> { Node(N), Token(T) }
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)] pub struct SyntaxNodePtr(usize);
impl SyntaxNodePtr { pub fn new(n: &SyntaxNode) -> Self { SyntaxNodePtr(n.0) } }
pub trait AstNode: Sized + Clone { fn cast(n: SyntaxNode) -> Option<Self>; fn syntax(&self) -> &SyntaxNode; }
pub mod files {
    pub type FileId = u32;
    #[derive(Debug, Clone, PartialEq, Eq)] pub struct InFile<T> { pub file_id: u32, pub value: T }
    impl<T> InFile<T> {
        pub fn new(file_id: u32, value: T) -> Self { InFile { file_id, value } }
        pub fn map<U>(self, f: impl FnOnce(T) -> U) -> InFile<U> { InFile { file_id: self.file_id, value: f(self.value) } }
        pub fn unpack(self) -> (u32, T) { (self.file_id, self.value) }
        pub fn as_ref(&self) -> InFile<&T> { InFile { file_id: self.file_id, value: &self.value } }
    }
    pub trait InFileExt: Sized { fn in_file(self, file_id: u32) -> InFile<Self> { InFile { file_id, value: self } } }
    impl<T> InFileExt for T {}
    pub trait OptionInFileExt<T> { fn opt_in_file(self, file_id: u32) -> Option<InFile<T>>; }
    impl<T> OptionInFileExt<T> for Option<T> { fn opt_in_file(self, file_id: u32) -> Option<InFile<T>> { self.map(|value| InFile { file_id, value }) } }
}
pub mod ast {
    use super::*;
    macro_rules! nodes { ($($n:ident: $($k:ident)|*;)*) => { $(
        #[derive(Debug, Clone, PartialEq, Eq)] pub struct $n(SyntaxNode);
        impl AstNode for $n { fn cast(n: SyntaxNode) -> Option<Self> { matches!(n.kind(), $($k)|*).then_some($n(n)) } fn syntax(&self) -> &SyntaxNode { &self.0 } }
    )* } }
    nodes! {
        NamedElement: MODULE | STRUCT | ENUM | FUN | CONST | SCHEMA | SPEC_FUN | SPEC_INLINE_FUN | LEMMA;
        Module: MODULE; Script: SCRIPT; Fun: FUN; Struct: STRUCT; Enum: ENUM; Path: PATH; UseSpeck: USE_SPECK; AttrItem: ATTR_ITEM; Friend: FRIEND; SourceFile: FILE;
        VisibilityModifier: VISIBILITY_MODIFIER; AnyHasVisibility: FUN | STRUCT | ENUM | CONST;
        AnyHasAttrs: MODULE | SCRIPT | STRUCT | ENUM | FUN | CONST | USE_STMT | SCHEMA | ITEM_SPEC;
    }
    #[derive(Debug, Clone)] pub struct Token;
    pub struct Attr(String);
    impl Attr { pub fn path_text(&self) -> Option<String> { Some(self.0.clone()) } }
    pub trait HasAttrs: AstNode { fn attr_items(&self) -> std::vec::IntoIter<Attr> { g(self.syntax().0, |n| n.attrs.clone().unwrap_or_default()).into_iter().map(Attr).collect::<Vec<_>>().into_iter() } }
    impl HasAttrs for AnyHasAttrs {}
    impl HasVisibility for AnyHasVisibility {}
    impl Fun { pub fn is_entry(&self) -> bool { false } }
    impl Module {
        pub fn friend_decls(&self) -> Vec<Friend> { self.0.children().into_iter().filter_map(Friend::cast).collect() }
        pub fn is_builtins(&self) -> bool { g(self.0.0, |n| n.label == "builtins") }
    }
    impl Friend { pub fn path(&self) -> Option<Path> { self.0.children().into_iter().find_map(Path::cast) } }
    impl Path {
        pub fn root_path(&self) -> Path { let mut p = self.clone(); while let Some(q) = p.0.parent().and_then(Path::cast) { p = q } p }
        pub fn root_parent_of_type<T: AstNode>(&self) -> Option<T> { self.root_path().0.parent().and_then(T::cast) }
        pub fn target(&self) -> Option<SyntaxNode> { let to = g(self.0.0, |n| n.to.clone()); (!to.is_empty()).then(|| at(&to)) }
    }
    impl VisibilityModifier {
        fn tok(&self, t: &str) -> Option<Token> { g(self.0.0, |n| n.tokens.iter().any(|x| x == t)).then_some(Token) }
        pub fn public_token(&self) -> Option<Token> { self.tok("public") }
        pub fn l_paren_token(&self) -> Option<Token> { self.tok("(") }
        pub fn r_paren_token(&self) -> Option<Token> { self.tok(")") }
        pub fn friend_token(&self) -> Option<Token> { self.tok("friend") }
        pub fn script_token(&self) -> Option<Token> { self.tok("script") }
        pub fn package_token(&self) -> Option<Token> { self.tok("package") }
    }
    pub mod support { use super::*; pub fn child<T: AstNode>(n: &SyntaxNode) -> Option<T> { n.children().into_iter().find_map(T::cast) } }
    include!(concat!(env!("W"), "/vis_mods.rs"));
    pub use visibility::HasVisibility;
    pub mod node_ext {
        pub mod syntax_element {
            use crate::*;
            pub trait SyntaxElementExt {
                fn me(&self) -> SyntaxNode;
                fn ancestor_strict<T: AstNode>(&self) -> Option<T> { self.me().ancestors().skip(1).find_map(T::cast) }
                fn is_msl_only_item(&self) -> bool { MSL.contains(&self.me().kind()) }
                fn containing_module(&self) -> Option<ast::Module> { self.ancestor_strict() }
                fn containing_script(&self) -> Option<ast::Script> { self.ancestor_strict() }
                fn is_msl_context(&self) -> bool {
                    for a in self.me().ancestors() {
                        if matches!(a.kind(), SyntaxKind::MODULE | SyntaxKind::FUN | SyntaxKind::STRUCT | SyntaxKind::ENUM) { return false }
                        if MSL.contains(&a.kind()) { return true }
                    }
                    false
                }
                fn loc_node(&self) -> SyntaxNode { self.me() }
            }
            impl SyntaxElementExt for SyntaxNode { fn me(&self) -> SyntaxNode { *self } }
        }
        pub mod syntax_node {
            use crate::*;
            pub trait SyntaxNodeExt { fn cast<T: AstNode>(&self) -> Option<T>; }
            impl SyntaxNodeExt for SyntaxNode { fn cast<T: AstNode>(&self) -> Option<T> { T::cast(*self) } }
        }
    }
}
pub trait SourceDatabase { fn file_package_id(&self, f: u32) -> u32; }
pub struct Db;
impl SourceDatabase for Db { fn file_package_id(&self, f: u32) -> u32 { PKG.with(|p| p.borrow().iter().find(|x| x.0 == f).unwrap().1) } }
pub mod inputs { pub type FileIdInput = u32; }
pub trait Intern: Copy { fn intern(self, _: &dyn SourceDatabase) -> u32; }
impl Intern for u32 { fn intern(self, _: &dyn SourceDatabase) -> u32 { self } }
pub mod source_db {
    use super::*;
    pub struct Parse(u32);
    pub fn parse(_: &dyn SourceDatabase, f: u32) -> Parse { Parse(f) }
    impl Parse { pub fn tree(&self) -> ast::SourceFile { let i = T.with(|t| t.borrow().iter().position(|n| n.file == self.0 && n.kind == Some(FILE)).unwrap()); ast::SourceFile::cast(SyntaxNode(i)).unwrap() } }
}
pub fn at(l: &str) -> SyntaxNode { T.with(|t| SyntaxNode(t.borrow().iter().position(|n| n.label == l).unwrap_or_else(|| panic!("no {l}")))) }
pub fn package(f: u32, p: u32) { PKG.with(|x| x.borrow_mut().push((f, p))) }
/// `KIND#label[attr,attr]<modifier tokens>=target{children}`
pub fn file(f: u32, src: &str) {
    fn word(s: &mut &str) -> String { let e = s.find(|c: char| !(c.is_alphanumeric() || c == '_')).unwrap_or(s.len()); let w = s[..e].to_string(); *s = &s[e..]; w }
    fn go(s: &mut &str, up: usize, f: u32) {
        loop {
            *s = s.trim_start();
            if s.is_empty() { return }
            if let Some(r) = s.strip_prefix('}') { *s = r; return }
            let k = word(s);
            let kind = [FILE, MODULE, SCRIPT, STRUCT, ENUM, FUN, CONST, SCHEMA, SPEC_FUN, SPEC_INLINE_FUN, ITEM_SPEC, MODULE_SPEC, SPEC_BLOCK_EXPR, LEMMA, BLOCK, USE_STMT, USE_SPECK, PATH, PATH_TYPE, PATH_EXPR, ATTR_ITEM, FRIEND].into_iter().find(|x| format!("{x:?}") == k).unwrap_or_else(|| panic!("{k}"));
            let me = T.with(|t| { t.borrow_mut().push(N { kind: Some(kind), up, file: f, ..N::default() }); t.borrow().len() - 1 });
            if up != usize::MAX { T.with(|t| t.borrow_mut()[up].kids.push(me)) }
            loop {
                if let Some(r) = s.strip_prefix('#') { *s = r; let w = word(s); T.with(|t| t.borrow_mut()[me].label = w) }
                else if let Some(r) = s.strip_prefix('=') { *s = r; let w = word(s); T.with(|t| t.borrow_mut()[me].to = w) }
                else if let Some(r) = s.strip_prefix('[') { let e = r.find(']').unwrap(); let a = r[..e].split(',').map(|x| x.to_string()).collect(); *s = &r[e + 1..]; T.with(|t| t.borrow_mut()[me].attrs = Some(a)) }
                else if let Some(r) = s.strip_prefix('<') {
                    let e = r.find('>').unwrap();
                    let tokens = r[..e].split(' ').map(|x| x.to_string()).collect();
                    *s = &r[e + 1..];
                    T.with(|t| { let mut t = t.borrow_mut(); t.push(N { kind: Some(VISIBILITY_MODIFIER), up: me, file: f, tokens, ..N::default() }); let i = t.len() - 1; t[me].kids.push(i) });
                }
                else { break }
            }
            if let Some(r) = s.strip_prefix('{') { *s = r; go(s, me, f) }
        }
    }
    go(&mut &*format!("FILE{{{src}}}"), usize::MAX, f);
}
