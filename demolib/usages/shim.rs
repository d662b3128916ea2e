//! a tree read from annotated text: `{Kind#label=class ...}` is a node
use std::cell::RefCell;
use std::collections::HashMap;
use std::marker::PhantomData;
use std::sync::Arc;
pub const KINDS: &[&str] = &["File", "Module", "ModuleSpec", "Fun", "Lemma", "Block", "Proof", "Param", "LambdaParam", "LambdaExpr", "LetStmt", "ForExpr", "ForCondition", "MatchArm", "SchemaField", "Schema", "ItemSpec", "ItemSpecParam", "QuantBinding", "IdentPat", "NamedField", "Struct", "Const", "Name", "NameRef", "StructLitField", "StructPatField", "Expr", "UseAlias"];
#[derive(Clone)]
struct N { file: u32, start: u32, end: u32, kind: &'static str, label: String, class: String, parent: Option<usize>, kids: Vec<usize> }
#[derive(Default)]
struct Store { nodes: Vec<N>, text: HashMap<u32, String>, root: HashMap<u32, usize>, pkg: HashMap<u32, u32>, deps: HashMap<u32, Vec<u32>>, specs: HashMap<String, Vec<String>>, module_specs: HashMap<String, Vec<String>> }
thread_local!(static S: RefCell<Store> = RefCell::new(Store::default()));
fn s<R>(f: impl FnOnce(&mut Store) -> R) -> R { S.with(|x| f(&mut x.borrow_mut())) }
pub fn reset() { s(|s| *s = Store::default()) }
pub fn deps(p: u32, d: &[u32]) { s(|s| { s.deps.insert(p, d.to_vec()); }) }
pub fn file(id: u32, pkg: u32, marked: &str) {
    s(|s| {
        let b: Vec<char> = marked.chars().collect();
        let (mut text, mut stack, mut i) = (String::new(), vec![], 0);
        while i < b.len() {
            if b[i] == '«' {
                let mut h = String::new();
                i += 1;
                while b[i] != ' ' && b[i] != '»' { h.push(b[i]); i += 1; }
                if b[i] == ' ' { i += 1; }
                let (h, class) = h.split_once('=').map(|(a, b)| (a.to_string(), b.to_string())).unwrap_or((h, String::new()));
                let (k, label) = h.split_once('#').map(|(a, b)| (a.to_string(), b.to_string())).unwrap_or((h, String::new()));
                let kind = *KINDS.iter().find(|x| **x == k).unwrap_or_else(|| panic!("{k}"));
                let n = s.nodes.len();
                let parent = stack.last().copied();
                s.nodes.push(N { file: id, start: text.len() as u32, end: 0, kind, label, class, parent, kids: vec![] });
                if let Some(p) = parent { let p: usize = p; s.nodes[p].kids.push(n); } else { s.root.insert(id, n); }
                stack.push(n);
            } else if b[i] == '»' {
                let n = stack.pop().unwrap();
                s.nodes[n].end = text.len() as u32;
                i += 1;
            } else { text.push(b[i]); i += 1; }
        }
        assert!(stack.is_empty(), "{marked}");
        s.text.insert(id, text);
        s.pkg.insert(id, pkg);
    })
}
pub fn text(id: u32) -> String { s(|s| s.text[&id].clone()) }
pub fn item_spec(fun: &str, spec: &str) { s(|s| s.specs.entry(fun.into()).or_default().push(spec.into())) }
pub fn module_spec(module: &str, spec: &str) { s(|s| s.module_specs.entry(module.into()).or_default().push(spec.into())) }
pub fn labelled(l: &str) -> SyntaxNode { s(|s| SyntaxNode(s.nodes.iter().position(|n| n.label == l).unwrap_or_else(|| panic!("no {l}")))) }

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)] pub struct FileId(pub u32);
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, Default)] pub struct TextSize(pub u32);
impl TextSize { pub fn of(t: &str) -> Self { TextSize(t.len() as u32) } pub fn new(n: u32) -> Self { TextSize(n) } }
impl TryFrom<usize> for TextSize { type Error = (); fn try_from(n: usize) -> Result<Self, ()> { Ok(TextSize(n as u32)) } }
impl From<u32> for TextSize { fn from(n: u32) -> Self { TextSize(n) } }
impl From<TextSize> for usize { fn from(n: TextSize) -> Self { n.0 as usize } }
impl From<TextSize> for u32 { fn from(n: TextSize) -> Self { n.0 } }
impl std::ops::Add for TextSize { type Output = TextSize; fn add(self, o: TextSize) -> TextSize { TextSize(self.0 + o.0) } }
impl std::ops::Sub for TextSize { type Output = TextSize; fn sub(self, o: TextSize) -> TextSize { TextSize(self.0 - o.0) } }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)] pub struct TextRange { s: TextSize, e: TextSize }
impl TextRange {
    pub fn new(s: TextSize, e: TextSize) -> Self { assert!(s <= e); Self { s, e } }
    pub fn up_to(e: TextSize) -> Self { Self { s: TextSize(0), e } }
    pub fn empty(s: TextSize) -> Self { Self { s, e: s } }
    pub fn at(s: TextSize, l: TextSize) -> Self { Self { s, e: s + l } }
    pub fn start(self) -> TextSize { self.s }
    pub fn end(self) -> TextSize { self.e }
    pub fn len(self) -> TextSize { self.e - self.s }
    pub fn is_empty(self) -> bool { self.s == self.e }
    pub fn contains(self, o: TextSize) -> bool { self.s <= o && o < self.e }
    pub fn contains_inclusive(self, o: TextSize) -> bool { self.s <= o && o <= self.e }
    pub fn contains_range(self, o: TextRange) -> bool { self.s <= o.s && o.e <= self.e }
    pub fn intersect(self, o: TextRange) -> Option<TextRange> { let (s, e) = (self.s.max(o.s), self.e.min(o.e)); if s <= e { Some(Self { s, e }) } else { None } }
}
#[allow(non_camel_case_types)]
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)] pub enum SyntaxKind { IDENT, INT_NUMBER, QUOTE_IDENT, UNDERSCORE, OTHER, NODE(&'static str) }
impl SyntaxKind { pub fn from_keyword(s: &str) -> Option<SyntaxKind> { ["fun", "let", "module"].contains(&s).then_some(SyntaxKind::OTHER) } }
pub struct OneToken { pub kind: SyntaxKind }
pub fn parse_single_token(t: &str) -> Option<OneToken> { let l = lex(t); if l.len() == 1 { Some(OneToken { kind: kind_of(t) }) } else { None } }
fn kind_of(t: &str) -> SyntaxKind {
    if t == "_" { SyntaxKind::UNDERSCORE } else if t.starts_with('\'') { SyntaxKind::QUOTE_IDENT } else if ["fun", "let", "module"].contains(&t) { SyntaxKind::OTHER } else if t.starts_with(|c: char| c.is_ascii_alphabetic() || c == '_') { SyntaxKind::IDENT } else if t.starts_with(|c: char| c.is_ascii_digit()) { SyntaxKind::INT_NUMBER } else { SyntaxKind::OTHER }
}
fn lex(t: &str) -> Vec<(u32, u32)> {
    let b = t.as_bytes();
    let w = |c: u8| c.is_ascii_alphanumeric() || c == b'_';
    let (mut i, mut out) = (0, vec![]);
    while i < b.len() {
        let st = i;
        i += 1;
        if w(b[st]) || b[st] == b'\'' { while i < b.len() && w(b[i]) { i += 1 } } else if b[st] == b' ' { while i < b.len() && b[i] == b' ' { i += 1 } } else if b[st] >= 0x80 { while i < b.len() && b[i] >= 0x80 { i += 1 } }
        out.push((st as u32, i as u32));
    }
    out
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)] pub struct SyntaxNode(pub usize);
pub type SyntaxElement = SyntaxNode;
pub struct SyntaxToken { file: u32, r: (u32, u32) }
impl SyntaxToken {
    pub fn text(&self) -> TokenText<'_> { TokenText(text(self.file)[self.r.0 as usize..self.r.1 as usize].to_string(), PhantomData) }
    pub fn kind(&self) -> SyntaxKind { kind_of(&self.text().0) }
    pub fn text_range(&self) -> TextRange { TextRange::new(TextSize(self.r.0), TextSize(self.r.1)) }
    pub fn parent(&self) -> Option<SyntaxNode> { s(|s| s.nodes.iter().enumerate().filter(|(_, n)| n.file == self.file && n.start <= self.r.0 && self.r.1 <= n.end).min_by_key(|(i, n)| (n.end - n.start, usize::MAX - i)).map(|(i, _)| SyntaxNode(i))) }
}
pub struct TokenAtOffset(std::vec::IntoIter<SyntaxToken>);
impl Iterator for TokenAtOffset { type Item = SyntaxToken; fn next(&mut self) -> Option<SyntaxToken> { self.0.next() } }
impl TokenAtOffset { pub fn left_biased(mut self) -> Option<SyntaxToken> { self.0.next() } pub fn right_biased(self) -> Option<SyntaxToken> { self.0.last() } }
#[derive(Clone, Debug)] pub struct TokenText<'a>(String, PhantomData<&'a ()>);
impl TokenText<'_> { pub fn as_str(&self) -> &str { &self.0 } }
impl PartialEq<str> for TokenText<'_> { fn eq(&self, o: &str) -> bool { self.0 == o } }
impl PartialEq<&str> for TokenText<'_> { fn eq(&self, o: &&str) -> bool { self.0 == *o } }
impl PartialEq<String> for TokenText<'_> { fn eq(&self, o: &String) -> bool { &self.0 == o } }
impl PartialEq for TokenText<'_> { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
impl PartialEq<TokenText<'_>> for String { fn eq(&self, o: &TokenText<'_>) -> bool { *self == o.0 } }
impl std::fmt::Display for TokenText<'_> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&self.0) } }
impl SyntaxNode {
    fn n(&self) -> N { s(|s| s.nodes[self.0].clone()) }
    pub fn kind(&self) -> SyntaxKind { SyntaxKind::NODE(self.n().kind) }
    pub fn text_range(&self) -> TextRange { let n = self.n(); TextRange::new(TextSize(n.start), TextSize(n.end)) }
    pub fn text(&self) -> String { let n = self.n(); text(n.file)[n.start as usize..n.end as usize].to_string() }
    pub fn parent(&self) -> Option<SyntaxNode> { self.n().parent.map(SyntaxNode) }
    pub fn file(&self) -> FileId { FileId(self.n().file) }
    pub fn class(&self) -> String { self.n().class }
    pub fn label(&self) -> String { self.n().label }
    pub fn up(&self, k: &[&str]) -> Option<SyntaxNode> { let mut c = self.parent(); while let Some(p) = c { if k.contains(&p.n().kind) { return Some(p); } c = p.parent(); } None }
    pub fn child(&self, k: &str) -> Option<SyntaxNode> { s(|s| s.nodes[self.0].kids.iter().copied().find(|i| s.nodes[*i].kind == k).map(SyntaxNode)) }
    pub fn containing_module(&self) -> Option<ast::Module> { self.up(&["Module"]).map(ast::Module) }
    pub fn containing_function(&self) -> Option<ast::Fun> { self.up(&["Fun"]).map(ast::Fun) }
    pub fn token_at_offset(&self, o: TextSize) -> TokenAtOffset { let n = self.n(); TokenAtOffset(lex(&text(n.file)).into_iter().filter(|r| r.0 <= o.0 && o.0 <= r.1).map(|r| SyntaxToken { file: n.file, r }).collect::<Vec<_>>().into_iter()) }
    pub fn cast<T: AstNode>(self) -> Option<T> { T::cast(self) }
    pub fn file_range(&self) -> FileRange { FileRange { file_id: self.file(), range: self.text_range() } }
}
pub trait AstNode: Sized { fn cast(n: SyntaxNode) -> Option<Self>; fn can_cast(k: SyntaxKind) -> bool; fn syntax(&self) -> &SyntaxNode; }
pub mod ast {
    use super::*;
    macro_rules! nodes { ($($k:ident),*) => { $(#[derive(Clone, PartialEq, Eq, Hash, Debug)] pub struct $k(pub SyntaxNode);
        impl AstNode for $k { fn cast(n: SyntaxNode) -> Option<Self> { (n.n().kind == stringify!($k)).then_some($k(n)) } fn can_cast(k: SyntaxKind) -> bool { k == SyntaxKind::NODE(stringify!($k)) } fn syntax(&self) -> &SyntaxNode { &self.0 } })* } }
    nodes!(Module, Fun, Lemma, Block, Proof, Param, LambdaParam, LambdaExpr, LetStmt, ForExpr, ForCondition, MatchArm, SchemaField, Schema, ItemSpec, ItemSpecParam, QuantBinding, IdentPat, NamedField, Struct, Const, Name, NameRef, StructLitField, StructPatField, Expr, UseAlias, UseSpeck, ModuleSpec);
    #[derive(Clone, Debug)] pub struct Path;
    macro_rules! named { ($($k:ident),*) => {
        #[derive(Clone, PartialEq, Eq, Hash, Debug)] pub enum NamedElement { $($k($k)),* }
        impl AstNode for NamedElement { fn cast(n: SyntaxNode) -> Option<Self> { $(if let Some(x) = $k::cast(n) { return Some(NamedElement::$k(x)); })* None } fn can_cast(k: SyntaxKind) -> bool { $($k::can_cast(k))||* } fn syntax(&self) -> &SyntaxNode { match self { $(NamedElement::$k(x) => &x.0),* } } }
        $(impl From<$k> for NamedElement { fn from(x: $k) -> Self { NamedElement::$k(x) } } impl $k { pub fn name(&self) -> Option<Name> { self.0.child("Name").map(Name) } })* } }
    named!(IdentPat, NamedField, Struct, Const, Fun, Schema, Module, Lemma);
    impl NamedElement { pub fn name(&self) -> Option<Name> { self.syntax().child("Name").map(Name) } }
    #[derive(Clone, PartialEq, Eq, Hash, Debug)] pub enum NameLike { Name(Name), NameRef(NameRef) }
    impl AstNode for NameLike { fn cast(n: SyntaxNode) -> Option<Self> { Name::cast(n).map(NameLike::Name).or_else(|| NameRef::cast(n).map(NameLike::NameRef)) } fn can_cast(k: SyntaxKind) -> bool { Name::can_cast(k) || NameRef::can_cast(k) } fn syntax(&self) -> &SyntaxNode { match self { NameLike::Name(x) => &x.0, NameLike::NameRef(x) => &x.0 } } }
    impl Name { pub fn text(&self) -> TokenText<'_> { TokenText(self.0.text(), PhantomData) } pub fn as_string(&self) -> String { self.0.text() } }
    impl NameRef {
        pub fn text(&self) -> TokenText<'_> { TokenText(self.0.text(), PhantomData) } pub fn as_string(&self) -> String { self.0.text() }
        pub fn try_into_struct_lit_field(&self) -> Option<StructLitFieldKind> {
            let f = self.0.parent().and_then(StructLitField::cast).or_else(|| self.0.parent().filter(|p| p.n().kind == "Expr").and_then(|p| p.parent()).and_then(StructLitField::cast))?;
            let refs = f.0.child("NameRef").map(NameRef);
            let expr = f.0.child("Expr").map(Expr);
            Some(match (refs, expr) { (Some(name_ref), Some(e)) => StructLitFieldKind::Full { struct_field: f, name_ref, expr: Some(e) }, _ => StructLitFieldKind::Shorthand { struct_field: f, path: Path } })
        }
    }
    #[derive(Clone, Debug)] pub enum StructLitFieldKind { Full { struct_field: StructLitField, name_ref: NameRef, expr: Option<Expr> }, Shorthand { struct_field: StructLitField, path: Path } }
    impl StructPatField {
        pub fn for_field_name_ref(n: &NameRef) -> Option<StructPatField> { n.0.parent().and_then(StructPatField::cast) }
        pub fn for_field_name(n: &Name) -> Option<StructPatField> { n.0.parent().and_then(IdentPat::cast)?.0.parent().and_then(StructPatField::cast) }
        pub fn name_ref(&self) -> Option<NameRef> { self.0.child("NameRef").map(NameRef) }
        pub fn ident_pat(&self) -> Option<IdentPat> { self.0.child("IdentPat").map(IdentPat) }
    }
    #[derive(Clone, Debug)] pub enum IdentPatOwner { ForCondition(ForCondition), ItemSpecParam(ItemSpecParam), LambdaParam(LambdaParam), LetStmt(LetStmt), MatchArm(MatchArm), Param(Param), QuantBinding(QuantBinding), SchemaField(SchemaField) }
    impl IdentPat {
        pub fn ident_owner(&self) -> Option<IdentPatOwner> {
            let p = self.0.up(&["ForCondition", "ItemSpecParam", "LambdaParam", "LetStmt", "MatchArm", "Param", "QuantBinding", "SchemaField"])?;
            Some(match p.n().kind { "ForCondition" => IdentPatOwner::ForCondition(ForCondition(p)), "ItemSpecParam" => IdentPatOwner::ItemSpecParam(ItemSpecParam(p)), "LambdaParam" => IdentPatOwner::LambdaParam(LambdaParam(p)), "LetStmt" => IdentPatOwner::LetStmt(LetStmt(p)), "MatchArm" => IdentPatOwner::MatchArm(MatchArm(p)), "Param" => IdentPatOwner::Param(Param(p)), "QuantBinding" => IdentPatOwner::QuantBinding(QuantBinding(p)), _ => IdentPatOwner::SchemaField(SchemaField(p)) })
        }
    }
    impl Param { pub fn any_fun(&self) -> Option<Fun> { self.0.up(&["Fun", "Lemma"]).map(Fun) } }
    impl Fun { pub fn block_expr(&self) -> Option<Block> { self.0.child("Block").map(Block) } pub fn body(&self) -> Option<Block> { self.block_expr() } }
    impl LambdaParam { pub fn lambda_expr(&self) -> LambdaExpr { LambdaExpr(self.0.up(&["LambdaExpr"]).unwrap()) } }
    impl ForCondition { pub fn for_expr(&self) -> ForExpr { ForExpr(self.0.up(&["ForExpr"]).unwrap()) } }
    impl MatchArm { pub fn expr(&self) -> Option<Expr> { self.0.child("Expr").map(Expr) } }
    pub mod node_ext { pub mod syntax_element { pub trait SyntaxElementExt {} } pub mod syntax_node { pub trait SyntaxNodeExt {} } }
}
pub mod files {
    use super::*;
    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)] pub struct FileRange { pub file_id: FileId, pub range: TextRange }
    #[derive(Clone, Copy, Debug, PartialEq, Eq)] pub struct FilePosition { pub file_id: FileId, pub offset: TextSize }
    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)] pub struct InFile<T> { pub file_id: FileId, pub value: T }
    impl<T> InFile<T> {
        pub fn new(file_id: FileId, value: T) -> Self { Self { file_id, value } }
        pub fn unpack(self) -> (FileId, T) { (self.file_id, self.value) }
        pub fn unpack_ref(&self) -> (FileId, &T) { (self.file_id, &self.value) }
        pub fn map<U>(self, f: impl FnOnce(T) -> U) -> InFile<U> { InFile { file_id: self.file_id, value: f(self.value) } }
        pub fn map_into<U: From<T>>(self) -> InFile<U> { self.map(|x| x.into()) }
        pub fn and_then<U>(self, f: impl FnOnce(T) -> Option<U>) -> Option<InFile<U>> { Some(InFile { file_id: self.file_id, value: f(self.value)? }) }
        pub fn and_then_ref<U>(&self, f: impl FnOnce(&T) -> Option<U>) -> Option<InFile<U>> { Some(InFile { file_id: self.file_id, value: f(&self.value)? }) }
    }
    impl<T: AstNode> InFile<T> {
        pub fn cast_into_ref<U: AstNode>(&self) -> Option<InFile<U>> { Some(InFile { file_id: self.file_id, value: U::cast(*self.value.syntax())? }) }
        pub fn file_range(&self) -> FileRange { FileRange { file_id: self.file_id, range: self.value.syntax().text_range() } }
        pub fn syntax(&self) -> InFile<SyntaxNode> { InFile { file_id: self.file_id, value: *self.value.syntax() } }
        pub fn loc(&self) -> loc::SyntaxLoc { loc::SyntaxLoc(*self.value.syntax()) }
    }
    impl InFile<SyntaxNode> { pub fn file_range(&self) -> FileRange { FileRange { file_id: self.file_id, range: self.value.text_range() } } }
    pub trait InFileExt: Sized { fn in_file(self, file_id: FileId) -> InFile<Self> { InFile { file_id, value: self } } }
    impl<T> InFileExt for T {}
}
use files::*;
pub mod loc { use super::*; pub trait SyntaxLocFileExt {} #[derive(Clone)] pub struct SyntaxLoc(pub SyntaxNode); impl SyntaxLoc { pub fn file_range(&self) -> FileRange { self.0.file_range() } } }
pub mod nameres { pub mod node_ext { use crate::*; pub trait ModuleResolutionExt { fn related_module_specs(&self, db: &RootDatabase) -> Vec<InFile<ast::ModuleSpec>>; }
    impl ModuleResolutionExt for InFile<ast::Module> { fn related_module_specs(&self, _: &RootDatabase) -> Vec<InFile<ast::ModuleSpec>> { let l = self.value.0.label(); let v = s(|s| s.module_specs.get(&l).cloned().unwrap_or_default()); v.iter().map(|x| { let n = labelled(x); InFile::new(n.file(), ast::ModuleSpec(n)) }).collect() } } } }
pub mod package_root { #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)] pub struct PackageId(pub u32); }
use package_root::PackageId;
#[derive(Default)] pub struct RootDatabase;
pub struct FileText(FileId);
impl FileText { pub fn text(&self, _: &dyn SourceDatabase) -> Arc<str> { text(self.0.0).into() } }
pub struct PackageIds(Vec<PackageId>);
impl PackageIds { pub fn data(&self, _: &dyn SourceDatabase) -> Vec<PackageId> { self.0.clone() } }
pub trait SourceDatabase { fn file_package_id(&self, f: FileId) -> PackageId; fn file_text(&self, f: FileId) -> FileText { FileText(f) } fn all_package_ids(&self) -> PackageIds; }
impl SourceDatabase for RootDatabase { fn file_package_id(&self, f: FileId) -> PackageId { PackageId(s(|s| s.pkg[&f.0])) } fn all_package_ids(&self) -> PackageIds { let mut v: Vec<u32> = s(|s| s.deps.keys().copied().collect()); v.sort(); PackageIds(v.into_iter().map(PackageId).collect()) } }
pub mod hir_db {
    use super::*;
    pub fn source_file_ids_in_package(_: &dyn SourceDatabase, p: PackageId) -> Vec<FileId> { let mut v: Vec<u32> = s(|s| s.pkg.iter().filter(|(_, q)| **q == p.0).map(|(f, _)| *f).collect()); v.sort(); v.into_iter().map(FileId).collect() }
    pub fn transitive_dep_package_ids(_: &dyn SourceDatabase, p: PackageId) -> Vec<PackageId> { let mut v = vec![p]; v.extend(s(|s| s.deps.get(&p.0).cloned().unwrap_or_default()).into_iter().map(PackageId)); v }
    include!(concat!(env!("W"), "/rev.rs"));
}
pub mod item_specs { use super::*; pub fn get_item_specs_for_fun(_: &RootDatabase, l: loc::SyntaxLoc) -> Vec<loc::SyntaxLoc> { let n = l.0.label(); let v = s(|s| s.specs.get(&n).cloned().unwrap_or_default()); v.iter().map(|x| loc::SyntaxLoc(labelled(x))).collect() } }
pub struct Semantics<'a, DB> { pub db: &'a DB }
pub struct SourceFile(SyntaxNode);
impl SourceFile { pub fn syntax(&self) -> &SyntaxNode { &self.0 } }
impl<'a, DB> Semantics<'a, DB> {
    pub fn new(db: &'a DB, _: FileId) -> Self { Self { db } }
    pub fn parse(&self, f: FileId) -> SourceFile { SourceFile(SyntaxNode(s(|s| s.root[&f.0]))) }
    pub fn file_range(&self, n: &SyntaxNode) -> FileRange { n.file_range() }
    pub fn is_builtins_file(&self, f: FileId) -> bool { f.0 == 100 }
    pub fn is_library(&self, p: PackageId) -> bool { p.0 >= 50 }
    pub fn find_namelike_at_offset(&self, n: &SyntaxNode, o: TextSize) -> Option<ast::NameLike> { n.token_at_offset(o).find_map(|t| t.parent().and_then(ast::NameLike::cast)) }
}
pub mod defs {
    use super::*;
    #[derive(Clone, Debug)] pub enum Definition { NamedItem((), InFile<ast::NamedElement>), BuiltinType }
    #[derive(Clone, Debug)] pub enum NameClass { Definition(Definition), ConstReference(Definition), PatFieldShorthand { ident_pat: InFile<ast::IdentPat>, named_field: InFile<ast::NamedField> }, ItemSpecFunctionParam { spec_ident_pat: InFile<ast::IdentPat>, fun_param_ident_pat: InFile<ast::IdentPat> } }
    #[derive(Clone, Debug)] pub enum NameRefClass { Definition(Definition), FieldShorthand { ident_pat: InFile<ast::IdentPat>, named_field: InFile<ast::NamedField> } }
    fn item(n: SyntaxNode) -> InFile<ast::NamedElement> { InFile::new(n.file(), ast::NamedElement::cast(n).unwrap()) }
    fn at<T: AstNode>(l: &str) -> InFile<T> { let n = labelled(l); InFile::new(n.file(), T::cast(n).unwrap()) }
    impl NameClass { pub fn classify(_: &Semantics<'_, RootDatabase>, n: ast::Name) -> Option<NameClass> {
        let own = || { let p = n.0.parent().unwrap(); InFile::new(p.file(), ast::IdentPat::cast(p).unwrap()) };
        let c = n.0.class();
        Some(if let Some(f) = c.strip_prefix('/') { NameClass::PatFieldShorthand { ident_pat: own(), named_field: at(f) } } else if let Some(d) = c.strip_prefix('@') { NameClass::ItemSpecFunctionParam { spec_ident_pat: own(), fun_param_ident_pat: at(d) } } else if !c.is_empty() { NameClass::ConstReference(Definition::NamedItem((), item(labelled(&c)))) } else { NameClass::Definition(Definition::NamedItem((), item(n.0.parent().filter(|p| ast::NamedElement::cast(*p).is_some())?))) }) } }
    impl NameRefClass { pub fn classify(_: &Semantics<'_, RootDatabase>, n: &ast::NameRef) -> Option<NameRefClass> {
        let c = n.0.class();
        if c.is_empty() { return None; }
        if c == "builtin" { return Some(NameRefClass::Definition(Definition::BuiltinType)); }
        Some(match c.split_once('/') { Some((d, f)) => NameRefClass::FieldShorthand { ident_pat: at(d), named_field: at(f) }, None => NameRefClass::Definition(Definition::NamedItem((), item(labelled(&c)))) }) } }
}
pub mod memmem { pub struct Finder<'a>(&'a str); impl<'a> Finder<'a> { pub fn new(n: &'a impl AsRef<str>) -> Self { Finder(n.as_ref()) } pub fn needle(&self) -> &[u8] { self.0.as_bytes() } pub fn find_iter<'b>(&'b self, h: &'b [u8]) -> impl Iterator<Item = usize> + 'b { let h = std::str::from_utf8(h).unwrap(); h.match_indices(self.0).map(|x| x.0) } } }
pub mod text_edit { use super::*;
    #[derive(Clone, Debug, Default, PartialEq)] pub struct TextEdit(pub Vec<(TextRange, String)>);
    #[derive(Default)] pub struct TextEditBuilder(Vec<(TextRange, String)>);
    impl TextEdit { pub fn builder() -> TextEditBuilder { Default::default() } }
    impl TextEditBuilder { pub fn insert(&mut self, o: TextSize, t: String) { self.0.push((TextRange::empty(o), t)) } pub fn replace(&mut self, r: TextRange, t: String) { self.0.push((r, t)) } pub fn delete(&mut self, r: TextRange) { self.0.push((r, String::new())) } pub fn finish(self) -> TextEdit { TextEdit(self.0) } } }
pub mod source_change { use super::*;
    #[derive(Clone, Debug, Default)] pub struct SourceChange { pub edits: std::collections::BTreeMap<FileId, Vec<(TextRange, String)>> }
    impl SourceChange { pub fn insert_source_edit(&mut self, f: FileId, e: text_edit::TextEdit) { self.edits.entry(f).or_default().extend(e.0) }
        pub fn apply(&self) -> std::collections::BTreeMap<u32, String> { self.edits.iter().map(|(f, e)| { let mut e = e.clone(); e.sort_by_key(|x| (x.0.start(), x.0.end())); let mut t = text(f.0); for (r, n) in e.iter().rev() { t.replace_range(usize::from(r.start())..usize::from(r.end()), n); } (f.0, t) }).collect() } } }
pub trait Itertools: Iterator { fn unique(self) -> std::vec::IntoIter<Self::Item> where Self: Sized, Self::Item: PartialEq { let mut v = vec![]; for x in self { if !v.contains(&x) { v.push(x); } } v.into_iter() } }
impl<I: Iterator> Itertools for I {}
pub struct Span; impl Span { pub fn entered(self) -> Span { Span } }
#[macro_export] macro_rules! info_span { ($($t:tt)*) => { $crate::Span } }
