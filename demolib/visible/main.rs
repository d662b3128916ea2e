use shim::files::*;
use shim::*;
mod loc {
    use shim::files::*;
    use shim::*;
    #[derive(Debug, Clone, PartialEq, Eq, Hash)] pub struct SyntaxLoc(u32, SyntaxNode);
    impl SyntaxLoc {
        pub fn from_file_syntax_node(n: &InFile<SyntaxNode>) -> Self { SyntaxLoc(n.file_id, n.value) }
        pub fn file_id(&self) -> u32 { self.0 }
        pub fn syntax_ptr(&self) -> SyntaxNodePtr { SyntaxNodePtr::new(&self.1) }
        pub fn to_ast<T: AstNode>(&self, _: &dyn SourceDatabase) -> Option<InFile<T>> { T::cast(self.1).map(|value| InFile { file_id: self.0, value }) }
        pub fn kind(&self) -> SyntaxKind { self.1.kind() }
    }
    pub trait SyntaxLocFileExt { fn loc(&self) -> SyntaxLoc; }
    impl<T: AstNode> SyntaxLocFileExt for InFile<T> { fn loc(&self) -> SyntaxLoc { SyntaxLoc(self.file_id, *self.value.syntax()) } }
}
mod node_ext { pub trait ModuleLangExt {} }
mod hir_db {
    use crate::*; use crate::item_scope::ItemScope; use crate::loc::SyntaxLoc; use shim::{SourceDatabase, Intern};
    include!(concat!(env!("W"), "/item_scope_fn.rs"));
}
mod nameres {
    use shim::files::*; use shim::*;
    pub fn resolve_no_inf_cast<T: AstNode>(_: &dyn SourceDatabase, p: InFile<ast::Path>) -> Option<InFile<T>> {
        if p.value.syntax().file() != p.file_id { return None }
        let n = p.value.target()?;
        T::cast(n).map(|value| InFile { file_id: n.file(), value })
    }
    pub mod namespaces {
        #[allow(non_camel_case_types)]
        #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)] pub enum Ns { NAME, FUNCTION, TYPE, ENUM, MODULE, SCHEMA }
        pub struct Set(&'static [Ns]);
        impl Set { pub fn contains(&self, n: Ns) -> bool { self.0.contains(&n) } }
        pub const ITEM_TYPE_NS: Set = Set(&[Ns::TYPE, Ns::ENUM]);
    }
    pub mod scope {
        #[derive(Debug, Clone, PartialEq, Eq, Hash)]
        pub struct ScopeEntry { pub name: String, pub node_loc: crate::loc::SyntaxLoc, pub ns: super::namespaces::Ns, pub scope_adjustment: Option<crate::item_scope::ItemScope> }
    }
    include!(concat!(env!("W"), "/vis_path.rs"));
}
include!(concat!(env!("W"), "/scope_path.rs"));
use item_scope::ItemScope;
use nameres::is_visible::*;
use nameres::namespaces::Ns;
use nameres::scope::ScopeEntry;
use loc::SyntaxLocFileExt;
fn entry(l: &str, adj: Option<ItemScope>) -> ScopeEntry {
    let n = at(l);
    let ns = match n.kind() { SyntaxKind::FUN | SyntaxKind::SPEC_FUN => Ns::FUNCTION, SyntaxKind::STRUCT => Ns::TYPE, SyntaxKind::ENUM => Ns::ENUM, SyntaxKind::MODULE => Ns::MODULE, SyntaxKind::SCHEMA => Ns::SCHEMA, _ => Ns::NAME };
    ScopeEntry { name: l.into(), node_loc: loc::SyntaxLoc::from_file_syntax_node(&InFile::new(n.file(), n)), ns, scope_adjustment: adj }
}
fn see(l: &str, from: &str, adj: Option<ItemScope>) -> &'static str {
    let c = at(from);
    match is_visible_in_context(&Db, &entry(l, adj), InFile::new(c.file(), c)) {
        None => "visible",
        Some(ItemInvisibleReason::Private { .. }) => "private",
        Some(ItemInvisibleReason::WrongItemScope { .. }) => "scope",
        Some(ItemInvisibleReason::Unknown) => "unknown",
    }
}
fn main() {
    for (f, p) in [(0, 0), (1, 1), (2, 1), (3, 2), (4, 1)] { package(f, p) }
    file(0, "MODULE#builtins{FUN#bf CONST#bc STRUCT#bs}");
    file(1, "MODULE#m{FRIEND{PATH} FRIEND{PATH=f1} FRIEND{PATH=f2} \
        FUN#prv{BLOCK#in_m{PATH#m_path}} FUN#pub1<public> FUN#fr<public ( friend )> FUN#pk<public ( package )> FUN#sc<public ( script )> FUN#fr2<friend> FUN#pk2<package> \
        CONST#c STRUCT#s ENUM#e<public> ENUM#ep FUN#t[test_only]<public>{BLOCK#in_t{PATH#t_path}} FUN#tt[test]{PATH#tt_path} FUN#vo[verify_only]<public> FUN#after[view]<public>{PATH#after_path} SPEC_FUN#sf SCHEMA#sch ITEM_SPEC{SPEC_BLOCK_EXPR{PATH#in_spec}}} \
        MODULE#m2{FUN{PATH_EXPR{PATH#m2_path} PATH_TYPE{PATH{PATH#m2_type}} FUN[test_only]{PATH#m2_test PATH_TYPE{PATH#m2_ttype}}} FUN[verify_only]{PATH#m2_verify} USE_STMT{USE_SPECK{PATH{PATH#m2_use}}} USE_STMT[test_only]{USE_SPECK{PATH#m2_tuse}} \
            FUN[test_only]{FUN PATH#nest_p} ATTR_ITEM{PATH#m2_attr} FUN#after2{PATH#m2_after}} MODULE#tm[test_only]{FUN#tmf<public>{FUN[verify_only]{PATH#tm_v} PATH#tm_p} CONST#tmc}");
    file(2, "MODULE#f1{FUN{PATH#f1_path}} SCRIPT#s1{FUN#sf1{PATH#s1_path} CONST#sc1} SCRIPT#s2{FUN{PATH#s2_path}} PATH#nowhere");
    file(3, "MODULE#f2{FUN{PATH#f2_path}} MODULE#far{FRIEND{PATH=m} FUN{PATH#far_path} FUN#far_fr<public ( friend )>}");
    let mut bad = 0;
    let mut is = |l: &str, from: &str, want: &str| {
        let got = see(l, from, None);
        if got != want { eprintln!("{l} from {from}: {got}, wanted {want}"); bad += 1 }
    };
    for l in ["prv", "pub1", "fr", "pk", "sc", "fr2", "pk2", "c", "s", "e", "ep", "after"] { is(l, "m_path", "visible"); is(l, "t_path", "visible"); is(l, "tt_path", "visible"); is(l, "after_path", "visible"); is(l, "in_spec", "visible") }
    for l in ["pub1", "sc", "e", "m", "after"] { for f in ["m2_path", "f1_path", "f2_path", "far_path", "s1_path", "nowhere", "m2_use"] { is(l, f, if l == "m" && f != "m2_use" { "visible" } else { "visible" }) } }
    for l in ["prv", "c", "s", "ep"] { for f in ["m2_path", "f1_path", "f2_path", "far_path", "s1_path", "nowhere", "m2_test", "m2_verify"] { is(l, f, "private") } }
    for l in ["fr", "fr2"] { for (f, w) in [("m2_path", "private"), ("f1_path", "visible"), ("f2_path", "visible"), ("far_path", "private"), ("s1_path", "private"), ("m2_use", "visible")] { is(l, f, w) } }
    is("far_fr", "m_path", "visible"); is("far_fr", "f2_path", "private");
    for l in ["pk", "pk2"] { for (f, w) in [("m2_path", "visible"), ("f1_path", "visible"), ("f2_path", "private"), ("s1_path", "visible")] { is(l, f, w) } }
    for l in ["s", "ep"] { is(l, "m2_type", "visible"); is(l, "m2_use", "visible"); is(l, "m2_ttype", "visible") }
    is("prv", "m2_type", "private"); is("c", "m2_type", "private");
    is("prv", "m2_use", "private"); is("c", "m2_use", "private"); is("c", "m2_tuse", "visible"); is("prv", "m2_tuse", "private");
    for (f, w) in [("m2_path", "scope"), ("m2_test", "visible"), ("nest_p", "visible"), ("m2_verify", "scope"), ("m_path", "scope"), ("t_path", "visible"), ("tt_path", "visible"), ("m2_after", "scope"), ("m2_use", "visible"), ("in_spec", "visible"), ("tm_p", "visible"), ("tm_v", "scope")] { is("t", f, w) }
    for (f, w) in [("m2_path", "scope"), ("m2_test", "scope"), ("m2_verify", "visible"), ("m_path", "scope"), ("tm_v", "visible")] { is("vo", f, w) }
    for (f, w) in [("m2_path", "scope"), ("m2_test", "visible"), ("tm_p", "visible")] { is("tmf", f, w) }
    for l in ["sf", "sch"] { is(l, "m2_path", "scope"); is(l, "m_path", "scope"); is(l, "m2_use", "visible"); is(l, "in_spec", "visible") }
    for f in ["m2_path", "far_path", "nowhere", "s1_path"] { is("bf", f, "visible"); is("bc", f, "visible"); is("bs", f, "private") }
    is("sf1", "s1_path", "visible"); is("sc1", "s1_path", "visible"); is("sc1", "s2_path", "private"); is("sf1", "nowhere", "private");
    for l in ["prv", "t", "sf"] { is(l, "m2_attr", "visible") }
    is("in_m", "m2_path", "unknown");
    for (l, a, f, w) in [("pub1", ItemScope::Test, "m2_path", "scope"), ("pub1", ItemScope::Test, "m2_test", "visible"), ("t", ItemScope::Verify, "m2_test", "visible"), ("pub1", ItemScope::Main, "m2_path", "visible")] {
        let got = see(l, f, Some(a));
        if got != w { eprintln!("{l} adjusted to {a} from {f}: {got}, wanted {w}"); bad += 1 }
    }
    let c = at("m2_path");
    let v: Vec<String> = ["prv", "pub1", "in_m", "t", "pk"].map(|l| check_if_visible(&Db, entry(l, None), InFile::new(c.file(), c))).to_vec().into_visible_entries().into_iter().map(|e| e.name).collect();
    if v != ["pub1", "pk"] { eprintln!("visible of five: {v:?}"); bad += 1 }
    std::process::exit((bad > 0) as i32)
}
