pub mod stdx {
    pub mod itertools {
        pub trait Itertools: Iterator {
            fn sorted_by<F: FnMut(&Self::Item, &Self::Item) -> std::cmp::Ordering>(self, f: F) -> std::vec::IntoIter<Self::Item> where Self: Sized { let mut v: Vec<_> = self.collect(); v.sort_by(f); v.into_iter() }
            fn format(self, sep: &str) -> String where Self: Sized, Self::Item: std::fmt::Display { self.map(|x| x.to_string()).collect::<Vec<_>>().join(sep) }
            fn join(&mut self, sep: &str) -> String where Self: Sized, Self::Item: std::fmt::Display { self.map(|x| x.to_string()).collect::<Vec<_>>().join(sep) }
            fn tuple_windows<T: Pair<Self::Item>>(self) -> std::vec::IntoIter<T> where Self: Sized, Self::Item: Clone { let v: Vec<_> = self.collect(); v.windows(2).map(|w| T::of(w[0].clone(), w[1].clone())).collect::<Vec<_>>().into_iter() }
            fn format_with<F>(self, sep: &str, mut f: F) -> String where Self: Sized, F: FnMut(Self::Item, &mut dyn FnMut(&dyn std::fmt::Display) -> std::fmt::Result) -> std::fmt::Result {
                let mut out = String::new();
                for (i, x) in self.enumerate() { if i > 0 { out += sep; } let _ = f(x, &mut |d| { out += &d.to_string(); Ok(()) }); }
                out
            }
            fn collect_vec(self) -> Vec<Self::Item> where Self: Sized { self.collect() }
        }
        impl<T: Iterator> Itertools for T {}
        pub trait Pair<A> { fn of(a: A, b: A) -> Self; }
        impl<A> Pair<A> for (A, A) { fn of(a: A, b: A) -> Self { (a, b) } }
    }
    macro_rules! format_to_acc_ { ($b:expr, $($t:tt)*) => { { use std::fmt::Write as _; let mut b = $b; let _ = write!(b, $($t)*); b } } }
    pub(crate) use format_to_acc_ as format_to_acc;
}
pub mod tracing {
    macro_rules! nothing { ($($t:tt)*) => { () } }
    pub(crate) use nothing as info;
    pub(crate) use nothing as warn;
    pub(crate) use nothing as error;
    pub(crate) use nothing as debug;
}
pub mod semver {
    #[derive(Clone, Debug)] pub struct Version(String);
    impl Version { pub fn parse(s: &str) -> Result<Version, ()> { Ok(Version(s.to_string())) } }
}
pub mod num_cpus { pub fn get_physical() -> usize { 1 } }
pub mod pathsearch { pub fn find_executable_in_path(_: &str) -> Option<std::path::PathBuf> { None } }
pub mod paths { pub type AbsPath = camino::Utf8Path; pub type AbsPathBuf = camino::Utf8PathBuf; }
pub mod vfs { pub use super::paths::*; }
pub mod project_model {
    #[derive(Clone, Debug)] pub struct DiscoveredManifest;
    impl DiscoveredManifest { pub fn discover_all(_: &[super::vfs::AbsPathBuf]) -> Vec<DiscoveredManifest> { vec![] } }
}
pub mod ide_db {
    #[derive(Clone, Copy, Debug, PartialEq, Eq)] pub struct AllowSnippets;
    impl AllowSnippets { pub fn new(v: impl std::borrow::Borrow<bool>) -> Option<Self> { v.borrow().then_some(AllowSnippets) } }
    pub mod assist_config { #[derive(Clone, Debug)] pub struct AssistConfig { pub allowed: Option<Vec<u8>> } }
}
#[path = "."]
pub mod ide_diagnostics { #[path = "shim/idc.rs"] pub mod config; }
#[path = "."]
pub mod ide_completion { #[path = "shim/icc.rs"] pub mod config; }
pub mod ide {
    pub mod annotations { #[derive(Debug, PartialEq)] pub enum AnnotationLocation { AboveName, AboveWholeItem } }
    pub mod inlay_hints {
        #[derive(Debug)] pub struct InlayFieldsToResolve;
        impl InlayFieldsToResolve { pub fn from_client_capabilities<T>(_: &T) -> Self { Self } }
        #[derive(Debug)]
        pub struct InlayHintsConfig { pub render_colons: bool, pub type_hints: bool, pub tuple_type_hints: bool, pub parameter_hints: bool, pub range_exclusive_hints: bool, pub hide_closure_parameter_hints: bool, pub fields_to_resolve: InlayFieldsToResolve }
    }
}
pub mod lsp_types {
    #[derive(Clone, Debug, Default)] pub struct ClientCapabilities {
        pub experimental: Option<serde_json::Value>, pub text_document: Option<Td>,
    }
    #[derive(Clone, Debug, Default)] pub struct Td { pub inlay_hint: Option<Ih> }
    #[derive(Clone, Debug, Default)] pub struct Ih { pub resolve_support: Option<Rs> }
    #[derive(Clone, Debug, Default)] pub struct Rs { pub properties: Vec<String> }
    #[derive(Clone, Debug)] pub struct ClientInfo { pub name: String, pub version: Option<String> }
}
