#![allow(dead_code, unused)]
use std::sync::Arc;
macro_rules! nothing { ($($t:tt)*) => { () } }
mod tracing { pub(crate) use nothing as info; pub(crate) use nothing as error; pub(crate) use nothing as warn; }
mod lsp_types {
    #[derive(Clone, Debug)] pub struct FileSystemWatcher { pub glob_pattern: GlobPattern, pub kind: Option<u8> }
    #[derive(Clone, Debug)] pub enum GlobPattern { Pattern(String), RelativePattern(RelativePattern) }
    #[derive(Clone, Debug)] pub struct RelativePattern { pub base_uri: BaseUri, pub pattern: String }
    #[derive(Clone, Debug)] pub enum BaseUri { Uri(Uri) }
    #[derive(Clone, Debug)] pub struct Uri(pub String);
    impl Uri { pub fn from_file_path(p: impl ToString) -> Option<Uri> { Some(Uri(p.to_string())) } }
    #[derive(Clone, Debug)] pub struct DidChangeWatchedFilesRegistrationOptions { pub watchers: Vec<FileSystemWatcher> }
    #[derive(Clone, Debug)] pub struct Registration { pub id: String, pub method: String, pub register_options: Option<DidChangeWatchedFilesRegistrationOptions> }
    #[derive(Clone, Debug)] pub struct RegistrationParams { pub registrations: Vec<Registration> }
    pub struct RegistrationRequest;
}
use lsp_types::FileSystemWatcher;
mod serde_json { pub fn to_value<T>(t: T) -> Result<T, ()> { Ok(t) } }
mod vfs { pub mod loader { #[derive(Clone, Debug)] pub struct Config { pub load: Vec<String>, pub watch: Vec<usize>, pub version: u32 } } }
#[derive(Clone, Debug, PartialEq)] pub struct AptosPackage { root: String, local: bool, manifest: String }
pub struct Root(String);
impl AptosPackage {
    pub fn is_local(&self) -> bool { self.local }
    pub fn manifest_path(&self) -> &str { &self.manifest }
    pub fn to_folder_root(&self) -> Root { Root(self.root.clone()) }
    pub fn display_root(&self) -> String { self.root.clone() }
}
impl Root { pub fn source_dirs(&self) -> Vec<String> { ["sources", "tests", "scripts"].iter().map(|d| format!("{}/{d}", self.0)).collect() } }
pub struct ProjectFolders { load: Vec<String>, watch: Vec<usize>, package_root_config: usize }
impl ProjectFolders { pub fn new(p: &[AptosPackage]) -> Self { Self { load: p.iter().map(|x| x.root.clone()).collect(), watch: (0..p.len()).collect(), package_root_config: p.len() } } }
#[derive(Clone, Copy)] pub enum FilesWatcher { Client, Server }
pub struct Files { watcher: FilesWatcher }
pub struct Config { relative: bool, watcher: FilesWatcher }
impl Config {
    fn did_change_watched_files_relative_pattern_support(&self) -> bool { self.relative }
    fn files(&self) -> Files { Files { watcher: self.watcher } }
}
pub struct Loaded(Vec<AptosPackage>);
impl Loaded { fn valid_packages(&self) -> Vec<AptosPackage> { self.0.clone() } }
pub struct LoadPackagesResponse { packages_from_fs: Loaded, force_reload_package_deps: bool }
pub struct Queue(LoadPackagesResponse);
impl Queue { fn last_op_result(&self) -> Option<&LoadPackagesResponse> { Some(&self.0) } }
pub struct Loader { handle: Handle }
pub struct Handle(Vec<vfs::loader::Config>);
impl Handle { fn set_config(&mut self, c: vfs::loader::Config) { self.0.push(c) } }
type Cause = String;
pub struct GlobalState { config: Config, load_aptos_packages_queue: Queue, all_packages: Arc<Vec<AptosPackage>>, vfs_config_version: u32, vfs_loader: Loader, package_root_config: usize, sent: Vec<lsp_types::RegistrationParams> }
impl GlobalState {
    fn is_package_loading_error(&self) -> bool { false }
    fn recreate_package_graph(&mut self, _: String) {}
    fn send_request<R>(&mut self, p: lsp_types::RegistrationParams, _: fn(&mut GlobalState, ())) { self.sent.push(p) }
}
include!(concat!(env!("W"), "/real.rs"));
fn glob(pat: &str, path: &str) -> bool {
    match pat.strip_prefix("**/") {
        Some(rest) => glob(rest, path) || path.match_indices('/').any(|(i, _)| glob(rest, &path[i + 1..])),
        None => match pat.find('*') {
            Some(i) => path.strip_prefix(&pat[..i]).is_some_and(|r| (0..=r.len()).any(|k| !r[..k].contains('/') && glob(&pat[i + 1..], &r[k..]))) || (pat[..i].ends_with('/') && pat[i..].starts_with("**/") && path.strip_prefix(&pat[..i]).is_some_and(|r| glob(&pat[i..], r))),
            None => pat == path,
        },
    }
}
fn watched(ws: &[FileSystemWatcher], path: &str) -> bool {
    ws.iter().any(|w| w.kind.is_none_or(|k| k == 7) && match &w.glob_pattern {
        lsp_types::GlobPattern::Pattern(p) => glob(p, path),
        lsp_types::GlobPattern::RelativePattern(r) => { let lsp_types::BaseUri::Uri(b) = &r.base_uri; path.strip_prefix(&format!("{}/", b.0)).is_some_and(|x| glob(&r.pattern, x)) }
    })
}
fn main() {
    let pk = |n: &str, local| AptosPackage { root: format!("/{n}"), local, manifest: format!("/{n}/Move.toml") };
    let mut bad = 0;
    for relative in [false, true] { for watcher in [FilesWatcher::Client, FilesWatcher::Server] {
        let first = vec![pk("a", true), pk("dep", false)];
        let all = vec![pk("a", true), pk("dep", false), pk("b", true)];
        let mut s = GlobalState { config: Config { relative, watcher }, load_aptos_packages_queue: Queue(LoadPackagesResponse { packages_from_fs: Loaded(first.clone()), force_reload_package_deps: false }), all_packages: Arc::new(vec![]), vfs_config_version: 0, vfs_loader: Loader { handle: Handle(vec![]) }, package_root_config: 0, sent: vec![] };
        for packages in [first, all] {
            s.load_aptos_packages_queue.0.packages_from_fs = Loaded(packages.clone());
            s.switch_workspaces("x".to_string());
            let ws: Vec<FileSystemWatcher> = s.sent.last().into_iter().flat_map(|p| &p.registrations).filter(|r| r.method == "workspace/didChangeWatchedFiles").flat_map(|r| r.register_options.clone().unwrap().watchers).collect();
            let conf = s.vfs_loader.handle.0.last().unwrap().clone();
            for (i, p) in packages.iter().enumerate() {
                for f in ["sources/m.move", "sources/deep/er/m.move", "tests/t.move", "scripts/s/x.move", "Move.toml"] {
                    let path = format!("{}/{f}", p.root);
                    let ok = match watcher { FilesWatcher::Server => conf.watch.contains(&i), _ => watched(&ws, &path) };
                    if !ok && (p.local || f == "Move.toml") { println!("FAILED: {path} is not watched (relative={relative}, {} packages)", packages.len()); bad += 1; }
                }
            }
        }
    } }
    std::process::exit((bad > 0) as i32);
}
