import sys; sys.path.insert(0,'/verif/tools')
from mut import run
F='crates/aptos-language-server/src/reload.rs'
def b(l,*e): run('L17',[(F,)+x for x in e],l,'bug')
def o(l,*e): run('L17',[(F,)+x for x in e],l,'ok')
b('no slash',('{base}/**/*.move','{base}**/*.move'))
b('shallow',('{base}/**/*.move','{base}/*.move'))
b('rel shallow',('(it.to_owned(), "**/*.move")','(it.to_owned(), "*.move")'))
b('rel toml',('(it.to_owned(), "**/*.move")','(it.to_owned(), "**/*.toml")'))
b('foreign',('.filter(|it| it.is_local())','.filter(|it| !it.is_local())'))
b('first dir',('''                        .source_dirs()
                        .iter()
                        .map(|base| format''','''                        .source_dirs()
                        .iter()
                        .take(1)
                        .map(|base| format'''))
b('skip dir',('''                        .source_dirs()
                        .iter()
                        .map(|it| (it''','''                        .source_dirs()
                        .iter()
                        .skip(1)
                        .map(|it| (it'''))
b('manifests local',('''            packages
                .iter()
                .map(|pkg| pkg.manifest_path())''','''            packages
                .iter()
                .filter(|it| it.is_local())
                .map(|pkg| pkg.manifest_path())'''))
b('manifests lost',('watchers.extend(','let mut watchers2: Vec<FileSystemWatcher> = vec![]; watchers2.extend('))
b('kind',('''glob_pattern: lsp_types::GlobPattern::Pattern(glob_pattern),
                    kind: None,''','''glob_pattern: lsp_types::GlobPattern::Pattern(glob_pattern),
                    kind: Some(lsp_types::WatchKind::Change),'''))
b('method',('method: "workspace/didChangeWatchedFiles".to_owned()','method: "workspace/didChangeConfiguration".to_owned()'))
b('support',('.did_change_watched_files_relative_pattern_support()','.did_change_watched_files_relative_pattern_support().not()'),('let mut watchers: Vec<FileSystemWatcher> = if self','use std::ops::Not; let mut watchers: Vec<FileSystemWatcher> = if self'))
b('server none',('FilesWatcher::Server => project_folders.watch,','FilesWatcher::Server => vec![],'))
b('client not asked',('self.setup_client_file_watchers(&packages_from_fs);\n',''))
b('client old',('self.setup_client_file_watchers(&packages_from_fs);','let old = self.all_packages.clone(); self.setup_client_file_watchers(&old);'))
b('early out',('        let registration_options =','        if watchers.len() < 2 { return; }\n        let registration_options ='))
o('dirs var',('''                    folder_root
                        .source_dirs()
                        .iter()
                        .map(|base| format!("{base}/**/*.move"))
                        .collect::<Vec<_>>()''','''                    let dirs = folder_root.source_dirs();
                    dirs.into_iter().map(|d| format!("{}/**/*.move", d)).collect::<Vec<_>>()'''))
o('loop manifests',('''        watchers.extend(
            packages
                .iter()
                .map(|pkg| pkg.manifest_path())
                .map(|glob_pattern| FileSystemWatcher {
                    glob_pattern: lsp_types::GlobPattern::Pattern(glob_pattern.to_string()),
                    kind: None,
                }),
        );''','''        for pkg in packages {
            watchers.push(FileSystemWatcher {
                glob_pattern: lsp_types::GlobPattern::Pattern(pkg.manifest_path().to_string()),
                kind: None,
            });
        }'''))
o('loop all',('''            local_folder_roots
                .flat_map(|folder_root| {
                    folder_root
                        .source_dirs()
                        .iter()
                        .map(|base| format!("{base}/**/*.move"))
                        .collect::<Vec<_>>()
                })
                .map(|glob_pattern| FileSystemWatcher {
                    glob_pattern: lsp_types::GlobPattern::Pattern(glob_pattern),
                    kind: None,
                })
                .collect()''','''            let mut out = vec![];
            for root in local_folder_roots {
                for dir in root.source_dirs() {
                    let glob_pattern = format!("{dir}/**/*.move");
                    out.push(FileSystemWatcher { glob_pattern: lsp_types::GlobPattern::Pattern(glob_pattern), kind: None });
                }
            }
            out'''))
o('collect first',('''            .filter(|it| it.is_local())
            .map(|pkg| pkg.to_folder_root());''','''            .filter(|it| it.is_local())
            .map(|pkg| pkg.to_folder_root())
            .collect::<Vec<_>>()
            .into_iter();'''))
o('helper',('        let registration_options = lsp_types::DidChangeWatchedFilesRegistrationOptions { watchers };\n','        self.register_watchers(watchers);\n    }\n\n    fn register_watchers(&mut self, watchers: Vec<FileSystemWatcher>) {\n        let registration_options = lsp_types::DidChangeWatchedFilesRegistrationOptions { watchers };\n'))
o('manifest first',('let mut watchers: Vec<FileSystemWatcher> = if self','let use_relative = self.config.did_change_watched_files_relative_pattern_support();\n        let mut watchers: Vec<FileSystemWatcher> = if use_relative || self'))
o('filter_map',('''            .filter(|it| it.is_local())
            .map(|pkg| pkg.to_folder_root());''','''            .filter_map(|pkg| pkg.is_local().then(|| pkg.to_folder_root()));'''))
o('const glob',('(it.to_owned(), "**/*.move")','(it.to_owned(), ALL_MOVE)'),('use crate::config::FilesWatcher;','use crate::config::FilesWatcher;\nconst ALL_MOVE: &str = "**/*.move";'))
o('if let watcher',('''        let watch = match self.config.files().watcher {
            FilesWatcher::Server => project_folders.watch,
            FilesWatcher::Client => {
                self.setup_client_file_watchers(&packages_from_fs);
                vec![]
            }
        };''','''        let mut watch = vec![];
        if matches!(self.config.files().watcher, FilesWatcher::Client) {
            self.setup_client_file_watchers(&packages_from_fs);
        } else {
            watch = project_folders.watch;
        }'''))
o('join',('.map(|base| format!("{base}/**/*.move"))','.map(|base| base.join("**/*.move").to_string())'))
o('fold ext',('''        watchers.extend(
            packages''','''        let manifests: Vec<_> = packages.iter().collect();
        watchers.extend(
            manifests'''))
