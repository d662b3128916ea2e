import sys; sys.path.insert(0,'/verif/tools')
from mut import run
S='crates/aptos-language-server/src/'
M=S+'main_loop.rs'; FC=S+'file_changes.rs'; RL=S+'reload.rs'; DP=S+'handlers/dispatch.rs'; GS=S+'global_state.rs'
def b(i,f,l,*e): run(i,[(f,)+x for x in e],l,'bug')
# L09
b('L09',FC,'manifest created only',('vfs::Change::Modify(_, _) if reload::is_manifest_file(&changed_file_path) => {','vfs::Change::Modify(_, _) if reload::is_manifest_file(&changed_file_path) && notable_changes.files_created.is_empty() => {'))
b('L09',FC,'dedup text',('            changes.change_file(file_id, text);','            if text.is_some() {\n                changes.change_file(file_id, text);\n            }'))
b('L09',FC,'roots after',('            changes.set_package_roots(new_package_roots);','            if !new_package_roots.is_empty() {\n                changes.set_package_roots(new_package_roots);\n            }'))
b('L09',FC,'le only if crlf',('                    line_endings_map.insert(file_id, line_endings);','                    line_endings_map.entry(file_id).or_insert(line_endings);'))
b('L09',FC,'has_changes',('            || !self.files_deleted.is_empty()\n',''))
b('L09',FC,'has_changes and',('!self.files_created.is_empty()\n            || !self.files_deleted.is_empty()','!self.files_created.is_empty() && self.files_deleted.is_empty()\n            || self.files_created.is_empty() && !self.files_deleted.is_empty()'))
b('L09',FC,'early none',('        let changed_files = vfs.take_changes();\n        if changed_files.is_empty() {','        let changed_files = vfs.take_changes();\n        if changed_files.len() < 1 || self.all_packages.is_empty() {'))
b('L09',FC,'lossy',('vfs::Change::Modify(bytes, _) => String::from_utf8(bytes).ok(),','vfs::Change::Modify(bytes, _) => String::from_utf8(bytes).ok().filter(|it| !it.is_empty()),'))
b('L09',FC,'returns structure',('        true\n    }\n\n    pub(crate) fn fetch_pending','        needs_to_refresh_packages\n    }\n\n    pub(crate) fn fetch_pending'))
b('L09',FC,'skip unresolved',('            if let Some(changed_file_path) = vfs.file_path(changed_file.file_id).as_path() {','            if !vfs.exists(changed_file.file_id) {\n                continue;\n            }\n            if let Some(changed_file_path) = vfs.file_path(changed_file.file_id).as_path() {'))
b('L09',M,'refresh on became',('let ask_for_client_refresh = became_fully_loaded || any_file_changed;','let ask_for_client_refresh = became_fully_loaded;'))
b('L09',M,'no lens refresh',('                self.ask_for_codelens_refresh();\n',''))
b('L06',M,'loaded overrides',('(is_changed || vfs.file_id(&path).is_none())','(is_changed && vfs.file_id(&path).is_none())'))
b('L06',M,'opened overwritten',('!self.opened_files.contains(&path) && (is_changed','(!self.opened_files.contains(&path) || is_changed) && (is_changed'))
b('L09',M,'not while loading',('            any_file_changed = self.process_pending_file_changes()','            any_file_changed = self.is_project_fully_loaded() && self.process_pending_file_changes()'))
# L08
b('L08',M,'progress report ends',('let is_vfs_load_ended = state == Progress::End;','let is_vfs_load_ended = n_done == n_total;'))
b('L08',M,'version max',('self.vfs_progress_config_version = config_version;','self.vfs_progress_config_version = self.vfs_config_version;'))
b('L08',M,'in progress only started',('self.vfs_sync_in_progress = !is_vfs_load_ended;','self.vfs_sync_in_progress = state == Progress::Begin;'))
b('L08',M,'version on end',('                self.vfs_progress_config_version = config_version;\n\n                let is_vfs_load_ended = state == Progress::End;\n','                let is_vfs_load_ended = state == Progress::End;\n                if self.vfs_synced_once {\n                    self.vfs_progress_config_version = config_version;\n                }\n'))
b('L08',RL,'version not bumped if same',('        self.vfs_config_version += 1;\n','        if !watch.is_empty() || switching_from_empty_workspace {\n            self.vfs_config_version += 1;\n        }\n'))
b('L08',RL,'bump after',('        self.vfs_config_version += 1;\n',''),('        self.package_root_config = project_folders.package_root_config;\n','        self.vfs_config_version += 1;\n        self.package_root_config = project_folders.package_root_config;\n'))
b('L08',RL,'failed replaces when forced',('            if !switching_from_empty_workspace {','            if !switching_from_empty_workspace && !*force_reload_package_deps {'))
b('L08',RL,'no return',('                    );\n                }\n                return;','                    );\n                    return;\n                }'))
b('L08',RL,'packages first',('        if self.is_package_loading_error() {\n            // tracing','        self.all_packages = Arc::new(packages_from_fs.valid_packages().to_vec());\n        if self.is_package_loading_error() {\n            // tracing'))
# L02 / L03
b('L03',M,'shutdown after reply',('            } if this.shutdown_requested => {','            } if this.shutdown_requested && req.method != "textDocument/formatting" => {'))
b('L03',M,'shutdown flag',('            s.shutdown_requested = true;','            s.shutdown_requested = s.is_project_fully_loaded();'))
b('L03',M,'code',('lsp_server::ErrorCode::InvalidRequest as i32,\n                    "Shutdown','lsp_server::ErrorCode::RequestFailed as i32,\n                    "Shutdown'))
