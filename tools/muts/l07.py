N='crates/aptos-language-server/src/handlers/notification.rs'; M='crates/aptos-language-server/src/main_loop.rs'; Q='crates/aptos-language-server/src/op_queue.rs'; R='crates/aptos-language-server/src/reload.rs'; F='crates/aptos-language-server/src/file_changes.rs'
B='bug'; G='ok'
run('L07',[(Q,"        if self.op_in_progress {\n            return None;\n        }\n","")],'overlap',B)
run('L07',[(Q,"self.op_requested = Some((cause, args));","if self.op_requested.is_none() {\n            self.op_requested = Some((cause, args));\n        }")],'first wins',B)
run('L07',[(Q,"self.op_requested = Some((cause, args));","if !self.op_in_progress {\n            self.op_requested = Some((cause, args));\n        }")],'lost while running',B)
run('L07',[(Q,"        self.op_in_progress = false;\n        self.last_op_result","        self.op_in_progress = false;\n        self.op_requested = None;\n        self.last_op_result")],'completed forgets',B)
run('L07',[(Q,"        self.op_in_progress = self.op_requested.is_some();\n        self.op_requested.take()","        let next = self.op_requested.take();\n        self.op_in_progress = next.is_some();\n        next")],'refactor',G)
run('L07',[(Q,"        if self.op_in_progress {\n            return None;\n        }\n        self.op_in_progress = self.op_requested.is_some();\n        self.op_requested.take()","        match (self.op_in_progress, self.op_requested.take()) {\n            (false, Some(op)) => {\n                self.op_in_progress = true;\n                Some(op)\n            }\n            (_, other) => {\n                self.op_requested = other;\n                None\n            }\n        }")],'refactor match',G)
run('L07',[(Q,"self.last_op_result = Some(result);","self.last_op_result.get_or_insert(result);")],'stale result',B)
run('L07',[(M,"            self.load_aptos_packages_from_fs(cause, force_reload_package_deps);\n        }\n\n        self.update_status","            if !self.vfs_sync_in_progress {\n                self.load_aptos_packages_from_fs(cause, force_reload_package_deps);\n            }\n        }\n\n        self.update_status")],'token lost',B)
run('L07',[(M,"self.load_aptos_packages_from_fs(cause, force_reload_package_deps);","self.load_aptos_packages_from_fs(cause, false);")],'flag lost',B)
run('L07',[(M,'self.scheduled_switch = Some("loaded aptos packages from fs".to_owned());','if self.load_packages_error().is_none() { self.scheduled_switch = Some("loaded aptos packages from fs".to_owned()); }')],'switch only ok',B)
run('L07',[(R,"                let loaded_packages = load_from_fs::load_aptos_packages(discovered_manifests);","                if discovered_manifests.is_empty() {\n                    return;\n                }\n                let loaded_packages = load_from_fs::load_aptos_packages(discovered_manifests);")],'no end',B)
run('L07',[(M,"        if !self.vfs_sync_in_progress {\n            if let Some(switch_cause) = self.scheduled_switch.take() {\n                self.switch_workspaces(switch_cause);\n            }","        if let Some(switch_cause) = self.scheduled_switch.take() {\n            if !self.vfs_sync_in_progress {\n                self.switch_workspaces(switch_cause);\n            }\n        }\n        if !self.vfs_sync_in_progress {")],'switch dropped',B)
run('L07',[(N,"                state.load_aptos_packages_queue.request_op(\n                    format!(\"manifest file change saved {saved_path}\"),\n                    LoadPackagesRequest {\n                        force_reload_package_deps: false,\n                    },\n                );","                if !state.load_aptos_packages_queue.op_in_progress() {\n                state.load_aptos_packages_queue.request_op(\n                    format!(\"manifest file change saved {saved_path}\"),\n                    LoadPackagesRequest {\n                        force_reload_package_deps: false,\n                    },\n                );}")],'save while loading ignored',B)
run('L08',[(R,"self.vfs_progress_config_version >= self.vfs_config_version","self.vfs_progress_config_version <= self.vfs_config_version")],'version cmp',B)
run('L08',[(R,"            && !self.load_aptos_packages_queue.op_in_progress()\n","")],'no op',B)
run('L08',[(R,"""        !self.vfs_sync_in_progress
            && !self.load_aptos_packages_queue.op_in_progress()
            && self.vfs_progress_config_version >= self.vfs_config_version""","""        if self.vfs_sync_in_progress || self.load_aptos_packages_queue.op_in_progress() {
            return false;
        }
        !(self.vfs_progress_config_version < self.vfs_config_version)""")],'refactor',G)
run('L08',[(R,"        self.vfs_config_version += 1;\n",""),(R,"        self.package_root_config = project_folders.package_root_config;","        self.vfs_config_version += 1;\n        self.package_root_config = project_folders.package_root_config;")],'increment after',B)
run('L08',[(M,"                self.vfs_progress_config_version = config_version;\n",""),(M,"                if is_vfs_load_ended {\n","                if is_vfs_load_ended {\n                    self.vfs_progress_config_version = config_version;\n")],'version at end only',B)
run('L08',[(M,"self.vfs_sync_in_progress = !is_vfs_load_ended;","self.vfs_sync_in_progress = state == Progress::Begin;")],'begin only',B)
run('L08',[(R,"            // already have a workspace, let's keep it instead of loading invalid state\n            if !switching_from_empty_workspace {","            if !switching_from_empty_workspace && *force_reload_package_deps {")],'broken replaces',B)
run('L08',[(R,"quiescent: self.is_project_fully_loaded(),","quiescent: self.vfs_initialized_and_loaded(),")],'quiescent',B)
run('L09',[(F,"""        for (file_id, text_with_line_endings) in files_with_text {
            let text = match text_with_line_endings {
                Some((text, line_endings)) => {
                    line_endings_map.insert(file_id, line_endings);
                    Some(text)
                }
                None => None,
            };
            changes.change_file(file_id, text);
        }""","""        for (file_id, text_with_line_endings) in files_with_text {
            if let Some((text, line_endings)) = text_with_line_endings {
                line_endings_map.entry(file_id).or_insert(line_endings);
                changes.change_file(file_id, Some(text));
            } else {
                changes.change_file(file_id, None);
            }
        }""")],'endings stale',B)
run('L09',[(F,"""            let text = match text_with_line_endings {
                Some((text, line_endings)) => {
                    line_endings_map.insert(file_id, line_endings);
                    Some(text)
                }
                None => None,
            };
            changes.change_file(file_id, text);
""","""            let text = text_with_line_endings.map(|(text, line_endings)| {
                line_endings_map.insert(file_id, line_endings);
                text
            });
            changes.change_file(file_id, text);
""")],'refactor map',G)
run('L09',[(F,"                    vfs::Change::Delete => notable_changes.files_deleted.push(changed_file_path),\n","                    vfs::Change::Delete => (),\n")],'deleted unnoted',B)
run('L09',[(F,"            || !self.files_deleted.is_empty()\n","")],'has_changes',B)
run('L09',[(F,"""        !self.files_created.is_empty()
            || !self.files_deleted.is_empty()
            || !self.manifests_changed.is_empty()""","""        let nothing = self.files_created.is_empty()
            && self.files_deleted.is_empty()
            && self.manifests_changed.is_empty();
        !nothing""")],'has_changes refactor',G)
run('L09',[(F,"vfs::Change::Modify(bytes, _) => String::from_utf8(bytes).ok(),","vfs::Change::Modify(bytes, _) => Some(String::from_utf8_lossy(&bytes).into_owned()),")],'lossy',G)
run('L09',[(F,"""            let file_text = match changed_file.change {""","""            if matches!(changed_file.change, vfs::Change::Modify(..)) && changed_file.change_is_empty() {
                continue;
            }
            let file_text = match changed_file.change {""")],'skip some',B)
run('L09',[(F,"        self.analysis_host.apply_change(changes);\n\n        if needs","        if needs_to_refresh_packages { self.analysis_host.apply_change(changes); }\n\n        if needs")],'apply only structure',B)
