L='crates/aptos-language-server/src/'; N=L+'handlers/notification.rs'; F=L+'file_changes.rs'; R=L+'reload.rs'; Q=L+'op_queue.rs'
LIST=[
 dict(l='open: let-else, text var', k='ok', e=[(N,'''    if let Ok(path) = from_proto::vfs_path(&params.text_document.uri) {
        let already_exists = state
            .opened_files
            .insert(
                path.clone(),
                DocumentData::new(
                    params.text_document.version,
                    params.text_document.text.clone().into_bytes(),
                ),
            )
            .is_err();
        if already_exists {
            tracing::error!("duplicate DidOpenTextDocument: {}", path);
        }

        state
            .vfs
            .write()
            .0
            .set_file_contents(path, Some(params.text_document.text.into_bytes()));
    }
    Ok(())''','''    let Ok(path) = from_proto::vfs_path(&params.text_document.uri) else {
        return Ok(());
    };
    let contents = params.text_document.text.into_bytes();
    let document = DocumentData::new(params.text_document.version, contents.clone());
    if state.opened_files.insert(path.clone(), document).is_err() {
        tracing::error!("duplicate DidOpenTextDocument: {}", path);
    }
    state.vfs.write().0.set_file_contents(path, Some(contents));
    Ok(())''')]),
 dict(l='change: helper for text', k='ok', e=[(N,'''        *version = params.text_document.version;

        let new_contents = apply_document_changes(
            state.config.negotiated_encoding(),
            std::str::from_utf8(data).unwrap(),
            params.content_changes,
        )
        .into_bytes();
        if *data != new_contents {
            data.clone_from(&new_contents);
            state.vfs.write().0.set_file_contents(path, Some(new_contents));
        }''','''        let encoding = state.config.negotiated_encoding();
        let old_text = std::str::from_utf8(data).unwrap();
        let new_text = apply_document_changes(encoding, old_text, params.content_changes);
        let new_contents = new_text.into_bytes();

        *version = params.text_document.version;
        if *data == new_contents {
            return Ok(());
        }
        *data = new_contents.clone();
        let vfs = &mut state.vfs.write().0;
        vfs.set_file_contents(path, Some(new_contents));''')]),
 dict(l='close: match', k='ok', e=[(N,'''        if state.opened_files.remove(&path).is_err() {
            tracing::error!("orphan DidCloseTextDocument: {}", path);
        }
''','''        match state.opened_files.remove(&path) {
            Ok(_) => (),
            Err(_) => tracing::error!("orphan DidCloseTextDocument: {}", path),
        }
''')]),
 dict(l='save: helper', k='ok', e=[(N,'''        if let Some(saved_path) = vfs_path.as_path() {
            if reload::is_manifest_file(saved_path) {
                state.load_aptos_packages_queue.request_op(
                    format!("manifest file change saved {saved_path}"),
                    LoadPackagesRequest {
                        force_reload_package_deps: false,
                    },
                );
            }
        }''','''        let manifest_path = vfs_path.as_path().filter(|it| reload::is_manifest_file(it));
        if let Some(manifest_path) = manifest_path {
            let cause = format!("manifest file change saved {manifest_path}");
            let req = LoadPackagesRequest {
                force_reload_package_deps: false,
            };
            state.load_aptos_packages_queue.request_op(cause, req);
        }''')]),
 dict(l='folders: filter_map chain to helper', k='ok', e=[(N,'''    for workspace_folder in params.event.removed {
        let Ok(path) = workspace_folder.uri.to_file_path() else {
            continue;
        };
        let Ok(path) = Utf8PathBuf::from_path_buf(path) else {
            continue;
        };
        let Ok(path) = AbsPathBuf::try_from(path) else {
            continue;
        };
        config.remove_client_ws_root(&path);
    }''','''    let removed = params
        .event
        .removed
        .iter()
        .filter_map(|it| it.uri.to_file_path().ok())
        .filter_map(|it| Utf8PathBuf::from_path_buf(it).ok())
        .filter_map(|it| AbsPathBuf::try_from(it).ok());
    for path in removed {
        config.remove_client_ws_root(&path);
    }''')]),
 dict(l='fetch: combined match + inserted in one', k='ok', e=[(F,'''            let text = match text_with_line_endings {
                Some((text, line_endings)) => {
                    line_endings_map.insert(file_id, line_endings);
                    Some(text)
                }
                None => None,
            };
            changes.change_file(file_id, text);''','''            let text = text_with_line_endings.map(|(text, line_endings)| {
                line_endings_map.insert(file_id, line_endings);
                text
            });
            changes.change_file(file_id, text);''')]),
 dict(l='fetch: or-pattern', k='ok', e=[(F,'''                vfs::Change::Create(bytes, _) => String::from_utf8(bytes).ok(),
                vfs::Change::Modify(bytes, _) => String::from_utf8(bytes).ok(),
                _ => None,''','''                vfs::Change::Create(bytes, _) | vfs::Change::Modify(bytes, _) => String::from_utf8(bytes).ok(),
                vfs::Change::Delete => None,''')]),
 dict(l='fetch: structure change extracted', k='ok', e=[(F,'''                let changed_file_path = changed_file_path.to_path_buf();
                match &changed_file.change {
                    vfs::Change::Create(_, _) => notable_changes.files_created.push(changed_file_path),
                    vfs::Change::Delete => notable_changes.files_deleted.push(changed_file_path),
                    vfs::Change::Modify(_, _) if reload::is_manifest_file(&changed_file_path) => {
                        notable_changes.manifests_changed.push(changed_file_path)
                    }
                    _ => (),
                }''','''                notable_changes.record(changed_file_path.to_path_buf(), &changed_file.change);'''),(F,'''    pub fn has_changes(&self)''','''    fn record(&mut self, path: AbsPathBuf, change: &vfs::Change) {
        match change {
            vfs::Change::Create(_, _) => self.files_created.push(path),
            vfs::Change::Delete => self.files_deleted.push(path),
            vfs::Change::Modify(_, _) => {
                if reload::is_manifest_file(&path) {
                    self.manifests_changed.push(path);
                }
            }
        }
    }

    pub fn has_changes(&self)''')]),
 dict(l='has_changes any', k='ok', e=[(F,'''        !self.files_created.is_empty()
            || !self.files_deleted.is_empty()
            || !self.manifests_changed.is_empty()''','''        let Self { files_created, files_deleted, manifests_changed } = self;
        let unchanged = files_created.is_empty() && files_deleted.is_empty() && manifests_changed.is_empty();
        !unchanged''')]),
 dict(l='process: request before apply', k='ok', e=[(F,'''        let _p = tracing::info_span!("GlobalState::process_changes/apply_change").entered();
        self.analysis_host.apply_change(changes);

        if needs_to_refresh_packages {
            let _p = tracing::info_span!("GlobalState::process_changes/ws_structure_change").entered();
            self.load_aptos_packages_queue.request_op(
                "vfs structure changes".to_string(),
                LoadPackagesRequest {
                    force_reload_package_deps: true,
                },
            );
        }
''','''        if needs_to_refresh_packages {
            let req = LoadPackagesRequest { force_reload_package_deps: true };
            self.load_aptos_packages_queue.request_op("vfs structure changes".to_string(), req);
        }
        self.analysis_host.apply_change(changes);
''')]),
 dict(l='opqueue: should_start match', k='ok', e=[(Q,'''        if self.op_in_progress {
            return None;
        }
        self.op_in_progress = self.op_requested.is_some();
        self.op_requested.take()''','''        if self.op_in_progress {
            return None;
        }
        let requested = self.op_requested.take()?;
        self.op_in_progress = true;
        Some(requested)''')]),
 dict(l='opqueue: request replace', k='ok', e=[(Q,'self.op_requested = Some((cause, args));','let _ = self.op_requested.replace((cause, args));')]),
 dict(l='reload: loaded early returns', k='ok', e=[(R,'''        !self.vfs_sync_in_progress
            && !self.load_aptos_packages_queue.op_in_progress()
            && self.vfs_progress_config_version >= self.vfs_config_version''','''        if self.vfs_sync_in_progress || self.load_aptos_packages_queue.op_in_progress() {
            return false;
        }
        self.vfs_config_version <= self.vfs_progress_config_version''')]),
 dict(l='reload: status helper', k='ok', e=[(R,'''        let mut status = lsp_ext::ServerStatusParams {
            health: lsp_ext::Health::Ok,
            quiescent: self.is_project_fully_loaded(),
            message: None,
        };''','''        let quiescent = self.is_project_fully_loaded();
        let mut status = lsp_ext::ServerStatusParams {
            quiescent,
            health: lsp_ext::Health::Ok,
            message: None,
        };''')]),
 dict(l='reload: switch reshaped', k='ok', e=[(R,'''        if self.is_package_loading_error() {
            // tracing::info!(%load_packages_error);
            // already have a workspace, let's keep it instead of loading invalid state
            if !switching_from_empty_workspace {
                if *force_reload_package_deps {
                    self.recreate_package_graph(
                        format!("fetch packages error while handling {:?}", cause),
                        // switching_from_empty_workspace,
                    );
                }
                return;
            }
        }
''','''        let keep_current_workspace = self.is_package_loading_error() && !switching_from_empty_workspace;
        if keep_current_workspace {
            if *force_reload_package_deps {
                self.recreate_package_graph(format!("fetch packages error while handling {:?}", cause));
            }
            return;
        }
''')]),
 dict(l='reload: switch order', k='ok', e=[(R,'''        self.vfs_config_version += 1;
        // starts the process of vfs refresh
        self.vfs_loader.handle.set_config(vfs::loader::Config {
            load: project_folders.load,
            watch,
            version: self.vfs_config_version,
        });
        self.package_root_config = project_folders.package_root_config;
        self.all_packages = Arc::new(packages_from_fs.to_vec());''','''        self.all_packages = Arc::new(packages_from_fs.to_vec());
        self.package_root_config = project_folders.package_root_config;
        let version = self.vfs_config_version + 1;
        self.vfs_config_version = version;
        let config = vfs::loader::Config { load: project_folders.load, watch, version };
        self.vfs_loader.handle.set_config(config);''')]),
 dict(l='reload: load via closure var', k='ok', e=[(R,'''                sender
                    .send(Task::FetchPackagesProgress(FetchPackagesProgress::Begin))
                    .unwrap();
                tracing''','''                let report = |progress| sender.send(Task::FetchPackagesProgress(progress)).unwrap();
                report(FetchPackagesProgress::Begin);
                tracing'''),(R,'''                sender
                    .send(Task::FetchPackagesProgress(FetchPackagesProgress::End(
                        loaded_packages,
                        force_reload_package_deps,
                    )))
                    .unwrap();''','''                report(FetchPackagesProgress::End(loaded_packages, force_reload_package_deps));''')]),
 # bugs
 dict(l='close forgets to invalidate when orphan', k='bug', p='L06', e=[(N,'''        if state.opened_files.remove(&path).is_err() {
            tracing::error!("orphan DidCloseTextDocument: {}", path);
        }
''','''        let Ok(_) = state.opened_files.remove(&path) else {
            tracing::error!("orphan DidCloseTextDocument: {}", path);
            return Ok(());
        };
''')]),
 dict(l='version only when text changes', k='bug', p='L06', e=[(N,'''        *version = params.text_document.version;

''',''),(N,'''            data.clone_from(&new_contents);''','''            *version = params.text_document.version;
            data.clone_from(&new_contents);''')]),
 dict(l='duplicate open not recorded in vfs', k='bug', p='L06', e=[(N,'''            tracing::error!("duplicate DidOpenTextDocument: {}", path);
''','''            tracing::error!("duplicate DidOpenTextDocument: {}", path);
            return Ok(());
''')]),
 dict(l='non-utf8 kept: continue', k='bug', p='L09', e=[(F,'''            // delay `line_endings_map` changes''','''            if file_text.is_none() && matches!(changed_file.kind(), vfs::ChangeKind::Modify) {
                continue;
            }
            // delay `line_endings_map` changes''')]),
 dict(l='request only if not requested', k='bug', p='L07', e=[(Q,'self.op_requested = Some((cause, args));','self.op_requested.get_or_insert((cause, args));')]),
 dict(l='in progress cleared late', k='bug', p='L07', e=[(Q,'''        self.op_in_progress = false;
        self.last''','''        self.op_in_progress = self.op_requested.is_some();
        self.last''')]),
 dict(l='config version bumped only for server watcher', k='bug', p='L08', e=[(R,'''                self.setup_client_file_watchers(&packages_from_fs);
                vec![]
            }
        };
        self.vfs_config_version += 1;''','''                self.setup_client_file_watchers(&packages_from_fs);
                vec![]
            }
        };
        if !packages_from_fs.is_empty() {
            self.vfs_config_version += 1;
        }''')]),
 dict(l='error keeps workspace only when forced', k='bug', p='L08', e=[(R,'''                        // switching_from_empty_workspace,
                    );
                }
                return;''','''                        // switching_from_empty_workspace,
                    );
                    return;
                }''')]),
]
