L='crates/aptos-language-server/src/'; D=L+'handlers/dispatch.rs'; M=L+'main_loop.rs'
LIST=[
 dict(l='dispatch: helper respond_default', k='ok', e=[(D,'''        if !self.global_state.vfs_initialized_and_loaded() {
            if let Some(lsp_server::Request { id, .. }) =
                self.req.take_if(|it| it.method.as_str() == R::METHOD.as_str())
            {
                self.global_state
                    .respond(lsp_server::Response::new_ok(id, R::Result::default()));
            }
            return self;
        }
        self.on_with_thread_intent::<false, ALLOW_RETRYING, R>(
            ThreadIntent::Worker,''','''        if !self.global_state.vfs_initialized_and_loaded() {
            self.respond_with_default::<R>();
            return self;
        }
        self.on_with_thread_intent::<false, ALLOW_RETRYING, R>(
            ThreadIntent::Worker,'''),(D,'''    fn content_modified_error()''','''    fn respond_with_default<R>(&mut self)
    where
        R: lsp_types::Request,
        R::Result: Serialize + Default,
    {
        let is_this = |it: &mut lsp_server::Request| it.method.as_str() == R::METHOD.as_str();
        if let Some(req) = self.req.take_if(is_this) {
            let response = lsp_server::Response::new_ok(req.id, R::Result::default());
            self.global_state.respond(response);
        }
    }

    fn content_modified_error()''')]),
 dict(l='dispatch: let-else parse', k='ok', e=[(D,'''        let (req, params, panic_context) = match self.parse::<R>() {
            Some(it) => it,
            None => return self,
        };''','''        let Some((req, params, panic_context)) = self.parse::<R>() else {
            return self;
        };''','all')]),
 dict(l='dispatch: parse helper invalid params', k='ok', e=[(D,'''                let response = lsp_server::Response::new_err(
                    req.id,
                    lsp_server::ErrorCode::InvalidParams as i32,
                    err.to_string(),
                );
                self.global_state.respond(response);
                None''','''                self.respond_invalid_params(req.id, err);
                None'''),(D,'''    fn content_modified_error()''','''    fn respond_invalid_params(&mut self, id: lsp_server::RequestId, err: impl fmt::Display) {
        let code = lsp_server::ErrorCode::InvalidParams as i32;
        self.global_state
            .respond(lsp_server::Response::new_err(id, code, err.to_string()));
    }

    fn content_modified_error()''')]),
 dict(l='dispatch: retry if/else', k='ok', e=[(D,'''            match thread_result_to_response::<R>(req.id.clone(), result) {
                Ok(response) => Task::Response(response),
                Err(_cancelled) if ALLOW_RETRYING => Task::Retry(req),
                Err(_cancelled) => {
                    let error = on_cancelled();
                    Task::Response(Response {
                        id: req.id,
                        result: None,
                        error: Some(error),
                    })
                }
            }''','''            let response = match thread_result_to_response::<R>(req.id.clone(), result) {
                Ok(response) => response,
                Err(_cancelled) => {
                    if ALLOW_RETRYING {
                        return Task::Retry(req);
                    }
                    Response {
                        id: req.id,
                        result: None,
                        error: Some(on_cancelled()),
                    }
                }
            };
            Task::Response(response)''')]),
 dict(l='dispatch: pool variable', k='ok', e=[(D,'''        if RUSTFMT {
            &mut self.global_state.fmt_pool.handle
        } else {
            &mut self.global_state.task_pool.handle
        }
        .spawn(intent''','''        let pool = match RUSTFMT {
            true => &mut self.global_state.fmt_pool,
            false => &mut self.global_state.task_pool,
        };
        pool.handle.spawn(intent''')]),
 dict(l='dispatch: finish let-else', k='ok', e=[(D,'''        if let Some(req) = self.req.take() {
            tracing::error!("unknown request: {:?}", req);
            let response = lsp_server::Response::new_err(
                req.id,
                lsp_server::ErrorCode::MethodNotFound as i32,
                "unknown request".to_owned(),
            );
            self.global_state.respond(response);
        }''','''        let Some(lsp_server::Request { id, method, .. }) = self.req.take() else {
            return;
        };
        tracing::error!("unknown request: {:?}", method);
        self.global_state.respond(lsp_server::Response::new_err(
            id,
            lsp_server::ErrorCode::MethodNotFound as i32,
            "unknown request".to_owned(),
        ));''')]),
 dict(l='dispatch: catch_unwind helper', k='ok', e=[(D,'''        let result = panic::catch_unwind(move || {
            let _pctx = DbPanicContext::enter(panic_context);
            f(global_state_snapshot, params)
        });

        if let''','''        let result = catch_handler_panic(f, global_state_snapshot, params, panic_context);
        if let'''),(D,'''#[derive(Debug)]
enum HandlerCancelledError {''','''fn catch_handler_panic<P: panic::UnwindSafe, T>(
    f: fn(GlobalStateSnapshot, P) -> anyhow::Result<T>,
    snapshot: GlobalStateSnapshot,
    params: P,
    panic_context: String,
) -> std::thread::Result<anyhow::Result<T>> {
    panic::catch_unwind(move || {
        let _pctx = DbPanicContext::enter(panic_context);
        f(snapshot, params)
    })
}

#[derive(Debug)]
enum HandlerCancelledError {''')]),
 dict(l='main: vfs progress flags reordered', k='ok', e=[(M,'''                self.vfs_progress_config_version = config_version;

                let is_vfs_load_ended = state == Progress::End;

                if !self.vfs_synced_once && is_vfs_load_ended {
                    self.vfs_synced_once = true;
                }
                self.vfs_sync_in_progress = !is_vfs_load_ended;

                if is_vfs_load_ended {
                    self''','''                let is_vfs_load_ended = matches!(state, Progress::End);
                self.vfs_sync_in_progress = !is_vfs_load_ended;
                self.vfs_progress_config_version = config_version;
                if is_vfs_load_ended {
                    self.vfs_synced_once = true;
                    self''')]),
 dict(l='main: load_files continue', k='ok', e=[(M,'''            if !self.opened_files.contains(&path) && (is_changed || vfs.file_id(&path).is_none()) {
                vfs.set_file_contents(path, contents);
            }''','''            if self.opened_files.contains(&path) {
                continue;
            }
            let is_new = vfs.file_id(&path).is_none();
            if is_new || is_changed {
                vfs.set_file_contents(path, contents);
            }''')]),
 dict(l='main: after_handle_event extracted', k='ok', e=[(M,'''            if ask_for_client_refresh {
                self.ask_for_semantic_tokens_refresh();
                self.ask_for_codelens_refresh();
                self.ask_for_inlay_hints_refresh("after event");
                self.ask_client_for_diagnostics_refresh("after event");
            }''','''            if ask_for_client_refresh {
                self.refresh_client();
            }'''),(M,'''    fn update_status_or_notify(''','''    fn refresh_client(&mut self) {
        self.ask_client_for_diagnostics_refresh("after event");
        self.ask_for_semantic_tokens_refresh();
        self.ask_for_codelens_refresh();
        self.ask_for_inlay_hints_refresh("after event");
    }

    fn update_status_or_notify(''')]),
 dict(l='main: coalesce loop', k='ok', e=[(M,'''                while let Ok(task) = self.task_pool.receiver.try_recv() {
                    self.handle_task(task);
                }''','''                loop {
                    match self.task_pool.receiver.try_recv() {
                        Ok(task) => self.handle_task(task),
                        Err(_) => break,
                    }
                }''')]),
 dict(l='main: start op extracted', k='ok', e=[(M,'''        if let Some((cause, LoadPackagesRequest { force_reload_package_deps })) =
            self.load_aptos_packages_queue.should_start_op()
        {
            self.load_aptos_packages_from_fs(cause, force_reload_package_deps);
        }

        self.update''','''        self.start_requested_load();
        self.update'''),(M,'''    fn update_status_or_notify(''','''    fn start_requested_load(&mut self) {
        let Some((cause, request)) = self.load_aptos_packages_queue.should_start_op() else {
            return;
        };
        self.load_aptos_packages_from_fs(cause, request.force_reload_package_deps);
    }

    fn update_status_or_notify(''')]),
 dict(l='main: retry guard inverted', k='ok', e=[(M,'''            Task::Retry(req) if !self.is_completed(&req) => self.on_request(req),
            Task::Retry(_) => (),''','''            Task::Retry(req) => {
                if self.is_completed(&req) {
                    tracing::debug!("request was cancelled");
                    return;
                }
                self.on_request(req)
            }''')]),
 dict(l='main: end of fetch extracted', k='ok', e=[(M,'''                    FetchPackagesProgress::End(packages_from_fs, force_reload_package_deps) => {
                        self.load_aptos_packages_queue.op_completed(LoadPackagesResponse {
                            packages_from_fs,
                            force_reload_package_deps,
                        });
                        if let Some(loading_error) = self.load_packages_error() {
                            tracing::error!(?loading_error);
                        }
                        self.scheduled_switch = Some("loaded aptos packages from fs".to_owned());
                        (Progress::End, None)
                    }''','''                    FetchPackagesProgress::End(packages_from_fs, force_reload_package_deps) => {
                        let response = LoadPackagesResponse {
                            packages_from_fs,
                            force_reload_package_deps,
                        };
                        self.on_packages_loaded(response);
                        (Progress::End, None)
                    }'''),(M,'''    fn handle_vfs_msg(''','''    fn on_packages_loaded(&mut self, response: LoadPackagesResponse) {
        self.load_aptos_packages_queue.op_completed(response);
        let error = self.load_packages_error();
        if let Some(loading_error) = error {
            tracing::error!(?loading_error);
        }
        self.scheduled_switch = Some("loaded aptos packages from fs".to_owned());
    }

    fn handle_vfs_msg(''')]),
 dict(l='main: shutdown test as if-let', k='ok', e=[(M,'''        match &mut dispatcher {
            RequestDispatcher {
                req: Some(req),
                global_state: this,
            } if this.shutdown_requested => {
                this.respond(lsp_server::Response::new_err(
                    req.id.clone(),
                    lsp_server::ErrorCode::InvalidRequest as i32,
                    "Shutdown already requested.".to_owned(),
                ));
                return;
            }
            _ => (),
        }''','''        if let RequestDispatcher {
            req: Some(req),
            global_state: this,
        } = &mut dispatcher
        {
            if this.shutdown_requested {
                let id = req.id.clone();
                this.respond(lsp_server::Response::new_err(
                    id,
                    lsp_server::ErrorCode::InvalidRequest as i32,
                    "Shutdown already requested.".to_owned(),
                ));
                return;
            }
        }''')]),
 # bugs
 dict(l='default answer without take', k='bug', p=None, e=[(D,'''            if let Some(lsp_server::Request { id, .. }) =
                self.req.take_if(|it| it.method.as_str() == R::METHOD.as_str())
            {
                self.global_state
                    .respond(lsp_server::Response::new_ok(id, default()));
            }''','''            if let Some(lsp_server::Request { id, .. }) =
                self.req.clone().filter(|it| it.method.as_str() == R::METHOD.as_str())
            {
                self.global_state
                    .respond(lsp_server::Response::new_ok(id, default()));
            }''')]),
 dict(l='progress ended when n_done == n_total', k='bug', p='L08', e=[(M,'''let is_vfs_load_ended = state == Progress::End;''','''let is_vfs_load_ended = n_done == n_total;''')]),
 dict(l='changed ignored for known', k='bug', p='L06', e=[(M,'''(is_changed || vfs.file_id(&path).is_none())''','''(vfs.file_id(&path).is_none() || is_changed && contents.is_some())''')]),
 dict(l='switch during sync', k='bug', p=None, e=[(M,'''        if !self.vfs_sync_in_progress {
            if let Some(switch_cause) = self.scheduled_switch.take() {
                self.switch_workspaces(switch_cause);
            }
            any''','''        if let Some(switch_cause) = self.scheduled_switch.take() {
            if self.vfs_sync_in_progress { return; }
            self.switch_workspaces(switch_cause);
        }
        if !self.vfs_sync_in_progress {
            any''')]),
]
