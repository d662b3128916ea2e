D='crates/aptos-language-server/src/handlers/dispatch.rs'; M='crates/aptos-language-server/src/main_loop.rs'; GS='crates/aptos-language-server/src/global_state.rs'; T='crates/aptos-language-server/src/task_pool.rs'
B='bug'; G='ok'
run('L01',[(D,'''                self.global_state
                    .respond(lsp_server::Response::new_ok(id, default()));
''','''                let _ = id; let _ = default();
''')],'no default answer',B)
run('L01',[(D,"Err(_cancelled) if ALLOW_RETRYING => Task::Retry(req),","Err(_cancelled) if ALLOW_RETRYING => Task::Retry(lsp_server::Request { id: lsp_server::RequestId::from(0), ..req }),")],'retry with other id',B)
run('L01',[(D,'''                self.global_state.respond(response);
                None
            }
        }
    }

    fn content''','''                tracing::error!("{response:?}");
                None
            }
        }
    }

    fn content''')],'invalid params unanswered',B)
run('L01',[(M,"Task::Retry(req) if !self.is_completed(&req) => self.on_request(req),","Task::Retry(req) if !self.is_completed(&req) => self.on_new_request(Instant::now(), req),")],'retry registers again',B)
run('L01',[(M,"Task::Retry(req) if !self.is_completed(&req)","Task::Retry(req) if self.is_completed(&req)")],'retry inverted',B)
run('L01',[(M,'''                while let Ok(task) = self.task_pool.receiver.try_recv() {
                    self.handle_task(task);
                }''','''                while let Ok(task) = self.task_pool.receiver.try_recv() {
                    if matches!(task, Task::FetchPackagesProgress(_)) { continue; }
                    self.handle_task(task);
                }''')],'drain drops',B)
run('L01',[(M,'''                while let Ok(task) = self.task_pool.receiver.try_recv() {
                    self.handle_task(task);
                }''','''                loop {
                    let Ok(task) = self.task_pool.receiver.try_recv() else { break };
                    self.handle_task(task);
                }''')],'drain loop',G)
run('L01',[(M,'''            .on::<NO_RETRY, lsp_ext::OrganizeImports>(handlers::handle_organize_imports)
            .finish();''','''            .on::<NO_RETRY, lsp_ext::OrganizeImports>(handlers::handle_organize_imports);
        if self.vfs_initialized_and_loaded() { dispatcher.finish(); }''')],'finish cond',B)
run('L01',[(M,".on::<NO_RETRY, lsp_types::HoverRequest>(handlers::handle_hover)",".on::<NO_RETRY, lsp_types::HoverRequest>(handlers::handle_hover)\n .on::<NO_RETRY, lsp_types::RenameRequest>(handlers::handle_rename)")],'duplicate',B)
run('L01',[(GS,'''            let duration = start.elapsed();
            tracing::debug!("handled {} - ({}) in {:0.2?}", method, response.id, duration);
            self.send(response.into());''','''            let duration = start.elapsed();
            if duration.as_secs() > 60 { return; }
            self.send(response.into());''')],'late answer dropped',B)
run('L01',[(GS,'''        if let Some(response) = self.req_queue.incoming.cancel(request_id) {
            self.send(response.into());
        }''','''        let Some(response) = self.req_queue.incoming.cancel(request_id) else { return };
        self.send(response.into());''')],'cancel let-else',G)
run('L01',[(GS,'''        if let Some(response) = self.req_queue.incoming.cancel(request_id) {
            self.send(response.into());
        }''','''        self.req_queue.incoming.cancel(request_id);''')],'cancel silent',B)
run('L01',[(T,'''            move || sender.send(task()).unwrap()
''','''            move || {
                let res = task();
                sender.send(res).unwrap();
            }
''')],'pool refactor',G)
run('L01',[(D,'''                Err(_cancelled) => {
                    let error = on_cancelled();
                    Task::Response(Response {
                        id: req.id,
                        result: None,
                        error: Some(error),
                    })
                }''','''                Err(_cancelled) => Self::cancelled_response(req, on_cancelled()),'''),(D,'''    fn content_modified_error()''','''    fn cancelled_response(req: lsp_server::Request, error: ResponseError) -> Task {
        let id = req.id.clone();
        Task::Response(Response { id, result: None, error: Some(error) })
    }

    fn content_modified_error()''')],'helper extracted',G)
run('L01',[(D,'''        if !self.global_state.vfs_initialized_and_loaded() {
            if let Some(lsp_server::Request { id, .. }) =
                self.req.take_if(|it| it.method.as_str() == R::METHOD.as_str())
            {
                self.global_state
                    .respond(lsp_server::Response::new_ok(id, R::Result::default()));
            }
            return self;
        }
        self.on_with_thread_intent::<false, ALLOW_RETRYING, R>(
            ThreadIntent::Worker,''','''        if !self.global_state.vfs_initialized_and_loaded() {
            return self.answer_default::<R>();
        }
        self.on_with_thread_intent::<false, ALLOW_RETRYING, R>(
            ThreadIntent::Worker,'''),(D,'''    fn content_modified_error()''','''    fn answer_default<R>(&mut self) -> &mut Self where R: lsp_types::Request<Result: Serialize + Default> + 'static {
        let is_ours = |it: &mut lsp_server::Request| it.method.as_str() == R::METHOD.as_str();
        let Some(req) = self.req.take_if(is_ours) else { return self };
        let answer = lsp_server::Response::new_ok(req.id, R::Result::default());
        self.global_state.respond(answer);
        self
    }

    fn content_modified_error()''')],'helper default',G)
run('L01',[(D,'''        let req = self.req.take_if(|it| it.method.as_str() == R::METHOD.as_str())?;
''','''        if self.req.as_ref()?.method.as_str() != R::METHOD.as_str() {
            return None;
        }
        let req = self.req.take()?;
''')],'take after test',G)
run('L02',[(D,'''            let result = panic::catch_unwind(move || {
                let _pctx = DbPanicContext::enter(panic_context);
                f(world, params)
            });
            match''','''            let _pctx = DbPanicContext::enter(panic_context);
            let result = if RUSTFMT { Ok(f(world, params)) } else { panic::catch_unwind(move || f(world, params)) };
            match''')],'fmt unguarded',B)
run('L02',[(D,"tracing::error!(\"Cancellation propagated out of salsa! This is a bug\");","")],'log only',G)
run('L02',[(M,".on_sync::<lsp_types::SelectionRangeRequest>(handlers::handle_selection_range)",".on_sync_mut::<lsp_types::SelectionRangeRequest>(|s, p| handlers::handle_selection_range(s.snapshot(), p))")],'selection mut',B)
run('L02',[(D,'''            Ok(lsp_server::Response::new_err(
                id,
                lsp_server::ErrorCode::InternalError as i32,
                message,
            ))''','''            Ok(lsp_server::Response::new_ok(id, serde_json::Value::Null))''')],'panic as ok',B)
run('L03',[(D,'''        if !self.global_state.vfs_initialized_and_loaded() {
            if let Some((request, params, _)) = self.parse::<R>() {
                self.global_state
                    .respond(lsp_server::Response::new_ok(request.id, &params))
            }
            return self;
        }''','')],'identity ungated',B)
run('L03',[(GS,"self.vfs_synced_once && !self.vfs_sync_in_progress","!self.vfs_sync_in_progress")],'synced once',B)
run('L03',[(GS,"self.vfs_synced_once && !self.vfs_sync_in_progress","if self.vfs_sync_in_progress { return false; }\n        self.vfs_synced_once")],'early ret',G)
run('L03',[(M,"} if this.shutdown_requested => {","} if this.shutdown_requested && !req.method.as_str().starts_with(\"textDocument\") => {")],'shutdown partial',B)
run('L03',[(M,".on::<NO_RETRY, lsp_types::HoverRequest>(handlers::handle_hover)",".on_fmt_thread::<lsp_types::HoverRequest>(handlers::handle_hover)")],'hover on fmt',B)
