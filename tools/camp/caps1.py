S='crates/aptos-language-server/src/'
CP=S+'lsp/capabilities.rs';ML=S+'main_loop.rs';TP=S+'lsp/to_proto.rs';RQ=S+'handlers/request.rs';CF=S+'config.rs';RL=S+'reload.rs';UT=S+'lsp/utils.rs';GS=S+'global_state.rs'
C='L04 L01 L03 L05 L08 L09 L14'
LIST=[
 dict(l='accessor and_then',k='ok',c=C,e=[(CP,'''        (|| -> _ { self.0.workspace.as_ref()?.code_lens.as_ref()?.refresh_support })()
            .unwrap_or_default()''','''        self.0
            .workspace
            .as_ref()
            .and_then(|it| it.code_lens.as_ref())
            .and_then(|it| it.refresh_support)
            .unwrap_or(false)''')]),
 dict(l='accessor eq Some(true)',k='ok',c=C,e=[(CP,'''        (|| -> _ { self.0.window.as_ref()?.work_done_progress })().unwrap_or_default()''','''        let Some(window) = &self.0.window else {
            return false;
        };
        window.work_done_progress == Some(true)''')]),
 dict(l='accessor is_some_and',k='ok',c=C,e=[(CP,'''        (|| -> _ { self.0.text_document.as_ref()?.definition?.link_support })().unwrap_or_default()''','''        self.0
            .text_document
            .as_ref()
            .and_then(|it| it.definition)
            .is_some_and(|it| it.link_support.unwrap_or(false))''')]),
 dict(l='experimental and_then',k='ok',c=C,e=[(CP,'''        || -> _ { self.0.experimental.as_ref()?.get(index)?.as_bool() }().unwrap_or_default()''','''        match &self.0.experimental {
            Some(experimental) => experimental.get(index).and_then(|it| it.as_bool()).unwrap_or(false),
            None => false,
        }''')]),
 dict(l='refresh: one helper early return',k='ok',c=C,e=[(ML,'''        if self.config.code_lens_refresh() {
            self.send_request::<lsp_types::CodeLensRefreshRequest>((), |_, _| ());
        }''','''        if !self.config.code_lens_refresh() {
            return;
        }
        self.send_request::<lsp_types::CodeLensRefreshRequest>((), |_, _| ());''')]),
 dict(l='refresh: guard in helper',k='ok',c=C,e=[(ML,'''        if self.config.semantic_tokens_refresh() {
            // self.semantic_tokens_cache.lock().clear();
            self.send_request''','''        if self.client_can_refresh_tokens() {
            // self.semantic_tokens_cache.lock().clear();
            self.send_request'''),(ML,'''    /// Refresh code lens if the client supports it.''','''    fn client_can_refresh_tokens(&self) -> bool {
        self.config.semantic_tokens_refresh()
    }

    /// Refresh code lens if the client supports it.''')]),
 dict(l='refresh: guard in caller',k='ok',c=C,e=[(ML,'''        if self.config.semantic_tokens_refresh() {
            // self.semantic_tokens_cache.lock().clear();
            self.send_request::<lsp_types::SemanticTokensRefreshRequest>((), |_, _| ());
        }''','''        self.send_request::<lsp_types::SemanticTokensRefreshRequest>((), |_, _| ());'''),(ML,'''                self.ask_for_semantic_tokens_refresh();
                self''','''                if self.config.semantic_tokens_refresh() {
                    self.ask_for_semantic_tokens_refresh();
                }
                self''')]),
 dict(l='caps: locals',k='ok',c=C,e=[(CP,'''    ServerCapabilities {
        position_encoding: match config.caps().negotiated_encoding() {
            PositionEncoding::Utf8 => Some(PositionEncodingKind::UTF8),
            PositionEncoding::Wide(wide) => match wide {
                WideEncoding::Utf16 => Some(PositionEncodingKind::UTF16),
                WideEncoding::Utf32 => Some(PositionEncodingKind::UTF32),
                _ => None,
            },
        },''','''    let rename_options = RenameOptions {
        prepare_provider: Some(true),
        work_done_progress_options: WorkDoneProgressOptions { work_done_progress: None },
    };
    ServerCapabilities {
        position_encoding: position_encoding_kind(config.caps().negotiated_encoding()),'''),(CP,'''        rename_provider: Some(RenameProvider::RenameOptions(RenameOptions {
            prepare_provider: Some(true),
            work_done_progress_options: WorkDoneProgressOptions { work_done_progress: None },
        })),''','''        rename_provider: Some(RenameProvider::RenameOptions(rename_options)),'''),(CP,'''pub fn server_capabilities(''','''fn position_encoding_kind(encoding: PositionEncoding) -> Option<PositionEncodingKind> {
    match encoding {
        PositionEncoding::Utf8 => Some(PositionEncodingKind::UTF8),
        PositionEncoding::Wide(WideEncoding::Utf16) => Some(PositionEncodingKind::UTF16),
        PositionEncoding::Wide(WideEncoding::Utf32) => Some(PositionEncodingKind::UTF32),
        PositionEncoding::Wide(_) => None,
    }
}

pub fn server_capabilities(''')]),
 dict(l='encoding match',k='ok',c=C,e=[(CP,'''        let client_encodings = match &self.0.general {
            Some(general) => general.position_encodings.as_deref().unwrap_or_default(),
            None => &[],
        };

        for enc in client_encodings {
            if enc == &PositionEncodingKind::UTF8 {
                return PositionEncoding::Utf8;
            } else if enc == &PositionEncodingKind::UTF32 {
                return PositionEncoding::Wide(WideEncoding::Utf32);
            }
            // NB: intentionally prefer just about anything else to utf-16.
        }

        PositionEncoding::Wide(WideEncoding::Utf16)''','''        let client_encodings = self
            .0
            .general
            .as_ref()
            .and_then(|general| general.position_encodings.as_deref())
            .unwrap_or_default();

        client_encodings
            .iter()
            .find_map(|enc| {
                if *enc == PositionEncodingKind::UTF8 {
                    Some(PositionEncoding::Utf8)
                } else if *enc == PositionEncodingKind::UTF32 {
                    Some(PositionEncoding::Wide(WideEncoding::Utf32))
                } else {
                    None
                }
            })
            .unwrap_or(PositionEncoding::Wide(WideEncoding::Utf16))''')]),
 dict(l='doc symbols early',k='ok',c=C,e=[(RQ,'''    let res = if snap.config.hierarchical_symbols() {
        document_symbols.into()
    } else {
        let url = to_proto::url(&snap, file_id);
        let mut symbol_information = Vec::<SymbolInformation>::new();
        for symbol in document_symbols {
            flatten_document_symbol(&symbol, None, &url, &mut symbol_information);
        }
        symbol_information.into()
    };
    return Ok(Some(res));''','''    if snap.config.hierarchical_symbols() {
        return Ok(Some(document_symbols.into()));
    }
    let url = to_proto::url(&snap, file_id);
    let mut symbol_information = Vec::<SymbolInformation>::new();
    for symbol in &document_symbols {
        flatten_document_symbol(symbol, None, &url, &mut symbol_information);
    }
    return Ok(Some(symbol_information.into()));''')]),
 dict(l='goto def early',k='ok',c=C,e=[(TP,'''        let value = if snap.config.location_link() {
            let link = location_link(snap, None, nav.clone())?;
            serde_json::to_value(link)
        } else {
            let range = FileRange {
                file_id: nav.file_id,
                range: nav.focus_or_full_range(),
            };
            let location = location(snap, range)?;
            serde_json::to_value(location)
        };
''','''        let value = match snap.config.location_link() {
            true => serde_json::to_value(location_link(snap, None, nav.clone())?),
            false => {
                let range = FileRange {
                    file_id: nav.file_id,
                    range: nav.focus_or_full_range(),
                };
                serde_json::to_value(location(snap, range)?)
            }
        };
''')]),
 dict(l='code action: then',k='ok',c=C,e=[(RQ,'''        let resolve_data = if code_action_resolve_cap {
            Some((index, params.clone(), snap.file_version(file_id)))
        } else {
            None
        };''','''        let resolve_data =
            code_action_resolve_cap.then(|| (index, params.clone(), snap.file_version(file_id)));'''),(RQ,'''    let resolve = if code_action_resolve_cap {
        AssistResolveStrategy::None
    } else {
        AssistResolveStrategy::All
    };
    let assists = snap''','''    let resolve = match code_action_resolve_cap {
        true => AssistResolveStrategy::None,
        false => AssistResolveStrategy::All,
    };
    let assists = snap''')]),
 dict(l='completion label details',k='ok',c=C,e=[(TP,'''    if config.completion_label_details_support() {
        let has_label_details = item.label.detail_left.is_some() || item.label.detail_right.is_some();
        if has_label_details {
            lsp_item.label_details''','''    let label_details_support = config.completion_label_details_support();
    if label_details_support {
        if item.label.detail_left.is_some() || item.label.detail_right.is_some() {
            lsp_item.label_details''')]),
 dict(l='files if',k='ok',c=C,e=[(CF,'''            watcher: match self.files_watcher() {
                FilesWatcherDef::Client if self.did_change_watched_files_dynamic_registration() => {
                    FilesWatcher::Client
                }
                _ => FilesWatcher::Server,
            },''','''            watcher: if matches!(self.files_watcher(), FilesWatcherDef::Client)
                && self.did_change_watched_files_dynamic_registration()
            {
                FilesWatcher::Client
            } else {
                FilesWatcher::Server
            },''')]),
 # bugs
 dict(l='B wrong accessor',k='bug',c='L04',e=[(ML,'if self.config.inlay_hints_refresh()','if self.config.code_lens_refresh()')]),
 dict(l='B wrong field',k='bug',c='L04',e=[(CP,'self.0.workspace.as_ref()?.inlay_hint.as_ref()?.refresh_support','self.0.workspace.as_ref()?.code_lens.as_ref()?.refresh_support')]),
 dict(l='B unwrap_or true',k='bug',c='L04',e=[(CP,'''(|| -> _ { self.0.window.as_ref()?.work_done_progress })().unwrap_or_default()''','''(|| -> _ { self.0.window.as_ref()?.work_done_progress })().unwrap_or(true)''')]),
 dict(l='B unregistered',k='bug',c='L04',e=[(ML,'''            .on::<NO_RETRY, lsp_types::PrepareRenameRequest>(handlers::handle_prepare_rename)
''','')]),
 dict(l='B not advertised',k='bug',c='L04',e=[(CP,'''        workspace_symbol_provider: Some(WorkspaceSymbolProvider::Bool(true)),
''','')]),
 dict(l='B enc default',k='bug',c='L04',e=[(CP,'''        PositionEncoding::Wide(WideEncoding::Utf16)
    }''','''        PositionEncoding::Utf8
    }''')]),
 dict(l='B enc swap',k='bug',c='L04',e=[(CP,'''                WideEncoding::Utf32 => Some(PositionEncodingKind::UTF32),''','''                WideEncoding::Utf32 => Some(PositionEncodingKind::UTF16),''')]),
 dict(l='B enc all',k='bug',c='L04',e=[(CP,'''            } else if enc == &PositionEncodingKind::UTF32 {''','''            } else if enc != &PositionEncodingKind::UTF16 {''')]),
 dict(l='B progress unguarded',k='bug',c='L04',e=[(UT,'''        if !self.config.work_done_progress() {
            return;
        }''','''        if !self.config.work_done_progress() && matches!(state, Progress::Report) {
            return;
        }''')]),
 dict(l='B insert-replace',k='bug',c='L04',e=[(TP,'config.insert_replace_support().then_some(tdpp.position)','(config.insert_replace_support() || item.is_snippet).then_some(tdpp.position)')]),
 dict(l='B labels',k='bug',c='L04',e=[(RQ,'to_proto::signature_help(help, snap.config.signature_help_label_offsets())','to_proto::signature_help(help, true)')]),
 dict(l='B relative',k='bug',c='L04',e=[(RL,'.did_change_watched_files_relative_pattern_support()','.did_change_watched_files_dynamic_registration()')]),
 dict(l='B code action resolve',k='bug',c='L04',e=[(RQ,'let code_action_resolve_cap = snap.config.code_action_resolve();','let code_action_resolve_cap = snap.config.code_action_literals();')]),
 dict(l='B line index encoding',k='bug',c='L04',e=[(GS,'encoding: self.config.caps().negotiated_encoding(),','encoding: crate::line_index::PositionEncoding::Utf8,')]),
 dict(l='B location link in goto',k='bug',c='L04',e=[(TP,'let value = if snap.config.location_link() {','let value = if snap.config.location_link() || nav.focus_range.is_some() {')]),
 dict(l='B code action advertised resolve w/o',k='bug',c='L04',e=[(ML,'''            .on_identity::<RETRY, lsp_types::CodeActionResolveRequest, _>(request::handle_code_action_resolve)
''','')]),
 dict(l='B watcher',k='bug',c='L04',e=[(CF,'FilesWatcherDef::Client if self.did_change_watched_files_dynamic_registration() =>','FilesWatcherDef::Client if self.did_change_watched_files_relative_pattern_support() =>')]),
]
