// Copyright © Aptos Foundation
// SPDX-License-Identifier: Apache-2.0

// This file contains code originally from rust-analyzer, licensed under Apache License 2.0.
// Modifications have been made to the original code.

use crate::config::config_change::ConfigChange;
use crate::global_state::{GlobalState, LoadPackagesRequest};
use crate::lsp::from_proto;
use crate::lsp::utils::apply_document_changes;
use crate::opened_files::DocumentData;
use crate::{Config, reload};
use camino::Utf8PathBuf;
use lsp_types::{
    CancelParams, DidChangeConfigurationParams, DidChangeTextDocumentParams,
    DidChangeWatchedFilesParams, DidChangeWorkspaceFoldersParams, DidCloseTextDocumentParams,
    DidOpenTextDocumentParams, DidSaveTextDocumentParams, WorkDoneProgressCancelParams,
};
use paths::AbsPathBuf;
use std::ops::Not;
use std::sync::Arc;
use stdx::itertools::Itertools;
use vfs::loader::Handle;

pub(crate) fn handle_cancel(state: &mut GlobalState, params: CancelParams) -> anyhow::Result<()> {
    let _p = tracing::info_span!("handle_cancel").entered();

    let id: lsp_server::RequestId = match params.id {
        lsp_types::Id::Int(id) => id.into(),
        lsp_types::Id::String(id) => id.into(),
    };
    state.cancel(id);
    Ok(())
}

pub(crate) fn handle_work_done_progress_cancel(
    _state: &mut GlobalState,
    _params: WorkDoneProgressCancelParams,
) -> anyhow::Result<()> {
    let _p = tracing::info_span!("handle_work_done_progress_cancel").entered();

    // Just ignore this. It is OK to continue sending progress
    // notifications for this token, as the client can't know when
    // we accepted notification.
    Ok(())
}

pub(crate) fn handle_did_open_text_document(
    state: &mut GlobalState,
    params: DidOpenTextDocumentParams,
) -> anyhow::Result<()> {
    let _p = tracing::info_span!("handle_did_open_text_document").entered();

    if let Ok(path) = from_proto::vfs_path(&params.text_document.uri) {
        let already_exists = state
            .opened_files
            .insert(
                path.clone(),
                DocumentData::new(
                    params.text_document.version,
                    params.text_document.text.clone().into_bytes(),
                ),
            )
            .is_err();
        if already_exists {
            tracing::error!("duplicate DidOpenTextDocument: {}", path);
        }

        state
            .vfs
            .write()
            .0
            .set_file_contents(path, Some(params.text_document.text.into_bytes()));
    }
    Ok(())
}

pub(crate) fn handle_did_change_text_document(
    state: &mut GlobalState,
    params: DidChangeTextDocumentParams,
) -> anyhow::Result<()> {
    let _p = tracing::info_span!("handle_did_change_text_document").entered();

    if let Ok(path) = from_proto::vfs_path(&params.text_document.text_document_identifier.uri) {
        let Some(DocumentData { version, data }) = state.opened_files.get_mut(&path) else {
            tracing::error!(?path, "unexpected DidChangeTextDocument");
            return Ok(());
        };
        // The version passed in DidChangeTextDocument is the version after all edits are applied
        // so we should apply it before the vfs is notified.
        *version = params.text_document.version;

        let new_contents = apply_document_changes(
            state.config.negotiated_encoding(),
            std::str::from_utf8(data).unwrap(),
            params.content_changes,
        )
        .into_bytes();
        if *data != new_contents {
            data.clone_from(&new_contents);
            state.vfs.write().0.set_file_contents(path, Some(new_contents));
        }
    }
    Ok(())
}

pub(crate) fn handle_did_close_text_document(
    state: &mut GlobalState,
    params: DidCloseTextDocumentParams,
) -> anyhow::Result<()> {
    let _p = tracing::info_span!("handle_did_close_text_document").entered();

    if let Ok(path) = from_proto::vfs_path(&params.text_document.uri) {
        if state.opened_files.remove(&path).is_err() {
            tracing::error!("orphan DidCloseTextDocument: {}", path);
        }

        // state.semantic_tokens_cache.lock().remove(&params.text_document.uri);

        if let Some(path) = path.as_path() {
            state.vfs_loader.handle.invalidate(path.to_path_buf());
        }
    }
    Ok(())
}

pub(crate) fn handle_did_save_text_document(
    state: &mut GlobalState,
    params: DidSaveTextDocumentParams,
) -> anyhow::Result<()> {
    let _p = tracing::info_span!("handle_did_save_text_document").entered();

    if let Ok(vfs_path) = from_proto::vfs_path(&params.text_document.uri) {
        // Re-fetch workspaces if a workspace related file has changed
        if let Some(saved_path) = vfs_path.as_path() {
            if reload::is_manifest_file(saved_path) {
                state.load_aptos_packages_queue.request_op(
                    format!("manifest file change saved {saved_path}"),
                    LoadPackagesRequest {
                        force_reload_package_deps: false,
                    },
                );
            }
        }
    }
    Ok(())
}

pub(crate) fn handle_did_change_configuration(
    state: &mut GlobalState,
    _params: DidChangeConfigurationParams,
) -> anyhow::Result<()> {
    let _p = tracing::info_span!("handle_did_change_configuration").entered();

    // As stated in https://github.com/microsoft/language-server-protocol/issues/676,
    // this notification's parameters should be ignored and the actual config queried separately.
    state.send_request::<lsp_types::ConfigurationRequest>(
        lsp_types::ConfigurationParams {
            items: vec![lsp_types::ConfigurationItem {
                scope_uri: None,
                section: Some("move-on-aptos".to_owned()),
            }],
        },
        |global_state, resp| {
            tracing::debug!("config update response: '{:?}", resp);
            let lsp_server::Response { error, result, .. } = resp;

            match (error, result) {
                (Some(err), _) => {
                    tracing::error!("failed to fetch the server settings: {:?}", err)
                }
                (None, Some(mut configs)) => {
                    if let Some(json) = configs.get_mut(0) {
                        let config = Config::clone(&*global_state.config);

                        let mut change = ConfigChange::default();
                        change.change_client_config(json.take());
                        let (config, errors) = config.apply_change(change);

                        global_state.update_configuration(config);
                        global_state.config_errors = errors.is_empty().not().then_some(errors);
                    }
                }
                (None, None) => {
                    tracing::error!("received empty server settings response from the client")
                }
            }
        },
    );

    Ok(())
}

pub(crate) fn handle_did_change_workspace_folders(
    state: &mut GlobalState,
    params: DidChangeWorkspaceFoldersParams,
) -> anyhow::Result<()> {
    let _p = tracing::info_span!("handle_did_change_workspace_folders").entered();

    let config = Arc::make_mut(&mut state.config);

    for workspace_folder in params.event.removed {
        let Ok(path) = workspace_folder.uri.to_file_path() else {
            continue;
        };
        let Ok(path) = Utf8PathBuf::from_path_buf(path) else {
            continue;
        };
        let Ok(path) = AbsPathBuf::try_from(path) else {
            continue;
        };
        config.remove_client_ws_root(&path);
    }

    let added_ws_root = params
        .event
        .added
        .into_iter()
        .filter_map(|it| it.uri.to_file_path().ok())
        .filter_map(|it| Utf8PathBuf::from_path_buf(it).ok())
        .filter_map(|it| AbsPathBuf::try_from(it).ok());
    config.add_client_ws_root(added_ws_root);

    config.rediscover_packages();

    let req = LoadPackagesRequest {
        force_reload_package_deps: false,
    };
    state
        .load_aptos_packages_queue
        .request_op("client workspaces changed".to_owned(), req);

    Ok(())
}

pub(crate) fn handle_did_change_watched_files(
    state: &mut GlobalState,
    params: DidChangeWatchedFilesParams,
) -> anyhow::Result<()> {
    let _p = tracing::info_span!("handle_did_change_watched_files").entered();

    for change in params.changes.iter().unique_by(|&it| &it.uri) {
        if let Ok(path) = from_proto::abs_path(&change.uri) {
            state.vfs_loader.handle.invalidate(path);
        }
    }
    Ok(())
}
