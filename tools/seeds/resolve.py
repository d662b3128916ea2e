R='crates/aptos-language-server/src/handlers/request.rs'; P='crates/aptos-language-server/src/lsp/to_proto.rs'; A='crates/ide-db/src/assists.rs'
def d(id,edits,needs,breaks): return dict(id=id,property='L15',libs=['resolve'],files={},edits=edits,needs=needs,breaks=breaks)
SEEDS=[
 d('l15-only-if-versioned',[(R,'if snap.file_version(file_id) != params.version {','if params.version.is_some() && snap.file_version(file_id) != params.version {')],'an action listed before the document was opened in the editor','an edit is computed for a text that has changed since'),
 d('l15-older-only',[(R,'if snap.file_version(file_id) != params.version {','if snap.file_version(file_id) > params.version {')],'a document closed, or opened anew with a smaller version, between listing and resolving','a stale action is resolved'),
 d('l15-filter-not-applied',[(R,'    assists_config.allowed = params\n        .code_action_params\n        .context\n        .only\n        .map(|it| it.into_iter().filter_map(from_proto::assist_kind).collect());\n','')],'a listing limited to some kinds of actions','the place in the list means another action, and resolving fails'),
 d('l15-first-of-the-id',[(R,'match assists.get(assist_index) {','match assists.iter().find(|it| it.id.0 == expected_assist_id && it.id.1 == expected_kind) {')],'several actions with the same id','the edit of another action with the same id'),
 d('l15-counted-after-filter',[(R,'Some((index, params.clone(), snap.file_version(file_id)))','Some((index.min(res.iter().filter(|it| matches!(it, CodeActionResponse::CodeAction(_))).count().max(1) - 1), params.clone(), snap.file_version(file_id)))')],'more than one action','the place written is not the place in the list'),
 d('l15-subtype-left-out',[(P,'assist.id.2.map(|x| x.to_string()).unwrap_or("".to_owned())','assist.id.2.filter(|x| *x > 0).map(|x| x.to_string()).unwrap_or("".to_owned())')],'an action with subtype 0','the action cannot be resolved'),
 d('l15-subtype-not-compared',[(A,'                    && single_resolve.assist_subtype == id.2\n','                    && single_resolve.assist_subtype.max(Some(0)) == id.2\n')],'actions that differ in their subtype','others are worked out as well, or the one asked for is not the one found'),
 d('l15-inline-read-as-extract',[(A,'"RefactorInline" => Ok(AssistKind::RefactorInline)','"RefactorInline" => Ok(AssistKind::RefactorExtract)')],'an inline action resolved later','the action cannot be resolved'),
 d('l15-file-operations-unchecked',[(R,'            for change in changes {\n                resource_ops_supported(&snap.config, &change)?;\n            }\n        }\n    }\n\n    Ok(code_action)','            for change in changes.iter().skip(1) {\n                resource_ops_supported(&snap.config, &change)?;\n            }\n        }\n    }\n\n    Ok(code_action)')],'an action that creates a file first, at a client that cannot','the client gets an edit it does not support'),
]
