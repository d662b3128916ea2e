import sys; sys.path.insert(0,'/verif/tools')
from mut import run
R='crates/aptos-language-server/src/handlers/request.rs'; P='crates/aptos-language-server/src/lsp/to_proto.rs'; F='crates/aptos-language-server/src/lsp/from_proto.rs'; A='crates/ide-db/src/assists.rs'; C='crates/ide-db/src/assist_context.rs'
def b(f,l,*e): run('L15',[(f,)+x for x in e],l,'bug')
def o(f,l,*e): run('L15',[(f,)+x for x in e],l,'ok')
b(R,'no version',('    if snap.file_version(file_id) != params.version {\n        return Err(invalid_params_error("stale code action".to_owned()).into());\n    }\n',''))
b(R,'older version',('if snap.file_version(file_id) != params.version {','if snap.file_version(file_id) > params.version {'))
b(R,'unversioned',('if snap.file_version(file_id) != params.version {','if params.version.is_some() && snap.file_version(file_id) != params.version {'))
b(R,'first',('match assists.get(assist_index) {','match assists.first() {'))
b(R,'and',('if assist.id.0 != expected_assist_id || assist.id.1 != expected_kind','if assist.id.0 != expected_assist_id && assist.id.1 != expected_kind'))
b(R,'no id',('if assist.id.0 != expected_assist_id || assist.id.1 != expected_kind','if assist.id.1 != expected_kind'))
b(R,'no filter',('    assists_config.allowed = params\n        .code_action_params\n        .context\n        .only\n        .map(|it| it.into_iter().filter_map(from_proto::assist_kind).collect());\n',''))
b(R,'other diag config',('        &snap.config.diagnostics_config().for_assists(),\n        AssistResolveStrategy::Single','        &snap.config.diagnostics_config(),\n        AssistResolveStrategy::Single'))
b(R,'all resolved',('AssistResolveStrategy::Single(assist_resolve)','AssistResolveStrategy::None'))
b(R,'ops unchecked',('            for change in changes {\n                resource_ops_supported(&snap.config, &change)?;\n            }\n        }\n    }\n\n    Ok(code_action)','        }\n    }\n\n    Ok(code_action)'))
b(R,'ops ignored',('            for change in changes {\n                resource_ops_supported(&snap.config, &change)?;\n            }\n        }\n    }\n\n    Ok(code_action)','            for change in changes {\n                let _ = resource_ops_supported(&snap.config, &change);\n            }\n        }\n    }\n\n    Ok(code_action)'))
b(R,'filter then enumerate',('assists.into_iter().enumerate()','assists.into_iter().filter(|it| it.source_change.is_none()).enumerate()'))
b(R,'rev',('assists.into_iter().enumerate()','assists.into_iter().rev().enumerate()'))
b(R,'no version listed',('Some((index, params.clone(), snap.file_version(file_id)))','Some((index, params.clone(), None))'))
b(R,'len',('Some((index, params.clone(), snap.file_version(file_id)))','Some((res.len() + 1, params.clone(), snap.file_version(file_id)))'))
b(R,'strategies swapped',('    let resolve = if code_action_resolve_cap {\n        AssistResolveStrategy::None','    let resolve = if !code_action_resolve_cap {\n        AssistResolveStrategy::None'))
b(R,'parse order',('[assist_id_string, assist_kind_string, index_string, subtype_str]','[assist_id_string, assist_kind_string, subtype_str, index_string]'))
b(R,'split',("action_id.split(':')","action_id.split('/')"))
b(P,'write order',('"{}:{}:{index}:{}"','"{}:{index}:{}:{}"'))
b(P,'sep',('"{}:{}:{index}:{}"','"{}/{}/{index}/{}"'))
b(P,'subtype dropped',('assist.id.2.map(|x| x.to_string()).unwrap_or("".to_owned())','"".to_owned()'))
b(P,'version none',('                code_action_params,\n                version,','                code_action_params,\n                version: None,'))
b(A,'kind',('"RefactorInline" => Ok(AssistKind::RefactorInline)','"RefactorInline" => Ok(AssistKind::RefactorExtract)'))
b(A,'kind name',('AssistKind::RefactorExtract => "RefactorExtract"','AssistKind::RefactorExtract => "RefactorExtraction"'))
b(A,'subtype',('                    && single_resolve.assist_subtype == id.2\n',''))
b(A,'all',('AssistResolveStrategy::All => true','AssistResolveStrategy::All => false'))
b(C,'not listed',('        } else {\n            None\n        };\n        self.assists.push','        } else {\n            return None;\n        };\n        self.assists.push'))
b(R,'hint version',('    if resolve_data.version != snap.file_version(file_id) {','    if resolve_data.version < snap.file_version(file_id) {'))
b(R,'hint position',('        .filter(|hint| hint.position == original_hint.position)\n',''))
b(R,'hint kind',('hint.kind == original_hint.kind','hint.kind != original_hint.kind'))
b(R,'hint range',('from_proto::text_range(&line_index, resolve_data.resolve_range)?','from_proto::text_range(&line_index, lsp_types::Range::new(original_hint.position, original_hint.position))?'))
b(P,'hint version',('version: snap.file_version(file_id),\n                resolve_range','version: None,\n                resolve_range'))
b(P,'hint range',('lsp_range(line_index, resolve_range)','lsp_range(line_index, inlay_hint.range)'))
b(F,'lens version',('                != Some(data.version)\n','                < Some(data.version)\n'))
b(F,'lens opened',('                != Some(data.version)\n','                .is_none()\n'))
o(R,'eq',('    if snap.file_version(file_id) != params.version {\n        return Err(invalid_params_error("stale code action".to_owned()).into());\n    }\n','    let current = snap.file_version(file_id);\n    let fresh = current == params.version;\n    if !fresh {\n        return Err(invalid_params_error("stale code action".to_owned()).into());\n    }\n'))
o(R,'let else',('    let assist = match assists.get(assist_index) {\n        Some(assist) => assist,\n        None => return Err(','    let Some(assist) = assists.get(assist_index) else {\n        return Err('),('            assist_index, params.id,\n        ))\n            .into())\n    };\n    if assist.id.0','            assist_index, params.id,\n        ))\n            .into());\n    };\n    if assist.id.0'))
o(R,'tuple',('if assist.id.0 != expected_assist_id || assist.id.1 != expected_kind {','let same = assist.id.0 == expected_assist_id && assist.id.1 == expected_kind;\n    if !same {'))
o(R,'helper',('    if snap.file_version(file_id) != params.version {\n        return Err(invalid_params_error("stale code action".to_owned()).into());\n    }\n','    check_fresh(&snap, file_id, params.version)?;\n'),('pub(crate) fn handle_code_action_resolve(','fn check_fresh(snap: &GlobalStateSnapshot, file_id: FileId, version: Option<i32>) -> anyhow::Result<()> {\n    if snap.file_version(file_id) != version {\n        return Err(invalid_params_error("stale code action".to_owned()).into());\n    }\n    Ok(())\n}\n\npub(crate) fn handle_code_action_resolve('))
o(R,'then',('        let resolve_data = if code_action_resolve_cap {\n            Some((index, params.clone(), snap.file_version(file_id)))\n        } else {\n            None\n        };','        let resolve_data =\n            code_action_resolve_cap.then(|| (index, params.clone(), snap.file_version(file_id)));'))
o(R,'version first',('    let mut res = vec![];\n\n    let code_action_resolve_cap','    let mut res = vec![];\n    let version = snap.file_version(file_id);\n\n    let code_action_resolve_cap'),('params.clone(), snap.file_version(file_id)))','params.clone(), version))'))
o(R,'iter enumerate',('for (index, assist) in assists.into_iter().enumerate() {','let assists = assists.into_iter();\n    for (index, assist) in assists.enumerate() {'))
o(R,'allowed helper',('    assists_config.allowed = params\n        .code_action_params\n        .context\n        .only\n        .map(|it| it.into_iter().filter_map(from_proto::assist_kind).collect());\n','    assists_config.allowed = allowed_kinds(params.code_action_params.context.only);\n'),('    assists_config.allowed = params\n        .context\n        .only\n        .clone()\n        .map(|it| it.into_iter().filter_map(from_proto::assist_kind).collect());\n','    assists_config.allowed = allowed_kinds(params.context.only.clone());\n'),('pub(crate) fn handle_code_action_resolve(','fn allowed_kinds(only: Option<Vec<lsp_types::CodeActionKind>>) -> Option<Vec<AssistKind>> {\n    only.map(|it| it.into_iter().filter_map(from_proto::assist_kind).collect())\n}\n\npub(crate) fn handle_code_action_resolve('))
o(R,'all',('            for change in changes {\n                resource_ops_supported(&snap.config, &change)?;\n            }\n        }\n    }\n\n    Ok(code_action)','            check_ops(&snap, changes)?;\n        }\n    }\n\n    Ok(code_action)'),('pub(crate) fn handle_code_action_resolve(','fn check_ops(snap: &GlobalStateSnapshot, changes: &[DocumentChange]) -> anyhow::Result<()> {\n    for change in changes {\n        resource_ops_supported(&snap.config, change)?;\n    }\n    Ok(())\n}\n\npub(crate) fn handle_code_action_resolve('))
o(P,'named',('"{}:{}:{index}:{}",\n                    assist.id.0,\n                    assist.id.1.name(),\n                    assist.id.2.map(|x| x.to_string()).unwrap_or("".to_owned())','"{}:{}:{}:{}",\n                    assist.id.0,\n                    assist.id.1.name(),\n                    index,\n                    assist.id.2.map(|x| x.to_string()).unwrap_or_default()'))
o(R,'map_err',('            let index: usize = match index_string.parse() {\n                Ok(index) => index,\n                Err(e) => return Err(format!("Incorrect index string: {e}")),\n            };','            let index: usize = index_string\n                .parse()\n                .map_err(|e| format!("Incorrect index string: {e}"))?;'))
o(R,'one filter',('        .filter(|hint| hint.position == original_hint.position)\n        .filter(|hint| hint.kind == original_hint.kind)\n','        .filter(|hint| hint.position == original_hint.position && hint.kind == original_hint.kind)\n'))
o(R,'hint let ok',('    let Some(hash) = resolve_data.hash.parse().ok() else {','    let Ok(hash) = resolve_data.hash.parse() else {'))
o(F,'lens',('            if snap.url_file_version(&params.text_document_position_params.text_document.uri)\n                != Some(data.version)\n            {','            let uri = &params.text_document_position_params.text_document.uri;\n            if snap.url_file_version(uri) != Some(data.version) {'))
o(A,'matches',('                single_resolve.assist_id == id.0\n                    && single_resolve.assist_kind == id.1\n                    && single_resolve.assist_subtype == id.2','                let AssistId(name, kind, subtype) = id;\n                single_resolve.assist_id == *name && single_resolve.assist_kind == *kind && single_resolve.assist_subtype == *subtype'))
o(C,'early',('        let source_change = if self.resolve.should_resolve(&id) {','        let wanted = self.resolve.should_resolve(&id);\n        let source_change = if wanted {'))
o(R,'try_for_each',('            for change in changes {\n                resource_ops_supported(&snap.config, &change)?;\n            }\n        }\n    }\n\n    Ok(code_action)','            changes\n                .iter()\n                .try_for_each(|change| resource_ops_supported(&snap.config, change))?;\n        }\n    }\n\n    Ok(code_action)'))
o(P,'map_or',('assist.id.2.map(|x| x.to_string()).unwrap_or("".to_owned())','assist.id.2.map_or(String::new(), |x| x.to_string())'))
