import sys; sys.path.insert(0,'/verif/tools')
from mut import run
D='crates/aptos-language-server/src/handlers/request.rs'
def b(i,l,*e): run(i,[(D,)+x for x in e],l,'bug')
def o(i,l,*e): run(i,[(D,)+x for x in e],l,'ok')
b('D10','decl always',('let decl = if include_declaration {','let decl = if include_declaration || refs.references.len() > 1 {'))
b('D10','decl never',('        .chain(decl)\n',''))
b('D10','first file',('        .references\n        .into_iter()\n        .flat_map','        .references\n        .into_iter()\n        .filter(|(file_id, _)| *file_id == position.file_id)\n        .flat_map'))
b('D10','decl full',('range: decl.focus_or_full_range(),','range: decl.full_range,'))
b('D10','highlight take',('    let res = refs\n        .into_iter()\n','    let res = refs\n        .into_iter()\n        .skip(1)\n'))
b('D04','clear all',('if !change.file_system_edits.is_empty() && snap.config.will_rename()','if !change.file_system_edits.is_empty() || snap.config.will_rename()'))
b('D04','prepare',('to_proto::lsp_range(&line_index, change.range);\n    Ok(Some(PrepareRenameResult','to_proto::lsp_range(&line_index, TextRange::empty(position.offset));\n    Ok(Some(PrepareRenameResult'))
o('D10','loop',('''    let locations = refs
        .references
        .into_iter()
        .flat_map(|(file_id, refs)| {
            refs.into_iter()
                .map(move |text_range| FileRange { file_id, range: text_range })
        })
        .chain(decl)
        .unique()
        .map(|frange| to_proto::location(&snap, frange))
        .collect::<Cancellable<Vec<_>>>()?;
''','''    let mut franges = vec![];
    for (file_id, ranges) in refs.references {
        for range in ranges {
            franges.push(FileRange { file_id, range });
        }
    }
    franges.extend(decl);
    let locations = franges
        .into_iter()
        .unique()
        .map(|frange| to_proto::location(&snap, frange))
        .collect::<Cancellable<Vec<_>>>()?;
'''))
o('D10','then',('''    let decl = if include_declaration {
        refs.declaration.map(|decl| FileRange {
            file_id: decl.file_id,
            range: decl.focus_or_full_range(),
        })
    } else {
        None
    };
''','''    let decl = match refs.declaration {
        Some(decl) if include_declaration => Some(FileRange {
            file_id: decl.file_id,
            range: decl.focus_or_full_range(),
        }),
        _ => None,
    };
'''))
o('D10','hl let else',('''    let refs = match snap.analysis.highlight_related(position)? {
        None => return Ok(None),
        Some(refs) => refs,
    };''','''    let Some(refs) = snap.analysis.highlight_related(position)? else {
        return Ok(None);
    };'''))
o('D10','hl push',('''    let res = refs
        .into_iter()
        .map(|range| lsp_types::DocumentHighlight {
            range: to_proto::lsp_range(&line_index, range),
            kind: Some(DocumentHighlightKind::Text),
        })
        .collect();
    Ok(Some(res))''','''    let mut res = Vec::with_capacity(refs.len());
    for range in refs {
        let range = to_proto::lsp_range(&line_index, range);
        res.push(lsp_types::DocumentHighlight { range, kind: Some(DocumentHighlightKind::Text) });
    }
    Ok(Some(res))'''))
o('D04','prep inline',('    let range = to_proto::lsp_range(&line_index, change.range);\n    Ok(Some(PrepareRenameResult::Range(range)))','    Ok(Some(PrepareRenameResult::Range(to_proto::lsp_range(&line_index, change.range))))'))
o('D04','moves',('    if !change.file_system_edits.is_empty() && snap.config.will_rename() {\n        change.source_file_edits.clear();\n    }','    let moves_files = !change.file_system_edits.is_empty();\n    if moves_files && snap.config.will_rename() {\n        change.source_file_edits = Default::default();\n    }'))
