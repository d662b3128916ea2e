import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mut import run
F='crates/aptos-language-server/src/lsp/from_proto.rs'; T='crates/aptos-language-server/src/lsp/to_proto.rs'; H='crates/aptos-language-server/src/handlers/request.rs'
B='bug'; G='ok'
run('L14',[(F,"let clamped_len = col.min(line_range.len());","let clamped_len = col;")],'no clamp',B)
run('L14',[(F,"Ok(line_range.start() + clamped_len)","Ok(line_range.end() - clamped_len)")],'from end',B)
run('L14',[(F,"let end = offset(line_index, range.end)?;","let end = offset(line_index, range.start)?;")],'start twice',B)
run('L14',[(F,"match end < start {","match end <= start {")],'empty refused',B)
run('L14',[(F,'''    match end < start {
        true => Err(format_err!("Invalid Range")),
        false => Ok(TextRange::new(start, end)),
    }''','''    Ok(TextRange::new(start.min(end), start.max(end)))''')],'inverted accepted',B)
run('L14',[(F,'''    match end < start {
        true => Err(format_err!("Invalid Range")),
        false => Ok(TextRange::new(start, end)),
    }''','''    if start > end {
        return Err(format_err!("Invalid Range"));
    }
    Ok(TextRange::new(start, end))''')],'if style',G)
run('L14',[(F,'''    let col = TextSize::from(line_col.col);
    let clamped_len = col.min(line_range.len());
    if clamped_len < col {''','''    let mut col = TextSize::from(line_col.col);
    let len = line_range.len();
    let over = col > len;
    let clamped_len = if over { len } else { col };
    if over {''')],'if clamp',G)
run('L14',[(T,"let line_col = line_index.index.to_wide(enc, line_col).unwrap();\n","let _ = enc;\n")],'wide ignored',B)
run('L14',[(T,"let end = lsp_position(line_index, range.end());","let end = lsp_position(line_index, range.start() + range.len() + range.len());")],'end wrong',B)
run('L14',[(T,"let line_index = snap.file_line_index(src.file_id)?;","let line_index = snap.file_line_index(target.file_id)?;")],'wrong file src',B)
run('L14',[(T,'''    let url = url(snap, frange.file_id);
    let line_index = snap.file_line_index(frange.file_id)?;''','''    let FileRange { file_id, range } = frange;
    let url = url(snap, file_id);
    let line_index = snap.file_line_index(file_id)?;'''),(T,"let range = lsp_range(&line_index, frange.range);","let range = lsp_range(&line_index, range);")],'destructure',G)
run('L14',[(T,"        new_text: line_index.endings.map(change.new_text),","        new_text: change.new_text,")],'endings',B)
run('L14',[(T,'''    let range = lsp_range(line_index, change.range);
    lsp_types::TextEdit {
        range,''','''    lsp_types::TextEdit {
        range: lsp_range(line_index, change.range),''')],'inline',G)
run('L14',[(T,'''    let start = lsp_position(line_index, range.start());
    let end = lsp_position(line_index, range.end());
    lsp_types::Range::new(start, end)''','''    lsp_types::Range {
        start: lsp_position(line_index, range.start()),
        end: lsp_position(line_index, range.end()),
    }''')],'struct literal',G)
run('L14',[(F,'''            line_index
                .index
                .to_utf8(enc, line_col)
                .ok_or_else(|| format_err!("Invalid wide col offset"))?''','''            let _ = enc;
            LineCol { line: line_col.line, col: line_col.col }''')],'wide as utf8',B)
run('L14',[(H,"let line_index = snap.file_line_index(file_position.file_id)?;","let line_index = snap.file_line_index(from_proto::file_id(&snap, &params.text_document_position_params.text_document.uri)?)?;")],'hover other derivation',G)
run('L14',[(T,"    let line_index = snap.file_line_index(nav.file_id)?;\n    let range = lsp_range(&line_index, nav.focus_or_full_range());","    let line_index = snap.file_line_index(nav.file_id)?;\n    let focus = nav.focus_or_full_range();\n    let range = lsp_range(&line_index, focus);")],'local',G)
run('L14',[(T,"    let url = url(snap, nav.file_id);\n    let line_index = snap.file_line_index(nav.file_id)?;","    let file_id = nav.file_id;\n    let url = url(snap, file_id);\n    let line_index = snap.file_line_index(file_id)?;")],'local id',G)
