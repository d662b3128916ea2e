L='crates/aptos-language-server/src/lsp/'; FP=L+'from_proto.rs'; TP=L+'to_proto.rs'; U=L+'utils.rs'; TE='crates/ide-db/src/text_edit.rs'
LIST=[
 dict(l='offset: helper for clamp', k='ok', e=[(FP,'''    let col = TextSize::from(line_col.col);
    let clamped_len = col.min(line_range.len());
    if clamped_len < col {
        tracing::error!(
            "Position {line_col:?} column exceeds line length {}, clamping it",
            u32::from(line_range.len()),
        );
    }
    Ok(line_range.start() + clamped_len)''','''    let line_len = line_range.len();
    let mut col = TextSize::from(line_col.col);
    if col > line_len {
        tracing::error!(
            "Position {line_col:?} column exceeds line length {}, clamping it",
            u32::from(line_len),
        );
        col = line_len;
    }
    Ok(line_range.start() + col)''')]),
 dict(l='text_range: if', k='ok', e=[(FP,'''    match end < start {
        true => Err(format_err!("Invalid Range")),
        false => Ok(TextRange::new(start, end)),
    }''','''    if start <= end {
        Ok(TextRange::new(start, end))
    } else {
        Err(format_err!("Invalid Range"))
    }''')]),
 dict(l='offset: utf8 early return style', k='ok', e=[(FP,'''        PositionEncoding::Wide(enc) => {
            let line_col = WideLineCol {
                line: position.line,
                col: position.character,
            };
            line_index
                .index
                .to_utf8(enc, line_col)
                .ok_or_else(|| format_err!("Invalid wide col offset"))?
        }''','''        PositionEncoding::Wide(enc) => {
            let lsp_types::Position { line, character } = position;
            let wide = WideLineCol { line, col: character };
            match line_index.index.to_utf8(enc, wide) {
                Some(line_col) => line_col,
                None => return Err(format_err!("Invalid wide col offset")),
            }
        }''')]),
 dict(l='file_position through file_range-like helper', k='ok', e=[(FP,'''    let file_id = file_id(snap, &tdpp.text_document.uri)?;
    let line_index = snap.file_line_index(file_id)?;
    let offset = offset(&line_index, tdpp.position)?;
    Ok(FilePosition { file_id, offset })''','''    let (file_id, line_index) = file_with_index(snap, &tdpp.text_document.uri)?;
    let offset = offset(&line_index, tdpp.position)?;
    Ok(FilePosition { file_id, offset })'''),(FP,'''    let file_id = file_id(snap, document)?;
    let line_index = snap.file_line_index(file_id)?;
    let range = text_range''','''    let (file_id, line_index) = file_with_index(snap, document)?;
    let range = text_range'''),(FP,'''/// Returns `None` if the file was excluded.
pub(crate) fn file_range(''','''fn file_with_index(
    snap: &GlobalStateSnapshot,
    url: &lsp_types::Uri,
) -> anyhow::Result<(FileId, LineIndex)> {
    let file_id = file_id(snap, url)?;
    let line_index = snap.file_line_index(file_id)?;
    Ok((file_id, line_index))
}

/// Returns `None` if the file was excluded.
pub(crate) fn file_range(''')]),
 dict(l='changes: position based', k='ok', e=[(U,'''    let (mut text, r_partial_changes);
    match content_changes
        .iter_mut()
        .rev()
        .try_fold(Vec::new(), |mut acc, change| match change {
            lsp_types::TextDocumentContentChangeEvent::TextDocumentContentChangePartial(partial) => {
                acc.push(partial);
                Ok(acc)
            }
            lsp_types::TextDocumentContentChangeEvent::TextDocumentContentChangeWholeDocument(whole) => {
                Err((whole, acc))
            }
        }) {
        Err((whole_document, reversed_partial_changes)) => {
            text = mem::take(&mut whole_document.text);
            r_partial_changes = reversed_partial_changes;
        }
        Ok(partials) => {
            text = file_contents.to_owned();
            r_partial_changes = partials;
        }
    }''','''    let mut text = file_contents.to_owned();
    let mut r_partial_changes = Vec::new();
    for change in content_changes.iter_mut().rev() {
        match change {
            lsp_types::TextDocumentContentChangeEvent::TextDocumentContentChangePartial(partial) => {
                r_partial_changes.push(partial);
            }
            lsp_types::TextDocumentContentChangeEvent::TextDocumentContentChangeWholeDocument(whole) => {
                text = mem::take(&mut whole.text);
                break;
            }
        }
    }''')]),
 dict(l='changes: index rebuilt always', k='ok', e=[(U,'''        if index_valid <= change.range.end.line {
            *Arc::make_mut(&mut line_index.index) = line_index::LineIndex::new(&text);
        }
        index_valid = change.range.start.line;''','''        line_index.index = Arc::new(line_index::LineIndex::new(&text));'''),(U,'''    let mut index_valid = !0u32;
''','')]),
 dict(l='changes: let-else range', k='ok', e=[(U,'''        index_valid = change.range.start.line;
        if let Ok(range) = from_proto::text_range(&line_index, change.range) {
            text.replace_range(Range::<usize>::from(range), &change.text);
        }''','''        index_valid = change.range.start.line;
        let Ok(range) = from_proto::text_range(&line_index, change.range) else {
            continue;
        };
        let range = Range::<usize>::from(range);
        text.replace_range(range, &change.text);''')]),
 dict(l='text edit apply loop', k='ok', e=[(TE,'''        for text_change in self.changes.iter().rev() {
            text_change.apply(text);
        }
''','''        let mut rest = self.changes.as_slice();
        while let [init @ .., last] = rest {
            last.apply(text);
            rest = init;
        }
''')]),
 dict(l='text edit apply if', k='ok', e=[(TE,'''        match self.len() {
            0 => return,
            1 => {
                self.changes[0].apply(text);
                return;
            }
            _ => (),
        }
''','''        if self.is_empty() {
            return;
        }
        if let [only] = self.changes.as_slice() {
            only.apply(text);
            return;
        }
''')]),
 dict(l='changes bug: index by start', k='bug', p='L16', e=[(U,'if index_valid <= change.range.end.line','if index_valid < change.range.end.line')]),
 dict(l='changes bug: keep min', k='bug', p='L16', e=[(U,'index_valid = change.range.start.line;','index_valid = index_valid.max(change.range.start.line);')]),
 dict(l='clamp bug', k='bug', p='L14', e=[(FP,'    let clamped_len = col.min(line_range.len());','    let clamped_len = col.min(line_index.index.len());')]),
]
