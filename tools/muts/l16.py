import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mut import run
U='crates/aptos-language-server/src/lsp/utils.rs'
B='bug'; G='ok'
run('L16',[(U,"if index_valid <= change.range.end.line","if index_valid < change.range.end.line")],'off by one stale',B)
run('L16',[(U,"if index_valid <= change.range.end.line","if index_valid <= change.range.start.line")],'start instead of end',B)
run('L16',[(U,"index_valid = change.range.start.line;","index_valid = change.range.end.line;")],'valid till end',B)
run('L16',[(U,"        index_valid = change.range.start.line;\n","")],'never invalid',B)
run('L16',[(U,"for change in r_partial_changes.iter().rev()","for change in r_partial_changes.iter()")],'reverse order',B)
run('L16',[(U,"        .iter_mut()\n        .rev()\n        .try_fold","        .iter_mut()\n        .try_fold")],'first whole',B)
run('L16',[(U,"            r_partial_changes = reversed_partial_changes;\n        }\n        Ok","            r_partial_changes = Vec::new();\n            let _ = reversed_partial_changes;\n        }\n        Ok")],'drops after whole',B)
run('L16',[(U,"text.replace_range(Range::<usize>::from(range), &change.text);","text.replace_range(Range::<usize>::from(range), &change.text);\n            index_valid = !0u32;")],'valid reset',B)
run('L16',[(U,"line_index::LineIndex::new(&text)),\n        // We don't","line_index::LineIndex::new(file_contents)),\n        // We don't")],'index of old text',B)
run('L16',[(U,'''        if let Ok(range) = from_proto::text_range(&line_index, change.range) {
            text.replace''','''        let Ok(range) = from_proto::text_range(&line_index, change.range) else {
            break;
        };
        {
            text.replace''')],'break at invalid',B)
run('L16',[(U,'''        if let Ok(range) = from_proto::text_range(&line_index, change.range) {
            text.replace_range(Range::<usize>::from(range), &change.text);
        }
''','''        let Ok(range) = from_proto::text_range(&line_index, change.range) else {
            continue;
        };
        let range: Range<usize> = range.into();
        text.replace_range(range, change.text.as_str());
''')],'continue style',G)
run('L16',[(U,'''        if index_valid <= change.range.end.line {
            *Arc::make_mut(&mut line_index.index) = line_index::LineIndex::new(&text);
        }
''','''        line_index.index = Arc::new(line_index::LineIndex::new(&text));
''')],'always rebuild',G)
run('L16',[(U,'''        if index_valid <= change.range.end.line {''','''        let still_valid = change.range.end.line < index_valid;
        if !still_valid {''')],'bool',G)
run('L16',[(U,'''    let (mut text, r_partial_changes);
    match content_changes
        .iter_mut()
        .rev()
        .try_fold(Vec::new(), |mut acc, change| match change {
            lsp_types::TextDocumentContentChangeEvent::TextDocumentContentChangePartial(partial) => {
                acc.push(partial);
                Ok(acc)
            }
            lsp_types::TextDocumentContentChangeEvent::TextDocumentContentChangeWholeDocument(whole) => {
                Err((whole, acc))
            }
        }) {
        Err((whole_document, reversed_partial_changes)) => {
            text = mem::take(&mut whole_document.text);
            r_partial_changes = reversed_partial_changes;
        }
        Ok(partials) => {
            text = file_contents.to_owned();
            r_partial_changes = partials;
        }
    }
''','''    let mut text = None;
    let mut r_partial_changes = Vec::new();
    for change in content_changes.iter_mut().rev() {
        match change {
            lsp_types::TextDocumentContentChangeEvent::TextDocumentContentChangePartial(partial) => {
                r_partial_changes.push(partial);
            }
            lsp_types::TextDocumentContentChangeEvent::TextDocumentContentChangeWholeDocument(whole) => {
                text = Some(mem::take(&mut whole.text));
                break;
            }
        }
    }
    let mut text = text.unwrap_or_else(|| file_contents.to_owned());
''')],'loop style',G)
run('L16',[(U,'''        encoding,
    };

    // The changes''','''        encoding: PositionEncoding::Utf8,
    };

    // The changes''')],'utf8 always',B)
run('L16',[(U,'''    if r_partial_changes.is_empty() {
        return text;
    }
''','')],'no shortcut',G)
