U='crates/aptos-language-server/src/lsp/utils.rs'; F='crates/aptos-language-server/src/lsp/from_proto.rs'; T='crates/aptos-language-server/src/lsp/to_proto.rs'
SYNC='''
use std::ops::Range;
fn reference(enc: PositionEncoding, file: &str, changes: &[lsp_types::TextDocumentContentChangeEvent]) -> String {
    use lsp_types::TextDocumentContentChangeEvent::*;
    let mut t = file.to_string();
    for c in changes {
        match c {
            TextDocumentContentChangeWholeDocument(w) => t = w.text.clone(),
            TextDocumentContentChangePartial(p) => {
                let off = |t: &str, pos: lsp_types::Position| {
                    let mut o = 0usize;
                    for _ in 0..pos.line { o += t[o..].find('\\n').unwrap() + 1; }
                    let mut units = 0;
                    for ch in t[o..].chars() {
                        if units >= pos.character { break; }
                        assert!(ch != '\\n');
                        units += match enc { PositionEncoding::Utf8 => ch.len_utf8(), PositionEncoding::Wide(WideEncoding::Utf16) => ch.len_utf16(), _ => 1 } as u32;
                        o += ch.len_utf8();
                    }
                    assert!(units == pos.character);
                    o
                };
                let (a, b) = (off(&t, p.range.start), off(&t, p.range.end));
                t.replace_range(a..b, &p.text);
            }
        }
    }
    t
}
fn main() {
    use lsp_types::*;
    std::panic::set_hook(Box::new(|_| {}));
    let part = |a: u32, b: u32, c: u32, d: u32, t: &str| TextDocumentContentChangeEvent::TextDocumentContentChangePartial(TextDocumentContentChangePartial { range: Range::new(Position::new(a, b), Position::new(c, d)), text: t.into() });
    let whole = |t: &str| TextDocumentContentChangeEvent::TextDocumentContentChangeWholeDocument(TextDocumentContentChangeWholeDocument { text: t.into() });
    let file = "one\\ntw\\u{1F600}o x\\nthree\\nfour\\nfive\\n";
    let pool = vec![part(0, 0, 0, 0, "a\\nb\\n"), part(1, 0, 1, 2, ""), part(1, 1, 2, 2, "Z"), part(3, 1, 4, 0, "q"), part(2, 0, 2, 3, "l1\\nl2\\n\\u{e9}"), whole("w1\\nw2\\nw3\\nw4\\nw5\\n"), part(0, 1, 1, 1, "-"), part(1, 4, 1, 5, "y"), part(4, 0, 4, 1, ""), part(2, 0, 3, 0, "x\\n")];
    for enc in [PositionEncoding::Utf8, PositionEncoding::Wide(WideEncoding::Utf16)] {
        let u8s = matches!(enc, PositionEncoding::Utf8);
        for i in 0..pool.len() { for j in 0..pool.len() { for k in 0..=pool.len() {
            let mut v = vec![pool[i].clone(), pool[j].clone()];
            if k < pool.len() { v.push(pool[k].clone()); }
            let lines_ok = std::panic::catch_unwind(|| reference(enc, file, &v));
            let Ok(want) = lines_ok else { continue };
            let got = std::panic::catch_unwind(|| apply_document_changes(enc, file, v.clone())).unwrap_or_else(|_| "panic".into());
            if got != want { eprintln!("utf8 {u8s} changes {i} {j} {k}: got {got:?}, the editor has {want:?}"); std::process::exit(1); }
        }}}
    }
}
'''
POS='''
use std::ops::Range;
fn main() {
    use lsp_types::*;
    let text = "abc\\n\\u{1F600}x\\u{e9}y\\n\\nlast";
    for enc in [PositionEncoding::Utf8, PositionEncoding::Wide(WideEncoding::Utf16), PositionEncoding::Wide(WideEncoding::Utf32)] {
        let li = LineIndex { index: Arc::new(line_index::LineIndex::new(text)), endings: LineEndings::Unix, encoding: enc };
        let offs: Vec<u32> = text.char_indices().map(|x| x.0 as u32).chain([text.len() as u32]).collect();
        for a in &offs { for b in offs.iter().filter(|b| *b >= a) {
            let r = TextRange::new(TextSize(*a), TextSize(*b));
            let l = lsp_range(&li, r);
            let unit = |o: u32| { let s = text[..o as usize].rfind('\\n').map(|x| x + 1).unwrap_or(0); let t = &text[s..o as usize]; let c = match enc { PositionEncoding::Utf8 => t.len(), PositionEncoding::Wide(WideEncoding::Utf16) => t.encode_utf16().count(), _ => t.chars().count() }; Position::new(text[..o as usize].matches('\\n').count() as u32, c as u32) };
            assert_eq!(l, lsp_types::Range::new(unit(*a), unit(*b)));
            assert_eq!(text_range(&li, l), Ok(r), "back from {l:?}");
            if a != b { assert!(text_range(&li, lsp_types::Range::new(l.end, l.start)).is_err(), "inverted range accepted"); }
        }}
        assert_eq!(offset(&li, Position::new(3, 99)), Ok(TextSize(text.len() as u32)), "past the end of the last line");
        assert!(offset(&li, Position::new(4, 0)).is_err());
    }
}
'''
ITEMS='apply_document_changes=lsp/utils.rs text_range=lsp/from_proto.rs offset=lsp/from_proto.rs'
PITEMS='text_range=lsp/from_proto.rs offset=lsp/from_proto.rs lsp_range=lsp/to_proto.rs lsp_position=lsp/to_proto.rs'
def s(id,prop,edits,needs,breaks,main,items): return dict(id=id,property=prop,edits=edits,needs=needs,breaks=breaks,libs=['lsp'],files={'main.rs':main,'items':items})
SEEDS=[
 s('l16-index-one-line-too-long','L16',[(U,"if index_valid <= change.range.end.line","if index_valid < change.range.end.line")],'two changes in one notification, the second ending on the line where the first starts','the second change is applied at a stale offset: the server silently edits a different place than the editor',SYNC,ITEMS),
 s('l16-first-whole-document-wins','L16',[(U,"        .iter_mut()\n        .rev()\n        .try_fold","        .iter_mut()\n        .try_fold"),(U,"for change in r_partial_changes.iter().rev()","for change in r_partial_changes.iter()")],'one notification with a whole-document change after another change','changes after the first whole-document change are lost',SYNC,ITEMS),
 s('l16-index-valid-to-end-of-change','L16',[(U,"index_valid = change.range.start.line;","index_valid = change.range.end.line;")],'two changes in one notification, the first spanning lines, the second ending inside that span','the offset of the second change is computed with line starts from before the first one',SYNC,ITEMS),
 s('l14-column-not-clamped','L14',[(F,"let clamped_len = col.min(line_range.len());","let clamped_len = if col > line_range.len() { line_range.len() + TextSize::from(1) } else { col };")],'a position past the end of its line','the offset is one past the end of the line (of the text, on the last line), where slicing panics',POS,PITEMS),
 s('l14-inverted-range-repaired','L14',[(F,'''    match end < start {
        true => Err(format_err!("Invalid Range")),
        false => Ok(TextRange::new(start, end)),
    }''','''    Ok(TextRange::new(start.min(end), start.max(end)))''')],'a client range whose end precedes its start','an invalid range is accepted and applied to text the client did not name',POS,PITEMS),
 s('l14-end-from-start-column','L14',[(T,"    let end = lsp_position(line_index, range.end());","    let mut end = lsp_position(line_index, range.end());\n    if end.line == start.line {\n        end.character = start.character + u32::from(range.len());\n    }")],'a range on one line that contains a non-ASCII character','the end column counts bytes while the start column counts UTF-16 units',POS,PITEMS),
]
