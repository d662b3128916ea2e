S='crates/ide-db/src/text_edit.rs'
B='bug'; G='ok'
run('D03',[(S,'l.range.end() <= r.range.start() || l == r','l.range.start() <= r.range.start() || l == r')],'start',B)
run('D03',[(S,'l.range.end() <= r.range.start() || l == r','!(r.range.start() < l.range.end()) || l == r')],'neg',G)
run('D03',[(S,'l.range.end() <= r.range.start() || l == r','l == r || l.range.end() <= r.range.start()')],'swap',G)
run('D03',[(S,'l.range.end() <= r.range.start() || l == r','l.range.end() <= r.range.start() || l.range == r.range')],'range eq',B)
run('D03',[(S,'(change.range.start(), change.range.end())','change.range.start()')],'key start only',B)
run('D03',[(S,'text_changes.sort_by_key','text_changes.sort_unstable_by_key')],'unstable',B)
run('D03',[(S,'for text_change in self.changes.iter().rev() {','for text_change in self.changes.iter() {')],'forward',B)
run('D03',[(S,'if a.range.end() == b.range.start() {','if a.range.end() >= b.range.start() {')],'coalesce ge',B)
run('D03',[(S,'TextRange::new(a.range.start(), b.range.end())','TextRange::new(a.range.start(), a.range.end())')],'coalesce range',B)
run('D03',[(S,'a.new_text.push_str(&b.new_text);','if a.new_text != b.new_text { a.new_text.push_str(&b.new_text); }')],'coalesce text',B)
run('D03',[(S,'.dedup_by(|a, b| a == b && !a.range.is_empty())','.dedup_by(|a, b| a == b)')],'union dedup all',B)
run('D03',[(S,'changes.dedup_by(|b, a| a == b && !a.range.is_empty());','changes.dedup();')],'finish dedup all',B)
run('D03',[(S,'        changes.dedup_by(|b, a| a == b && !a.range.is_empty());\n','')],'finish no dedup',B)
run('D03',[(S,'if indel.range.start() >= offset {','if indel.range.start() > offset {')],'offset >',B)
run('D03',[(S,'if offset < indel.range.end() {','if offset <= indel.range.end() {')],'offset <=',B)
run('D03',[(S,'res -= indel.range.len();','res -= indel.range.len().min(TextSize::of(&indel.new_text));')],'offset len',B)
run('D03',[(S,'        if !check_disjoint(&mut iter_merge.clone()) {\n            return Err(other);\n        }\n','')],'union unchecked',B)
run('D03',[(S,'l.range.start() <= r.range.start()','l.range.end() <= r.range.end()')],'merge by end',B)
run('D03',[(S,'        if self.text_changes.len() <= 16 {\n            assert_disjoint_or_equal(&mut self.text_changes);\n        }\n','')],'no early assert',G)
run('D03',[(S,'        assert_disjoint_or_equal(&mut changes);\n        // Only','        if changes.len() <= 16 {\n            assert_disjoint_or_equal(&mut changes);\n        }\n        // Only')],'only small checked',B)
run('D03',[(S,'''            if indel.range.start() >= offset {
                break;
            }
            if offset < indel.range.end() {
                return None;
            }
            res +=''','''            let range = indel.range;
            if offset <= range.start() {
                return Some(res);
            }
            if range.end() > offset {
                return None;
            }
            res +=''')],'offset refactor',G)
run('D03',[(S,'        let mut builder = TextEdit::builder();\n        builder.delete(range);\n        builder.finish()','        TextEdit { changes: vec![TextChange::delete(range)] }')],'bypass finish',B)
run('D03',[(S,'        for text_change in self.changes.iter().rev() {\n            text_change.apply(text);\n        }','        for text_change in self.changes.iter().rev() {\n            if text_change.new_text.is_empty() && text_change.range.is_empty() { continue; }\n            text_change.apply(text);\n        }')],'skip empty (harmless)',G)
run('D03',[(S,'        for text_change in self.changes.iter().rev() {\n            text_change.apply(text);\n        }','        self.changes.iter().rev().for_each(|text_change| text_change.apply(text));')],'for_each',G)
run('D03',[(S,'        for text_change in self.changes.iter().rev() {\n            text_change.apply(text);\n        }','        for text_change in self.changes.iter().rev() {\n            if text_change.new_text.is_empty() { continue; }\n            text_change.apply(text);\n        }')],'skip deletions',B)
run('D03',[(S,'''        match self.len() {
            0 => return,
            1 => {
                self.changes[0].apply(text);
                return;
            }
            _ => (),
        }
''','''        if self.is_empty() {
            return;
        }
''')],'no special cases',G)
run('D03',[(S,'''        let mut changes = self.text_changes;
        assert_disjoint_or_equal(&mut changes);''','''        let TextEditBuilder { text_changes: mut changes } = self;
        let ok = check_disjoint_and_sort(&mut changes);
        assert!(ok, "overlapping changes");''')],'finish refactor',G)
