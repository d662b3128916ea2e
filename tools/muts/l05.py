import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mut import run
S='crates/aptos-language-server/src/lsp/semantic_tokens.rs'; T='crates/aptos-language-server/src/lsp/to_proto.rs'; H='crates/ide/src/syntax_highlighting/highlights.rs'; C='crates/aptos-language-server/src/lsp/capabilities.rs'
B='bug'; G='ok'
run('L05',[(S,"            if push_line == 0 {\n                push_char -= self.prev_char;\n            }","            push_char -= self.prev_char.min(push_char);")],'always rel',B)
run('L05',[(S,"        self.prev_char = range.start.character;","        self.prev_char = range.end.character;")],'prev end',B)
run('L05',[(S,"        self.prev_line = range.start.line;\n","        if push_line > 0 {\n            self.prev_line = range.end.line;\n        }\n")],'prev line end',B)
run('L05',[(S,'''        if !self.data.is_empty() {
            push_line -= self.prev_line;
            if push_line == 0 {
                push_char -= self.prev_char;
            }
        }
''','''        if range.start.line == self.prev_line {
            push_char -= self.prev_char;
        }
        push_line -= self.prev_line;
''')],'reordered equal (initial zeros)',G)
run('L05',[(S,'''        if !self.data.is_empty() {
            push_line -= self.prev_line;
            if push_line == 0 {
                push_char -= self.prev_char;
            }
        }
''','''        if self.data.last().is_some() {
            push_line = range.start.line - self.prev_line;
            push_char = if push_line == 0 { range.start.character - self.prev_char } else { range.start.character };
        }
''')],'style',G)
run('L05',[(S,"        let token_len = range.end.character - range.start.character;","        let token_len = range.end.character - push_char;")],'len',B)
run('L05',[(C,"semantic_tokens::SupportedType::iter()\n","semantic_tokens::SupportedType::iter()\n                        .filter(|it| **it != semantic_tokens::SupportedType::Generic)\n")],'filter legend',B)
run('L05',[(S,"    kind as u32\n","    kind as u32 + (kind > SupportedType::Label) as u32\n")],'index shift',B)
run('L05',[(S,"                        $name::$variant,\n                    )*\n                ];\n                ITEMS.iter()","                        $name::$variant,\n                    )*\n                ];\n                ITEMS[1..].iter()")],'items',B)
run('L05',[(S,"        Comment,\n        Decorator,","        Comment = 1,\n        Decorator,")],'explicit',B)
run('L05',[(H,"            start = match next {\n                Some(child) => {\n                    child.flatten(acc);\n                    child.hl_range.range.end()","            start = match next {\n                Some(child) => {\n                    child.flatten(acc);\n                    child.hl_range.range.start()")],'start again',B)
run('L05',[(H,"            if start < end {\n                acc.push(HlRange {\n                    range: TextRange::new(start, end),","            if start < end && next.is_some() {\n                acc.push(HlRange {\n                    range: TextRange::new(start, end),")],'tail lost',B)
run('L05',[(H,'''        let mut nested = self.nested.iter();
        loop {
            let next = nested.next();
            let end = next.map_or(self.hl_range.range.end(), |it| it.hl_range.range.start());
            if start < end {
                acc.push(HlRange {
                    range: TextRange::new(start, end),
                    highlight: self.hl_range.highlight,
                });
            }
            start = match next {
                Some(child) => {
                    child.flatten(acc);
                    child.hl_range.range.end()
                }
                None => break,
            }
        }''','''        for child in &self.nested {
            let end = child.hl_range.range.start();
            if start < end {
                acc.push(HlRange {
                    range: TextRange::new(start, end),
                    highlight: self.hl_range.highlight,
                });
            }
            child.flatten(acc);
            start = child.hl_range.range.end();
        }
        let end = self.hl_range.range.end();
        if end > start {
            acc.push(HlRange {
                range: TextRange::new(start, end),
                highlight: self.hl_range.highlight,
            });
        }''')],'for style',G)
run('L05',[(H,"if last.hl_range.range.end() <= hl_range.range.start() {","if last.hl_range.range.start() <= hl_range.range.start() {")],'append overlap',B)
run('L05',[(H,"        self.nested[overlapping.start].nested = nested;","        let _ = nested;")],'lost',B)
run('L05',[(H,"        if overlapping.len() == 1\n            && self.nested","        if !overlapping.is_empty()\n            && self.nested")],'nest first of many',B)
run('L05',[(T,"            if text[text_range].ends_with('\\n') {\n                text_range = TextRange::new(text_range.start(), text_range.end() - TextSize::of('\\n'));\n            }\n","")],'newline kept',B)
run('L05',[(T,"            if text[text_range].ends_with('\\n') {\n                text_range = TextRange::new(text_range.start(), text_range.end() - TextSize::of('\\n'));\n            }\n            let range = lsp_range(line_index, text_range);","            let piece = &text[text_range];\n            let trimmed = if piece.ends_with('\\n') {\n                TextRange::new(text_range.start(), text_range.end() - TextSize::of('\\n'))\n            } else {\n                text_range\n            };\n            let range = lsp_range(line_index, trimmed);"),(T,"for mut text_range in line_index","for text_range in line_index")],'style',G)
run('L05',[(T,"for mut text_range in line_index.index.lines(highlight_range.range) {","for mut text_range in std::iter::once(highlight_range.range) {")],'no lines',B)
run('L05',[(T,"        if highlight_range.highlight.is_empty() {\n            continue;\n        }\n\n        let ty","        if !highlight_range.highlight.is_empty() {\n            continue;\n        }\n\n        let ty")],'inv',B)
