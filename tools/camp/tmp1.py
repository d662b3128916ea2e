LIST=[{'l': 'lexer while', 'k': 'ok', 'c': 'S01 S02 S05 S06 S07 S09 S10', 'e': [('crates/syntax/src/parse/lexer.rs', '    loop {\n        lex_tokens.advance();\n        if lex_tokens.peek() == Tok::EOF {\n            break;\n        }\n\n        let syntax_kind = aptos_token_kind_to_syntax_kind(lex_tokens.peek(), lex_tokens.content());\n        tokens.push(RawToken {\n            kind: syntax_kind,\n            len: TextSize::new(lex_tokens.content().len() as u32),\n        });\n    }', '    lex_tokens.advance();\n    while lex_tokens.peek() != Tok::EOF {\n        let content = lex_tokens.content();\n        let kind = aptos_token_kind_to_syntax_kind(lex_tokens.peek(), content);\n        let len = TextSize::of(content);\n        tokens.push(RawToken { kind, len });\n        lex_tokens.advance();\n    }')]}, {'l': 'BUG comment kind bytes len', 'k': 'bug', 'c': 'S05 S06', 'e': [('crates/syntax/src/parse/lexer.rs', 'lex_tokens.content().len() as u32', 'lex_tokens.content().trim_end().len() as u32')]}]