L='crates/syntax/src/parse/lexer/move_model.rs'; X='crates/syntax/src/parse/lexer.rs'
B='bug'; G='ok'
run('S05',[(L,"        pos += curr.len_utf8();","        pos += 1;")],'char count',B)
run('S05',[(L,"                return 2 + pos + 2;","                return 2 + pos + 1;")],'off by one',B)
run('S05',[(L,"(Tok::BadCharacter, curr.len())","(Tok::BadCharacter, curr.chars().count())")],'bad char count',B)
run('S05',[(L,".position(|c| !matches!(c, ' ' | '\\t' | '\\n'))",".position(|c| !c.is_whitespace())")],'unicode ws',B)
run('S05',[(L,".position(|c| !matches!(c, 'a'..='z' | 'A'..='Z' | '_' | '0'..='9'))",".position(|c| !(c.is_alphanumeric() || c == '_'))")],'unicode ident',B)
run('S05',[(L,".position(|c| !matches!(c, 'a'..='z' | 'A'..='Z' | '_' | '0'..='9'))",".position(|c| !(c.is_ascii_alphanumeric() || c == '_'))")],'ascii ident',G)
run('S05',[(L,"(tok, 2 + hex_len)","(tok, 1 + hex_len)")],'hex',B)
run('S05',[(L,"(Tok::NumTypedValue, num_text_len + 3)","(Tok::NumTypedValue, num_text_len + 4)")],'suffix',B)
run('S05',[(L,"if text.starts_with(\"==>\") {\n                (Tok::EqualEqualGreater, 3)\n            } else if text.starts_with(\"=>\")","if text.starts_with(\"=>\")")],'drop ==>',B)
run('S05',[(L,"\"&=\") {\n                (Tok::BitAndEqual, 2)","\"&=\") {\n                (Tok::BitAndEqual, 1)")],'len1',B)
run('S05',[(L,'"acquires" => Tok::Acquires','"acquire" => Tok::Acquires')],'kw typo',B)
run('S05',[(X,'Tok::Script => T![script],','')],'unmapped',B)
run('S05',[(X,'Tok::SubEqual => T![-=],\n        Tok::MulEqual => T![*=],','Tok::SubEqual => T![*=],\n        Tok::MulEqual => T![-=],')],'swap',B)
run('S05',[(L,"self.cur_start = self.text.len() - text.len();","self.cur_start = self.cur_end;")],'benign advance',G)
run('S05',[(L,"let line = text.lines().next().unwrap();\n            (Tok::LineComment, line.len())","let len = text.find('\\n').unwrap_or(text.len());\n            (Tok::LineComment, len)")],'find newline',G)
run('S05',[(L,"let line = text.lines().next().unwrap();\n            (Tok::LineComment, line.len())","let len = text.chars().take_while(|c| *c != '\\n').count();\n            (Tok::LineComment, len)")],'tw count',B)
run('S05',[(L,'''    text.chars()
        .position(|c| !matches!(c, ' ' | '\\t' | '\\n'))
        .unwrap_or(text.len())''','''    let mut len = 0;
    for c in text.chars() {
        if !is_ws(c) {
            break;
        }
        len += c.len_utf8();
    }
    len''' ),(L,"fn get_ws_len(","fn is_ws(c: char) -> bool { matches!(c, ' ' | '\\t' | '\\n') }\nfn get_ws_len(")],'loop ws',G)
run('S05',[(L,'''    text.chars()
        .position(|c| !matches!(c, ' ' | '\\t' | '\\n'))
        .unwrap_or(text.len())''','''    text.bytes().take_while(|b| matches!(b, b' ' | b'\\t' | b'\\n')).count()''' )],'bytes ws',G)
run('S05',[(L,'''    text.chars()
        .position(|c| !matches!(c, ' ' | '\\t' | '\\n'))
        .unwrap_or(text.len())''','''    text.len() - text.trim_start_matches(|c| matches!(c, ' ' | '\\t' | '\\n')).len()''' )],'trim ws',G)
run('S05',[(L,'''" " | "\\t" | "\\n" => {''','''" " | "\\t" | "\\n" | "\\r" => {''')],'zero len',B)
run('S05',[(L,'#"^x"[0-9a-zA-Z]*(")?"#','#"x"[0-9a-zA-Z]*(")?"#')],'unanchored',G)
run('S05',[(X,'len: TextSize::new(lex_tokens.content().len() as u32),','len: TextSize::new(lex_tokens.content().chars().count() as u32),')],'tokenize chars',B)
run('S05',[(X,'''        tokens.push(RawToken {
            kind: syntax_kind,''','''        if syntax_kind == BAD_CHARACTER { continue; }
        tokens.push(RawToken {
            kind: syntax_kind,''')],'tokenize skip',B)
