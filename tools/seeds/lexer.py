L='crates/syntax/src/parse/lexer/move_model.rs'; X='crates/syntax/src/parse/lexer.rs'
SEEDS=[
 dict(id='s05-bad-char-count', property='S05', edits=[(L,"(Tok::BadCharacter, curr.len())","(Tok::BadCharacter, curr.chars().count())")],
  needs='a grapheme of several bytes outside strings and comments', breaks='the length of a bad character is counted in characters, the next slice starts inside a character: the lexer panics',
  demo='parser', cases=['module 0x1::m { const A: u8 = 1€; }','module 0x1::m { é }']),
 dict(id='s05-unicode-ident', property='S05', edits=[(L,".position(|c| !matches!(c, 'a'..='z' | 'A'..='Z' | '_' | '0'..='9'))",".position(|c| !(c.is_alphanumeric() || c == '_'))")],
  needs='an identifier that continues with letters outside ASCII', breaks='the position counts characters while the caller slices bytes',
  demo='parser', cases=['module 0x1::m { fun f() { let xé = 1; } }']),
 dict(id='s05-line-comment-count', property='S05', edits=[(L,"let line = text.lines().next().unwrap();\n            (Tok::LineComment, line.len())","let len = text.chars().take_while(|c| *c != '\\n' && *c != '\\r').count();\n            (Tok::LineComment, len)")],
  needs='a line comment with text outside ASCII', breaks='the comment ends early, in the middle of a character',
  demo='parser', cases=['// é\nmodule 0x1::m { }']),
 dict(id='s05-carriage-return-ws', property='S05', edits=[(L,'''" " | "\\t" | "\\n" => {''','''" " | "\\t" | "\\n" | "\\r" => {''')],
  needs='a carriage return that is not followed by a line feed', breaks='a whitespace token of length zero: the lexer never ends',
  demo='parser', cases=['module 0x1::m {\r fun f() {} }']),
]
