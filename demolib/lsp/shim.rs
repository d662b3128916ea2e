// small stand-ins for the external crates the extracted code uses
pub use std::mem;
pub use std::sync::Arc;
#[macro_export]
macro_rules! format_err { ($($t:tt)*) => { format!($($t)*) }; }
pub use crate::format_err;
pub mod anyhow { pub type Result<T> = std::result::Result<T, String>; pub use crate::format_err; }
pub mod tracing {
    #[macro_export] macro_rules! tr_error { ($($t:tt)*) => { let _ = format!($($t)*); }; }
    pub use crate::tr_error as error; pub use crate::tr_error as warn; pub use crate::tr_error as info; pub use crate::tr_error as debug;
}
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Default, Hash)]
pub struct TextSize(pub u32);
impl TextSize { pub fn new(x: u32) -> Self { TextSize(x) } pub fn of<T: TextLen>(t: T) -> Self { TextSize(t.tl()) } }
pub trait TextLen { fn tl(&self) -> u32; }
impl TextLen for char { fn tl(&self) -> u32 { self.len_utf8() as u32 } }
impl TextLen for &str { fn tl(&self) -> u32 { self.len() as u32 } }
impl From<u32> for TextSize { fn from(x: u32) -> Self { TextSize(x) } }
impl From<TextSize> for u32 { fn from(x: TextSize) -> u32 { x.0 } }
impl From<TextSize> for usize { fn from(x: TextSize) -> usize { x.0 as usize } }
impl std::ops::Add for TextSize { type Output = TextSize; fn add(self, o: Self) -> Self { TextSize(self.0 + o.0) } }
impl std::ops::Sub for TextSize { type Output = TextSize; fn sub(self, o: Self) -> Self { TextSize(self.0 - o.0) } }
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct TextRange(pub TextSize, pub TextSize);
impl TextRange {
    pub fn new(a: TextSize, b: TextSize) -> Self { assert!(a <= b); TextRange(a, b) }
    pub fn at(a: TextSize, l: TextSize) -> Self { TextRange(a, a + l) }
    pub fn start(self) -> TextSize { self.0 } pub fn end(self) -> TextSize { self.1 }
    pub fn len(self) -> TextSize { TextSize(self.1.0 - self.0.0) } pub fn is_empty(self) -> bool { self.0 == self.1 }
}
impl From<TextRange> for std::ops::Range<usize> { fn from(r: TextRange) -> Self { r.0.0 as usize..r.1.0 as usize } }
impl std::ops::Index<TextRange> for str { type Output = str; fn index(&self, r: TextRange) -> &str { &self[r.0.0 as usize..r.1.0 as usize] } }
pub mod line_index {
    pub use super::{TextRange, TextSize};
    #[derive(Clone, Copy, Debug, PartialEq, Eq)] pub struct LineCol { pub line: u32, pub col: u32 }
    #[derive(Clone, Copy, Debug, PartialEq, Eq)] pub struct WideLineCol { pub line: u32, pub col: u32 }
    #[derive(Clone, Copy, Debug)] pub enum WideEncoding { Utf16, Utf32 }
    #[derive(Clone, Debug)] pub struct LineIndex { text: String, starts: Vec<u32> }
    fn w(e: WideEncoding, s: &str) -> u32 { match e { WideEncoding::Utf16 => s.encode_utf16().count() as u32, _ => s.chars().count() as u32 } }
    impl LineIndex {
        pub fn new(t: &str) -> Self { let mut starts = vec![0]; for (i, c) in t.char_indices() { if c == '\n' { starts.push(i as u32 + 1); } } LineIndex { text: t.into(), starts } }
        pub fn len(&self) -> TextSize { TextSize(self.text.len() as u32) }
        pub fn line(&self, l: u32) -> Option<TextRange> {
            let s = *self.starts.get(l as usize)?;
            let e = self.starts.get(l as usize + 1).copied().unwrap_or(self.text.len() as u32);
            Some(TextRange(TextSize(s), TextSize(e)))
        }
        pub fn line_col(&self, o: TextSize) -> LineCol { let l = self.starts.partition_point(|s| *s <= o.0) - 1; LineCol { line: l as u32, col: o.0 - self.starts[l] } }
        pub fn to_utf8(&self, e: WideEncoding, p: WideLineCol) -> Option<LineCol> {
            let r = self.line(p.line)?; let t = &self.text[r.0.0 as usize..r.1.0 as usize];
            let mut wide = 0; let mut col = 0;
            for c in t.chars() { if wide >= p.col { break; } wide += w(e, c.encode_utf8(&mut [0; 4])); col += c.len_utf8() as u32; }
            if wide < p.col { col += p.col - wide; }
            Some(LineCol { line: p.line, col })
        }
        pub fn to_wide(&self, e: WideEncoding, p: LineCol) -> Option<WideLineCol> {
            let r = self.line(p.line)?; let s = r.0.0 as usize;
            Some(WideLineCol { line: p.line, col: w(e, self.text.get(s..s + p.col as usize)?) })
        }
        pub fn lines(&self, r: TextRange) -> impl Iterator<Item = TextRange> + '_ {
            let lo = self.starts.partition_point(|s| *s < r.0.0); let hi = self.starts.partition_point(|s| *s <= r.1.0);
            let mut c = vec![r.0.0]; c.extend(self.starts[lo..hi.max(lo)].iter().copied()); c.push(r.1.0);
            let v: Vec<TextRange> = c.windows(2).map(|w| TextRange(TextSize(w[0]), TextSize(w[1]))).filter(|r| !r.is_empty()).collect();
            v.into_iter()
        }
    }
}
pub use line_index::{LineCol, WideLineCol, WideEncoding};
#[derive(Clone, Copy)] pub enum PositionEncoding { Utf8, Wide(line_index::WideEncoding) }
#[derive(Clone, Copy, PartialEq, Eq, Debug)] pub enum LineEndings { Unix, Dos }
pub struct LineIndex { pub index: Arc<line_index::LineIndex>, pub endings: LineEndings, pub encoding: PositionEncoding }
pub mod lsp_types {
    #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Default)] pub struct Position { pub line: u32, pub character: u32 }
    impl Position { pub fn new(line: u32, character: u32) -> Self { Position { line, character } } }
    #[derive(Clone, Copy, PartialEq, Eq, Debug, Default)] pub struct Range { pub start: Position, pub end: Position }
    impl Range { pub fn new(start: Position, end: Position) -> Self { Range { start, end } } }
    #[derive(Clone, Debug)] pub struct TextDocumentContentChangePartial { pub range: Range, pub text: String }
    #[derive(Clone, Debug)] pub struct TextDocumentContentChangeWholeDocument { pub text: String }
    #[derive(Clone, Debug)] pub enum TextDocumentContentChangeEvent { TextDocumentContentChangePartial(TextDocumentContentChangePartial), TextDocumentContentChangeWholeDocument(TextDocumentContentChangeWholeDocument) }
    #[derive(Clone, Debug, PartialEq)] pub struct TextEdit { pub range: Range, pub new_text: String }
    #[derive(Clone, Debug, PartialEq)] pub struct InsertReplaceEdit { pub new_text: String, pub insert: Range, pub replace: Range }
    #[derive(Clone, Debug)] pub enum CompletionItemTextEdit { TextEdit(TextEdit), InsertReplaceEdit(InsertReplaceEdit) }
    #[derive(Clone, Debug, Default)] pub struct CompletionItem { pub text_edit: Option<CompletionItemTextEdit>, pub additional_text_edits: Option<Vec<TextEdit>> }
    #[derive(Clone, Copy, PartialEq, Eq, Debug)] pub struct SemanticToken { pub delta_line: u32, pub delta_start: u32, pub length: u32, pub token_type: u32, pub token_modifiers_bitset: u32 }
    #[derive(Clone, Debug)] pub struct SemanticTokens { pub result_id: Option<String>, pub data: Vec<SemanticToken> }
    #[derive(Clone, Debug)] pub struct SemanticTokensEdit { pub start: u32, pub delete_count: u32, pub data: Option<Vec<SemanticToken>> }
}
pub use lsp_types::{SemanticToken, SemanticTokens, SemanticTokensEdit};
pub mod from_proto { pub(crate) use crate::*; }
