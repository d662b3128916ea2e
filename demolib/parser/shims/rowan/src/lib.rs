//! stand-in for the few rowan/text-size items the parser uses
use std::ops::*;
#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct TextSize { raw: u32 }
impl std::fmt::Debug for TextSize { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.raw) } }
impl TextSize {
    pub const fn new(raw: u32) -> Self { TextSize { raw } }
    pub fn of(t: &str) -> Self { TextSize { raw: t.len() as u32 } }
}
impl From<u32> for TextSize { fn from(raw: u32) -> Self { TextSize { raw } } }
impl From<TextSize> for u32 { fn from(t: TextSize) -> u32 { t.raw } }
impl From<TextSize> for usize { fn from(t: TextSize) -> usize { t.raw as usize } }
impl Add for TextSize { type Output = TextSize; fn add(self, o: TextSize) -> TextSize { TextSize { raw: self.raw + o.raw } } }
impl Sub for TextSize { type Output = TextSize; fn sub(self, o: TextSize) -> TextSize { TextSize { raw: self.raw - o.raw } } }
impl AddAssign for TextSize { fn add_assign(&mut self, o: TextSize) { self.raw += o.raw } }
impl SubAssign for TextSize { fn sub_assign(&mut self, o: TextSize) { self.raw -= o.raw } }
impl std::iter::Sum for TextSize { fn sum<I: Iterator<Item = TextSize>>(i: I) -> TextSize { TextSize { raw: i.map(|x| x.raw).sum() } } }
#[derive(Copy, Clone, PartialEq, Eq, Hash, Debug)]
pub struct TextRange { start: TextSize, end: TextSize }
impl TextRange {
    pub fn new(start: TextSize, end: TextSize) -> Self { assert!(start <= end); TextRange { start, end } }
    pub fn at(o: TextSize, len: TextSize) -> Self { Self::new(o, o + len) }
    pub fn empty(o: TextSize) -> Self { Self::new(o, o) }
    pub fn up_to(e: TextSize) -> Self { Self::new(0.into(), e) }
    pub fn start(self) -> TextSize { self.start }
    pub fn end(self) -> TextSize { self.end }
    pub fn len(self) -> TextSize { self.end - self.start }
}
impl Index<TextRange> for str { type Output = str; fn index(&self, r: TextRange) -> &str { &self[r.start.raw as usize..r.end.raw as usize] } }
impl Index<TextRange> for String { type Output = str; fn index(&self, r: TextRange) -> &str { &self[r.start.raw as usize..r.end.raw as usize] } }
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum GreenNode { Node(u16, Vec<GreenNode>), Token(u16, String) }
impl Add<TextSize> for &TextSize { type Output = TextSize; fn add(self, o: TextSize) -> TextSize { *self + o } }
impl Add<&TextSize> for TextSize { type Output = TextSize; fn add(self, o: &TextSize) -> TextSize { self + *o } }
