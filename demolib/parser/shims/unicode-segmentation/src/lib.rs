//! stand-in: a grapheme is one char plus following combining marks (U+0300..U+036F), CRLF is one
pub struct Graphemes<'a>(&'a str);
impl<'a> Iterator for Graphemes<'a> {
    type Item = &'a str;
    fn next(&mut self) -> Option<&'a str> {
        let mut it = self.0.char_indices();
        let (_, c) = it.next()?;
        let mut end = c.len_utf8();
        for (i, d) in it {
            if ('\u{300}'..='\u{36f}').contains(&d) || (i == 1 && c == '\r' && d == '\n') { end = i + d.len_utf8(); } else { break; }
        }
        let (a, b) = self.0.split_at(end);
        self.0 = b;
        Some(a)
    }
}
pub trait UnicodeSegmentation { fn graphemes(&self, ext: bool) -> Graphemes<'_>; }
impl UnicodeSegmentation for str { fn graphemes(&self, _: bool) -> Graphemes<'_> { Graphemes(self) } }
