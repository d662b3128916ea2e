S='crates/ide-db/src/text_edit.rs'
DEMO='''#!/bin/bash
# compiles the real text_edit.rs against small stand-ins for text-size and itertools, and checks edits against a reference
here="$(cd "$(dirname "$0")" && pwd)"; repo="$(pwd)"
W="$(mktemp -d)"; trap 'rm -rf "$W"' EXIT
cp "$here/main.rs" "$W/main.rs"
sed -e 's/^use itertools::Itertools;/use crate::Itertools;/' -e 's/^use syntax::/use crate::/' "$repo/crates/ide-db/src/text_edit.rs" > "$W/text_edit.rs"
rustc --edition 2021 -A warnings -o "$W/demo" "$W/main.rs" 2> "$W/err" || { cat "$W/err"; exit 99; }
timeout 120 "$W/demo"
'''
MAIN=r'''// stand-ins for text-size and itertools
use std::ops::*;
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Default)]
pub struct TextSize(pub u32);
pub trait Len { fn l(&self) -> u32; }
impl Len for &str { fn l(&self) -> u32 { self.len() as u32 } }
impl Len for &String { fn l(&self) -> u32 { self.len() as u32 } }
impl TextSize {
    pub fn of<T: Len>(t: T) -> Self { TextSize(t.l()) }
    pub fn checked_sub(self, o: Self) -> Option<Self> { self.0.checked_sub(o.0).map(TextSize) }
}
impl From<u32> for TextSize { fn from(x: u32) -> Self { TextSize(x) } }
impl From<TextSize> for usize { fn from(x: TextSize) -> usize { x.0 as usize } }
impl From<TextSize> for u32 { fn from(x: TextSize) -> u32 { x.0 } }
impl Add for TextSize { type Output = Self; fn add(self, o: Self) -> Self { TextSize(self.0 + o.0) } }
impl Sub for TextSize { type Output = Self; fn sub(self, o: Self) -> Self { TextSize(self.0 - o.0) } }
impl AddAssign for TextSize { fn add_assign(&mut self, o: Self) { self.0 += o.0 } }
impl SubAssign for TextSize { fn sub_assign(&mut self, o: Self) { self.0 -= o.0 } }
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub struct TextRange { s: TextSize, e: TextSize }
impl TextRange {
    pub fn new(s: TextSize, e: TextSize) -> Self { assert!(s <= e); TextRange { s, e } }
    pub fn empty(s: TextSize) -> Self { TextRange { s, e: s } }
    pub fn at(s: TextSize, l: TextSize) -> Self { TextRange { s, e: s + l } }
    pub fn up_to(e: TextSize) -> Self { TextRange { s: TextSize(0), e } }
    pub fn start(self) -> TextSize { self.s }
    pub fn end(self) -> TextSize { self.e }
    pub fn len(self) -> TextSize { self.e - self.s }
    pub fn is_empty(self) -> bool { self.s == self.e }
    pub fn contains(self, o: TextSize) -> bool { self.s <= o && o < self.e }
    pub fn contains_inclusive(self, o: TextSize) -> bool { self.s <= o && o <= self.e }
    pub fn cover(self, o: Self) -> Self { TextRange { s: self.s.min(o.s), e: self.e.max(o.e) } }
}
impl From<TextRange> for Range<usize> { fn from(r: TextRange) -> Self { r.s.0 as usize..r.e.0 as usize } }
pub trait Itertools: Iterator + Sized {
    fn collect_vec(self) -> Vec<Self::Item> { self.collect() }
    fn coalesce<F: FnMut(Self::Item, Self::Item) -> Result<Self::Item, (Self::Item, Self::Item)>>(mut self, mut f: F) -> std::vec::IntoIter<Self::Item> {
        let mut out = vec![];
        if let Some(mut a) = self.next() {
            for b in self { match f(a, b) { Ok(x) => a = x, Err((x, y)) => { out.push(x); a = y; } } }
            out.push(a);
        }
        out.into_iter()
    }
    fn dedup_by<F: FnMut(&Self::Item, &Self::Item) -> bool>(self, mut f: F) -> std::vec::IntoIter<Self::Item> {
        let mut out: Vec<Self::Item> = vec![];
        for b in self { if out.last().map_or(true, |a| !f(a, &b)) { out.push(b); } }
        out.into_iter()
    }
    fn merge_by<J: IntoIterator<Item = Self::Item>, F: FnMut(&Self::Item, &Self::Item) -> bool>(self, o: J, mut f: F) -> std::vec::IntoIter<Self::Item> {
        let (mut a, mut b) = (self.peekable(), o.into_iter().peekable());
        let mut out = vec![];
        loop {
            match (a.peek(), b.peek()) {
                (Some(x), Some(y)) => if f(x, y) { out.push(a.next().unwrap()) } else { out.push(b.next().unwrap()) },
                (Some(_), None) => out.push(a.next().unwrap()),
                (None, Some(_)) => out.push(b.next().unwrap()),
                _ => return out.into_iter(),
            }
        }
    }
}
impl<I: Iterator> Itertools for I {}
mod text_edit;
use text_edit::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
const T: &str = "0123456789abcdef";
type Ch = (u32, u32, &'static str);
fn sz(x: u32) -> TextSize { TextSize(x) }
fn build(cs: &[Ch]) -> Option<TextEdit> {
    catch_unwind(AssertUnwindSafe(|| {
        let mut b = TextEdit::builder();
        for (s, e, t) in cs { b.replace(TextRange::new(sz(*s), sz(*e)), t.to_string()); }
        b.finish()
    })).ok()
}
// the changes in order, duplicates of replacements dropped; None when two of them overlap
fn plan(cs: &[Ch]) -> Option<Vec<Ch>> {
    let mut v = cs.to_vec();
    v.sort_by_key(|c| (c.0, c.1));
    v.dedup_by(|b, a| a == b && a.0 != a.1);
    if v.windows(2).any(|w| w[0].1 > w[1].0) { return None; }
    Some(v)
}
fn render(p: &[Ch]) -> String {
    let (mut out, mut at) = (String::new(), 0);
    for (s, e, t) in p { out += &T[at..*s as usize]; out += t; at = *e as usize; }
    out + &T[at..]
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut pool: Vec<Ch> = vec![];
    for s in 2..6u32 { for e in s..=6u32.min(s + 2) { pool.push((s, e, "")); pool.push((s, e, "xyz")); if s == e { pool.push((s, e, "Q")); } } }
    let mut rc = 0;
    let mut bad = |m: String| { if rc < 5 { println!("FAIL {m}"); } rc += 1; };
    let mut lists: Vec<Vec<Ch>> = vec![];
    for a in &pool { lists.push(vec![*a]); for b in &pool { lists.push(vec![*a, *b]); for c in &pool { if (a.0 + b.1 * 3 + c.1) % 2 == 0 { lists.push(vec![*a, *b, *c]); } } } }
    // long lists: more than the builder checks on the way
    lists.push((0..14).map(|i| (i, i + 1, "")).collect());
    let names = ["a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z"];
    lists.push((0..78).map(|i| ((i * 7 + i / 5) % 9, (i * 7 + i / 5) % 9, names[(i % 26) as usize])).collect());
    lists.push((0..30).rev().map(|i| (i / 2, i / 2, if i % 2 == 0 { "e" } else { "o" })).collect());
    let mut l: Vec<Ch> = (0..17).map(|_| (9, 9, "i")).collect(); l.push((3, 7, "")); l.push((5, 8, "")); lists.push(l);
    for cs in &lists {
        let (got, want) = (build(cs), plan(cs));
        match (&got, &want) {
            (None, None) => {}
            (Some(e), Some(p)) => {
                let mut t = T.to_string();
                if catch_unwind(AssertUnwindSafe(|| e.apply(&mut t))).is_err() || t != render(p) { bad(format!("{cs:?}: gives {t:?}, must give {:?}", render(p))); }
                for o in 0..=16 {
                    let inside = p.iter().any(|c| c.0 < o && o < c.1);
                    let w = (!inside).then(|| p.iter().filter(|c| c.0 < o).fold(o as i64, |r, c| r + c.2.len() as i64 - (c.1 - c.0) as i64));
                    // coalesced changes hide the borders between their parts
                    let merged = p.windows(2).any(|w| w[0].1 == w[1].0);
                    if !merged && e.apply_to_offset(sz(o)).map(|x| x.0 as i64) != w { bad(format!("{cs:?}: offset {o} goes to {:?}, must go to {w:?}", e.apply_to_offset(sz(o)))); }
                }
            }
            _ => bad(format!("{cs:?}: accepted {}, must be {}", got.is_some(), want.is_some())),
        }
    }
    for a in lists.iter().filter(|l| l.len() <= 2) { for b in pool.iter() {
        let (Some(mut x), Some(y)) = (build(a), build(&[*b])) else { continue };
        let before = { let mut t = T.to_string(); x.apply(&mut t); t };
        let ok = x.union(y).is_ok();
        let mut all = a.clone(); all.push(*b);
        let mut t = T.to_string();
        if catch_unwind(AssertUnwindSafe(|| x.apply(&mut t))).is_err() { bad(format!("union {a:?} {b:?}: apply panics")); continue; }
        if !ok && t != before { bad(format!("union {a:?} {b:?}: refused, but changed")); }
        if ok && a.len() == 1 && plan(&all).is_none() { bad(format!("union {a:?} {b:?}: accepted an overlap")); }
        if ok && a.len() == 1 && a[0].0 != b.0 { let p = plan(&all).unwrap(); if t != render(&p) { bad(format!("union {a:?} {b:?}: gives {t:?}")); } }
        if ok && a.len() == 1 && a[0] == *b { let p = plan(&all).unwrap(); if t != render(&p) { bad(format!("union of equals {a:?}: gives {t:?}")); } }
    } }
    std::process::exit((rc > 0) as i32);
}
'''
F={'demo.sh':DEMO,'main.rs':MAIN}
SEEDS=[
 dict(id='d03-unstable-sort',property='D03',edits=[(S,'    text_changes.sort_by_key(|change| (change.range.start(), change.range.end()));','    text_changes.sort_unstable_by_key(|change| (change.range.start(), change.range.end()));')],
      needs='more than twenty insertions, several at the same offset',breaks='insertions at one place come out in another order than they were added',files=F),
 dict(id='d03-union-drops-insertions',property='D03',edits=[(S,'.dedup_by(|a, b| a == b && !a.range.is_empty())','.dedup_by(|a, b| a == b)')],
      needs='two edits that insert the same text at the same offset',breaks='one of the two insertions is lost',files=F),
 dict(id='d03-offset-at-change-start',property='D03',edits=[(S,'if indel.range.start() >= offset {','if indel.range.start() > offset {')],
      needs='an offset exactly where an insertion or replacement starts',breaks='the cursor is moved behind the inserted text, or no position is given',files=F),
 dict(id='d03-equal-ranges-accepted',property='D03',edits=[(S,'l.range.end() <= r.range.start() || l == r)','l.range.end() <= r.range.start() || l.range == r.range)')],
      needs='two different replacements of the same range',breaks='both are applied one on top of the other instead of being refused',files=F),
]
