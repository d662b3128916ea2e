S='crates/aptos-language-server/src/lsp/semantic_tokens.rs'; H='crates/ide/src/syntax_highlighting/highlights.rs'; T='crates/aptos-language-server/src/lsp/to_proto.rs'
BUILD='''
use lsp_types::Range;
fn main() {
    use lsp_types::*;
    let toks = [(0u32, 2u32, 3u32, 7u32), (0, 5, 9, 1), (0, 9, 10, 4), (2, 0, 4, 2), (2, 12, 20, 9), (3, 12, 13, 9), (3, 13, 14, 3)];
    let mut b = SemanticTokensBuilder::new("id".into());
    for (l, s, e, t) in toks { b.push(Range::new(Position::new(l, s), Position::new(l, e)), t); }
    let (mut line, mut ch) = (0, 0);
    let got: Vec<_> = b.build().data.iter().map(|t| {
        if t.delta_line != 0 { ch = 0; }
        line += t.delta_line; ch += t.delta_start;
        (line, ch, ch + t.length, t.token_type)
    }).collect();
    assert_eq!(got, toks.to_vec());
}
'''
DIFF='''
fn main() {
    use lsp_types::*;
    let t = |i: u32| SemanticToken { delta_line: i, delta_start: 1, length: 1, token_type: 0, token_modifiers_bitset: 0 };
    let lists: Vec<Vec<u32>> = (0..5usize).flat_map(|n| (0..3usize.pow(n as u32)).map(move |mut k| (0..n).map(|_| { let d = (k % 3) as u32; k /= 3; d }).collect())).collect();
    for a in &lists { for b in &lists {
        let (old, new): (Vec<_>, Vec<_>) = (a.iter().map(|x| t(*x)).collect(), b.iter().map(|x| t(*x)).collect());
        let es = diff_tokens(&old, &new);
        let mut flat: Vec<SemanticToken> = old.clone();
        for e in es.iter().rev() {
            assert!(e.start % 5 == 0 && e.delete_count % 5 == 0);
            let (s, d) = ((e.start / 5) as usize, (e.delete_count / 5) as usize);
            flat.splice(s..s + d, e.data.clone().unwrap_or_default());
        }
        assert_eq!(flat, new, "{a:?} -> {b:?}");
    }}
}
'''
HLSH='''#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
W="$(mktemp -d)"; trap 'rm -rf "$W"' EXIT
grep -v '^use \\(crate\\|syntax\\|stdx\\)' crates/ide/src/syntax_highlighting/highlights.rs | sed 's/pub(super)/pub/' > "$W/hl.rs"
cp "$here/main.rs" "$W/main.rs"
rustc --edition 2024 -A warnings -o "$W/demo" "$W/main.rs" || exit 99
timeout 60 "$W/demo"
'''
HLMAIN='''
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)] pub struct TextSize(u32);
#[derive(Clone, Copy, Debug, PartialEq, Eq)] pub struct TextRange(u32, u32);
impl TextRange {
    pub fn new(a: TextSize, b: TextSize) -> Self { assert!(a <= b); TextRange(a.0, b.0) }
    pub fn start(self) -> TextSize { TextSize(self.0) }
    pub fn end(self) -> TextSize { TextSize(self.1) }
    pub fn len(self) -> TextSize { TextSize(self.1 - self.0) }
    pub fn is_empty(self) -> bool { self.0 == self.1 }
    pub fn contains_range(self, o: TextRange) -> bool { self.0 <= o.0 && o.1 <= self.1 }
    pub fn ordering(a: TextRange, b: TextRange) -> std::cmp::Ordering {
        if a.1 <= b.0 { std::cmp::Ordering::Less } else if b.1 <= a.0 { std::cmp::Ordering::Greater } else { std::cmp::Ordering::Equal }
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)] pub enum HlTag { None, S(u32) }
#[derive(Clone, Copy, Debug, PartialEq, Eq)] pub struct Highlight(HlTag);
impl From<HlTag> for Highlight { fn from(t: HlTag) -> Self { Highlight(t) } }
#[derive(Clone, Copy, Debug, PartialEq, Eq)] pub struct HlRange { pub range: TextRange, pub highlight: Highlight }
fn equal_range_by<T, F: FnMut(&T) -> std::cmp::Ordering>(s: &[T], mut key: F) -> std::ops::Range<usize> {
    let start = s.partition_point(|x| key(x) == std::cmp::Ordering::Less);
    let len = s[start..].partition_point(|x| key(x) == std::cmp::Ordering::Equal);
    start..start + len
}
mod hl { use super::*; include!("hl.rs"); }
fn main() {
    // nested ranges, in any order: the innermost one colours each offset (for equal ranges the later one)
    let all = [(0u32, 1u32), (2, 8), (2, 4), (5, 8), (9, 11), (5, 6)];
    fn perms(v: Vec<usize>) -> Vec<Vec<usize>> { if v.len() < 2 { return vec![v]; } (0..v.len()).flat_map(|i| { let mut w = v.clone(); let x = w.remove(i); perms(w).into_iter().map(move |mut p| { p.insert(0, x); p }) }).collect() }
    for p in perms((0..all.len()).collect()) {
        let mut h = hl::Highlights::new(TextRange(0, 15));
        for i in &p { h.add(HlRange { range: TextRange(all[*i].0, all[*i].1), highlight: HlTag::S(*i as u32).into() }); }
        let v = h.to_vec();
        let mut at = 0;
        for r in &v {
            assert!(r.range.0 == at && r.range.1 > at, "{p:?}: gap or overlap {v:?}"); at = r.range.1;
            for o in r.range.0..r.range.1 {
                let want = (0..all.len()).filter(|i| all[*i].0 <= o && o < all[*i].1).min_by_key(|i| all[*i].1 - all[*i].0).map(|i| HlTag::S(i as u32)).unwrap_or(HlTag::None);
                assert_eq!(r.highlight.0, want, "{p:?} offset {o}: {v:?}");
            }
        }
        assert_eq!(at, 15);
    }
}
'''
I='SemanticTokensBuilder=lsp/semantic_tokens.rs'
def s(id,edits,needs,breaks,main,items): return dict(id=id,property='L05',edits=edits,needs=needs,breaks=breaks,libs=['lsp'],files={'main.rs':main,'items':items})
def h(id,edits,needs,breaks): return dict(id=id,property='L05',edits=edits,needs=needs,breaks=breaks,files={'main.rs':HLMAIN,'demo.sh':HLSH})
SEEDS=[
 s('l05-line-delta-lost',[(S,"            push_line -= self.prev_line;\n            if push_line == 0 {\n                push_char -= self.prev_char;\n            }","            push_line -= self.prev_line;\n            push_char = push_char.checked_sub(self.prev_char).unwrap_or(push_char);")],'a token on a later line at a greater column than the token before it','the column of a token on a new line is sent relative to the line before',BUILD,I),
 s('l05-diff-overlapping-suffix',[(S,"    let (_, old) = old.split_at(offset);\n    let (_, new) = new.split_at(offset);\n\n",""),(S,"    let (old, _) = old.split_at(old.len() - offset_from_end);\n    let (new, _) = new.split_at(new.len() - offset_from_end);","    let old = &old[offset..offset.max(old.len() - offset_from_end)];\n    let new = &new[offset..offset.max(new.len() - offset_from_end)];")],'a token list that shrinks or grows inside a run of equal tokens','the common prefix and suffix overlap and the edit leaves a different list',DIFF,'diff_tokens=lsp/semantic_tokens.rs'),
 h('l05-range-after-child-lost',[(H,"                    child.flatten(acc);\n                    child.hl_range.range.end()","                    child.flatten(acc);\n                    acc.last().map_or(start, |it| it.range.start().max(child.hl_range.range.start()))")],'an element highlighted inside another','the offsets of a nested element are given twice, once with the style of the outer one'),
 h('l05-wrapping-range-takes-one-child',[(H,"            .splice(overlapping.clone(), iter::once(Node::new(hl_range)))\n            .collect::<Vec<_>>();","            .splice(overlapping.clone(), iter::once(Node::new(hl_range)))\n            .take(if overlapping.start == 0 { overlapping.len() } else { 1 })\n            .collect::<Vec<_>>();")],'an outer element added after two of its nested elements, when an earlier sibling exists','highlighting of all children but the first is lost'),
]
