S='crates/stdext/src/line_endings.rs'
DEMO='''#!/bin/bash
# compiles the real line_endings.rs into a small program and checks normalisation and the way back
here="$(cd "$(dirname "$0")" && pwd)"; repo="$(pwd)"
W="$(mktemp -d)"; trap 'rm -rf "$W"' EXIT
mkdir -p "$W/src"
cp "$here/demo.toml" "$W/Cargo.toml"; cp "$here/main.rs" "$W/src/main.rs"
cp "$repo/crates/stdext/src/line_endings.rs" "$W/src/line_endings.rs"
cd "$W" && CARGO_TARGET_DIR="$W/t" cargo build -q --offline 2> "$W/err" || { cat "$W/err"; exit 99; }
timeout 60 "$W/t/debug/demo"
'''
TOML='''[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
memchr = "2"
[workspace]
'''
MAIN='''#![allow(dead_code)]
mod line_endings;
use line_endings::LineEndings;
fn main() {
    let long: String = (0..700).map(|i| format!("line {i}\\r\\n")).collect();
    let cases: Vec<String> = vec!["".into(), "\\r".into(), "\\r\\n".into(), "a\\rb\\r\\nc".into(), "one\\r\\ntwo\\nthree\\n".into(), "x\\r\\r\\ny".into(), "\\n\\r\\n".into(), "abc\\ndef".into(), "caf\\u{e9}\\r\\n\\u{4f60}\\r\\n".into(), "\\r\\na\\r\\n\\r\\n".into(), long];
    for c in cases {
        let (got, e) = LineEndings::normalize(c.clone());
        let want = c.replace("\\r\\n", "\\n");
        assert_eq!(got, want, "normalize {c:?}");
        assert_eq!(e == LineEndings::Dos, c.contains("\\r\\n"), "ending of {c:?}");
        assert_eq!(LineEndings::Dos.map(want.clone()), want.replace('\\n', "\\r\\n"), "map dos");
        assert_eq!(LineEndings::Unix.map(want.clone()), want, "map unix");
    }
}
'''
F={'demo.sh':DEMO,'demo.toml':TOML,'main.rs':MAIN}
SEEDS=[
 dict(id='t01-lone-carriage-return',property='T01',edits=[(S,'memmem::Finder::new(b"\\r\\n")','memmem::Finder::new(b"\\r")')],
      needs='a text with a carriage return that is not followed by a line feed',breaks='the lone CR is deleted, and the text is reported as Dos: every later offset of the file is off',files=F),
 dict(id='t01-single-crlf-is-unix',property='T01',edits=[(S,'(src, LineEndings::Dos)\n','(src, if gap_len > 1 { LineEndings::Dos } else { LineEndings::Unix })\n')],
      needs='a file with exactly one CRLF',breaks='the file is reported as Unix although a CR was removed',files=F),
 dict(id='t01-map-first-lines-only',property='T01',edits=[(S,'text.replace(\'\\n\', "\\r\\n")','text.replacen(\'\\n\', "\\r\\n", 512)')],
      needs='an edit of more than 512 lines in a Dos file',breaks='the edit mixes line endings',files=F),
]
