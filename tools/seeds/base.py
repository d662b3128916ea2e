C='crates/base-db/src/change.rs'
SH='''#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
W="$(mktemp -d)"; trap 'rm -rf "$W"' EXIT
grep -v '^use ' crates/base-db/src/change.rs > "$W/change.rs"
cp "$here/main.rs" "$W/main.rs"
rustc --edition 2024 -A warnings -o "$W/demo" "$W/main.rs" || exit 99
timeout 60 "$W/demo"
'''
MAIN='''
use std::collections::HashMap;
use std::fmt;
pub mod tracing { #[macro_export] macro_rules! info_span { ($($t:tt)*) => { Span } } pub use crate::info_span; }
pub struct Span; impl Span { pub fn entered(self) -> Span { self } }
#[derive(Clone, Copy, Debug, PartialEq, Eq)] pub struct Durability(u8);
impl Durability { pub const LOW: Self = Durability(0); pub const MEDIUM: Self = Durability(1); pub const HIGH: Self = Durability(2); }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)] pub struct FileId(u32);
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)] pub struct PackageId(u32);
#[derive(Clone, Debug, PartialEq, Eq)] pub struct PackageMetadata(u32);
#[derive(Clone, Debug, PartialEq, Eq)] pub enum PackageKind { Local, Library }
#[derive(Clone, Debug, PartialEq, Eq)] pub struct PackageRoot { files: Vec<FileId>, kind: PackageKind }
impl PackageRoot { pub fn is_library(&self) -> bool { self.kind == PackageKind::Library } }
pub struct Root(PackageRoot);
impl Root { pub fn data(self, _: &dyn SourceDatabase) -> PackageRoot { self.0 } }
pub struct Text(String);
impl Text { pub fn text(self, _: &dyn SourceDatabase) -> String { self.0 } }
pub trait SourceDatabase {
    fn file_text(&self, f: FileId) -> Text;
    fn set_file_text(&mut self, f: FileId, t: &str);
    fn set_file_text_with_durability(&mut self, f: FileId, t: &str, d: Durability);
    fn package_root(&self, p: PackageId) -> Root;
    fn replace_package_roots(&mut self, r: Vec<PackageRoot>);
    fn file_package_id(&self, f: FileId) -> PackageId;
    fn builtins_file_id(&self) -> Option<FileId>;
    fn set_builtins_file_id(&mut self, id: Option<FileId>);
    fn set_package_metadata(&mut self, m: FileId, d: PackageMetadata);
    fn set_spec_related_files(&mut self, f: FileId, s: Vec<FileId>);
}
#[derive(Default)] struct Db { text: HashMap<FileId, String>, roots: Vec<PackageRoot>, spec: HashMap<FileId, Vec<FileId>>, meta: HashMap<FileId, PackageMetadata>, b: Option<FileId> }
impl SourceDatabase for Db {
    fn file_text(&self, f: FileId) -> Text { Text(self.text[&f].clone()) }
    fn set_file_text(&mut self, f: FileId, t: &str) { self.text.insert(f, t.into()); }
    fn set_file_text_with_durability(&mut self, f: FileId, t: &str, _: Durability) { self.text.insert(f, t.into()); }
    fn package_root(&self, p: PackageId) -> Root { Root(self.roots[p.0 as usize].clone()) }
    fn replace_package_roots(&mut self, r: Vec<PackageRoot>) { self.spec.clear(); for p in &r { for f in &p.files { self.spec.insert(*f, vec![]); } } if let Some(b) = self.b { self.spec.insert(b, vec![]); } self.roots = r; }
    fn file_package_id(&self, f: FileId) -> PackageId { PackageId(self.roots.iter().position(|r| r.files.contains(&f)).expect("this is a bug") as u32) }
    fn builtins_file_id(&self) -> Option<FileId> { self.b }
    fn set_builtins_file_id(&mut self, id: Option<FileId>) { self.b = id; }
    fn set_package_metadata(&mut self, m: FileId, d: PackageMetadata) { self.meta.insert(m, d); }
    fn set_spec_related_files(&mut self, f: FileId, s: Vec<FileId>) { self.spec.insert(f, s); }
}
include!("change.rs");
fn main() {
    let mut db = Db::default();
    let (a, l, b) = (FileId(1), FileId(2), FileId(9));
    let local = |f: Vec<FileId>| PackageRoot { files: f, kind: PackageKind::Local };
    let lib = |f: Vec<FileId>| PackageRoot { files: f, kind: PackageKind::Library };
    let mut c = FileChanges::new();
    c.set_package_roots(vec![local(vec![a]), lib(vec![l])]);
    c.add_builtins_file(b, "builtins".into());
    c.change_file(a, Some("one".into()));
    c.change_file(l, Some("lib".into()));
    let mut g = PackageGraph::new(); g.insert(FileId(5), PackageMetadata(7));
    c.set_package_graph(g);
    c.apply(&mut db);
    assert_eq!((&*db.text[&a], &*db.text[&l], &*db.text[&b]), ("one", "lib", "builtins"));
    assert_eq!(db.b, Some(b)); assert!(db.spec.contains_key(&b), "no spec file set of the builtins file"); assert_eq!(db.meta[&FileId(5)], PackageMetadata(7));
    // two changes of one file, a library file changed, no new roots
    let mut c = FileChanges::new();
    c.change_file(a, Some("two".into())); c.change_file(a, Some("three".into())); c.change_file(l, Some("lib2".into()));
    c.apply(&mut db);
    assert_eq!((&*db.text[&a], &*db.text[&l]), ("three", "lib2"));
    // with new roots: a library file is edited, a file is emptied
    let mut c = FileChanges::new();
    c.set_package_roots(vec![local(vec![a, FileId(3)]), lib(vec![l])]);
    c.change_file(l, Some("lib3".into())); c.change_file(FileId(3), Some("new".into())); c.change_file(a, None);
    c.apply(&mut db);
    assert_eq!((&*db.text[&a], &*db.text[&l], &*db.text[&FileId(3)]), ("", "lib3", "new"));
    assert_eq!(db.roots.len(), 2); assert!(db.spec.contains_key(&b));
}
'''
def s(id,edits,needs,breaks): return dict(id=id,property='D02',edits=edits,needs=needs,breaks=breaks,files={'main.rs':MAIN,'demo.sh':SH})
SEEDS=[
 s('d02-deleted-file-keeps-text',[(C,"            let text = text.unwrap_or_default();","            let Some(text) = text else {\n                continue;\n            };")],'a file deleted from disk while other files still refer to it','the analysis goes on with the text of the deleted file'),
 s('d02-library-text-not-renewed',[(C,"                let durability = file_text_durability(&package_root);\n                db.set","                let durability = file_text_durability(&package_root);\n                if durability == Durability::HIGH && package_root.is_library() && db.builtins_file_id().is_some() {\n                    continue;\n                }\n                db.set")],'a file of a library changed in the same batch in which files are created','the library file keeps its old text'),
 s('d02-changes-applied-from-the-end',[(C,"        for (file_id, text) in self.files_changed {","        let mut files_changed = self.files_changed;\n        while let Some((file_id, text)) = files_changed.pop() {")],'one file changed twice in a batch','the older text wins'),
 s('d02-builtins-without-spec-set',[(C,"            db.set_spec_related_files(builtins_file_id, vec![]);","            if self.package_roots.is_none() {\n                db.set_spec_related_files(builtins_file_id, vec![]);\n            }")],'builtins and package roots given in one change','the first query that asks for the spec files of the builtins panics'),
]
