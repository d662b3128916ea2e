//! the parts of rust-analyzer's `vfs` that project-model uses
pub use paths::{AbsPath, AbsPathBuf};
use std::collections::HashMap;
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct FileId(pub u32);
#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct VfsPath(pub AbsPathBuf);
impl From<AbsPathBuf> for VfsPath { fn from(p: AbsPathBuf) -> Self { VfsPath(p) } }
impl VfsPath {
    pub fn parent(&self) -> Option<VfsPath> { self.0.parent().map(|p| VfsPath(p.to_path_buf())) }
    pub fn as_path(&self) -> Option<&AbsPath> { Some(self.0.as_path()) }
    pub fn starts_with(&self, o: &VfsPath) -> bool { self.0.starts_with(&o.0) }
}
#[derive(PartialEq, Eq)]
pub enum FileExcluded { Yes, No }
#[derive(Default)]
pub struct Vfs { pub files: Vec<VfsPath> }
impl Vfs {
    pub fn set_file_contents(&mut self, p: VfsPath, c: Option<Vec<u8>>) -> bool { if c.is_some() && !self.files.contains(&p) { self.files.push(p); } true }
    pub fn file_id(&self, p: &VfsPath) -> Option<(FileId, FileExcluded)> { self.files.iter().position(|x| x == p).map(|i| (FileId(i as u32), FileExcluded::No)) }
    pub fn file_path(&self, f: FileId) -> &VfsPath { &self.files[f.0 as usize] }
}
pub mod loader {
    use super::*;
    #[derive(Debug, Clone, Default)]
    pub struct Directories { pub extensions: Vec<String>, pub include: Vec<AbsPathBuf>, pub exclude: Vec<AbsPathBuf> }
    #[derive(Debug, Clone)]
    pub enum Entry { Files(Vec<AbsPathBuf>), Directories(Directories) }
}
pub mod file_set {
    use super::*;
    #[derive(Default, Clone, Debug)]
    pub struct FileSet { pub files: HashMap<VfsPath, FileId> }
    impl FileSet { pub fn file_for_path(&self, p: &VfsPath) -> Option<&FileId> { self.files.get(p) } }
    #[derive(Default, Debug)]
    pub struct FileSetConfig { roots: Vec<Vec<VfsPath>> }
    #[derive(Default)]
    pub struct FileSetConfigBuilder { roots: Vec<Vec<VfsPath>> }
    impl FileSetConfigBuilder {
        pub fn len(&self) -> usize { self.roots.len() }
        pub fn add_file_set(&mut self, r: Vec<VfsPath>) { self.roots.push(r) }
        pub fn build(self) -> FileSetConfig { FileSetConfig { roots: self.roots } }
    }
    impl FileSetConfig {
        pub fn builder() -> FileSetConfigBuilder { Default::default() }
        pub fn partition(&self, vfs: &Vfs) -> Vec<FileSet> {
            let mut r = vec![FileSet::default(); self.roots.len() + 1];
            for (i, p) in vfs.files.iter().enumerate() {
                let best = (0..self.roots.len()).filter(|k| self.roots[*k].iter().any(|x| p.starts_with(x))).max_by_key(|k| self.roots[*k].iter().map(|x| x.0.as_str().len()).max());
                r[best.unwrap_or(self.roots.len())].files.insert(p.clone(), FileId(i as u32));
            }
            r
        }
    }
}
