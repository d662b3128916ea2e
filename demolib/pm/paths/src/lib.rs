//! the parts of rust-analyzer's `paths` that project-model uses
pub use camino::{Utf8Path, Utf8PathBuf, Utf8Component};
use std::{borrow::Borrow, fmt, ops, path::PathBuf};
#[derive(Debug, Clone, Ord, PartialOrd, Eq, PartialEq, Hash)]
pub struct AbsPathBuf(Utf8PathBuf);
#[derive(Debug, Ord, PartialOrd, Eq, PartialEq, Hash)]
#[repr(transparent)]
pub struct AbsPath(Utf8Path);
impl ops::Deref for AbsPathBuf { type Target = AbsPath; fn deref(&self) -> &AbsPath { self.as_path() } }
impl ops::Deref for AbsPath { type Target = Utf8Path; fn deref(&self) -> &Utf8Path { &self.0 } }
impl AsRef<AbsPath> for AbsPathBuf { fn as_ref(&self) -> &AbsPath { self.as_path() } }
impl AsRef<Utf8Path> for AbsPathBuf { fn as_ref(&self) -> &Utf8Path { &self.0 } }
impl AsRef<std::path::Path> for AbsPathBuf { fn as_ref(&self) -> &std::path::Path { self.0.as_ref() } }
impl AsRef<std::ffi::OsStr> for AbsPathBuf { fn as_ref(&self) -> &std::ffi::OsStr { self.0.as_ref() } }
impl AsRef<Utf8Path> for AbsPath { fn as_ref(&self) -> &Utf8Path { &self.0 } }
impl AsRef<std::path::Path> for AbsPath { fn as_ref(&self) -> &std::path::Path { self.0.as_ref() } }
impl AsRef<std::ffi::OsStr> for AbsPath { fn as_ref(&self) -> &std::ffi::OsStr { self.0.as_ref() } }
impl Borrow<AbsPath> for AbsPathBuf { fn borrow(&self) -> &AbsPath { self.as_path() } }
impl ToOwned for AbsPath { type Owned = AbsPathBuf; fn to_owned(&self) -> AbsPathBuf { AbsPathBuf(self.0.to_owned()) } }
impl fmt::Display for AbsPathBuf { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(&self.0, f) } }
impl fmt::Display for AbsPath { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(&self.0, f) } }
impl TryFrom<Utf8PathBuf> for AbsPathBuf { type Error = Utf8PathBuf; fn try_from(p: Utf8PathBuf) -> Result<Self, Utf8PathBuf> { if p.is_absolute() { Ok(Self(p)) } else { Err(p) } } }
impl AbsPathBuf {
    pub fn assert(p: Utf8PathBuf) -> Self { assert!(p.is_absolute(), "{p}"); Self(p) }
    pub fn assert_utf8(p: PathBuf) -> Self { Self::assert(Utf8PathBuf::from_path_buf(p).unwrap()) }
    pub fn as_path(&self) -> &AbsPath { AbsPath::new(&self.0) }
}
impl AbsPath {
    fn new(p: &Utf8Path) -> &AbsPath { unsafe { &*(p as *const Utf8Path as *const AbsPath) } }
    pub fn parent(&self) -> Option<&AbsPath> { self.0.parent().map(AbsPath::new) }
    pub fn join(&self, p: impl AsRef<Utf8Path>) -> AbsPathBuf { AbsPathBuf(self.0.join(p)) }
    pub fn absolutize(&self, p: impl AsRef<Utf8Path>) -> AbsPathBuf { self.join(p).normalize() }
    pub fn to_path_buf(&self) -> AbsPathBuf { AbsPathBuf(self.0.to_path_buf()) }
    pub fn starts_with(&self, b: &AbsPath) -> bool { self.0.starts_with(&b.0) }
    pub fn file_name(&self) -> Option<&str> { self.0.file_name() }
    pub fn normalize(&self) -> AbsPathBuf {
        let mut r = Utf8PathBuf::new();
        for c in self.0.components() { match c { Utf8Component::CurDir => {} Utf8Component::ParentDir => { r.pop(); } c => r.push(c.as_str()) } }
        AbsPathBuf(r)
    }
}
