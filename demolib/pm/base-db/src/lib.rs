//! the parts of `base-db` that project-model uses
pub mod inputs {
    pub type AddressPair = (String, String);
    #[derive(Debug, Clone, PartialEq)]
    pub struct PackageMetadata { pub package_name: Option<String>, pub dep_manifest_ids: std::sync::Arc<Vec<vfs::FileId>>, pub resolve_deps: bool, pub named_addresses: Vec<AddressPair>, pub missing_dependencies: Vec<String> }
}
pub mod change { pub type ManifestFileId = vfs::FileId; pub type PackageGraph = std::collections::HashMap<vfs::FileId, crate::inputs::PackageMetadata>; }
pub mod package_root {
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum PackageKind { Local, Library }
    #[derive(Debug, Clone)]
    pub struct PackageRoot { pub file_set: vfs::file_set::FileSet, pub kind: PackageKind, pub manifest: Option<vfs::FileId> }
    impl PackageRoot { pub fn new(file_set: vfs::file_set::FileSet, kind: PackageKind, manifest: Option<vfs::FileId>) -> Self { PackageRoot { file_set, kind, manifest } } }
}
