use crate::assists::{Assist, AssistId, AssistKind, AssistResolveStrategy};
use crate::source_change::SourceChange;
pub type Cancellable<T> = Result<T, anyhow::Error>;
pub mod stdx { macro_rules! never { ($($t:tt)*) => { panic!($($t)*) } } pub(crate) use never; }
pub mod lsp_types {
    use serde::{Deserialize, Serialize};
    #[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)] pub struct CodeActionKind(pub String);
    #[derive(Debug, Clone, PartialEq, Eq, Default, Serialize, Deserialize)] pub struct TextDocumentIdentifier { pub uri: String }
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Default, Serialize, Deserialize)] pub struct Range { pub start: u32, pub end: u32 }
    #[derive(Debug, Clone, PartialEq, Eq, Default, Serialize, Deserialize)] pub struct Context { pub only: Option<Vec<CodeActionKind>> }
    #[derive(Debug, Clone, PartialEq, Eq, Default, Serialize, Deserialize)] pub struct CodeActionParams { pub text_document: TextDocumentIdentifier, pub range: Range, pub context: Context }
    #[derive(Debug, Clone, PartialEq)] pub enum DocumentChange { CreateFile(()), RenameFile(()), DeleteFile(()), TextDocumentEdit(String) }
    #[derive(Debug, Clone, Copy, PartialEq, Eq)] pub enum ResourceOperationKind { Create, Rename, Delete }
    #[derive(Debug, Clone, PartialEq)] pub struct WorkspaceEdit { pub document_changes: Option<Vec<DocumentChange>> }
    #[derive(Debug, Clone, PartialEq)] pub struct CodeAction { pub title: String, pub kind: Option<CodeActionKind>, pub diagnostics: Option<()>, pub edit: Option<WorkspaceEdit>, pub command: Option<()>, pub is_preferred: Option<bool>, pub disabled: Option<()>, pub data: Option<serde_json::Value>, pub tags: Option<()> }
    pub enum CodeActionResponse { CodeAction(CodeAction) }
}
#[derive(Debug)] pub struct LspError(pub i32, pub String);
impl LspError { pub fn new(c: i32, m: String) -> Self { LspError(c, m) } }
impl std::fmt::Display for LspError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&self.1) } }
impl std::error::Error for LspError {}
pub fn invalid_params_error(m: String) -> LspError { LspError(-32602, m) }
pub enum ErrorCode { RequestFailed = -32803, InternalError = -32603 }
#[derive(Debug, Clone, Copy, PartialEq, Eq)] pub struct FileId(pub u32);
#[derive(Debug, Clone, Copy, PartialEq, Eq)] pub struct FileRange { pub file_id: FileId, pub range: lsp_types::Range }
pub struct AssistConfig { pub allowed: Option<Vec<AssistKind>> }
pub struct DiagCfg { pub for_assists: bool }
impl DiagCfg { pub fn for_assists(&self) -> DiagCfg { DiagCfg { for_assists: true } } }
pub struct Config { pub resolve: bool, pub ops: Option<Vec<lsp_types::ResourceOperationKind>> }
impl Config {
    pub fn code_action_literals(&self) -> bool { true }
    pub fn code_action_resolve(&self) -> bool { self.resolve }
    pub fn assist(&self) -> AssistConfig { AssistConfig { allowed: None } }
    pub fn diagnostics_config(&self) -> DiagCfg { DiagCfg { for_assists: false } }
    pub fn workspace_edit_resource_operations(&self) -> Option<&Vec<lsp_types::ResourceOperationKind>> { self.ops.as_ref() }
}
pub struct Analysis;
impl Analysis {
    /// a fixed list of fixes per place; three of them share an id
    pub fn assists_with_fixes(&self, c: &AssistConfig, d: &DiagCfg, s: AssistResolveStrategy, fr: FileRange) -> Cancellable<Vec<Assist>> {
        let all = [
            (AssistId("import", AssistKind::QuickFix, Some(0)), "a", 0), (AssistId("import", AssistKind::QuickFix, Some(1)), "b", 0), (AssistId("import", AssistKind::QuickFix, None), "c", 0),
            (AssistId("extract", AssistKind::RefactorExtract, None), "d", 0), (AssistId("inline", AssistKind::RefactorInline, None), "e", 0), (AssistId("gen", AssistKind::Generate, None), "f", 0),
            (AssistId("rewrite", AssistKind::RefactorRewrite, None), "g", 5), (AssistId("refactor", AssistKind::Refactor, None), "h", 5), (AssistId("import", AssistKind::QuickFix, Some(1)), "i", 5), (AssistId("newfile", AssistKind::Generate, None), "new", 9),
        ];
        Ok(all.into_iter().filter(|(id, _, at)| fr.range.start <= *at && *at <= fr.range.end && d.for_assists && c.allowed.as_ref().is_none_or(|a| a.contains(&id.1)))
            .map(|(id, label, _)| {
                let change = if label == "new" { lsp_types::DocumentChange::CreateFile(()) } else { lsp_types::DocumentChange::TextDocumentEdit(label.to_string()) };
                let source_change = s.should_resolve(&id).then(|| SourceChange(vec![change]));
                Assist { id, label: crate::label::Label(label.to_string()), target: syntax::TextRange, source_change, command: None }
            })
            .collect())
    }
}
pub struct GlobalStateSnapshot { pub config: Config, pub analysis: Analysis, pub version: Option<i32> }
pub struct LineIdx;
impl GlobalStateSnapshot {
    pub fn file_version(&self, _: FileId) -> Option<i32> { self.version }
    pub fn file_line_index(&self, _: FileId) -> Cancellable<LineIdx> { Ok(LineIdx) }
}
pub mod from_proto {
    use super::*;
    pub fn file_id(_: &GlobalStateSnapshot, _: &String) -> anyhow::Result<FileId> { Ok(FileId(1)) }
    pub fn file_range(_: &GlobalStateSnapshot, _: &lsp_types::TextDocumentIdentifier, range: lsp_types::Range) -> anyhow::Result<Option<FileRange>> { Ok(Some(FileRange { file_id: FileId(1), range })) }
    pub fn text_range(_: &LineIdx, range: lsp_types::Range) -> anyhow::Result<lsp_types::Range> { Ok(range) }
    pub fn assist_kind(k: lsp_types::CodeActionKind) -> Option<AssistKind> { k.0.parse().ok() }
}
pub mod syntax { #[derive(Debug, Clone, Copy)] pub struct TextRange; }
