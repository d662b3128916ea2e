#[macro_use] extern crate tracing;
macro_rules! try_default { ($e:expr) => { match $e { Some(it) => it, None => return Ok(None) } } }
pub(crate) use try_default;
pub mod shim;
pub use shim::syntax;
pub mod label { #[derive(Debug, Clone)] pub struct Label(pub String); impl std::fmt::Display for Label { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&self.0) } } impl From<Label> for String { fn from(l: Label) -> String { l.0 } } }
pub mod source_change { #[derive(Debug, Clone)] pub struct SourceChange(pub Vec<crate::shim::lsp_types::DocumentChange>); }
pub mod lsp_ext {
    #[derive(Debug, Clone, serde::Serialize, serde::Deserialize)]
    pub struct CodeActionData { pub code_action_params: crate::shim::lsp_types::CodeActionParams, pub id: String, pub version: Option<i32> }
}
mod assists;
mod request;
mod to_proto;
use shim::lsp_types::*;
use shim::*;
fn snap(resolve: bool, ops: Option<Vec<ResourceOperationKind>>, version: Option<i32>) -> GlobalStateSnapshot { GlobalStateSnapshot { config: Config { resolve, ops }, analysis: Analysis, version } }
fn list(s: GlobalStateSnapshot, only: Option<&[&str]>, range: (u32, u32)) -> anyhow::Result<Vec<CodeAction>> {
    let p = CodeActionParams { text_document: TextDocumentIdentifier { uri: "u".into() }, range: Range { start: range.0, end: range.1 }, context: Context { only: only.map(|x| x.iter().map(|k| CodeActionKind(k.to_string())).collect()) } };
    Ok(request::handle_code_action(s, p)?.unwrap().into_iter().map(|CodeActionResponse::CodeAction(c)| c).collect())
}
fn main() {
    let mut bad = 0;
    let all_ops = || Some(vec![ResourceOperationKind::Create, ResourceOperationKind::Rename, ResourceOperationKind::Delete]);
    let one = |c: &CodeAction| match c.edit.as_ref().and_then(|e| e.document_changes.as_ref()).map(|x| x.as_slice()) { Some([DocumentChange::TextDocumentEdit(t)]) => t.clone(), Some([DocumentChange::CreateFile(())]) => "new".into(), _ => "nothing".into() };
    let filters: [Option<&[&str]>; 5] = [None, Some(&["QuickFix"]), Some(&["RefactorExtract", "RefactorInline"]), Some(&["Refactor", "RefactorRewrite", "QuickFix"]), Some(&["Generate"])];
    for only in filters {
        for range in [(0, 0), (5, 5), (0, 9), (9, 9)] {
            for version in [None, Some(1), Some(7)] {
                let eager = list(snap(false, all_ops(), version), only, range).unwrap();
                let lazy = list(snap(true, all_ops(), version), only, range).unwrap();
                if eager.iter().map(|c| &c.title).ne(lazy.iter().map(|c| &c.title)) { println!("listed differently: {only:?} {range:?}"); bad += 1; }
                for c in &eager { if one(c) != c.title { println!("at once: {} gets {}", c.title, one(c)); bad += 1; } }
                for c in lazy {
                    let title = c.title.clone();
                    match request::handle_code_action_resolve(snap(true, all_ops(), version), c.clone()) {
                        Ok(r) if one(&r) == title => {}
                        Ok(r) => { println!("{title} gets {} ({only:?} {range:?})", one(&r)); bad += 1; }
                        Err(e) => { println!("{title}: {e} ({only:?} {range:?})"); bad += 1; }
                    }
                    for other in [None, Some(0), Some(1), Some(7), Some(8)] {
                        if other != version && request::handle_code_action_resolve(snap(true, all_ops(), other), c.clone()).is_ok_and(|r| r.edit.is_some()) { println!("{title}: listed at {version:?}, resolved at {other:?}"); bad += 1; }
                    }
                    if title == "new" && request::handle_code_action_resolve(snap(true, None, version), c.clone()).is_ok_and(|r| r.edit.is_some()) { println!("a file is created at a client that cannot"); bad += 1; }
                }
            }
        }
    }
    if list(snap(false, None, None), None, (9, 9)).is_ok() { println!("a file is created at a client that cannot"); bad += 1; }
    if bad > 0 { println!("{bad} wrong"); std::process::exit(1); }
    println!("ok");
}
