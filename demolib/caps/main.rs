#![allow(dead_code, unused, non_snake_case)]
mod lsp_types {
    macro_rules! caps { ($($n:ident { $($f:ident : $t:ty),* $(,)? })*) => { $(#[derive(Debug, Clone, PartialEq, Default)] pub struct $n { $(pub $f: $t),* })* } }
    type B = Option<bool>;
    caps! {
        ClientCapabilities { workspace: Option<Ws>, text_document: Option<Td>, window: Option<Win>, general: Option<Gen>, experimental: Option<Exp> }
        Ws { semantic_tokens: Option<Refresh>, code_lens: Option<Refresh>, inlay_hint: Option<Refresh>, diagnostics: Option<Refresh>, did_change_watched_files: Option<Watched>, workspace_edit: Option<Wedit>, file_operations: Option<Fops> }
        Refresh { refresh_support: B }
        Watched { dynamic_registration: B, relative_pattern_support: B }
        Wedit { resource_operations: Option<Vec<ResourceOperationKind>>, change_annotation_support: Option<Refresh> }
        Fops { will_rename: B }
        Td { synchronization: Option<Sync>, completion: Option<Compl>, document_symbol: Option<Dsym>, code_action: Option<Cact>, signature_help: Option<Sig>, diagnostic: Option<Diag>, inlay_hint: Option<Inl>, definition: Option<Def> }
        Sync { did_save: B, dynamic_registration: B }
        Compl { completion_item: Option<Citem> }
        Citem { label_details_support: B, insert_replace_support: B, snippet_support: B, resolve_support: Option<Res> }
        Res { properties: Vec<String> }
        Dsym { hierarchical_document_symbol_support: B }
        Cact { code_action_literal_support: Option<Refresh>, resolve_support: Option<Res> }
        Sig { signature_information: Option<Sinf> }
        Sinf { parameter_information: Option<Pinf> }
        Pinf { label_offset_support: B }
        Diag { related_document_support: B }
        Inl { resolve_support: Option<Res> }
        Win { work_done_progress: B }
        Gen { position_encodings: Option<Vec<PositionEncodingKind>> }
    }
    #[derive(Debug, Clone, Copy, PartialEq, Default)] pub struct Def { pub link_support: B }
    #[derive(Debug, Clone, PartialEq, Default)] pub struct Exp(pub std::collections::BTreeMap<String, Val>);
    #[derive(Debug, Clone, PartialEq)] pub struct Val(pub bool);
    impl Val { pub fn as_bool(&self) -> Option<bool> { Some(self.0) } }
    impl Exp { pub fn get(&self, k: &str) -> Option<&Val> { self.0.get(k) } }
    #[derive(Debug, Clone, PartialEq)] pub enum ResourceOperationKind { Create }
    #[derive(Debug, Clone, PartialEq, Eq)] pub struct PositionEncodingKind(pub &'static str);
    impl PositionEncodingKind {
        pub const UTF8: Self = Self("utf-8");
        pub const UTF16: Self = Self("utf-16");
        pub const UTF32: Self = Self("utf-32");
    }
    // what the server answers
    #[derive(Debug, Clone, PartialEq, Default)] pub struct WorkDoneProgressOptions { pub work_done_progress: B }
    caps! {
        CompletionOptions { resolve_provider: B, trigger_characters: Option<Vec<String>>, all_commit_characters: Option<Vec<String>>, completion_item: Option<ServerCompletionItemOptions>, work_done_progress_options: WorkDoneProgressOptions }
        SignatureHelpOptions { trigger_characters: Option<Vec<String>>, retrigger_characters: Option<Vec<String>>, work_done_progress_options: WorkDoneProgressOptions }
        CodeLensOptions { resolve_provider: B, work_done_progress_options: WorkDoneProgressOptions }
        RenameOptions { prepare_provider: B, work_done_progress_options: WorkDoneProgressOptions }
        SemanticTokensLegend { token_types: Vec<String>, token_modifiers: Vec<String> }
        InlayHintOptions { resolve_provider: B, work_done_progress_options: WorkDoneProgressOptions }
        DiagnosticOptions { identifier: Option<String>, inter_file_dependencies: bool, workspace_diagnostics: bool, work_done_progress_options: WorkDoneProgressOptions }
        ServerCompletionItemOptions { label_details_support: B }
        CodeActionOptions { code_action_kinds: Option<Vec<CodeActionKind>>, resolve_provider: B, work_done_progress_options: WorkDoneProgressOptions, documentation: B }
        SemanticTokensOptions { legend: SemanticTokensLegend, full: Option<Full>, range: B, work_done_progress_options: WorkDoneProgressOptions }
    }
    #[derive(Debug, Clone, PartialEq)] pub enum Full { Bool(bool) }
    #[derive(Debug, Clone, PartialEq)] pub enum CodeActionKind { QuickFix }
    macro_rules! prov { ($($n:ident $($v:ident $t:ty)?;)*) => { $(#[derive(Debug, Clone, PartialEq)] pub enum $n { Bool(bool) $(, $v($t))? })* } }
    prov! { CodeActionProvider CodeActionOptions CodeActionOptions; DefinitionProvider; DocumentFormattingProvider; DocumentHighlightProvider; DocumentSymbolProvider; HoverProvider; ReferencesProvider; SelectionRangeProvider; WorkspaceSymbolProvider; RenameProvider RenameOptions RenameOptions; InlayHintProvider InlayHintOptions InlayHintOptions; DiagnosticProvider DiagnosticOptions DiagnosticOptions; }
    #[derive(Debug, Clone, PartialEq)] pub enum TextDocumentSyncKind { Full, Incremental, None }
    #[derive(Debug, Clone, PartialEq)] pub enum TextDocumentSync { Kind(TextDocumentSyncKind) }
    caps! { ServerCapabilities {
        position_encoding: Option<PositionEncodingKind>, text_document_sync: Option<TextDocumentSync>, hover_provider: Option<HoverProvider>, completion_provider: Option<CompletionOptions>,
        signature_help_provider: Option<SignatureHelpOptions>, definition_provider: Option<DefinitionProvider>, references_provider: Option<ReferencesProvider>, document_highlight_provider: Option<DocumentHighlightProvider>,
        document_symbol_provider: Option<DocumentSymbolProvider>, workspace_symbol_provider: Option<WorkspaceSymbolProvider>, code_action_provider: Option<CodeActionProvider>, code_lens_provider: Option<CodeLensOptions>,
        document_formatting_provider: Option<DocumentFormattingProvider>, selection_range_provider: Option<SelectionRangeProvider>, rename_provider: Option<RenameProvider>, semantic_tokens_provider: Option<SemanticTokensOptions>,
        inlay_hint_provider: Option<InlayHintProvider>, diagnostic_provider: Option<DiagnosticProvider>, folding_range_provider: B,
    } }
}
mod line_index { #[derive(Debug, Clone, Copy, PartialEq)] pub enum WideEncoding { Utf16, Utf32, Other } }
#[derive(Debug, Clone, Copy, PartialEq)] pub enum PositionEncoding { Utf8, Wide(line_index::WideEncoding) }
mod semantic_tokens { pub struct SupportedType; impl SupportedType { pub fn iter() -> std::vec::IntoIter<&'static str> { vec!["comment"].into_iter() } } }
#[derive(PartialEq)] pub struct InlayFieldsToResolve(bool);
impl InlayFieldsToResolve {
    fn from_client_capabilities(s: &HashSet<&str>) -> Self { InlayFieldsToResolve(!s.is_empty()) }
    fn empty() -> Self { InlayFieldsToResolve(false) }
}
pub struct Config(ClientCapabilities);
impl Config { fn caps(&self) -> &ClientCapabilities { &self.0 } }
impl std::ops::Deref for Config { type Target = ClientCapabilities; fn deref(&self) -> &ClientCapabilities { &self.0 } }
use line_index::WideEncoding;
use lsp_types::{CodeActionKind, CodeActionOptions, CodeActionProvider, CodeLensOptions, CompletionOptions, DefinitionProvider, DocumentFormattingProvider, DocumentHighlightProvider, DocumentSymbolProvider, HoverProvider, InlayHintOptions, InlayHintProvider, PositionEncodingKind, ReferencesProvider, RenameOptions, RenameProvider, SelectionRangeProvider, SemanticTokensLegend, SemanticTokensOptions, ServerCapabilities, ServerCompletionItemOptions, SignatureHelpOptions, TextDocumentSync, TextDocumentSyncKind, WorkDoneProgressOptions, WorkspaceSymbolProvider};
use std::collections::HashSet;
include!(concat!(env!("W"), "/caps.rs"));

fn full(b: bool) -> lsp_types::ClientCapabilities {
    use lsp_types::*;
    let r = || Some(Refresh { refresh_support: Some(b) });
    let res = |p: &str| Some(Res { properties: if b { vec![p.to_string(), "additionalTextEdits".to_string()] } else { vec![] } });
    ClientCapabilities {
        workspace: Some(Ws { semantic_tokens: r(), code_lens: r(), inlay_hint: r(), diagnostics: r(), did_change_watched_files: Some(Watched { dynamic_registration: Some(b), relative_pattern_support: Some(b) }), workspace_edit: Some(Wedit::default()), file_operations: Some(Fops { will_rename: Some(b) }) }),
        text_document: Some(Td {
            synchronization: Some(Sync::default()), completion: Some(Compl { completion_item: Some(Citem { label_details_support: Some(b), insert_replace_support: Some(b), snippet_support: Some(b), resolve_support: res("x") }) }),
            document_symbol: Some(Dsym { hierarchical_document_symbol_support: Some(b) }), code_action: Some(Cact { code_action_literal_support: if b { Some(Refresh::default()) } else { None }, resolve_support: res("edit") }),
            signature_help: Some(Sig { signature_information: Some(Sinf { parameter_information: Some(Pinf { label_offset_support: Some(b) }) }) }), diagnostic: Some(Diag { related_document_support: Some(b) }), inlay_hint: Some(Inl { resolve_support: res("tooltip") }), definition: Some(Def { link_support: Some(b) }) }),
        window: Some(Win { work_done_progress: Some(b) }),
        general: None,
        experimental: Some(Exp([("openServerLogs".to_string(), Val(b)), ("serverStatusNotification".to_string(), Val(b))].into_iter().collect())),
    }
}
type Set = fn(&mut lsp_types::ClientCapabilities, bool);
type Get = fn(&ClientCapabilities) -> bool;
macro_rules! w { ($c:ident, $($p:ident).+) => { $c.workspace.as_mut().unwrap().$($p).+ } }
macro_rules! t { ($c:ident) => { $c.text_document.as_mut().unwrap() } }
fn main() {
    let mut bad = 0;
    let all: &[(&str, Set, Get)] = &[
        ("semantic token refresh", |c, b| c.workspace.as_mut().unwrap().semantic_tokens.as_mut().unwrap().refresh_support = Some(b), |c| c.semantic_tokens_refresh()),
        ("code lens refresh", |c, b| c.workspace.as_mut().unwrap().code_lens.as_mut().unwrap().refresh_support = Some(b), |c| c.code_lens_refresh()),
        ("inlay hint refresh", |c, b| c.workspace.as_mut().unwrap().inlay_hint.as_mut().unwrap().refresh_support = Some(b), |c| c.inlay_hints_refresh()),
        ("diagnostic refresh", |c, b| c.workspace.as_mut().unwrap().diagnostics.as_mut().unwrap().refresh_support = Some(b), |c| c.diagnostics_refresh()),
        ("watched files", |c, b| c.workspace.as_mut().unwrap().did_change_watched_files.as_mut().unwrap().dynamic_registration = Some(b), |c| c.did_change_watched_files_dynamic_registration()),
        ("relative patterns", |c, b| c.workspace.as_mut().unwrap().did_change_watched_files.as_mut().unwrap().relative_pattern_support = Some(b), |c| c.did_change_watched_files_relative_pattern_support()),
        ("location links", |c, b| t!(c).definition.as_mut().unwrap().link_support = Some(b), |c| c.location_link()),
        ("nested symbols", |c, b| t!(c).document_symbol.as_mut().unwrap().hierarchical_document_symbol_support = Some(b), |c| c.hierarchical_symbols()),
        ("label details", |c, b| t!(c).completion.as_mut().unwrap().completion_item.as_mut().unwrap().label_details_support = Some(b), |c| c.completion_label_details_support()),
        ("insert/replace", |c, b| t!(c).completion.as_mut().unwrap().completion_item.as_mut().unwrap().insert_replace_support = Some(b), |c| c.insert_replace_support()),
        ("snippets", |c, b| t!(c).completion.as_mut().unwrap().completion_item.as_mut().unwrap().snippet_support = Some(b), |c| c.completion_snippet()),
        ("label offsets", |c, b| t!(c).signature_help.as_mut().unwrap().signature_information.as_mut().unwrap().parameter_information.as_mut().unwrap().label_offset_support = Some(b), |c| c.signature_help_label_offsets()),
        ("progress", |c, b| c.window.as_mut().unwrap().work_done_progress = Some(b), |c| c.work_done_progress()),
    ];
    for (name, set, get) in all {
        for b in [false, true] {
            let mut c = full(!b);
            set(&mut c, b);
            if get(&ClientCapabilities(c)) != b {
                println!("{name}: the client says {b} (and {} for the rest), the server reads {}", !b, !b);
                bad += 1;
            }
        }
        if get(&ClientCapabilities(lsp_types::ClientCapabilities::default())) {
            println!("{name}: the client says nothing, the server reads true");
            bad += 1;
        }
    }
    let enc = [PositionEncodingKind::UTF8, PositionEncodingKind::UTF16, PositionEncodingKind::UTF32, PositionEncodingKind("x-custom")];
    let mut lists: Vec<Option<Vec<PositionEncodingKind>>> = vec![None, Some(vec![])];
    for a in &enc {
        lists.push(Some(vec![a.clone()]));
        for b in &enc {
            lists.push(Some(vec![a.clone(), b.clone()]));
        }
    }
    for l in lists {
        let mut c = full(true);
        c.general = Some(lsp_types::Gen { position_encodings: l.clone() });
        let conf = Config(ClientCapabilities(c));
        let used = match conf.negotiated_encoding() {
            PositionEncoding::Utf8 => PositionEncodingKind::UTF8,
            PositionEncoding::Wide(WideEncoding::Utf16) => PositionEncodingKind::UTF16,
            _ => PositionEncodingKind::UTF32,
        };
        let told = server_capabilities(&conf).position_encoding.unwrap_or(PositionEncodingKind::UTF16);
        let offered = l.clone().unwrap_or_default();
        if told != used || (used != PositionEncodingKind::UTF16 && !offered.contains(&used)) {
            println!("client offers {offered:?}: the server works in {used:?} and tells the client {told:?}");
            bad += 1;
        }
    }
    let s = server_capabilities(&Config(ClientCapabilities(full(true))));
    for (n, on) in [
        ("hover", s.hover_provider.is_some()), ("completion", s.completion_provider.is_some()), ("definition", s.definition_provider.is_some()), ("references", s.references_provider.is_some()),
        ("highlight", s.document_highlight_provider.is_some()), ("symbols", s.document_symbol_provider.is_some()), ("workspace symbols", s.workspace_symbol_provider.is_some()), ("code lens", s.code_lens_provider.is_some()),
        ("formatting", s.document_formatting_provider.is_some()), ("selection", s.selection_range_provider.is_some()), ("rename", s.rename_provider.is_some()), ("tokens", s.semantic_tokens_provider.is_some()), ("diagnostics", s.diagnostic_provider.is_some()),
    ] {
        if !on {
            println!("{n} is not advertised");
            bad += 1;
        }
    }
    std::process::exit((bad > 0) as i32);
}
