pub mod lang { pub mod item_scope {
    #[derive(Debug, Clone, Copy, serde::Serialize, serde::Deserialize)] pub enum ItemScope { Main, Test, Verify }
} }
pub mod syntax {
    #[derive(Debug, Clone, Copy, PartialEq, Eq)] pub enum SyntaxKind { X }
    #[derive(Debug, Clone, Copy, PartialEq, Eq)] pub struct TextRange;
}
pub mod lsp_types {
    use serde::{Deserialize, Serialize};
    pub struct LspRequestMethod(pub &'static str);
    impl LspRequestMethod { pub const fn new(s: &'static str) -> Self { Self(s) } }
    pub struct LspNotificationMethod(pub &'static str);
    impl LspNotificationMethod { pub const fn new(s: &'static str) -> Self { Self(s) } }
    pub enum MessageDirection { ClientToServer, ServerToClient, Both }
    pub trait Request { type Params; type Result; const METHOD: LspRequestMethod; const MESSAGE_DIRECTION: MessageDirection; }
    pub trait Notification { type Params; const METHOD: LspNotificationMethod; const MESSAGE_DIRECTION: MessageDirection; }
    macro_rules! m { ($($n:ident),*) => { $(#[derive(Debug, Clone, PartialEq, Eq, Default, Serialize, Deserialize)] #[serde(default)] pub struct $n { pub x: u32 })* } }
    m!(CodeActionKind, Position, Range, TextEdit, CodeActionParams, ImplementationParams, LocationLink, TextDocumentPositionParams, Command, CodeAction, TextDocumentEdit, WorkspaceEdit, OptionalVersionedTextDocumentIdentifier);
    #[derive(Debug, Clone, PartialEq, Eq, Default, Serialize, Deserialize)] pub struct TextDocumentIdentifier { pub uri: String }
}
