import sys; sys.path.insert(0,'/verif/tools')
from mut import run
X='crates/aptos-language-server/src/lsp/ext.rs'; P='crates/aptos-language-server/src/lsp/to_proto.rs'; C='crates/aptos-language-server/src/config.rs'; M='crates/aptos-language-server/src/main_loop.rs'
T='editors/code/src/lsp_ext.ts'; K='editors/code/src/client.ts'; E='editors/code/src/extension.ts'
def b(f,l,*e): run('L12',[(f,)+x for x in e],l,'bug')
def o(f,l,*e): run('L12',[(f,)+x for x in e],l,'ok')
b(X,'snake',('#[serde(rename_all = "camelCase")]\npub struct AptosRunnableArgs','#[serde(rename_all = "snake_case")]\npub struct AptosRunnableArgs'))
b(X,'no rename',('#[serde(rename_all = "camelCase")]\npub struct ViewSyntaxTreeParams','pub struct ViewSyntaxTreeParams'))
b(X,'skip args',('    pub args: Vec<String>,','    #[serde(skip_serializing_if = "Vec::is_empty", default)]\n    pub args: Vec<String>,'))
b(X,'rename field',('pub dep_roots: Vec<Utf8PathBuf>','#[serde(rename = "dependencyRoots")]\n    pub dep_roots: Vec<Utf8PathBuf>'))
b(X,'required doc',('pub text_document: Option<TextDocumentIdentifier>','pub text_document: TextDocumentIdentifier'))
b(X,'new required',('pub struct OrganizeImportsParams {\n','pub struct OrganizeImportsParams {\n    pub range: Range,\n'))
b(X,'health',('    Warning,\n    Error,\n}\n\nimpl','    #[serde(rename = "warn")]\n    Warning,\n    Error,\n}\n\nimpl'))
b(X,'health pascal',('#[serde(rename_all = "camelCase")]\npub enum Health','pub enum Health'))
b(X,'method',('"experimental/organizeImports"','"aptos-language-server/organizeImports"'))
b(X,'optional edits',('type Result = Vec<TextEdit>;','type Result = Vec<lsp_types::TextDocumentEdit>;'))
b(M,'not dispatched',('            .on::<NO_RETRY, lsp_ext::ViewSyntaxTree>(request::handle_view_syntax_tree)\n',''))
b(P,'debug without dap',('client_commands_config.debug_test && snap.config.dap().is_available()','client_commands_config.debug_test'))
b(P,'wrong flag',('client_commands_config.debug_transaction && snap','client_commands_config.debug_test && snap'))
b(P,'either',('!client_commands_config.show_references || !client_commands_config.goto_location','!client_commands_config.show_references && !client_commands_config.goto_location'))
b(P,'wrong command',('command: "move-on-aptos.debugTransaction".into()','command: "move-on-aptos.debugTest".into()'))
b(P,'unknown command',('command: "move-on-aptos.runTest".into()','command: "move-on-aptos.run".into()'))
b(C,'flag name',('get("move-on-aptos.debugTransaction")','get("move-on-aptos.debugTest")'))
b(C,'flag typo',('get("move-on-aptos.showReferences")','get("move-on-aptos.showReference")'))
b(T,'ts field',('packageRoot: string;','workspaceRoot: string;'))
b(T,'ts required',('environment?: Record','environment: Record'))
b(K,'announces more',('"move-on-aptos.runTest",','"move-on-aptos.runTest",\n                    "move-on-aptos.runProver",'))
b(E,'unregistered',('        showReferences: {','        showRefs: {'))
o(X,'doc',('    pub args: Vec<String>,','    /// what to run\n    pub args: Vec<String>,'))
o(X,'explicit rename',('    pub package_root: Utf8PathBuf,','    #[serde(rename = "packageRoot")]\n    pub package_root: Utf8PathBuf,'))
o(X,'extra optional',('pub struct OrganizeImportsParams {\n','pub struct OrganizeImportsParams {\n    pub range: Option<Range>,\n'))
o(P,'flag var',('                        if client_commands_config.run_test {','                        let can_run = client_commands_config.run_test;\n                        if can_run {'))
o(P,'nested dap',('if client_commands_config.debug_test && snap.config.dap().is_available() {\n                            let command = command::debug_test(&r);\n                            acc.push(lsp_types::CodeLens {\n                                range: annotation_range,\n                                command: Some(command),\n                                data: None,\n                            });\n                        }','if client_commands_config.debug_test {\n                            if snap.config.dap().is_available() {\n                            let command = command::debug_test(&r);\n                            acc.push(lsp_types::CodeLens {\n                                range: annotation_range,\n                                command: Some(command),\n                                data: None,\n                            });\n                        }}'))
o(C,'contains',('commands.iter().any(|it| it == name)','commands.contains(&name.to_string())'))
o(P,'helper',('                            acc.push(lsp_types::CodeLens {\n                                range: annotation_range,\n                                command: Some(command),\n                                data: None,\n                            });\n                        }\n                    }\n                    _ => (),','                            acc.push(command_lens(annotation_range, command));\n                        }\n                    }\n                    _ => (),'),('pub(crate) fn code_lens(','fn command_lens(range: lsp_types::Range, command: lsp_types::Command) -> lsp_types::CodeLens {\n    lsp_types::CodeLens { range, command: Some(command), data: None }\n}\n\npub(crate) fn code_lens('))
o(P,'both',('!client_commands_config.show_references || !client_commands_config.goto_location','!(client_commands_config.show_references && client_commands_config.goto_location)'))
o(T,'interface',('export type Runnable = {\n    label: string;','export interface Runnable {\n    readonly label: string;'))
o(T,'array',('    args: string[];','    args: Array<string>;'))
o(K,'const',('                commands: [\n                    "move-on','                commands: [\n                    // what a lens may run\n                    "move-on'))
