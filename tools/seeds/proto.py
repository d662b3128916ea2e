X='crates/aptos-language-server/src/lsp/ext.rs'; C='crates/aptos-language-server/src/config.rs'
def d(id,edits,needs,breaks): return dict(id=id,property='L12',libs=['proto'],files={},edits=edits,needs=needs,breaks=breaks)
SEEDS=[
 d('l12-empty-args-left-out',[(X,'    pub package_root: Utf8PathBuf,\n    pub args: Vec<String>,','    pub package_root: Utf8PathBuf,\n    #[serde(skip_serializing_if = "Vec::is_empty", default)]\n    pub args: Vec<String>,')],'a runnable without arguments','the editor iterates over arguments that are not there'),
 d('l12-dep-roots-renamed',[(X,'    #[serde(skip_serializing_if = "Vec::is_empty")]\n    pub dep_roots','    #[serde(skip_serializing_if = "Vec::is_empty", rename = "dependencyRoots")]\n    pub dep_roots')],'a debug session in a package with dependencies','the editor sees no dependency roots'),
 d('l12-health-as-named',[(X,'    Ok,\n    Warning,\n    Error,\n}\n\nimpl','    Ok,\n    #[serde(rename = "warn")]\n    Warning,\n    Error,\n}\n\nimpl')],'the server in the warning state','the status item matches none of its cases'),
 d('l12-not-quiescent-left-out',[(X,'    pub quiescent: bool,','    #[serde(skip_serializing_if = "std::ops::Not::not", default)]\n    pub quiescent: bool,')],'the server working','the status the editor reads has no quiescent field'),
 d('l12-debug-transaction-flag',[(C,'debug_transaction: get("move-on-aptos.debugTransaction")','debug_transaction: get("move-on-aptos.debugTest")')],'a client with one of the two debug commands','a lens runs a command the client does not have'),
 d('l12-show-references-flag',[(C,'get("move-on-aptos.showReferences")','get("move-on-aptos.gotoLocation")')],'a client with one of the two commands of the specification lens','a lens runs a command the client does not have'),
 d('l12-aptos-path-as-named',[(X,'#[serde(rename_all = "camelCase")]\npub struct MovefmtVersionErrorParams','pub struct MovefmtVersionErrorParams')],'a movefmt too old at a configured path','the editor does not see the path'),
]
