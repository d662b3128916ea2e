mod shim;
mod lsp_ext;
mod cc;
use lsp_ext::*;
use serde_json::{json, Value};
pub struct Config { commands: Vec<String> }
impl Config { pub fn commands(&self) -> Option<ClientCommandOptions> { Some(ClientCommandOptions { commands: self.commands.clone() }) } }
use cc::ClientCommandsConfig;
fn chk(bad: &mut u32, what: &str, got: Value, want: Value) {
    if got != want { println!("{what}: {got} instead of {want}"); *bad += 1; }
}
fn ser<T: serde::Serialize>(t: &T) -> Value { serde_json::to_value(t).unwrap() }
fn reads<T: serde::de::DeserializeOwned>(bad: &mut u32, what: &str, v: Value) -> Option<T> {
    match serde_json::from_value(v.clone()) { Ok(t) => Some(t), Err(e) => { println!("{what}: {v} refused: {e}"); *bad += 1; None } }
}
fn flags(names: &[&str]) -> [bool; 5] {
    let c = Config { commands: names.iter().map(|s| format!("move-on-aptos.{s}")).collect() }.client_commands();
    [c.run_test, c.debug_test, c.debug_transaction, c.show_references, c.goto_location]
}
fn main() {
    let b = &mut 0;
    let args = AptosRunnableArgs { package_root: "/p".into(), args: vec![], environment: Default::default(), dep_roots: vec![] };
    // what runnables.ts iterates over and reads
    let v = ser(&Runnable { label: "l".into(), location: None, args: args.clone() });
    chk(b, "label", v["label"].clone(), json!("l"));
    chk(b, "packageRoot", v["args"]["packageRoot"].clone(), json!("/p"));
    chk(b, "args", v["args"]["args"].clone(), json!([]));
    let full = AptosRunnableArgs { args: vec!["move".into(), "test".into()], environment: [("A".to_string(), "1".to_string())].into(), dep_roots: vec!["/d".into()], ..args };
    let v = ser(&Runnable { label: "l".into(), location: None, args: full });
    chk(b, "args", v["args"]["args"].clone(), json!(["move", "test"]));
    chk(b, "environment", v["args"]["environment"].clone(), json!({"A": "1"}));
    chk(b, "depRoots", v["args"]["depRoots"].clone(), json!(["/d"]));
    for (h, s) in [(Health::Ok, "ok"), (Health::Warning, "warning"), (Health::Error, "error")] {
        let v = ser(&ServerStatusParams { health: h, quiescent: false, message: None });
        chk(b, "health", v["health"].clone(), json!(s));
        chk(b, "quiescent", v["quiescent"].clone(), json!(false));
        chk(b, "message", v["message"].clone(), Value::Null);
        let v = ser(&ServerStatusParams { health: h, quiescent: true, message: Some("m".into()) });
        chk(b, "quiescent", v["quiescent"].clone(), json!(true));
        chk(b, "message", v["message"].clone(), json!("m"));
    }
    let v = ser(&MovefmtVersionErrorParams { message: "m".into(), aptos_path: Some("/a".into()) });
    chk(b, "message", v["message"].clone(), json!("m"));
    chk(b, "aptosPath", v["aptosPath"].clone(), json!("/a"));
    let doc = json!({"textDocument": {"uri": "file:///a.move"}});
    if let Some(p) = reads::<ViewSyntaxTreeParams>(b, "viewSyntaxTree", doc.clone()) { chk(b, "viewSyntaxTree", json!(p.text_document.uri), json!("file:///a.move")); }
    if let Some(p) = reads::<OrganizeImportsParams>(b, "organizeImports", doc.clone()) { chk(b, "organizeImports", json!(p.text_document.uri), json!("file:///a.move")); }
    if let Some(p) = reads::<AnalyzerStatusParams>(b, "analyzerStatus", doc) { chk(b, "analyzerStatus", json!(p.text_document.map(|d| d.uri)), json!("file:///a.move")); }
    reads::<AnalyzerStatusParams>(b, "analyzerStatus", json!({}));
    use shim::lsp_types::{Notification, Request};
    chk(b, "method", json!([AnalyzerStatus::METHOD.0, ReloadWorkspace::METHOD.0, OpenServerLogs::METHOD.0, ServerStatusNotification::METHOD.0, ViewSyntaxTree::METHOD.0, MovefmtVersionError::METHOD.0, OrganizeImports::METHOD.0]),
        json!(["aptos-language-server/analyzerStatus", "aptos-language-server/reloadWorkspace", "aptos-language-server/openServerLogs", "experimental/serverStatus", "aptos-language-server/viewSyntaxTree", "aptos-language-server/movefmtVersionError", "experimental/organizeImports"]));
    let names = ["runTest", "debugTest", "debugTransaction", "showReferences", "gotoLocation"];
    for i in 0..5 {
        let want: Vec<bool> = (0..5).map(|j| i == j).collect();
        chk(b, names[i], json!(flags(&[names[i]])), json!(want));
    }
    if *b > 0 { std::process::exit(1); }
    println!("ok");
}
