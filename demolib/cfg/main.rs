#![allow(dead_code, unused, non_snake_case)]
mod shim;
mod config;
pub use config::Config;
pub mod lsp {
    pub mod capabilities {
        #[derive(Clone, Debug)]
        pub struct ClientCapabilities(pub crate::shim::lsp_types::ClientCapabilities, pub bool, pub bool);
        impl ClientCapabilities {
            pub fn new(c: crate::shim::lsp_types::ClientCapabilities) -> Self { Self(c, true, true) }
            pub fn has_completion_item_resolve_additionalTextEdits(&self) -> bool { self.1 }
            pub fn did_change_watched_files_dynamic_registration(&self) -> bool { self.2 }
            pub fn completion_snippet(&self) -> bool { true }
        }
    }
}
pub mod lsp_ext {
    #[derive(serde_derive::Deserialize)] pub struct ClientCommandOptions { pub commands: Vec<String> }
}
use config::config_change::ConfigChange;
use serde_json::{Value, json};
fn apply(c: &Config, v: Value) -> (Config, String) {
    let mut ch = ConfigChange::default();
    ch.change_client_config(v);
    let (c, e) = c.apply_change(ch);
    let e = if e.is_empty() { String::new() } else { e.to_string() };
    (c, e)
}
fn main() {
    let caps = shim::lsp_types::ClientCapabilities { experimental: Some(json!({"commands": {"commands": ["move-on-aptos.debugTest", "move-on-aptos.gotoLocation"]}})), ..Default::default() };
    let base = Config::new("/".into(), caps, vec![], None);
    let mut bad = 0;
    let mut check = |what: &str, ok: bool| if !ok { println!("FAILED: {what}"); bad += 1 };
    // every boolean switch on its own, with a client that set everything else the other way round
    let keys = [
        ("diagnostics.enable", "d.enabled"), ("diagnostics.needsTypeAnnotation", "d.nta"),
        ("lens.enable", "l.*"), ("lens.run.enable", "l.runnables"), ("lens.specifications.enable", "l.specifications"),
        ("inlayHints.renderColons", "h.render_colons"), ("inlayHints.typeHints.enable", "h.type_hints"), ("inlayHints.typeHints.showForTuples", "h.tuples"),
        ("inlayHints.parameterHints.enable", "h.parameters"), ("inlayHints.rangeExclusiveHints.enable", "h.ranges"), ("inlayHints.typeHints.hideClosureParameter", "h.closure"),
        ("completion.autoimport.enable", "c.imports"),
    ];
    let set = |pairs: &[(&str, bool)]| {
        let mut v = json!({});
        for (k, b) in pairs {
            let mut at = &mut v;
            let parts: Vec<&str> = k.split('.').collect();
            for (i, p) in parts.iter().enumerate() {
                let o = at.as_object_mut().unwrap();
                if i + 1 == parts.len() { o.insert(p.to_string(), json!(b)); at = o.get_mut(*p).unwrap(); } else { at = o.entry(p.to_string()).or_insert(json!({})); }
            }
        }
        v
    };
    let observe = |c: &Config| -> Vec<(&'static str, bool)> {
        let (d, l, h, co) = (c.diagnostics_config(), c.lens(), c.inlay_hints_config(), c.completion());
        vec![("d.enabled", d.enabled), ("d.nta", d.needs_type_annotation), ("l.runnables", l.runnables), ("l.specifications", l.specifications),
            ("h.render_colons", h.render_colons), ("h.type_hints", h.type_hints), ("h.tuples", h.tuple_type_hints), ("h.parameters", h.parameter_hints),
            ("h.ranges", h.range_exclusive_hints), ("h.closure", h.hide_closure_parameter_hints), ("c.imports", co.enable_imports_on_the_fly)]
    };
    for off in [false, true] {
        for (k, _) in keys {
            let all: Vec<(&str, bool)> = keys.iter().map(|(x, _)| (*x, (*x == k) == off)).collect();
            let (c, e) = apply(&base, set(&all));
            check(&format!("errors for valid settings: {e}"), e.is_empty());
            for (o, v) in observe(&c) {
                let own = keys.iter().find(|(_, x)| *x == o).unwrap().0;
                let val = |k2: &str| all.iter().find(|x| x.0 == k2).unwrap().1;
                let want = val(own) && (!o.starts_with("l.") || val("lens.enable"));
                check(&format!("{o} is {v} with {k}={off} and all other settings {}", !off), v == want);
            }
            check("diagnostics_enabled", c.diagnostics_enabled() == c.diagnostics_config().enabled);
        }
    }
    // values
    let (c, e) = apply(&base, json!({"aptosPath": "/a", "dap": {"path": "/d", "extraArgs": ["--dx"]}, "movefmt": {"path": "/m", "extraArgs": ["--mx"]}, "tests": {"extraArgs": ["--tx"]}, "prover": {"extraArgs": ["--px"]},
        "diagnostics": {"disabled": ["dis"], "enableOnly": ["only"]}, "lens": {"location": "above_whole_item"}, "files": {"watcher": "server"}}));
    check(&format!("errors for valid values: {e}"), e.is_empty());
    check("aptos path", c.aptos_path() == Some("/a".into()));
    check("dap", c.dap().path == Some("/d".into()) && c.dap().extra_args == ["--dx"]);
    check("movefmt", c.movefmt().is_some_and(|m| m.path == "/m" && m.extra_args == ["--mx"]));
    check("runnables", c.runnables().tests_extra_args == ["--tx"] && c.runnables().prover_extra_args == ["--px"]);
    let d = c.diagnostics_config();
    check("disabled", d.disabled.contains("dis") && d.disabled.len() == 1 && d.enable_only.contains("only") && d.enable_only.len() == 1);
    check("location", format!("{:?}", c.lens().location).contains("WholeItem"));
    check("watcher", format!("{:?}", c.files().watcher).contains("Server"));
    check("watcher by default", format!("{:?}", base.files().watcher).contains("Client"));
    let cc = base.client_commands();
    check("client commands", !cc.run_test && cc.debug_test && !cc.debug_transaction && !cc.show_references && cc.goto_location);
    // a later answer replaces an earlier one
    let (c2, _) = apply(&c, json!({"tests": {"extraArgs": ["--ty"]}}));
    check("a later answer", c2.runnables().tests_extra_args == ["--ty"] && c2.dap().path.is_none() && c2.aptos_path().is_none());
    // ill-formed settings: reported, and only they
    for (k, v) in [("/lens/enable", json!({"lens": {"enable": "x", "run": {"enable": false}}})), ("/tests/extraArgs", json!({"tests": {"extraArgs": 5}, "lens": {"run": {"enable": false}}})), ("/lens/location", json!({"lens": {"location": "nowhere", "run": {"enable": false}}}))] {
        let (c, e) = apply(&base, v);
        let name = k.trim_start_matches('/').replace('/', ".");
        check(&format!("{k} is not reported: {e:?}"), e.contains(k) || e.contains(&name));
        check(&format!("the setting beside {k} is lost"), !c.lens().runnables);
        let (c3, e3) = apply(&c, json!({"lens": {"run": {"enable": false}}}));
        check(&format!("stale error: {e3:?}"), e3.is_empty());
    }
    let (_, e) = apply(&base, json!({"lens": {"enable": "x"}, "tests": {"extraArgs": 5}}));
    check(&format!("two ill-formed settings: {e}"), e.contains("lens") && e.contains("extraArgs"));
    let (c, _) = apply(&base, json!({"aptosPath": "/a"}));
    check("a single setting", c.aptos_path() == Some("/a".into()));
    // diagnostics
    for en in [false, true] { for dis in [false, true] { for only in [0, 1, 2] { for code in ["x-y", "syntax-error"] {
        let (c, _) = apply(&base, json!({"diagnostics": {"enable": en, "disabled": if dis { vec![code] } else { vec!["other"] }, "enableOnly": match only { 0 => vec![], 1 => vec![code], _ => vec!["another"] }}}));
        let d = c.diagnostics_config();
        let got = d.is_diagnostic_enabled(code);
        let want = if only == 0 { !dis } else { only == 1 };
        check(&format!("{code} shown={got} with enable={en} disabled={dis} enableOnly={only}"), got == want && d.enabled == en);
    } } } }
    for (r, sp) in [(false, false), (true, false), (false, true), (true, true)] {
        let (c, _) = apply(&base, json!({"lens": {"enable": true, "run": {"enable": r}, "specifications": {"enable": sp}}}));
        let l = c.lens();
        check(&format!("lens any/none with run={r} specifications={sp}"), l.any() == (r || sp) && l.none() == !(r || sp) && l.runnable() == r);
    }
    std::process::exit((bad > 0) as i32);
}
