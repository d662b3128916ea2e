//! What is advertised, what is served, and what a client may be sent.
use super::dispatch::request_chain;
use super::trace::*;
use super::util::*;
use crate::absint::*;
use crate::repo::*;
use crate::report::Report;
use std::collections::{BTreeMap, BTreeSet};

const CAPS: &str = "lsp/capabilities.rs";
fn server(f: &FnInfo) -> bool {
    f.module.first().map(|s| s.as_str()) == Some("aptos_language_server")
}
/// accessor of the client's capabilities and the field it must answer for
const FIELDS: &[(&str, &str)] = &[
    ("location_link", "text_document.definition.link_support"),
    ("hierarchical_symbols", "text_document.document_symbol.hierarchical_document_symbol_support"),
    ("semantic_tokens_refresh", "workspace.semantic_tokens.refresh_support"),
    ("code_lens_refresh", "workspace.code_lens.refresh_support"),
    ("inlay_hints_refresh", "workspace.inlay_hint.refresh_support"),
    ("diagnostics_refresh", "workspace.diagnostics.refresh_support"),
    ("completion_label_details_support", "text_document.completion.completion_item.label_details_support"),
    ("insert_replace_support", "text_document.completion.completion_item.insert_replace_support"),
    ("completion_snippet", "text_document.completion.completion_item.snippet_support"),
    ("did_change_watched_files_dynamic_registration", "workspace.did_change_watched_files.dynamic_registration"),
    ("did_change_watched_files_relative_pattern_support", "workspace.did_change_watched_files.relative_pattern_support"),
    ("code_action_literals", "text_document.code_action.code_action_literal_support"),
    ("work_done_progress", "window.work_done_progress"),
    ("signature_help_label_offsets", "text_document.signature_help.signature_information.parameter_information.label_offset_support"),
    ("open_server_logs", "experimental.openServerLogs"),
    ("server_status_notification", "experimental.serverStatusNotification"),
    ("code_action_resolve", "text_document.code_action.resolve_support.properties"),
];
fn path_of(it: &Interp<Trace>, v: &V) -> String {
    // textual: drop the markers and parentheses of Option handling
    let mut s = cfull(it, v);
    for m in ["Ok#0", "Some#0"] {
        s = s.replace(m, "");
    }
    let s: String = s.chars().filter(|c| *c != '(' && *c != ')').collect();
    s.trim_start_matches("self.0").trim_start_matches("self").trim_start_matches('.').to_string()
}
fn accessors(r: &Repo, rep: &mut Report) {
    let mut nacc = 0;
    for (name, want) in FIELDS {
        let Some(f) = r.fns.iter().find(|f| server(f) && f.name == *name && f.self_ty.as_deref() == Some("ClientCapabilities")) else { continue };
        let cfg = Cfg::new(|g: &FnInfo| server(g) && g.self_ty.as_deref() == Some("ClientCapabilities")).mhook(|it, _cx, st, c| match c.name {
            "get" if c.args.len() == 1 => {
                let V::Str(s) = it.deref(st, &c.args[0]) else { return None };
                let v = it.sym(&format!(".{s}"), vec![it.deref(st, &c.recv)]);
                Some(vec![(st.clone(), Flow::Val(v))])
            }
            "as_bool" if c.args.is_empty() => Some(vec![(st.clone(), Flow::Val(it.deref(st, &c.recv)))]),
            _ => None,
        });
        let t = tr(r, rep, f.id, None, cfg);
        nacc += 1;
        let presence = matches!(*name, "code_action_literals");
        let mut yes = 0;
        for p in &t.paths {
            for (st, b) in t.it.branch(p.st.clone(), &p.ret) {
                if !b {
                    continue;
                }
                // an `unwrap_or_default` of nothing is no answer
                let (o, _) = op(&t.it, &p.ret);
                if o.starts_with("Default") || st.facts.iter().any(|(x, f)| *f == Fact::Bool(true) && cfull(&t.it, &V::Sym(*x)).starts_with("Default(")) || full(&t.it, &p.ret).contains("Default(") {
                    continue;
                }
                yes += 1;
                // the fields known to be present, and the one that decided
                let known: BTreeSet<String> = st
                    .facts
                    .iter()
                    .filter(|(_, f)| match f {
                        Fact::Bool(b) => *b,
                        Fact::Is(n, ..) => matches!(&**n, "Some" | "Ok"),
                        _ => false,
                    })
                    .map(|(x, _)| path_of(&t.it, &V::Sym(*x)))
                    .collect();
                let ok = known.iter().any(|k| {
                    let k = k.trim_start_matches(".0").trim_start_matches('.');
                    k == *want || (*name == "code_action_resolve" && k.contains(want) && sends(r, f).contains("\"edit\""))
                });
                let wrong: Vec<&String> = known
                    .iter()
                    .filter(|k| {
                        let k = k.trim_start_matches('.');
                        !(want.starts_with(k) || k.contains(want))
                    })
                    .collect();
                rep.ob(
                    ok && wrong.is_empty(),
                    format!("accessor:{name}"),
                    format!("ClientCapabilities::{name} can be true without the client's `{want}`{}: it looks at {known:?}", if presence { " being there" } else { "" }),
                    &f.file,
                    f.line,
                );
            }
        }
        rep.ob(yes > 0, format!("accessor:{name}:dead"), format!("ClientCapabilities::{name} is never true: clients that have the capability get the reduced form"), &f.file, f.line);
    }
    rep.floor("client capability accessors", nacc, 12);
}

/// `find_map` over values that are not known: nothing found, or what the closure finds in one of them
fn find_map(it: &Interp<Trace>, cx: &std::rc::Rc<Cx>, st: &St<TW>, c: &MCall) -> Option<Out<TW>> {
    let recv = it.deref(st, &c.recv);
    if c.name != "find_map" || c.args.len() != 1 || !matches!(recv, V::Sym(_)) {
        return None;
    }
    let mut out: Out<TW> = vec![(st.clone(), Flow::Val(V::Ctor(std::rc::Rc::from("None"), std::rc::Rc::new(vec![]))))];
    let e = it.sym("elem", vec![recv, V::Int(c.line as i128), V::Int(1)]);
    for (s, f) in it.apply(cx, &c.args[0], vec![e], st.clone(), c.line) {
        if let Flow::Val(v) = &f {
            if is_none(&it.deref(&s, v)) {
                continue;
            }
        }
        out.push((s, f));
    }
    Some(out)
}
/// what may only be sent to a client that has a capability
struct Guard {
    /// event name
    ev: &'static str,
    acc: &'static str,
}
const GUARDS: &[Guard] = &[
    Guard { ev: "send:SemanticTokensRefreshRequest", acc: "semantic_tokens_refresh" },
    Guard { ev: "send:CodeLensRefreshRequest", acc: "code_lens_refresh" },
    Guard { ev: "send:InlayHintRefreshRequest", acc: "inlay_hints_refresh" },
    Guard { ev: "send:DiagnosticRefreshRequest", acc: "diagnostics_refresh" },
    Guard { ev: "send:WorkDoneProgressCreateRequest", acc: "work_done_progress" },
    Guard { ev: "send:ProgressNotification", acc: "work_done_progress" },
    Guard { ev: "send:ServerStatusNotification", acc: "server_status_notification" },
    Guard { ev: "send:ShowMessageRequest", acc: "open_server_logs" },
    Guard { ev: "make:RelativePattern", acc: "did_change_watched_files_relative_pattern_support" },
    Guard { ev: "call:location_link", acc: "location_link" },
];
fn sends(_r: &Repo, f: &FnInfo) -> String {
    use quote::ToTokens;
    f.block.to_token_stream().to_string()
}
fn gcfg<'r>(r: &'r Repo, accs: &'r [&'static str]) -> Cfg<'r> {
    let _ = r;
    Cfg::new(move |g: &FnInfo| {
        // a helper that only asks for a capability
        server(g) && g.self_ty.as_deref() != Some("ClientCapabilities") && g.name != "config" && {
            let t = sends(r, g);
            accs.iter().any(|a| t.contains(&format!("{a} ("))) && !t.contains("send_request") && !t.contains("send_notification") && t.len() < 600
        }
    })
    .events(|_| true)
    .mhook(move |it, cx, st, c| {
        if c.name == "send_request" || c.name == "send_notification" {
            let tf = turbofish(c);
            let ty = tf.split(',').next().unwrap_or("").rsplit("::").next().unwrap_or("").trim_end_matches('>').to_string();
            let mut s = st.clone();
            s.event(&format!("send:{ty}"), vec![], cx.func, c.line);
            return Some(vec![(s, Flow::Val(V::Unit))]);
        }
        let _ = it;
        None
    })
    .chook(|it, cx, st, segs, a, line| {
        let n = segs.last().map(|s| s.as_str()).unwrap_or("");
        if n == "RelativePattern" {
            let mut s = st.clone();
            s.event("make:RelativePattern", vec![], cx.func, line);
            return Some(vec![(s, Flow::Val(it.sym("RelativePattern", a.to_vec())))]);
        }
        None
    })
}
fn holds(t: &Interp<Trace>, st: &St<TW>, acc: &str) -> bool {
    st.facts.iter().any(|(x, f)| matches!(f, Fact::Bool(true)) && {
        let s = cfull(t, &V::Sym(*x));
        s.contains(&format!("{acc}()")) || s.contains(&format!(".{acc}(")) || s.contains(&format!("::{acc}("))
    })
}
/// is every occurrence of the event in (or under) `f` reached only with the capability?
fn guarded(r: &Repo, rep: &mut Report, f: &FnInfo, ev: &str, acc: &'static str, depth: usize, seen: &mut BTreeSet<FnId>) -> (bool, usize) {
    let accs: &'static [&'static str] = Box::leak(Box::new([acc]));
    let t = trace(r, f.id, None, gcfg(r, accs));
    if !t.it.overflow.borrow().is_empty() {
        rep.problem(format!("{}: {:?}", f.qual(), t.it.overflow.borrow()));
    }
    let name = ev.strip_prefix("call:");
    let mut n = 0;
    let mut bad = false;
    for p in &t.paths {
        let hit = p.st.events.iter().any(|e| match name {
            Some(c) => last(e.name.trim_end_matches("()")) == c && !e.name.contains(&format!("ClientCapabilities::{c}")) && !e.args.is_empty() && e.args.len() > 1,
            None => &*e.name == ev,
        });
        if !hit {
            continue;
        }
        n += 1;
        if !holds(&t.it, &p.st, acc) {
            bad = true;
        }
    }
    if n == 0 || !bad {
        return (true, n);
    }
    if depth == 0 || !seen.insert(f.id) {
        return (false, n);
    }
    // the callers may have asked
    let callers: BTreeSet<FnId> = call_sites(r, "aptos_language_server", &f.name).into_iter().map(|x| x.0.id).filter(|id| *id != f.id).collect();
    if callers.is_empty() {
        return (false, n);
    }
    let evn = format!("call:{}", f.name);
    for id in callers {
        let g = &r.fns[id];
        let t = trace(r, id, None, gcfg(r, accs));
        let (mut bad, mut hits) = (false, 0);
        for p in &t.paths {
            if p.st.events.iter().any(|e| last(e.name.trim_end_matches("()")) == f.name) {
                hits += 1;
                bad |= !holds(&t.it, &p.st, acc);
            }
        }
        if hits == 0 {
            return (false, n);
        }
        if bad {
            let (ok, k) = guarded(r, rep, g, &evn, acc, depth - 1, seen);
            if !ok || k == 0 {
                return (false, n);
            }
        }
    }
    (true, n)
}
fn guards(r: &Repo, rep: &mut Report) {
    let mut sites = 0;
    for g in GUARDS {
        let key = g.ev.split(':').nth(1).unwrap();
        for f in r.fns.iter().filter(|f| server(f) && f.self_ty.as_deref() != Some("ClientCapabilities")) {
            let t = sends(r, f);
            let has = match g.ev.split(':').next() {
                Some("send") => t.contains(&format!("{key} >")) && (t.contains("send_request") || t.contains("send_notification")),
                Some("make") => t.contains(&format!("{key} (")),
                _ => t.contains(&format!("{key} (")) && f.name != key,
            };
            // an answer of an extension method is not bound to what the standard methods may carry
            let ext = quote::ToTokens::to_token_stream(&f.sig.output).to_string().contains("lsp_ext");
            if !has || (key == "location_link" && ext) {
                continue;
            }
            let (ok, n) = guarded(r, rep, f, g.ev, g.acc, 2, &mut BTreeSet::new());
            if n == 0 {
                continue;
            }
            sites += 1;
            rep.ob(
                ok,
                format!("guard:{key}:{}", f.name),
                format!("{} sends or builds `{key}` on a path where the client was not asked for `{}`", f.qual(), g.acc),
                &f.file,
                f.line,
            );
            rep.sample(format!("{}: {key} only with {}", f.qual(), g.acc));
        }
    }
    rep.floor("places that need a client capability", sites, 11);
    // the client watches files only if it can
    if let Some(f) = need(r, rep, "config.rs", Some("Config"), "files") {
        let t = tr(r, rep, f.id, None, Cfg::new(|_| false));
        let mut client = 0;
        for p in &t.paths {
            let V::Struct(_, m) = &p.ret else { continue };
            let Some(w) = m.get("watcher") else { continue };
            if t.it.show(w).ends_with("Client") {
                client += 1;
                rep.ob(
                    holds(&t.it, &p.st, "did_change_watched_files_dynamic_registration"),
                    "guard:watcher",
                    "the server leaves watching files to a client that does not support registering for it",
                    &f.file,
                    f.line,
                );
            }
        }
        rep.ob(client > 0, "guard:watcher:never", "the client is never asked to watch files", &f.file, f.line);
    }
    // nested symbols only to clients that understand them
    if let Some(f) = need(r, rep, "handlers/request.rs", None, "handle_document_symbol") {
        let t = tr(r, rep, f.id, None, Cfg::new(|_| false));
        let mut flat = 0;
        for p in &t.paths {
            let (o, _) = op(&t.it, &p.ret);
            if o == "Err" || matches!(&p.ret, V::Ctor(n, _) if &**n == "Err") {
                continue;
            }
            let s = t.it.show(&p.ret);
            let nested = s.contains("DocumentSymbol{");
            let asked = holds(&t.it, &p.st, "hierarchical_symbols");
            if !asked {
                flat += 1;
            }
            rep.ob(!nested || asked, "guard:nested-symbols", "document symbols are sent nested to a client that only takes the flat form", &f.file, f.line);
        }
        rep.ob(flat > 0, "guard:flat-symbols", "no path answers a client that takes only the flat form of document symbols", &f.file, f.line);
    }
    // parameter offsets
    if let (Some(f), Some(h)) = (need(r, rep, "lsp/to_proto.rs", None, "signature_help"), need(r, rep, "handlers/request.rs", None, "handle_signature_help")) {
        let t = tr(r, rep, f.id, None, Cfg::new(|_| false));
        for p in &t.paths {
            let s = full(&t.it, &p.ret);
            let asked = fact_bool(&t.it, &p.st, |x| x == "label_offsets" || x.contains("signature_help_label_offsets"));
            rep.ob(!s.contains("Offset") || asked == Some(true), "guard:label-offsets", "parameter labels are sent as offsets to a client that takes only strings", &f.file, f.line);
        }
        if f.sig.inputs.len() == 2 {
            let t = tr(r, rep, h.id, None, Cfg::new(|_| false));
            for p in &t.paths {
                for e in p.st.events.iter().filter(|e| last(e.name.trim_end_matches("()")) == "signature_help" && e.args.len() == 2 && e.name.contains("to_proto")) {
                    let s = full(&t.it, &norm(&t.it, &p.st, &e.args[1]));
                    let by_fact = fact_bool(&t.it, &p.st, |x| x.contains("signature_help_label_offsets"));
                    let ok = s.contains("signature_help_label_offsets") || e.args[1] == V::Bool(false) || (e.args[1] == V::Bool(true) && by_fact == Some(true));
                    rep.ob(ok, "guard:label-offsets-arg", "signature help does not ask the client whether it takes label offsets", &h.file, h.line);
                }
            }
        }
    }
    // completion
    if let Some(f) = need(r, rep, "lsp/to_proto.rs", None, "completion_item") {
        let t = tr(r, rep, f.id, None, Cfg::new(|_| false).events(|n| matches!(last(n), "lsp_completion_text_edit" | "push")));
        let mut seen = 0;
        for p in &t.paths {
            for e in p.st.events.iter() {
                let n = last(e.name.trim_end_matches("()"));
                if n == "lsp_completion_text_edit" {
                    let v = t.it.deref(&p.st, &e.args[1]);
                    seen += 1;
                    rep.ob(
                        is_none(&v) || holds(&t.it, &p.st, "insert_replace_support"),
                        "guard:insert-replace",
                        "a completion is sent as an insert/replace edit to a client that does not take those",
                        &f.file,
                        f.line,
                    );
                } else if n == "push" && e.args.len() == 2 {
                    let V::Struct(n, m) = t.it.deref(&p.st, &e.args[1]) else { continue };
                    if last(&n) != "CompletionItem" {
                        continue;
                    }
                    seen += 1;
                    let det = m.get("label_details").map(|v| t.it.deref(&p.st, v));
                    rep.ob(
                        det.as_ref().is_none_or(is_none) || holds(&t.it, &p.st, "completion_label_details_support"),
                        "guard:label-details",
                        "label details are sent to a client that does not take them",
                        &f.file,
                        f.line,
                    );
                }
            }
        }
        rep.floor("completion items followed", seen, 2);
    }
    // code actions
    if let Some(f) = need(r, rep, "handlers/request.rs", None, "handle_code_action") {
        let t = tr(r, rep, f.id, None, Cfg::new(|_| false));
        let mut n = 0;
        for p in &t.paths {
            let s = t.it.show(&p.ret);
            let made = p.st.events.iter().any(|e| last(e.name.trim_end_matches("()")) == "code_action");
            if !made {
                continue;
            }
            n += 1;
            rep.ob(holds(&t.it, &p.st, "code_action_literals"), "guard:code-action-literal", "code actions are sent to a client that takes only commands", &f.file, f.line);
            for e in p.st.events.iter().filter(|e| last(e.name.trim_end_matches("()")) == "code_action" && e.args.len() == 3) {
                let v = t.it.deref(&p.st, &e.args[2]);
                rep.ob(
                    is_none(&v) || holds(&t.it, &p.st, "code_action_resolve"),
                    "guard:code-action-resolve",
                    "a code action is sent without its edit to a client that cannot resolve it",
                    &f.file,
                    f.line,
                );
            }
            for e in p.st.events.iter().filter(|e| last(e.name.trim_end_matches("()")) == "assists_with_fixes") {
                let st = e.args.iter().map(|a| t.it.show(&t.it.deref(&p.st, a))).collect::<Vec<_>>().join(" ");
                rep.ob(
                    !st.contains("None ") && !st.ends_with("None") || holds(&t.it, &p.st, "code_action_resolve"),
                    "guard:code-action-edits",
                    "edits of code actions are left out for a client that cannot resolve them",
                    &f.file,
                    f.line,
                );
            }
            let _ = &s;
        }
        rep.floor("paths that send a code action", n, 1);
    }
}
/// completions are snippets only for clients that take snippets
fn snippets(r: &Repo, rep: &mut Report) {
    if let Some(f) = need(r, rep, "aptos-language-server/src/config.rs", Some("Config"), "completion") {
        let t = tr(r, rep, f.id, None, Cfg::new(|_| false));
        for p in &t.paths {
            let v = find_field(&t.it, &p.st, &p.ret, "allow_snippets").map(|v| full(&t.it, &norm(&t.it, &p.st, &v))).unwrap_or_default();
            let fact = fact_bool(&t.it, &p.st, |s| s.contains("completion_snippet"));
            rep.ob(
                v.contains("completion_snippet") || fact == Some(true) || v.ends_with("None"),
                "snippet:config",
                format!("snippets are allowed by `{v}`, not by what the client supports"),
                &f.file,
                f.line,
            );
        }
    }
    if let Some(f) = need(r, rep, "ide-db/src/lib.rs", Some("AllowSnippets"), "new") {
        let t = tr(r, rep, f.id, None, Cfg::new(|_| false));
        for p in &t.paths {
            let asked = fact_bool(&t.it, &p.st, |s| s == "allow_snippets");
            rep.ob(is_none(&p.ret) || asked == Some(true), "snippet:witness", "AllowSnippets::new gives the permission it was not given", &f.file, f.line);
        }
    }
    // methods that leave an item a plain text
    let mut plain: BTreeSet<String> = BTreeSet::new();
    for g in r.fns.iter().filter(|g| g.module.first().map(|s| s.as_str()) == Some("ide_completion") && g.self_ty.as_deref() == Some("CompletionItem") && g.has_self()) {
        let t = trace(r, g.id, None, Cfg::new(|_| false).cap(500));
        let off = |p: &PathR| match heap_of(&t.it, &p.st, "self.is_snippet") {
            Some(v) => v == V::Bool(false),
            None => fact_bool(&t.it, &p.st, |s| s == "self.is_snippet") == Some(false),
        };
        if !t.paths.is_empty() && t.paths.iter().all(off) {
            plain.insert(g.name.clone());
            // ... and no placeholder is left in it
            for p in &t.paths {
                if heap_of(&t.it, &p.st, "self.is_snippet").is_none() {
                    continue;
                }
                let rebuilt = heap_of(&t.it, &p.st, "self.text_edit").is_some();
                let all = p.st.events.iter().filter(|e| last(e.name.trim_end_matches("()")) == "replace" && e.args.len() == 3 && t.it.show(&e.args[0]).contains("TextEdit")).all(|e| t.it.show(&e.args[2]).contains("$0"));
                rep.ob(rebuilt && all, "snippet:placeholder", format!("{} keeps the placeholder in the text it makes plain", g.name), &g.file, g.line);
            }
        }
    }
    let Some(f) = need(r, rep, "ide-completion/src/lib.rs", None, "completions") else { return };
    let t = tr(r, rep, f.id, None, Cfg::new(move |g: &FnInfo| g.file.ends_with("ide-completion/src/lib.rs")).events(|_| true).loops());
    let (mut with, mut without) = (0, 0);
    for p in &t.paths {
        if is_none(&p.ret) {
            continue;
        }
        let (o, _) = op(&t.it, &p.ret);
        if o.starts_with("None") || matches!(&p.ret, V::Ctor(n, _) if &**n == "Err") {
            continue;
        }
        if fact_is(&t.it, &p.st, |s| s.ends_with("allow_snippets")).as_deref() == Some("Some") || fact_bool(&t.it, &p.st, |s| s.contains("allow_snippets") && s.contains("is_some")) == Some(true) {
            continue;
        }
        let made = p.st.events.iter().any(|e| {
            plain.contains(last(e.name.trim_end_matches("()"))) || e.args.iter().any(|a| plain.iter().any(|n| t.it.show(a).contains(&format!("::{n}"))))
        });
        let looped = p.st.events.iter().any(|e| &*e.name == "for");
        if made {
            with += 1;
        } else if !looped {
            without += 1;
        }
    }
    rep.count("methods that make a completion plain", plain.len());
    rep.ob(
        with > 0 && without == 0,
        "snippet:plain",
        format!("completions can be answered as snippets to a client that takes none ({with} paths make them plain, {without} do not)"),
        &f.file,
        f.line,
    );
}
fn is_none(v: &V) -> bool {
    matches!(v, V::Ctor(n, _) if &**n == "None")
}

/// server capability field, the requests it invites
const PROVIDERS: &[(&str, &[&str])] = &[
    ("hover_provider", &["HoverRequest"]),
    ("completion_provider", &["CompletionRequest"]),
    ("signature_help_provider", &["SignatureHelpRequest"]),
    ("definition_provider", &["DefinitionRequest"]),
    ("declaration_provider", &["DeclarationRequest"]),
    ("type_definition_provider", &["TypeDefinitionRequest"]),
    ("implementation_provider", &["ImplementationRequest"]),
    ("references_provider", &["ReferencesRequest"]),
    ("document_highlight_provider", &["DocumentHighlightRequest"]),
    ("document_symbol_provider", &["DocumentSymbolRequest"]),
    ("workspace_symbol_provider", &["WorkspaceSymbolRequest"]),
    ("code_action_provider", &["CodeActionRequest"]),
    ("code_lens_provider", &["CodeLensRequest"]),
    ("document_formatting_provider", &["DocumentFormattingRequest"]),
    ("document_range_formatting_provider", &["DocumentRangeFormattingRequest"]),
    ("document_on_type_formatting_provider", &["DocumentOnTypeFormattingRequest"]),
    ("selection_range_provider", &["SelectionRangeRequest"]),
    ("folding_range_provider", &["FoldingRangeRequest"]),
    ("rename_provider", &["RenameRequest"]),
    ("document_link_provider", &["DocumentLinkRequest"]),
    ("color_provider", &["DocumentColorRequest", "ColorPresentationRequest"]),
    ("execute_command_provider", &["ExecuteCommandRequest"]),
    ("call_hierarchy_provider", &["CallHierarchyPrepareRequest", "CallHierarchyIncomingCallsRequest", "CallHierarchyOutgoingCallsRequest"]),
    ("type_hierarchy_provider", &["TypeHierarchyPrepareRequest"]),
    ("semantic_tokens_provider", &[]),
    ("moniker_provider", &["MonikerRequest"]),
    ("linked_editing_range_provider", &["LinkedEditingRangeRequest"]),
    ("inlay_hint_provider", &["InlayHintRequest"]),
    ("inline_value_provider", &["InlineValueRequest"]),
    ("inline_completion_provider", &["InlineCompletionRequest"]),
    ("diagnostic_provider", &["DocumentDiagnosticRequest"]),
];
/// option inside a provider, the request it invites
const OPTIONS: &[(&str, &str, &str)] = &[
    ("completion_provider", "resolve_provider", "CompletionResolveRequest"),
    ("code_action_provider", "resolve_provider", "CodeActionResolveRequest"),
    ("code_lens_provider", "resolve_provider", "CodeLensResolveRequest"),
    ("inlay_hint_provider", "resolve_provider", "InlayHintResolveRequest"),
    ("workspace_symbol_provider", "resolve_provider", "WorkspaceSymbolResolveRequest"),
    ("document_link_provider", "resolve_provider", "DocumentLinkResolveRequest"),
    ("rename_provider", "prepare_provider", "PrepareRenameRequest"),
    ("semantic_tokens_provider", "full", "SemanticTokensRequest"),
    ("semantic_tokens_provider", "range", "SemanticTokensRangeRequest"),
    ("diagnostic_provider", "workspace_diagnostics", "WorkspaceDiagnosticRequest"),
];
/// may the capability be read as switched on?
fn on(it: &Interp<Trace>, st: &St<TW>, v: &V) -> bool {
    match it.deref(st, v) {
        V::Bool(b) => b,
        V::Ctor(n, a) => match &*n {
            "None" => false,
            x if last(x) == "Some" || last(x) == "Bool" || last(x) == "Simple" || last(x) == "Left" => a.first().is_none_or(|v| on(it, st, v)),
            _ => true,
        },
        V::Sym(x) => !matches!(st.facts.iter().find(|(y, _)| **y == x).map(|z| z.1), Some(Fact::Bool(false))),
        _ => true,
    }
}
fn find_field(it: &Interp<Trace>, st: &St<TW>, v: &V, f: &str) -> Option<V> {
    match it.deref(st, v) {
        V::Struct(_, m) => m.get(f).cloned(),
        V::Ctor(_, a) => a.iter().find_map(|x| find_field(it, st, x, f)),
        V::Sym(x) => {
            let (o, a) = op(it, &V::Sym(x));
            if matches!(last(o.trim_end_matches("()")), "into" | "from") {
                return a.first().and_then(|y| find_field(it, st, y, f));
            }
            None
        }
        _ => None,
    }
}
fn registered(r: &Repo, rep: &mut Report, fname: &str) -> Option<BTreeSet<String>> {
    let (f, paths, it) = request_chain(r, fname)?;
    let mut all: Option<BTreeSet<String>> = None;
    for p in &paths {
        let ds: Vec<&Ev> = p.st.events.iter().filter(|e| e.name.starts_with("dispatch:")).collect();
        if !ds.iter().any(|e| &*e.name == "dispatch:finish") || p.st.events.iter().any(|e| &*e.name == "consumed") {
            continue;
        }
        let mut s = BTreeSet::new();
        for e in &ds {
            let t = it.show(&e.args[0]);
            for x in t.trim_matches('"').split(',') {
                s.insert(x.rsplit("::").next().unwrap_or("").trim_matches('"').to_string());
            }
        }
        all = Some(match all {
            None => s,
            Some(o) => o.intersection(&s).cloned().collect(),
        });
    }
    if all.is_none() {
        rep.problem(format!("{}: no path reaches the end of the chain", f.qual()));
    }
    all
}
pub fn l04(r: &Repo, _t: bool) -> Report {
    let mut rep = Report::new("every server capability that can be switched on has its requests registered in on_request (and each served standard request is advertised); every request, notification or form of answer that needs a client capability is reached only after asking for that capability; each accessor of the client's capabilities answers for its own field; the position encoding reported is the negotiated one, which the client offered.");
    let Some(f) = need(r, &mut rep, CAPS, None, "server_capabilities") else { return rep };
    let site = (f.file.clone(), f.line);
    let Some(reg) = registered(r, &mut rep, "on_request") else {
        rep.problem("on_request not found");
        return rep;
    };
    let t = tr(r, &mut rep, f.id, None, Cfg::new(|g: &FnInfo| g.file.ends_with(CAPS)).mhook(find_map));
    rep.floor("requests registered", reg.len(), 20);
    let mut adv: BTreeMap<String, (usize, usize)> = BTreeMap::new();
    let mut np = 0;
    for p in &t.paths {
        let V::Struct(_, m) = &p.ret else {
            rep.problem("server_capabilities does not return a struct that can be followed");
            return rep;
        };
        np += 1;
        for (prov, reqs) in PROVIDERS {
            let Some(v) = m.get(*prov) else { continue };
            if !on(&t.it, &p.st, v) {
                continue;
            }
            for q in *reqs {
                adv.entry(q.to_string()).or_default().0 += 1;
                rep.ob(reg.contains(*q), format!("advertised:{q}"), format!("`{prov}` is advertised, but `{q}` is not served: the client's requests fail"), &site.0, site.1);
            }
            for (_, o, q) in OPTIONS.iter().filter(|x| x.0 == *prov) {
                if let Some(v) = find_field(&t.it, &p.st, v, o) {
                    if on(&t.it, &p.st, &v) {
                        adv.entry(q.to_string()).or_default().0 += 1;
                        rep.ob(reg.contains(*q), format!("advertised:{q}"), format!("`{prov}.{o}` is advertised, but `{q}` is not served"), &site.0, site.1);
                    }
                }
            }
        }
        for k in m.keys().filter(|k| k.ends_with("_provider") && !PROVIDERS.iter().any(|p| p.0 == k.as_str())) {
            rep.problem(format!("capability `{k}` is not known to this analysis"));
        }
        if let Some(v) = m.get("text_document_sync") {
            if on(&t.it, &p.st, v) {
                adv.entry("sync".into()).or_default().0 += 1;
            }
        }
    }
    // conversely: a standard request that is served but never advertised is never sent
    for q in &reg {
        let known = PROVIDERS.iter().any(|p| p.1.contains(&q.as_str())) || OPTIONS.iter().any(|o| o.2 == q);
        if known && q != "SemanticTokensRangeRequest" {
            rep.ob(adv.contains_key(q), format!("served:{q}"), format!("`{q}` is served but no capability advertises it: clients never send it"), &site.0, site.1);
        }
    }
    rep.floor("paths of server_capabilities", np, 3);
    rep.ob(adv.contains_key("sync"), "advertised:sync", "document synchronisation is not advertised: edits are never sent", &site.0, site.1);
    if let Some(n) = registered_notifications(r, &mut rep) {
        for q in ["DidOpenTextDocumentNotification", "DidChangeTextDocumentNotification", "DidCloseTextDocumentNotification", "CancelNotification", "DidChangeConfigurationNotification", "DidChangeWatchedFilesNotification"] {
            rep.ob(n.contains(q), format!("notification:{q}"), format!("`{q}` is sent by clients but has no handler"), &site.0, site.1);
        }
    }
    encoding(r, &mut rep, &t);
    accessors(r, &mut rep);
    guards(r, &mut rep);
    snippets(r, &mut rep);
    rep
}
fn registered_notifications(r: &Repo, rep: &mut Report) -> Option<BTreeSet<String>> {
    let (f, paths, it) = request_chain(r, "on_notification")?;
    let mut all: Option<BTreeSet<String>> = None;
    for p in &paths {
        if p.st.events.iter().any(|e| &*e.name == "consumed") {
            continue;
        }
        let s: BTreeSet<String> = p
            .st
            .events
            .iter()
            .filter(|e| e.name.starts_with("dispatch:"))
            .map(|e| it.show(&e.args[0]).trim_matches('"').rsplit("::").next().unwrap_or("").to_string())
            .collect();
        all = Some(match all {
            None => s,
            Some(o) => o.intersection(&s).cloned().collect(),
        });
    }
    if all.is_none() {
        rep.problem(format!("{}: no path", f.qual()));
    }
    all
}
fn encoding(r: &Repo, rep: &mut Report, caps: &Traced) {
    let Some(f) = need(r, rep, CAPS, Some("ClientCapabilities"), "negotiated_encoding") else { return };
    let t = tr(r, rep, f.id, None, Cfg::new(|g: &FnInfo| g.file.ends_with(CAPS)).mhook(find_map));
    let kind = |s: &str| {
        let s = s.to_lowercase().replace(['-', '_'], "");
        ["utf8", "utf16", "utf32"].into_iter().find(|k| s.contains(*k))
    };
    let offered = |it: &Interp<Trace>, st: &St<TW>| -> BTreeSet<&'static str> {
        let mut o = BTreeSet::new();
        for (x, f) in st.facts.iter() {
            let s = it.show(&V::Sym(*x));
            match f {
                Fact::Is(n, ..) if s.contains("position_encodings") || s.starts_with("elem(") => {
                    if let Some(k) = kind(n) {
                        o.insert(k);
                    }
                }
                Fact::Bool(true) if s.contains("position_encodings") || s.contains("elem(") => {
                    if let Some(k) = kind(&s) {
                        o.insert(k);
                    }
                }
                _ => {}
            }
        }
        o
    };
    let mut seen = BTreeSet::new();
    for p in &t.paths {
        let Some(k) = kind(&full(&t.it, &p.ret)) else {
            rep.ob(false, "encoding:unknown", format!("negotiated_encoding returns `{}`, which is no known encoding", t.it.show(&p.ret)), &f.file, f.line);
            continue;
        };
        seen.insert(k);
        rep.ob(
            k == "utf16" || offered(&t.it, &p.st).contains(k),
            format!("encoding:{k}"),
            format!("negotiated_encoding picks {k} on a path where the client did not offer it: every position is then off"),
            &f.file,
            f.line,
        );
    }
    rep.floor("encodings negotiated", seen.len(), 2);
    // the answer to initialize states the same encoding
    for p in &caps.paths {
        let V::Struct(_, m) = &p.ret else { continue };
        let got = m.get("position_encoding").and_then(|v| kind(&full(&caps.it, &norm(&caps.it, &p.st, v))));
        let off = offered(&caps.it, &p.st);
        // what negotiated_encoding returns on this path: run it under the same facts
        let want = if off.contains("utf8") { "utf8" } else if off.contains("utf32") { "utf32" } else { "utf16" };
        let want = if off.len() > 1 { got.unwrap_or(want) } else { want };
        rep.ob(
            got == Some(want) || (got.is_none() && want == "utf16"),
            "encoding:reported",
            format!("the answer to initialize states {got:?} where {want} was negotiated"),
            &f.file,
            f.line,
        );
    }
    // and both conversions and document changes use it
    for (file, name, ty) in [("global_state.rs", "file_line_index", Some("GlobalStateSnapshot")), ("handlers/notification.rs", "handle_did_change_text_document", None)] {
        let Some(g) = need(r, rep, file, ty, name) else { continue };
        let t = tr(r, rep, g.id, None, Cfg::new(|_| false));
        let mut n = 0;
        for p in &t.paths {
            let mut vs: Vec<String> = p.st.events.iter().filter(|e| last(e.name.trim_end_matches("()")) == "apply_document_changes").filter_map(|e| e.args.first()).map(|v| full(&t.it, v)).collect();
            if ty.is_some() && !matches!(op(&t.it, &p.ret).0.as_str(), "Err") {
                let s = find_field(&t.it, &p.st, &p.ret, "encoding").map(|v| full(&t.it, &v));
                vs.extend(s);
            }
            for v in vs {
                n += 1;
                rep.ob(v.contains("negotiated_encoding"), format!("encoding:used:{name}"), format!("{name} converts positions with `{v}`, not with the negotiated encoding"), &g.file, g.line);
            }
        }
        rep.floor(&format!("encodings used by {name}"), n, 1);
    }
}
