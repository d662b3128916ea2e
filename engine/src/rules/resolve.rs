//! Resolving what was listed without details: code actions, inlay hints, code lenses.
use super::trace::*;
use super::util::*;
use crate::absint::*;
use crate::repo::*;
use crate::report::Report;
use std::collections::BTreeMap;
use std::rc::Rc;

fn trd<'r>(r: &'r Repo, rep: &mut Report, id: FnId, cfg: Cfg<'r>) -> Traced<'r, 'r> {
    let t = tr(r, rep, id, None, cfg);
    if std::env::var("SA_DUMP").is_ok_and(|x| x == r.fns[id].name) {
        if std::env::var("SA_FULL").is_ok() {
            for (i, p) in t.paths.iter().enumerate() {
                println!("--- {i} {}", full(&t.it, &t.it.deref(&p.st, &p.ret)));
                p.st.facts.iter().for_each(|(x, f)| println!("  F {} {:?}", full(&t.it, &V::Sym(*x)), f));
                p.st.events.iter().for_each(|e| println!("  E {}({})", e.name, e.args.iter().map(|x| full(&t.it, &t.it.deref(&p.st, x))).collect::<Vec<_>>().join(", ")));
            }
        } else {
            t.dump();
        }
    }
    t
}
fn cfgs<'r>() -> Cfg<'r> {
    Cfg::new(|g: &FnInfo| g.file.ends_with("handlers/request.rs") && !matches!(g.name.as_str(), "parse_action_id" | "resource_ops_supported")).fresh(|_| false).unroll(Some(1)).cap(20000)
}

/// `AssistId#1(id)`, from a pattern, is `id.1`
fn fields(s: String) -> String {
    let Some((a, r)) = s.split_once("AssistId#") else { return s };
    match r.split_once("(").and_then(|(k, r)| r.split_once(')').map(|(v, r)| (k, v, r))) {
        Some((k, v, r)) => fields(format!("{a}{v}.{k}{r}")),
        None => s,
    }
}
fn txt(t: &Traced, p: &PathR, v: &V) -> String {
    fields(full(&t.it, &norm(&t.it, &p.st, v))).replace(".clone()", "").replace(".to_owned()", "")
}
/// the two sides are known to be equal (or the difference to be none) on this path
fn eq(t: &Traced, p: &PathR, a: &dyn Fn(&str) -> bool, b: &dyn Fn(&str) -> bool) -> bool {
    p.st.facts.iter().any(|(x, f)| {
        let Fact::Bool(true) = f else { return false };
        let (o, args) = op(&t.it, &V::Sym(*x));
        if o != "==" || args.len() != 2 {
            return false;
        }
        let (l, r) = (txt(t, p, &args[0]), txt(t, p, &args[1]));
        // `a == Some(b)` is kept as `Some#0(a) == b`
        let bare = |s: &str| s.strip_prefix("Some#0(").and_then(|x| x.strip_suffix(')')).map(|x| x.to_string()).unwrap_or(s.to_string());
        [(l.clone(), r.clone()), (r, l)].iter().any(|(l, r)| (a(l) || a(&bare(l))) && (b(r) || b(&bare(r))))
    })
}
fn ev<'a>(p: &'a PathR, name: &str) -> Option<&'a Ev> {
    p.st.events.iter().find(|e| last(&e.name) == name || e.name.ends_with(&format!(".{name}")))
}
fn payload(v: &V, ctor: &str) -> Option<V> {
    match v {
        V::Ctor(c, a) if last(c) == ctor && a.len() == 1 => Some(a[0].clone()),
        _ => None,
    }
}
/// does the call have the given function and receive the given text somewhere
fn calls(s: &str, f: &str, arg: &str) -> bool {
    s.contains(&format!("{f}()(")) && s.contains(arg)
}

/// `Option::filter` and `Option::map` by what they do
fn options<'r>(c: Cfg<'r>) -> Cfg<'r> {
    c.mhook(|it, cx, st, c| {
        if !matches!(c.name, "filter" | "map") || c.args.len() != 1 {
            return None;
        }
        let V::Closure(_) = it.deref(st, &c.args[0]) else { return None };
        let recv = it.deref(st, &c.recv);
        let none = || V::Ctor(Rc::from("None"), Rc::new(vec![]));
        let some = |v: V| V::Ctor(Rc::from("Some"), Rc::new(vec![v]));
        let e = match &recv {
            V::Ctor(n, a) if &**n == "Some" => a[0].clone(),
            V::Ctor(n, _) if &**n == "None" => return Some(vec![(st.clone(), Flow::Val(none()))]),
            V::Sym(_) => it.sym("Some#0", vec![recv.clone()]),
            _ => return None,
        };
        let mut out = vec![(st.clone(), Flow::Val(none()))];
        for (s, f) in it.apply(cx, &c.args[0], vec![e.clone()], st.clone(), c.line) {
            match f {
                Flow::Val(v) | Flow::Ret(v) if c.name == "filter" => {
                    out.extend(it.branch(s, &v).into_iter().map(|(s, b)| (s, Flow::Val(if b { some(e.clone()) } else { none() }))));
                }
                Flow::Val(v) | Flow::Ret(v) => out.push((s, Flow::Val(some(v)))),
                f => out.push((s, f)),
            }
        }
        Some(out)
    })
}
pub fn l15(r: &Repo, _: bool) -> Report {
    let mut rep = Report::new(
        "every path on which a resolve request fills something in: equal version, the same listing computed again, the same place in it, the same id; and what is written into the data of an item is what is read back",
    );
    let mut n = 0;
    code_actions(r, &mut rep, &mut n);
    id_text(r, &mut rep);
    kind_names(r, &mut rep);
    hints(r, &mut rep, &mut n);
    lenses(r, &mut rep, &mut n);
    lazily(r, &mut rep);
    rep.floor("paths that fill something in", n, 4);
    rep
}

fn code_actions(r: &Repo, rep: &mut Report, total: &mut usize) {
    let Some(f) = need(r, rep, "handlers/request.rs", None, "handle_code_action_resolve") else { return };
    let t = trd(r, rep, f.id, cfgs());
    let ob = |rep: &mut Report, ok: bool, key: &str, msg: &str| rep.ob(ok, &format!("code action: {key}"), msg, &f.file, f.line);
    let mut cfg_resolve: Option<(String, String, String)> = None;
    let mut refused = false;
    for p in &t.paths {
        let ret = norm(&t.it, &p.st, &p.ret);
        refused |= payload(&ret, "Err").is_some_and(|e| every_op(&txt(&t, p, &e)));
        let Some(ca) = ev(p, "code_action") else { continue };
        if payload(&ret, "Err").is_some() {
            continue;
        }
        *total += 1;
        let d = p.st.events.iter().find(|e| last(&e.name) == "from_value").map(|e| format!("Ok#0(serde_json::from_value()({}))", txt(&t, p, &e.args[0]))).unwrap_or_default();
        ob(rep, d.contains("code_action.data"), "data", "the data resolved are not those of the request");
        let uri = format!("{d}.code_action_params.text_document.uri");
        ob(rep, eq(&t, p, &|x| calls(x, "file_version", &uri), &|x| x == format!("{d}.version")), "version", "an edit is handed out without the version of the document being the one of the listing");
        let Some(aw) = ev(p, "assists_with_fixes") else {
            ob(rep, false, "listing", "an edit is handed out that does not come from the list of assists");
            continue;
        };
        let a: Vec<String> = aw.args.iter().map(|x| txt(&t, p, x)).collect();
        let paid = |k: usize| format!("Ok#0(request::parse_action_id()({d}.id)).{k}");
        let strat = a.iter().find(|x| x.starts_with("Single(")).cloned().unwrap_or_default();
        ob(rep, strat == format!("Single({})", paid(1)), "strategy", "the assist worked out is not the one named by the id");
        let range = a.last().cloned().unwrap_or_default();
        ob(rep, range.contains(&uri) || range.contains(&format!("{d}.code_action_params.text_document)")) || range.contains(&format!("{d}.code_action_params.text_document,")), "file", "the assists are listed for another file");
        ob(rep, range.contains(&format!("{d}.code_action_params.range")), "range", "the assists are listed for another range than the one the action was listed for");
        let which = ca.args.iter().find(|x| txt(&t, p, x).contains("assists_with_fixes()(")).map(|x| txt(&t, p, x)).unwrap_or_default();
        ob(rep, which.starts_with("Some#0(") && which.contains("get()(Ok#0(Analysis::assists_with_fixes()(") && which.ends_with(&format!(", {}))", paid(0))), "place", &format!("the edit is not the one of the assist at the place the id names: {}", &which[..which.len().min(120)]));
        for (k, what) in [("assist_id", "id.0"), ("assist_kind", "id.1")] {
            ob(rep, eq(&t, p, &|x| x == format!("{}.{k}", paid(1)), &|x| x == format!("{which}.{what}")), k, &format!("an edit is handed out although the {k} of the assist found may be another"));
        }
        let e = t.it.field_of(&p.st, &payload(&ret, "Ok").unwrap_or(V::Unit), "edit");
        let e = txt(&t, p, &e);
        ob(rep, e.starts_with("Ok#0(to_proto::code_action()(") || e.starts_with("Some(Some#0(Ok#0(to_proto::code_action()(") || e == "None", "edit", "the edit of the answer is not the one worked out");
        cfg_resolve = Some((a[1].clone(), a[2].clone(), allowed(&t, p, &aw.args[1], &format!("{d}.code_action_params."))));
    }
    ob(rep, refused, "resource operations", "an edit whose file operations the client does not support is handed out");

    let Some(f) = need(r, rep, "handlers/request.rs", None, "handle_code_action") else { return };
    let t = trd(r, rep, f.id, cfgs());
    let ob = |rep: &mut Report, ok: bool, key: &str, msg: &str| rep.ob(ok, &format!("code action listed: {key}"), msg, &f.file, f.line);
    let (mut lazy, mut eager, mut refused) = (0, 0, false);
    for p in &t.paths {
        let ret = norm(&t.it, &p.st, &p.ret);
        refused |= payload(&ret, "Err").is_some_and(|e| every_op(&txt(&t, p, &e)));
        let (Some(aw), Some(ca)) = (ev(p, "assists_with_fixes"), ev(p, "code_action")) else { continue };
        let a: Vec<String> = aw.args.iter().map(|x| txt(&t, p, x)).collect();
        let Some(cap) = fact_bool(&t.it, &p.st, |x| x.contains("code_action_resolve()(")) else {
            ob(rep, false, "capability", "actions are listed without asking whether the client resolves them");
            continue;
        };
        let strat = a.get(3).cloned().unwrap_or_default();
        let c: Vec<String> = ca.args.iter().map(|x| txt(&t, p, x)).collect();
        let (item, data) = (c.get(1).cloned().unwrap_or_default(), norm(&t.it, &p.st, ca.args.last().unwrap()));
        ob(rep, range_of(a.last().map(|x| x.as_str()).unwrap_or("")), "range", "the assists listed are not those of the range asked for");
        if cap {
            lazy += 1;
            ob(rep, strat == "None" || strat == "AssistResolveStrategy::None", "lazily", "assists are worked out although they are resolved later");
            let parts = match payload(&data, "Some") {
                Some(V::Tuple(x)) if x.len() == 3 => x.iter().map(|x| txt(&t, p, x)).collect::<Vec<_>>(),
                _ => vec![],
            };
            ob(rep, !parts.is_empty(), "data", "an action that is not worked out has no data to resolve it with");
            if parts.is_empty() {
                continue;
            }
            let elem = item.strip_suffix(".1").unwrap_or("?").to_string();
            ob(rep, parts[0] == format!("{elem}.0") && elem.starts_with("elem(Ok#0(Analysis::assists_with_fixes()(") && listed(&elem), "place", &format!("the place written into the action is not its place in the list of assists: {}", tail(&elem)));
            ob(rep, parts[1] == "params", "params", "the parameters written into the action are not those of the request");
            ob(rep, calls(&parts[2], "file_version", "params.text_document"), "version", "the version written into the action is not the one of its document");
            if let Some((x, y, z)) = &cfg_resolve {
                ob(rep, *x == a[1] && *y == a[2], "settings", "actions are listed and resolved with different settings");
                let l = allowed(&t, p, &aw.args[1], "params.");
                ob(rep, *z == l, "filter", &format!("actions are listed and resolved with different filters: {l} / {z}"));
            }
        } else {
            eager += 1;
            ob(rep, strat.ends_with("All"), "at once", "a client that does not resolve gets actions without edits");
        }
    }
    ob(rep, lazy > 0 && eager > 0, "both", "the rule has not seen both kinds of clients");
    ob(rep, refused, "resource operations", "an edit whose file operations the client does not support is handed out");
}
/// the refusal comes from any of the changes: the loop is over all of them
fn every_op(s: &str) -> bool {
    if !s.contains("resource_ops_supported") && !s.contains("try_for_each") {
        return false;
    }
    let after = s.split("document_changes").last().unwrap_or("").replace(".into_iter()", "").replace(".iter()", "").replace(".as_ref()", "").replace(".try_for_each(())", ", ");
    s.contains("document_changes") && after.trim_start_matches(')').starts_with(", ")
}
fn tail(s: &str) -> &str {
    let n = s.len().saturating_sub(80);
    &s[(n..s.len()).find(|i| s.is_char_boundary(*i)).unwrap_or(s.len())..]
}
/// the element of the enumerated list itself: nothing left out or moved before counting
fn listed(elem: &str) -> bool {
    let Some(l) = elem.strip_prefix("elem(").and_then(|x| x.split(".enumerate()").next()) else { return false };
    let l = l.trim_end_matches(".into_iter()").trim_end_matches(".iter()");
    let mut depth = 0;
    // one call, up to the last character
    l.starts_with("Ok#0(") && l.char_indices().skip(4).all(|(i, c)| {
        depth += (c == '(') as i32 - (c == ')') as i32;
        depth > 0 || i + 1 == l.len()
    })
}
fn range_of(s: &str) -> bool {
    s.contains("params.range") && s.contains("params.text_document")
}
/// what the `allowed` of the settings is made of, in terms of the request
fn allowed(t: &Traced, p: &PathR, cfg: &V, own: &str) -> String {
    let v = t.it.field_of(&p.st, &norm(&t.it, &p.st, cfg), "allowed");
    txt(t, p, &v).replace(own, "R.")
}

/// the id of an action is put together and taken apart the same way
fn id_text(r: &Repo, rep: &mut Report) {
    let Some(w) = need(r, rep, "lsp/to_proto.rs", None, "code_action") else { return };
    let Some(f) = need(r, rep, "handlers/request.rs", None, "parse_action_id") else { return };
    let t = trd(r, rep, w.id, Cfg::new(|g: &FnInfo| g.file.ends_with("lsp/to_proto.rs") && !matches!(g.name.as_str(), "workspace_edit" | "code_action_kind")).fresh(|_| false).unroll(Some(1)));
    let mut order: Vec<(Vec<String>, String)> = vec![];
    let mut sub = false;
    for p in &t.paths {
        for e in p.st.events.iter().filter(|e| last(&e.name) == "to_value") {
            let v = norm(&t.it, &p.st, &e.args[0]);
            let v = payload(&v, "Some").unwrap_or(v);
            let V::Struct(n, m) = &v else { continue };
            if last(n) != "CodeActionData" {
                continue;
            }
            let g = |k: &str| m.get(k).map(|x| txt(&t, p, x)).unwrap_or_default();
            rep.ob(g("version") == "Some#0(resolve_data).2", "action data: version", &format!("the version of the listing is written as {}", g("version")), &w.file, w.line);
            rep.ob(g("code_action_params") == "Some#0(resolve_data).1", "action data: parameters", "the parameters written are not those of the listing", &w.file, w.line);
            sub |= g("id").contains("assist.id.2");
            order.push(template(&g("id")));
        }
        // whatever is known is sent
        let some = fact_is(&t.it, &p.st, |x| x == "assist.source_change");
        if let Some(V::Struct(_, m)) = payload(&norm(&t.it, &p.st, &p.ret), "Ok") {
            let e = m.get("edit").map(|x| txt(&t, p, x)).unwrap_or_default();
            rep.ob(some.as_deref() != Some("Some") || e.contains("workspace_edit()(") && e.contains("assist.source_change"), "action: edit", "an edit that is there is not sent", &w.file, w.line);
            let d = m.get("data").map(|x| txt(&t, p, x)).unwrap_or_default();
            let lazy = some.as_deref() == Some("None") && fact_is(&t.it, &p.st, |x| x == "resolve_data").as_deref() == Some("Some");
            let failed = p.st.facts.iter().any(|(x, f)| full(&t.it, &V::Sym(*x)).starts_with("serde_json::to_value()") && matches!(f, Fact::Is(v) if &**v == "Err"));
            rep.ob(!lazy || failed || d.contains("CodeActionData"), "action: data", "an action that is to be resolved has no data", &w.file, w.line);
        }
    }
    rep.ob(!order.is_empty(), "action data", "no data are written for an action that is resolved later", &w.file, w.line);
    rep.ob(sub, "action data: subtype", "the subtype of the assist is not written into its id", &w.file, w.line);
    let t = trd(r, rep, f.id, cfgs());
    let mut n = 0;
    for p in &t.paths {
        let Some(V::Tuple(x)) = payload(&norm(&t.it, &p.st, &p.ret), "Ok") else { continue };
        n += 1;
        let seg = |s: &str| -> Option<usize> { s.contains("action_id.split(").then(|| ())?; s.rsplit_once(", ").and_then(|(_, k)| k.trim_matches(')').split(')').next().and_then(|k| k.parse().ok())) };
        let V::Struct(_, m) = &x[1] else { continue };
        let g = |k: &str| m.get(k).map(|x| txt(&t, p, x)).unwrap_or_default();
        let sep = txt(&t, p, &x[0]);
        for (segs, c) in &order {
            let at = |role: &str| segs.iter().position(|x| x == role);
            rep.ob(sep.contains(&format!("split(char#{})", c.bytes().next().unwrap_or(0))) || sep.contains(&format!("split({c:?})")), "action id: separator", "the id is taken apart at another character than it is put together with", &f.file, f.line);
            for (role, txt) in [("index", sep.clone()), ("id", g("assist_id")), ("kind", g("assist_kind"))] {
                let k = txt.split(".collect(), ").nth(1).and_then(|x| x.split(')').next()).and_then(|x| x.parse().ok()).or(seg(&txt));
                rep.ob(at(role).is_some() && at(role) == k, &format!("action id: {role}"), &format!("the {role} is written as part {:?} of the id and read from part {k:?}", at(role)), &f.file, f.line);
            }
            let sub = g("assist_subtype");
            if sub != "None" {
                let k = sub.split(".collect(), ").nth(1).and_then(|x| x.split(')').next()).and_then(|x| x.parse().ok());
                rep.ob(at("subtype") == k, "action id: subtype", &format!("the subtype is written as part {:?} of the id and read from part {k:?}", at("subtype")), &f.file, f.line);
            } else {
                let failed = p.st.facts.iter().any(|(x, f)| full(&t.it, &V::Sym(*x)).contains("parse()(") && matches!(f, Fact::Is(v) if &**v == "Err"));
                rep.ob(failed, "action id: subtype", "a subtype that is there is not read", &f.file, f.line);
            }
            rep.ob(p.st.facts.iter().any(|(x, f)| matches!(f, Fact::Bool(true)) && full(&t.it, &V::Sym(*x)) .contains(".len()") && full(&t.it, &V::Sym(*x)).contains(&format!("({}, ", segs.len()))), "action id: parts", "ids with another number of parts than are written are accepted, or those written are not", &f.file, f.line);
        }
    }
    rep.ob(n > 0, "action id", "no id is accepted", &f.file, f.line);
}
/// `format!("{}:{}:{index}:{}", …)`: what each part stands for, and the separator
fn template(s: &str) -> (Vec<String>, String) {
    let Some((tpl, args)) = s.strip_prefix("format!(\"").and_then(|x| x.split_once("\", ")) else { return (vec![], String::new()) };
    let args = args.strip_suffix(')').unwrap_or(args);
    let mut parts = vec![];
    let (mut depth, mut cur) = (0, String::new());
    for c in args.chars() {
        match c {
            '(' | '[' | '{' => depth += 1,
            ')' | ']' | '}' => depth -= 1,
            _ => {}
        }
        if c == ',' && depth == 0 {
            parts.push(std::mem::take(&mut cur).trim().to_string());
        } else {
            cur.push(c);
        }
    }
    parts.push(cur.trim().to_string());
    let sep = tpl.split_once('}').and_then(|(_, r)| r.split('{').next()).unwrap_or("").to_string();
    let holes: Vec<&str> = tpl.split(sep.as_str()).collect();
    let named: Vec<&str> = holes.iter().copied().filter(|h| *h != "{}").collect();
    let pos = parts.len().saturating_sub(named.len());
    let (mut i, mut j) = (0, pos);
    let role = |a: &str| {
        if a.contains("resolve_data).0") {
            "index"
        } else if a.contains("id.2") && ![".filter", ".and_then", ".take_if", ".xor", "+", "-("].iter().any(|x| a.contains(x)) || matches!(a, "\"\"" | "String::new()" | "String::default()") {
            "subtype"
        } else if a.contains("id.1") && a.contains("name()") {
            "kind"
        } else if a == "assist.id.0" {
            "id"
        } else {
            "?"
        }
    };
    let mut out = vec![];
    for h in holes {
        let k = if h == "{}" { &mut i } else { &mut j };
        out.push(role(parts.get(*k).map(|x| x.as_str()).unwrap_or("?")).to_string());
        *k += 1;
    }
    (out, sep)
}

/// the text of a kind is read back as that kind
fn kind_names(r: &Repo, rep: &mut Report) {
    let Some(n) = need(r, rep, "ide-db/src/assists.rs", Some("AssistKind"), "name") else { return };
    let Some(f) = need(r, rep, "ide-db/src/assists.rs", Some("AssistKind"), "from_str") else { return };
    let Some(en) = r.enums.iter().find(|e| e.name == "AssistKind" && e.file == n.file) else { return rep.problem("enum AssistKind not found") };
    for v in &en.item.variants {
        let name = v.ident.to_string();
        let c = V::Ctor(Rc::from(name.as_str()), Rc::new(vec![]));
        let t = tr(r, rep, n.id, Some(vec![c]), Cfg::new(|_| true));
        let names: Vec<V> = t.paths.iter().map(|p| norm(&t.it, &p.st, &p.ret)).collect();
        let lit = match names.as_slice() {
            [V::Str(s)] => s.to_string(),
            _ => {
                rep.ob(false, &format!("kind {}", name), "the kind has no fixed name", &n.file, n.line);
                continue;
            }
        };
        let t = tr(r, rep, f.id, Some(vec![V::Str(Rc::from(lit.as_str()))]), Cfg::new(|_| true));
        let back: Vec<String> = t.paths.iter().map(|p| txt(&t, p, &p.ret)).collect();
        let ok = back.len() == 1 && back[0].strip_prefix("Ok(").and_then(|x| x.strip_suffix(')')).is_some_and(|x| last(x) == name);
        rep.ob(ok && !lit.contains(':'), &format!("kind {}", name), &format!("the kind {} is written as {lit:?}, which is read as {}", name, back.join(" or ")), &f.file, f.line);
    }
}

fn hints(r: &Repo, rep: &mut Report, total: &mut usize) {
    let Some(f) = need(r, rep, "handlers/request.rs", None, "handle_inlay_hints_resolve") else { return };
    let t = trd(r, rep, f.id, options(cfgs()));
    let ob = |rep: &mut Report, ok: bool, key: &str, msg: &str| rep.ob(ok, &format!("hint: {key}"), msg, &f.file, f.line);
    let mut filled = 0;
    for p in &t.paths {
        let Some(ret) = payload(&norm(&t.it, &p.st, &p.ret), "Ok") else { continue };
        let out = txt(&t, p, &ret);
        if out == "original_hint" {
            continue;
        }
        let Some(call) = ev(p, "inlay_hints_resolve") else {
            ob(rep, false, "source", "a hint is filled in with something else than what was worked out");
            continue;
        };
        filled += 1;
        *total += 1;
        let d = p.st.events.iter().find(|e| last(&e.name) == "from_value").map(|e| format!("Ok#0(serde_json::from_value()({}))", txt(&t, p, &e.args[0]))).unwrap_or_default();
        let file = format!("FileId::from_raw()({d}.file_id)");
        ob(rep, eq(&t, p, &|x| calls(x, "file_version", &file), &|x| x == format!("{d}.version")), "version", "a hint is filled in without the version of the document being the one of the listing");
        let a: Vec<String> = call.args.iter().map(|x| txt(&t, p, x)).collect();
        ob(rep, a.iter().any(|x| *x == file), "file", "the hint is worked out for another file");
        ob(rep, a.iter().any(|x| x.contains("text_range()(") && x.contains(&format!("{d}.resolve_range"))), "range", "the hint is worked out for another range than it was listed for");
        ob(rep, a.iter().any(|x| x.starts_with("Ok#0(") && x.contains("parse()(") && x.contains(&format!("{d}.hash")) && !x.contains("resolve_range")), "hash", "the hint looked for is not the one with the hash in the data");
        let mentions = |k: &str| eq(&t, p, &|x| x == format!("original_hint.{k}"), &|x| x.ends_with(&format!(".{k}")) && !x.starts_with("original_hint"));
        ob(rep, mentions("position"), "position", "a hint at another position may be filled in");
        ob(rep, mentions("kind"), "kind", "a hint of another kind may be filled in");
    }
    ob(rep, filled > 0, "filled", "no hint is ever filled in");
    let hash_here = t.paths.iter().find_map(|p| ev(p, "hash_one").map(|e| txt(&t, p, &e.args[0])));
    let Some(w) = need(r, rep, "lsp/to_proto.rs", None, "inlay_hint") else { return };
    let t = trd(r, rep, w.id, options(Cfg::new(|g: &FnInfo| g.file.ends_with("lsp/to_proto.rs") && !matches!(g.name.as_str(), "inlay_hint_label" | "lsp_range" | "lsp_position")).fresh(|_| false).unroll(Some(1)).cap(20000)));
    let ob = |rep: &mut Report, ok: bool, key: &str, msg: &str| rep.ob(ok, &format!("hint listed: {key}"), msg, &w.file, w.line);
    let mut n = 0;
    for p in &t.paths {
        for e in p.st.events.iter().filter(|e| last(&e.name) == "to_value") {
            let V::Struct(nm, m) = norm(&t.it, &p.st, &e.args[0]) else { continue };
            if last(&nm) != "InlayHintResolveData" {
                continue;
            }
            n += 1;
            let g = |k: &str| m.get(k).map(|x| txt(&t, p, x)).unwrap_or_default();
            ob(rep, calls(&g("version"), "file_version", ", file_id)"), "version", "the version written is not the one of the document");
            ob(rep, g("file_id").contains("file_id"), "file", "the file written is another");
            let comp = |s: &str| vec![s.to_string()];
            let h = comp(&g("hash"));
            ob(rep, !h.is_empty() && h.iter().all(|h| h.contains("hash_one") && h.contains("inlay_hint") && hash_here.as_ref().is_some_and(|x| h.contains(x.as_str()))), "hash", &format!("the hash written is not the one looked for on resolving: {h:?}"));
            let rg = g("resolve_range");
            let c = comp(&rg);
            ob(rep, rg.contains("lsp_range()(line_index, ") && !c.is_empty() && c.iter().all(|x| x.contains("resolve_parent") && !x.contains("hash_one")), "range", &format!("the range written is not the one the hint is worked out from: {c:?}"));
        }
    }
    ob(rep, n > 0, "data", "no data are written for a hint that is resolved later");
}

fn lenses(r: &Repo, rep: &mut Report, total: &mut usize) {
    let Some(f) = need(r, rep, "lsp/from_proto.rs", None, "annotation") else { return };
    let t = trd(r, rep, f.id, Cfg::new(|g: &FnInfo| g.file.ends_with("lsp/from_proto.rs") && !matches!(g.name.as_str(), "file_position" | "text_range" | "vfs_path" | "file_id")).fresh(|_| false));
    let ob = |rep: &mut Report, ok: bool, key: &str, msg: &str| rep.ob(ok, &format!("lens: {key}"), msg, &f.file, f.line);
    let mut n = 0;
    for p in &t.paths {
        let Some(V::Struct(_, m)) = payload(&norm(&t.it, &p.st, &p.ret), "Ok").and_then(|x| payload(&x, "Some")) else { continue };
        n += 1;
        *total += 1;
        let pos = "Specs#0(data.kind).text_document_position_params";
        ob(rep, eq(&t, p, &|x| calls(x, "url_file_version", &format!("{pos}.text_document.uri")) || calls(x, "file_version", pos), &|x| x == "data.version" || x == "Some(data.version)"), "version", "a lens is resolved without the version of the document being the one of the listing");
        let k = m.get("kind").map(|x| txt(&t, p, x)).unwrap_or_default();
        ob(rep, calls(&k, "file_position", &format!("{pos})")), "position", "the lens is resolved for another position");
        let rg = m.get("range").map(|x| txt(&t, p, x)).unwrap_or_default();
        ob(rep, rg.contains("text_range()(") && rg.ends_with(", range))") && rg.contains(pos), "range", "the lens is resolved for another range");
    }
    ob(rep, n > 0, "resolved", "no lens is ever resolved");
    let Some(f) = need(r, rep, "handlers/request.rs", None, "handle_code_lens_resolve") else { return };
    let t = trd(r, rep, f.id, cfgs().chook(|it, _cx, st, segs, args, _| {
        if segs.last().map(|x| x.as_str()) != Some("code_lens") || args.len() != 3 {
            return None;
        }
        let V::Ref(pl) = &args[0] else { return None };
        let mut s = st.clone();
        let lens = it.sym("lens_of", vec![it.deref(st, &args[2])]);
        it.write(&mut s, pl, V::List(Rc::new(vec![lens])));
        Some(vec![(s, Flow::Val(V::Ctor(Rc::from("Ok"), Rc::new(vec![V::Unit]))))])
    }));
    let Some(w) = need(r, rep, "lsp/to_proto.rs", None, "code_lens") else { return };
    let u = tr(r, rep, w.id, None, Cfg::new(|g: &FnInfo| g.file.ends_with("lsp/to_proto.rs") && g.name == "code_lens").fresh(|_| false).unroll(Some(1)).cap(20000));
    let mut n = 0;
    for p in &u.paths {
        for e in p.st.events.iter().filter(|e| last(&e.name) == "to_value") {
            let V::Struct(nm, m) = norm(&u.it, &p.st, &e.args[0]) else { continue };
            if last(&nm) != "CodeLensResolveData" {
                continue;
            }
            n += 1;
            let g = |k: &str| m.get(k).map(|x| txt(&u, p, x)).unwrap_or_default();
            let pos = "HasSpecs#0(annotation.kind).pos";
            let pos = if g("kind").contains(&format!("{pos}.file_id")) { format!("{pos}.file_id") } else { ".file_id".to_string() };
            rep.ob(calls(&g("version"), "file_version", &pos), "lens listed: version", "the version written is not the one of the document", &w.file, w.line);
            rep.ob(g("kind").contains(&pos) && g("kind").contains("lsp_position()("), "lens listed: position", "the position written is another", &w.file, w.line);
        }
    }
    rep.ob(n > 0, "lens listed: data", "no data are written for a lens that is resolved later", &w.file, w.line);
    let mut n = 0;
    for p in &t.paths {
        let Some(ret) = payload(&norm(&t.it, &p.st, &p.ret), "Ok") else { continue };
        if txt(&t, p, &ret) == "code_lens" {
            continue;
        }
        let Some(ra) = ev(p, "resolve_annotation") else { continue };
        n += 1;
        let a = ra.args.iter().map(|x| txt(&t, p, x)).collect::<Vec<_>>().join(" ");
        rep.ob(a.contains("annotation()(snap, code_lens.range") && a.contains("code_lens.data"), "lens: source", "the lens resolved is not the one of the request", &f.file, f.line);
    }
    rep.ob(n > 0, "lens: resolving", "no lens is ever resolved", &f.file, f.line);
}

/// an assist is listed whether or not it is worked out, and it is worked out exactly if the strategy says so
fn lazily(r: &Repo, rep: &mut Report) {
    let Some(f) = need(r, rep, "ide-db/src/assists.rs", None, "should_resolve") else { return };
    let v = |n: &str, a: Vec<V>| V::Ctor(Rc::from(n), Rc::new(a));
    for (n, want) in [("None", false), ("All", true)] {
        let t = tr(r, rep, f.id, None, Cfg::new(|_| true));
        let args = vec![v(n, vec![]), t.it.sym("id", vec![])];
        let ps = run(&t.it, f.id, Some(args));
        rep.ob(!ps.is_empty() && ps.iter().all(|p| norm(&t.it, &p.st, &p.ret) == V::Bool(want)), &format!("strategy {n}"), &format!("with strategy {n}, assists are {}worked out", if want { "not " } else { "" }), &f.file, f.line);
    }
    let t = tr(r, rep, f.id, None, Cfg::new(|_| true));
    let args = vec![v("Single", vec![t.it.sym("one", vec![])]), t.it.sym("id", vec![])];
    let ps = run(&t.it, f.id, Some(args));
    let pairs = [("one.assist_id", "id.0"), ("one.assist_kind", "id.1"), ("one.assist_subtype", "id.2")];
    let mut yes = 0;
    for p in &ps {
        let known: BTreeMap<usize, bool> = p.st.facts.iter().filter_map(|(x, f)| {
            let (o, a) = op(&t.it, &V::Sym(*x));
            let a: Vec<String> = a.iter().map(|x| txt(&t, p, x).replace(".as_str()", "")).collect();
            let i = pairs.iter().position(|(l, r)| o == "==" && (a == [l.to_string(), r.to_string()] || a == [r.to_string(), l.to_string()]))?;
            match f {
                Fact::Bool(b) => Some((i, *b)),
                _ => None,
            }
        }).collect();
        let rv = norm(&t.it, &p.st, &p.ret);
        let all: BTreeMap<usize, bool> = match &rv {
            V::Sym(_) => {
                let s = txt(&t, p, &rv);
                let mut k = known.clone();
                pairs.iter().enumerate().filter(|(_, (a, b))| s == format!("==({a}, {b})") || s == format!("==({b}, {a})")).for_each(|(i, _)| { k.insert(i, true); });
                k
            }
            _ => known.clone(),
        };
        let ok = match &rv {
            V::Bool(false) => known.values().any(|x| !*x),
            _ => (0..3).all(|i| all.get(&i) == Some(&true)),
        };
        yes += !matches!(rv, V::Bool(false)) as usize;
        rep.ob(ok, "strategy Single", "with strategy Single, another assist than the one asked for is worked out, or that one is not", &f.file, f.line);
    }
    rep.ob(yes > 0, "strategy Single finds", "the assist asked for is never worked out", &f.file, f.line);

    let Some(f) = need(r, rep, "ide-db/src/assist_context.rs", None, "add_fix_fallible") else { return };
    let t = trd(r, rep, f.id, Cfg::new(|g: &FnInfo| g.file.ends_with("assist_context.rs")).fresh(|_| false));
    for p in &t.paths {
        let Some(should) = fact_bool(&t.it, &p.st, |x| x.contains("should_resolve()(")) else {
            rep.ob(false, "assist: strategy", "an assist is added without asking whether to work it out", &f.file, f.line);
            continue;
        };
        let pushed = p.st.events.iter().find(|e| e.name.ends_with("push")).map(|e| norm(&t.it, &p.st, e.args.last().unwrap()));
        match pushed {
            Some(V::Struct(_, m)) => {
                let s = m.get("source_change").map(|x| txt(&t, p, x)).unwrap_or_default();
                rep.ob(s.starts_with("Some(") == should && (should || s == "None"), "assist: worked out", "an assist is worked out although it is not to be, or not although it is", &f.file, f.line);
            }
            _ => {
                rep.ob(should, "assist: listed", "an assist is not listed when its edit is not asked for", &f.file, f.line);
            }
        }
    }
}
