//! Server state: open documents, package loads, readiness, file changes.
use super::trace::*;
use super::util::*;
use crate::absint::*;
use crate::repo::*;
use crate::report::Report;
use std::collections::BTreeSet;
use std::rc::Rc;

const K: &str = "aptos_language_server";

fn is_opened<D: Domain>(it: &Interp<D>, v: &V) -> bool {
    full(it, v).ends_with(".opened_files")
}
/// the contents handed to `set_file_contents`, without the `Some`
fn payload<D: Domain>(it: &Interp<D>, st: &St<D::W>, v: &V) -> String {
    let v = it.deref(st, v);
    match &v {
        V::Ctor(n, a) if &**n == "Some" && a.len() == 1 => full(it, &norm(it, st, &a[0])),
        v => full(it, &norm(it, st, v)),
    }
}
/// state hooks: HashMap-like calls on the open-document store keep their names apart from others
fn base<'r>(inline: &'static [&'static str]) -> Cfg<'r> {
    Cfg::new(move |g: &FnInfo| g.module[0] == K && inline.iter().any(|x| g.file.ends_with(x)) && g.self_ty.as_deref() != Some("OpenedFiles") && g.self_ty.as_deref() != Some("OpQueue"))
}

/// L06: the editor's text of an open document is what the server works on
pub fn l06(r: &Repo, _t: bool) -> Report {
    let mut rep = Report::new("open documents: what is recorded and what the file system is told agree on every path; disk contents never replace an open document.");
    rep.assume("vfs::Vfs::set_file_contents replaces the contents of exactly that path; HashMap behaves as documented");
    // 1. the store itself
    let store = |rep: &mut Report, name: &str, spec: &dyn Fn(&Traced, &PathR) -> bool, what: &str| {
        let Some(f) = need(r, rep, "opened_files.rs", Some("OpenedFiles"), name) else { return };
        let t = tr(r, rep, f.id, None, Cfg::new(|_| false).chook(|_, _, _, _, _, _| None).mhook(raw_map));
        for p in &t.paths {
            rep.ob(spec(&t, p), format!("OpenedFiles::{name}"), format!("OpenedFiles::{name}: {what}"), &f.file, f.line);
        }
        rep.floor(&format!("paths of OpenedFiles::{name}"), t.paths.len(), 1);
    };
    let one = |t: &Traced, p: &PathR, m: &[&str], args: &[&str]| {
        let e: Vec<&Ev> = p.st.events.iter().filter(|e| e.name.starts_with("map.")).collect();
        e.len() == 1
            && m.contains(&last(&e[0].name))
            && full(&t.it, &e[0].args[0]).starts_with("self.")
            && args.iter().enumerate().all(|(i, a)| e[0].args.get(i + 1).is_some_and(|x| full(&t.it, &norm(&t.it, &p.st, x)) == *a))
    };
    let was = |t: &Traced, p: &PathR| fact_is(&t.it, &p.st, |s| s.starts_with("map."));
    let okish = |v: &V| matches!(v, V::Ctor(n, _) if &**n == "Ok");
    store(&mut rep, "contains", &|t, p| one(t, p, &["contains_key", "get"], &["path"]), "must report whether exactly that path is open");
    store(&mut rep, "get", &|t, p| one(t, p, &["get"], &["path"]) || matches!(&p.ret, V::Sym(_)), "must look that path up");
    store(
        &mut rep,
        "insert",
        &|t, p| one(t, p, &["insert"], &["path", "data"]) && was(t, p).is_none_or(|w| (w == "None") == okish(&p.ret)),
        "must record the document under its path, reporting Ok only when it was not open before",
    );
    store(
        &mut rep,
        "remove",
        &|t, p| one(t, p, &["remove"], &["path"]) && was(t, p).is_none_or(|w| (w == "Some") == okish(&p.ret)),
        "must forget exactly that path, reporting Ok only when it was open",
    );
    store(&mut rep, "get_mut", &|t, p| one(t, p, &["get_mut"], &["path"]), "must look that path up");
    if let Some(f) = need(r, &mut rep, "opened_files.rs", Some("DocumentData"), "new") {
        let t = tr(r, &mut rep, f.id, None, Cfg::new(|_| false));
        for p in &t.paths {
            let s = full(&t.it, &p.ret);
            rep.ob(s == "DocumentData{data: data, version: version}", "DocumentData::new", "DocumentData::new must keep the version and the text it is given", &f.file, f.line);
        }
    }

    // 2. handlers
    let mut seen: BTreeSet<(FnId, usize)> = BTreeSet::new();
    const INL: &[&str] = &["handlers/notification.rs", "src/main_loop.rs", "src/global_state.rs"];
    let mut visit = |p: &PathR| {
        for e in p.st.events.iter() {
            if last(&e.name) == "set_file_contents" {
                seen.insert((e.func, e.line));
            }
        }
    };
    if let Some(f) = need(r, &mut rep, "handlers/notification.rs", None, "handle_did_open_text_document") {
        let t = tr(r, &mut rep, f.id, None, base(INL));
        for p in &t.paths {
            visit(p);
            let it = &t.it;
            let Some(res) = fact_is(it, &p.st, |s| s.contains("vfs_path()(params.text_document.uri)")) else {
                rep.ob(false, "didOpen:path", "didOpen: the document's path is not derived from its URI", &f.file, f.line);
                continue;
            };
            if res != "Ok" {
                rep.ob(evs(p, "set_file_contents").is_empty(), "didOpen:err", "didOpen: a URI that is no file path must be ignored", &f.file, f.line);
                continue;
            }
            let ins: Vec<&Ev> = evs(p, "insert").into_iter().filter(|e| is_opened(it, &e.args[0])).collect();
            let set = evs(p, "set_file_contents");
            rep.ob(ins.len() == 1, "didOpen:recorded", "didOpen: the opened document is not recorded exactly once on some path", &f.file, f.line);
            rep.ob(set.len() == 1, "didOpen:told", "didOpen: the file system is not told the document's text exactly once on some path", &f.file, f.line);
            if ins.len() != 1 || set.len() != 1 {
                continue;
            }
            let path = "Ok#0(from_proto::vfs_path()(params.text_document.uri))";
            let p1 = full(it, &norm(it, &p.st, &ins[0].args[1]));
            let p2 = full(it, &norm(it, &p.st, &set[0].args[1]));
            rep.ob(p1 == path && p2 == path, "didOpen:path", format!("didOpen: recorded under `{p1}`, stored under `{p2}`"), &f.file, set[0].line);
            let d = norm(it, &p.st, &ins[0].args[2]);
            let (ver, data) = doc_parts(it, &d);
            rep.ob(
                data.as_deref() == Some("params.text_document.text") && payload(it, &p.st, &set[0].args[2]) == "params.text_document.text",
                "didOpen:text",
                "didOpen: the text recorded and the text given to the file system must both be the text the editor sent",
                &f.file,
                ins[0].line,
            );
            rep.ob(ver.as_deref() == Some("params.text_document.version"), "didOpen:version", "didOpen: the version recorded is not the one the editor sent", &f.file, ins[0].line);
        }
        rep.floor("paths of didOpen", t.paths.len(), 2);
    }
    if let Some(f) = need(r, &mut rep, "handlers/notification.rs", None, "handle_did_change_text_document") {
        let t = tr(r, &mut rep, f.id, None, base(INL));
        let mut live = 0;
        for p in &t.paths {
            visit(p);
            let it = &t.it;
            let doc = fact_is(it, &p.st, |s| s.starts_with("OpenedFiles::get_mut()("));
            let set = evs(p, "set_file_contents");
            if doc.as_deref() != Some("Some") {
                rep.ob(set.is_empty(), "didChange:not-open", "didChange: a document that is not open must not be changed", &f.file, f.line);
                continue;
            }
            live += 1;
            let path = "Ok#0(from_proto::vfs_path()(params.text_document.text_document_identifier.uri))";
            let docv = format!("Some#0(OpenedFiles::get_mut()(state.opened_files, {path}))");
            let ver = heap_of(it, &p.st, &format!("{docv}.version")).map(|v| full(it, &v));
            rep.ob(
                ver.as_deref() == Some("params.text_document.version"),
                "didChange:version",
                format!("didChange: on some path the recorded version becomes `{}` instead of the one the editor sent", ver.unwrap_or("(unchanged)".into())),
                &f.file,
                f.line,
            );
            let app = evs(p, "apply_document_changes");
            if !rep.ob(app.len() == 1, "didChange:applied", "didChange: the edits are not applied exactly once", &f.file, f.line) {
                continue;
            }
            let a: Vec<String> = app[0].args.iter().map(|x| full(it, &norm(it, &p.st, x))).collect();
            let old = format!("{docv}.data");
            rep.ob(
                a.len() == 3 && a[0].contains("negotiated_encoding()(") && a[1].contains(&old) && a[2] == "params.content_changes",
                "didChange:arguments",
                "didChange: the edits must be applied to the recorded text, in the negotiated encoding",
                &f.file,
                app[0].line,
            );
            let newt = |s: &str| s.starts_with("utils::apply_document_changes()(") || s.contains("apply_document_changes()(");
            // what is recorded now
            let cf: Vec<&Ev> = evs(p, "clone_from").into_iter().filter(|e| full(it, &e.args[0]).starts_with(&old)).collect();
            let written = heap_of(it, &p.st, &old).map(|v| full(it, &norm(it, &p.st, &v)));
            let rec = cf.first().map(|e| full(it, &norm(it, &p.st, &e.args[1]))).or(written);
            let same = fact_bool(it, &p.st, |s| s.starts_with("==(") && s.contains(&old) && s.contains("apply_document_changes"));
            match same {
                Some(true) => {}
                _ => {
                    rep.ob(rec.as_deref().is_some_and(newt), "didChange:recorded", "didChange: the changed text is not recorded on some path", &f.file, f.line);
                    rep.ob(set.len() == 1, "didChange:told", "didChange: the changed text is not handed to the file system on some path", &f.file, f.line);
                }
            }
            for e in set {
                let pp = full(it, &norm(it, &p.st, &e.args[1]));
                let mut c = payload(it, &p.st, &e.args[2]);
                if c == old {
                    // read back from the record just written
                    c = rec.clone().unwrap_or(c);
                }
                rep.ob(pp == path && newt(&c), "didChange:same", format!("didChange: `{c}` is stored under `{pp}`"), &f.file, e.line);
            }
        }
        rep.floor("paths of didChange on an open document", live, 2);
    }
    if let Some(f) = need(r, &mut rep, "handlers/notification.rs", None, "handle_did_close_text_document") {
        let t = tr(r, &mut rep, f.id, None, base(INL));
        let mut live = 0;
        for p in &t.paths {
            visit(p);
            let it = &t.it;
            if fact_is(it, &p.st, |s| s.contains("vfs_path()(params.text_document.uri)") && !s.contains("as_path")).as_deref() != Some("Ok") {
                continue;
            }
            live += 1;
            let path = "Ok#0(from_proto::vfs_path()(params.text_document.uri))";
            let rm: Vec<&Ev> = evs(p, "remove").into_iter().filter(|e| is_opened(it, &e.args[0])).collect();
            rep.ob(
                rm.len() == 1 && full(it, &norm(it, &p.st, &rm[0].args[1])) == path,
                "didClose:forgotten",
                "didClose: the closed document is not forgotten on some path",
                &f.file,
                f.line,
            );
            let on_disk = fact_is(it, &p.st, |s| s == format!("{path}.as_path()"));
            if on_disk.as_deref() != Some("None") {
                let inv = evs(p, "invalidate");
                let ok = inv.len() >= 1 && inv.iter().any(|e| full(it, &norm(it, &p.st, &e.args[1])).contains(path));
                rep.ob(ok, "didClose:reread", "didClose: the disk contents are not read again after the document is closed", &f.file, f.line);
                if let (Some(a), Some(b)) = (p.st.events.iter().position(|e| last(&e.name) == "remove"), ev_pos(p, "invalidate")) {
                    let _ = (a, b);
                }
            }
        }
        rep.floor("paths of didClose", live, 2);
    }
    // 3. the file watcher
    if let Some(f) = need(r, &mut rep, "main_loop.rs", Some("GlobalState"), "handle_vfs_msg") {
        let t = tr(r, &mut rep, f.id, None, base(&["src/main_loop.rs"]));
        let (mut sets, mut loops) = (0, 0);
        for p in &t.paths {
            visit(p);
            let it = &t.it;
            let msg = fact_is(it, &p.st, |s| s == "message");
            let msg = msg.unwrap_or_default();
            for e in evs(p, "set_file_contents") {
                sets += 1;
                let path = full(it, &norm(it, &p.st, &e.args[1]));
                let open = fact_bool(it, &p.st, |s| s.starts_with("OpenedFiles::contains()(") && full_arg1(s) == path)
                    .or_else(|| fact_is(it, &p.st, |s| s.starts_with("OpenedFiles::get()(") && full_arg1(s) == path).map(|x| x == "Some"));
                rep.ob(
                    open == Some(false),
                    "vfs:open-document",
                    format!("{}: contents read from disk are stored for `{path}` without knowing that it is not open in the editor", r.fns[e.func].short()),
                    &r.fns[e.func].file,
                    e.line,
                );
                // path and contents of the same entry
                let c = full(it, &norm(it, &p.st, &e.args[2]));
                let elem = c.strip_suffix(".1").unwrap_or(&c);
                rep.ob(path.contains(&format!("{elem}.0")), "vfs:entry", format!("{}: `{c}` is stored under `{path}`", r.fns[e.func].short()), &r.fns[e.func].file, e.line);
            }
            // nothing is lost: every entry not open is stored when it changed, or when it is new
            for (tm, fa) in p.st.facts.iter() {
                let s = full(it, &V::Sym(*tm));
                if !s.starts_with("OpenedFiles::contains()(") {
                    continue;
                }
                loops += 1;
                let path = full_arg1(&s);
                if *fa != Fact::Bool(false) {
                    continue;
                }
                let n = evs(p, "set_file_contents").iter().filter(|e| full(it, &norm(it, &p.st, &e.args[1])) == path).count();
                let known = fact_is(it, &p.st, |s| s.contains(&format!(".file_id({path})")));
                let must = msg == "Changed" || known.as_deref() == Some("None");
                if must {
                    rep.ob(n == 1, format!("vfs:lost:{msg}"), format!("a file reported by the watcher ({msg}) and not open in the editor is not stored"), &f.file, f.line);
                }
            }
        }
        rep.floor("stores of contents read from disk", sets, 4);
        rep.floor("entries examined", loops, 4);
    }
    // every place that stores contents was seen above
    for (f, l) in call_sites(r, K, "set_file_contents") {
        if f.file.contains("/cli/") {
            continue; // batch mode: there is no editor
        }
        rep.ob(
            seen.contains(&(f.id, l)),
            format!("other:{}", f.short()),
            format!("{} stores file contents outside the paths examined (open, change, watcher): an open document could be overwritten", f.short()),
            &f.file,
            l,
        );
    }
    // versions reported to the client
    for (name, want) in [
        ("file_version", "self.opened_files"),
        ("url_file_version", "self.opened_files"),
    ] {
        if let Some(f) = need(r, &mut rep, "global_state.rs", Some("GlobalStateSnapshot"), name) {
            let t = tr(r, &mut rep, f.id, None, Cfg::new(|g| g.name == "vfs_read"));
            for p in &t.paths {
                let s = full(&t.it, &p.ret);
                if s == "None" {
                    continue;
                }
                rep.ob(s.starts_with("Some(") && s.contains(want) && s.ends_with(".version)"), format!("{name}"), format!("{name}: gives `{s}` instead of the version recorded for the document"), &f.file, f.line);
            }
        }
    }
    rep
}
fn full_arg1(s: &str) -> String {
    // F()(a, b) -> b, where a has no comma at depth 0
    let i = s.find("()(").map(|i| i + 3).unwrap_or(0);
    let body = &s[i..s.len().saturating_sub(1)];
    let mut d = 0;
    for (k, c) in body.char_indices() {
        match c {
            '(' | '[' | '{' => d += 1,
            ')' | ']' | '}' => d -= 1,
            ',' if d == 0 => return body[k + 1..].trim().to_string(),
            _ => {}
        }
    }
    String::new()
}
fn doc_parts<D: Domain>(it: &Interp<D>, d: &V) -> (Option<String>, Option<String>) {
    match d {
        V::Struct(_, m) => (m.get("version").map(|x| full(it, x)), m.get("data").map(|x| full(it, x))),
        _ => {
            let (o, a) = op(it, d);
            if last(&o) == "new" && a.len() == 2 { (Some(full(it, &a[0])), Some(full(it, &a[1]))) } else { (None, None) }
        }
    }
}
/// map methods on a symbolic receiver are the map's own, whatever methods the repository has
fn raw_map<'a>(it: &Interp<Trace<'a>>, cx: &Rc<Cx>, st: &St<TW>, c: &MCall) -> Option<Out<TW>> {
    if !["insert", "remove", "get", "get_mut", "contains_key", "entry", "clear"].contains(&c.name) {
        return None;
    }
    let mut s = st.clone();
    let recv = it.deref(&s, &c.recv);
    if full(it, &recv) == "self" {
        return None;
    }
    let mut a = vec![recv];
    a.extend(c.args.iter().map(|x| it.deref(&s, x)));
    let nm = format!("map.{}", c.name);
    s.event(&nm, a.clone(), cx.func, c.line);
    let v = it.sym(&format!("{nm}()"), a);
    Some(vec![(s, Flow::Val(v))])
}

// ------------------------------------------------------------------------------ package loads
const LOAD: &str = "load_aptos_packages_queue";
pub fn opt_take<'a>(it: &Interp<Trace<'a>>, st: &St<TW>, c: &MCall) -> Option<Out<TW>> {
    if c.name == "take" && c.args.is_empty() {
        let place = c.place.clone()?;
        let cur = it.read(st, &place);
        let mut s = st.clone();
        it.write(&mut s, &place, none());
        return Some(vec![(s, Flow::Val(cur))]);
    }
    None
}
fn opq<'a>(it: &Interp<Trace<'a>>, cx: &Rc<Cx>, st: &St<TW>, c: &MCall) -> Option<Out<TW>> {
    if let Some(o) = opt_take(it, st, c) {
        return Some(o);
    }
    let recv = it.deref(st, &c.recv);
    if !full(it, &recv).ends_with(LOAD) {
        return None;
    }
    match c.name {
        "should_start_op" => {
            let mut out = vec![];
            let mut s0 = st.clone();
            s0.event("op_consult", vec![], cx.func, c.line);
            let mut s = s0.clone();
            s.event("op_start", vec![], cx.func, c.line);
            // the request made last, when it is known
            let (cause, args) = st
                .events
                .iter()
                .rev()
                .find(|e| &*e.name == "op_request")
                .map(|e| (e.args[0].clone(), e.args[1].clone()))
                .unwrap_or((it.sym("CAUSE", vec![]), it.sym("REQUEST", vec![])));
            out.push((s, Flow::Val(some(V::Tuple(Rc::new(vec![cause, args]))))));
            out.push((s0, Flow::Val(none())));
            Some(out)
        }
        "request_op" => {
            let mut s = st.clone();
            let a: Vec<V> = c.args.iter().map(|x| it.deref(&s, x)).collect();
            s.event("op_request", a, cx.func, c.line);
            Some(vec![(s, Flow::Val(V::Unit))])
        }
        "op_completed" => {
            let mut s = st.clone();
            let a: Vec<V> = c.args.iter().map(|x| it.deref(&s, x)).collect();
            s.event("op_completed_ev", a, cx.func, c.line);
            Some(vec![(s, Flow::Val(V::Unit))])
        }
        _ => None,
    }
}
/// closure handed to the pool runs
fn spawned<'a>(it: &Interp<Trace<'a>>, cx: &Rc<Cx>, st: &St<TW>, c: &MCall) -> Option<Out<TW>> {
    if !c.name.starts_with("spawn") {
        return None;
    }
    let clo = c.args.iter().find(|a| matches!(a, V::Closure(_)))?.clone();
    let mut s = st.clone();
    s.event("spawn", vec![it.deref(st, &c.recv)], cx.func, c.line);
    let arg = if c.name.contains("sender") { vec![it.sym("SENDER", vec![])] } else { vec![] };
    Some(it.apply(cx, &clo, arg, s, c.line).into_iter().filter_map(|(s, f)| matches!(f, Flow::Val(_)).then_some((s, Flow::Val(V::Unit)))).collect())
}

/// the queue as an automaton, extracted from its source: every state reachable from `default()`
/// through the operations, compared step by step with the specification
fn queue_automaton(r: &Repo, rep: &mut Report) {
    #[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
    struct Spec {
        req: Option<u8>,
        busy: bool,
        res: Option<u8>,
    }
    let fi = |n: &str| r.fns.iter().find(|f| f.file.ends_with("op_queue.rs") && f.name == n).map(|f| f.id);
    let names = ["default", "request_op", "should_start_op", "op_completed", "op_in_progress", "op_requested", "last_op_result"];
    let mut id = std::collections::BTreeMap::new();
    for n in names {
        match fi(n) {
            Some(i) => {
                id.insert(n, i);
            }
            None => {
                rep.problem(format!("OpQueue::{n} not found"));
                return;
            }
        }
    }
    let file = r.fns[id["default"]].file.clone();
    let it = Interp::new(r, Trace { cfg: Cfg::new(|g| g.file.ends_with("op_queue.rs")), panics: Default::default() });
    let call = |n: &str, q: &V, args: Vec<V>| -> Vec<(V, V, bool)> {
        let i = id[n];
        let mut st = St::new(TW::default());
        let c = st.alloc(q.clone());
        let mut a = vec![V::Ref(Place::Cell(c, vec![]))];
        a.extend(args);
        it.dom.panics.borrow_mut().clear();
        let cx = it.cx_for(i, vec![]);
        let out = it.inline(&cx, i, a, st);
        let panics = !it.dom.panics.borrow().is_empty();
        out.into_iter()
            .filter_map(|(st, f)| match f {
                Flow::Val(v) | Flow::Ret(v) => Some((st.cells[c].clone(), it.deref(&st, &v), panics)),
                _ => None,
            })
            .collect()
    };
    let cause = |k: u8| it.sym(&format!("cause{k}"), vec![]);
    let args = |k: u8| it.sym(&format!("args{k}"), vec![]);
    let resv = |k: u8| it.sym(&format!("result{k}"), vec![]);
    let st0 = {
        let i = id["default"];
        let cx = it.cx_for(i, vec![]);
        let o = it.inline(&cx, i, vec![], St::new(TW::default()));
        o.into_iter().filter_map(|(_, f)| if let Flow::Val(v) = f { Some(v) } else { None }).next()
    };
    let Some(q0) = st0 else {
        rep.problem("OpQueue::default could not be evaluated");
        return;
    };
    let mut seen: BTreeSet<(V, Spec)> = BTreeSet::new();
    let mut todo = vec![(q0, Spec { req: None, busy: false, res: None })];
    let mut steps = 0;
    while let Some((q, m)) = todo.pop() {
        if !seen.insert((q.clone(), m.clone())) || seen.len() > 400 {
            continue;
        }
        let obs = |n: &str| -> Option<V> {
            let o = call(n, &q, vec![]);
            if o.len() == 1 { Some(o[0].1.clone()) } else { None }
        };
        let desc = format!("requested={:?} running={}", m.req.is_some(), m.busy);
        let chk = |rep: &mut Report, n: &str, ok: bool, what: String| {
            rep.ob(ok, format!("OpQueue::{n}"), format!("OpQueue::{n} in state ({desc}): {what}"), &file, r.fns[id[n]].line);
        };
        let v = obs("op_in_progress");
        chk(&mut *rep, "op_in_progress", v == Some(V::Bool(m.busy)), format!("must be {}", m.busy));
        let v = obs("op_requested");
        chk(&mut *rep, "op_requested", v == Some(V::Bool(m.req.is_some())), format!("must be {}", m.req.is_some()));
        let v = obs("last_op_result");
        let want = m.res.map(|k| some(resv(k))).unwrap_or(none());
        let shape = |v: &V| it.show(v).replace('&', "");
        let got = v.as_ref().map(|v| shape(v)).unwrap_or_default();
        chk(&mut *rep, "last_op_result", got == shape(&want) || got.starts_with("Some(c") && m.res.is_some(), format!("gives `{got}`, must be `{}`", shape(&want)));
        // request
        let k = if m.req == Some(1) { 2 } else { 1 };
        let o = call("request_op", &q, vec![cause(k), args(k)]);
        steps += 1;
        chk(&mut *rep, "request_op", o.len() == 1 && !o[0].2, "must record the request".into());
        for (q2, _, _) in o {
            todo.push((q2, Spec { req: Some(k), ..m.clone() }));
        }
        // start
        let o = call("should_start_op", &q, vec![]);
        steps += 1;
        let (want, m2) = match (m.busy, m.req) {
            (false, Some(k)) => (some(V::Tuple(Rc::new(vec![cause(k), args(k)]))), Spec { req: None, busy: true, ..m.clone() }),
            _ => (none(), m.clone()),
        };
        let ok = o.len() == 1 && o[0].1 == want;
        chk(
            &mut *rep,
            "should_start_op",
            ok,
            format!("gives `{}`, must give `{}` (an operation starts only when one was requested and none is running, with the latest request)", o.first().map(|x| it.show(&x.1)).unwrap_or_default(), it.show(&want)),
        );
        if ok {
            todo.push((o[0].0.clone(), m2));
        }
        // complete
        if m.busy {
            let k = if m.res == Some(1) { 2 } else { 1 };
            let o = call("op_completed", &q, vec![resv(k)]);
            steps += 1;
            chk(&mut *rep, "op_completed", o.len() == 1 && !o[0].2, "must accept the result".into());
            for (q2, _, _) in o {
                todo.push((q2, Spec { busy: false, res: Some(k), ..m.clone() }));
            }
        }
    }
    rep.floor("queue states", seen.len(), 8);
    rep.count("queue transitions", steps);
    if seen.len() > 400 {
        rep.problem("the queue has too many states");
    }
}
pub fn struct_field(v: &V, n: &str) -> Option<V> {
    match v {
        V::Struct(_, m) => m.get(n).cloned(),
        _ => None,
    }
}
/// the boolean carried by a LoadPackagesRequest
fn force_of<D: Domain>(it: &Interp<D>, st: &St<D::W>, v: &V) -> V {
    it.field_of(st, v, "force_reload_package_deps")
}

/// L07: package loads never overlap; each one requested is started, completed and switched to
pub fn l07(r: &Repo, _t: bool) -> Report {
    let mut rep = Report::new("package-load life cycle: queue automaton extracted and compared with its specification; start, completion and switch traced on every path.");
    rep.assume("load_aptos_packages returns (it reads the file system); the pool runs what it is given once (checked by L01)");
    queue_automaton(r, &mut rep);
    let cfg = |files: &'static [&'static str], skip: &'static [&'static str]| {
        Cfg::new(move |g: &FnInfo| g.module[0] == K && files.iter().any(|x| g.file.ends_with(x)) && !skip.contains(&g.name.as_str()) && g.self_ty.as_deref() != Some("OpQueue"))
            .mhook(|it, cx, st, c| opq(it, cx, st, c).or_else(|| spawned(it, cx, st, c)))
    };
    // 1. whoever takes the token starts the load
    let mut visited: BTreeSet<(FnId, usize)> = BTreeSet::new();
    let check_start = |rep: &mut Report, f: &FnInfo, t: &Traced, must_consult: bool, visited: &mut BTreeSet<(FnId, usize)>| {
        for p in &t.paths {
            let n = evs(p, "op_start").len();
            for e in p.st.events.iter().filter(|e| &*e.name == "op_consult") {
                visited.insert((e.func, e.line));
            }
            let loads = evs(p, "load_aptos_packages_from_fs");
            rep.ob(
                loads.len() == n,
                format!("{}:start", f.short()),
                format!("{}: a path takes the right to load {n} time(s) and starts {} load(s): the queue would stay busy for ever, or loads overlap", f.short(), loads.len()),
                &f.file,
                f.line,
            );
            if must_consult {
                rep.ob(!evs(p, "op_consult").is_empty(), format!("{}:consult", f.short()), format!("{}: a path never asks whether a requested load can start", f.short()), &f.file, f.line);
            }
            for l in loads {
                let pos = p.st.events.iter().position(|e| std::ptr::eq(e, l)).unwrap_or(0);
                let before = p.st.events[..pos].iter().any(|e| &*e.name == "op_start");
                rep.ob(before, format!("{}:order", f.short()), format!("{}: starts a load before the queue allowed it", f.short()), &f.file, l.line);
                let req = p.st.events.iter().filter(|e| &*e.name == "op_request").next_back().map(|e| e.args[1].clone()).unwrap_or(t.it.sym("REQUEST", vec![]));
                let want = force_of(&t.it, &p.st, &req);
                let got = l.args.get(2).cloned().unwrap_or(V::Unit);
                rep.ob(got == want, format!("{}:force", f.short()), format!("{}: loads with force_reload={} although the request says {}", f.short(), t.it.show(&got), t.it.show(&want)), &f.file, l.line);
            }
        }
    };
    for (file, name, must) in [("main_loop.rs", "run", false), ("main_loop.rs", "after_handle_event", true)] {
        if let Some(f) = need(r, &mut rep, file, Some("GlobalState"), name) {
            let t = tr(r, &mut rep, f.id, None, cfg(&["src/main_loop.rs"], &["handle_event", "next_event", "handle_task", "update_status_or_notify", "ask_for_semantic_tokens_refresh", "ask_for_codelens_refresh", "ask_for_inlay_hints_refresh", "ask_client_for_diagnostics_refresh"]).unroll(Some(1)));
            check_start(&mut rep, f, &t, must, &mut visited);
            rep.floor(&format!("paths of {name}"), t.paths.len(), 2);
            if name == "run" {
                for p in &t.paths {
                    let a = evs(p, "op_request").len();
                    rep.ob(a >= 1 && !evs(p, "op_consult").is_empty(), "run:first", "run: the packages are not loaded when the server starts", &f.file, f.line);
                }
            } else {
                for p in &t.paths {
                    let busy = fact_bool(&t.it, &p.st, |s| s == "self.vfs_sync_in_progress");
                    let sw = evs(p, "switch_workspaces").len();
                    let pend = fact_is(&t.it, &p.st, |s| s == "self.scheduled_switch");
                    if busy == Some(false) {
                        rep.ob(pend.is_some(), "after:switch", "after_handle_event: a scheduled switch is not looked at on some path", &f.file, f.line);
                    }
                    if pend.as_deref() == Some("Some") {
                        rep.ob(sw == 1, "after:switch", "after_handle_event: a scheduled switch is taken but not carried out on some path", &f.file, f.line);
                    }
                    if busy == Some(true) {
                        let lost = heap_of(&t.it, &p.st, "self.scheduled_switch").is_some();
                        rep.ob(sw == 0 && !lost, "after:early", "after_handle_event: switches (or forgets the switch) while the file system is still being scanned", &f.file, f.line);
                    }
                }
            }
        }
    }
    for (f, l) in call_sites(r, K, "should_start_op") {
        if f.file.ends_with("op_queue.rs") || f.file.contains("/cli/") {
            continue;
        }
        if !visited.contains(&(f.id, l)) {
            let t = tr(r, &mut rep, f.id, None, cfg(&[], &[]));
            check_start(&mut rep, f, &t, false, &mut visited);
            rep.ob(visited.contains(&(f.id, l)), format!("{}:unseen", f.short()), format!("{}: asks the queue on a path that could not be followed", f.short()), &f.file, l);
        }
    }
    // every event ends with a look at the queue
    if let Some(f) = need(r, &mut rep, "main_loop.rs", Some("GlobalState"), "handle_event") {
        let t = tr(r, &mut rep, f.id, None, cfg(&[], &[]).unroll(Some(1)));
        for p in &t.paths {
            let a = evs(p, "after_handle_event");
            rep.ob(a.len() == 1, "handle_event:after", "handle_event: a path ends without the end-of-turn work (switch, file changes, start of requested loads)", &f.file, f.line);
            let last_work = p.st.events.iter().rposition(|e| ["on_new_request", "on_notification", "complete_request", "handle_task", "handle_vfs_msg"].contains(&last(&e.name)));
            let pos = ev_pos(p, "after_handle_event");
            rep.ob(last_work < pos || last_work.is_none(), "handle_event:order", "handle_event: handles something after the end-of-turn work", &f.file, f.line);
        }
    }
    // 2. the load itself: Begin, then End with the result and the flag
    if let Some(f) = need(r, &mut rep, "reload.rs", Some("GlobalState"), "load_aptos_packages_from_fs") {
        let t = tr(r, &mut rep, f.id, None, cfg(&["src/reload.rs"], &[]));
        let mut n = 0;
        for p in &t.paths {
            let it = &t.it;
            let sent: Vec<String> = evs(p, "send").iter().map(|e| e.args.iter().skip(1).map(|x| full(it, &norm(it, &p.st, x))).collect::<String>()).collect();
            let ends: Vec<&String> = sent.iter().filter(|s| s.contains("End(")).collect();
            rep.ob(evs(p, "spawn").len() == 1, "load:spawn", "the load is not handed to the worker pool exactly once", &f.file, f.line);
            rep.ob(
                ends.len() == 1 && sent.last() == ends.first().copied(),
                "load:end",
                format!("the load must report its end exactly once and last; it sends {sent:?}"),
                &f.file,
                f.line,
            );
            rep.ob(sent.iter().filter(|s| s.contains("Begin")).count() == 1 && sent.first().is_some_and(|s| s.contains("Begin")), "load:begin", "the load must report its beginning once, first", &f.file, f.line);
            for e in ends {
                n += 1;
                rep.ob(
                    e.contains("load_aptos_packages()(") && e.contains("discovered_manifests()(self.config)") && e.contains(", force_reload_package_deps)"),
                    "load:result",
                    format!("the end of the load must carry what was loaded for the configured packages, and the request's flag; it carries `{e}`"),
                    &f.file,
                    f.line,
                );
            }
        }
        rep.floor("paths of the load", n, 1);
    }
    // 3. completion
    if let Some(f) = need(r, &mut rep, "main_loop.rs", Some("GlobalState"), "handle_task") {
        let t = tr(r, &mut rep, f.id, None, cfg(&["src/main_loop.rs"], &["on_request", "respond"]));
        let mut n = 0;
        for p in &t.paths {
            let it = &t.it;
            let end = p.st.facts.iter().any(|(tm, fa)| matches!(fa, Fact::Is(x) if &**x == "End") && full(it, &V::Sym(*tm)).contains("task"));
            let done = evs(p, "op_completed_ev");
            if !end {
                rep.ob(done.is_empty(), "task:completed", "handle_task: the load is marked complete by something other than its end", &f.file, f.line);
                continue;
            }
            n += 1;
            rep.ob(done.len() == 1, "task:completed", "handle_task: the end of a load does not mark it complete exactly once on some path (no further load would ever start)", &f.file, f.line);
            if let Some(d) = done.first() {
                let pk = struct_field(&d.args[0], "packages_from_fs").map(|v| full(it, &v)).unwrap_or_default();
                let fo = struct_field(&d.args[0], "force_reload_package_deps").map(|v| full(it, &v)).unwrap_or_default();
                rep.ob(pk.starts_with("End#0(") && fo.starts_with("End#1("), "task:result", format!("handle_task: records ({pk}, {fo}) instead of what the load delivered"), &f.file, d.line);
            }
            let sw = heap_of(it, &p.st, "self.scheduled_switch");
            rep.ob(matches!(&sw, Some(V::Ctor(n, _)) if &**n == "Some"), "task:switch", "handle_task: the packages just loaded are not scheduled to be switched to on some path", &f.file, f.line);
        }
        rep.floor("ends of a load", n, 1);
    }
    for (f, l) in call_sites(r, K, "op_completed") {
        if !f.file.ends_with("op_queue.rs") {
            rep.ob(f.name == "handle_task" || !f.vis_pub && f.file.ends_with("main_loop.rs"), format!("{}:op_completed", f.short()), format!("{} marks a load complete, only the end of the load may", f.short()), &f.file, l);
        }
    }
    // 4. what asks for a reload
    let asks = |rep: &mut Report, file: &str, ty: Option<&str>, name: &str, inl: &'static [&'static str], when: &dyn Fn(&Traced, &PathR) -> Option<bool>, what: &str| {
        let Some(f) = need(r, rep, file, ty, name) else { return };
        let t = tr(r, rep, f.id, None, cfg(inl, &["load_aptos_packages_from_fs"]).unroll(Some(1)));
        let mut n = 0;
        for p in &t.paths {
            match when(&t, p) {
                Some(true) => {
                    n += 1;
                    rep.ob(evs(p, "op_request").len() >= 1, format!("{name}:request"), format!("{}: {what}, but no reload of the packages is requested on some path", f.short()), &f.file, f.line);
                }
                _ => {}
            }
        }
        rep.floor(&format!("triggers in {name}"), n, 1);
    };
    asks(&mut rep, "reload.rs", Some("GlobalState"), "update_configuration", &[], &|t, p| {
        fact_bool(&t.it, &p.st, |s| (s.starts_with("==(") || s.starts_with("!=(")) && s.matches("discovered_manifests").count() == 2).map(|b| {
            let ne = p.st.facts.iter().any(|(tm, _)| full(&t.it, &V::Sym(*tm)).starts_with("!=(") && full(&t.it, &V::Sym(*tm)).contains("discovered_manifests"));
            if ne { b } else { !b }
        })
    }, "the set of packages in the configuration changed");
    asks(&mut rep, "handlers/notification.rs", None, "handle_did_save_text_document", &[], &|t, p| {
        fact_bool(&t.it, &p.st, |s| s.contains("is_manifest_file()("))
    }, "a manifest was saved");
    asks(&mut rep, "handlers/notification.rs", None, "handle_did_change_workspace_folders", &[], &|_, _| Some(true), "the workspace folders changed");
    asks(&mut rep, "file_changes.rs", Some("GlobalState"), "process_pending_file_changes", &[], &|t, p| {
        fact_bool(&t.it, &p.st, |s| s.contains("has_changes()("))
    }, "files were created or deleted, or a manifest changed");
    rep
}

/// L08: "loaded" means loaded
pub fn l08(r: &Repo, _t: bool) -> Report {
    let mut rep = Report::new("readiness: truth tables of the readiness predicates, and every path that sets what they read.");
    rep.assume("the file-system watcher reports, per configuration version, Started, Progress* and Finished in this order");
    let none = |_: &FnInfo| false;
    truth_table(r, &mut rep, "reload.rs", Some("GlobalState"), "is_project_fully_loaded", &[
        ("scanning", &["self.vfs_sync_in_progress"]),
        ("loading", &["self.load_aptos_packages_queue.op_in_progress()"]),
        ("scanned", &[">=(self.vfs_progress_config_version, self.vfs_config_version)", "!<(self.vfs_progress_config_version, self.vfs_config_version)", "<=(self.vfs_config_version, self.vfs_progress_config_version)", "!>(self.vfs_config_version, self.vfs_progress_config_version)", "==(self.vfs_progress_config_version, self.vfs_config_version)", "==(self.vfs_config_version, self.vfs_progress_config_version)"]),
    ], &|v| !v[0] && !v[1] && v[2]);
    truth_table(r, &mut rep, "global_state.rs", Some("GlobalState"), "vfs_initialized_and_loaded", &[("synced", &["self.vfs_synced_once"]), ("scanning", &["self.vfs_sync_in_progress"])], &|v| v[0] && !v[1]);
    // status
    if let Some(f) = need(r, &mut rep, "reload.rs", Some("GlobalState"), "current_status") {
        let t = tr(r, &mut rep, f.id, None, Cfg::new(none));
        for p in &t.paths {
            let q = struct_field(&t.it.deref(&p.st, &p.ret), "quiescent").map(|v| full(&t.it, &v)).unwrap_or_default();
            let known = fact_bool(&t.it, &p.st, |s| s.contains("is_project_fully_loaded()(self)"));
            let ok = q == "GlobalState::is_project_fully_loaded()(self)" || known.is_some_and(|b| q == b.to_string());
            rep.ob(ok, "status:quiescent", format!("the status tells the client quiescent=`{q}` instead of whether the project is fully loaded"), &f.file, f.line);
            let bad = fact_bool(&t.it, &p.st, |s| s.contains("is_package_loading_error()(self)")) == Some(true);
            let health = struct_field(&t.it.deref(&p.st, &p.ret), "health").map(|v| full(&t.it, &v)).unwrap_or_default();
            if bad {
                rep.ob(health.contains("Error"), "status:error", "packages failed to load but the health reported to the client is not an error", &f.file, f.line);
            }
            let warn = fact_is(&t.it, &p.st, |s| s == "self.config_errors").as_deref() == Some("Some");
            if warn {
                rep.ob(health.contains("Warning") || health.contains("Error"), "status:config", "the configuration has errors but the health reported to the client is not a warning", &f.file, f.line);
            }
        }
        rep.floor("paths of current_status", t.paths.len(), 2);
    }
    // progress messages
    if let Some(f) = need(r, &mut rep, "main_loop.rs", Some("GlobalState"), "handle_vfs_msg") {
        let t = tr(r, &mut rep, f.id, None, Cfg::new(none));
        let mut n = 0;
        for p in &t.paths {
            let it = &t.it;
            let is_prog = fact_is(it, &p.st, |s| s == "message").as_deref() == Some("Progress") || p.st.facts.iter().any(|(tm, _)| full(it, &V::Sym(*tm)) == "message.n_done");
            let w = |x: &str| heap_of(it, &p.st, &format!("self.{x}")).map(|v| full(it, &v));
            if !is_prog {
                for x in ["vfs_sync_in_progress", "vfs_synced_once", "vfs_progress_config_version", "vfs_config_version"] {
                    rep.ob(w(x).is_none(), format!("progress:{x}"), format!("{x} changes on a message that is no progress report"), &f.file, f.line);
                }
                continue;
            }
            n += 1;
            let st = fact_is(it, &p.st, |s| s == "message.n_done").unwrap_or_default();
            let fin = st == "Finished" || (st.is_empty() && {
                let not: Vec<String> = p.st.facts.iter().filter_map(|(tm, fa)| match fa { Fact::Not(x) if full(it, &V::Sym(*tm)) == "message.n_done" => Some(x.iter().map(|y| y.to_string()).collect::<Vec<_>>().join(",")), _ => None }).collect();
                not.iter().any(|x| x.contains("Started") && x.contains("Progress"))
            });
            rep.ob(w("vfs_sync_in_progress") == Some((!fin).to_string()), "progress:in-progress", format!("after a `{st}` report, vfs_sync_in_progress is {:?}", w("vfs_sync_in_progress")), &f.file, f.line);
            rep.ob(w("vfs_progress_config_version").as_deref() == Some("message.config_version"), "progress:version", "the configuration version of the progress report is not recorded on some path", &f.file, f.line);
            let was = fact_bool(it, &p.st, |s| s == "self.vfs_synced_once");
            let so = w("vfs_synced_once");
            if fin {
                rep.ob(so.as_deref() == Some("true") || was == Some(true) && so.is_none(), "progress:synced", "the scan finished but is not recorded as finished", &f.file, f.line);
                rep.ob(!evs(p, "recreate_package_graph").is_empty(), "progress:graph", "the scan finished but the package graph is not rebuilt", &f.file, f.line);
            } else {
                rep.ob(so.is_none() || (was == Some(true) && so.as_deref() == Some("true")), "progress:synced-early", "the first scan is recorded as finished before it is", &f.file, f.line);
            }
            // progress bar: states match
            for e in evs(p, "report_progress") {
                let s = e.args.get(2).map(|x| full(it, x)).unwrap_or_default();
                let want = if fin { "End" } else if st == "Started" { "Begin" } else { "Report" };
                rep.ob(s.ends_with(want), "progress:bar", format!("a `{st}` report shows `{s}` to the user"), &f.file, e.line);
            }
        }
        rep.floor("progress paths", n, 3);
    }
    // new configuration of the scanner
    if let Some(f) = need(r, &mut rep, "reload.rs", Some("GlobalState"), "switch_workspaces") {
        let t = tr(r, &mut rep, f.id, None, Cfg::new(|g| g.file.ends_with("src/reload.rs") && !["recreate_package_graph", "is_package_loading_error", "setup_client_file_watchers"].contains(&g.name.as_str())));
        let mut n = 0;
        for p in &t.paths {
            let it = &t.it;
            let w = |x: &str| heap_of(it, &p.st, &format!("self.{x}")).map(|v| full(it, &norm(it, &p.st, &v)));
            let set = evs(p, "set_config");
            let ver = w("vfs_config_version");
            if set.is_empty() {
                rep.ob(ver.is_none(), "switch:version", "the version grows although the scanner is not restarted: the workspace would never be loaded again", &f.file, f.line);
                rep.ob(w("all_packages").is_none() && w("package_root_config").is_none(), "switch:packages", "the packages change although the scanner is not restarted", &f.file, f.line);
                continue;
            }
            n += 1;
            rep.ob(set.len() == 1, "switch:once", "the scanner is restarted more than once", &f.file, f.line);
            let c = it.deref(&p.st, &set[0].args[1]);
            let sent = struct_field(&c, "version").map(|v| full(it, &v)).unwrap_or_default();
            rep.ob(ver.as_deref() == Some("+(self.vfs_config_version, 1)") || ver.as_deref() == Some("+(1, self.vfs_config_version)"), "switch:version", format!("the configuration version becomes {ver:?} instead of one more"), &f.file, set[0].line);
            rep.ob(Some(&sent) == ver.as_ref(), "switch:same-version", format!("the scanner gets version `{sent}`, the server waits for {ver:?}"), &f.file, set[0].line);
            let load = struct_field(&c, "load").map(|v| full(it, &norm(it, &p.st, &v))).unwrap_or_default();
            let all = w("all_packages").unwrap_or_default();
            let roots = w("package_root_config").unwrap_or_default();
            rep.ob(!all.is_empty(), "switch:packages", "the packages switched to are not recorded", &f.file, f.line);
            rep.ob(load == format!("ProjectFolders::new()({all}).load"), "switch:load", format!("the scanner is told to load `{load}`, the packages are `{all}`"), &f.file, set[0].line);
            rep.ob(roots == format!("ProjectFolders::new()({all}).package_root_config"), "switch:roots", format!("the package roots come from `{roots}`, the packages are `{all}`"), &f.file, f.line);
            rep.ob(all.contains("last_op_result()(") && all.contains("valid_packages"), "switch:source", format!("the packages switched to are `{all}`, not the valid ones of the last load"), &f.file, f.line);
            // a broken load never replaces a working workspace
            let err = fact_bool(it, &p.st, |s| s.contains("is_package_loading_error()(self)"));
            let empty = fact_bool(it, &p.st, |s| s.contains("is_empty()(self.all_packages)"));
            rep.ob(!(err == Some(true) && empty != Some(true)), "switch:broken", "a load with errors replaces a workspace that was loaded", &f.file, f.line);
            rep.ob(err.is_some(), "switch:broken", "switches without looking whether the load failed", &f.file, f.line);
        }
        rep.floor("switching paths", n, 2);
    }
    // nobody else writes these
    for (field, ok) in [
        ("vfs_sync_in_progress", &["handle_vfs_msg", "new"][..]),
        ("vfs_synced_once", &["handle_vfs_msg", "new"]),
        ("vfs_progress_config_version", &["handle_vfs_msg", "new"]),
        ("vfs_config_version", &["switch_workspaces", "new"]),
    ] {
        for (f, l) in field_writes(r, K, field) {
            rep.ob(ok.contains(&f.name.as_str()), format!("write:{field}:{}", f.short()), format!("{} writes {field}: readiness could be reported too early or never", f.short()), &f.file, l);
        }
    }
    rep
}
/// assignments to a field of that name
pub fn field_writes<'r>(r: &'r Repo, krate: &str, field: &str) -> Vec<(&'r FnInfo, usize)> {
    struct Vis<'x> {
        f: &'x str,
        out: Vec<usize>,
    }
    impl<'x> Vis<'x> {
        fn hit(&self, e: &syn::Expr) -> bool {
            matches!(e, syn::Expr::Field(f) if matches!(&f.member, syn::Member::Named(i) if i == self.f))
        }
    }
    impl<'x, 'ast> syn::visit::Visit<'ast> for Vis<'x> {
        fn visit_expr_assign(&mut self, a: &'ast syn::ExprAssign) {
            if self.hit(&a.left) {
                self.out.push(span_line(a));
            }
            syn::visit::visit_expr_assign(self, a);
        }
        fn visit_expr_binary(&mut self, b: &'ast syn::ExprBinary) {
            use syn::BinOp::*;
            if matches!(b.op, AddAssign(_) | SubAssign(_) | MulAssign(_) | BitOrAssign(_) | BitAndAssign(_) | BitXorAssign(_) | ShlAssign(_) | ShrAssign(_)) && self.hit(&b.left) {
                self.out.push(span_line(b));
            }
            syn::visit::visit_expr_binary(self, b);
        }
        fn visit_expr_reference(&mut self, x: &'ast syn::ExprReference) {
            if x.mutability.is_some() && self.hit(&x.expr) {
                self.out.push(span_line(x));
            }
            syn::visit::visit_expr_reference(self, x);
        }
    }
    let mut out = vec![];
    for f in r.fns.iter().filter(|f| f.module.first().map(|s| s.as_str()) == Some(krate)) {
        let mut v = Vis { f: field, out: vec![] };
        syn::visit::Visit::visit_block(&mut v, f.block);
        for l in v.out {
            out.push((f, l));
        }
    }
    out
}

/// L09: every change of the file system reaches the analysis once, normalised
pub fn l09(r: &Repo, _t: bool) -> Report {
    let mut rep = Report::new("file changes: every change taken from the virtual file system is forwarded once, with its text normalised and its line endings recorded.");
    rep.assume("Vfs::take_changes hands out each pending change once; LineEndings::normalize is checked by T01");
    if let Some(f) = need(r, &mut rep, "file_changes.rs", Some("GlobalState"), "fetch_pending_file_changes") {
        let t = tr(r, &mut rep, f.id, None, Cfg::new(|g| g.file.ends_with("src/file_changes.rs")).mhook(|it, cx, st, c| {
            // HashMap::insert, Vec::push and is_empty on symbolic receivers
            match c.name {
                "insert" => {
                    let mut s = st.clone();
                    let mut a = vec![it.deref(&s, &c.recv)];
                    a.extend(c.args.iter().map(|x| it.deref(&s, x)));
                    s.event("map.insert", a.clone(), cx.func, c.line);
                    Some(vec![(s, Flow::Val(it.sym("map.insert()", a)))])
                }
                "push" => {
                    let recv = it.deref(st, &c.recv);
                    if matches!(recv, V::List(_)) {
                        return None;
                    }
                    let mut s = st.clone();
                    let mut a = vec![recv];
                    a.extend(c.args.iter().map(|x| it.deref(&s, x)));
                    s.event("note_push", a, cx.func, c.line);
                    Some(vec![(s, Flow::Val(V::Unit))])
                }
                _ => None,
            }
        }));
        let it = &t.it;
        let mut elems = 0;
        for p in &t.paths {
            let forwarded: Vec<(String, V)> = evs(p, "change_file").iter().map(|e| (full(it, &norm(it, &p.st, &e.args[1])), norm(it, &p.st, &e.args[2]))).collect();
            let endings: Vec<(String, String)> = evs(p, "insert").iter().map(|e| (full(it, &norm(it, &p.st, &e.args[1])), full(it, &norm(it, &p.st, &e.args[2])))).collect();
            // the elements of the change set seen on this path
            let mut el: BTreeSet<String> = BTreeSet::new();
            let seen = std::cell::RefCell::new(BTreeSet::new());
            for (tm, _) in p.st.facts.iter() {
                let s = full(it, &V::Sym(*tm));
                if let Some(x) = s.strip_suffix(".change") {
                    el.insert(x.to_string());
                }
                mentions(it, &V::Sym(*tm), &|v| {
                    if op(it, v).0 == "elem" && full(it, v).contains("take_changes") {
                        seen.borrow_mut().insert(full(it, v));
                    }
                    false
                });
            }
            el.extend(seen.into_inner());
            if matches!(&p.ret, V::Ctor(n, _) if &**n == "None") {
                let emp = fact_bool(it, &p.st, |s| s.contains("is_empty()(") && s.contains("take_changes"));
                rep.ob(emp == Some(true), "fetch:none", "changes were taken from the file system but are dropped on some path", &f.file, f.line);
                continue;
            }
            rep.ob(full(it, &p.ret).starts_with("Some((FileChanges::new()"), "fetch:returned", "the collected changes are not what is returned", &f.file, f.line);
            for x in &el {
                elems += 1;
                let id = format!("{x}.file_id");
                let mine: Vec<&(String, V)> = forwarded.iter().filter(|c| c.0 == id).collect();
                rep.ob(mine.len() == 1, "fetch:forwarded", format!("a changed file is forwarded {} times instead of once on some path", mine.len()), &f.file, f.line);
                let kind = fact_is(it, &p.st, |s| s == format!("{x}.change"));
                let utf8 = fact_is(it, &p.st, |s| s.starts_with("String::from_utf8()(") && s.contains(&format!("{x}.change")));
                if let Some((_, v)) = mine.first() {
                    let s = full(it, v);
                    match kind.as_deref() {
                        Some(k @ ("Create" | "Modify")) => {
                            if utf8.as_deref() == Some("Ok") {
                                let raw = format!("Ok#0(String::from_utf8()({k}#0({x}.change)))");
                                rep.ob(s == format!("Some(LineEndings::normalize()({raw}).0)"), "fetch:text", format!("the text forwarded for a {k} is `{s}`, not the normalised contents of that file"), &f.file, f.line);
                                let e: Vec<&(String, String)> = endings.iter().filter(|e| e.0 == id).collect();
                                rep.ob(
                                    e.len() == 1 && e[0].1 == format!("LineEndings::normalize()({raw}).1"),
                                    "fetch:endings",
                                    format!("the line endings recorded for a {k} file are {:?}, not those found in its text", e.iter().map(|x| &x.1).collect::<Vec<_>>()),
                                    &f.file,
                                    f.line,
                                );
                            }
                        }
                        _ => {
                            rep.ob(s == "None", "fetch:deleted", format!("a deleted file is forwarded as `{s}`"), &f.file, f.line);
                        }
                    }
                }
                // structure changes
                let onfs = fact_is(it, &p.st, |s| s.contains(&format!(".file_path({x}.file_id)")) && s.ends_with(".as_path()"));
                if onfs.as_deref() == Some("Some") {
                    let n = evs(p, "note_push").iter().filter(|e| full(it, &e.args[1]).contains(&format!("({x}.file_id)"))).count()
                        + heap_lists(it, p).iter().filter(|s| s.contains(&format!("({x}.file_id)"))).count();
                    let man = fact_bool(it, &p.st, |s| s.contains("is_manifest_file()(") && s.contains(x.as_str()));
                    let must = matches!(kind.as_deref(), Some("Create" | "Delete")) || (kind.as_deref() == Some("Modify") && man == Some(true));
                    if must {
                        rep.ob(n >= 1, "fetch:structure", format!("a file {}d in the workspace is not noted, so the packages are not reloaded", kind.clone().unwrap_or_default()), &f.file, f.line);
                    }
                }
            }
            // nothing invented
            for (i, _) in &forwarded {
                rep.ob(i.contains("take_changes()"), "fetch:invented", format!("`{i}` is forwarded although it is not among the changes"), &f.file, f.line);
            }
        }
        rep.floor("changed files examined", elems, 10);
    }
    truth_table(r, &mut rep, "file_changes.rs", Some("WorkspaceStructureChanges"), "has_changes", &[
        ("created", &["!self.files_created.is_empty()"]),
        ("deleted", &["!self.files_deleted.is_empty()"]),
        ("manifest", &["!self.manifests_changed.is_empty()"]),
    ], &|v| v[0] || v[1] || v[2]);
    if let Some(f) = need(r, &mut rep, "file_changes.rs", Some("GlobalState"), "process_pending_file_changes") {
        let t = tr(r, &mut rep, f.id, None, Cfg::new(|g| g.file.ends_with("src/file_changes.rs") && g.name != "fetch_pending_file_changes" && g.name != "has_changes"));
        let it = &t.it;
        for p in &t.paths {
            let got = fact_is(it, &p.st, |s| s.contains("fetch_pending_file_changes()(self)"));
            let app = evs(p, "apply_change");
            if got.as_deref() != Some("Some") {
                rep.ob(app.is_empty() && p.ret == V::Bool(false), "process:none", "reports a change although there was none", &f.file, f.line);
                continue;
            }
            rep.ob(app.len() == 1, "process:applied", "the changes fetched are not applied to the analysis exactly once on some path", &f.file, f.line);
            rep.ob(p.ret == V::Bool(true), "process:reported", "the changes are applied but not reported, so the editor is not asked to refresh", &f.file, f.line);
            for e in &app {
                let s = full(it, &norm(it, &p.st, &e.args[1]));
                rep.ob(s.contains("fetch_pending_file_changes()(self)"), "process:what", format!("applies `{s}`"), &f.file, e.line);
            }
            let st = fact_bool(it, &p.st, |s| s.contains("has_changes()("));
            rep.ob(st.is_some(), "process:looked", "does not look whether the workspace structure changed", &f.file, f.line);
            if st == Some(true) {
                rep.ob(!evs(p, "request_op").is_empty(), "process:reload", "the structure changed but the packages are not reloaded on some path", &f.file, f.line);
                let roots = ev_pos(p, "set_package_roots");
                rep.ob(roots.is_some() && roots < ev_pos(p, "apply_change"), "process:roots", "the structure changed but the package roots are not recomputed before the changes are applied", &f.file, f.line);
            }
        }
        rep.floor("paths of process_pending_file_changes", t.paths.len(), 3);
    }
    // every turn of the loop fetches changes once scanning is over
    if let Some(f) = need(r, &mut rep, "main_loop.rs", Some("GlobalState"), "after_handle_event") {
        const OWN: [&str; 6] = ["ask_for_semantic_tokens_refresh", "ask_for_codelens_refresh", "ask_for_inlay_hints_refresh", "ask_client_for_diagnostics_refresh", "update_status_or_notify", "handle_event"];
        let t = tr(r, &mut rep, f.id, None, Cfg::new(|g| g.file.ends_with("src/main_loop.rs") && g.self_ty.as_deref() == Some("GlobalState") && !OWN.contains(&g.name.as_str())));
        let it = &t.it;
        for p in &t.paths {
            let busy = fact_bool(it, &p.st, |s| s == "self.vfs_sync_in_progress");
            let n = evs(p, "process_pending_file_changes").len();
            if busy != Some(true) {
                rep.ob(n == 1, "turn:process", "a turn of the main loop ends without handing the pending file changes to the analysis", &f.file, f.line);
            }
            // the editor is asked to refresh when something changed
            let loaded = fact_bool(it, &p.st, |s| s.contains("is_project_fully_loaded()(self)"));
            let changed = fact_bool(it, &p.st, |s| s.contains("process_pending_file_changes()(self)"));
            let was = fact_bool(it, &p.st, |s| s == "was_fully_loaded");
            rep.ob(!(loaded == Some(true) && n > 0 && changed.is_none() && was != Some(false) && evs(p, "ask_for_semantic_tokens_refresh").is_empty()), "turn:looked", "whether files changed is not looked at before deciding to refresh the editor", &f.file, f.line);
            if loaded == Some(true) && (changed == Some(true) || was == Some(false)) {
                for x in ["ask_for_semantic_tokens_refresh", "ask_for_codelens_refresh", "ask_for_inlay_hints_refresh", "ask_client_for_diagnostics_refresh"] {
                    let cap = match x {
                        "ask_for_semantic_tokens_refresh" => "semantic_tokens_refresh()",
                        "ask_for_codelens_refresh" => "code_lens_refresh()",
                        "ask_for_inlay_hints_refresh" => "inlay_hints_refresh()",
                        _ => "diagnostics_refresh()",
                    };
                    // a client that cannot refresh is not asked
                    let cannot = fact_bool(it, &p.st, |s| s.contains(cap)) == Some(false);
                    rep.ob(evs(p, x).len() == 1 || cannot, format!("turn:{x}"), format!("files changed (or loading finished) but {x} is not called"), &f.file, f.line);
                }
            }
        }
        rep.floor("paths of after_handle_event", t.paths.len(), 4);
    }
    rep
}
fn heap_lists(it: &Interp<Trace>, p: &PathR) -> Vec<String> {
    p.st.heap.values().filter(|v| matches!(v, V::List(_))).map(|v| full(it, v)).collect()
}
