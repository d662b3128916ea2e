//! Request life cycle of the language server: every dispatch path is traced symbolically.
use super::util::{clo_paths, heap_of, norm};
use super::trace::*;
use crate::absint::*;
use crate::repo::*;
use crate::report::Report;
use quote::ToTokens;
use std::rc::Rc;

const DISPATCH: &str = "handlers/dispatch.rs";
const KRATE: &str = "aptos_language_server";

fn val<W>(st: St<W>, v: V) -> Out<W> {
    vec![(st, Flow::Val(v))]
}
pub fn unwrap_clo(v: &V) -> V {
    match v {
        V::Ctor(n, a) if &**n == "AssertUnwindSafe" && a.len() == 1 => a[0].clone(),
        v => v.clone(),
    }
}
fn op_of<D: Domain>(it: &Interp<D>, v: &V) -> (String, Vec<V>) {
    match v {
        V::Sym(t) => {
            let (o, a) = it.node(*t);
            (o.to_string(), a)
        }
        V::Ctor(n, a) => (n.to_string(), a.to_vec()),
        _ => (String::new(), vec![]),
    }
}
/// all dispatcher hooks: option take, catch_unwind, pool spawn, downcast
fn hooks<'a>(cfg: Cfg<'a>) -> Cfg<'a> {
    cfg.mhook(|it, cx, st, c| match c.name {
        "take_if" | "take" if c.args.len() <= 1 => {
            let place = c.place.clone()?;
            if !it.show(&V::Sym(match &place {
                Place::Heap(t) => *t,
                _ => return None,
            }))
            .ends_with(".req")
            {
                return None;
            }
            let cur = it.read(st, &place);
            let mut out = vec![];
            let mut cases: Vec<(St<TW>, Option<V>)> = vec![];
            match &cur {
                V::Ctor(n, _) if &**n == "None" => cases.push((st.clone(), None)),
                V::Ctor(n, a) if &**n == "Some" => cases.push((st.clone(), Some(a[0].clone()))),
                v => {
                    for (s, r) in it.variant(st.clone(), v, "Some", 1) {
                        cases.push((s, r.map(|p| p[0].clone())));
                    }
                }
            }
            for (s, r) in cases {
                let Some(req) = r else {
                    out.push((s, Flow::Val(none())));
                    continue;
                };
                if let Some(pred) = c.args.first() {
                    for (s, f) in it.apply(cx, pred, vec![req.clone()], s, c.line) {
                        let Flow::Val(v) = f else { continue };
                        for (mut s, ok) in it.branch(s, &v) {
                            if ok {
                                it.write(&mut s, &place, none());
                                s.event("taken", vec![req.clone()], cx.func, c.line);
                                out.push((s, Flow::Val(some(req.clone()))));
                            } else {
                                out.push((s, Flow::Val(none())));
                            }
                        }
                    }
                } else {
                    let mut s = s;
                    it.write(&mut s, &place, none());
                    s.event("taken-any", vec![req.clone()], cx.func, c.line);
                    out.push((s, Flow::Val(some(req))));
                }
            }
            Some(out)
        }
        "spawn" if c.args.iter().any(|a| matches!(unwrap_clo(a), V::Closure(_))) => {
            let clo = unwrap_clo(c.args.last()?);
            let mut s = st.clone();
            s.event("spawn", vec![c.recv.clone()], cx.func, c.line);
            let mut out = vec![];
            for (mut s, f) in it.apply(cx, &clo, vec![], s, c.line) {
                if let Flow::Val(v) = f {
                    let v = it.deref(&s, &v);
                    s.event("task", vec![v], cx.func, c.line);
                    out.push((s, Flow::Val(V::Unit)));
                }
            }
            Some(out)
        }
        "downcast" | "downcast_ref" | "is" => {
            let t = turbofish(c);
            Some(val(st.clone(), it.sym(&format!("{}<{}>", c.name, t), vec![c.recv.clone()])))
        }
        "respond" => {
            let mut s = st.clone();
            let a: Vec<V> = c.args.iter().map(|x| it.deref(&s, x)).collect();
            s.event("respond", a, cx.func, c.line);
            Some(val(s, V::Unit))
        }
        _ => None,
    })
    .chook(|it, cx, st, segs, args, line| match segs.last()?.as_str() {
        "catch_unwind" => {
            let clo = unwrap_clo(args.first()?);
            let mut out = vec![];
            let mut s = st.clone();
            s.event("catch-enter", vec![], cx.func, line);
            for (mut s, f) in it.apply(cx, &clo, vec![], s, line) {
                match f {
                    Flow::Val(v) => {
                        s.event("catch-exit", vec![], cx.func, line);
                        out.push((s, Flow::Val(ctor("Ok", vec![v]))));
                    }
                    f => out.push((s, f)),
                }
            }
            let mut s = st.clone();
            s.event("caught-panic", vec![], cx.func, line);
            out.push((s, Flow::Val(ctor("Err", vec![it.sym("PANIC", vec![])]))));
            Some(out)
        }
        "from_value" | "to_value" => None,
        _ => None,
    })
}

/// the parameter that is the handler: `fn(State, Params) -> Result<..>`; is its state exclusive?
fn handler_param(f: &FnInfo) -> Option<(String, bool)> {
    f.params().into_iter().find_map(|(n, t)| match t {
        syn::Type::BareFn(b) if b.inputs.len() == 2 => {
            let excl = matches!(&b.inputs[0].ty, syn::Type::Reference(r) if r.mutability.is_some());
            Some((n, excl))
        }
        syn::Type::ImplTrait(i) => {
            let s = i.to_token_stream().to_string().replace(' ', "");
            (s.contains("Fn") && s.contains("GlobalState")).then(|| (n, s.contains("&mutGlobalState")))
        }
        _ => None,
    })
}
pub struct DPath {
    pub taken: Vec<V>,
    pub taken_any: bool,
    pub answers: Vec<(V, usize)>, // response or Task::Retry value
    pub ran: Vec<(bool, usize)>,  // handler ran, guarded?
    pub panicked: bool,
    pub cancelled: bool,
}
/// (function, exclusive?, paths)
fn dispatch_traces(r: &Repo, rep: &mut Report) -> Vec<(FnId, Option<bool>, Vec<(DPath, PathR)>, Interp<'static, Trace<'static>>)> {
    let r: &'static Repo = unsafe { std::mem::transmute(r) };
    let mut out = vec![];
    for f in r.fns.iter().filter(|f| f.file.ends_with(DISPATCH) && f.self_ty.as_deref() == Some("RequestDispatcher")) {
        let h = handler_param(f);
        // entry points of the dispatcher: reachable from outside the file
        if !(f.vis_pub || h.is_some()) {
            continue;
        }
        let hname = h.as_ref().map(|x| x.0.clone());
        let cfg = hooks(Cfg::new(|g| g.file.ends_with(DISPATCH) && g.name != "respond").cap(200000));
        let t = trace(r, f.id, None, cfg);
        if !t.it.overflow.borrow().is_empty() {
            rep.problem(format!("{}: too many paths", f.qual()));
        }
        let Traced { it, paths } = t;
        let mut ps = vec![];
        for p in paths {
            let mut d = DPath { taken: vec![], taken_any: false, answers: vec![], ran: vec![], panicked: false, cancelled: false };
            let mut depth = 0;
            for e in p.st.events.iter() {
                match &*e.name {
                    "taken" => d.taken.push(e.args[0].clone()),
                    "taken-any" => {
                        d.taken.push(e.args[0].clone());
                        d.taken_any = true
                    }
                    "respond" => d.answers.push((e.args[0].clone(), e.line)),
                    "task" => d.answers.push((e.args[0].clone(), e.line)),
                    "catch-enter" => depth += 1,
                    "catch-exit" => depth -= 1,
                    "caught-panic" => d.panicked = true,
                    "apply" => {
                        let fv = it.show(&e.args[0]);
                        if Some(&fv) == hname.as_ref() {
                            d.ran.push((depth > 0, e.line));
                        }
                    }
                    _ => {}
                }
            }
            for (t, f) in p.st.facts.iter() {
                let (op, _) = it.node(*t);
                if op.starts_with("downcast") && op.contains("Cancelled") && matches!(f, Fact::Is(n) if &**n == "Ok" || &**n == "Some") {
                    d.cancelled = true;
                }
                if op.starts_with("is<") && op.contains("Cancelled") && matches!(f, Fact::Bool(true)) {
                    d.cancelled = true;
                }
            }
            ps.push((d, p));
        }
        out.push((f.id, h.map(|x| x.1), ps, it));
    }
    out
}
fn resp_id(it: &Interp<Trace>, v: &V) -> Option<V> {
    match v {
        V::Struct(n, m) if n.ends_with("Response") => m.get("id").cloned(),
        _ => {
            let (op, a) = op_of(it, v);
            if (op.contains("new_ok") || op.contains("new_err")) && op.contains("Response") { a.first().cloned() } else { None }
        }
    }
}
/// the id a task / response answers; Ok(true) = retry
fn answer_id(it: &Interp<Trace>, st: &St<TW>, v: &V) -> Option<(V, bool)> {
    let v = it.deref(st, v);
    if let V::Ctor(n, a) = &v {
        if n.ends_with("Response") && a.len() == 1 {
            return resp_id(it, &it.deref(st, &a[0])).map(|x| (x, false));
        }
        if n.ends_with("Retry") && a.len() == 1 {
            return Some((a[0].clone(), true));
        }
    }
    resp_id(it, &v).map(|x| (x, false))
}
fn err_code(it: &Interp<Trace>, v: &V) -> Option<String> {
    let v = match v {
        V::Ctor(n, a) if n.ends_with("Response") && a.len() == 1 => &a[0],
        v => v,
    };
    let (op, a) = op_of(it, v);
    if op.contains("new_err") {
        return a.get(1).map(|c| it.show(c));
    }
    if let V::Struct(_, m) = v {
        return m.get("error").map(|e| it.show(e));
    }
    None
}
fn state_method<'r>(r: &'r Repo, name: &str) -> Option<&'r FnInfo> {
    r.fns
        .iter()
        .find(|f| f.module[0] == KRATE && f.self_ty.as_deref() == Some("GlobalState") && f.name == name)
}

/// L01: exactly one answer per request
pub fn l01(r: &Repo, _t: bool) -> Report {
    let mut rep = Report::new("request life-cycle traces: registered once, taken once, answered once with the same id.");
    let all = dispatch_traces(r, &mut rep);
    let mut npaths = 0;
    let mut takers = 0;
    for (id, excl, ps, it) in &all {
        let f = &r.fns[*id];
        let mut took = false;
        for (d, p) in ps {
            npaths += 1;
            let key = |w: &str| format!("{}:{w}", f.qual());
            let st = &p.st;
            let last = p.st.events.last().map(|e| e.line).unwrap_or(f.line);
            if d.taken.is_empty() {
                if excl.is_none() && f.name == "finish" {
                    let none = st.facts.iter().any(|(t, fa)| it.show(&V::Sym(*t)) == "self.req" && matches!(fa, Fact::Is(n) if &**n == "None"));
                    rep.ob(none, key("left-over"), "finish leaves an unknown request unanswered on this path", &f.file, last);
                }
                rep.ob(d.answers.is_empty(), key("answers-other"), format!("{} answers or starts a request it has not taken", f.short()), &f.file, last);
                rep.ob(d.ran.is_empty(), key("runs-other"), format!("{} runs its handler for a request it has not taken", f.short()), &f.file, last);
                continue;
            }
            took = true;
            rep.ob(d.taken.len() == 1, key("taken-twice"), format!("{} takes the request twice", f.short()), &f.file, last);
            let req = &d.taken[0];
            let want = it.field_of(st, req, "id");
            // a synchronous handler runs on the only thread that cancels: it is never cancelled
            let spawned = p.st.events.iter().any(|e| &*e.name == "spawn");
            if d.cancelled && !spawned && d.answers.is_empty() {
                continue;
            }
            let n = d.answers.len();
            rep.ob(
                n == 1,
                key(if n == 0 { "no-answer" } else { "two-answers" }),
                format!("{}: a path that takes the request gives {n} answers (exactly one is required)", f.short()),
                &f.file,
                d.answers.last().map(|x| x.1).unwrap_or(last),
            );
            for (a, line) in &d.answers {
                match answer_id(it, st, a) {
                    None => {
                        rep.ob(false, key("unknown-answer"), format!("{}: the task `{}` is neither a response nor a retry", f.short(), it.show(a)), &f.file, *line);
                    }
                    Some((i, retry)) => {
                        let ok = if retry { &i == req } else { it.deref(st, &i) == want };
                        rep.ob(ok, key("wrong-id"), format!("{}: answer carries `{}`, the request's id is `{}`", f.short(), it.show(&i), it.show(&want)), &f.file, *line);
                        if retry {
                            rep.ob(d.cancelled, key("retry-uncancelled"), format!("{}: retries a request that was not cancelled", f.short()), &f.file, *line);
                        }
                    }
                }
                // a successful handler result is what is sent
                if !d.panicked {
                    for (t, fa) in st.facts.iter() {
                        let (op, aa) = it.node(*t);
                        let is_handler = &*op == "apply()" && aa.len() > 2;
                        if is_handler && matches!(fa, Fact::Is(n) if &**n == "Ok") {
                            let shown = it.show(a);
                            let res = it.sym("Ok#0", vec![V::Sym(*t)]);
                            let body = match a {
                                V::Ctor(n, b) if n.ends_with("Response") && b.len() == 1 => b[0].clone(),
                                a => a.clone(),
                            };
                            let (op, ba) = op_of(it, &body);
                            rep.ob(
                                op.contains("new_ok") && ba.get(1) == Some(&res),
                                key("result-lost"),
                                format!("{}: the handler succeeded but its result is not what is answered (`{shown}`)", f.short()),
                                &f.file,
                                *line,
                            );
                        }
                    }
                }
            }
            // taken by method name
            if excl.is_some() || !d.taken_any {
                let m = it.show(&it.field_of(st, req, "method"));
                let ok = st.facts.iter().any(|(t, fa)| {
                    let s = it.show(&V::Sym(*t));
                    (s == m && matches!(fa, Fact::Is(n) if n.contains("METHOD"))) || (s.contains(&m) && s.contains("METHOD") && matches!(fa, Fact::Bool(true)))
                });
                rep.ob(ok, key("method-mismatch"), format!("{} takes a request without comparing its method with the handler's", f.short()), &f.file, last);
            }
        }
        if excl.is_some() || took {
            takers += took as usize;
            rep.ob(took, format!("{}:never-takes", f.qual()), format!("{} never takes a request", f.short()), &f.file, f.line);
        }
    }
    rep.floor("dispatch methods", takers, 6);
    rep.count("dispatch paths", npaths);
    // the unknown-method fallback
    if let Some((id, _, ps, it)) = all.iter().find(|(id, ..)| r.fns[*id].name == "finish") {
        let f = &r.fns[*id];
        let ok = ps.iter().any(|(d, p)| d.taken_any && d.answers.len() == 1 && err_code(it, &it.deref(&p.st, &d.answers[0].0)).is_some_and(|c| c.contains("MethodNotFound")));
        rep.ob(ok, "finish:method-not-found", "an unknown request is not answered with MethodNotFound", &f.file, f.line);
    } else {
        rep.problem("the dispatcher has no `finish`");
    }
    on_request(r, &mut rep);
    life_cycle(r, &mut rep);
    rep.assume("lsp_server::ReqQueue: register/complete/cancel behave as documented (complete and cancel give Some once per registered id)");
    rep.assume("a handler that runs synchronously on the main thread is never cancelled: only the main thread changes the database");
    rep
}

/// the chain of dispatch calls of `on_request`: events `dispatch:<method>` with the turbofish as argument
pub fn request_chain<'r>(r: &'r Repo, fname: &str) -> Option<(&'r FnInfo, Vec<PathR>, Interp<'r, Trace<'static>>)> {
    let f = state_method(r, fname)?;
    let cfg = Cfg::new(move |g: &FnInfo| g.file.ends_with("main_loop.rs") && g.self_ty.as_deref() == Some("GlobalState") && g.name != "respond" || g.name.contains("shutdown"))
        .cap(50000)
        .mhook(|it, cx, st, c| {
            let is_disp = match &c.recv {
                V::Struct(n, _) => n.ends_with("Dispatcher"),
                _ => false,
            };
            if is_disp && (c.name.starts_with("on_") || c.name == "on" || c.name == "finish") {
                let mut s = st.clone();
                let cur = it.field_of(&s, &c.recv, if it.show(&c.recv).contains("not") { "not" } else { "req" });
                let handler = c.args.first().map(|x| it.deref(&s, x)).unwrap_or(V::Unit);
                s.event(&format!("dispatch:{}", c.name), vec![V::Str(Rc::from(turbofish(c))), cur, handler], cx.func, c.line);
                let me = c.place.clone().map(V::Ref).unwrap_or(c.recv.clone());
                let mut out = vec![];
                // a request may be consumed here: two cases, for the first such call only
                let n = s.events.iter().filter(|e| e.name.starts_with("dispatch:")).count();
                if n == 1 && c.name != "finish" {
                    if let Some(p) = &c.place {
                        let mut s2 = s.clone();
                        let fp = it.field_place(&s2, p, "req");
                        it.write(&mut s2, &fp, none());
                        s2.event("consumed", vec![], cx.func, c.line);
                        out.push((s2, Flow::Val(me.clone())));
                    }
                }
                out.push((s, Flow::Val(me)));
                return Some(out);
            }
            if c.name == "respond" {
                let mut s = st.clone();
                let a: Vec<V> = c.args.iter().map(|x| it.deref(&s, x)).collect();
                s.event("respond", a, cx.func, c.line);
                return Some(val(s, V::Unit));
            }
            None
        });
    let t = trace(r, f.id, None, cfg);
    Some((f, t.paths, t.it))
}
fn on_request(r: &Repo, rep: &mut Report) {
    let Some((f, paths, it)) = request_chain(r, "on_request") else {
        rep.problem("GlobalState::on_request not found");
        return;
    };
    rep.count("on_request paths", paths.len());
    let mut fin = 0;
    for p in &paths {
        let ds: Vec<&Ev> = p.st.events.iter().filter(|e| e.name.starts_with("dispatch:")).collect();
        let rs: Vec<&Ev> = p.st.events.iter().filter(|e| &*e.name == "respond").collect();
        let finish = ds.last().is_some_and(|e| &*e.name == "dispatch:finish");
        let consumed = p.st.events.iter().any(|e| &*e.name == "consumed");
        let line = p.st.events.last().map(|e| e.line).unwrap_or(f.line);
        if finish {
            fin += 1;
            rep.ob(rs.is_empty(), "on_request:answer-and-dispatch", "a request is answered and dispatched as well", &f.file, line);
        } else {
            let n = rs.len();
            rep.ob(
                consumed && n == 0 || !consumed && n == 1,
                "on_request:no-finish",
                format!("a path through on_request ends without `finish` and with {n} answers: an unknown request would stay unanswered"),
                &f.file,
                line,
            );
        }
        for e in rs {
            let id = resp_id(&it, &it.deref(&p.st, &e.args[0]));
            let ok = id.as_ref().is_some_and(|i| it.show(i) == "req.id");
            rep.ob(ok, "on_request:wrong-id", format!("on_request answers with id `{}`", id.map(|i| it.show(&i)).unwrap_or_default()), &f.file, e.line);
        }
        // every registered request type once
        let mut seen = std::collections::BTreeSet::new();
        for e in ds.iter().filter(|e| &*e.name != "dispatch:finish") {
            let t = it.show(&e.args[0]);
            rep.ob(seen.insert(t.clone()), format!("on_request:duplicate:{t}"), format!("{t} is registered twice: the second handler never runs"), &f.file, e.line);
        }
    }
    rep.ob(fin > 0, "on_request:finish", "no path of on_request reaches `finish`", &f.file, f.line);
}

fn life_cycle(r: &Repo, rep: &mut Report) {
    // events -> handlers
    let names = ["on_new_request", "on_request", "handle_task", "respond", "cancel", "register_request", "is_completed", "on_notification", "complete_request"];
    let leaf = |g: &FnInfo| g.file.ends_with("main_loop.rs") && !["on_request", "on_notification", "after_handle_event", "handle_vfs_msg", "update_status_or_notify"].contains(&g.name.as_str());
    let count = |p: &PathR, n: &str| p.st.events.iter().filter(|e| e.name.ends_with(n)).count();
    let _ = names;
    // handle_event: a request is registered once and dispatched once; every task is handled
    match state_method(r, "handle_event") {
        None => rep.problem("GlobalState::handle_event not found"),
        Some(f) => {
            let cfg = Cfg::new(move |g| leaf(g) && g.name != "handle_task").cap(100000).mhook(|it, cx, st, c| {
                if c.name == "try_recv" {
                    let mut s0 = st.clone();
                    s0.w.n += 1;
                    let e = it.sym("queue-empty", vec![V::Int(s0.w.n as i128)]);
                    let m = it.sym("queued", vec![V::Int(s0.w.n as i128)]);
                    let mut s1 = s0.clone();
                    s1.event("received", vec![m.clone()], cx.func, c.line);
                    return Some(vec![(s1, Flow::Val(ctor("Ok", vec![m]))), (s0, Flow::Val(ctor("Err", vec![e])))]);
                }
                None
            });
            let t = trace(r, f.id, None, cfg);
            if !t.it.overflow.borrow().is_empty() {
                rep.problem("handle_event: too many paths");
            }
            let it = &t.it;
            let (mut nreq, mut ntask) = (0, 0);
            for p in &t.paths {
                let facts: Vec<String> = p.st.facts.iter().map(|(t, f)| format!("{} = {:?}", it.show(&V::Sym(*t)), f)).collect();
                let is = |w: &str| facts.iter().any(|x| x.ends_with(&format!("Is(\"{w}\")")));
                let reg: Vec<usize> = p.st.events.iter().enumerate().filter(|(_, e)| e.name.ends_with("register_request") || e.name.ends_with("incoming.register")).map(|x| x.0).collect();
                let on: Vec<usize> = p.st.events.iter().enumerate().filter(|(_, e)| e.name.ends_with("::on_request")).map(|x| x.0).collect();
                if is("Request") {
                    nreq += 1;
                    rep.ob(
                        reg.len() == 1 && on.len() == 1 && reg[0] < on[0],
                        "handle_event:request",
                        format!("an incoming request is registered {} and dispatched {} times (once each, registration first)", reg.len(), on.len()),
                        &f.file,
                        f.line,
                    );
                } else {
                    rep.ob(on.is_empty(), "handle_event:other", "something other than an incoming request is dispatched as one", &f.file, f.line);
                }
                let task_ev = facts.iter().any(|x| x.starts_with("event = Is(\"Task\")"));
                let handled: Vec<String> = p.st.events.iter().filter(|e| e.name.ends_with("handle_task")).map(|e| it.show(e.args.last().unwrap())).collect();
                if task_ev {
                    ntask += 1;
                    let mut want = vec![it.show(&it.sym("Task#0", vec![it.sym("event", vec![])]))];
                    want.extend(p.st.events.iter().filter(|e| &*e.name == "received").map(|e| it.show(&e.args[0])));
                    rep.ob(handled == want, "handle_event:tasks", format!("tasks received {want:?} but handled {handled:?}"), &f.file, f.line);
                } 
            }
            rep.ob(nreq > 0, "handle_event:no-request", "handle_event has no path for a request", &f.file, f.line);
            rep.ob(ntask > 0, "handle_event:no-task", "handle_event has no path for a task", &f.file, f.line);
        }
    }
    match state_method(r, "handle_task") {
        None => rep.problem("GlobalState::handle_task not found"),
        Some(f) => {
            let t = trace(r, f.id, None, Cfg::new(|_| false));
            let it = &t.it;
            let mut seen = [0; 2];
            for p in &t.paths {
                let is = |w: &str| p.st.facts.iter().any(|(t, f)| it.show(&V::Sym(*t)) == "task" && matches!(f, Fact::Is(n) if &**n == w));
                let resp: Vec<&Ev> = p.st.events.iter().filter(|e| e.name.ends_with("respond")).collect();
                let on = count(p, "::on_request");
                let done = p.st.facts.iter().find_map(|(t, f)| {
                    let s = it.show(&V::Sym(*t));
                    if s.contains("is_completed") { if let Fact::Bool(b) = f { Some(*b) } else { None } } else { None }
                });
                if is("Response") {
                    seen[0] += 1;
                    let ok = resp.len() == 1 && on == 0 && it.show(resp[0].args.last().unwrap()) == it.show(&it.sym("Response#0", vec![it.sym("task", vec![])]));
                    rep.ob(ok, "handle_task:response", "a finished task's response is not answered exactly once as it is", &f.file, f.line);
                } else if is("Retry") {
                    seen[1] += 1;
                    match done {
                        Some(false) => rep.ob(on == 1 && resp.is_empty(), "handle_task:retry", "a cancelled request that is still pending is not dispatched again exactly once", &f.file, f.line),
                        Some(true) => rep.ob(on == 0 && resp.is_empty(), "handle_task:retry-done", "a request that is already answered is dispatched again", &f.file, f.line),
                        None => rep.ob(on == 1 || resp.len() == 1, "handle_task:retry", "a cancelled request is dropped", &f.file, f.line),
                    };
                } else {
                    rep.ob(on == 0 && resp.is_empty(), "handle_task:other", "a progress task answers a request", &f.file, f.line);
                }
            }
            rep.ob(seen[0] > 0 && seen[1] > 0, "handle_task:cases", "handle_task does not handle responses and retries", &f.file, f.line);
        }
    }
    // respond / cancel: what leaves the queue is sent, once
    for (fname, qop) in [("respond", "complete"), ("cancel", "cancel")] {
        let Some(f) = state_method(r, fname) else {
            rep.problem(format!("GlobalState::{fname} not found"));
            continue;
        };
        let cfg = Cfg::new(|_| false).mhook(move |it, cx, st, c| {
            if c.name == qop && it.show(&c.recv).contains("incoming") {
                let mut s = st.clone();
                let id = it.deref(&s, &c.args[0]);
                s.event("queue-op", vec![id.clone()], cx.func, c.line);
                let q = it.sym("queue-entry", vec![id]);
                return Some(vec![
                    ({ let mut a = s.clone(); a.event("pending", vec![], cx.func, c.line); a }, Flow::Val(some(q))),
                    (s, Flow::Val(none())),
                ]);
            }
            None
        });
        let t = trace(r, f.id, None, cfg);
        let it = &t.it;
        let mut seen = 0;
        for p in &t.paths {
            let ops: Vec<&Ev> = p.st.events.iter().filter(|e| &*e.name == "queue-op").collect();
            let pend = count(p, "pending");
            let sends: Vec<&Ev> = p.st.events.iter().filter(|e| e.name.ends_with("::send") || &*e.name == ".send").collect();
            rep.ob(ops.len() == 1, format!("{fname}:queue"), format!("{fname} consults the request queue {} times", ops.len()), &f.file, f.line);
            rep.ob(sends.len() == pend, format!("{fname}:send"), format!("{fname}: the request is {}pending and {} messages are sent", if pend == 0 { "not " } else { "" }, sends.len()), &f.file, f.line);
            if let (Some(o), true) = (ops.first(), pend == 1) {
                seen += 1;
                let id = it.show(&o.args[0]);
                let ok = if fname == "respond" { id == "response.id" } else { id == it.show(&it.sym(&f.params()[0].0, vec![])) };
                rep.ob(ok, format!("{fname}:id"), format!("{fname} completes `{id}`"), &f.file, o.line);
                if let Some(s) = sends.first() {
                    let m = it.show(s.args.last().unwrap());
                    let ok = if fname == "respond" { m == "response" } else { m.contains("queue-entry") };
                    rep.ob(ok, format!("{fname}:message"), format!("{fname} sends `{m}`"), &f.file, s.line);
                }
            }
        }
        rep.ob(seen > 0, format!("{fname}:never"), format!("{fname} never sends"), &f.file, f.line);
    }
    // registration
    match state_method(r, "register_request") {
        None => rep.problem("GlobalState::register_request not found"),
        Some(f) => {
            let t = trace(r, f.id, None, Cfg::new(|_| false).mhook(|it, cx, st, c| {
                if c.name == "register" {
                    let mut s = st.clone();
                    s.event("register", vec![c.recv.clone(), it.deref(st, &c.args[0])], cx.func, c.line);
                    return Some(val(s, V::Unit));
                }
                None
            }));
            for p in &t.paths {
                let regs: Vec<String> = p.st.events.iter().filter(|e| &*e.name == "register").map(|e| format!("{} {}", t.it.show(&e.args[0]), t.it.show(&e.args[1]))).collect();
                let ok = regs.len() == 1 && regs[0].contains("incoming") && regs[0].ends_with(&format!("{}.id", f.params()[0].0));
                rep.ob(ok, "register_request:register", format!("registering a request does {regs:?}"), &f.file, f.line);
            }
        }
    }
    // the thread pool hands the task's value back exactly once
    let f = r.fns.iter().find(|f| f.self_ty.as_deref() == Some("TaskPool") && f.name == "spawn");
    match f {
        None => rep.problem("TaskPool::spawn not found"),
        Some(f) => {
            let t = trace(r, f.id, None, Cfg::new(|g| g.self_ty.as_deref() == Some("TaskPool")).mhook(|it, cx, st, c| {
                if c.name == "spawn" && it.show(&c.recv).contains("pool") {
                    let clo = unwrap_clo(c.args.last()?);
                    return Some(it.apply(cx, &clo, vec![], st.clone(), c.line));
                }
                if c.name == "send" {
                    let mut s = st.clone();
                    s.event("send", vec![c.recv.clone(), it.deref(st, &c.args[0])], cx.func, c.line);
                    return Some(val(s, ctor("Ok", vec![V::Unit])));
                }
                None
            }));
            rep.floor("TaskPool::spawn paths", t.paths.len(), 1);
            let task = f.params().last().map(|p| p.0.clone()).unwrap_or_default();
            for p in &t.paths {
                let s: Vec<String> = p.st.events.iter().filter(|e| &*e.name == "send").map(|e| t.it.show(&e.args[1])).collect();
                let ran = p.st.events.iter().filter(|e| &*e.name == "apply").count();
                rep.ob(s.len() == 1 && ran == 1 && s[0].contains(&task), "TaskPool::spawn:send", format!("a pool task runs {ran} times and sends {s:?}"), &f.file, f.line);
            }
        }
    }
}

/// L02: panics of request handlers stay contained
pub fn l02(r: &Repo, _t: bool) -> Report {
    let mut rep = Report::new("containment traces: handlers run under catch_unwind on a snapshot; a panic becomes an error response.");
    let all = dispatch_traces(r, &mut rep);
    let mut handlers = 0;
    let mut excl_methods = vec![];
    for (id, excl, ps, it) in &all {
        let f = &r.fns[*id];
        let Some(excl) = excl else { continue };
        if *excl {
            excl_methods.push(f.name.clone());
            continue;
        }
        handlers += 1;
        let mut ran = 0;
        let mut pan = 0;
        for (d, p) in ps {
            for (guarded, line) in &d.ran {
                ran += 1;
                rep.ob(*guarded, format!("{}:unguarded", f.qual()), format!("{} runs the handler outside catch_unwind: a crash takes the server (or the pool thread and the answer) down", f.short()), &f.file, *line);
            }
            if d.panicked {
                pan += 1;
                if d.cancelled {
                    continue;
                }
                for (a, line) in &d.answers {
                    let a = it.deref(&p.st, a);
                    let code = err_code(it, &a).unwrap_or_default();
                    rep.ob(code.contains("InternalError"), format!("{}:panic-answer", f.qual()), format!("{}: a panic is answered with `{}` instead of an internal error", f.short(), it.show(&a)), &f.file, *line);
                }
            }
        }
        rep.ob(ran > 0, format!("{}:runs", f.qual()), format!("{} never runs its handler", f.short()), &f.file, f.line);
        rep.ob(pan > 0, format!("{}:contained", f.qual()), format!("{} does not contain panics of its handler", f.short()), &f.file, f.line);
    }
    rep.floor("snapshot dispatch methods", handlers, 5);
    // a handler with exclusive access is not contained: only shutdown uses it, with a body that cannot panic
    if let Some((f, paths, it)) = request_chain(r, "on_request") {
        let mut seen = std::collections::BTreeSet::new();
        for p in &paths {
            for e in p.st.events.iter().filter(|e| e.name.starts_with("dispatch:")) {
                let m = e.name.trim_start_matches("dispatch:").to_string();
                let t = it.show(&e.args[0]);
                if excl_methods.contains(&m) && seen.insert(t.clone()) {
                    rep.ob(t.contains("ShutdownRequest"), format!("exclusive:{t}"), format!("{t} is handled by {m}, outside any panic guard"), &f.file, e.line);
                }
            }
        }
        rep.count("exclusive request handlers", seen.len());
    } else {
        rep.problem("GlobalState::on_request not found");
    }
    // the guard can only be trusted if panics unwind, and locks are not poisoned by them
    for prof in ["release", "dev"] {
        let toml = std::fs::read_to_string(r.root.join("Cargo.toml")).unwrap_or_default();
        let mut cur = String::new();
        let mut bad = false;
        for l in toml.lines() {
            if l.starts_with('[') {
                cur = l.trim().to_string();
            }
            if cur == format!("[profile.{prof}]") && l.replace(' ', "").starts_with("panic=\"abort\"") {
                bad = true;
            }
        }
        rep.ob(!bad, format!("profile:{prof}"), format!("profile {prof} aborts on panic: nothing is contained"), "Cargo.toml", 1);
    }
    let gs = r.structs.iter().find(|s| s.name == "GlobalStateSnapshot");
    match gs {
        None => rep.problem("GlobalStateSnapshot not found"),
        Some(s) => {
            let uses = r.file(&s.file).map(|f| f.src.clone()).unwrap_or_default();
            let std_lock = uses.lines().any(|l| l.trim_start().starts_with("use std::sync") && (l.contains("RwLock") || l.contains("Mutex")));
            rep.ob(!std_lock, "snapshot:poison", "the snapshot shares a std lock: a panicking handler poisons it for every later request", &s.file, 1);
        }
    }
    rep
}

/// L03: answers before the workspace is loaded, and after shutdown
pub fn l03(r: &Repo, _t: bool) -> Report {
    let mut rep = Report::new("readiness traces: pool handlers run only after the file system is loaded; nothing runs after shutdown.");
    let all = dispatch_traces(r, &mut rep);
    // which methods are used for language requests by on_request
    let Some((f0, paths, it0)) = request_chain(r, "on_request") else {
        rep.problem("GlobalState::on_request not found");
        return rep;
    };
    let mut used: std::collections::BTreeMap<String, Vec<String>> = Default::default();
    // the request that sets the flag always sets it
    let mut sets = 0;
    if let Some((p, h)) = paths.iter().find_map(|p| p.st.events.iter().find(|e| e.name.starts_with("dispatch:") && it0.show(&e.args[0]).contains("Shutdown")).map(|e| (p, e.args[2].clone()))) {
        let me = it0.sym("server", vec![]);
        for q in clo_paths(&it0, &p.st, &h, vec![me, V::Unit]) {
            sets += 1;
            let v = heap_of(&it0, &q.st, "server.shutdown_requested").map(|v| norm(&it0, &q.st, &v));
            rep.ob(v == Some(V::Bool(true)), "shutdown:set", "a shutdown request does not always make the server refuse what follows", &f0.file, f0.line);
        }
    }
    rep.floor("paths of the shutdown handler", sets, 1);
    for p in &paths {
        let mut shut: Option<bool> = None;
        for (t, f) in p.st.facts.iter() {
            if it0.show(&V::Sym(*t)).ends_with("shutdown_requested") {
                if let Fact::Bool(b) = f {
                    shut = Some(*b)
                }
            }
        }
        let ds: Vec<&Ev> = p.st.events.iter().filter(|e| e.name.starts_with("dispatch:") && &*e.name != "dispatch:finish").collect();
        let consumed = p.st.events.iter().any(|e| &*e.name == "consumed");
        for e in &ds {
            let v = used.entry(e.name.trim_start_matches("dispatch:").to_string()).or_default();
            let t = it0.show(&e.args[0]);
            if !v.contains(&t) {
                v.push(t);
            }
        }
        if shut == Some(true) && !consumed {
            let ok = ds.iter().all(|e| it0.show(&e.args[0]).contains("Shutdown"));
            rep.ob(ok, "shutdown:dispatch", "a request that arrives after shutdown is still dispatched to its handler", &f0.file, f0.line);
            let rs: Vec<&Ev> = p.st.events.iter().filter(|e| &*e.name == "respond").collect();
            let ok = rs.len() == 1 && err_code(&it0, &it0.deref(&p.st, &rs[0].args[0])).is_some_and(|c| c.contains("InvalidRequest"));
            rep.ob(ok, "shutdown:answer", "a request that arrives after shutdown is not answered with InvalidRequest", &f0.file, f0.line);
        }
        if shut.is_none() && !consumed && ds.len() > 1 {
            rep.ob(false, "shutdown:unchecked", "requests are dispatched without looking at shutdown_requested", &f0.file, f0.line);
        }
    }
    rep.floor("dispatch methods used", used.len(), 4);
    // formatting and selection ranges need no loaded workspace
    let exempt = |t: &str| t.contains("DocumentFormattingRequest") || t.contains("SelectionRangeRequest") || t.contains("ShutdownRequest");
    let mut checked = 0;
    for (m, tys) in &used {
        if tys.iter().all(|t| exempt(t)) {
            continue;
        }
        let Some((id, _, ps, it)) = all.iter().find(|(id, ..)| r.fns[*id].name == *m) else {
            rep.problem(format!("dispatch method {m} not analysed"));
            continue;
        };
        let f = &r.fns[*id];
        checked += 1;
        let (mut ready, mut not) = (0, 0);
        for (d, p) in ps {
            if d.taken.is_empty() {
                continue;
            }
            let facts: Vec<(String, bool)> = p
                .st
                .facts
                .iter()
                .filter_map(|(t, f)| if let Fact::Bool(b) = f { Some((it.show(&V::Sym(*t)), *b)) } else { None })
                .collect();
            let loaded = facts.iter().find(|(s, _)| s.contains("vfs_initialized_and_loaded")).map(|x| x.1);
            let by_fields = facts.iter().any(|(s, b)| s.ends_with("vfs_synced_once") && *b) && facts.iter().any(|(s, b)| s.ends_with("vfs_sync_in_progress") && !*b);
            let spawned = p.st.events.iter().any(|e| &*e.name == "spawn") || !d.ran.is_empty();
            if spawned {
                ready += 1;
                rep.ob(loaded == Some(true) || by_fields, format!("{}:unready", f.qual()), format!("{m} ({}) starts its handler while the file system is still loading", tys.join(", ")), &f.file, f.line);
            } else if loaded == Some(false) {
                not += 1;
                for (a, line) in &d.answers {
                    let s = it.show(&it.deref(&p.st, a));
                    rep.ob(s.contains("new_ok") || s.contains("InvalidParams"), format!("{}:unready-answer", f.qual()), format!("{m}: not ready is answered with `{s}`"), &f.file, *line);
                }
            }
        }
        rep.ob(ready > 0, format!("{}:ready", f.qual()), format!("{m} never starts its handler"), &f.file, f.line);
        rep.ob(not > 0, format!("{}:not-ready", f.qual()), format!("{m} has no answer while the file system is loading"), &f.file, f.line);
    }
    rep.floor("gated dispatch methods", checked, 3);
    // the readiness predicate itself
    match state_method(r, "vfs_initialized_and_loaded") {
        None => rep.problem("GlobalState::vfs_initialized_and_loaded not found"),
        Some(f) => {
            let t = trace(r, f.id, None, Cfg::new(|_| false));
            for p in &t.paths {
                for (st, b) in t.it.branch(p.st.clone(), &p.ret) {
                    if !b {
                        continue;
                    }
                    let has = |n: &str, w: bool| st.facts.iter().any(|(t2, f)| t.it.show(&V::Sym(*t2)).ends_with(n) && *f == Fact::Bool(w));
                    rep.ob(has("vfs_synced_once", true) && has("vfs_sync_in_progress", false), "readiness", "the readiness test can hold before the first load has finished or during a load", &f.file, f.line);
                }
            }
        }
    }
    rep
}
