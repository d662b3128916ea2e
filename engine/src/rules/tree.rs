//! The event stream and the tree it becomes.
use super::text::{Lin, lin_of};
use super::trace::*;
use super::util::*;
use crate::absint::*;
use crate::repo::*;
use crate::report::Report;
use std::collections::BTreeMap;
use std::rc::Rc;

pub fn strukt(n: &str, f: Vec<(&str, V)>) -> V {
    V::Struct(Rc::from(n), Rc::new(f.into_iter().map(|(k, v)| (k.to_string(), v)).collect::<BTreeMap<_, _>>()))
}
pub fn ctor0(n: &str) -> V {
    V::Ctor(Rc::from(n), Rc::new(vec![]))
}
pub fn field(v: &V, n: &str) -> Option<V> {
    match v {
        V::Struct(_, m) => m.get(n).cloned(),
        _ => None,
    }
}
fn list(v: Vec<V>) -> V {
    V::List(Rc::new(v))
}
/// run a `&mut self` method on a known struct: the paths with the struct as it is left behind
pub fn run_self<'r>(it: &Interp<'r, Trace<'r>>, id: FnId, me: V, mut rest: Vec<V>) -> Vec<(PathR, V)> {
    let mut st: St<TW> = St::new(TW::default());
    let c = st.alloc(me);
    let mut a = vec![V::Ref(Place::Cell(c, vec![]))];
    a.append(&mut rest);
    run_st(it, id, Some(a), st)
        .into_iter()
        .map(|p| {
            let s = it.deref(&p.st, &V::Ref(Place::Cell(c, vec![])));
            (p, s)
        })
        .collect()
}
fn bfact(it: &Interp<Trace>, st: &St<TW>, txt: &str) -> Option<bool> {
    st.facts.iter().find_map(|(t, f)| match f {
        Fact::Bool(b) if cfull(it, &V::Sym(*t)) == txt => Some(*b),
        _ => None,
    })
}

const SINK: &str = "parse/text_tree_sink.rs";
const N: usize = 4;

/// every built-in token leaves the text in order, whole, once
struct Emitted {
    /// raw tokens covered so far
    upto: usize,
    seq: Vec<(String, usize, V, usize)>,
    bad: Option<String>,
}
fn emitted(it: &Interp<Trace>, p: &PathR, from: usize) -> Emitted {
    let mut e = Emitted { upto: from, seq: vec![], bad: None };
    for ev in p.st.events.iter() {
        let n = last(&ev.name);
        let a: Vec<V> = ev.args.iter().map(|x| it.deref(&p.st, x)).collect();
        if a.first().map(|x| cfull(it, x)) != Some("builder".into()) {
            continue;
        }
        match n {
            "token" => {
                let (o, ra) = op(it, &a[2]);
                if o != "[]" || cfull(it, &ra[0]) != "text" {
                    e.bad = Some(format!("builds a token from {} instead of a piece of the source text", cfull(it, &a[2])));
                    return e;
                }
                let (ro, rr) = op(it, &ra[1]);
                let start = |e: &Emitted| (0..e.upto).fold(Lin::atom("P".into()), |l, k| l.add(&Lin::atom(format!("t{k}.len")), 1));
                let (lo, len) = match last(&ro) {
                    "at" if rr.len() == 2 => (lin_of(it, &p.st, &rr[0]), lin_of(it, &p.st, &rr[1])),
                    "new" if rr.len() == 2 => {
                        let lo = lin_of(it, &p.st, &rr[0]);
                        (lo.clone(), lin_of(it, &p.st, &rr[1]).sub(&lo))
                    }
                    _ => {
                        e.bad = Some(format!("cannot read the range {}", cfull(it, &ra[1])));
                        return e;
                    }
                };
                let want = start(&e);
                if !lo.sub(&want).is_zero() {
                    e.bad = Some(format!("a token is taken from offset {} where the text built so far ends at {}", lo.show(), want.show()));
                    return e;
                }
                let mut acc = Lin::int(0);
                let mut k = e.upto;
                while k < N && !acc.sub(&len).is_zero() {
                    acc = acc.add(&Lin::atom(format!("t{k}.len")), 1);
                    k += 1;
                }
                if k == e.upto || !acc.sub(&len).is_zero() {
                    e.bad = Some(format!("a token of length {} does not cover whole raw tokens from number {}", len.show(), e.upto));
                    return e;
                }
                e.seq.push(("token".into(), k - e.upto, a[1].clone(), ev.line));
                e.upto = k;
            }
            "start_node" | "finish_node" | "error" => e.seq.push((n.to_string(), 0, a.get(1).cloned().unwrap_or(V::Unit), ev.line)),
            "finish_raw" => {}
            x => e.bad = Some(format!("unexpected builder call {x}")),
        }
    }
    e
}

fn sink(r: &Repo, rep: &mut Report) {
    let states = ["PendingStart", "Normal", "PendingFinish"];
    for name in ["token", "start_node", "finish_node", "error", "finish"] {
        let Some(f) = need(r, rep, SINK, Some("TextTreeSink"), name) else { continue };
        let site = (f.file.as_str(), f.line);
        for state in states {
            let cfg = Cfg::new(|g: &FnInfo| g.file.ends_with(SINK)).unroll(Some(N + 1)).cap(200000);
            let it = Interp::new(r, Trace { cfg, panics: Default::default() });
            let toks: Vec<V> = (0..N).map(|k| it.sym(&format!("t{k}"), vec![])).collect();
            // starting part-way, as after some tokens were built
            let me = strukt(
                "TextTreeSink",
                vec![
                    ("text", it.sym("text", vec![])),
                    ("tokens", list(toks)),
                    ("text_pos", it.sym("P", vec![])),
                    ("token_pos", V::Int(0)),
                    ("state", ctor0(state)),
                    ("tree_builder", it.sym("builder", vec![])),
                ],
            );
            let kind = it.sym("K", vec![]);
            let runs: Vec<(Vec<V>, usize)> = match name {
                "token" => vec![(vec![kind.clone(), V::Int(1)], 1), (vec![kind.clone(), V::Int(2)], 2), (vec![kind.clone(), V::Int(3)], 3)],
                "start_node" => vec![(vec![kind.clone()], 0)],
                "error" => vec![(vec![it.sym("msg", vec![])], 0)],
                _ => vec![(vec![], 0)],
            };
            for (args, n) in runs {
                let res = run_self(&it, f.id, me.clone(), args);
                if !it.overflow.borrow().is_empty() {
                    rep.problem(format!("sink {name}: {:?}", it.overflow.borrow()));
                }
                // before the first node only a node may be started
                let legal = match (name, state) {
                    ("start_node", _) | ("error", _) => true,
                    ("finish", s) => s == "PendingFinish",
                    (_, s) => s != "PendingStart",
                };
                let res: Vec<_> = if legal { res } else { vec![] };
                rep.floor(&format!("paths of {name} in {state}/{n}"), res.len(), legal as usize);
                for (p, me) in res {
                    let e = emitted(&it, &p, 0);
                    let key = |w: &str| format!("{name}:{w}");
                    rep.ob(e.bad.is_none(), key("text"), format!("{name}: {}", e.bad.clone().unwrap_or_default()), site.0, site.1);
                    if e.bad.is_some() {
                        continue;
                    }
                    // `finish` consumes the sink
                    if name != "finish" {
                        let want = (0..e.upto).fold(Lin::atom("P".into()), |l, k| l.add(&Lin::atom(format!("t{k}.len")), 1));
                        let got = field(&me, "text_pos").map(|v| lin_of(&it, &p.st, &v)).unwrap_or(Lin::int(-1));
                        rep.ob(got.sub(&want).is_zero(), key("text_pos"), format!("{name} leaves the text position at {} after building text up to {}", got.show(), want.show()), site.0, site.1);
                        let got = field(&me, "token_pos");
                        rep.ob(got == Some(V::Int(e.upto as i128)), key("token_pos"), format!("{name} leaves the token position at {:?} after building {} raw tokens", got.map(|g| cfull(&it, &g)), e.upto), site.0, site.1);
                    }
                    let trivia = |k: usize| bfact(&it, &p.st, &format!("t{k}.kind.is_trivia()"));
                    // what is built outside `token`'s own token is trivia, one at a time, under its own kind
                    let mut at = 0;
                    let mains: Vec<usize> = if name == "token" { e.seq.iter().rposition(|s| s.0 == "token").into_iter().collect() } else { vec![] };
                    for (i, s) in e.seq.iter().enumerate() {
                        if s.0 != "token" {
                            continue;
                        }
                        if mains.contains(&i) {
                            rep.ob(s.1 == n && cfull(&it, &s.2) == "K", key("main"), format!("token(kind, {n}) builds a token of {} raw tokens under {}", s.1, cfull(&it, &s.2)), site.0, site.1);
                            rep.ob(trivia(at) == Some(false), key("main-trivia"), "the token built is made of trivia".to_string(), site.0, site.1);
                        } else {
                            rep.ob(s.1 == 1 && trivia(at) == Some(true) && cfull(&it, &s.2) == format!("t{at}.kind"), key("trivia"), format!("{name}: a raw token that is not known to be trivia is built as trivia, or under another kind ({})", cfull(&it, &s.2)), site.0, site.1);
                        }
                        at += s.1;
                    }
                    if name == "token" {
                        rep.ob(mains.len() == 1, key("one"), "token() must build its token", site.0, site.1);
                    }
                    // node structure
                    let nodes: Vec<(usize, &str)> = e.seq.iter().enumerate().filter(|(_, s)| s.0 == "start_node" || s.0 == "finish_node").map(|(i, s)| (i, s.0.as_str())).collect();
                    let fin = nodes.iter().filter(|n| n.1 == "finish_node").count();
                    let want_fin = (state == "PendingFinish" && name != "error") as usize;
                    rep.ob(fin == want_fin, key("finish"), format!("{name} in state {state} finishes {fin} nodes; must finish {want_fin}"), site.0, site.1);
                    let starts: Vec<&(String, usize, V, usize)> = e.seq.iter().filter(|s| s.0 == "start_node").collect();
                    let ws = (name == "start_node") as usize;
                    rep.ob(starts.len() == ws && starts.iter().all(|s| cfull(&it, &s.2) == "K"), key("start"), format!("{name} starts {} nodes; must start {ws}", starts.len()), site.0, site.1);
                    if name == "start_node" && want_fin == 1 {
                        let fi = e.seq.iter().position(|s| s.0 == "finish_node");
                        let si = e.seq.iter().position(|s| s.0 == "start_node");
                        rep.ob(fi < si, key("order"), "the node that is over must be finished before the next is started", site.0, site.1);
                    }
                    if name == "token" && want_fin == 1 {
                        let fi = e.seq.iter().position(|s| s.0 == "finish_node");
                        rep.ob(fi == Some(0), key("order"), "a token after a finished node must not end up inside that node", site.0, site.1);
                    }
                    if name == "error" {
                        rep.ob(e.seq.len() == 1, key("error"), "an error is recorded once and builds nothing", site.0, site.1);
                    }
                    if name == "finish" {
                        rep.ob(e.upto == N || trivia(e.upto) == Some(false), key("tail"), format!("finish leaves trailing trivia out of the tree ({} of {N} raw tokens built)", e.upto), site.0, site.1);
                        rep.ob(e.seq.last().is_some_and(|s| s.0 == "finish_node"), key("tail-order"), "the trailing trivia must be inside the root node", site.0, site.1);
                    } else {
                        let want = match name {
                            "token" | "start_node" => "Normal",
                            "finish_node" => "PendingFinish",
                            _ => state,
                        };
                        let got = field(&me, "state").map(|s| cfull(&it, &s)).unwrap_or_default();
                        rep.ob(got == want, key("state"), format!("{name} in {state} leaves the sink in state {got}; must be {want}"), site.0, site.1);
                    }
                }
            }
        }
    }
}

/// the replay of the event list
fn process(r: &Repo, rep: &mut Report) {
    let Some(f) = need(r, rep, "parse/event.rs", None, "process") else { return };
    let t = tr(r, rep, f.id, None, Cfg::new(|g| g.file.ends_with("parse/event.rs") && g.name != "tombstone").cap(100000));
    let it = &t.it;
    rep.floor("paths of process", t.paths.len(), 20);
    let site = (f.file.as_str(), f.line);
    for p in &t.paths {
        // facts by the text of the term
        let mut fx: BTreeMap<String, &Fact> = BTreeMap::new();
        let mut prim: Vec<(String, usize)> = vec![];
        for (tm, fa) in p.st.facts.iter() {
            let v = V::Sym(*tm);
            fx.insert(cfull(it, &v), fa);
            let (o, a) = op(it, &v);
            if o == "[]" && a.len() == 2 && cfull(it, &a[0]) == "events" {
                let (io, ia) = op(it, &a[1]);
                let k = match (&*io, &a[1]) {
                    ("elem", _) => ia.last().and_then(|x| if let V::Int(k) = x { Some(*k as usize) } else { None }),
                    (_, V::Int(k)) => Some(*k as usize + 1),
                    _ => None,
                };
                if let Some(k) = k {
                    prim.push((cfull(it, &v), k));
                }
            }
        }
        prim.sort_by_key(|x| x.1);
        prim.dedup();
        let mut want: Vec<String> = vec![];
        let is = |fx: &BTreeMap<String, &Fact>, k: &str| -> Option<String> {
            match fx.get(k) {
                Some(Fact::Is(n)) => Some(n.to_string()),
                Some(Fact::Not(_)) => Some("!".into()),
                _ => None,
            }
        };
        let by_lin: BTreeMap<String, String> = p
            .st
            .facts
            .iter()
            .filter_map(|(tm, _)| {
                let v = V::Sym(*tm);
                let (o, a) = op(it, &v);
                (o == "[]" && a.len() == 2 && cfull(it, &a[0]) == "events").then(|| (lin_of(it, &p.st, &a[1]).show(), cfull(it, &v)))
            })
            .collect();
        let mut undecided = None;
        for (x, _) in &prim {
            match is(&fx, x).as_deref() {
                Some("Token") => want.push(format!("token({x}.kind, {x}.n_raw_tokens)")),
                Some("Finish") => want.push("finish_node()".into()),
                Some("Error") => want.push(format!("error({x}.msg)")),
                Some("Start") => {
                    let mut kinds = vec![];
                    let mut cur = x.clone();
                    let mut idx = p.st.facts.iter().find_map(|(tm, _)| {
                        let v = V::Sym(*tm);
                        (cfull(it, &v) == cur).then(|| lin_of(it, &p.st, &op(it, &v).1[1]))
                    });
                    loop {
                        match is(&fx, &format!("{cur}.kind")).as_deref() {
                            Some("TOMBSTONE") => {}
                            Some(_) => kinds.push(format!("start_node({cur}.kind)")),
                            None => {
                                if !fx.contains_key(&format!("{cur}.kind")) {
                                    undecided = Some(format!("{cur}.kind"));
                                }
                            }
                        }
                        // consumed: must not be replayed when its own position comes
                        let gone = heap_of(it, &p.st, &cur).or_else(|| p.st.heap.iter().find(|(t, _)| cfull(it, &V::Sym(**t)) == cur).map(|(_, v)| v.clone()));
                        let gone = gone.map(|v| cfull(it, &v)).unwrap_or_default();
                        rep.ob(gone.contains("tombstone") || gone.contains("TOMBSTONE"), "process:consumed", format!("a start event that was used as a parent stays in the list and is replayed again ({cur})"), site.0, site.1);
                        match is(&fx, &format!("{cur}.forward_parent")).as_deref() {
                            Some("Some") => {
                                let i = idx.take().unwrap_or(Lin::int(0)).add(&Lin::atom(format!("Some#0({cur}.forward_parent)")), 1);
                                match by_lin.get(&i.show()) {
                                    Some(n) => cur = n.clone(),
                                    None => {
                                        undecided = Some(format!("the parent of {cur} is not looked up at its own position plus the recorded distance"));
                                        break;
                                    }
                                }
                                idx = Some(i);
                            }
                            Some(_) => break,
                            None => {
                                undecided = Some(format!("{cur}.forward_parent is not looked at"));
                                break;
                            }
                        }
                    }
                    kinds.reverse();
                    want.extend(kinds);
                }
                o => undecided = Some(format!("event {x} is {o:?}")),
            }
        }
        let got: Vec<String> = p
            .st
            .events
            .iter()
            .filter(|e| e.args.first().map(|a| cfull(it, a)) == Some("sink".into()))
            .map(|e| format!("{}({})", last(&e.name), e.args[1..].iter().map(|a| cfull(it, a)).collect::<Vec<_>>().join(", ")))
            .collect();
        rep.ob(undecided.is_none(), "process:chain", format!("replay of events: {}", undecided.clone().unwrap_or_default()), site.0, site.1);
        if undecided.is_none() {
            rep.ob(got == want, "process:replay", format!("replay gives {got:?} where the events say {want:?}").chars().take(500).collect::<String>(), site.0, site.1);
        }
    }
    // every position of the list is visited, in order
    let over: Vec<String> = {
        let t = tr(r, rep, f.id, None, Cfg::new(|_| false).loops().unroll(Some(1)).cap(100000));
        t.paths.iter().flat_map(|p| p.st.events.iter().filter(|e| &*e.name == "for").map(|e| cfull(&t.it, &e.args[0])).collect::<Vec<_>>()).collect()
    };
    let whiles = t.paths.iter().any(|p| p.st.facts.iter().any(|(x, _)| cfull(&t.it, &V::Sym(*x)) == "<(0, events.len())"));
    rep.ob(whiles || over.iter().any(|o| o == "range:110(0, events.len())"), "process:all", format!("the replay must visit every event from the first to the last; it loops over {over:?}"), site.0, site.1);
}

const PARSER: &str = "parse/parser.rs";
fn ev(name: &str, f: Vec<(&str, V)>) -> V {
    if f.is_empty() { ctor0(name) } else { strukt(name, f) }
}
/// the operations on the event list and the cursor
fn primitives(r: &Repo, rep: &mut Report) {
    let mk = || {
        let cfg = Cfg::new(|g: &FnInfo| g.file.ends_with(PARSER) || (g.file.ends_with("parse/event.rs") && g.name == "tombstone")).unroll(Some(6)).cap(50000);
        Interp::new(r, Trace { cfg, panics: Default::default() })
    };
    let start = |k: V, fp: V| strukt("Start", vec![("kind", k), ("forward_parent", fp)]);
    let none = || ctor0("None");
    let tomb = || start(ctor0("TOMBSTONE"), none());
    let evs_of = |it: &Interp<Trace>, st: &St<TW>, me: &V| -> Vec<String> {
        match field(me, "events").map(|e| it.deref(st, &e)) {
            Some(V::List(l)) => l.iter().map(|x| cfull(it, &it.deref(st, x))).collect(),
            x => vec![format!("{:?}", x.map(|x| cfull(it, &x)))],
        }
    };
    let parser = |it: &Interp<Trace>, evs: Vec<V>| {
        strukt(
            "Parser",
            vec![("events", list(evs)), ("token_source", it.sym("src", vec![])), ("recovery_set_stack", list(vec![])), ("stmt_kind", ctor0("None"))],
        )
    };
    let tok = |it: &Interp<Trace>, k: &str, n: i128| strukt("Token", vec![("kind", it.sym(k, vec![])), ("n_raw_tokens", V::Int(n))]);
    let pops = |p: &PathR| p.st.events.iter().filter(|e| last(&e.name) == "pop_position").count();
    let bumps = |p: &PathR| p.st.events.iter().filter(|e| last(&e.name) == "bump" && e.args.len() == 1).count();
    // do_bump
    if let Some(f) = need(r, rep, PARSER, Some("Parser"), "do_bump") {
        for n in 0..=3i128 {
            let it = mk();
            let me = parser(&it, vec![tomb()]);
            let k = it.sym("K", vec![]);
            let res = run_self(&it, f.id, me, vec![k, V::Int(n)]);
            rep.floor("paths of do_bump", res.len(), 1);
            for (p, me) in res {
                rep.ob(bumps(&p) == n as usize, "do_bump:cursor", format!("consuming {n} raw tokens moves the cursor by {}", bumps(&p)), &f.file, f.line);
                let got = evs_of(&it, &p.st, &me);
                let want = vec![cfull(&it, &tomb()), cfull(&it, &tok(&it, "K", n))];
                rep.ob(got == want, "do_bump:event", format!("consuming {n} raw tokens records {got:?}; must append one token event of {n} raw tokens"), &f.file, f.line);
            }
        }
    }
    // pop_event undoes exactly the last event
    if let Some(f) = need(r, rep, PARSER, Some("Parser"), "pop_event") {
        let it = mk();
        for (e, n) in [(tok(&it, "K", 1), 1), (tok(&it, "K", 2), 2), (tok(&it, "K", 3), 3), (tomb(), 0), (ev("Finish", vec![]), 0), (ev("Error", vec![("msg", it.sym("m", vec![]))]), 0)] {
            let me = parser(&it, vec![tomb(), e.clone()]);
            let res = run_self(&it, f.id, me, vec![]);
            rep.floor("paths of pop_event", res.len(), 1);
            for (p, me) in res {
                let got = evs_of(&it, &p.st, &me);
                rep.ob(got.len() == 1 && pops(&p) == n, "pop_event", format!("undoing {} leaves {} events and moves the cursor back by {}; must be 1 and {n}", cfull(&it, &e), got.len(), pops(&p)), &f.file, f.line);
            }
        }
    }
    // start
    if let Some(f) = need(r, rep, PARSER, Some("Parser"), "start") {
        let it = mk();
        let me = parser(&it, vec![tok(&it, "A", 1), ctor0("Finish")]);
        for (p, me) in run_self(&it, f.id, me, vec![]) {
            let got = evs_of(&it, &p.st, &me);
            let pos = field(&it.deref(&p.st, &p.ret), "pos");
            rep.ob(got.len() == 3 && got[2] == cfull(&it, &tomb()) && pos == Some(V::Int(2)), "start", format!("start() records {got:?} and returns position {:?}; must append an unfinished start event and return its position", pos.map(|p| cfull(&it, &p))), &f.file, f.line);
        }
    }
    // markers
    let marker = |it: &Interp<Trace>, n: i128| strukt("Marker", vec![("pos", V::Int(n)), ("bomb", it.sym("bomb", vec![]))]);
    let cmarker = |it: &Interp<Trace>, n: i128| strukt("CompletedMarker", vec![("pos", V::Int(n)), ("kind", it.sym("CK", vec![]))]);
    let run_m = |rep: &mut Report, f: &FnInfo, mk_me: &dyn Fn(&Interp<Trace>) -> V, evs: &dyn Fn(&Interp<Trace>) -> Vec<V>, rest: &dyn Fn(&Interp<Trace>) -> Vec<V>, chk: &dyn Fn(&Interp<Trace>, &PathR, Vec<String>) -> Result<(), String>| {
        let it = mk();
        let mut st: St<TW> = St::new(TW::default());
        let c = st.alloc(parser(&it, evs(&it)));
        let mut a = vec![mk_me(&it), V::Ref(Place::Cell(c, vec![]))];
        a.extend(rest(&it));
        let res = run_st(&it, f.id, Some(a), st);
        rep.floor(&format!("paths of {}", f.name), res.len(), 1);
        for p in res {
            let me = it.deref(&p.st, &V::Ref(Place::Cell(c, vec![])));
            let got = evs_of(&it, &p.st, &me);
            if let Err(e) = chk(&it, &p, got) {
                rep.viol(format!("{}::{}", f.self_ty.clone().unwrap_or_default(), f.name), e, &f.file, f.line);
            } else {
                rep.ob(true, String::new(), String::new(), &f.file, f.line);
            }
        }
    };
    let evs4 = |it: &Interp<Trace>| vec![tok(it, "A", 1), tomb(), tok(it, "B", 2), start(it.sym("N", vec![]), none()), tok(it, "C", 1), ctor0("Finish")];
    let text = |it: &Interp<Trace>, v: Vec<V>| v.iter().map(|x| cfull(it, x)).collect::<Vec<_>>();
    let must = |got: Vec<String>, want: Vec<String>| if got == want { Ok(()) } else { Err(format!("leaves the events {got:?}; must leave {want:?}")) };
    if let Some(f) = need(r, rep, PARSER, Some("Marker"), "complete") {
        run_m(rep, f, &|it| marker(it, 1), &evs4, &|it| vec![it.sym("K", vec![])], &|it, p, got| {
            let mut w = evs4(it);
            w[1] = start(it.sym("K", vec![]), none());
            w.push(ctor0("Finish"));
            must(got, text(it, w))?;
            let rv = it.deref(&p.st, &p.ret);
            (field(&rv, "pos") == Some(V::Int(1)) && field(&rv, "kind").map(|k| cfull(it, &k)) == Some("K".into())).then_some(()).ok_or("the completed marker must carry the node's position and kind".into())
        });
    }
    if let Some(f) = need(r, rep, PARSER, Some("Marker"), "abandon") {
        run_m(rep, f, &|it| marker(it, 1), &evs4, &|_| vec![], &|it, p, got| {
            must(got, text(it, evs4(it)))?;
            (pops(p) == 0).then_some(()).ok_or("abandoning a node must not move the cursor".into())
        });
        let e = |it: &Interp<Trace>| vec![tok(it, "A", 1), tomb()];
        run_m(rep, f, &|it| marker(it, 1), &e, &|_| vec![], &|it, p, got| {
            // left in place it would be replayed as nothing, too
            if got != text(it, e(it)) {
                must(got, text(it, vec![tok(it, "A", 1)]))?;
            }
            (pops(p) == 0).then_some(()).ok_or("abandoning a node must not move the cursor".into())
        });
    }
    if let Some(f) = need(r, rep, PARSER, Some("Marker"), "abandon_with_rollback") {
        run_m(rep, f, &|it| marker(it, 1), &evs4, &|_| vec![], &|it, p, got| {
            must(got, text(it, evs4(it)[..1].to_vec()))?;
            (pops(p) == 3).then_some(()).ok_or(format!("the cursor goes back by {}; three raw tokens were consumed since the node was opened", pops(p)))
        });
        let e = |it: &Interp<Trace>| vec![tok(it, "A", 1), tomb()];
        run_m(rep, f, &|it| marker(it, 1), &e, &|_| vec![], &|it, p, got| {
            must(got, text(it, vec![tok(it, "A", 1)]))?;
            (pops(p) == 0).then_some(()).ok_or("nothing was consumed: the cursor must stay".into())
        });
    }
    if let Some(f) = need(r, rep, PARSER, Some("CompletedMarker"), "abandon_with_rollback") {
        // everything after the given event goes
        run_m(rep, f, &|it| cmarker(it, 3), &evs4, &|_| vec![V::Int(1)], &|it, p, got| {
            must(got, text(it, evs4(it)[..2].to_vec()))?;
            (pops(p) == 3).then_some(()).ok_or(format!("the cursor goes back by {}; three raw tokens were consumed", pops(p)))
        });
    }
    if let Some(f) = need(r, rep, PARSER, Some("CompletedMarker"), "precede") {
        run_m(rep, f, &|it| cmarker(it, 3), &evs4, &|_| vec![], &|it, p, got| {
            let mut w = evs4(it);
            w[3] = start(it.sym("N", vec![]), V::Ctor(Rc::from("Some"), Rc::new(vec![V::Int(3)])));
            w.push(tomb());
            must(got, text(it, w))?;
            (field(&it.deref(&p.st, &p.ret), "pos") == Some(V::Int(6))).then_some(()).ok_or("precede must return a marker for the new start event".into())
        });
    }
    if let Some(f) = need(r, rep, PARSER, Some("CompletedMarker"), "extend_to") {
        run_m(rep, f, &|it| cmarker(it, 3), &evs4, &|it| vec![marker(it, 1)], &|it, p, got| {
            let mut w = evs4(it);
            w[1] = start(ctor0("TOMBSTONE"), V::Ctor(Rc::from("Some"), Rc::new(vec![V::Int(2)])));
            must(got, text(it, w))?;
            (field(&it.deref(&p.st, &p.ret), "pos") == Some(V::Int(3))).then_some(()).ok_or("extend_to must return the completed node".into())
        });
    }
    // consuming whatever is there
    for name in ["bump_any", "bump_remap", "bump_remap_many"] {
        let Some(f) = need(r, rep, PARSER, Some("Parser"), name) else { continue };
        let it = Interp::new(r, Trace { cfg: Cfg::new(|g: &FnInfo| g.file.ends_with(PARSER) && g.name != "do_bump"), panics: Default::default() });
        let mut args = vec![it.sym("self", vec![])];
        if name != "bump_any" {
            args.push(it.sym("K", vec![]));
        }
        if name == "bump_remap_many" {
            args.push(it.sym("n", vec![]));
        }
        let res = run(&it, f.id, Some(args));
        rep.floor(&format!("paths of {name}"), res.len(), 2);
        for p in res {
            let cur = p.st.facts.iter().find_map(|(t, fa)| cfull(&it, &V::Sym(*t)).contains("lookahead_nth(0").then_some(fa));
            let eof = matches!(cur, Some(Fact::Is(k)) if &**k == "EOF");
            let neof = matches!(cur, Some(Fact::Not(s)) if s.iter().any(|x| &**x == "EOF"));
            let b = evs(&p, "do_bump");
            if eof {
                rep.ob(b.is_empty(), format!("{name}:eof"), "records a token at the end of the input: there is no text for it", &f.file, f.line);
                continue;
            }
            rep.ob(neof, format!("{name}:guard"), "the end of the input is not checked before a token is recorded", &f.file, f.line);
            let want = match name {
                "bump_remap" => ("K".to_string(), "1".to_string()),
                "bump_remap_many" => ("K".into(), "n".into()),
                _ => (String::new(), "1".into()),
            };
            let ok = b.len() == 1 && {
                let (k, n) = (cfull(&it, &b[0].args[1]), cfull(&it, &b[0].args[2]));
                n == want.1 && (k == want.0 || name == "bump_any" && k.contains("lookahead_nth(0") && k.ends_with(".kind"))
            };
            rep.ob(ok, format!("{name}:one"), format!("{name} must consume exactly what it was asked to, once"), &f.file, f.line);
        }
    }
}

const SRC: &str = "parse/text_token_source.rs";
fn source(r: &Repo, rep: &mut Report) {
    let me = |it: &Interp<Trace>, eof: bool| {
        let cur = V::Tuple(Rc::new(vec![strukt("Token", vec![("kind", if eof { ctor0("EOF") } else { ctor0("IDENT") }), ("is_jointed_to_next", it.sym("j", vec![]))]), it.sym("I", vec![])]));
        strukt("TextTokenSource", vec![("text", it.sym("text", vec![])), ("raw_tokens_with_offsets", it.sym("toks", vec![])), ("curr", cur)])
    };
    let mk = || Interp::new(r, Trace { cfg: Cfg::new(|g: &FnInfo| g.file.ends_with(SRC) && g.name != "token_at_pos"), panics: Default::default() });
    for (name, eof, d) in [("bump", false, 1), ("bump", true, 0), ("pop_position", false, -1), ("pop_position", true, -1)] {
        let Some(f) = need(r, rep, SRC, Some("TextTokenSource"), name) else { continue };
        let it = mk();
        let res = run_self(&it, f.id, me(&it, eof), vec![]);
        rep.floor(&format!("paths of {name}"), res.len(), 1);
        for (p, m) in res {
            let cur = field(&m, "curr").map(|c| it.deref(&p.st, &c));
            let Some(V::Tuple(c)) = cur else {
                rep.problem(format!("{name}: the cursor is not a pair"));
                continue;
            };
            let pos = lin_of(&it, &p.st, &c[1]).sub(&Lin::atom("I".into()));
            rep.ob(pos.konst() == Some(d), format!("source:{name}"), format!("{name} moves the cursor by {}; must be {d}{}", pos.show(), if eof { " at the end of the input" } else { "" }), &f.file, f.line);
            if d != 0 {
                let (o, a) = op(&it, &it.deref(&p.st, &c[0]));
                let ok = last(&o) == "token_at_pos" && a.len() == 2 && lin_of(&it, &p.st, &a[0]).sub(&Lin::atom("I".into())).konst() == Some(d) && cfull(&it, &a[1]) == "toks";
                rep.ob(ok, format!("source:{name}:token"), format!("after {name} the current token is {}", cfull(&it, &c[0])), &f.file, f.line);
            }
        }
    }
    if let Some(f) = need(r, rep, SRC, Some("TextTokenSource"), "lookahead_nth") {
        let it = mk();
        let n = it.sym("n", vec![]);
        for (p, _) in run_self(&it, f.id, me(&it, false), vec![n]) {
            let (o, a) = op(&it, &it.deref(&p.st, &p.ret));
            let ok = last(&o) == "token_at_pos" && a.len() == 2 && lin_of(&it, &p.st, &a[0]).sub(&Lin::atom("I".into())).sub(&Lin::atom("n".into())).is_zero() && cfull(&it, &a[1]) == "toks";
            rep.ob(ok, "source:lookahead", format!("looking n tokens ahead gives {}", cfull(&it, &p.ret)), &f.file, f.line);
        }
    }
    // jointness
    if let Some(f) = need(r, rep, SRC, None, "token_at_pos") {
        let it = mk();
        let x = |i: usize| V::Tuple(Rc::new(vec![it.sym(&format!("t{i}"), vec![]), it.sym(&format!("o{i}"), vec![])]));
        for k in 0..3usize {
            let toks = list((0..2).map(x).collect());
            for p in run(&it, f.id, Some(vec![V::Int(k as i128), toks])) {
                let rv = it.deref(&p.st, &p.ret);
                let kind = field(&rv, "kind").map(|v| cfull(&it, &it.deref(&p.st, &v))).unwrap_or_default();
                let joint = field(&rv, "is_jointed_to_next").map(|v| it.deref(&p.st, &v));
                let want = if k < 2 { format!("t{k}.kind") } else { "EOF".into() };
                rep.ob(kind == want, "source:kind", format!("token {k} of two has kind {kind}; must be {want}"), &f.file, f.line);
                // o0 + t0.len == o1
                let adj = p.st.facts.iter().find_map(|(t, fa)| {
                    let (o, a) = op(&it, &V::Sym(*t));
                    let Fact::Bool(b) = fa else { return None };
                    if a.len() != 2 || !matches!(&*o, "==" | "!=") {
                        return None;
                    }
                    let d = lin_of(&it, &p.st, &a[0]).sub(&lin_of(&it, &p.st, &a[1]));
                    let w = Lin::atom("o0".into()).add(&Lin::atom("t0.len".into()), 1).sub(&Lin::atom("o1".into()));
                    (d.sub(&w).is_zero() || d.add(&w, 1).is_zero()).then_some(*b == (o == "=="))
                });
                let ok = match (k, &joint) {
                    (0, Some(V::Bool(b))) => adj == Some(*b),
                    (0, Some(v)) => {
                        let (o, a) = op(&it, v);
                        o == "==" && a.len() == 2 && {
                            let d = lin_of(&it, &p.st, &a[0]).sub(&lin_of(&it, &p.st, &a[1]));
                            let w = Lin::atom("o0".into()).add(&Lin::atom("t0.len".into()), 1).sub(&Lin::atom("o1".into()));
                            d.sub(&w).is_zero() || d.add(&w, 1).is_zero()
                        }
                    }
                    (_, Some(V::Bool(b))) => !*b,
                    _ => false,
                };
                rep.ob(ok, "source:joint", format!("token {k} of two is said to be joined to the next: {:?}; a token is joined iff the next one starts where it ends", joint.map(|j| cfull(&it, &j))), &f.file, f.line);
            }
        }
    }
    // what the cursor runs over: all tokens but the trivia, each with its own offset
    if let Some(f) = need(r, rep, SRC, Some("TextTokenSource"), "new") {
        let it = mk();
        let toks = list((0..3).map(|i| it.sym(&format!("t{i}"), vec![])).collect());
        let res = run(&it, f.id, Some(vec![it.sym("text", vec![]), toks]));
        rep.floor("paths of TextTokenSource::new", res.len(), 8);
        for p in res {
            let rv = it.deref(&p.st, &p.ret);
            let mut want = vec![];
            let mut known = true;
            let mut off = Lin::int(0);
            for k in 0..3 {
                match bfact(&it, &p.st, &format!("t{k}.kind.is_trivia()")) {
                    Some(true) => {}
                    Some(false) => want.push(format!("t{k}@{}", off.show())),
                    None => known = false,
                }
                off = off.add(&Lin::atom(format!("t{k}.len")), 1);
            }
            rep.ob(known, "source:filter", "whether a token reaches the parser must depend on its being trivia", &f.file, f.line);
            let got: Vec<String> = match field(&rv, "raw_tokens_with_offsets").map(|l| it.deref(&p.st, &l)) {
                Some(V::List(l)) => l
                    .iter()
                    .map(|e| match it.deref(&p.st, e) {
                        V::Tuple(a) => format!("{}@{}", cfull(&it, &a[0]), lin_of(&it, &p.st, &a[1]).show()),
                        v => cfull(&it, &v),
                    })
                    .collect(),
                v => vec![format!("{:?}", v.map(|v| cfull(&it, &v)))],
            };
            if known {
                rep.ob(got == want, "source:offsets", format!("the parser sees {got:?}; must see {want:?}"), &f.file, f.line);
            }
            let txt = field(&rv, "text").map(|v| cfull(&it, &norm(&it, &p.st, &v))).unwrap_or_default();
            rep.ob(txt == "text", "source:text", format!("the token texts come from {txt}"), &f.file, f.line);
        }
    }
    // texts
    for (name, args, d) in [("nth_text", 1, "n"), ("current_text", 0, "0"), ("is_keyword", 2, "0")] {
        let Some(f) = need(r, rep, SRC, Some("TextTokenSource"), name) else { continue };
        let it = mk();
        let toks = list((0..3).map(|i| V::Tuple(Rc::new(vec![it.sym(&format!("t{i}"), vec![]), it.sym(&format!("o{i}"), vec![])]))).collect());
        let V::Struct(n, m) = me(&it, false) else { continue };
        let mut m = (*m).clone();
        m.insert("raw_tokens_with_offsets".into(), toks);
        m.insert("curr".into(), V::Tuple(Rc::new(vec![it.sym("c", vec![]), V::Int(1)])));
        let _ = d;
        let (a, k) = match args {
            1 => (vec![V::Int(1)], 2),
            2 => (vec![it.sym("kw", vec![])], 1),
            _ => (vec![], 1),
        };
        let piece = format!("[](text, TextRange::at(o{k}, t{k}.len))");
        for (p, _) in run_self(&it, f.id, V::Struct(n, Rc::new(m)), a) {
            let got = cfull(&it, &it.deref(&p.st, &p.ret));
            let ok = match args {
                2 => {
                    let f = bfact(&it, &p.st, &format!("==({piece}, kw)")).or(bfact(&it, &p.st, &format!("==(kw, {piece})")));
                    got == format!("==({piece}, kw)") || got == format!("==(kw, {piece})") || f.is_some() && got == f.unwrap().to_string()
                }
                _ => got == piece,
            };
            rep.ob(ok, format!("source:{name}"), format!("{name} gives {got}; must be taken from the text of token {k}, {piece}"), &f.file, f.line);
        }
    }
}

fn driver(r: &Repo, rep: &mut Report) {
    let Some(f) = need(r, rep, "syntax/src/parse.rs", None, "parse_text") else { return };
    let t = tr(r, rep, f.id, None, Cfg::new(|g| g.file.ends_with("syntax/src/parse.rs")));
    rep.floor("paths of parse_text", t.paths.len(), 1);
    for p in &t.paths {
        let c = |v: &V| cfull(&t.it, &norm(&t.it, &p.st, v));
        let toks = "lexer::tokenize(text).0";
        let alt = "text.tokenize().0";
        let okt = |s: &str| s == toks || s == alt;
        for what in ["TextTokenSource", "TextTreeSink"] {
            let e: Vec<&Ev> = p.st.events.iter().filter(|e| *e.name == *format!("{what}::new")).collect();
            let ok = e.len() == 1 && c(&e[0].args[0]) == "text" && okt(&c(&e[0].args[1]));
            rep.ob(ok, format!("driver:{what}"), format!("{what} must work on the text and on the tokens lexed from it; got {:?}", e.iter().map(|e| e.args.iter().map(&c).collect::<Vec<_>>()).collect::<Vec<_>>()), &f.file, f.line);
        }
        let fin = evs(p, "process");
        rep.ob(fin.len() == 1, "driver:replay", "the events must be replayed exactly once", &f.file, f.line);
        let order: Vec<Option<usize>> = ["apply", "process"].iter().map(|n| ev_pos(p, n)).chain([p.st.events.iter().rposition(|e| last(&e.name) == "finish")]).collect();
        rep.ob(order.iter().all(|o| o.is_some()) && order.windows(2).all(|w| w[0] < w[1]), "driver:order", format!("parsing, replay and finish must follow one another: {order:?}"), &f.file, f.line);
        // both kinds of error are reported
        let merged = p.st.events.iter().any(|e| matches!(last(&e.name), "extend" | "append" | "chain") && e.args.iter().any(|a| c(a).contains(".finish().1") || c(a).contains("finish_raw")) && e.args.iter().any(|a| c(a).ends_with("tokenize(text).1") || c(a).ends_with("tokenize().1")));
        rep.ob(merged, "driver:errors", "errors found by the lexer and by the parser must both be returned", &f.file, f.line);
    }
}

/// S06: the tree holds the text of the file, whole and in order
pub fn s06(r: &Repo, _t: bool) -> Report {
    let mut rep = Report::new(
        "Path-sensitive abstract interpretation of the parser's event list, cursor and tree builder: every operation is decided over symbolic tokens (each either trivia or not) against what it must leave behind — text and token positions that advance together over whole raw tokens, one token event per consumption, rollback that undoes exactly what was recorded, replay in nesting order.",
    );
    sink(r, &mut rep);
    process(r, &mut rep);
    primitives(r, &mut rep);
    source(r, &mut rep);
    driver(r, &mut rep);
    // nothing is left over: the parser stops only at the end of the input
    let g = super::parser_rules::result(r);
    rep.floor("entry points", g.root_exits.len(), 1);
    for (f, ks) in &g.root_exits {
        let f = &r.fns[*f];
        rep.ob(ks.len() == 1 && ks[0] == "EOF", format!("entry:{}", f.name), format!("{} may return with input left: the current token can be {}", f.qual(), ks.iter().take(6).cloned().collect::<Vec<_>>().join(", ")), &f.file, f.line);
    }
    rep.assume("rowan's tree builder keeps the tokens it is given, in order");
    rep
}
