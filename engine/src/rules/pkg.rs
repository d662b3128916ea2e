//! Packages: which manifests are read, what the package graph says, what is loaded and watched.
use super::trace::*;
use super::util::*;
use crate::absint::*;
use crate::repo::*;
use crate::report::Report;
use std::collections::BTreeMap;
use std::rc::Rc;

const NEW: &[&str] = &["HashSet", "HashMap", "VecDeque", "BTreeSet", "BTreeMap", "FxHashMap", "FxHashSet", "IndexSet", "IndexMap"];
fn trd<'r>(r: &'r Repo, rep: &mut Report, id: FnId, cfg: Cfg<'r>) -> Traced<'r, 'r> {
    let t = tr(r, rep, id, None, cfg);
    if std::env::var("SA_DUMP").is_ok_and(|x| x == r.fns[id].name) {
        t.dump();
    }
    t
}
fn int(k: usize) -> V {
    V::Int(k as i128)
}
/// collections made here are told apart by where they are made
pub fn coll_new(it: &Interp<Trace>, st: &St<TW>, segs: &[String], args: &[V], line: usize) -> Option<Out<TW>> {
    let n = segs.len();
    if n >= 2 && args.len() <= 1 && NEW.contains(&segs[n - 2].as_str()) && matches!(segs[n - 1].as_str(), "new" | "default" | "with_capacity") {
        return Some(vec![(st.clone(), Flow::Val(it.sym("coll", vec![int(line)])))]);
    }
    None
}
/// the elements of an unknown collection, on paths for each number of them
pub fn elements(it: &Interp<Trace>, st: &St<TW>, recv: &V, max: usize) -> Vec<(St<TW>, Vec<V>)> {
    let mut out = vec![];
    let mut live = vec![(st.clone(), Vec::<V>::new())];
    for k in 1..=max {
        let mut next = vec![];
        for (s, l) in live {
            let has = it.sym("has", vec![recv.clone(), int(k)]);
            for (s, b) in it.branch(s, &has) {
                if !b {
                    out.push((s, l.clone()));
                } else {
                    let mut l = l.clone();
                    l.push(it.sym("elem", vec![recv.clone(), int(0), int(k)]));
                    next.push((s, l));
                }
            }
        }
        live = next;
    }
    out.extend(live);
    out
}
/// iterating over an unknown collection: up to `max` elements, told apart by position; taking from
/// a worklist: an event that carries what was taken
pub fn coll(it: &Interp<Trace>, cx: &Rc<Cx>, st: &St<TW>, c: &MCall, max: usize) -> Option<Out<TW>> {
    let recv = it.deref(st, &c.recv);
    if let V::List(l) = &recv {
        if c.name == "flat_map" && c.args.len() == 1 {
            let mut cur = vec![(st.clone(), Vec::<V>::new())];
            let mut rest: Out<TW> = vec![];
            for x in l.iter() {
                let mut nx = vec![];
                for (s, acc) in cur {
                    for (s, f) in it.apply(cx, &c.args[0], vec![x.clone()], s, c.line) {
                        let y = match f {
                            Flow::Val(y) => it.deref(&s, &y),
                            f => {
                                rest.push((s, f));
                                continue;
                            }
                        };
                        let more: Vec<(St<TW>, Vec<V>)> = match &y {
                            V::List(l) => vec![(s, l.to_vec())],
                            V::Ctor(n, a) if matches!(&**n, "Some" | "None" | "Ok") => vec![(s, a.to_vec())],
                            V::Ctor(n, _) if &**n == "Err" => vec![(s, vec![])],
                            y => elements(it, &s, y, max),
                        };
                        for (s, m) in more {
                            let mut acc = acc.clone();
                            acc.extend(m);
                            nx.push((s, acc));
                        }
                    }
                }
                cur = nx;
            }
            rest.extend(cur.into_iter().map(|(s, l)| (s, Flow::Val(V::List(Rc::new(l))))));
            return Some(rest);
        }
        if c.name == "collect" && !l.is_empty() {
            let t = turbofish(c);
            let (opt, name) = if t.starts_with("Option") { (true, "Some") } else { (t.contains("Result<"), "Ok") };
            let is = |n: &str| l.iter().all(|x| matches!(it.deref(st, x), V::Ctor(m, _) if matches!((&*m, n), ("Some" | "None", "Some") | ("Ok" | "Err", "Ok"))));
            if opt && is(name) {
                let bad = l.iter().map(|x| it.deref(st, x)).find(|x| matches!(x, V::Ctor(n, _) if &**n != name));
                let v = bad.unwrap_or_else(|| {
                    let p: Vec<V> = l.iter().filter_map(|x| match it.deref(st, x) { V::Ctor(_, a) => a.first().cloned(), _ => None }).collect();
                    V::Ctor(Rc::from(name), Rc::new(vec![V::List(Rc::new(p))]))
                });
                return Some(vec![(st.clone(), Flow::Val(v))]);
            }
        }
        if matches!(c.name, "sort" | "sort_unstable" | "dedup" | "sort_by" | "sort_by_key" | "reverse" | "dedup_by" | "dedup_by_key") {
            return Some(vec![(st.clone(), Flow::Val(V::Unit))]);
        }
        return None;
    }
    if !matches!(recv, V::Sym(_)) {
        return None;
    }
    if matches!(c.name, "iter" | "into_iter" | "iter_mut" | "keys" | "values" | "into_values" | "into_keys" | "drain") && c.args.is_empty() {
        let proj = match c.name {
            "keys" | "into_keys" => Some("0"),
            "values" | "into_values" => Some("1"),
            _ => None,
        };
        let mut out = vec![];
        for (s, l) in elements(it, st, &recv, max) {
            let l: Vec<V> = match proj {
                Some(p) => l.into_iter().map(|e| it.sym(&format!(".{p}"), vec![e])).collect(),
                None => l,
            };
            out.push((s, Flow::Val(V::List(Rc::new(l)))));
        }
        return Some(out);
    }
    if matches!(c.name, "get" | "insert" | "contains" | "contains_key" | "remove" | "extend" | "file_for_path" | "push" | "push_back") {
        let nm = format!(".{}", c.name);
        let mut s = st.clone();
        let mut a = vec![recv];
        a.extend(c.args.iter().map(|x| it.deref(&s, x)));
        s.event(&nm, a.clone(), 0, c.line);
        let v = if matches!(c.name, "extend" | "push" | "push_back") { V::Unit } else { it.sym(&format!("{nm}()"), a) };
        return Some(vec![(s, Flow::Val(v))]);
    }
    if matches!(c.name, "pop" | "pop_front" | "pop_back" | "pop_first" | "pop_last") && c.args.is_empty() {
        let mut s = st.clone();
        s.w.n += 1;
        let v = it.sym("next", vec![int(s.w.n as usize)]);
        s.event("pop", vec![recv, v.clone()], 0, c.line);
        return Some(vec![(s, Flow::Val(v))]);
    }
    None
}
/// the text of a value, with loop elements named by collection and position only
fn txt(it: &Interp<Trace>, st: &St<TW>, v: &V) -> String {
    canon(&full(it, &norm(it, st, v)))
}
pub fn canon(s: &str) -> String {
    // `, <line>, <k>)` -> `, <k>)`
    let b: Vec<&str> = s.split(", ").collect();
    let mut out: Vec<&str> = vec![];
    for (i, x) in b.iter().enumerate() {
        let num = !x.is_empty() && x.bytes().all(|c| c.is_ascii_digit());
        let next = b.get(i + 1).is_some_and(|n| n.split(')').next().is_some_and(|d| !d.is_empty() && d.len() < n.len() && d.bytes().all(|c| c.is_ascii_digit())));
        if num && next {
            continue;
        }
        out.push(x);
    }
    out.join(", ").replace(".iter()", "").replace(".into_iter()", "").replace(".clone()", "").replace(".cloned()", "").replace(".to_owned()", "")
}
fn has_fact(it: &Interp<Trace>, st: &St<TW>, p: impl Fn(&str) -> bool) -> Option<bool> {
    fact_bool(it, st, |s| p(&canon(s)))
}
fn is_fact(it: &Interp<Trace>, st: &St<TW>, p: impl Fn(&str) -> bool) -> Option<String> {
    fact_is(it, st, |s| p(&canon(s)))
}
/// was `x` found in a set before this point: `contains(x)` or a refused `insert(x)`
fn known(it: &Interp<Trace>, st: &St<TW>, x: &str) -> Option<bool> {
    let c = format!("({x})");
    let i = format!(", {x})");
    let hit = |s: &str, m: &[&str]| m.iter().any(|m| s.contains(&format!(".{m}"))) && (s.ends_with(&c) || s.ends_with(&i)) && s.starts_with("coll(");
    has_fact(it, st, |s| hit(s, &["contains(", "contains_key("]))
        .or_else(|| is_fact(it, st, |s| hit(s, &["get("])).map(|n| n == "Some"))
        .or_else(|| has_fact(it, st, |s| hit(s, &["insert("])).map(|b| !b))
}
struct Iter<'a> {
    /// what was taken
    v: String,
    ev: Vec<&'a Ev>,
}
fn iterations<'a>(it: &Interp<Trace>, p: &'a PathR) -> (Vec<Iter<'a>>, bool) {
    let mut v: Vec<Iter> = vec![];
    let mut done = false;
    for e in p.st.events.iter() {
        if &*e.name == "pop" {
            let n = full(it, &e.args[1]);
            match is_fact(it, &p.st, |s| s == n).as_deref() {
                Some("None") => done = true,
                _ => {
                    done = false;
                    v.push(Iter { v: format!("Some#0({n})"), ev: vec![] })
                }
            }
        } else if !done {
            if let Some(i) = v.last_mut() {
                i.ev.push(e);
            }
        }
    }
    (v, done)
}
/// what an event adds to the collection it is called on
fn pushed(it: &Interp<Trace>, st: &St<TW>, e: &Ev) -> Vec<String> {
    match last(&e.name) {
        "push_back" | "push" | "push_front" if e.args.len() == 2 => vec![txt(it, st, &e.args[1])],
        "extend" | "append" if e.args.len() == 2 => match items(it, st, &e.args[1]) {
            Some(l) => l.iter().map(|x| txt(it, st, x)).collect(),
            None => vec![txt(it, st, &e.args[1])],
        },
        _ => vec![],
    }
}
fn items(it: &Interp<Trace>, st: &St<TW>, v: &V) -> Option<Vec<V>> {
    match it.deref(st, v) {
        V::List(l) => Some(l.to_vec()),
        _ => None,
    }
}
fn field(it: &Interp<Trace>, st: &St<TW>, v: &V, f: &str) -> Option<V> {
    match it.deref(st, v) {
        V::Struct(_, m) => m.get(f).map(|x| it.deref(st, x)),
        V::Ctor(_, a) if a.len() == 1 => field(it, st, &a[0], f),
        V::Sym(_) => None,
        _ => None,
    }
}
fn pkg_cfg<'r>(inline: &'static [&'static str]) -> Cfg<'r> {
    Cfg::new(move |g: &FnInfo| g.module[0] == "project_model" && inline.contains(&g.name.as_str()))
        .chook(|it, _, st, segs, args, line| coll_new(it, st, segs, args, line))
        .coll(2)
        .events(|n| !matches!(last(n), "clone" | "entered" | "to_string" | "iter" | "into_iter"))
        .loops()
}

pub fn d05(r: &Repo, _t: bool) -> Report {
    let mut rep = Report::new("on every path of the package loader: every manifest that can be reached is read once and recorded, every dependency that has a package enters the graph with its own dependencies, and each package's directories are loaded (and watched when local).");
    rep.assume("std collections, walkdir and toml behave as documented; HashMap keys compare as ManifestPath does");
    rep.assume("loops are followed for two iterations, nested ones for two elements each");
    closure(r, &mut rep);
    reachable(r, &mut rep);
    load_all(r, &mut rep);
    graph(r, &mut rep);
    folders(r, &mut rep);
    discover(r, &mut rep);
    rep
}
/// the dependencies of one package, transitively
fn closure(r: &Repo, rep: &mut Report) {
    let Some(f) = need(r, rep, "load_from_fs.rs", None, "collect_deps_transitively") else { return };
    let t = trd(r, rep, f.id, pkg_cfg(&[]).unroll(Some(2)));
    let it = &t.it;
    let mut acc = 0;
    for p in &t.paths {
        let st = &p.st;
        let (its, done) = iterations(it, p);
        let ret: Option<Vec<String>> = items(it, st, &p.ret).map(|l| l.iter().map(|x| txt(it, st, x)).collect());
        let Some(ret) = ret else {
            rep.ob(false, "deps-result", "the collected dependencies are not the list that was built", &f.file, f.line);
            continue;
        };
        rep.ob(done, "deps-all", "the walk over dependencies can stop before the worklist is empty", &f.file, f.line);
        let start = st.events.iter().take_while(|e| &*e.name != "pop").any(|e| e.args.len() > 1 && txt(it, st, &e.args[1]).contains("declared_deps") && matches!(last(&e.name), "extend" | "append" | "push_back" | "push"))
            || st.events.iter().any(|e| last(&e.name) == "from" && e.args.iter().any(|a| txt(it, st, a).contains("declared_deps")))
            || has_fact(it, st, |s| s == "has(declared_deps, 1)") == Some(false);
        rep.ob(start, "deps-start", "the declared dependencies do not start the walk", &f.file, f.line);
        let mut expect = vec![];
        for i in &its {
            let path = format!("{}.0", i.v);
            let seen = known(it, st, &path);
            let entry = is_fact(it, st, |s| s.starts_with("valid_manifest_entries") && s.contains("get(") && s.contains(&format!("{path})")));
            let dup = known_name(it, st, &path);
            let e0 = format!("{path})");
            let grow: Vec<&&Ev> = i
                .ev
                .iter()
                .filter(|e| matches!(last(&e.name), "extend" | "append" | "push_back" | "push" | "push_front") && e.args.iter().skip(1).any(|a| txt(it, st, a).contains(".declared_deps") && txt(it, st, a).contains(&e0)))
                .collect();
            let walked = i.ev.iter().any(|e| matches!(&*e.name, "for") && txt(it, st, &e.args[0]).contains(".declared_deps") && txt(it, st, &e.args[0]).contains(&e0))
                || has_fact(it, st, |s| s.starts_with("has(") && s.contains(".declared_deps") && s.contains(&e0)).is_some()
                || !grow.is_empty();
            let ok = seen != Some(true) && entry.as_deref() == Some("Some") && dup != Some(true);
            if seen != Some(true) {
                let marked = i.ev.iter().any(|e| last(&e.name) == "insert" && e.args.len() == 2 && txt(it, st, &e.args[1]) == path);
                rep.ob(marked, "deps-visited", "a dependency is handled without being marked as visited: a cycle of dependencies is followed forever", &f.file, f.line);
            }
            if ok {
                acc += 1;
                expect.push(i.v.clone());
                rep.ob(walked, "deps-transitive", "the dependencies of a dependency are not followed", &f.file, f.line);
                // an element that was looked at but not queued
                let left = st.facts.iter().any(|(s, fct)| {
                    let s = canon(&full(it, &V::Sym(*s)));
                    s.contains("elem(")
                        && s.contains(".declared_deps")
                        && s.contains(&e0)
                        && !s.starts_with("has(")
                        && !(s.contains("contains(") && matches!(fct, Fact::Bool(true)))
                        && !(s.contains("insert(") && matches!(fct, Fact::Bool(false)))
                        && grow.is_empty()
                });
                rep.ob(!left, "deps-transitive", "a dependency of a dependency is left out", &f.file, f.line);
            } else {
                rep.ob(grow.is_empty(), "deps-only", "dependencies are followed from a manifest that was skipped", &f.file, f.line);
            }
        }
        let got: Vec<String> = ret.clone();
        rep.ob(
            got.len() == expect.len() && expect.iter().all(|x| got.iter().any(|y| y == x || *y == format!("({x}.0, {x}.1)"))),
            "deps-exact",
            format!("dependencies collected are not exactly those that are first seen, have a valid manifest and a name of their own (e.g. {got:?} for {expect:?})"),
            &f.file,
            f.line,
        );
    }
    rep.count("paths of the transitive walk", t.paths.len());
    rep.floor("dependencies accepted by the transitive walk", acc, 3);
}
fn known_name(it: &Interp<Trace>, st: &St<TW>, path: &str) -> Option<bool> {
    let hit = |s: &str| s.starts_with("coll(") && s.contains(".package_name") && s.contains(&format!("{path})"));
    has_fact(it, st, |s| hit(s) && s.contains(".contains(")).or_else(|| has_fact(it, st, |s| hit(s) && s.contains(".insert(")).map(|b| !b))
}
/// what one workspace manifest makes reachable
fn reachable(r: &Repo, rep: &mut Report) {
    let Some(f) = need(r, rep, "load_from_fs.rs", None, "collect_reachable_manifests") else { return };
    let cfg = Cfg::new(move |g: &FnInfo| g.file.ends_with("load_from_fs.rs") && !matches!(g.name.as_str(), "try_find_move_toml_at_root" | "read_manifest_from_fs"))
        .chook(|it, _, st, segs, args, line| coll_new(it, st, segs, args, line))
        .coll(2)
        .events(|n| matches!(last(n), "insert" | "push_back" | "push" | "extend" | "push_front" | "entry" | "remove" | "clear") || n == "pop")
        .unroll(Some(1))
        .cap(60000);
    let t = trd(r, rep, f.id, cfg);
    let it = &t.it;
    let (mut n, mut nd) = (0, 0);
    for p in &t.paths {
        let st = &p.st;
        let (its, done) = iterations(it, p);
        rep.ob(done, "reach-all", "reading manifests can stop before the worklist is empty", &f.file, f.line);
        let ins: Vec<(String, V)> = st.events.iter().filter(|e| last(&e.name) == "insert" && e.args.len() == 3).map(|e| (txt(it, st, &e.args[1]), it.deref(st, &e.args[2]))).collect();
        // the result is the map that was filled
        let recv: Vec<String> = st.events.iter().filter(|e| last(&e.name) == "insert" && e.args.len() == 3).map(|e| txt(it, st, &e.args[0])).collect();
        rep.ob(recv.iter().all(|x| *x == txt(it, st, &p.ret)), "reach-result", "manifests are recorded elsewhere than in the result", &f.file, f.line);
        if let Some(first) = st.events.iter().find(|e| matches!(last(&e.name), "push_back" | "push" | "push_front")) {
            let s = txt(it, st, &first.args[1]);
            rep.ob(s.contains("ws_manifest.move_toml_file") && s.contains("Local") && s.ends_with("ws_manifest.resolve_deps)"), "reach-start", "the walk does not start at the workspace's own manifest, as a local package", &f.file, f.line);
        } else {
            rep.ob(false, "reach-start", "nothing starts the walk", &f.file, f.line);
        }
        for i in &its {
            let path = format!("{}.0", i.v);
            let outer = format!("{}.1", i.v);
            let seen = known(it, st, &path);
            let mine: Vec<&(String, V)> = ins.iter().filter(|x| x.0 == path).collect();
            let pushes: Vec<String> = i.ev.iter().flat_map(|e| pushed(it, st, e)).collect();
            if seen == Some(true) {
                rep.ob(mine.is_empty() && pushes.is_empty(), "reach-once", "a manifest that was already read is handled again", &f.file, f.line);
                continue;
            }
            rep.ob(seen == Some(false), "reach-once", "a manifest is read without asking whether it already was: a cycle of dependencies is followed forever", &f.file, f.line);
            let read = is_fact(it, st, |s| s.contains("read_manifest_from_fs") && s.contains(&path));
            n += 1;
            rep.ob(mine.len() == 1, "reach-record", "a manifest that is reached is not recorded exactly once", &f.file, f.line);
            let Some((_, v)) = mine.first() else { continue };
            let (ctor, _) = op(it, v);
            let ok = ctor == "Ok";
            rep.ob((read.as_deref() == Some("Ok")) == ok, "reach-record", "a manifest that cannot be read must be recorded as an error, one that can as a package", &f.file, f.line);
            if !ok {
                rep.ob(pushes.is_empty(), "reach-record", "dependencies are followed from a manifest that could not be read", &f.file, f.line);
                continue;
            }
            let g = |k: &str| field(it, st, v, k).map(|x| txt(it, st, &x)).unwrap_or_default();
            let toml = format!("Ok#0(load_from_fs::read_manifest_from_fs()({path}))");
            rep.ob(g("kind") == outer, "reach-entry", "a package's kind is not the one it was reached with", &f.file, f.line);
            rep.ob(g("named_addresses").contains("declared_named_addresses") && g("named_addresses").contains(&toml), "reach-entry", "a package's named addresses are not those of its manifest", &f.file, f.line);
            let want = has_fact(it, st, |s| s == format!("{}.2", i.v));
            let deps = field(it, st, v, "declared_deps").and_then(|x| items(it, st, &x)).unwrap_or_default();
            let missing = field(it, st, v, "missing_dependencies").and_then(|x| items(it, st, &x)).unwrap_or_default();
            if want == Some(false) {
                rep.ob(g("resolve_deps") == "false" || g("resolve_deps") == format!("{}.2", i.v), "reach-entry", "resolve_deps is not recorded as asked", &f.file, f.line);
                rep.ob(deps.is_empty() && pushes.is_empty(), "reach-nodeps", "dependencies are resolved for a package that asks not to", &f.file, f.line);
                continue;
            }
            rep.ob(g("resolve_deps") == "true" || g("resolve_deps") == format!("{}.2", i.v), "reach-entry", "resolve_deps is not recorded as asked", &f.file, f.line);
            // elements of the declared dependencies
            let (mut want_deps, mut want_missing) = (0, 0);
            for k in 1..=2 {
                let at = format!(", {k})");
                let here = |s: &str| s.contains("declared_dependencies") && s.contains(&toml);
                let has = has_fact(it, st, |s| s.starts_with("has(") && here(s) && s.ends_with(&at));
                if has != Some(true) {
                    continue;
                }
                nd += 1;
                let el = st.facts.keys().find_map(|x| {
                    let s = canon(&full(it, &V::Sym(*x)));
                    (s.starts_with("has(") && here(&s) && s.ends_with(&at)).then(|| format!("elem({}", &s[4..]))
                });
                let el = el.unwrap_or_default();
                let about = |s: &str| s.contains(&el);
                let root = is_fact(it, st, |s| about(s) && s.contains("dep_root") && !s.contains("try_find"));
                let found = is_fact(it, st, |s| about(s) && s.contains("try_find_move_toml_at_root"));
                let is_git = |what: &str| {
                    st.facts.iter().find_map(|(x, fct)| {
                        let s = canon(&full(it, &V::Sym(*x)));
                        match fct {
                            Fact::Is(n) if s == what => Some(n.ends_with("Git")),
                            Fact::Not(n) if s == what => Some(!n.iter().any(|x| x.ends_with("Git"))),
                            Fact::Bool(b) if s.contains(what) && !s.contains("elem(") && s.contains("Git") && (s.contains("==") || s.contains("eq")) => Some(*b),
                            _ => None,
                        }
                    })
                };
                let (git, outer_git) = (is_git(&el), is_git(&outer));
                match (root.as_deref(), found.as_deref()) {
                    (Some("Some"), Some("Some")) => {
                        want_deps += 1;
                        let mine: Vec<Vec<V>> = deps
                            .iter()
                            .filter_map(|x| match it.deref(st, x) {
                                V::Tuple(d) if d.len() == 2 && txt(it, st, &d[0]).contains(&el) => Some(d.to_vec()),
                                _ => None,
                            })
                            .collect();
                        rep.ob(mine.len() == 1, "reach-dep", "a dependency whose manifest is found does not become a dependency of the package", &f.file, f.line);
                        if let Some(d) = mine.first() {
                            rep.ob(txt(it, st, &d[0]).contains("try_find_move_toml_at_root"), "reach-dep", "a dependency is not recorded under its own manifest", &f.file, f.line);
                            let kd = txt(it, st, &d[1]);
                            let want = match (git, outer_git) {
                                (Some(true), _) | (_, Some(true)) => "Git",
                                (Some(false), Some(false)) => "Local",
                                // which of the two it should be was not asked
                                _ => "decided by both kinds",
                            };
                            let kk = if kd == outer { outer_git.map(|g| if g { "Git" } else { "Local" }).unwrap_or("") } else { kd.rsplit("::").next().unwrap_or("") };
                            rep.ob(kk == want, "reach-kind", format!("a dependency is {kk} where it should be {want}: git packages and everything they reach are libraries, local dependencies of local packages are local"), &f.file, f.line);
                            let d0 = txt(it, st, &d[0]);
                            let q = pushes.iter().any(|s| s.starts_with(&format!("({d0}, {kd}, ")) && (s.ends_with(", true)") || s.ends_with(&format!("{}.2)", i.v))));
                            rep.ob(q, "reach-dep", "a dependency's own manifest is not read (with the same kind, its dependencies resolved)", &f.file, f.line);
                        }
                    }
                    (Some("Some"), Some("None")) => {
                        want_missing += 1;
                        rep.ob(missing.iter().any(|x| { let s = txt(it, st, x); s.contains(&el) && s.contains("name") }), "reach-missing", "a dependency whose directory has no manifest is not reported as missing", &f.file, f.line);
                    }
                    (Some("None"), _) => {}
                    _ => {
                        rep.ob(false, "reach-dep", "a declared dependency is not looked at", &f.file, f.line);
                    }
                }
            }
            rep.ob(deps.len() == want_deps && missing.len() == want_missing, "reach-dep", "a package's dependencies are not exactly those that are found, its missing ones not exactly those that are not", &f.file, f.line);
        }
    }
    rep.floor("manifests read in the walk", n, 8);
    rep.floor("declared dependencies followed in the walk", nd, 8);
    if let Some(f) = need(r, rep, "move_toml.rs", Some("MoveToml"), "declared_dependencies") {
        chain(r, rep, f, &["self.dependencies", "self.dev_dependencies"]);
    }
    if let Some(f) = need(r, rep, "move_toml.rs", Some("MoveToml"), "declared_named_addresses") {
        chain(r, rep, f, &["self.addresses", "self.dev_addresses"]);
    }
}
/// the result has every element of these
fn chain(r: &Repo, rep: &mut Report, f: &FnInfo, want: &[&str]) {
    let t = trd(r, rep, f.id, pkg_cfg(&[]));
    let it = &t.it;
    for p in &t.paths {
        let Some(l) = items(it, &p.st, &p.ret) else {
            rep.ob(false, f.name.as_str(), format!("{} does not give back a list of entries", f.name), &f.file, f.line);
            continue;
        };
        let l: Vec<String> = l.iter().map(|x| txt(it, &p.st, x)).collect();
        for w in want {
            for k in 1..=2 {
                let h = has_fact(it, &p.st, |s| s == format!("has({w}, {k})"));
                let e = format!("elem({w}, {k})");
                rep.ob(
                    h == Some(true) && l.contains(&e) || h != Some(true) && (h == Some(false) || k > 1) && !l.contains(&e),
                    f.name.as_str(),
                    format!("{} must give back every entry of {w}", f.name),
                    &f.file,
                    f.line,
                );
            }
        }
    }
    rep.floor(&format!("paths of {}", f.name), t.paths.len(), 4);
}
fn load_all(r: &Repo, rep: &mut Report) {
    let Some(f) = need(r, rep, "load_from_fs.rs", None, "load_aptos_packages") else { return };
    let t = trd(r, rep, f.id, pkg_cfg(&["collect_package_from_manifest_entry"]).cap(60000));
    let it = &t.it;
    let (mut n, mut ne) = (0, 0);
    for p in &t.paths {
        let st = &p.st;
        // every workspace manifest contributes what it reaches
        for k in 1..=2 {
            let e = format!("elem(ws_manifests, {k})");
            let there = has_fact(it, st, |s| s == format!("has(ws_manifests, {k})")) == Some(true) || st.events.iter().any(|v| v.args.iter().any(|a| txt(it, st, a).contains(&e)));
            if !there {
                continue;
            }
            let got = st.events.iter().any(|v| {
                matches!(last(&v.name), "extend" | "insert" | "push")
                    && v.args.len() > 1
                    && txt(it, st, &v.args[0]).starts_with("coll(")
                    && v.args[1..].iter().any(|a| { let s = txt(it, st, a); s.contains("collect_reachable_manifests") && s.contains(&e) })
            });
            rep.ob(got, "load-all", "what a workspace manifest reaches is not loaded", &f.file, f.line);
        }
        let got = field(it, st, &p.ret, "packages").and_then(|x| items(it, st, &x));
        let Some(got) = got else {
            rep.ob(false, "load-result", "the loaded packages are not the list that was built", &f.file, f.line);
            continue;
        };
        let got: Vec<String> = got.iter().map(|x| txt(it, st, x)).collect();
        let mut cnt = 0;
        for (k, fct) in st.facts.iter() {
            let s = canon(&full(it, &V::Sym(*k)));
            if !(s.starts_with("elem(coll(") && s.ends_with(".1")) {
                continue;
            }
            let Fact::Is(n0) = fct else { continue };
            cnt += 1;
            let e = &s[..s.len() - 2];
            let ok = if &**n0 == "Err" {
                ne += 1;
                got.iter().any(|g| *g == format!("ManifestParseError(Err#0({e}.1))") || *g == format!("LoadedPackage::ManifestParseError(Err#0({e}.1))"))
            } else {
                n += 1;
                got.iter().any(|g| g.contains(&format!("Package(AptosPackage::new()(Ok#0({e}.1).package_name, {e}.0, Ok#0({e}.1).kind, load_from_fs::collect_deps_transitively()(Ok#0({e}.1).declared_deps, ")) && g.contains(&format!("), Ok#0({e}.1).resolve_deps, Ok#0({e}.1).named_addresses, Ok#0({e}.1).missing_dependencies)")))
            };
            rep.ob(ok, "load-each", format!("a reachable manifest ({n0}) does not become the package (or the error) it stands for, built from its own entry: {got:?}").chars().take(700).collect::<String>(), &f.file, f.line);
        }
        rep.ob(got.len() == cnt, "load-each", "the packages are not one per reachable manifest", &f.file, f.line);
        // the entries offered for the transitive walk are all the valid ones
        for v in st.events.iter().filter(|v| last(&v.name) == "collect_deps_transitively") {
            if let Some(l) = items(it, st, &v.args[1]) {
                let l: Vec<String> = l.iter().map(|x| txt(it, st, x)).collect();
                for (k, fct) in st.facts.iter() {
                    let s = canon(&full(it, &V::Sym(*k)));
                    if s.starts_with("elem(coll(") && s.ends_with(".1") && matches!(fct, Fact::Is(n) if &**n == "Ok") {
                        let e = &s[..s.len() - 2];
                        rep.ob(l.contains(&format!("({e}.0, Ok#0({e}.1))")), "load-valid", "a valid manifest is not offered to the walk over dependencies", &f.file, f.line);
                    }
                }
            } else {
                rep.ob(false, "load-valid", "the manifests offered to the walk over dependencies are not those that were read", &f.file, f.line);
            }
        }
    }
    rep.floor("packages built", n, 4);
    rep.floor("manifest errors kept", ne, 4);
    if let Some(f) = need(r, rep, "load_from_fs.rs", Some("LoadedPackages"), "valid_packages") {
        let t = trd(r, rep, f.id, pkg_cfg(&[]));
        for p in &t.paths {
            let l: Vec<String> = items(&t.it, &p.st, &p.ret).unwrap_or_default().iter().map(|x| txt(&t.it, &p.st, x)).collect();
            for k in 1..=2 {
                let e = format!("elem(self.packages, {k})");
                let h = has_fact(&t.it, &p.st, |s| s == format!("has(self.packages, {k})")) == Some(true);
                let v = is_fact(&t.it, &p.st, |s| s == e);
                rep.ob(
                    l.contains(&format!("Package#0({e})")) == (h && v.as_deref() == Some("Package")),
                    "load-valid",
                    "the valid packages are not exactly those whose manifest was read",
                    &f.file,
                    f.line,
                );
            }
        }
        rep.floor("paths of valid_packages", t.paths.len(), 5);
    }
}
fn graph(r: &Repo, rep: &mut Report) {
    let Some(f) = need(r, rep, "dep_graph.rs", None, "collect") else { return };
    let cfg = Cfg::new(move |g: &FnInfo| g.module[0] == "project_model" && matches!(g.name.as_str(), "dep_graph_entry" | "manifest_path" | "dep_roots" | "load_package_file_id"))
        .chook(|it, _, st, segs, args, line| coll_new(it, st, segs, args, line))
        .coll(1)
        .events(|n| matches!(last(n), "insert" | "push"))
        .unroll(Some(1));
    let t = trd(r, rep, f.id, cfg);
    let it = &t.it;
    let mut n = 0;
    for p in &t.paths {
        let st = &p.st;
        let none = matches!(&p.ret, V::Ctor(n, _) if &**n == "None");
        let e = "elem(aptos_packages, 1)";
        let there = st.facts.keys().any(|k| canon(&full(it, &V::Sym(*k))).contains(e)) || has_fact(it, st, |s| s == "has(aptos_packages, 1)") == Some(true);
        let fid = format!("(load)({e}.manifest_path)");
        let loaded = |what: &str| st.facts.iter().find_map(|(k, fct)| {
            let s = canon(&full(it, &V::Sym(*k)));
            match fct {
                Fact::Is(n) if s.contains("load") && s.contains(what) && !s.starts_with("load_from_fs") => Some(&**n == "Some"),
                _ => None,
            }
        });
        let _ = &fid;
        let has_dep = has_fact(it, st, |s| s.starts_with(&format!("has({e}.transitive_dep_roots"))).unwrap_or(false)
            || st.facts.keys().any(|k| canon(&full(it, &V::Sym(*k))).contains(&format!("elem({e}.transitive_dep_roots")));
        let ins: Vec<&Ev> = st.events.iter().filter(|x| last(&x.name) == "insert" && x.args.len() == 3).collect();
        if !there {
            rep.ob(!none && ins.is_empty(), "graph-each", "a graph over no packages must be empty, not missing", &f.file, f.line);
            continue;
        }
        let own = loaded(&format!("{e}.manifest_path"));
        let dep = loaded("try_find_move_toml_at_root");
        let complete = own == Some(true) && (!has_dep || dep == Some(true));
        if !complete {
            rep.ob(none, "graph-partial", "a graph is published although a manifest it needs is not loaded yet", &f.file, f.line);
            continue;
        }
        n += 1;
        rep.ob(!none && ins.len() == 1, "graph-each", "a package whose manifests are all loaded is not in the graph", &f.file, f.line);
        let Some(i) = ins.first() else { continue };
        let key = txt(it, st, &i.args[1]);
        rep.ob(key.contains(&format!("{e}.manifest_path")) && !key.contains("try_find"), "graph-key", "a package is not recorded under its own manifest", &f.file, f.line);
        let g = |k: &str| field(it, st, &i.args[2], k);
        for (k, w) in [("package_name", "package_name"), ("resolve_deps", "resolve_deps"), ("named_addresses", "named_addresses"), ("missing_dependencies", "missing_dependencies")] {
            rep.ob(g(k).map(|x| txt(it, st, &x)) == Some(format!("{e}.{w}")), "graph-meta", format!("a package's {k} in the graph is not its own"), &f.file, f.line);
        }
        let d = g("dep_manifest_ids").map(|x| txt(it, st, &x)).unwrap_or_default();
        rep.ob(
            if has_dep { d.contains("try_find_move_toml_at_root") && d.contains("transitive_dep_roots, 1).0") && d.contains("load") } else { d.ends_with("[]") || d.ends_with("[])") },
            "graph-deps",
            format!("a package's dependencies in the graph are not the manifests of its dependency roots ({d})").chars().take(400).collect::<String>(),
            &f.file,
            f.line,
        );
    }
    rep.floor("graph entries", n, 2);
    if let Some(f) = need(r, rep, "aptos_package.rs", Some("AptosPackage"), "new") {
        let t = trd(r, rep, f.id, pkg_cfg(&[]));
        for p in &t.paths {
            let g = |k: &str| field(&t.it, &p.st, &p.ret, k).map(|x| txt(&t.it, &p.st, &x)).unwrap_or_default();
            for (k, w) in [("kind", "kind"), ("manifest_path", "manifest_path.file"), ("missing_dependencies", "missing_dependencies"), ("named_addresses", "named_addresses"), ("package_name", "package_name"), ("resolve_deps", "resolve_deps")] {
                rep.ob(g(k) == w, "package-new", format!("AptosPackage::new: {k} is not what it was given"), &f.file, f.line);
            }
            let l = field(&t.it, &p.st, &p.ret, "transitive_dep_roots").and_then(|x| items(&t.it, &p.st, &x)).map(|l| l.iter().map(|x| txt(&t.it, &p.st, x)).collect::<Vec<_>>());
            let n = (1..=2).filter(|k| has_fact(&t.it, &p.st, |s| s == format!("has(dep_roots, {k})")) == Some(true)).count();
            let want = |k: usize, s: &str| {
                let e = format!("elem(dep_roots, {k})");
                s.starts_with('(') && s.ends_with(&format!(", {e}.1)")) && s.contains(&format!("{e}.0")) && (s.contains("content_root") || s.contains("parent"))
            };
            rep.ob(l.as_ref().is_some_and(|l| l.len() == n && l.iter().enumerate().all(|(k, s)| want(k + 1, s))), "package-new", format!("AptosPackage::new: the dependency roots are not those given ({l:?})"), &f.file, f.line);
        }
    }
    if let Some(f) = need(r, rep, "aptos_package.rs", Some("AptosPackage"), "to_folder_root") {
        let t = trd(r, rep, f.id, pkg_cfg(&["is_local"]));
        for p in &t.paths {
            let g = |k: &str| field(&t.it, &p.st, &p.ret, k).map(|x| txt(&t.it, &p.st, &x)).unwrap_or_default();
            let local = is_fact(&t.it, &p.st, |s| s == "self.kind").is_some_and(|n| n.ends_with("Local"));
            rep.ob(g("manifest_file") == "self.manifest_path" && (g("is_local") == local.to_string() || g("is_local").contains("self.kind")), "package-root", "a package's folder is not the one of its manifest, local exactly when the package is", &f.file, f.line);
        }
    }
}
/// what is loaded, watched and taken as local
fn folders(r: &Repo, rep: &mut Report) {
    let Some(f) = need(r, rep, "project_folders.rs", Some("ProjectFolders"), "new") else { return };
    let cfg = Cfg::new(move |g: &FnInfo| g.module[0] == "project_model" && !matches!(g.name.as_str(), "new" | "to_folder_root"))
        .chook(|it, _, st, segs, args, line| {
            let n = segs.len();
            let none = V::List(Rc::new(vec![]));
            let mk = |name: &str, fs: &[&str]| {
                let m: BTreeMap<String, V> = fs.iter().map(|x| (x.to_string(), none.clone())).collect();
                Some(vec![(st.clone(), Flow::Val(V::Struct(Rc::from(name), m.into())))])
            };
            if n >= 2 && segs[n - 1] == "default" && args.is_empty() {
                match segs[n - 2].as_str() {
                    "ProjectFolders" => return mk("ProjectFolders", &["load", "watch", "package_root_config"]),
                    "Directories" => return mk("Directories", &["extensions", "include", "exclude"]),
                    _ => {}
                }
            }
            coll_new(it, st, segs, args, line)
        })
        .mhook(|it, _, st, c| {
            let recv = it.deref(st, &c.recv);
            if let V::Sym(_) = recv {
                let s = full(it, &recv);
                if s.contains("builder()") && !s.contains(".build") {
                    match c.name {
                        "len" => {
                            let n = st.events.iter().filter(|e| last(&e.name) == "add_file_set").count();
                            return Some(vec![(st.clone(), Flow::Val(int(n)))]);
                        }
                        "build" => return Some(vec![(st.clone(), Flow::Val(it.sym("built", vec![recv])))]),
                        _ => {}
                    }
                }
                if c.name == "content_root" && c.args.is_empty() {
                    let m = it.sym(".manifest_file", vec![recv]);
                    return Some(vec![(st.clone(), Flow::Val(it.sym("parent", vec![m])))]);
                }
                if c.name == "parent" && c.args.is_empty() {
                    let v = it.sym("parent", vec![recv]);
                    return Some(vec![(st.clone(), Flow::Val(V::Ctor(Rc::from("Some"), Rc::new(vec![v]))))]);
                }
            }
            None
        })
        .coll(2)
        .events(|n| matches!(last(n), "add_file_set"));
    let t = trd(r, rep, f.id, cfg);
    let it = &t.it;
    let mut n = 0;
    for p in &t.paths {
        let st = &p.st;
        let roots: Vec<String> = (1..=2)
            .filter(|k| has_fact(it, st, |s| s == format!("has(all_packages, {k})")) == Some(true))
            .map(|k| format!("AptosPackage::to_folder_root()(elem(all_packages, {k}))"))
            .collect();
        let get = |k: &str| field(it, st, &p.ret, k).and_then(|x| items(it, st, &x));
        let (Some(load), Some(watch)) = (get("load"), get("watch")) else {
            rep.ob(false, "folders-load", "what is loaded is not the list that was built", &f.file, f.line);
            continue;
        };
        let cfgv = field(it, st, &p.ret, "package_root_config");
        let lf = cfgv.as_ref().and_then(|c| field(it, st, c, "local_filesets")).and_then(|x| items(it, st, &x));
        let fm = cfgv.as_ref().and_then(|c| field(it, st, c, "fileset_root_manifests")).and_then(|x| items(it, st, &x));
        let fsc = cfgv.as_ref().and_then(|c| field(it, st, c, "fsc")).map(|x| txt(it, st, &x)).unwrap_or_default();
        let (Some(lf), Some(fm)) = (lf, fm) else {
            rep.ob(false, "folders-config", "the package roots' description is not the one that was built", &f.file, f.line);
            continue;
        };
        rep.ob(fsc.starts_with("built("), "folders-config", "the file sets used are not those that were declared", &f.file, f.line);
        let sets: Vec<String> = st.events.iter().filter(|e| last(&e.name) == "add_file_set").map(|e| e.args.iter().skip(1).map(|a| txt(it, st, a)).collect::<String>()).collect();
        rep.ob(sets.len() == roots.len() && fm.len() == roots.len(), "folders-sets", "there is not one file set and one manifest per package root", &f.file, f.line);
        for root in &roots {
            n += 1;
            let local = has_fact(it, st, |s| *s == format!("{root}.is_local"));
            let man = format!("{root}.manifest_file");
            let mut toml = vec![];
            let mut mv = vec![];
            for (i, e) in load.iter().enumerate() {
                let V::Ctor(_, a) = it.deref(st, e) else { continue };
                let (Some(x), Some(d), Some(ex)) = (field(it, st, &a[0], "extensions"), field(it, st, &a[0], "include"), field(it, st, &a[0], "exclude")) else { continue };
                let (x, d, ex) = (txt(it, st, &x), txt(it, st, &d), txt(it, st, &ex));
                if !d.contains(&man) {
                    continue;
                }
                rep.ob(ex == "[]", "folders-load", "directories of a package are excluded from loading", &f.file, f.line);
                if x.contains("\"toml\"") && d.trim_matches(['[', ']']) == format!("parent({man})") {
                    toml.push(i);
                }
                if x.contains("\"move\"") && ["sources", "tests", "scripts"].iter().all(|k| d.contains(&format!("parent({man}).join(\"{k}\")")) || d.contains(&format!("parent({man}), \"{k}\")"))) {
                    mv.push(i);
                }
            }
            rep.ob(!toml.is_empty(), "folders-load", "a package's manifest directory is not loaded", &f.file, f.line);
            rep.ob(!mv.is_empty(), "folders-load", "a package's source directories (sources, tests, scripts) are not all loaded", &f.file, f.line);
            let w: Vec<usize> = watch.iter().filter_map(|x| match it.deref(st, x) { V::Int(k) => Some(k as usize), _ => None }).collect();
            for i in toml.iter().chain(&mv) {
                rep.ob(w.contains(i) == (local != Some(false)), "folders-watch", "the entries watched are not those of local packages", &f.file, f.line);
            }
            let at = sets.iter().position(|s| s.contains(&format!("parent(VfsPath::from()({man}))")) || s.contains(&man));
            rep.ob(at.is_some(), "folders-sets", "a package root has no file set", &f.file, f.line);
            if let Some(at) = at {
                let l = lf.iter().any(|x| matches!(it.deref(st, x), V::Int(k) if k as usize == at));
                rep.ob(l == (local != Some(false)), "folders-local", "the file sets marked local are not those of local packages", &f.file, f.line);
                rep.ob(fm.iter().any(|x| txt(it, st, x).contains(&man)), "folders-sets", "a package root's manifest is not recorded", &f.file, f.line);
            }
        }
    }
    rep.floor("package roots laid out", n, 4);
    let Some(f) = need(r, rep, "project_folders.rs", Some("PackageRootConfig"), "partition_into_package_roots") else { return };
    let t = trd(r, rep, f.id, Cfg::new(|_| false)
        .coll(2)
        .events(|n| last(n) == "new"));
    let it = &t.it;
    let mut m = 0;
    for p in &t.paths {
        let st = &p.st;
        let Some(out) = items(it, st, &p.ret) else {
            rep.ob(false, "partition", "the package roots are not the list that was built", &f.file, f.line);
            continue;
        };
        let news: Vec<&Ev> = st.events.iter().filter(|e| e.name.ends_with("PackageRoot::new")).collect();
        let nsets = (1..=2).filter(|k| has_fact(it, st, |s| s.starts_with("has(self.fsc.partition(") && s.ends_with(&format!(", {k})"))) == Some(true)).count();
        rep.ob(out.len() == nsets && news.len() == nsets, "partition", "there is not one package root per file set, in order", &f.file, f.line);
        for (i, e) in news.iter().enumerate() {
            m += 1;
            let set = txt(it, st, &e.args[0]);
            rep.ob(set.ends_with(&format!(", {})", i + 1)) && set.starts_with("elem(self.fsc.partition("), "partition", "package roots are not in the order of the file sets", &f.file, f.line);
            let eqs: Vec<bool> = st
                .facts
                .iter()
                .filter_map(|(x, fct)| {
                    let s = canon(&full(it, &V::Sym(*x)));
                    match fct {
                        Fact::Bool(b) if s.contains("elem(self.local_filesets") && !s.starts_with("has(") && (s.starts_with(&format!("==({i}, ")) || s.starts_with("==(elem(") && s.ends_with(&format!("), {i})"))) => Some(*b),
                        Fact::Bool(true) if s.contains("elem(self.local_filesets") && s.starts_with("==(") => Some(false),
                        _ => None,
                    }
                })
                .collect();
            let none_left = has_fact(it, st, |s| s == "has(self.local_filesets, 1)") == Some(false);
            let local = has_fact(it, st, |s| s.starts_with("self.local_filesets.") && s.contains("contains(") && s.ends_with(&format!("({i})")))
                .or_else(|| (!eqs.is_empty() || none_left).then(|| eqs.contains(&true)));
            let k = txt(it, st, &e.args[1]);
            rep.ob(local.is_some() && k.ends_with(if local == Some(true) { "Local" } else { "Library" }), "partition-kind", "a package root is not local exactly when its file set is", &f.file, f.line);
            let man = txt(it, st, &e.args[2]);
            let hit = (1..=2).any(|c| is_fact(it, st, |s| s.contains("file_for_path(") && s.starts_with(&set) && s.contains(&format!("fileset_root_manifests, {c})"))).as_deref() == Some("Some"));
            rep.ob(
                if hit { man.starts_with("Some(") && man.contains(&format!("{set}")) && man.contains("file_for_path(") } else { man == "None" },
                "partition-manifest",
                format!("a package root's manifest is not the one found among its own files ({man})").chars().take(300).collect::<String>(),
                &f.file,
                f.line,
            );
        }
    }
    rep.floor("package roots built", m, 4);
}
fn discover(r: &Repo, rep: &mut Report) {
    let Some(f) = need(r, rep, "project-model/src/lib.rs", Some("DiscoveredManifest"), "discover_all") else { return };
    let t = trd(r, rep, f.id, pkg_cfg(&[]));
    let it = &t.it;
    let mut n = 0;
    for p in &t.paths {
        let st = &p.st;
        for k in 1..=2 {
            let e = format!("walk_and_discover_manifests()(elem(ws_roots, {k}))");
            let there = has_fact(it, st, |s| s == format!("has(ws_roots, {k})")) == Some(true) || st.events.iter().any(|v| v.args.iter().any(|a| txt(it, st, a).contains(&format!("elem(ws_roots, {k})"))));
            if !there || has_fact(it, st, |s| s.starts_with("has(") && s.ends_with(&format!("{e}, 1)"))) == Some(false) {
                continue;
            }
            n += 1;
            let ok = st.events.iter().any(|v| last(&v.name) == "extend" && v.args.len() > 1 && txt(it, st, &v.args[1]).contains(&e)) || txt(it, st, &p.ret).contains(&e);
            rep.ob(ok, "discover-all", "the manifests of a workspace folder are left out", &f.file, f.line);
        }
    }
    rep.floor("workspace folders walked", n, 1);
}
