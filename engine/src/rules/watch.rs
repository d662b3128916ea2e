//! What the editor is asked to watch.
use super::trace::*;
use super::util::*;
use super::state::struct_field;
use crate::absint::*;
use crate::repo::*;
use crate::report::Report;
use std::rc::Rc;

fn trd<'r>(r: &'r Repo, rep: &mut Report, id: FnId, cfg: Cfg<'r>) -> Traced<'r, 'r> {
    let t = tr(r, rep, id, None, cfg);
    if std::env::var("SA_DUMP").is_ok_and(|x| x == r.fns[id].name) {
        t.dump();
    }
    t
}
fn truth(t: &Traced, p: &PathR, txt: &str) -> Option<bool> {
    p.st.facts.iter().find(|(x, _)| full(&t.it, &V::Sym(**x)) == txt).and_then(|(_, f)| match f {
        Fact::Bool(b) => Some(*b),
        _ => None,
    })
}

/// every `FileSystemWatcher` in a value
fn watchers(it: &Interp<Trace>, st: &St<TW>, v: &V, out: &mut Vec<V>) {
    match it.deref(st, v) {
        V::Struct(n, m) => {
            if last(&n) == "FileSystemWatcher" {
                out.push(V::Struct(n, m));
            } else {
                m.values().for_each(|x| watchers(it, st, x, out));
            }
        }
        V::Ctor(_, a) => a.iter().for_each(|x| watchers(it, st, x, out)),
        V::List(a) | V::Tuple(a) => a.iter().for_each(|x| watchers(it, st, x, out)),
        _ => {}
    }
}
/// does the glob, relative to the directory, stand for every Move file below it
fn all_move(glob: &str) -> bool {
    let g = glob.trim_start_matches("./");
    let Some(names) = g.strip_prefix("**/") else { return g == "**" };
    match names {
        "*" | "*.*" | "*.move" => true,
        n => n.strip_prefix("*.{").and_then(|x| x.strip_suffix('}')).is_some_and(|x| x.split(',').any(|e| e == "move")),
    }
}
/// `format!("{..}<tail>", dir)` or a string: the directory and what follows it
fn split(txt: &str) -> Option<(String, String)> {
    if let Some((d, tail)) = txt.strip_suffix("\")").and_then(|x| x.rsplit_once(".join(\"")) {
        return Some((d.to_string(), format!("/{tail}")));
    }
    let rest = txt.strip_prefix("format!(\"")?;
    let (tpl, args) = rest.split_once("\", ")?;
    let args = args.strip_suffix(')')?;
    let tail = tpl.strip_prefix('{').and_then(|x| x.split_once('}')).map(|x| x.1)?;
    (!tail.contains('{') || tail.contains("{move") || tail.contains(",move")).then(|| (args.to_string(), tail.to_string()))
}
/// all three kinds of events
fn kinds(txt: &str) -> bool {
    txt == "None" || ["Create", "Change", "Delete"].iter().all(|k| txt.to_lowercase().contains(&k.to_lowercase())) || txt.contains("all()")
}

pub fn l17(r: &Repo, _: bool) -> Report {
    let mut rep = Report::new(
        "setup_client_file_watchers, for up to two packages with up to two source directories each and both answers about relative patterns: exactly one registration for workspace/didChangeWatchedFiles is sent; in it every source directory of every package not known to be foreign is watched for all kinds of changes by a pattern that takes every .move file below it, with the directory and the pattern separated, and every package's manifest is watched; \
         switch_workspaces: when the server watches, the scanner is told to watch what ProjectFolders says of the same packages; when the client watches, the client is asked to, for the same packages",
    );
    let rep = &mut rep;
    if let Some(f) = need(r, rep, "reload.rs", Some("GlobalState"), "setup_client_file_watchers") {
        let file = f.file.clone();
        let cfg = Cfg::new(move |g: &FnInfo| g.file == file)
            .coll(2)
            .chook(|it, _, st, segs, args, _| {
                (segs.last().is_some_and(|x| x == "to_value") && args.len() == 1).then(|| vec![(st.clone(), Flow::Val(V::Ctor(Rc::from("Ok"), Rc::new(vec![norm(it, st, &args[0])]))))])
            })
            .mhook(|it, _, st, c| {
                if c.name != "send_request" {
                    return None;
                }
                let mut s = st.clone();
                let a: Vec<V> = c.args.iter().map(|x| norm(it, st, x)).collect();
                s.event("send_request", a, 0, c.line);
                Some(vec![(s, Flow::Val(V::Unit))])
            })
            .events(|_| false);
        let t = trd(r, rep, f.id, cfg);
        let (mut rel, mut abs, mut dirs) = (0, 0, 0);
        for p in &t.paths {
            let sent = evs(p, "send_request");
            let at = (&f.file, sent.first().map(|e| e.line).unwrap_or(f.line));
            if !rep.ob(sent.len() == 1, "registered-once", format!("{} registrations are sent", sent.len()), at.0, at.1) {
                continue;
            }
            let txt = full(&t.it, &sent[0].args[0]);
            rep.ob(txt.contains("method: \"workspace/didChangeWatchedFiles\""), "method", "the registration is not for workspace/didChangeWatchedFiles", at.0, at.1);
            let mut ws = vec![];
            watchers(&t.it, &p.st, &sent[0].args[0], &mut ws);
            // (directory, pattern below it) and whole patterns
            let mut below: Vec<(String, String)> = vec![];
            let mut whole: Vec<String> = vec![];
            for w in &ws {
                let V::Struct(_, m) = w else { continue };
                let g = |k: &str| m.get(k).map(|x| norm(&t.it, &p.st, x));
                rep.ob(g("kind").is_some_and(|k| kinds(&full(&t.it, &k))), "kinds", format!("only changes of kind {} are watched", g("kind").map(|k| full(&t.it, &k)).unwrap_or_default()), at.0, at.1);
                match g("glob_pattern") {
                    Some(V::Ctor(n, a)) if last(&n) == "Pattern" => {
                        let x = full(&t.it, &norm(&t.it, &p.st, &a[0]));
                        match split(&x) {
                            Some((d, tail)) => match tail.strip_prefix('/') {
                                Some(pat) => below.push((d, pat.to_string())),
                                None => {
                                    rep.ob(tail.is_empty(), "separated", format!("the directory and the pattern run together: {x}"), at.0, at.1);
                                    whole.push(d);
                                }
                            },
                            None => whole.push(x),
                        }
                    }
                    Some(V::Ctor(n, a)) if last(&n) == "RelativePattern" => {
                        if let V::Struct(_, m) = norm(&t.it, &p.st, &a[0]) {
                            let g = |k: &str| m.get(k).map(|x| full(&t.it, &norm(&t.it, &p.st, x))).unwrap_or_default();
                            below.push((g("base_uri"), g("pattern").trim_matches('"').to_string()));
                        }
                    }
                    _ => whole.push(full(&t.it, w)),
                }
            }
            for k in 1..=2 {
                if truth(&t, p, &format!("has(packages, {k})")) != Some(true) {
                    continue;
                }
                let e = format!("elem(packages, 0, {k})");
                let foreign = p.st.facts.iter().any(|(x, f)| {
                    let x = full(&t.it, &V::Sym(*x));
                    x.contains(&e) && ((x.contains("is_local") && *f == Fact::Bool(false)) || (x.ends_with(".kind") && matches!(f, Fact::Is(n, ..) if last(n) != "Local")))
                });
                let man = whole.iter().any(|x| x.contains(&e) && x.contains("manifest")) || below.iter().any(|(d, pat)| d.contains(&e) && pat == "Move.toml");
                rep.ob(man, "manifest", format!("the manifest of a package ({}) is not watched", if foreign { "a dependency" } else { "of the workspace" }), at.0, at.1);
                if foreign {
                    continue;
                }
                let src = p.st.facts.iter().filter(|(_, f)| **f == Fact::Bool(true)).map(|(x, _)| full(&t.it, &V::Sym(*x))).filter(|x| x.starts_with("has(") && x.contains(&e) && x.contains("source_dirs")).collect::<Vec<_>>();
                let looked = p.st.facts.keys().map(|x| full(&t.it, &V::Sym(*x))).any(|x| x.starts_with("has(") && x.contains(&e) && x.contains("source_dirs"));
                rep.ob(looked || below.iter().any(|(d, pat)| d.contains(&e) && (d.contains("content_root") || d.contains("parent")) && all_move(pat)), "source-dirs", "the source directories of a package of the workspace are not looked at", at.0, at.1);
                for h in src {
                    let j = h.trim_end_matches(')').rsplit(", ").next().unwrap_or("").to_string();
                    let coll = h.trim_start_matches("has(").rsplit_once(", ").map(|x| x.0).unwrap_or("").to_string();
                    let d = format!("elem({coll}, 0, {j})");
                    dirs += 1;
                    let by: Vec<&(String, String)> = below.iter().filter(|(b, _)| b.contains(&d)).collect();
                    rep.ob(!by.is_empty(), "dir-watched", "a source directory of a package of the workspace is not watched", at.0, at.1);
                    if !by.is_empty() {
                        rep.ob(by.iter().any(|(_, pat)| all_move(pat)), "pattern", format!("the pattern {:?} does not take every .move file below the directory", by[0].1), at.0, at.1);
                    }
                }
            }
            match p.st.facts.iter().find_map(|(x, f)| if full(&t.it, &V::Sym(*x)).contains("relative_pattern_support") { Some((*f == Fact::Bool(true)) != full(&t.it, &V::Sym(*x)).ends_with(".not()")) } else { None }) {
                Some(true) => rel += 1,
                x => {
                    abs += 1;
                    rep.ob(x == Some(false) || !txt.contains("RelativePattern"), "support", "relative patterns are sent to a client that may not take them", at.0, at.1);
                    rep.ob(!(x == Some(false) && txt.contains("RelativePattern")), "support", "relative patterns are sent to a client that does not take them", at.0, at.1);
                }
            }
        }
        rep.floor("paths without relative patterns", abs, 5);
        rep.count("paths with relative patterns", rel);
        rep.floor("source directories followed", dirs, 8);
    }
    if let Some(f) = need(r, rep, "reload.rs", Some("GlobalState"), "switch_workspaces") {
        let cfg = Cfg::new(|g: &FnInfo| g.file.ends_with("src/reload.rs") && !["recreate_package_graph", "is_package_loading_error", "setup_client_file_watchers"].contains(&g.name.as_str())).events(|n| matches!(last(n), "set_config" | "setup_client_file_watchers"));
        let t = trd(r, rep, f.id, cfg);
        let (mut srv, mut cl) = (0, 0);
        for p in &t.paths {
            let it = &t.it;
            let set = evs(p, "set_config");
            let ask = evs(p, "setup_client_file_watchers");
            let Some(e) = set.first() else {
                continue;
            };
            let c = it.deref(&p.st, e.args.last().unwrap());
            let g = |k: &str| struct_field(&c, k).map(|v| full(it, &norm(it, &p.st, &v))).unwrap_or_default();
            let (load, watch) = (g("load"), g("watch"));
            let pk = load.trim_start_matches("ProjectFolders::new()(").trim_end_matches(").load").to_string();
            let who = p.st.facts.iter().find_map(|(x, f)| match f {
                Fact::Is(n, ..) if full(it, &V::Sym(*x)).contains("watcher") => Some(last(n).to_string()),
                Fact::Not(s) if full(it, &V::Sym(*x)).contains("watcher") => Some(if s.iter().any(|n| last(n) == "Server") { "Client".into() } else { "Server".into() }),
                _ => None,
            });
            let here = watch == format!("ProjectFolders::new()({pk}).watch");
            let asked = ask.len() == 1 && ask[0].args.get(1).is_some_and(|a| full(it, &norm(it, &p.st, a)) == pk);
            match who.as_deref() {
                Some("Server") => {
                    srv += 1;
                    rep.ob(here, "server-watches", format!("the server is to watch, but the scanner watches {watch}"), &f.file, e.line);
                }
                Some("Client") => {
                    cl += 1;
                    rep.ob(asked, "client-watches", format!("the client is to watch, but is asked {} times, for {:?}, where the packages are {pk}", ask.len(), ask.first().and_then(|a| a.args.get(1)).map(|a| full(it, &norm(it, &p.st, a)))), &f.file, e.line);
                }
                _ => {
                    rep.ob(here || asked, "watched", "nobody is told to watch the packages switched to", &f.file, e.line);
                }
            }
        }
        rep.floor("switches with the server watching", srv, 1);
        rep.floor("switches with the client watching", cl, 1);
    }
    std::mem::take(rep)
}
