//! Finding and renaming the uses of an item.
use super::pkg::canon;
use super::trace::*;
use super::util::*;
use crate::absint::*;
use crate::repo::*;
use crate::report::Report;
use std::collections::BTreeSet;
use std::rc::Rc;

const SEARCH: &str = "ide-db/src/search.rs";
const RENAME: &str = "ide-db/src/rename.rs";
const IDE_RENAME: &str = "ide/src/rename.rs";

fn trd<'r>(r: &'r Repo, rep: &mut Report, id: FnId, args: Option<Vec<V>>, cfg: Cfg<'r>) -> Traced<'r, 'r> {
    let t = tr(r, rep, id, args, cfg);
    if std::env::var("SA_DUMP").is_ok_and(|x| x == r.fns[id].name) {
        t.dump();
    }
    t
}
fn facts<'a>(t: &'a Traced, p: &'a PathR) -> Vec<(String, &'a Fact)> {
    p.st.facts.iter().map(|(x, f)| (tidy(&full(&t.it, &V::Sym(*x))), f)).collect()
}
/// without the receiver types guessed from method names
pub(super) fn tidy(s: &str) -> String {
    canon(s).replace("()(", "(")
}
fn text(t: &Traced, p: &PathR, v: &V) -> String {
    tidy(&full(&t.it, &norm(&t.it, &p.st, v)))
}
fn is(fs: &[(String, &Fact)], p: impl Fn(&str) -> bool) -> Option<String> {
    fs.iter().find_map(|(x, f)| match f {
        Fact::Is(n) if p(x) => Some(n.to_string()),
        _ => None,
    })
}
fn truth(fs: &[(String, &Fact)], p: impl Fn(&str) -> bool) -> Option<bool> {
    fs.iter().find_map(|(x, f)| match f {
        Fact::Bool(b) if p(x) => Some(*b),
        _ => None,
    })
}

/// accessors that go from a node to one of its parts
fn child_accessors(r: &Repo) -> BTreeSet<String> {
    const OWNER: &[&str] = &["for_expr", "lambda_expr", "any_fun", "match_arm", "syntax", "name", "fun", "param", "module", "value"];
    r.fns
        .iter()
        .filter(|f| f.file.contains("syntax/src/ast/generated/nodes") && f.self_ty.is_some())
        .map(|f| f.name.clone())
        .filter(|n| !OWNER.contains(&n.as_str()) && n != "cast" && n != "can_cast" && n != "from" && n != "eq" && n != "clone" && n != "fmt" && n != "hash")
        .collect()
}
fn narrowed(s: &str, children: &BTreeSet<String>) -> Option<String> {
    let mut word = String::new();
    for c in s.chars() {
        if c.is_alphanumeric() || c == '_' {
            word.push(c);
        } else {
            if c == '(' && children.contains(&word) {
                return Some(word);
            }
            word.clear();
        }
    }
    None
}
fn scope(r: &Repo, rep: &mut Report) {
    let children = child_accessors(r);
    rep.floor("accessors of parts of nodes", children.len(), 100);
    let Some(f) = need(r, rep, SEARCH, None, "item_search_scope") else { return };
    let cfg = Cfg::new(|g: &FnInfo| g.file.ends_with(SEARCH) && g.self_ty.is_none()).coll(2).events(|n| matches!(last(n), "add_range" | "add_file_range" | "add_file"));
    let t = trd(r, rep, f.id, None, cfg);
    let mut owners = BTreeSet::new();
    for p in &t.paths {
        let fs = facts(&t, p);
        let ret = text(&t, p, &p.ret);
        let owner = is(&fs, |x| x.contains("ident_owner(") && x.starts_with("Some#0("));
        if let Some(o) = &owner {
            owners.insert(o.clone());
        }
        let at = |m: String| (m, f.file.clone(), f.line);
        let what = owner.clone().unwrap_or_else(|| "another item".into());
        let wide = last(ret.split('(').next().unwrap_or("")).to_string();
        let (ok, why) = match wide.as_str() {
            "from_reverse_dependencies" => (ret.contains("file_package_id(") && ret.contains("named_item") && (ret.contains("file_id)") || ret.contains("unpack")), "not the package the item is declared in".to_string()),
            "from_module_and_module_spec" => {
                let local = match owner.as_deref() {
                    Some("SchemaField") => false,
                    Some(_) => true,
                    None => p.st.facts.iter().any(|(x, f)| {
                        let n = full(&t.it, &V::Sym(*x));
                        n.contains("ident_owner()") && n.starts_with("Some#0(") && matches!(f, Fact::Not(s) if s.iter().any(|v| &**v == "SchemaField"))
                    }),
                };
                (local && ret.contains("containing_module(") || local && ret.contains("and_then_ref("), "uses of the item are not confined to its module: other modules include its schema, its specs or its public fields".to_string())
            }
            "from_file_range" | "empty" => {
                // `empty()` is what the ranges are added to
                let mut terms: Vec<String> = if wide == "empty" { vec![] } else { vec![ret.clone()] };
                for e in p.st.events.iter() {
                    terms.push(e.args.iter().map(|a| text(&t, p, a)).collect::<Vec<_>>().join(", "));
                }
                let cut = terms.iter().filter(|x| !x.contains("elem(")).find_map(|x| narrowed(x, &children).or_else(|| x.contains("Token").then(|| "token".into())));
                // the uses of a name are not in the binding itself, except in a match arm
                let up = |x: &String| ["lambda_expr(", "for_expr(", "any_fun(", ".lambda_expr", ".for_expr", ".any_fun", "parent"].iter().any(|u| x.contains(u)) || what == "MatchArm";
                let owned = |x: &String| owner.as_ref().is_some_and(|o| x.contains(&format!("{o}#0("))) && up(x) || x.contains("containing_") || x.contains("ancestor");
                if let Some(c) = cut {
                    (false, format!("searches only `{c}` of the construct the variable is bound in"))
                } else if !terms.iter().any(owned) {
                    (false, "the construct the variable is bound in is not searched".into())
                } else if what == "Param" {
                    let specs: Vec<(String, bool)> = fs.iter().filter(|(x, _)| x.starts_with("has(") && x.contains("get_item_specs_for_fun(")).map(|(x, f)| (x.replacen("has(", "elem(", 1), matches!(f, Fact::Bool(true)))).collect();
                    let missed = specs.iter().find(|(x, b)| *b && !terms.iter().any(|y| y.contains(x.as_str())));
                    let whole = terms.iter().filter(|x| x.contains("elem(")).find_map(|x| narrowed(&x.replace("get_item_specs_for_fun", "_"), &children));
                    (!specs.is_empty() && missed.is_none() && whole.is_none(), "the item specs of the function are not searched".into())
                } else {
                    (true, String::new())
                }
            }
            _ => (false, format!("`{}` is not known to cover every use", ret.chars().take(80).collect::<String>())),
        };
        let (m, file, line) = at(format!("the search for uses of {} looks in `{}`: {why}", if owner.is_some() { format!("a name bound by {what}") } else { what.clone() }, ret.chars().take(120).collect::<String>()));
        rep.ob(ok, &format!("search-scope:{what}"), &m, &file, line);
        rep.count("paths of the search scope", 1);
    }
    rep.count("owners of names with a scope of their own", owners.len());
}
fn scopes(r: &Repo, rep: &mut Report) {
    let inl = |g: &FnInfo| g.file.ends_with(SEARCH) && (g.self_ty.is_none() || g.self_ty.as_deref() == Some("SearchScope"));
    // module and its specs
    if let Some(f) = need(r, rep, SEARCH, Some("SearchScope"), "from_module_and_module_spec") {
        let t = trd(r, rep, f.id, None, Cfg::new(inl).coll(2));
        for p in &t.paths {
            let ret = text(&t, p, &p.ret);
            let mut want = vec!["(module.file_id, None)".to_string()];
            let fs = facts(&t, p);
            for (x, v) in &fs {
                if x.starts_with("has(") && matches!(v, Fact::Bool(true)) {
                    want.push(format!("({}.file_id, None)", x.replacen("has(", "elem(", 1)));
                }
            }
            let asked = fs.iter().any(|(x, _)| x.starts_with("has(") && x.contains("related_module_specs("));
            let miss = want.iter().find(|w| !ret.contains(w.as_str()));
            rep.ob(asked && miss.is_none(), "scope:module", &format!("the scope of a module is `{ret}`: {}", miss.map_or("its specs are not looked up".into(), |m| format!("`{m}` is missing"))), &f.file, f.line);
        }
        rep.floor("scopes of modules", t.paths.len(), 2);
    }
    if let Some(f) = need(r, rep, SEARCH, Some("SearchScope"), "from_reverse_dependencies") {
        let t = trd(r, rep, f.id, None, Cfg::new(inl).coll(2));
        let mut n = 0;
        for p in &t.paths {
            let ret = text(&t, p, &p.ret);
            let fs = facts(&t, p);
            for (x, v) in &fs {
                if x.starts_with("has(") && x.contains("source_file_ids_in_package(") && matches!(v, Fact::Bool(true)) {
                    n += 1;
                    let e = x.replacen("has(", "elem(", 1);
                    rep.ob(ret.contains(&format!("({e}, None)")), "scope:packages", &format!("a file of a package that depends on the item's is left out of `{ret}`"), &f.file, f.line);
                }
                if x.starts_with("has(") && x.contains("reverse_transitive_dep_package_ids(") && !x.contains("source_file_ids") && matches!(v, Fact::Bool(true)) {
                    let e = x.replacen("has(", "elem(", 1);
                    let asked = fs.iter().any(|(y, _)| y.contains("source_file_ids_in_package(") && y.contains(&e));
                    n += 1;
                    rep.ob(asked && x.contains("(db, of)"), "scope:packages", "the files of a package that depends on the item's package are not looked up", &f.file, f.line);
                }
            }
        }
        rep.floor("files of depending packages", n, 3);
    }
    if let Some(f) = need(r, rep, "lang/src/hir_db.rs", None, "reverse_transitive_dep_package_ids") {
        let t = trd(r, rep, f.id, None, Cfg::new(|_| false).coll(2));
        let mut n = 0;
        for p in &t.paths {
            let ret = text(&t, p, &p.ret);
            let fs = facts(&t, p);
            let inside = |e: &str| ret.contains(&format!("[{e}")) || ret.contains(&format!(", {e}"));
            rep.ob(inside("of"), "reverse-deps", "a package is not among the packages searched for uses of its own items", &f.file, f.line);
            for (x, v) in &fs {
                if x.starts_with("has(") && matches!(v, Fact::Bool(true)) && x.contains("all_package_ids(") && !x.contains("transitive_dep_package_ids") {
                    let e = x.replacen("has(", "elem(", 1);
                    let dep = truth(&fs, |y| y.contains("transitive_dep_package_ids(") && y.contains(&e) && (y.contains("contains(") || y.starts_with("==(") || y.contains("any(")) && y.contains("of"));
                    n += 1;
                    rep.ob(dep != Some(true) || inside(&e), "reverse-deps", "a package that depends on the item's package is not searched", &f.file, f.line);
                    rep.ob(dep.is_some() || inside(&e), "reverse-deps", "a package is left out without looking at its dependencies", &f.file, f.line);
                }
            }
        }
        rep.floor("packages looked at", n, 2);
    }
    if let Some(f) = need(r, rep, SEARCH, Some("SearchScope"), "files") {
        let t = trd(r, rep, f.id, None, Cfg::new(inl).coll(1));
        let mut n = 0;
        for p in &t.paths {
            let fs = facts(&t, p);
            let Some((x, _)) = fs.iter().find(|(x, v)| x.starts_with("has(") && matches!(v, Fact::Bool(true))) else { continue };
            let e = x.replacen("has(", "elem(", 1);
            let V::List(l) = t.it.deref(&p.st, &p.ret) else { rep.problem("the files of a scope are not a list"); continue };
            n += 1;
            let row = l.first().map(|v| text(&t, p, v)).unwrap_or_default();
            let ranges = match is(&fs, |x| *x == format!("{e}.1")).as_deref() {
                Some("Some") => row.ends_with(&format!(", Some#0({e}.1))")),
                Some("None") => row.contains("[TextRange::up_to(") && row.contains(&format!("file_text(db, {e}.0)")) || row.contains("TextRange::new("),
                _ => row.contains(&format!("{e}.1")),
            };
            rep.ob(l.len() == 1 && ranges && row.contains(&format!("{e}.0, ")), "scope:files", &format!("the file `{e}` of a scope is searched as `{row}`, not in the ranges it was added with"), &f.file, f.line);
        }
        rep.floor("files of a scope", n, 2);
    }
    // adding a range never loses what is there
    if let Some(f) = need(r, rep, SEARCH, Some("SearchScope"), "add_range") {
        let hook = |it: &Interp<Trace>, cx: &Rc<Cx>, st: &St<TW>, c: &MCall| -> Option<Out<TW>> {
            let recv = full(it, &it.deref(st, &c.recv));
            if c.name == "entry" {
                let mut st = st.clone();
                st.event("entry", vec![norm(it, &st, c.args.first()?)], 0, c.line);
                let e = it.sym("ENTRY", vec![]);
                return Some(vec![(st, Flow::Val(e))]);
            }
            if recv != "ENTRY" {
                return None;
            }
            let mut out = vec![];
            for (mut s, there) in it.branch(st.clone(), &it.sym("THERE", vec![])) {
                match c.name {
                    "and_modify" if there => {
                        for (s, f) in it.apply(cx, &c.args[0], vec![it.sym("OLD", vec![])], s, c.line) {
                            out.push((s, if matches!(f, Flow::Val(_)) { Flow::Val(c.recv.clone()) } else { f }));
                        }
                    }
                    "or_insert" if !there => {
                        s.event("inserted", vec![norm(it, &s, &c.args[0])], 0, c.line);
                        out.push((s, Flow::Val(it.sym("NEW", vec![]))));
                    }
                    "or_insert_with" if !there => {
                        for (mut s, f) in it.apply(cx, &c.args[0], vec![], s, c.line) {
                            if let Flow::Val(v) = &f {
                                s.event("inserted", vec![norm(it, &s, v)], 0, c.line);
                            }
                            out.push((s, f));
                        }
                    }
                    "or_default" if !there => {
                        s.event("inserted", vec![V::Ctor("None".into(), Rc::new(vec![]))], 0, c.line);
                        out.push((s, Flow::Val(it.sym("NEW", vec![]))));
                    }
                    "and_modify" => out.push((s, Flow::Val(c.recv.clone()))),
                    _ => out.push((s, Flow::Val(it.sym("OLD", vec![])))),
                }
            }
            Some(out)
        };
        let t = trd(r, rep, f.id, None, Cfg::new(inl).mhook(hook));
        let mut n = 0;
        for p in &t.paths {
            let fs = facts(&t, p);
            let evs: Vec<String> = p.st.events.iter().map(|e| format!("{} {}", last(&e.name), e.args.iter().map(|a| text(&t, p, a)).collect::<Vec<_>>().join(", "))).collect();
            let ins = evs.iter().any(|e| e.starts_with("inserted "));
            let Some(there) = truth(&fs, |x| x == "THERE") else { continue };
            n += 1;
            let pushed = evs.iter().any(|e| e.contains("push ") && e.contains("OLD") && e.ends_with("text_range"));
            let old = is(&fs, |x| x == "OLD");
            let lost = heap_of(&t.it, &p.st, "OLD").is_some();
            let ok = if there { !ins && (old.as_deref() == Some("None") || pushed) && (!lost || pushed) } else { evs.iter().any(|e| e.starts_with("inserted Some([text_range])")) };
            rep.ob(ok && evs.iter().any(|e| e == "entry file_id"), "scope:add-range", &format!("adding a range to a file {}: {evs:?} does not keep the old ranges and the new one", if there { "already in the scope" } else { "not in the scope yet" }), &f.file, f.line);
        }
        if n < 3 {
            rep.assume("SearchScope::add_range is not written with HashMap::entry and was not decided");
        }
    }
    if let Some(f) = need(r, rep, SEARCH, Some("SearchScope"), "add_file_range") {
        let t = trd(r, rep, f.id, None, Cfg::new(|_| false).events(|n| matches!(last(n), "add_range")));
        for p in &t.paths {
            let ok = p.st.events.iter().any(|e| e.args.iter().skip(1).map(|a| text(&t, p, a)).collect::<Vec<_>>() == ["file_range.file_id", "file_range.range"]);
            rep.ob(ok, "scope:add-range", "adding a file range does not add that range of that file", &f.file, f.line);
        }
    }
}

/// how a match of the item's name in a text becomes a use
fn search(r: &Repo, rep: &mut Report) {
    let Some(f) = need(r, rep, SEARCH, Some("FindUsages"), "search") else { return };
    let inl = |g: &FnInfo| g.file.ends_with(SEARCH) && !matches!(g.name.as_str(), "found_name" | "found_name_ref" | "item_search_scope") && matches!(g.self_ty.as_deref(), None | Some("FindUsages"));
    let hook = |it: &Interp<Trace>, cx: &Rc<Cx>, st: &St<TW>, c: &MCall| -> Option<Out<TW>> {
        let rv = it.deref(st, &c.recv);
        let recv = tidy(&full(it, &norm(it, st, &rv)));
        let val = |v: V| Some(vec![(st.clone(), Flow::Val(v))]);
        let pairs = |a: &V, b: &V| V::List(vec![a.clone(), b.clone()].into());
        match c.name {
            "files" => {
                let row = |i: &str| V::Tuple(vec![it.sym(&format!("TEXT{i}"), vec![]), it.sym(&format!("FILE{i}"), vec![]), V::List(vec![it.sym(&format!("RANGE{i}"), vec![])].into())].into());
                let mut st = st.clone();
                st.event("files", vec![norm(it, &st, &rv)], 0, c.line);
                Some(vec![(st, Flow::Val(pairs(&row("1"), &row("2"))))])
            }
            "find_iter" => {
                let on = tidy(&full(it, &norm(it, st, c.args.first()?)));
                let mut st = st.clone();
                st.event("find_iter", vec![rv.clone(), norm(it, &st, c.args.first()?)], 0, c.line);
                let k = on.strip_prefix("TEXT").unwrap_or("?").to_string();
                Some(vec![(st, Flow::Val(pairs(&it.sym(&format!("M{k}a"), vec![]), &it.sym(&format!("M{k}b"), vec![]))))])
            }
            "contains_inclusive" | "contains" if recv.starts_with("RANGE") => val(V::Bool(true)),
            "chars" => val(V::List(vec![].into())),
            "next_back" | "last" | "next" | "first" if matches!(&rv, V::List(l) if l.is_empty()) => val(V::Ctor("None".into(), Rc::new(vec![]))),
            "try_into" => val(V::Ctor("Ok".into(), Rc::new(vec![rv.clone()]))),
            "parse" => val(it.sym("PARSE", vec![norm(it, st, c.args.first()?)])),
            "syntax" if recv.starts_with("PARSE(") => val(it.sym("ROOT", vec![norm(it, st, &rv)])),
            "token_at_offset" => {
                let at = it.sym("AT", vec![norm(it, st, &rv), norm(it, st, c.args.first()?)]);
                val(pairs(&it.sym("TOK0", vec![at.clone()]), &it.sym("TOK1", vec![at])))
            }
            "left_biased" | "right_biased" => match &rv {
                V::List(l) if l.len() == 2 => val(V::Ctor("Some".into(), Rc::new(vec![l[usize::from(c.name == "right_biased")].clone()]))),
                _ => None,
            },
            "text" if recv.starts_with("TOK0(") => val(V::Str("(".into())),
            "text" if recv.starts_with("TOK1(") => val(it.sym("NAME", vec![])),
            "parent" if recv.starts_with("TOK") => val(V::Ctor("Some".into(), Rc::new(vec![it.sym("PARENT", vec![rv.clone()])]))),
            "name" if recv == "self.named_item.value" => {
                let mut out = vec![];
                for (s, b) in it.branch(st.clone(), &it.sym("NAMED", vec![])) {
                    out.push((s, Flow::Val(if b { V::Ctor("Some".into(), Rc::new(vec![it.sym("NAME", vec![])])) } else { V::Ctor("None".into(), Rc::new(vec![])) })));
                }
                Some(out)
            }
            "as_string" | "text" | "to_string" | "as_str" if recv == "NAME" => val(it.sym("NAME", vec![])),
            _ => {
                let _ = cx;
                None
            }
        }
    };
    let chook = |it: &Interp<Trace>, cx: &Rc<Cx>, st: &St<TW>, segs: &[String], args: &[V], line: usize| -> Option<Out<TW>> {
        let n = segs.len();
        if n >= 2 && segs[n - 2] == "LazyCell" && segs[n - 1] == "new" {
            return Some(it.apply(cx, &args[0], vec![], st.clone(), line));
        }
        if n >= 2 && segs[n - 2] == "LazyCell" && segs[n - 1] == "force" {
            return Some(vec![(st.clone(), Flow::Val(it.deref(st, &args[0])))]);
        }
        None
    };
    let cfg = Cfg::new(inl).coll(1).mhook(hook).chook(chook).events(|n| matches!(last(n), "found_name" | "found_name_ref" | "apply"));
    let t = trd(r, rep, f.id, None, cfg);
    let mut n = 0;
    for p in &t.paths {
        let fs = facts(&t, p);
        let named = truth(&fs, |x| x == "NAMED");
        let found: Vec<(String, String)> = p.st.events.iter().filter(|e| last(&e.name).starts_with("found_name")).map(|e| (last(&e.name).to_string(), e.args.get(1).map(|a| text(&t, p, a)).unwrap_or_default())).collect();
        if named != Some(true) {
            rep.ob(named == Some(false), "search:name", "the search ends without looking at the name of the item", &f.file, f.line);
            continue;
        }
        if truth(&fs, |x| x.starts_with("==(") && x.contains("\"(\"")) == Some(true) {
            // the token before the name has the same text: impossible
            continue;
        }
        n += 1;
        // the scope is the item's, cut down by the one asked for
        let scope = p.st.events.iter().find(|e| &*e.name == "files").map(|e| text(&t, p, &e.args[0])).unwrap_or_default();
        let asked = is(&fs, |x| x == "self.scope");
        let scope_ok = scope.contains("item_search_scope(self.sema.db, self.named_item)") && (asked.as_deref() != Some("Some") || scope.contains(".intersect(Some#0(self.scope))") || scope.contains("intersect(item_search_scope") || scope.contains("intersect("));
        rep.ob(scope_ok, "search:scope", &format!("searches `{scope}` instead of the scope of the item"), &f.file, f.line);
        for e in p.st.events.iter().filter(|e| &*e.name == "find_iter") {
            let finder = text(&t, p, &e.args[0]);
            rep.ob(finder.contains("NAME"), "search:finder", &format!("looks for `{finder}`, not for the name of the item"), &f.file, f.line);
        }
        let mut want: Vec<(String, String)> = vec![];
        let mut stopped = false;
        'all: for k in ["1", "2"] {
            for m in ["a", "b"] {
                let parent = format!("PARENT(TOK1(AT(ROOT(PARSE(FILE{k})), M{k}{m})))");
                let parent = if fs.iter().any(|(x, _)| x.contains(&parent)) { parent } else { format!("PARENT(TOK1(AT(PARSE(FILE{k}), M{k}{m})))") };
                let c = format!("NameLike::cast({parent})");
                match is(&fs, |x| x == c).as_deref() {
                    Some("Some") => {}
                    Some("None") => continue,
                    _ => {
                        want.push(("?".into(), parent));
                        continue;
                    }
                }
                let kind = is(&fs, |x| x == format!("Some#0({c})"));
                let (call, arg) = match kind.as_deref() {
                    Some("NameRef") => ("found_name_ref", format!("NameRef#0(Some#0({c}))")),
                    Some("Name") => ("found_name", format!("Name#0(Some#0({c}))")),
                    _ => ("?", parent.clone()),
                };
                want.push((call.to_string(), arg.clone()));
                let stop = truth(&fs, |x| x.contains(&format!("{call}(self, {arg}")) || x.contains(&format!("{call}({arg}")));
                if stop == Some(true) {
                    stopped = true;
                    break 'all;
                }
            }
        }
        let _ = stopped;
        let bad = want.iter().enumerate().find(|(i, w)| found.get(*i) != Some(w)).map(|(_, w)| w.clone());
        let extra = found.len() > want.len();
        rep.ob(
            bad.is_none() && !extra,
            "search:matches",
            &match &bad {
                Some(w) => format!("a match of the name is not looked at: `{}` is not examined ({} examined on this path)", w.1, found.len()),
                None => "the search goes on after it was told to stop".into(),
            },
            &f.file,
            f.line,
        );
    }
    rep.floor("paths of the search", n, 50);
}

/// which matches of the name are dropped before anything is resolved
fn matches_kept(r: &Repo, rep: &mut Report) {
    let Some(f) = need(r, rep, SEARCH, Some("FindUsages"), "find_matches") else { return };
    let mut hit = 0;
    for before in [true, false] {
        let mut chars: Vec<Option<char>> = (0u8..128).map(|b| Some(b as char)).collect();
        chars.extend([Some('\u{e9}'), None]);
        for ch in chars {
            let fired = std::cell::Cell::new(false);
            let fr = &fired;
            let hook = move |it: &Interp<Trace>, _cx: &Rc<Cx>, st: &St<TW>, c: &MCall| -> Option<Out<TW>> {
                let rv = it.deref(st, &c.recv);
                let val = |v: V| Some(vec![(st.clone(), Flow::Val(v))]);
                let some = |c: Option<char>| match c {
                    Some(c) => V::Ctor("Some".into(), Rc::new(vec![V::Tag("char", c as u32)])),
                    None => V::Ctor("None".into(), Rc::new(vec![])),
                };
                match c.name {
                    "find_iter" => val(V::List(vec![it.sym("IDX", vec![])].into())),
                    "try_into" => val(V::Ctor("Ok".into(), Rc::new(vec![rv]))),
                    "contains_inclusive" | "contains" => {
                        let inside = it.sym("INSIDE", vec![]);
                        Some(it.branch(st.clone(), &inside).into_iter().map(|(s, b)| (s, Flow::Val(V::Bool(b)))).collect())
                    }
                    "next_back" | "next" | "last" | "chars" => {
                        let recv = tidy(&full(it, &norm(it, st, &rv)));
                        if c.name == "chars" {
                            return None;
                        }
                        let end = recv.contains("range:010(IDX)");
                        let start = recv.contains("range:100(") && recv.contains("IDX") && recv.contains("len()");
                        if (c.name != "next" && end) || (c.name == "next" && start) {
                            fr.set(true);
                            return val(some(if end == before { ch } else { None }));
                        }
                        None
                    }
                    _ => None,
                }
            };
            let t = trd(r, rep, f.id, None, Cfg::new(|g: &FnInfo| g.file.ends_with(SEARCH) && !g.name.starts_with("found_")).coll(1).mhook(hook));
            let word = ch.is_some_and(|c| c.is_ascii_alphanumeric() || c == '_');
            for p in &t.paths {
                let fs = facts(&t, p);
                let ret = text(&t, p, &p.ret);
                let inside = truth(&fs, |x| x == "INSIDE");
                let kept = ret.contains("IDX");
                let ok = if word || inside == Some(false) || fs.iter().any(|(x, v)| x.starts_with("has(") && **v == Fact::Bool(false)) { !(kept && inside == Some(false)) } else { kept };
                rep.ob(
                    ok,
                    "matches",
                    &if kept { "a match outside the ranges of the scope is kept".to_string() } else { format!("a match of the name {} {ch:?} is dropped: it is the name of a token there", if before { "after" } else { "before" }) },
                    &f.file,
                    f.line,
                );
            }
            if fired.get() {
                hit += 1;
            }
        }
    }
    if hit == 0 {
        rep.assume("FindUsages::find_matches does not look at the neighbours of a match through chars(): nothing was decided about them");
    }
    rep.count("neighbouring characters tried", hit);
}
/// what a name or a reference stands for
fn names(r: &Repo, rep: &mut Report) {
    const DEFS: &str = "ide-db/src/defs.rs";
    let cfg = || {
        Cfg::new(|g: &FnInfo| g.file.ends_with(DEFS) && matches!(g.self_ty.as_deref(), Some("NameClass" | "NameRefClass"))).mhook(|it, _, st, c| {
            let n = match c.name {
                "cast_into_ref" | "cast_into" | "cast" => "as",
                "parent_is" | "parent_of_type" | "resolve_to_element" | "to_ast" => c.name,
                _ => return None,
            };
            let t = turbofish(c).replace("ast::", "").replace("syntax::", "");
            let mut a = vec![c.recv.clone()];
            a.extend(c.args.iter().cloned());
            Some(vec![(st.clone(), Flow::Val(it.sym(&format!("{n}[{t}]"), a)))])
        })
    };
    let typed = |x: &str, what: &str, ty: &str| x.starts_with(&format!("{what}[{ty}](")) || x.starts_with(&format!("{what}[]("));
    let clean = |s: &str| bare(s).replace("match_ast(", "").replace("match_ast!()(", "").replace("match_ast!(", "");
    if let Some(f) = need(r, rep, DEFS, Some("NameClass"), "classify") {
        let t = trd(r, rep, f.id, None, cfg());
        let mut seen = BTreeSet::new();
        for p in &t.paths {
            let fs = bfacts(&t, p);
            let ret = clean(&bare(&text(&t, p, &p.ret)));
            let pat = is(&fs, |x| x.starts_with("syntax(Some#0(parent_of_type[NamedElement](")).as_deref() == Some("IdentPat");
            let res = |x: &str| x.contains("resolve_to_element[NamedElement](");
            let found = is(&fs, |x| x.starts_with("resolve_to_element["));
            let konst = fs.iter().any(|(x, v)| res(x) && x.contains("kind(") && matches!(v, Fact::Is(k) if matches!(&**k, "CONST" | "VARIANT")))
                || fs.iter().any(|(x, v)| x.starts_with("==(") && x.contains("kind(") && (x.contains("CONST") || x.contains("VARIANT")) && matches!(v, Fact::Bool(true)));
            let not = |k: &str| {
                fs.iter().any(|(x, v)| res(x) && x.contains("kind(") && match v {
                    Fact::Not(s) => s.iter().any(|y| &**y == k),
                    Fact::Is(y) => &**y != k,
                    Fact::Bool(b) => !*b && x.starts_with("==(") && x.contains(k),
                })
            };
            let none = |ty: &str| fs.iter().any(|(x, v)| typed(x, "as", ty) && res(x) && matches!(v, Fact::Is(k) if &**k == "None"));
            let some = |ty: &str| fs.iter().any(|(x, v)| typed(x, "as", ty) && res(x) && matches!(v, Fact::Is(k) if &**k == "Some"));
            let param = truth(&fs, |x| typed(x, "parent_is", "Param") && res(x));
            let fieldless = is(&fs, |x| x.starts_with("as[") && x.contains("parent(") && !x.contains("name_ref(")).as_deref() == Some("None") || is(&fs, |x| x.starts_with("parent(")).as_deref() == Some("None");
            let labelled = is(&fs, |x| x.contains("name_ref(") || x.ends_with(".name_ref()"));
            let plain = fieldless || labelled.as_deref() == Some("Some");
            let item = ret.starts_with("Some(Definition(named_item(");
            let (kind, ok, why) = if !pat {
                let nowhere = fs.iter().any(|(_, v)| matches!(v, Fact::Is(k) if &**k == "None"));
                ("item", if ret == "None" { nowhere } else { item && ret.contains("parent_of_type[NamedElement](") && !res(&ret) }, "the name of an item")
            } else if ret.starts_with("Some(ConstReference(named_item(Some#0(resolve_to_element[NamedElement](") {
                ("const", konst, "a pattern that is not known to be a constant or a variant")
            } else if ret.starts_with("Some(ItemSpecFunctionParam{") {
                let own = ret.contains("spec_ident_pat: wrap_node_infile(") && ret.contains("fun_param_ident_pat: Some#0(as[");
                ("spec", param == Some(true) && not("CONST") && not("VARIANT") && own, "a pattern that is not known to stand for a parameter")
            } else if ret.starts_with("Some(PatFieldShorthand{") {
                let own = ret.contains("ident_pat: wrap_node_infile(") && ret.contains("named_field: Some#0(as[");
                ("shorthand", labelled.as_deref() == Some("None") && some("NamedField") && not("CONST") && not("VARIANT") && own, "a pattern that is not known to be a shorthand")
            } else if item && !res(&ret) {
                let no_const = not("CONST") && not("VARIANT");
                let no_spec = none("IdentPat") || param == Some(false) || some("NamedField");
                let no_field = plain || none("NamedField");
                ("local", found.as_deref() == Some("None") || no_const && no_spec && no_field, "a pattern that can be a constant, a variant, a parameter or a field")
            } else {
                ("other", false, "a pattern")
            };
            seen.insert(kind);
            rep.ob(ok, &format!("name:{kind}"), &format!("{why} counts as `{}`", ret.chars().take(160).collect::<String>()), &f.file, f.line);
        }
        for k in ["item", "const", "spec", "shorthand", "local"] {
            rep.ob(seen.contains(k), "name:kinds", &format!("no name counts as a `{k}`"), &f.file, f.line);
        }
    }
    if let Some(f) = need(r, rep, DEFS, Some("NameRefClass"), "classify") {
        let t = trd(r, rep, f.id, None, cfg());
        let mut seen = BTreeSet::new();
        for p in &t.paths {
            let fs = bfacts(&t, p);
            let ret = clean(&bare(&text(&t, p, &p.ret)));
            let gone = |w: &dyn Fn(&str) -> bool| fs.iter().any(|(x, v)| w(x) && matches!(v, Fact::Is(k) if &**k == "None"));
            let lit = is(&fs, |x| x.starts_with("Some#0(") && x.contains("try_into_struct_lit_field(name_ref)") && x.matches('(').count() == 2);
            let path = is(&fs, |x| typed(x, "as", "PathSegment"));
            let single = is(&fs, |x| x.contains("single_or_none(") && !x.starts_with("to_ast[") && !x.contains("to_ast("));
            let (kind, ok) = match lit.as_deref() {
                Some("Full") => {
                    let res = "resolve_to_element[NamedField](sema, wrap_node_infile(sema, Some#0(try_into_struct_lit_field(name_ref)).struct_field))";
                    ("field", if ret == "None" { gone(&|x| x == res) } else { (ret.starts_with("Some(Definition(NamedItem(Field, ") || ret.starts_with("Some(Definition(named_item(")) && ret.contains(&format!("Some#0({res})")) })
                }
                Some("Shorthand") => {
                    let items = "into_field_shorthand_items(sema.db, resolve(sema, Some#0(try_into_struct_lit_field(name_ref)).path))";
                    let ok = ret.starts_with("Some(FieldShorthand{") && ret.contains(&format!("ident_pat: Some#0({items}).1")) && ret.contains(&format!("named_field: Some#0({items}).0"));
                    ("shorthand", if ret == "None" { gone(&|x| x == items) } else { ok })
                }
                _ if gone(&|x| x == "parent(syntax(name_ref))") => ("nowhere", ret == "None"),
                _ if ret.starts_with("Some(Definition(BuiltinType") => ("builtin", single.as_deref() == Some("None") && truth(&fs, |x| x.contains("BUILTIN_TYPE_IDENTS")) == Some(true)),
                _ if ret.starts_with("Some(") => {
                    let of = if path.as_deref() == Some("Some") { "single_or_none(resolve(sema, parent_path(" } else { "single_or_none(resolve(sema, Some#0(as[" };
                    let of = [of, if path.as_deref() == Some("Some") { "single_or_none(resolve(sema, Some#0(as[PathSegment](" } else { of }];
                    (if path.as_deref() == Some("Some") { "path" } else { "reference" }, ret.starts_with("Some(Definition(named_item(Some#0(to_ast[") && of.iter().any(|o| ret.contains(o)) && single.as_deref() == Some("Some"))
                }
                _ => {
                    let unresolved = single.as_deref() == Some("None") && (path.as_deref() != Some("Some") || truth(&fs, |x| x.contains("BUILTIN_TYPE_IDENTS")) == Some(false));
                    let no_item = gone(&|x| x.starts_with("to_ast["));
                    let no_ref = path.as_deref() == Some("None") && gone(&|x| typed(x, "as", "ReferenceElement"));
                    ("none", ret == "None" && (unresolved || no_item || no_ref))
                }
            };
            seen.insert(kind);
            rep.ob(ok, &format!("ref:{kind}"), &format!("a reference counts as `{}`, which is not what it resolves to", ret.chars().take(160).collect::<String>()), &f.file, f.line);
        }
        for k in ["field", "shorthand", "builtin", "path", "reference"] {
            rep.ob(seen.contains(k), "ref:kinds", &format!("no reference counts as a `{k}`"), &f.file, f.line);
        }
    }
}
/// which classified names are reported as uses of the item
fn found(r: &Repo, rep: &mut Report) {
    let inl = |g: &FnInfo| g.file.ends_with(SEARCH) && !matches!(g.self_ty.as_deref(), Some("FileReferenceNode" | "SearchScope" | "UsageSearchResult"));
    for (name, arg, class) in [("found_name_ref", "name_ref", "NameRefClass"), ("found_name", "name", "NameClass")] {
        let Some(f) = need(r, rep, SEARCH, Some("FindUsages"), name) else { continue };
        let t = trd(r, rep, f.id, None, Cfg::new(inl).events(|n| matches!(last(n), "apply" | "sink")));
        let c = format!("{class}::classify(self.sema, {arg})");
        let mut seen = BTreeSet::new();
        for p in &t.paths {
            let fs = facts(&t, p);
            let ret = text(&t, p, &p.ret);
            let kind = is(&fs, |x| x == format!("Some#0({c})"));
            let k = format!("Some#0({c})");
            let eq = |field: &str| truth(&fs, |x| x.starts_with("==(") && x.contains("self.named_item") && x.contains(field));
            // is it a use of the item
            let uses = match kind.as_deref() {
                Some(k0 @ ("Definition" | "ConstReference")) if !(class == "NameClass" && k0 == "Definition") => eq(&format!("NamedItem#1({k0}#0({k}))")) == Some(true),
                Some("FieldShorthand") => eq(&format!("{k}.ident_pat")) == Some(true) || eq(&format!("{k}.named_field")) == Some(true),
                Some("ItemSpecFunctionParam") => eq(&format!("{k}.fun_param_ident_pat")) == Some(true),
                Some("PatFieldShorthand") => eq(&format!("{k}.named_field")) == Some(true),
                _ => false,
            };
            // was everything that could make it one looked at
            let looked = match kind.as_deref() {
                Some("FieldShorthand") => uses || eq(&format!("{k}.ident_pat")).is_some() && eq(&format!("{k}.named_field")).is_some(),
                Some("ItemSpecFunctionParam") => eq("fun_param_ident_pat").is_some(),
                Some("PatFieldShorthand") => eq("named_field").is_some(),
                Some(k0 @ ("Definition" | "ConstReference")) if !(class == "NameClass" && k0 == "Definition") => {
                    eq("NamedItem#1(").is_some() || p.st.facts.iter().any(|(x, f)| full(&t.it, &V::Sym(*x)).starts_with(&format!("{k0}#0(")) && (matches!(f, Fact::Not(_)) || matches!(f, Fact::Is(n) if &**n != "NamedItem")))
                }
                _ => {
                    let want: &[&str] = if class == "NameClass" { &["ItemSpecFunctionParam", "PatFieldShorthand", "ConstReference"] } else { &["FieldShorthand", "Definition"] };
                    let none = is(&fs, |x| x == c).as_deref() == Some("None");
                    none || kind.is_some() || p.st.facts.iter().any(|(x, f)| tidy(&full(&t.it, &V::Sym(*x))) == k && matches!(f, Fact::Not(s) if want.iter().all(|w| s.iter().any(|v| &**v == *w))))
                }
            };
            let kd = kind.clone().unwrap_or_else(|| "other".into());
            seen.insert(kd.clone());
            if !uses {
                rep.ob(ret == "false" && looked, &format!("{name}:{kd}"), &if looked { format!("a name that is not a use of the item ends the search or is reported: {ret}") } else { format!("a {kd} name is passed over without being compared with the item") }, &f.file, f.line);
                continue;
            }
            let node = if class == "NameClass" { format!("Name({arg})") } else { format!("NameRef({arg})") };
            let range = format!("file_range(self.sema, {arg}");
            let _ = &range;
            let site = ret.contains("apply(sink, ") && ret.contains(&node);
            let own_range = ret.contains("range: ") && ret.split("range: ").nth(1).is_some_and(|x| x.contains(arg) && (x.contains("text_range(") || x.contains("file_range(")) && !x.contains(".parent("));
            let file = match kd.as_str() {
                "ItemSpecFunctionParam" => ret.contains(&format!("{k}.spec_ident_pat.file_id")) || ret.contains("file_range("),
                "PatFieldShorthand" => ret.contains(&format!("{k}.ident_pat.file_id")) || ret.contains("file_range("),
                _ => ret.contains("file_range("),
            };
            rep.ob(site && own_range && file, &format!("{name}:{kd}"), &format!("a {kd} name that is a use of the item is reported as `{}`: not under its file, its range and its node", ret.chars().take(200).collect::<String>()), &f.file, f.line);
        }
        rep.floor(&format!("classes of names in {name}"), seen.len(), 2);
    }
    if let Some(f) = need(r, rep, SEARCH, Some("FindUsages"), "fetch_all") {
        let t = trd(r, rep, f.id, None, Cfg::new(|_| false));
        let pushes = t.paths.iter().flat_map(|p| p.st.events.iter().map(move |e| (p, e))).filter(|(_, e)| last(&e.name) == "push" || last(&e.name) == "insert");
        let mut n = 0;
        for (p, e) in pushes {
            n += 1;
            let a: Vec<String> = e.args.iter().map(|a| text(&t, p, a)).collect();
            let ok = a.first().is_some_and(|x| x.contains(".references.entry(arg0-of-")) && a.get(1).is_some_and(|x| x.starts_with("arg1-of-"));
            rep.ob(ok, "fetch-all", &format!("a found use is stored as `{}`, not under its file", a.join(", ").chars().take(160).collect::<String>()), &f.file, f.line);
        }
        rep.floor("uses stored by fetch_all", n, 1);
        for p in &t.paths {
            let ret = text(&t, p, &p.ret);
            rep.ob(ret.contains("UsageSearchResult") || ret.starts_with("coll("), "fetch-all", &format!("fetch_all returns `{}`", ret.chars().take(100).collect::<String>()), &f.file, f.line);
        }
    }
    for (name, want) in [("fetch_all", false), ("at_least_one", true)] {
        let Some(f) = need(r, rep, SEARCH, Some("FindUsages"), name) else { continue };
        let hook = |it: &Interp<Trace>, cx: &Rc<Cx>, st: &St<TW>, c: &MCall| -> Option<Out<TW>> {
            if c.name != "search" {
                return None;
            }
            let mut out = vec![];
            for (s, b) in it.branch(st.clone(), &it.sym("USED", vec![])) {
                if !b {
                    out.push((s, Flow::Val(V::Unit)));
                    continue;
                }
                for (mut s, fl) in it.apply(cx, &it.deref(&s, &c.args[0]), vec![it.sym("FILE", vec![]), it.sym("USE", vec![])], s.clone(), c.line) {
                    if let Flow::Val(v) = &fl {
                        s.event("told", vec![it.deref(&s, v)], 0, c.line);
                        out.push((s, Flow::Val(V::Unit)));
                    } else {
                        out.push((s, fl));
                    }
                }
            }
            Some(out)
        };
        let t = trd(r, rep, f.id, None, Cfg::new(|_| false).mhook(hook));
        let mut n = 0;
        for p in &t.paths {
            let fs = facts(&t, p);
            let used = truth(&fs, |x| x == "USED");
            let told = p.st.events.iter().find(|e| &*e.name == "told").map(|e| text(&t, p, &e.args[0]));
            let Some(used) = used else { rep.problem(format!("{name} does not search")); continue };
            n += 1;
            if name == "at_least_one" {
                let ret = text(&t, p, &p.ret);
                rep.ob(ret == used.to_string(), "at-least-one", &format!("says {ret} when {} use was found", if used { "a" } else { "no" }), &f.file, f.line);
            } else if used {
                rep.ob(told.as_deref() == Some(if want { "true" } else { "false" }), "fetch-all", "the search for all uses stops after the first one", &f.file, f.line);
            }
        }
        rep.floor(&format!("paths of {name}"), n, 2);
    }
}
/// what the requests make of the uses found
fn answers(r: &Repo, rep: &mut Report) {
    let hook = |it: &Interp<Trace>, _cx: &Rc<Cx>, st: &St<TW>, c: &MCall| -> Option<Out<TW>> {
        let rv = it.deref(st, &c.recv);
        match c.name {
            "fetch_all" => {
                let mut st = st.clone();
                st.event("fetch_all", vec![norm(it, &st, &rv)], 0, c.line);
                Some(vec![(st, Flow::Val(it.sym("USES", vec![])))])
            }
            "unique" | "sorted" | "dedup" => Some(vec![(st.clone(), Flow::Val(rv))]),
            "unique_by" | "dedup_by" | "dedup_by_key" | "dedup_by_with_count" | "step_by" | "skip" | "take" | "nth" | "truncate" | "drain" => {
                let mut st = st.clone();
                st.event("lossy", vec![], 0, c.line);
                Some(vec![(st, Flow::Val(rv))])
            }
            "remove" | "get" if full(it, &rv) == "USES.references" => Some(vec![(st.clone(), Flow::Val(V::Ctor("Some".into(), Rc::new(vec![it.sym("OWN", vec![])]))))]),
            _ => None,
        }
    };
    if let Some(f) = need(r, rep, "ide/src/references.rs", None, "find_all_refs") {
        let t = trd(r, rep, f.id, None, Cfg::new(|g: &FnInfo| g.file.ends_with("ide/src/references.rs") && g.name != "find_def_at_offset").coll(1).mhook(hook));
        let mut n = 0;
        for p in &t.paths {
            let ret = text(&t, p, &p.ret);
            if !ret.starts_with("Some(") {
                continue;
            }
            n += 1;
            let of = p.st.events.iter().find(|e| &*e.name == "fetch_all").map(|e| text(&t, p, &e.args[0])).unwrap_or_default();
            rep.ob(of.contains("item_usages(") && of.contains("find_def_at_offset(") && of.contains("position.offset"), "references:item", "what is searched for is not the item at the position", &f.file, f.line);
            rep.ob(p.st.events.iter().all(|e| &*e.name != "lossy"), "references:all", "some of the uses that were found are left out", &f.file, f.line);
            let put: Vec<String> = p.st.events.iter().filter(|e| matches!(last(&e.name), "insert" | "push" | "extend")).map(|e| e.args.iter().skip(1).map(|a| text(&t, p, a)).collect::<Vec<_>>().join(", ")).collect();
            let ret = format!("{ret} {}", put.iter().map(|x| format!("({x})")).collect::<String>());
            rep.ob(of.contains("search_scope"), "references:scope", "the scope asked for is not applied", &f.file, f.line);
            for (x, v) in facts(&t, p) {
                if *v != Fact::Bool(true) || !x.starts_with("has(") {
                    continue;
                }
                let e = x.replacen("has(", "elem(", 1);
                let ok = if x.contains("elem(USES") { ret.contains(&format!("{e}.range")) } else if e.contains("USES") { ret.contains(&format!("({e}.0, ")) } else { continue };
                rep.ob(ok, "references:all", "a use that was found is not in the answer under its file", &f.file, f.line);
            }
        }
        rep.floor("answers of find_all_refs", n, 2);
    }
    if let Some(f) = need(r, rep, "ide/src/highlight_related.rs", None, "highlight_related") {
        let t = trd(r, rep, f.id, None, Cfg::new(|g: &FnInfo| g.file.ends_with("ide/src/highlight_related.rs")).coll(1).mhook(hook));
        let mut n = 0;
        for p in &t.paths {
            if p.st.events.iter().all(|e| &*e.name != "fetch_all") {
                continue;
            }
            n += 1;
            let of = p.st.events.iter().find(|e| &*e.name == "fetch_all").map(|e| text(&t, p, &e.args[0])).unwrap_or_default();
            rep.ob(of.contains("item_usages(") && of.contains("find_def_at_offset("), "highlight:item", "what is highlighted is not the item at the position", &f.file, f.line);
            rep.ob(p.st.events.iter().all(|e| &*e.name != "lossy"), "highlight:all", "some of the uses that were found are left out", &f.file, f.line);
            let file = of.split("from_single_file(").nth(1).and_then(|x| x.split(')').next()).unwrap_or("");
            let scope = !of.contains("scope(") || file.ends_with(".file_id") && !file.contains("find_def_at_offset");
            rep.ob(scope, "highlight:scope", &format!("uses are looked for in `{of}`, not in the file shown").chars().take(200).collect::<String>(), &f.file, f.line);
            let fs = facts(&t, p);
            let put: Vec<String> = p.st.events.iter().filter(|e| matches!(last(&e.name), "insert" | "extend" | "push")).map(|e| e.args.iter().skip(1).map(|a| text(&t, p, a)).collect::<Vec<_>>().join(", ")).collect();
            let ret = text(&t, p, &p.ret);
            let has = |y: &str| put.iter().any(|x| x.contains(y)) || ret.contains(y);
            let here = truth(&fs, |x| x.starts_with("==(") && x.contains("file_id"));
            let def = put.iter().any(|x| x.contains(".name()") && x.contains("text_range(")) || ret.contains(".name()");
            rep.ob(here.is_none() || here == Some(def), "highlight:definition", if def { "the range of a definition in another file is highlighted in this one" } else { "the definition in the file shown is not highlighted" }, &f.file, f.line);
            for (x, v) in &fs {
                if **v == Fact::Bool(true) && x.starts_with("has(OWN") {
                    rep.ob(has(&format!("{}.range", x.replacen("has(", "elem(", 1))), "highlight:all", "a use that was found is not highlighted", &f.file, f.line);
                }
            }
        }
        rep.floor("answers of highlight_related", n, 2);
    }
}
/// the item under the cursor: the one the identifier on either side of the position stands for
fn at_offset(r: &Repo, rep: &mut Report) {
    let Some(f) = need(r, rep, "ide/src/references.rs", None, "find_def_at_offset") else { return };
    let hook = |it: &Interp<Trace>, _cx: &Rc<Cx>, st: &St<TW>, c: &MCall| -> Option<Out<TW>> {
        let rv = it.deref(st, &c.recv);
        let opt = |v: Option<V>| match v {
            Some(v) => V::Ctor("Some".into(), Rc::new(vec![v])),
            None => V::Ctor("None".into(), Rc::new(vec![])),
        };
        let v = match (c.name, &rv) {
            ("token_at_offset", _) => V::List(vec![it.sym("LEFT", vec![]), it.sym("RIGHT", vec![])].into()),
            ("right_biased", V::List(l)) => opt(l.last().cloned()),
            ("left_biased", V::List(l)) => opt(l.first().cloned()),
            _ => return None,
        };
        Some(vec![(st.clone(), Flow::Val(v))])
    };
    let t = trd(r, rep, f.id, None, Cfg::new(|g: &FnInfo| g.file.ends_with("ide/src/references.rs")).mhook(hook));
    let mut seen = BTreeSet::new();
    const IDENTS: [&str; 3] = ["IDENT", "INT_NUMBER", "QUOTE_IDENT"];
    for p in &t.paths {
        let fs = bfacts(&t, p);
        let ret = bare(&text(&t, p, &p.ret));
        let kind = |tok: &str| {
            let of = |x: &str| x.contains(tok) && x.contains("kind(");
            if fs.iter().any(|(x, v)| of(x) && (matches!(v, Fact::Is(k) if IDENTS.contains(&&**k)) || x.starts_with("==(") && IDENTS.iter().any(|i| x.contains(i)) && matches!(v, Fact::Bool(true)))) {
                return Some(true);
            }
            let no = IDENTS.iter().all(|i| fs.iter().any(|(x, v)| of(x) && (matches!(v, Fact::Not(s) if s.iter().any(|y| y.as_ref() == *i)) || x.starts_with("==(") && x.contains(*i) && matches!(v, Fact::Bool(false)))));
            no.then_some(false)
        };
        let asked = fs.iter().map(|(x, _)| x.as_str()).filter(|x| x.contains("parent(")).collect::<Vec<_>>().join(" ");
        let used = if asked.contains("LEFT") { "LEFT" } else if asked.contains("RIGHT") { "RIGHT" } else { "" };
        let ok = match used {
            "" => kind("LEFT") == Some(false) && kind("RIGHT") == Some(false),
            u => kind(u) == Some(true),
        };
        rep.ob(ok, "at:token", &format!("with the cursor between two tokens, `{}` is looked at and an identifier is not", if used.is_empty() { "neither" } else { used }), &f.file, f.line);
        if ret == "None" {
            continue;
        }
        let class = |x: &str| x.starts_with("Some#0(classify(sema, ");
        let kind = is(&fs, class).unwrap_or_default();
        let tail = match kind.as_str() {
            "PatFieldShorthand" | "FieldShorthand" => ".ident_pat",
            "ItemSpecFunctionParam" => ".fun_param_ident_pat",
            _ => "",
        };
        let want = if matches!(kind.as_str(), "Definition" | "ConstReference") { format!("Some(NamedItem#1({kind}#0(Some#0(classify(sema, ") } else { "Some(map_into(Some#0(classify(sema, ".into() };
        let plain = want.replace("map_into(", "");
        let r0 = ret.replace("InFile::", "").replace("map(Some#0(classify", "map_into(Some#0(classify");
        rep.ob((r0.starts_with(&want) || r0.starts_with(&plain)) && (tail.is_empty() || r0.contains(tail)), &format!("at:{kind}"), &format!("for a {kind} the item looked for is `{}`", ret.chars().take(160).collect::<String>()), &f.file, f.line);
        seen.insert(kind);
    }
    for k in ["Definition", "PatFieldShorthand", "FieldShorthand", "ConstReference", "ItemSpecFunctionParam"] {
        rep.ob(seen.contains(k), "at:kinds", &format!("no item is found at a {k}"), &f.file, f.line);
    }
}
/// a search confined to a scope
fn intersection(r: &Repo, rep: &mut Report) {
    let Some(f) = need(r, rep, SEARCH, Some("SearchScope"), "intersect") else { return };
    let cfg = Cfg::new(|g: &FnInfo| g.file.ends_with(SEARCH)).coll(1).chook(|it, _, st, segs, a, _| {
        let [.., name] = segs else { return None };
        let [V::Ref(p), V::Ref(q)] = a else { return None };
        if name != "swap" {
            return None;
        }
        let (x, y) = (it.read(st, p), it.read(st, q));
        let mut s = st.clone();
        it.write(&mut s, p, y);
        it.write(&mut s, q, x);
        Some(vec![(s, Flow::Val(V::Unit))])
    });
    let t = trd(r, rep, f.id, None, cfg);
    let mut n = 0;
    for p in &t.paths {
        let fs = bfacts(&t, p);
        let ret = bare(&text(&t, p, &p.ret));
        let gone = |x: &str| is(&fs, |y| y == x).is_some_and(|k| k == "None" || k == "Err");
        for (s, l) in [("self", "other"), ("other", "self")] {
            if truth(&fs, |x| x == format!("has({s}.entries, 1)")) != Some(true) {
                continue;
            }
            n += 1;
            let e = format!("elem({s}.entries, 1)");
            let got = format!("{l}.entries.get({e}.0)");
            let found = ["Some", "Ok"].iter().map(|k| format!("{k}#0({got})")).find(|x| fs.iter().any(|(y, _)| y.contains(x.as_str()))).unwrap_or(format!("Some#0({got})"));
            let file = format!("({e}.0, ");
            if gone(&got) {
                rep.ob(!ret.contains(&file), "intersect", "a file that is not in both scopes is searched", &f.file, f.line);
                continue;
            }
            let (a, b) = (gone(&format!("{e}.1")), gone(&found));
            let inner = ret.split(&file).nth(1).unwrap_or("");
            let (ra, rb) = (format!("Some#0({e}.1)"), format!("Some#0({found})"));
            let ok = match (a, b) {
                (true, true) => inner.starts_with("None)"),
                (false, true) => inner.starts_with(&format!("Some({ra}))")) || inner.starts_with(&format!("{e}.1)")),
                (true, false) => inner.starts_with(&format!("Some({rb}))")) || inner.starts_with(&format!("{found})")),
                (false, false) => {
                    let both = truth(&fs, |x| x == format!("has({ra}, 1)")) == Some(true) && truth(&fs, |x| x == format!("has({rb}, 1)")) == Some(true);
                    let none = fs.iter().any(|(x, v)| x.contains("intersect(") && matches!(v, Fact::Is(k) if &**k == "None"));
                    inner.starts_with("Some([") && (!both || none || inner.contains("intersect("))
                }
            };
            rep.ob(ok, "intersect", &format!("a file in both scopes is searched in `{}` ({} in one, {} in the other)", inner.chars().take(80).collect::<String>(), if a { "the whole file" } else { "ranges" }, if b { "the whole file" } else { "ranges" }), &f.file, f.line);
        }
    }
    rep.floor("files of an intersection", n, 5);
}
/// what the client is told
fn told(r: &Repo, rep: &mut Report) {
    const REQ: &str = "aptos-language-server/src/handlers/request.rs";
    if let Some(f) = need(r, rep, REQ, None, "handle_references") {
        let cfg = Cfg::new(|_| false).coll(1).events(|n| last(n) == "location").mhook(|it, cx, st, c| match c.name {
            "map" | "and_then" if matches!(&c.recv, V::Sym(_)) && full(it, &c.recv).ends_with(".declaration") => {
                let one = it.sym("declared", vec![]);
                let mut outs = vec![];
                for (s, yes) in it.branch(st.clone(), &one) {
                    if yes {
                        for (s, fl) in it.apply(cx, &c.args[0], vec![one.clone()], s, c.line) {
                            outs.push((s, match fl {
                                Flow::Val(v) if c.name == "map" => Flow::Val(V::Ctor("Some".into(), Rc::new(vec![v]))),
                                x => x,
                            }));
                        }
                    } else {
                        outs.push((s, Flow::Val(V::Ctor("None".into(), Rc::new(vec![])))));
                    }
                }
                Some(outs)
            }
            "unique" => Some(vec![(st.clone(), Flow::Val(c.recv.clone()))]),
            _ => None,
        });
        let t = trd(r, rep, f.id, None, cfg);
        let mut n = 0;
        for p in &t.paths {
            let fs = bfacts(&t, p);
            let ret = bare(&text(&t, p, &p.ret));
            let refs = "Some#0(Ok#0(find_all_refs(snap.analysis, Ok#0(file_position(snap, params.text_document_position_params)), None)))";
            if ret == "Ok(None)" {
                let none = is(&fs, |x| format!("Some#0({x})") == refs);
                rep.ob(none.as_deref() == Some("None"), "told:none", "uses that were found are not reported to the client", &f.file, f.line);
            }
            if !ret.starts_with("Ok(Some(") {
                continue;
            }
            n += 1;
            let has = |x: &str| truth(&fs, |y| y == format!("has({x}, 1)"));
            let file = format!("elem({refs}.references, 1)");
            let mut want = BTreeSet::new();
            if has(&format!("{refs}.references")) == Some(true) && has(&format!("{file}.1")) != Some(false) {
                want.insert(format!("FileRange{{file_id: {file}.0, range: elem({file}.1, 1)}}"));
            }
            let decl = truth(&fs, |x| x.ends_with("include_declaration"));
            let whole = format!("Some#0({refs}.declaration)");
            let declared = truth(&fs, |x| x == "declared") == Some(true) || is(&fs, |x| format!("Some#0({x})") == whole).as_deref() == Some("Some");
            if decl == Some(true) && declared {
                want.insert("FileRange{file_id: declared.file_id, range: focus_or_full_range(declared)}".into());
            }
            let got: BTreeSet<String> = p.st.events.iter().filter(|e| last(&e.name) == "location").filter_map(|e| e.args.get(1).map(|a| bare(&text(&t, p, a)).replace(&whole, "declared"))).collect();
            let asked = decl.is_some() || !got.iter().any(|g| g.contains("declared"));
            rep.ob(got == want && asked, "told:references", &format!("the client is told {got:?} instead of {want:?}").chars().take(400).collect::<String>(), &f.file, f.line);
        }
        rep.floor("lists of references told", n, 5);
    }
    if let Some(f) = need(r, rep, REQ, None, "handle_document_highlight") {
        let t = trd(r, rep, f.id, None, Cfg::new(|_| false).coll(1));
        let mut n = 0;
        for p in &t.paths {
            let fs = bfacts(&t, p);
            let ret = bare(&text(&t, p, &p.ret));
            let res = "Ok#0(highlight_related(snap.analysis, Ok#0(file_position(snap, params.text_document_position_params))))";
            if ret == "Ok(None)" {
                rep.ob(is(&fs, |x| x == res).as_deref() == Some("None"), "told:none", "uses that were found are not highlighted", &f.file, f.line);
            }
            if !ret.starts_with("Ok(Some(") {
                continue;
            }
            n += 1;
            let has = truth(&fs, |x| x == format!("has(Some#0({res}), 1)"));
            let shown = ret.contains("range: lsp_range(") && ret.contains(&format!("elem(Some#0({res}), 1)"));
            rep.ob(has == Some(shown), "told:highlight", &format!("of the uses found the client is told `{}`", ret.chars().take(200).collect::<String>()), &f.file, f.line);
        }
        rep.floor("highlights told", n, 2);
    }
}
/// what the client is told about a rename
fn told_renames(r: &Repo, rep: &mut Report) {
    const REQ: &str = "aptos-language-server/src/handlers/request.rs";
    if let Some(f) = need(r, rep, REQ, None, "handle_rename") {
        let t = trd(r, rep, f.id, None, Cfg::new(|_| false).coll(1));
        let change = "Ok#0(Ok#0(rename(snap.analysis, Ok#0(file_position(snap, params.text_document_position_params)), params.new_name)))";
        let mut n = 0;
        for p in &t.paths {
            let fs = bfacts(&t, p);
            let ret = bare(&text(&t, p, &p.ret));
            if !ret.starts_with("Ok(") {
                continue;
            }
            n += 1;
            rep.ob(ret == format!("Ok(Some(Ok#0(workspace_edit(snap, {change}))))"), "told:rename", &format!("the client is told `{}` instead of the edits of the rename", ret.chars().take(200).collect::<String>()), &f.file, f.line);
            let moves = truth(&fs, |x| x == format!("is_empty({change}.file_system_edits)") || x == format!("{change}.file_system_edits.is_empty()")) == Some(false);
            let again = truth(&fs, |x| x.starts_with("will_rename(")) == Some(true);
            let dropped = p.st.events.iter().any(|e| matches!(last(&e.name), "clear" | "take" | "drain" | "retain") && e.args.first().is_some_and(|a| text(&t, p, a).contains("source_file_edits")));
            let put_away = p.st.heap.iter().any(|(x, _)| full(&t.it, &V::Sym(*x)).contains("source_file_edits"));
            rep.ob(!(dropped || put_away) || moves && again, "told:rename", "the edits of a rename that moves no file are dropped", &f.file, f.line);
        }
        rep.floor("renames told", n, 2);
    }
    if let Some(f) = need(r, rep, REQ, None, "handle_prepare_rename") {
        let t = trd(r, rep, f.id, None, Cfg::new(|_| false));
        let mut n = 0;
        for p in &t.paths {
            let ret = bare(&text(&t, p, &p.ret));
            if !ret.starts_with("Ok(") {
                continue;
            }
            n += 1;
            let range = "Ok#0(Ok#0(prepare_rename(snap.analysis, Ok#0(file_position(snap, params.text_document_position_params))))).range";
            rep.ob(ret.starts_with("Ok(Some(Range(lsp_range(") && ret.ends_with(&format!(", {range}))))")), "told:prepare", &format!("the client is told `{}` instead of the range of the name", ret.chars().take(200).collect::<String>()), &f.file, f.line);
        }
        rep.floor("prepared renames told", n, 1);
    }
}
pub fn d10(r: &Repo, _: bool) -> Report {
    let mut rep = Report::new("");
    let rep = &mut rep;
    scope(r, rep);
    scopes(r, rep);
    search(r, rep);
    matches_kept(r, rep);
    found(r, rep);
    names(r, rep);
    told(r, rep);
    at_offset(r, rep);
    intersection(r, rep);
    answers(r, rep);
    std::mem::take(rep)
}

/// `Type::f(x)` -> `f(x)`
pub(super) fn bare(s: &str) -> String {
    let mut out = String::new();
    for part in s.split("::") {
        if !out.is_empty() {
            let cut = out.rfind(|c: char| !(c.is_alphanumeric() || c == '_')).map_or(0, |i| i + 1);
            if part.starts_with(|c: char| c.is_lowercase()) {
                out.truncate(cut);
            } else {
                out.push_str("::");
            }
        }
        out.push_str(part);
    }
    out
}
fn edits(t: &Traced, p: &PathR) -> Vec<(String, Vec<String>)> {
    p.st.events.iter().map(|e| (last(&e.name).to_string(), e.args.iter().skip(1).map(|a| bare(&text(t, p, a))).collect())).collect()
}
pub(super) fn bfacts<'a>(t: &'a Traced, p: &'a PathR) -> Vec<(String, &'a Fact)> {
    facts(t, p).into_iter().map(|(x, f)| (bare(&x), f)).collect()
}
/// the text an edit puts in, with `N` for the new name
fn put(s: &str) -> String {
    if let Some(r) = s.strip_prefix("format!(\"") {
        if let Some((tpl, _)) = r.split_once("\",") {
            return tpl.replace("{new_name}", "N").replace("{}", "N");
        }
    }
    if s.starts_with("new_name") { "N".into() } else { s.to_string() }
}
fn references(r: &Repo, rep: &mut Report) {
    let Some(f) = need(r, rep, RENAME, None, "source_edit_from_references") else { return };
    let cfg = Cfg::new(|g: &FnInfo| g.file.ends_with(RENAME) && !g.name.contains("fmt")).coll(2).events(|n| matches!(last(n), "insert" | "replace" | "delete"));
    let t = trd(r, rep, f.id, None, cfg);
    let mut n = 0;
    let mut cases = BTreeSet::new();
    for p in &t.paths {
        let fs = bfacts(&t, p);
        let evs = edits(&t, p);
        let ret = bare(&text(&t, p, &p.ret));
        rep.ob(ret.contains("finish("), "references:edit", &format!("the edit returned is `{ret}`"), &f.file, f.line);
        for (x, v) in fs.iter().filter(|(x, _)| x.starts_with("has(references")) {
            if **v != Fact::Bool(true) {
                continue;
            }
            let e = x.replacen("has(", "elem(", 1);
            let mine: Vec<&(String, Vec<String>)> = evs.iter().filter(|(_, a)| a.iter().any(|y| y.contains(&e))).collect();
            let Some(kind) = is(&fs, |y| y == format!("{e}.name")) else {
                rep.ob(false, "references:kind", "an edit is made without looking at whether the use is a name or a reference", &f.file, f.line);
                continue;
            };
            n += 1;
            let node = format!("{kind}#0({e}.name)");
            let own = |s: &str| s == format!("{e}.range") || s == format!("text_range(syntax({node}))") || s == format!("syntax({node}).text_range()") || s == format!("{node}.syntax().text_range()");
            let plain = mine.len() == 1 && mine[0].0 == "replace" && own(&mine[0].1[0]) && put(&mine[0].1[1]) == "N";
            let ins = |pre: bool| {
                let at_ok = |s: &str| if pre { s.contains("start") && !s.contains("end(") } else { s.contains("end(") && !s.contains("start") };
                mine.len() == 1
                    && (mine[0].0 == "insert" && at_ok(&mine[0].1[0]) && mine[0].1[0].contains(&e) && put(&mine[0].1[1]) == if pre { "N: " } else { ": N" })
            };
            let (case, ok, want) = if kind == "NameRef" {
                let lit = is(&fs, |y| y.ends_with(&format!("try_into_struct_lit_field({node})")) && !y.contains("Some#0("));
                let pat = is(&fs, |y| y.ends_with(&format!("for_field_name_ref({node})")) && !y.contains("Some#0("));
                let lk = is(&fs, |y| y.starts_with("Some#0(") && y.ends_with(&format!("try_into_struct_lit_field({node}))")));
                match (lit.as_deref(), lk.as_deref(), pat.as_deref()) {
                    (Some("Some"), Some("Shorthand"), _) => {
                        let el = is(&fs, |y| y == "named_element");
                        match el.as_deref() {
                            Some("NamedField") => ("a field initialised by shorthand", ins(true), "`new: ` before it"),
                            Some("IdentPat") => ("a variable initialising a field by shorthand", ins(false), "`: new` after it"),
                            // neither a field nor a variable: does not occur
                            None if !p.st.facts.iter().any(|(y, f)| full(&t.it, &V::Sym(*y)) == "named_element" && matches!(f, Fact::Not(s) if s.iter().any(|v| &**v == "NamedField") && s.iter().any(|v| &**v == "IdentPat"))) => ("a shorthand", false, "an edit that depends on whether the field or the variable is renamed"),
                            _ => ("another item in a shorthand", true, ""),
                        }
                    }
                    (Some("Some"), Some("Full"), _) | (Some("None"), _, Some("Some")) | (None, _, Some("Some")) => {
                        // may become a shorthand when the two names are the same
                        let same: Vec<bool> = fs.iter().filter_map(|(y, v)| match v {
                            Fact::Bool(b) if y.starts_with("==(") && y.contains(&e) => Some(*b),
                            _ => None,
                        }).collect();
                        let text_same = truth(&fs, |y| y.starts_with("==(") && y.contains("new_name") && y.contains(&e)) == Some(true);
                        let is_field = truth(&fs, |y| y.starts_with("==(") && !y.contains("new_name") && y.contains(&node)) == Some(true);
                        let short = text_same && is_field && same.iter().all(|b| *b) && mine.iter().any(|m| m.0 == "delete" && m.1[0].contains("start") && !m.1[0].contains("end(") && (m.1[0].contains(&format!("{node}")) || m.1[0].contains("name_ref")));
                        let rest_ok = mine.iter().all(|m| m.0 == "delete" || m.0 == "replace" && put(&m.1[1]) == "N");
                        ("a field with its value written out", plain || short && rest_ok, "the new name in its place")
                    }
                    (Some("None"), _, Some("None")) => ("a reference", plain, "the new name in its place"),
                    _ => ("a reference", false, "an edit that depends on whether it is a field of a struct literal or pattern"),
                }
            } else {
                let fld = is(&fs, |y| y.ends_with(&format!("for_field_name({node})")) && !y.contains("Some#0("));
                let nr = is(&fs, |y| y.contains(&format!("for_field_name({node})")) && y.contains("name_ref("));
                match (fld.as_deref(), nr.as_deref()) {
                    (Some("Some"), Some("None")) => ("a field in a shorthand pattern", ins(true), "`new: ` before it"),
                    (Some("Some"), Some("Some")) | (Some("None"), _) => ("a name", plain, "the new name in its place"),
                    _ => ("a name", false, "an edit that depends on whether it is a shorthand pattern"),
                }
            };
            cases.insert(case);
            let shown = mine.iter().map(|m| format!("{}({})", m.0, m.1.join(", "))).collect::<Vec<_>>().join("; ");
            rep.ob(ok, &format!("references:{case}"), &format!("{case} gets `{}` instead of {want}", if shown.is_empty() { "no edit".into() } else { shown.chars().take(200).collect::<String>() }), &f.file, f.line);
        }
    }
    rep.floor("kinds of uses", cases.len(), 5);
    rep.floor("uses edited", n, 20);
}
fn definition(r: &Repo, rep: &mut Report) {
    if let Some(f) = need(r, rep, RENAME, None, "source_edit_from_def") {
        let t = trd(r, rep, f.id, None, Cfg::new(|g: &FnInfo| g.file.ends_with(RENAME) && !g.name.contains("fmt")).events(|n| matches!(last(n), "insert" | "replace" | "delete")));
        let mut n = 0;
        for p in &t.paths {
            let fs = bfacts(&t, p);
            let ret = bare(&text(&t, p, &p.ret));
            if ret.starts_with("Err(") {
                continue;
            }
            n += 1;
            let evs = edits(&t, p);
            let fld = is(&fs, |y| y.contains("for_field_name(") && !y.contains("name_ref("));
            let nr = is(&fs, |y| y.contains("for_field_name(") && y.contains("name_ref("));
            let one = evs.len() == 1 && evs[0].1.first().is_some_and(|x| x.contains("named_element") && x.contains("name("));
            let (ok, want) = match (fld.as_deref(), nr.as_deref()) {
                (Some("Some"), Some("None")) => (one && evs[0].0 == "insert" && evs[0].1[0].contains("end(") && put(&evs[0].1[1]) == ": N", "`: new` after the shorthand"),
                (Some("Some"), Some(_)) | (Some("None"), _) => (one && evs[0].0 == "replace" && evs[0].1[0].contains("text_range(") && !evs[0].1[0].contains("start") && put(&evs[0].1[1]) == "N", "the new name in place of the old"),
                _ => (false, "an edit that depends on whether the name is a shorthand pattern"),
            };
            rep.ob(ok && ret.contains("finish("), "definition", &format!("the definition gets {evs:?} instead of {want}").chars().take(300).collect::<String>(), &f.file, f.line);
        }
        rep.floor("edits of the definition", n, 3);
    }
    let Some(f) = need(r, rep, RENAME, None, "rename_named_element") else { return };
    let cfg = Cfg::new(|g: &FnInfo| g.file.ends_with(RENAME) && !g.name.starts_with("source_edit")).coll(2).events(|n| matches!(last(n), "insert_source_edit" | "insert_source_edits"));
    let t = trd(r, rep, f.id, None, cfg);
    let mut n = 0;
    for p in &t.paths {
        let fs = bfacts(&t, p);
        let ret = bare(&text(&t, p, &p.ret));
        let builtin = truth(&fs, |x| x.contains("is_builtins_file(") && x.contains("named_element.file_id"));
        let library = truth(&fs, |x| x.contains("is_library("));
        if builtin == Some(true) || library == Some(true) {
            rep.ob(ret.starts_with("Err("), "refuse", &format!("an item of {} is renamed", if builtin == Some(true) { "the builtins" } else { "a library" }), &f.file, f.line);
            continue;
        }
        let evs = edits(&t, p);
        if ret.starts_with("Err(") {
            continue;
        }
        n += 1;
        rep.ob(builtin.is_some() && library.is_some(), "refuse", "an item is renamed without looking at whether it is a builtin or in a library", &f.file, f.line);
        let uses = "fetch_all(item_usages(sema, named_element))";
        let asked = fs.iter().any(|(x, _)| x.starts_with("has(") && x.contains(uses));
        rep.ob(asked, "uses", "the uses of the item are not renamed: they are not looked up", &f.file, f.line);
        for (x, v) in &fs {
            if x.starts_with("has(") && x.contains(uses) && **v == Fact::Bool(true) {
                let e = x.replacen("has(", "elem(", 1);
                let ok = evs.iter().any(|(_, a)| a.len() >= 2 && a[0] == format!("{e}.0") && a[1].contains(&format!("source_edit_from_references({e}.1, named_element.value, new_name)")));
                rep.ob(ok, "uses", "the uses in a file are not edited in that file with the new name", &f.file, f.line);
            }
        }
        let def = evs.iter().any(|(_, a)| a.len() >= 2 && a[0].starts_with("named_element") && !a[0].contains("value") && a[1].contains("source_edit_from_def(named_element") && a[1].contains("new_name"));
        rep.ob(def, "definition", "the definition is not renamed in its file", &f.file, f.line);
    }
    rep.floor("paths that rename", n, 3);
}
fn target(r: &Repo, rep: &mut Report) {
    let inl = |g: &FnInfo| g.file.ends_with(IDE_RENAME) && !matches!(g.name.as_str(), "find_definition" | "rename" | "prepare_rename");
    if let Some(f) = need(r, rep, IDE_RENAME, None, "prepare_rename") {
        let t = trd(r, rep, f.id, None, Cfg::new(inl));
        let mut n = 0;
        for p in &t.paths {
            let ret = bare(&text(&t, p, &p.ret));
            if !ret.starts_with("Ok(") {
                continue;
            }
            n += 1;
            let fs = bfacts(&t, p);
            let def = is(&fs, |x| x.contains("find_definition(") && !x.contains("#0"));
            rep.ob(def.as_deref() == Some("Ok"), "prepare", "a rename is prepared that would be refused: the definition is not looked up", &f.file, f.line);
            let ok = ret.contains("find_namelike_at_offset(") && ret.contains("position.offset)") && ret.contains("text_range(") && !ret.contains("find_definition(");
            rep.ob(ok, "prepare", "the range offered for renaming is not that of the name under the cursor", &f.file, f.line);
        }
        rep.floor("prepared renames", n, 1);
    }
    if let Some(f) = need(r, rep, IDE_RENAME, None, "rename") {
        let t = trd(r, rep, f.id, None, Cfg::new(inl).events(|n| matches!(last(n), "rename_named_element")));
        let mut n = 0;
        for p in &t.paths {
            let ret = bare(&text(&t, p, &p.ret));
            let fs = bfacts(&t, p);
            let k = is(&fs, |x| x.starts_with("Ok#0(classify(new_name)"));
            let by_eq = fs.iter().any(|(x, v)| x.contains("classify(new_name)") && x.contains("Ident") && **v == Fact::Bool(true));
            if evs(p, "rename_named_element").is_empty() {
                rep.ob(ret.starts_with("Err("), "rename", "a rename succeeds without renaming anything", &f.file, f.line);
                continue;
            }
            n += 1;
            rep.ob(k.as_deref() == Some("Ident") || by_eq, "rename:name", "an item is renamed to something that is not an identifier", &f.file, f.line);
            let ok = evs(p, "rename_named_element").iter().all(|e| {
                let a: Vec<String> = e.args.iter().map(|a| bare(&text(&t, p, a))).collect();
                a.len() >= 3 && a[1].starts_with("Ok#0(find_definition(") && a[2] == "new_name"
            });
            let passed = ret.starts_with("Err(") || ret.starts_with("Ok(Ok#0(rename_named_element(") || ret.starts_with("rename_named_element(");
            rep.ob(passed, "rename:refused", "a refused rename is answered as if it had been done", &f.file, f.line);
            rep.ob(ok, "rename", "what is renamed is not the definition found at the position, or not to the new name", &f.file, f.line);
        }
        rep.floor("paths that rename at a position", n, 1);
    }
    if let Some(f) = need(r, rep, RENAME, Some("IdentifierKind"), "classify") {
        let t = trd(r, rep, f.id, None, Cfg::new(|_| false));
        for p in &t.paths {
            let ret = bare(&text(&t, p, &p.ret));
            if !ret.starts_with("Ok(") {
                continue;
            }
            let fs = bfacts(&t, p);
            let kind = is(&fs, |x| x.ends_with(".kind") || x.ends_with(".kind()"));
            let want = match ret.trim_start_matches("Ok(").trim_end_matches(')').rsplit("::").next().unwrap_or("") {
                "Ident" => "IDENT",
                "Label" => "QUOTE_IDENT",
                _ => "UNDERSCORE",
            };
            let by_eq = fs.iter().any(|(x, v)| x.contains(".kind") && x.contains(want) && **v == Fact::Bool(true));
            rep.ob(kind.as_deref() == Some(want) || by_eq, "rename:name", &format!("a {} token counts as {ret}", kind.unwrap_or_default()), &f.file, f.line);
        }
    }
    let Some(f) = need(r, rep, IDE_RENAME, None, "find_definition") else { return };
    let t = trd(r, rep, f.id, None, Cfg::new(inl));
    let mut seen = BTreeSet::new();
    for p in &t.paths {
        let fs = bfacts(&t, p);
        let ret = bare(&text(&t, p, &p.ret)).replace(".map(())", "").replace(".map_into()", "");
        if !ret.starts_with("Ok(") {
            continue;
        }
        let nl = is(&fs, |x| x.starts_with("Some#0(") && x.contains("find_namelike_at_offset(") && !x.contains("classify(") && !x.contains(".parent("));
        let Some(nl) = nl else {
            rep.ob(false, "find", &format!("`{ret}` is renamed, which is not what the name at the position stands for").chars().take(200).collect::<String>(), &f.file, f.line);
            continue;
        };
        let class = is(&fs, |x| x.starts_with("Some#0(") && x.contains("classify(sema, ") && x.ends_with("))))") && !x.contains(".ident_pat") && !x.starts_with("Some#0(Some"));
        let kind = class.clone().unwrap_or_default();
        let want = match kind.as_str() {
            "Definition" | "ConstReference" => format!("NamedItem#1({kind}#0(Some#0(classify("),
            _ => "Some#0(classify(".to_string(),
        };
        let tail = match kind.as_str() {
            "PatFieldShorthand" | "FieldShorthand" => ".ident_pat",
            "ItemSpecFunctionParam" => ".fun_param_ident_pat",
            _ => "",
        };
        seen.insert(format!("{nl} {kind}"));
        let inner = ret.trim_start_matches("Ok(").trim_start_matches("map_into(");
        let ok = inner.starts_with(&want) && (tail.is_empty() || ret.contains(tail));
        rep.ob(ok, &format!("find:{kind}"), &format!("for a {kind} the item renamed is `{}`", ret.chars().take(160).collect::<String>()), &f.file, f.line);
        if nl == "Name" {
            let parent = is(&fs, |x| x.contains("parent(Name#0(") && !x.contains("can_cast"));
            let alias = p.st.facts.iter().any(|(x, f)| {
                let x = full(&t.it, &V::Sym(*x));
                (x.contains("UseAlias") || x.contains("USE_ALIAS")) && matches!(f, Fact::Bool(false)) || x.contains("UseAlias") && matches!(f, Fact::Is(n) if &**n == "None") || x.contains("kind") && matches!(f, Fact::Not(s) if s.iter().any(|v| &**v == "USE_ALIAS"))
            });
            rep.ob(parent.as_deref() == Some("None") || alias, "find:alias", "renaming the alias of a use statement renames the item it stands for", &f.file, f.line);
        } else {
            let named = is(&fs, |x| x.ends_with(".name()") || x.starts_with("name("));
            let same = fs.iter().find_map(|(x, f)| match f {
                Fact::Bool(b) if x.starts_with("==(") && (x.contains("text(") || x.contains("as_string")) && x.contains("NameRef#0(") && x.contains("name(") => Some(*b),
                _ => None,
            });
            rep.ob(named.as_deref() == Some("None") || same == Some(true), "find:alias", "renaming a reference through an alias renames the item it stands for: the name is not compared with the item's", &f.file, f.line);
        }
    }
    rep.floor("kinds of names renamed", seen.len(), 5);
}
pub fn d04(r: &Repo, _: bool) -> Report {
    let mut rep = Report::new("");
    let rep = &mut rep;
    told_renames(r, rep);
    references(r, rep);
    definition(r, rep);
    target(r, rep);
    std::mem::take(rep)
}
