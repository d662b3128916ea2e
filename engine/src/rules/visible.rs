//! Which items can be used where.
use super::trace::*;
use super::util::*;
use crate::absint::*;
use crate::repo::*;
use crate::report::Report;
use std::collections::BTreeSet;
use std::rc::Rc;

const FILE: &str = "lang/src/nameres/is_visible.rs";

const KINDS: [&str; 6] = ["MODULE", "STRUCT", "ENUM", "FUN", "CONST", "other"];
const VIS: [&str; 5] = ["unset", "Private", "Public", "Friend", "Package"];
#[derive(Clone, Default, PartialEq, Eq)]
struct Known {
    b: std::collections::BTreeMap<&'static str, bool>,
    kind: u8,
    vis: u8,
}
/// which element of a collection a fact is about
fn nth(x: &str) -> Option<usize> {
    let at = x.find("elem(").map(|i| i + 5).or(x.find("has(").map(|i| i + 4))?;
    let mut depth = 1;
    let end = x[at..].find(|c| {
        depth += (c == '(') as i32 - (c == ')') as i32;
        depth == 0
    })?;
    x[at..at + end].rsplit(", ").next()?.parse().ok()
}
/// what the facts of a path say about the item and the place it is used at
fn known(fs: &[(String, &Fact)]) -> Known {
    let mut k = Known { kind: 0b111111, vis: 0b11111, ..Default::default() };
    let item = |x: &str| x.contains("to_ast[");
    let some = |f: &Fact| match f {
        Fact::Is(n) => Some(&**n == "Some" || &**n == "Ok"),
        _ => None,
    };
    let named = |f: &Fact, n: &str| match f {
        Fact::Is(m) => Some(&**m == n),
        Fact::Not(s) if s.iter().any(|m| &**m == n) => Some(false),
        _ => None,
    };
    let adjusted = fs.iter().find(|(x, _)| x == "scope_entry.scope_adjustment").and_then(|(_, f)| some(f));
    let scope_of_item = |x: &str| {
        item(x) && x.contains("item_scope(") && match adjusted {
            Some(true) => x.contains("shrink_scope(") && x.contains("scope_adjustment"),
            Some(false) => true,
            None => false,
        }
    };
    let mut friends: std::collections::BTreeMap<usize, bool> = Default::default();
    let mut more: std::collections::BTreeMap<usize, bool> = Default::default();
    for (x, f) in fs {
        let (x, f) = (x.as_str(), *f);
        let eq = x.starts_with("==(");
        let bool = match f {
            Fact::Bool(b) => Some(*b),
            _ => None,
        };
        let mut put = |n: &'static str, v: Option<bool>| {
            if let Some(v) = v {
                k.b.insert(n, v);
            }
        };
        if x.contains("friend_decls(") {
            let theirs = x.contains("friend_decls(Some#0(containing_module(") && item(x);
            let read_in_its_file = !x.contains("resolve") || x.contains("(scope_entry.node_loc, db)).file_id");
            if !theirs || !read_in_its_file || (eq && !x.contains("containing_module(context")) {
                continue;
            }
            let n = nth(x).unwrap_or(0);
            if x.starts_with("has(") {
                more.insert(n, bool.unwrap_or(true));
            } else if eq && x.contains("resolve") {
                friends.insert(n, bool == Some(true));
            } else if some(f) == Some(false) {
                friends.insert(n, false);
            }
            continue;
        }
        if x.starts_with("is_msl_context(") && !item(x) {
            put("msl", bool);
        } else if x.starts_with("ancestor_strict[AttrItem](") && !item(x) {
            put("attr", some(f));
        } else if x.starts_with("to_ast[NamedElement](scope_entry.node_loc") {
            put("item", some(f));
        } else if x.ends_with(".as_node()") || x.starts_with("as_node(") {
            if some(f) == Some(false) {
                put("use", some(f));
                put("path type", some(f));
            }
        } else if x.starts_with("cast[Path](") {
            if some(f) == Some(false) {
                put("use", some(f));
                put("path type", some(f));
            }
        } else if x.starts_with("root_parent_of_type[UseSpeck](") {
            put("use", some(f));
        } else if (x.starts_with("parent(") || x.ends_with(".parent()")) && x.contains("root_path(") {
            if some(f) == Some(false) {
                put("path type", some(f));
            }
        } else if x.contains("kind(") && x.contains("parent(") && !item(x) {
            put("path type", if eq { bool.filter(|_| x.contains("PATH_TYPE")) } else { named(f, "PATH_TYPE") });
        } else if x.contains("kind(") && item(x) {
            for (i, n) in KINDS.iter().enumerate() {
                let v = if eq { bool.filter(|_| x.contains(&format!(", {n})")) || x.contains(&format!("({n},"))) } else { named(f, n) };
                if v == Some(false) {
                    k.kind &= !(1 << i);
                } else if v == Some(true) {
                    k.kind &= 1 << i;
                }
            }
            if !eq && matches!(f, Fact::Is(_)) {
                k.kind &= if matches!(f, Fact::Is(n) if KINDS.contains(&&**n)) { 0b11111 } else { 0b100000 };
            }
        } else if (x.starts_with("cast(") || x.starts_with("AnyHasVisibility::cast(") || x.starts_with("cast[AnyHasVisibility](")) && item(x) {
            match some(f) {
                Some(false) => k.vis &= 1,
                Some(true) => k.vis &= !1,
                _ => (),
            }
        } else if x.contains("vis(") && item(x) {
            if x.starts_with("Restricted#0(") {
                let fr = named(f, "Friend").or(named(f, "Package").map(|b| !b));
                match fr {
                    Some(true) => k.vis &= 0b01000,
                    Some(false) => k.vis &= 0b10000,
                    _ => (),
                }
            } else if eq {
                for (i, n) in [(1, "Private"), (2, "Public")] {
                    if x.contains(n) {
                        match bool {
                            Some(true) => k.vis &= 1 << i,
                            Some(false) => k.vis &= !(1 << i),
                            _ => (),
                        }
                    }
                }
            } else {
                for (m, n) in [(0b00010, "Private"), (0b00100, "Public"), (0b11000, "Restricted")] {
                    match named(f, n) {
                        Some(true) => k.vis &= m,
                        Some(false) => k.vis &= !m,
                        _ => (),
                    }
                }
            }
        } else if x.starts_with("is_msl_only_item(") && item(x) {
            put("msl item", bool);
        } else if x.starts_with("is_test(") && !item(x) || eq && x.contains("item_scope(") && x.contains("Test") && !item(x) {
            put("test", bool);
        } else if x.contains("contains(scope_entry.ns)") {
            put("type", bool.filter(|_| x.contains("TYPE") && x.contains("ENUM")));
        } else if x == "scope_entry.ns" || eq && x.contains("scope_entry.ns") {
            put("name", if eq { bool.filter(|_| x.contains("NAME")) } else { named(f, "NAME") });
        } else if x.starts_with("is_builtins(") && item(x) {
            put("builtin", bool);
        } else if eq && x.contains("containing_module(context") && item(x) && x.matches("containing_module(").count() == 2 {
            let there = |whose: &str| {
                x.contains(&format!("Some#0(containing_module({whose}"))
                    || fs.iter().any(|(y, f)| y.starts_with(&format!("containing_module({whose}")) && some(f) == Some(true))
            };
            put("same module", bool.filter(|b| !b || there("context") && there("Some#0(to_ast[")));
        } else if x.starts_with("containing_module(") {
            if some(f) == Some(false) {
                put("same module", some(f));
                put("friend", some(f));
                if item(x) {
                    put("builtin", some(f));
                }
            }
        } else if eq && x.contains("containing_script(context") && item(x) && x.matches("containing_script(").count() == 2 {
            put("same script", bool);
        } else if x.starts_with("containing_script(") {
            if some(f) == Some(false) {
                put("same script", some(f));
            }
        } else if eq && x.matches("file_package_id(").count() == 2 && item(x) && x.contains("context") {
            put("same package", bool);
        } else if eq && x.matches("item_scope(").count() == 2 && scope_of_item(x) && x.contains("context") {
            put("its scope", bool);
        } else if scope_of_item(x) {
            put("main", if eq { bool.filter(|_| x.contains("Main")) } else { named(f, "Main") });
        }
    }
    if !k.b.contains_key("friend") {
        if friends.values().any(|b| *b) {
            k.b.insert("friend", true);
        } else {
            let n = more.iter().filter(|(_, b)| **b).count();
            let all = (1..=n).all(|i| friends.get(&i) == Some(&false));
            if !more.is_empty() && all && (n == 2 || more.get(&(n + 1)) == Some(&false)) {
                k.b.insert("friend", false);
            }
        }
    }
    k
}
/// what the facts leave possible
fn outcomes(k: &Known) -> BTreeSet<&'static str> {
    fn ask(k: &Known, n: &'static str, then: &mut dyn FnMut(&Known, bool)) {
        match k.b.get(n) {
            Some(b) => then(k, *b),
            None => {
                for b in [true, false] {
                    let mut k = k.clone();
                    k.b.insert(n, b);
                    then(&k, b);
                }
            }
        }
    }
    fn kind_in(k: &Known, m: u8, then: &mut dyn FnMut(&Known, bool)) {
        for (m, b) in [(m, true), (!m, false)] {
            if k.kind & m != 0 {
                then(&Known { kind: k.kind & m, ..k.clone() }, b);
            }
        }
    }
    fn vis_in(k: &Known, m: u8, then: &mut dyn FnMut(&Known, bool)) {
        for (m, b) in [(m, true), (!m, false)] {
            if k.vis & m != 0 {
                then(&Known { vis: k.vis & m, ..k.clone() }, b);
            }
        }
    }
    fn last_of(k: &Known, o: &mut BTreeSet<&'static str>) {
        for (i, v) in VIS.iter().enumerate() {
            if k.vis >> i & 1 == 0 {
                continue;
            }
            match *v {
                "Private" => {
                    o.insert("private");
                }
                "unset" | "Public" => {
                    o.insert("visible");
                }
                v => ask(k, if v == "Friend" { "friend" } else { "same package" }, &mut |_, b| {
                    o.insert(if b { "visible" } else { "private" });
                }),
            }
        }
    }
    fn local(k: &Known, o: &mut BTreeSet<&'static str>) {
        ask(k, "same module", &mut |k, b| {
            if b {
                o.insert("visible");
                return;
            }
            ask(k, "same script", &mut |k, b| {
                if b {
                    o.insert("visible");
                    return;
                }
                ask(k, "type", &mut |k, b| {
                    if !b {
                        last_of(k, o);
                        return;
                    }
                    ask(k, "path type", &mut |k, b| {
                        if b {
                            o.insert("visible");
                        } else {
                            last_of(k, o)
                        }
                    })
                })
            })
        })
    }
    fn scoped(k: &Known, o: &mut BTreeSet<&'static str>) {
        let mut after = |k: &Known| {
            ask(k, "msl item", &mut |k, b| {
                if b {
                    o.insert("scope");
                } else {
                    local(k, o)
                }
            })
        };
        let mut wrong = false;
        ask(k, "main", &mut |k, b| {
            if b {
                after(k);
            } else {
                ask(k, "its scope", &mut |k, b| if b { after(k) } else { wrong = true })
            }
        });
        if wrong {
            o.insert("scope");
        }
    }
    fn builtin(k: &Known, o: &mut BTreeSet<&'static str>) {
        kind_in(k, 0b011000, &mut |k, b| {
            if !b {
                scoped(k, o);
                return;
            }
            ask(k, "builtin", &mut |k, b| {
                if b {
                    o.insert("visible");
                } else {
                    scoped(k, o)
                }
            })
        })
    }
    fn used(k: &Known, o: &mut BTreeSet<&'static str>) {
        kind_in(k, 0b000111, &mut |k, b| {
            if b {
                o.insert("visible");
                return;
            }
            vis_in(k, 0b11100, &mut |k, b| {
                if b {
                    o.insert("visible");
                    return;
                }
                ask(k, "msl item", &mut |k, b| {
                    if b {
                        o.insert("visible");
                        return;
                    }
                    ask(k, "test", &mut |k, b| {
                        if !b {
                            builtin(k, o);
                            return;
                        }
                        ask(k, "name", &mut |k, b| {
                            if b {
                                o.insert("visible");
                            } else {
                                builtin(k, o)
                            }
                        })
                    })
                })
            })
        })
    }
    let mut o = BTreeSet::new();
    ask(k, "msl", &mut |k, b| {
        if b {
            o.insert("visible");
            return;
        }
        ask(k, "attr", &mut |k, b| {
            if b {
                o.insert("visible");
                return;
            }
            ask(k, "item", &mut |k, b| {
                if !b {
                    o.insert("unknown");
                    return;
                }
                ask(k, "use", &mut |k, b| if b { used(k, &mut o) } else { builtin(k, &mut o) })
            })
        })
    });
    o
}
fn decision(r: &Repo, rep: &mut Report) {
    let Some(f) = need(r, rep, FILE, None, "is_visible_in_context") else { return };
    let cfg = Cfg::new(|g: &FnInfo| g.file.ends_with(FILE)).coll(2).events(|_| false).mhook(|it, _, st, c| {
        let t = match c.name {
            "ancestor_strict" | "root_parent_of_type" | "cast" | "to_ast" => turbofish(c).replace("ast::", "").replace("syntax::", ""),
            _ => return None,
        };
        let mut a = vec![c.recv.clone()];
        a.extend(c.args.iter().cloned());
        Some(vec![(st.clone(), Flow::Val(it.sym(&format!("{}[{t}]", c.name), a)))])
    });
    let t = tr(r, rep, f.id, None, cfg);
    if std::env::var("SA_DUMP").is_ok_and(|x| x == r.fns[f.id].name) {
        t.dump();
    }
    let mut seen = BTreeSet::new();
    let mut told = BTreeSet::new();
    for p in &t.paths {
        let fs = super::usages::bfacts(&t, p);
        let ret = super::usages::bare(&full(&t.it, &norm(&t.it, &p.st, &p.ret)));
        let got = match ret.as_str() {
            "None" => "visible",
            x if x.starts_with("Some(Private") => "private",
            x if x.starts_with("Some(WrongItemScope") => "scope",
            x if x.starts_with("Some(Unknown") => "unknown",
            _ => "something else",
        };
        let k = known(&fs);
        let want = outcomes(&k);
        seen.extend(want.iter().copied());
        let ok = want.len() == 1 && want.contains(got);
        let why = || {
            let mut w: Vec<String> = k.b.iter().map(|(n, b)| format!("{}{n}", if *b { "" } else { "not " })).collect();
            let pick = |m: u8, n: &[&str]| n.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|(_, n)| n.to_string()).collect::<Vec<_>>().join("|");
            w.push(format!("kind {}", pick(k.kind, &KINDS)));
            w.push(format!("visibility {}", pick(k.vis, &VIS)));
            format!("an item counts as {got} where it is {}: {}", want.iter().copied().collect::<Vec<_>>().join(" or "), w.join(", "))
        };
        if !ok && told.len() >= 5 {
            rep.count("further paths that decide otherwise", 1);
            continue;
        }
        let m = if ok { String::new() } else { why() };
        if !ok {
            told.insert(m.clone());
        }
        rep.ob(ok, &format!("visible:{got}"), &m, &f.file, f.line);
    }
    rep.floor("outcomes", seen.len(), 4);
    rep.floor("ways to decide", t.paths.len(), 200);
}
fn dump(r: &Repo, t: &Traced, f: usize) {
    if std::env::var("SA_DUMP").is_ok_and(|x| x == r.fns[f].name) {
        t.dump();
    }
}
/// which modifier makes which visibility
fn modifiers(r: &Repo, rep: &mut Report) {
    let file = "syntax/src/ast/visibility.rs";
    let Some(f) = need(r, rep, file, Some("HasVisibility"), "vis") else { return };
    let cfg = Cfg::new(|g: &FnInfo| g.file.contains("syntax/src/ast/") && g.file.ends_with("visibility.rs")).events(|_| false);
    let t = tr(r, rep, f.id, None, cfg);
    dump(r, &t, f.id);
    let tokens = ["public_token", "l_paren_token", "friend_token", "script_token", "package_token"];
    let cases: [(&str, &[usize], &str); 7] = [
        ("no modifier", &[], "Private"),
        ("`public`", &[0], "Public"),
        ("`public(friend)`", &[0, 1, 2], "Restricted(Friend)"),
        ("`public(script)`", &[0, 1, 3], "Public"),
        ("`public(package)`", &[0, 1, 4], "Restricted(Package)"),
        ("`friend`", &[2], "Restricted(Friend)"),
        ("`package`", &[4], "Restricted(Package)"),
    ];
    for (what, has, want) in cases {
        let mut n = 0;
        for p in &t.paths {
            let fs = super::usages::bfacts(&t, p);
            let fits = fs.iter().all(|(x, f)| {
                let Fact::Is(v) = f else { return true };
                let some = &**v == "Some";
                match tokens.iter().position(|t| x.contains(&format!("{t}("))) {
                    Some(i) => has.contains(&i) == some,
                    None if x.starts_with("child(") => some == !has.is_empty(),
                    None => true,
                }
            });
            if !fits {
                continue;
            }
            n += 1;
            let got = super::usages::bare(&full(&t.it, &norm(&t.it, &p.st, &p.ret)));
            rep.ob(got == want, &format!("modifier:{what}"), &format!("an item with {what} counts as {got}, not {want}"), &f.file, f.line);
        }
        rep.floor(&format!("ways to read {what}"), n, 1);
    }
}
/// the scope an item gives to what is in it
fn own_scope(r: &Repo, rep: &mut Report) {
    let file = "lang/src/item_scope.rs";
    let Some(f) = need(r, rep, file, None, "node_item_scope") else { return };
    let cfg = Cfg::new(|g: &FnInfo| g.file.ends_with(file)).events(|_| false).mhook(|it, cx, st, c| {
        if c.name != "filter_map" && c.name != "map" || !full(it, &c.recv).contains("attr_items") {
            return None;
        }
        let e = it.sym("attr", vec![c.recv.clone()]);
        let mut out = vec![];
        for (s, fl) in it.apply(cx, c.args.first()?, vec![e], st.clone(), c.line) {
            let Flow::Val(v) = fl else { continue };
            let v = it.sym(c.name, vec![c.recv.clone(), v]);
            out.push((s, Flow::Val(v)));
        }
        Some(out)
    });
    let t = tr(r, rep, f.id, None, cfg);
    dump(r, &t, f.id);
    let specs = ["SCHEMA", "SPEC_FUN", "SPEC_INLINE_FUN", "ITEM_SPEC", "MODULE_SPEC", "SPEC_BLOCK_EXPR", "LEMMA"];
    let mut cases = vec![];
    for k in specs {
        cases.push((k, None, "Verify"));
    }
    for k in ["FUN", "MODULE", "STRUCT", "USE_STMT"] {
        cases.push((k, None, "Main"));
        for (a, w) in [("", "Main"), ("test_only", "Test"), ("test", "Test"), ("verify_only", "Verify"), ("view", "Main")] {
            cases.push((k, Some(a), w));
        }
    }
    for (kind, attr, want) in cases {
        let mut n = 0;
        for p in &t.paths {
            let fs = super::usages::bfacts(&t, p);
            let fits = fs.iter().all(|(x, f)| match f {
                Fact::Is(v) if x.contains("kind(") => &**v == kind,
                Fact::Not(v) if x.contains("kind(") => !v.iter().any(|v| &**v == kind),
                Fact::Bool(b) if x.contains("kind(") && x.starts_with("==") => x.contains(&format!(", {kind})")) == *b,
                Fact::Is(v) if x.starts_with("cast(") => (&**v == "Some") == attr.is_some(),
                Fact::Bool(b) if x.contains("attr_items(") && x.contains("is_empty(") => attr.is_none_or(|a| a.is_empty()) == *b,
                Fact::Bool(b) if x.contains("attr_items(") && x.contains("path_text(") && x.contains('"') => attr.is_some_and(|a| !a.is_empty() && (x.contains(&format!("(\"{a}\")")) || x.contains(&format!(", \"{a}\")")))) == *b,
                _ => true,
            });
            if !fits {
                continue;
            }
            n += 1;
            let got = super::usages::bare(&full(&t.it, &norm(&t.it, &p.st, &p.ret)));
            let w = match attr {
                None => "without attributes".to_string(),
                Some("") => "with empty attributes".to_string(),
                Some(a) => format!("with #[{a}]"),
            };
            rep.ob(got == want, &format!("scope of {kind} {w}"), &format!("a {kind} {w} is of the scope {got}, not {want}"), &f.file, f.line);
        }
        rep.floor(&format!("ways to scope a {kind} {attr:?}"), n, 1);
    }
}
/// every node has the scope of the closest item around it that has one of its own
fn inherited(r: &Repo, rep: &mut Report) {
    let file = "lang/src/item_scope.rs";
    let Some(f) = need(r, rep, file, None, "item_scopes") else { return };
    let cfg = Cfg::new(|g: &FnInfo| g.file.ends_with(file) && g.name != "node_item_scope").coll(3).cap(20000).events(|n| n == "insert");
    let t = tr(r, rep, f.id, None, cfg);
    dump(r, &t, f.id);
    let (mut ends, mut under) = (0, 0);
    for p in &t.paths {
        let fs = super::usages::bfacts(&t, p);
        let is = |pre: &str, k: usize, post: &str, n: &str| {
            fs.iter().any(|(x, f)| x.starts_with(pre) && x.ends_with(post) && nth(x) == Some(k) && matches!(f, Fact::Is(v) if &**v == n))
        };
        let value = |x: &str| -> Option<&'static str> {
            let k = ["Main", "Test", "Verify"].into_iter().find(|s| {
                x == *s || fs.iter().any(|(y, f)| y == x && matches!(f, Fact::Is(v) if &**v == *s))
            });
            let other = fs.iter().any(|(y, f)| y == x && matches!(f, Fact::Not(v) if v.iter().any(|v| &**v == "Main")));
            k.or_else(|| ["", "that of 1", "that of 2", "that of 3"].into_iter().nth(nth(x).filter(|_| other)?))
        };
        let mut want: Vec<(usize, &str)> = vec![];
        let mut stack: Vec<(usize, &str)> = vec![];
        let mut sure = true;
        for k in 1..=3 {
            if is("elem(", k, ")", "Enter") && is("Enter#0(elem(", k, "))", "Node") {
                let own = fs.iter().find(|(x, _)| x.starts_with("node_item_scope(Node#0(Enter#0(") && nth(x) == Some(k)).and_then(|(x, _)| value(x));
                match own {
                    Some("Main") => {
                        let s = stack.last().map_or("Main", |s| s.1);
                        under += (s != "Main") as usize;
                        want.push((k, s))
                    }
                    Some(s) => {
                        stack.push((k, s));
                        want.push((k, s))
                    }
                    None => sure = false,
                }
            } else if is("elem(", k, ")", "Leave") && is("Leave#0(elem(", k, "))", "Node") {
                let Some(top) = stack.last() else { continue };
                let same = fs.iter().find_map(|(x, f)| {
                    let y = x.strip_prefix("==(")?;
                    let of = |i: usize| y[i..].starts_with("Node#0(Enter#0(elem(").then(|| nth(&y[i..])).flatten();
                    let to = |i: usize| y[i..].starts_with("Node#0(Leave#0(elem(").then(|| nth(&y[i..])).flatten();
                    let mid = y.find("), Node#0(")? + 3;
                    let whole = !y[..mid - 3].ends_with("()") && !y.ends_with("())");
                    let ok = whole && of(0) == Some(top.0) && to(mid) == Some(k) || whole && to(0) == Some(k) && of(mid) == Some(top.0);
                    match f {
                        Fact::Bool(b) if ok => Some(*b),
                        _ => None,
                    }
                });
                match same {
                    Some(true) => {
                        ends += 1;
                        stack.pop();
                    }
                    Some(false) => (),
                    None => sure = false,
                }
            }
        }
        let mut got = vec![];
        for e in p.st.events.iter().filter(|e| e.name.ends_with("insert")) {
            let a: Vec<String> = e.args.iter().map(|a| super::usages::bare(&super::usages::tidy(&full(&t.it, &norm(&t.it, &p.st, a))))).collect();
            let at = a.iter().position(|x| x.contains("Enter#0(elem(") && !x.starts_with("node_item_scope"));
            if let (Some(k), Some(v)) = (at.and_then(|i| nth(&a[i])), a.last().and_then(|v| value(v))) {
                got.push((k, v));
            }
        }
        let ok = sure && got == want;
        let show = |v: &[(usize, &str)]| v.iter().map(|(k, s)| format!("{k}: {s}")).collect::<Vec<_>>().join(", ");
        rep.ob(
            ok,
            &format!("inherited:{}:{}", show(&got), show(&want)),
            &format!("a walk over nodes gives them the scopes [{}] where their own and surrounding items make them [{}]{}", show(&got), show(&want), if sure { "" } else { ", without asking which item was left" }),
            &f.file,
            f.line,
        );
    }
    rep.floor("walks that leave a scoped item", ends, 10);
    rep.floor("walks into a scoped item", under, 10);
}
/// only what is visible is handed on
fn handed_on(r: &Repo, rep: &mut Report) {
    let ret = |t: &Traced, p: &PathR| super::usages::bare(&super::usages::tidy(&full(&t.it, &norm(&t.it, &p.st, &p.ret))));
    let plain = || Cfg::new(|_| false).events(|_| false);
    if let Some(f) = need(r, rep, FILE, Some("ScopeEntryWithVisExt"), "into_visible_entries") {
        let cfg = plain().coll(1).mhook(|it, _, st, c| {
            if c.name != "entries" {
                return None;
            }
            let e = |k: usize| {
                let fs = ["scope_entry", "invis_reason"].map(|f| (f.into(), it.sym(&format!("{f} {k}"), vec![])));
                V::Struct("ScopeEntryWithVis".into(), Rc::new(fs.into_iter().collect()))
            };
            Some(vec![(st.clone(), Flow::Val(V::List(vec![e(1), e(2)].into())))])
        });
        let t = tr(r, rep, f.id, None, cfg);
        dump(r, &t, f.id);
        rep.floor("ways to hand on entries", t.paths.len(), 4);
        for p in &t.paths {
            let fs = super::usages::bfacts(&t, p);
            let seen: Vec<Option<bool>> = (1..=2).map(|k| fs.iter().find(|(x, _)| x.contains(&format!("invis_reason {k}"))).map(|(_, f)| matches!(f, Fact::Is(v) if &**v == "None"))).collect();
            let want = (1..=2).filter(|k| seen[k - 1] == Some(true)).map(|k| format!("scope_entry {k}")).collect::<Vec<_>>().join(", ");
            let got = ret(&t, p).replace("()", "");
            let ok = seen.iter().all(|s| s.is_some()) && got == format!("[{want}]");
            rep.ob(ok, &format!("handed on:{got}"), &format!("of two entries {got} count as visible, where those without a reason against it are [{want}]"), &f.file, f.line);
        }
    }
    if let Some(f) = need(r, rep, FILE, None, "check_if_visible") {
        let t = tr(r, rep, f.id, None, plain());
        for p in &t.paths {
            let g = ret(&t, p);
            let ok = g.contains("invis_reason: is_visible_in_context(db, scope_entry, context)") && g.contains("scope_entry: scope_entry");
            rep.ob(ok, "checked", &format!("an entry is paired with another reason than its own: {g}"), &f.file, f.line);
        }
        rep.floor("checks of an entry", t.paths.len(), 1);
    }
    if let Some(f) = need(r, rep, "lang/src/hir_db.rs", None, "item_scope") {
        let t = tr(r, rep, f.id, None, plain());
        for p in &t.paths {
            let g = ret(&t, p);
            let fs = super::usages::bfacts(&t, p);
            let found = fs.iter().any(|(x, f)| x.starts_with("get(item_scopes(") && matches!(f, Fact::Is(v) if &**v == "Some"));
            let ok = if found { g.starts_with("Some#0(get(item_scopes(db, intern(syntax_loc.file_id(), db)), syntax_ptr(syntax_loc))") || g.contains("item_scopes(") && g.contains("syntax_loc.file_id()") && g.contains("syntax_ptr(syntax_loc)") } else { g == "Main" || g.contains("item_scopes(") };
            rep.ob(ok, "scope at", &format!("the scope at a place is {g}"), &f.file, f.line);
        }
        rep.floor("lookups of a scope", t.paths.len(), 1);
    }
    for (n, yes) in [("shrink_scope", "Main"), ("is_test", "Test")] {
        let Some(f) = need(r, rep, "lang/src/item_scope.rs", Some("ItemScope"), n) else { continue };
        let t = tr(r, rep, f.id, None, plain());
        for v in ["Main", "Test", "Verify"] {
            for p in &t.paths {
                let fs = super::usages::bfacts(&t, p);
                let fits = fs.iter().all(|(x, f)| match f {
                    Fact::Is(w) if x == "self" => &**w == v,
                    Fact::Not(w) if x == "self" => !w.iter().any(|w| &**w == v),
                    _ => true,
                });
                if !fits {
                    continue;
                }
                let g = ret(&t, p);
                let ok = match (n, v == yes) {
                    ("shrink_scope", true) => g == "adjustment_scope",
                    ("shrink_scope", false) => g == "self" || g == v,
                    (_, b) => g == b.to_string(),
                };
                rep.ob(ok, &format!("{n}:{v}"), &format!("{n} of {v} is {g}"), &f.file, f.line);
            }
        }
        rep.floor(n, t.paths.len(), 2);
    }
    if let Some(f) = need(r, rep, "lang/src/nameres/path_resolution.rs", None, "resolve_path") {
        let t = tr(r, rep, f.id, None, plain().coll(1));
        let mut n = 0;
        for p in &t.paths {
            let g = ret(&t, p);
            if !super::usages::bfacts(&t, p).iter().any(|(x, f)| x.starts_with("has(") && matches!(f, Fact::Bool(true))) {
                continue;
            }
            n += 1;
            let ok = g.contains("[check_if_visible(db, elem(") && g.matches("elem(").count() == 1;
            rep.ob(ok, "resolved", &format!("what a name resolves to is not checked for visibility: {g}"), &f.file, f.line);
        }
        rep.floor("resolved names", n, 1);
    }
    for (file, name) in [
        ("ide-completion/src/completions/reference/paths.rs", "add_out_of_scope_completion_items"),
        ("ide-completion/src/completions/reference/paths.rs", "add_path_completions_from_the_resolution_entries"),
        ("ide-completion/src/completions/reference/method_or_field.rs", "add_method_completion_items"),
        ("lang/src/types/inference/ast_walker.rs", "infer_method_call_expr"),
    ] {
        let Some(f) = r.fns.iter().find(|f| f.file.ends_with(file) && (f.name == name || r.fns.is_empty())) else {
            rep.problem(&format!("no fn {name} in {file}"));
            continue;
        };
        let t = tr(r, rep, f.id, None, plain().coll(1).events(|n| n.ends_with("render_scope_entry") || n.ends_with("render_function") || n.ends_with("insert")));
        dump(r, &t, f.id);
        let from = |x: &str| ["get_path_resolve_variants(", "get_method_resolve_variants(", "import_candidates("].iter().any(|g| x.contains(g)) && x.contains("elem(");
        let mut n = 0;
        for p in &t.paths {
            let fs = super::usages::bfacts(&t, p);
            for e in p.st.events.iter() {
                let a: Vec<String> = e.args.iter().map(|a| super::usages::bare(&super::usages::tidy(&full(&t.it, &norm(&t.it, &p.st, a))))).collect();
                if e.name.ends_with("contains") || !a.iter().any(|x| from(x)) {
                    continue;
                }
                n += 1;
                let ok = fs.iter().any(|(x, f)| x.starts_with("is_visible_in_context(") && from(x) && matches!(f, Fact::Is(v) if &**v == "None"));
                rep.ob(ok, &format!("shown:{name}:{}", e.name), &format!("{name} goes on with an entry that may not be used there"), &f.file, e.line);
            }
        }
        rep.floor(&format!("entries {name} goes on with"), n, 1);
    }
}
pub fn d09(r: &Repo, _: bool) -> Report {
    let mut rep = Report::new("");
    decision(r, &mut rep);
    modifiers(r, &mut rep);
    own_scope(r, &mut rep);
    inherited(r, &mut rep);
    handed_on(r, &mut rep);
    rep
}
