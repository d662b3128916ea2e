//! The settings: which are declared, how they are read, and what obeys them.
use super::trace::*;
use super::util::*;
use crate::absint::*;
use crate::mac::*;
use crate::repo::*;
use crate::report::Report;
use quote::ToTokens;
use std::collections::BTreeMap;
use std::rc::Rc;

const OPTIONS: &str = "config/options.rs";
const MACROS: &str = "config/options/macros.rs";

fn trd<'r>(r: &'r Repo, rep: &mut Report, id: FnId, args: Option<Vec<V>>, cfg: Cfg<'r>) -> Traced<'r, 'r> {
    let t = tr(r, rep, id, args, cfg);
    if std::env::var("SA_DUMP").is_ok_and(|x| x == r.fns[id].name) {
        t.dump();
    }
    t
}
fn s(x: &str) -> V {
    V::Str(Rc::from(x))
}
pub struct Setting {
    pub name: String,
    pub group: String,
    pub ty: String,
    pub default: serde_json::Value,
    pub aliases: Vec<String>,
    pub data: String,
    pub input: String,
    pub line: usize,
}
fn snake(s: &str) -> String {
    let mut o = String::new();
    for (i, c) in s.chars().enumerate() {
        if c.is_uppercase() && i > 0 {
            o.push('_');
        }
        o.extend(c.to_lowercase());
    }
    o
}
/// the JSON of a default
fn json_of(r: &Repo, verbatim: bool, e: &str, ty: &str) -> Option<serde_json::Value> {
    use serde_json::Value as J;
    let ex: syn::Expr = syn::parse_str(e).ok()?;
    Some(match &ex {
        syn::Expr::Lit(l) => match &l.lit {
            syn::Lit::Bool(b) => J::Bool(b.value),
            syn::Lit::Int(i) => J::from(i.base10_parse::<i64>().ok()?),
            syn::Lit::Str(s) if verbatim => serde_json::from_str(&s.value()).ok()?,
            syn::Lit::Str(s) => J::from(s.value()),
            _ => return None,
        },
        syn::Expr::Path(p) => {
            let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            match segs.last()?.as_str() {
                "None" => J::Null,
                v if segs.len() == 2 => {
                    let en = r.enums.iter().find(|e| e.item.ident == segs[0] && e.file.contains("/config"))?;
                    let attrs: String = en.item.attrs.iter().map(|a| a.to_token_stream().to_string()).collect();
                    if attrs.contains("snake_case") {
                        J::from(snake(v))
                    } else {
                        J::from(v)
                    }
                }
                _ => return None,
            }
        }
        syn::Expr::Macro(m) if m.mac.path.is_ident("vec") && m.mac.tokens.is_empty() => J::Array(vec![]),
        syn::Expr::Call(c) => {
            let f = c.func.to_token_stream().to_string().replace(' ', "");
            let empty = c.args.is_empty() && (f.ends_with("::default") || f.ends_with("::new"));
            if !empty {
                return None;
            }
            let t = f.split("::").next().unwrap_or("");
            match t {
                "HashSet" | "Vec" => J::Array(vec![]),
                "HashMap" => J::Object(Default::default()),
                "String" => J::from(""),
                "Option" => J::Null,
                "Default" if ty.starts_with("HashSet") || ty.starts_with("Vec") => J::Array(vec![]),
                "Default" if ty.starts_with("Option") => J::Null,
                "Default" if ty == "bool" => J::Bool(false),
                _ => return None,
            }
        }
        _ => return None,
    })
}
fn leaf(b: &Binds, n: &str) -> String {
    match b.get(n) {
        Some(Bind::Leaf(t)) => t.to_string().replace(' ', ""),
        _ => String::new(),
    }
}
/// the settings, and the repository with the code the macros make of them
pub fn settings(r: &Repo, rep: &mut Report) -> Option<(Vec<Setting>, Repo)> {
    let m = Macros::of(r, MACROS);
    let mut out = vec![];
    let mut files = vec![];
    for inv in r.macros.iter().filter(|x| x.name == "config_data" && x.file.ends_with(OPTIONS)) {
        let Some((b, _)) = m.bind("config_data", inv.mac.tokens.clone()) else {
            rep.problem("config_data! does not match its rules");
            return None;
        };
        let Some(Bind::Seq(fs)) = b.get("field") else { continue };
        for f in fs {
            let (name, ty) = (leaf(f, "field"), leaf(f, "ty"));
            let verb = matches!(f.get("marker"), Some(Bind::Seq(v)) if v.iter().any(|x| leaf(x, "marker") == "verbatim"));
            let Some(Bind::Leaf(d)) = f.get("default") else { continue };
            let Some(default) = json_of(r, verb, &d.to_string(), &ty) else {
                rep.problem(format!("the default of {name} is not understood: {d}"));
                continue;
            };
            let aliases = match f.get("alias") {
                Some(Bind::Seq(v)) => v.iter().map(|x| leaf(x, "alias")).collect(),
                _ => vec![],
            };
            let line = d.clone().into_iter().next().map(|t| t.span().start().line).unwrap_or(inv.line);
            out.push(Setting { name, group: leaf(&b, "modname"), ty, default, aliases, data: leaf(&b, "name"), input: leaf(&b, "input"), line });
        }
        match m.expand("config_data", inv.mac.tokens.clone()).and_then(|t| syn::parse2::<syn::File>(t).map_err(|e| e.to_string())) {
            Ok(f) => files.push((f, inv.module.clone(), inv.file.clone())),
            Err(e) => {
                rep.problem(format!("config_data! cannot be expanded: {e}"));
                return None;
            }
        }
    }
    let mut r2 = Repo::load(&r.root);
    for (f, m, p) in files {
        r2.add_items(f, m, &p);
    }
    rep.count("settings", out.len());
    rep.floor("settings", out.len(), 20);
    Some((out, r2))
}
/// strings and JSON lookups, evaluated
fn json_hook(it: &Interp<Trace>, _cx: &Rc<Cx>, st: &St<TW>, c: &MCall) -> Option<Out<TW>> {
    let recv = it.deref(st, &c.recv);
    let args: Vec<V> = c.args.iter().map(|x| it.deref(st, x)).collect();
    let txt = |v: &V| match v {
        V::Str(s) => Some(s.to_string()),
        V::Tag("char", c) => char::from_u32(*c).map(|c| c.to_string()),
        _ => None,
    };
    if let Some(r) = txt(&recv) {
        match (c.name, args.as_slice()) {
            ("replace", [a, b]) => return Some(vec![(st.clone(), Flow::Val(s(&r.replace(&txt(a)?, &txt(b)?))))]),
            ("insert" | "insert_str", [V::Int(0), x]) => {
                let mut st = st.clone();
                let p = match &c.recv {
                    V::Ref(p) => Some(p.clone()),
                    _ => c.place.clone(),
                };
                it.write(&mut st, &p?, s(&format!("{}{r}", txt(x)?)));
                return Some(vec![(st, Flow::Val(V::Unit))]);
            }
            ("to_owned" | "to_string" | "as_str" | "into" | "clone", []) => return Some(vec![(st.clone(), Flow::Val(recv))]),
            _ => {}
        }
    }
    if let (V::List(l), "next" | "first", []) = (&recv, c.name, args.as_slice()) {
        return Some(vec![(st.clone(), Flow::Val(l.first().map(|x| some(x.clone())).unwrap_or(none())))]);
    }
    let list = |v: &V| match v {
        V::List(l) => Some(l.to_vec()),
        V::Ctor(n, a) if matches!(&**n, "Some" | "None") => Some(a.to_vec()),
        _ => None,
    };
    if let ("chain", [x]) = (c.name, args.as_slice()) {
        if let (Some(mut a), Some(b)) = (list(&recv), list(x)) {
            a.extend(b);
            return Some(vec![(st.clone(), Flow::Val(V::List(Rc::new(a))))]);
        }
    }
    match (c.name, args.as_slice()) {
        ("pointer_mut" | "pointer", [p]) => {
            let at = it.sym("at", vec![recv, p.clone()]);
            Some(
                it.variant(st.clone(), &at, "Some", 1)
                    .into_iter()
                    .map(|(st, v)| (st, Flow::Val(if v.is_some() { some(it.sym("in", vec![p.clone()])) } else { none() })))
                    .collect(),
            )
        }
        ("take" | "clone", []) if full(it, &recv).starts_with("in(") => Some(vec![(st.clone(), Flow::Val(recv))]),
        _ => None,
    }
}

fn once(it: &Interp<Trace>, _: &Rc<Cx>, st: &St<TW>, segs: &[String], args: &[V], _: usize) -> Option<Out<TW>> {
    let n = segs.len();
    if n >= 2 && segs[n - 2] == "iter" && segs[n - 1] == "once" && args.len() == 1 {
        return Some(vec![(st.clone(), Flow::Val(V::List(Rc::new(args.to_vec()))))]);
    }
    if segs.last().is_some_and(|x| x == "from_value") && args.len() == 1 {
        let ok = it.sym("valid", args.to_vec());
        let a = it.deref(st, &args[0]);
        return Some(
            it.branch(st.clone(), &ok)
                .into_iter()
                .map(|(st, b)| (st, Flow::Val(if b { ctor("Ok", vec![it.sym("val", vec![a.clone()])]) } else { ctor("Err", vec![it.sym("bad", vec![a.clone()])]) })))
                .collect(),
        );
    }
    None
}
fn reader<'r>(r: &'r Repo, rep: &mut Report, alias: bool) -> Option<(Traced<'r, 'r>, &'r FnInfo)> {
    let f = need(r, rep, OPTIONS, None, "get_field_json")?;
    let file = f.file.clone();
    let cfg = Cfg::new(move |g: &FnInfo| g.file == file).mhook(json_hook).chook(once).coll(1).events(|n| n == "push");
    let it = Interp::new(r, Trace { cfg, panics: Default::default() });
    let args: Vec<V> = sym_args(&it, f.id)
        .into_iter()
        .enumerate()
        .map(|(i, v)| match i {
            2 => s("al_phaBeta_c"),
            3 if alias => some(s("old_name")),
            3 => none(),
            _ => v,
        })
        .collect();
    let paths = run(&it, f.id, Some(args));
    let t = Traced { it, paths };
    if std::env::var("SA_DUMP").is_ok_and(|x| x == f.name) {
        t.dump();
    }
    Some((t, f))
}
fn has(t: &Traced, p: &PathR, txt: &str) -> Option<bool> {
    p.st.facts.iter().find(|(x, _)| full(&t.it, &V::Sym(**x)) == txt).and_then(|(_, f)| match f {
        Fact::Bool(b) => Some(*b),
        Fact::Is(n, ..) => Some(matches!(&**n, "Some" | "Ok")),
        _ => None,
    })
}
/// the section all the client's settings are in, from its package.json
fn sections_of_client(r: &Repo) -> String {
    let s = std::fs::read_to_string(r.root.join("editors/code/package.json")).unwrap_or_default();
    let j: serde_json::Value = serde_json::from_str(&s).unwrap_or_default();
    let c = &j["contributes"]["configuration"];
    let all: Vec<&serde_json::Value> = c.as_array().map(|a| a.iter().collect()).unwrap_or_else(|| vec![c]);
    let keys: std::collections::BTreeSet<String> = all.iter().filter_map(|x| x["properties"].as_object()).flat_map(|o| o.keys().map(|k| k.split('.').next().unwrap_or("").to_string())).collect();
    keys.into_iter().collect::<Vec<_>>().join(" and ")
}

pub fn l11(r: &Repo, _: bool) -> Report {
    let mut rep = Report::new(
        "get_field_json, for a field with and without an older name, on every combination of present/absent and well-formed/ill-formed values: the first well-formed value is returned, every ill-formed value before it is put in the error list together with its key, nothing else is; \
         apply_change_with_sink: for settings that are neither null nor {} the client's settings become exactly what was read from them and the errors exactly those of this reading, else they are kept; apply_change hands out all errors; \
         the configuration response installs that configuration and stores its errors (none when there are none); current_status warns, with the text of the errors, whenever errors are stored",
    );
    let rep = &mut rep;
    for alias in [false, true] {
        let Some((t, f)) = reader(r, rep, alias) else { continue };
        rep.count("paths of get_field_json", t.paths.len());
        let srcs: Vec<&str> = if alias { vec!["/old/name", "/al/phaBeta/c"] } else { vec!["/al/phaBeta/c"] };
        let mut good = 0;
        for p in &t.paths {
            let mut want = "None".to_string();
            let mut errs = vec![];
            let mut unread = vec![];
            for k in &srcs {
                match has(&t, p, &format!("at(json, {k:?})")) {
                    None => unread.push(*k),
                    Some(false) => {}
                    Some(true) => match has(&t, p, &format!("valid(in({k:?}))")) {
                        None => unread.push(*k),
                        Some(false) => errs.push(format!("({k:?}, bad(in({k:?})))")),
                        Some(true) => {
                            want = format!("Some(val(in({k:?})))");
                            good += 1;
                            break;
                        }
                    },
                }
            }
            let ret = full(&t.it, &p.ret);
            rep.ob(unread.is_empty(), format!("unread:{alias}"), format!("get_field_json may return {ret} without looking at the value under {unread:?}"), &f.file, f.line);
            rep.ob(ret == want, format!("value:{alias}"), format!("get_field_json returns {ret} where the settings hold {want} (errors: {errs:?})"), &f.file, f.line);
            let pushed: Vec<String> = p.st.events.iter().filter(|e| e.name.ends_with("push")).map(|e| e.args.iter().skip(1).map(|a| full(&t.it, a)).collect::<String>()).collect();
            for e in &errs {
                rep.ob(pushed.iter().filter(|x| *x == e).count() == 1, format!("reported:{alias}"), format!("a setting with an ill-formed value is not reported: {e} is not in {pushed:?}"), &f.file, f.line);
            }
            rep.ob(pushed.len() <= srcs.len() && pushed.iter().all(|x| errs.contains(x) || want != "None" && x.contains("bad(")), format!("only:{alias}"), format!("reported {pushed:?}, ill-formed {errs:?}"), &f.file, f.line);
        }
        rep.floor("paths that return a value", good, 1);
    }
    // a change of the settings
    if let Some(f) = need(r, rep, "config/config_change.rs", Some("Config"), "apply_change_with_sink") {
        let file = f.file.clone();
        let cfg = Cfg::new(move |g: &FnInfo| g.file == file).coll(1).events(|_| false);
        let t = trd(r, rep, f.id, None, cfg);
        rep.count("paths of a change of settings", t.paths.len());
        let mut set = 0;
        for p in &t.paths {
            let j = "Some#0(change.client_config_change)";
            let given = has(&t, p, "change.client_config_change");
            let null = has(&t, p, &format!("{j}.is_null()"));
            let empty = p.st.facts.iter().any(|(x, f)| *f == Fact::Bool(true) && { let s = full(&t.it, &V::Sym(*x)); s.contains("is_empty()") && s.contains(j) });
            let got = heap_of(&t.it, &p.st, "self.client_config").map(|v| full(&t.it, &v));
            let at = (&*f.file, f.line);
            if given == Some(true) && null != Some(true) && !empty {
                set += 1;
                let n = p.st.facts.iter().find(|(x, _)| full(&t.it, &V::Sym(**x)).starts_with("has(havoc(")).map(|(_, f)| *f == Fact::Bool(true));
                let input = format!("(FullConfigInput::from_json()({j}, []), ");
                let g = got.clone().unwrap_or_default();
                rep.ob(g.starts_with(&input), "taken", format!("after a change of the settings to {j} the client's settings are {got:?}, not what is read from it"), at.0, at.1);
                match n {
                    Some(true) => rep.ob(g.contains("elem(havoc(\"FullConfigInput::from_json\"") && g.contains("config_key: ") && g.contains(".0") && g.contains(".1"), "errors-kept", format!("an error of reading the settings is not kept: {g}"), at.0, at.1),
                    Some(false) => rep.ob(g.ends_with("ConfigErrors([]))"), "errors-none", format!("errors are kept that were not found: {g}"), at.0, at.1),
                    None => rep.ob(false, "errors-read", format!("the errors found while reading the settings are not looked at: {g}"), at.0, at.1),
                };
            } else {
                rep.ob(got.is_none(), "kept", format!("the client's settings change to {got:?} although it sent none"), at.0, at.1);
            }
            rep.ob(matches!(full(&t.it, &p.ret).as_str(), "self" | "Config::clone()(self)"), "returned", format!("apply_change_with_sink returns {}", full(&t.it, &p.ret)), at.0, at.1);
        }
        rep.floor("paths that take the client's settings", set, 1);
    }
    if let Some(f) = need(r, rep, "config/config_change.rs", Some("Config"), "apply_change") {
        let cfg = Cfg::new(move |g: &FnInfo| g.file.ends_with("config_change.rs") && g.name != "apply_change_with_sink").coll(1).events(|n| matches!(last(n), "extend" | "append" | "extend_from_slice" | "push"));
        let t = trd(r, rep, f.id, None, cfg);
        for p in &t.paths {
            let ret = full(&t.it, &p.ret);
            let c = "Config::apply_change_with_sink()(self, change)";
            let n: Vec<String> = p.st.facts.iter().filter(|(_, f)| **f == Fact::Bool(true)).map(|(x, _)| full(&t.it, &V::Sym(*x))).filter(|x| x.starts_with("has(")).collect();
            rep.ob(ret.starts_with(&format!("({c}, ")), "config-returned", format!("apply_change returns {ret}"), &f.file, f.line);
            for src in [format!("{c}.client_config.1.0"), format!("{c}.validation_errors.0")] {
                let looked = p.st.facts.keys().any(|x| full(&t.it, &V::Sym(*x)) == format!("has({src}, 1)"));
                rep.ob(looked || ret.contains(&src), format!("all-errors:{}", last(&src.replace('.', "::"))), format!("apply_change does not hand out the errors in {src}"), &f.file, f.line);
            }
            for h in n {
                let src = h.trim_start_matches("has(").trim_end_matches(", 1)").to_string();
                let e = format!("elem({src}, 0, 1)");
                let given = p.st.events.iter().any(|x| x.args.iter().any(|a| { let a = full(&t.it, a); a.contains(&e) || a.contains(&src) }));
                rep.ob(ret.contains(&e) || given, "each-error", format!("an error of {src} is not handed out: {ret}"), &f.file, f.line);
            }
        }
    }
    // the client's answer
    if let Some(f) = need(r, rep, "handlers/notification.rs", None, "handle_did_change_configuration") {
        let file = f.file.clone();
        let cfg = Cfg::new(move |g: &FnInfo| g.file == file || g.name == "change_client_config").events(|n| matches!(last(n), "update_configuration" | "apply_change" | "send_request"));
        let t = trd(r, rep, f.id, None, cfg);
        let section = sections_of_client(r);
        let mut sections = 0;
        let mut installed = 0;
        for p in &t.paths {
            let answered = p.st.facts.iter().any(|(x, f)| matches!(f, Fact::Is(n, ..) if &**n == "Some") && full(&t.it, &V::Sym(*x)).ends_with(", 0)")) || !evs(p, "apply_change").is_empty();
            let ap = evs(p, "apply_change");
            let up = evs(p, "update_configuration");
            for e in evs(p, "send_request").iter().filter(|e| e.name.contains("send_request")) {
                if let Some(a) = e.args.iter().map(|a| full(&t.it, &t.it.deref(&p.st, a))).find(|a| a.contains("items: ")) {
                    sections += 1;
                    rep.ob(a.matches("section: ").count() == 1 && a.contains(&format!("section: Some({section:?})")) && a.contains("scope_uri: None"), "section", format!("the client is asked for {a}, its settings are in the section {section}"), &f.file, e.line);
                }
            }
            if !answered || ap.is_empty() && up.is_empty() {
                rep.ob(up.is_empty(), "no-answer", "the configuration is replaced without an answer", &f.file, f.line);
                // an answer with a first item is not dropped
                let of = |n: &str| p.st.facts.iter().find_map(|(x, f)| if full(&t.it, &V::Sym(*x)).ends_with(n) { if let Fact::Is(v, ..) = f { Some(v.to_string()) } else { None } } else { None });
                if of(".error").as_deref() == Some("None") && of(".result").as_deref() == Some("Some") {
                    let why: Vec<String> = p.st.facts.iter().filter(|(x, f)| !matches!(f, Fact::Is(n, ..) if &**n == "None") && { let s = full(&t.it, &V::Sym(**x)); s.contains(".result)") && !s.ends_with(".result") }).map(|(x, f)| format!("{} {f:?}", full(&t.it, &V::Sym(*x)))).filter(|x| !x.contains("Vec::len()") && !x.contains("is_empty()(Some#0(")).collect();
                    rep.ob(why.is_empty(), "dropped", format!("settings the client answered with are not applied: {why:?}"), &f.file, f.line);
                }
                continue;
            }
            installed += 1;
            let line = ap.first().map(|e| e.line).unwrap_or(f.line);
            if !rep.ob(ap.len() == 1 && up.len() == 1, "installed", format!("an answer of the client with settings is applied {} times and installed {} times", ap.len(), up.len()), &f.file, line) {
                continue;
            }
            let a: Vec<String> = ap[0].args.iter().map(|x| full(&t.it, x)).collect();
            let res = format!("Config::apply_change()({})", a.join(", "));
            let u = up[0].args.iter().map(|x| full(&t.it, x)).collect::<Vec<_>>();
            rep.ob(a[0].contains(".config"), "based-on", format!("the settings are applied to {}", a[0]), &f.file, line);
            let ch = p.st.heap.iter().map(|(k, v)| (full(&t.it, &V::Sym(*k)), full(&t.it, v))).collect::<Vec<_>>();
            rep.ob(ch.iter().any(|(k, v)| k.ends_with(".client_config_change") && v.starts_with("Some(") && v.contains("result")), "sent-on", "what the client answered is not what is applied", &f.file, line);
            rep.ob(u.last() == Some(&format!("{res}.0")), "that-config", format!("update_configuration is given {u:?}, not the changed configuration"), &f.file, line);
            let e = ch.iter().find(|(k, _)| k.ends_with(".config_errors")).map(|x| x.1.clone());
            let none = p.st.facts.iter().find_map(|(x, f)| match (f, full(&t.it, &V::Sym(*x))) {
                (Fact::Bool(b), s) if s.contains("is_empty") && s.contains(&format!("{res}.1")) => Some(*b != s.ends_with(".not()")),
                _ => None,
            });
            let ok = match none {
                Some(true) => e.as_deref() == Some("None"),
                Some(false) => e == Some(format!("Some({res}.1)")),
                None => false,
            };
            rep.ob(ok, "stored", format!("after a change whose errors are empty={none:?}, the stored errors are {e:?}"), &f.file, line);
        }
        rep.floor("paths that install the client's answer", installed, 1);
        rep.floor("requests for the settings", sections, 1);
    }
    if let Some(f) = need(r, rep, "reload.rs", Some("GlobalState"), "update_configuration") {
        let t = trd(r, rep, f.id, None, Cfg::new(|_| false).events(|_| false));
        for p in &t.paths {
            let c = heap_of(&t.it, &p.st, "self.config").map(|v| full(&t.it, &v)).unwrap_or_default();
            rep.ob(matches!(c.as_str(), "config" | "Arc::new(config)" | "Arc::new()(config)"), "in-force", format!("after update_configuration the configuration in force is {c:?}, not the one it was given"), &f.file, f.line);
        }
        rep.floor("paths of update_configuration", t.paths.len(), 1);
    }
    // the lists of errors are handed on whole
    for f in r.fns.iter().filter(|f| f.file.ends_with("config/config_change.rs") && f.self_ty.as_deref() == Some("Config")) {
        let toks = quote::ToTokens::to_token_stream(f.block).to_string();
        for m in ["take", "skip", "step_by", "take_while", "skip_while", "map_while", "truncate", "nth", "dedup", "drain", "split_off"] {
            let cut = toks.match_indices(&format!(". {m} (")).any(|(i, x)| !toks[i + x.len()..].trim_start().starts_with(')'));
            rep.ob(!cut, format!("whole:{m}"), format!("{} hands on a part of the errors ({m})", f.name), &f.file, f.line);
        }
    }
    if let Some(f) = need(r, rep, "reload.rs", Some("GlobalState"), "current_status") {
        let t = trd(r, rep, f.id, None, Cfg::new(|_| false).events(|_| false));
        let mut warned = 0;
        for p in &t.paths {
            let Some(set) = has(&t, p, "self.config_errors") else {
                rep.ob(false, "status-looks", "the status does not depend on the stored errors", &f.file, f.line);
                continue;
            };
            if set {
                warned += 1;
                let ret = full(&t.it, &p.ret);
                let health = ret.split("health: ").nth(1).and_then(|x| x.split(", message").next()).unwrap_or("").to_string();
                rep.ob(health.contains("Warning") || health.contains("Error"), "status-warns", format!("errors are stored but the status is {health}"), &f.file, f.line);
            }
        }
        rep.floor("status paths with errors", warned, 1);
    }
    std::mem::take(rep)
}
/// the settings as symbols, everything of `Config` else followed
fn scfg<'a>(names: &[String], inline: impl Fn(&FnInfo) -> bool + 'a) -> Cfg<'a> {
    let nn = names.to_vec();
    Cfg::new(inline)
        .coll(1)
        .unroll(Some(1))
        .mhook(move |it, cx, st, c| {
            if c.args.is_empty() && nn.iter().any(|x| x == c.name) {
                return Some(vec![(st.clone(), Flow::Val(it.sym(&format!("set.{}", c.name), vec![])))]);
            }
            // what is passed, not where it lies
            if c.name == "full_diagnostics" {
                let mut st = st.clone();
                let a: Vec<V> = std::iter::once(&c.recv).chain(&c.args).map(|x| it.deref(&st, x)).collect();
                st.event("full_diagnostics", a.clone(), 0, c.line);
                let v = it.sym("full_diagnostics()", a);
                return Some(vec![(st, Flow::Val(v))]);
            }
            // what a collection keeps is an event, whatever it is made of
            if c.name == "retain" {
                let recv = it.deref(st, &c.recv);
                let mut out = vec![];
                for (mut st, f) in it.apply(cx, &c.args[0], vec![it.sym("d", vec![])], st.clone(), c.line) {
                    if let Flow::Val(v) = f {
                        let v = it.deref(&st, &v);
                        st.event("retain", vec![recv.clone(), v], 0, c.line);
                        out.push((st, Flow::Val(V::Unit)));
                    }
                }
                return Some(out);
            }
            None
        })
        .events(|n| !n.starts_with("tracing") && !matches!(last(n), "clone"))
}
/// one field of what a function builds, as a conjunction of atoms
fn conj(t: &Traced, rep: &mut Report, f: &FnInfo, fld: &str, atoms: &[&str]) {
    for p in &t.paths {
        let v = match &p.ret {
            V::Struct(_, m) => m.get(fld).cloned(),
            _ => None,
        };
        let key = format!("{}:{fld}", f.name);
        let Some(v) = v else {
            rep.ob(false, key, format!("{} does not build a value with {fld}: {}", f.name, full(&t.it, &p.ret)), &f.file, f.line);
            continue;
        };
        let v = norm(&t.it, &p.st, &v);
        let is = |s: &str, a: &str| s == a || a.starts_with('@') && s.contains(&a[1..]);
        let known: Vec<Option<bool>> = atoms.iter().map(|a| p.st.facts.iter().find(|(x, _)| is(&full(&t.it, &V::Sym(**x)), a)).and_then(|(_, f)| if let Fact::Bool(b) = f { Some(*b) } else { None })).collect();
        let txt = full(&t.it, &v);
        let ok = match &v {
            V::Bool(true) => known.iter().all(|k| *k == Some(true)),
            V::Bool(false) => known.iter().any(|k| *k == Some(false)),
            _ => {
                let i = atoms.iter().position(|a| is(&txt, a));
                i.is_some_and(|i| known.iter().enumerate().all(|(j, k)| j == i || *k == Some(true)))
            }
        };
        rep.ob(ok, key, format!("{}: {fld} is {txt} where {:?} are {known:?}; it must be {}", f.name, atoms, atoms.join(" && ").replace('@', "")), &f.file, f.line);
    }
}
/// (function of Config, field of what it returns, what it must be)
const BUILDS: &[(&str, &str, &[&str])] = &[
    ("diagnostics_config", "enabled", &["set.diagnostics_enable"]),
    ("diagnostics_config", "disabled", &["set.diagnostics_disabled"]),
    ("diagnostics_config", "enable_only", &["set.diagnostics_enableOnly"]),
    ("diagnostics_config", "needs_type_annotation", &["set.diagnostics_needsTypeAnnotation"]),
    ("inlay_hints_config", "render_colons", &["set.inlayHints_renderColons"]),
    ("inlay_hints_config", "type_hints", &["set.inlayHints_typeHints_enable"]),
    ("inlay_hints_config", "tuple_type_hints", &["set.inlayHints_typeHints_showForTuples"]),
    ("inlay_hints_config", "parameter_hints", &["set.inlayHints_parameterHints_enable"]),
    ("inlay_hints_config", "range_exclusive_hints", &["set.inlayHints_rangeExclusiveHints_enable"]),
    ("inlay_hints_config", "hide_closure_parameter_hints", &["set.inlayHints_typeHints_hideClosureParameter"]),
    ("runnables", "tests_extra_args", &["set.tests_extraArgs"]),
    ("runnables", "prover_extra_args", &["set.prover_extraArgs"]),
    ("lens", "runnables", &["set.lens_enable", "set.lens_run_enable"]),
    ("lens", "specifications", &["set.lens_enable", "set.lens_specifications_enable"]),
    ("lens", "location", &["set.lens_location"]),
    ("dap", "path", &["set.dap_path"]),
    ("dap", "extra_args", &["set.dap_extraArgs"]),
    ("completion", "enable_imports_on_the_fly", &["set.completion_autoimport_enable", "@has_completion_item_resolve_additionalTextEdits"]),
];
fn config_fn<'r>(r: &'r Repo, rep: &mut Report, n: &str) -> Option<&'r FnInfo> {
    need(r, rep, "aptos-language-server/src/config.rs", Some("Config"), n)
}
/// declared in package.json, with the same default and a type that admits what the server reads
fn declared(r: &Repo, rep: &mut Report, ss: &[Setting]) {
    use serde_json::Value as J;
    let pj = "editors/code/package.json";
    let Some(p) = std::fs::read_to_string(r.root.join(pj)).ok().and_then(|t| serde_json::from_str::<J>(&t).ok()) else {
        rep.problem("package.json cannot be read");
        return;
    };
    let mut props: BTreeMap<String, J> = BTreeMap::new();
    let mut generated = vec![];
    let mut within = false;
    let conf = &p["contributes"]["configuration"];
    let parts: Vec<&J> = match conf {
        J::Array(a) => a.iter().collect(),
        x => vec![x],
    };
    for e in parts {
        match e["title"].as_str() {
            Some("$generated-start") => within = true,
            Some("$generated-end") => within = false,
            _ => {}
        }
        for (k, v) in e["properties"].as_object().into_iter().flatten() {
            props.insert(k.clone(), v.clone());
            if within {
                generated.push(k.clone());
            }
        }
    }
    rep.floor("declared settings", props.len(), 25);
    let file = ss.first().map(|_| "crates/aptos-language-server/src/config/options.rs").unwrap_or("");
    for s in ss.iter().filter(|s| s.group == "global") {
        let key = format!("move-on-aptos.{}", s.name.replace('_', "."));
        let Some(d) = props.get(&key) else {
            rep.ob(false, format!("declared:{}", s.name), format!("the server reads {key}, which package.json does not declare: no user can set it"), file, s.line);
            continue;
        };
        rep.ob(d["default"] == s.default, format!("default:{}", s.name), format!("{key} is {} when unset according to package.json, {} for the server", d["default"], s.default), file, s.line);
        let inner = s.ty.strip_prefix("Option<").and_then(|x| x.strip_suffix('>'));
        let base = match inner.unwrap_or(&s.ty) {
            "bool" => "boolean",
            "String" | "Utf8PathBuf" => "string",
            "usize" | "u16" | "u32" | "u64" => "integer",
            t if t.starts_with("Vec<") || t.starts_with("HashSet<") => "array",
            t if t.starts_with("HashMap<") => "object",
            t if r.enums.iter().any(|e| e.item.ident == t) => "string",
            _ => "?",
        };
        let want = if inner.is_some() { serde_json::json!(["null", base]) } else { J::from(base) };
        rep.ob(d["type"] == want, format!("type:{}", s.name), format!("{key} is declared as {}, the server reads a {}", d["type"], s.ty), file, s.line);
        if let Some(en) = r.enums.iter().find(|e| e.item.ident == *inner.unwrap_or(&s.ty) && e.file.contains("/config")) {
            let attrs: String = en.item.attrs.iter().map(|a| a.to_token_stream().to_string()).collect();
            let vs: Vec<String> = en.item.variants.iter().map(|v| if attrs.contains("snake_case") { snake(&v.ident.to_string()) } else { v.ident.to_string() }).collect();
            for v in d["enum"].as_array().into_iter().flatten() {
                rep.ob(v.as_str().is_some_and(|v| vs.iter().any(|x| x == v)), format!("enum:{}", s.name), format!("package.json offers {v} for {key}, the server reads {vs:?}"), file, s.line);
            }
        }
    }
    for k in &generated {
        let n = k.trim_start_matches("move-on-aptos.").replace('.', "_");
        rep.ob(ss.iter().any(|s| s.name == n), format!("served:{n}"), format!("package.json declares {k} as a setting of the server, which does not read it"), pj, 1);
    }
    // what the extension itself reads
    let mut n = 0;
    if let Ok(rd) = std::fs::read_dir(r.root.join("editors/code/src")) {
        for e in rd.flatten().filter(|e| e.path().extension().is_some_and(|x| x == "ts")) {
            let name = e.file_name().to_string_lossy().to_string();
            if !matches!(name.as_str(), "config.ts" | "extension.ts" | "commands.ts" | "ctx.ts" | "run.ts" | "client.ts") {
                continue;
            }
            let text = std::fs::read_to_string(e.path()).unwrap_or_default();
            for (ln, l) in text.lines().enumerate() {
                let code = l.trim_start();
                if code.starts_with('*') || code.starts_with("//") {
                    continue;
                }
                for (i, _) in l.match_indices("get") {
                    let pre = &l[..i];
                    if !(pre.ends_with("cfg.") || pre.ends_with("this.") || pre.ends_with(" config.")) {
                        continue;
                    }
                    let rest = &l[i + 3..];
                    if !rest.starts_with('<') && !rest.starts_with('(') {
                        continue;
                    }
                    let Some(q) = rest.find("(\"").or(rest.find("('")) else { continue };
                    let k: String = rest[q + 2..].chars().take_while(|c| *c != '"' && *c != '\'').collect();
                    // read with a default, never offered to the user
                    if k == "checkOnSave" {
                        continue;
                    }
                    n += 1;
                    rep.ob(props.contains_key(&format!("move-on-aptos.{k}")), format!("client:{k}"), format!("the extension reads move-on-aptos.{k}, which package.json does not declare"), &format!("editors/code/src/{name}"), ln + 1);
                }
            }
        }
    }
    rep.floor("settings read by the extension", n, 8);
}
pub fn l10(r: &Repo, _: bool) -> Report {
    let mut rep = Report::new(
        "config_data! is expanded from its macro_rules: for each setting, package.json declares it with the same default and a type (and enum values) the server reads, from_json asks for it under its own name, its accessor gives the client's value if there is one and the default otherwise; \
         every generated declaration is read; every setting the extension reads is declared; each field of the configurations Config hands out is that setting (or the stated conjunction); \
         each consumer obeys: path by path, diagnostics of a disabled code are dropped and nothing is computed when switched off, each kind of lens and hint is made if and only if its own switch is on, extra arguments and paths reach the command, a changed configuration refreshes what depends on it",
    );
    let rep = &mut rep;
    let Some((ss, r2)) = settings(r, rep) else { return std::mem::take(rep) };
    let r2: &'static Repo = Box::leak(Box::new(r2));
    let names: Vec<String> = ss.iter().map(|s| s.name.clone()).collect();
    declared(r, rep, &ss);
    // read under their own names, handed out with the right precedence
    for s in &ss {
        let at = ("crates/aptos-language-server/src/config/options.rs", s.line);
        let acc: Vec<&FnInfo> = r2.fns.iter().filter(|f| f.name == s.name && f.self_ty.as_deref() == Some("Config")).collect();
        if !rep.ob(acc.len() == 1, format!("accessor:{}", s.name), format!("{} accessors of {}", acc.len(), s.name), at.0, at.1) {
            continue;
        }
        let t = tr(r2, rep, acc[0].id, None, Cfg::new(|_| false));
        let client = format!("self.client_config.0.{}.{}", s.group, s.name);
        let default = format!("self.default_config.{}.{}", s.group, s.name);
        let mut seen = [false; 2];
        for p in &t.paths {
            let ret = full(&t.it, &p.ret);
            let set = has(&t, p, &client);
            let want = match set {
                Some(true) => format!("Some#0({client})"),
                Some(false) => default.clone(),
                None => String::new(),
            };
            if let Some(b) = set {
                seen[b as usize] = true;
            }
            rep.ob(ret == want || set.is_none() && ret.contains(&client) && ret.contains(&default), format!("precedence:{}", s.name), format!("{} gives {ret} when the client set it: {set:?}", s.name), at.0, at.1);
        }
    }
    for s in ss.iter() {
        for f in r2.fns.iter().filter(|f| f.name == "from_json" && f.self_ty.as_deref() == Some(&s.input)) {
            let t = tr(r2, rep, f.id, None, Cfg::new(|_| false).events(|_| false));
            for p in &t.paths {
                let got = match &p.ret {
                    V::Struct(_, m) => m.get(&*s.name).map(|v| full(&t.it, v)),
                    _ => None,
                };
                let a = s.aliases.last().map(|a| format!("Some({a:?})")).unwrap_or("None".into());
                let want = format!("get_field_json()(json, error_sink, {:?}, {a})", s.name);
                let ok = got.as_ref().is_some_and(|g| g.ends_with(&want) || s.aliases.len() > 1 && g.contains(&format!("error_sink, {:?},", s.name)));
                rep.ob(ok, format!("read:{}", s.name), format!("{} is read as {got:?}", s.name), "crates/aptos-language-server/src/config/options.rs", s.line);
            }
        }
    }
    if let Some(f) = need(r, rep, OPTIONS, Some("FullConfigInput"), "from_json") {
        let t = tr(r2, rep, f.id, None, Cfg::new(|_| false).events(|_| false));
        for p in &t.paths {
            for (g, ty) in ss.iter().map(|s| (s.group.clone(), s.input.clone())).collect::<std::collections::BTreeSet<_>>() {
                let got = match &p.ret {
                    V::Struct(_, m) => m.get(&*g).map(|v| full(&t.it, v)).unwrap_or_default(),
                    _ => String::new(),
                };
                rep.ob(got.ends_with(&format!("{ty}::from_json()(json, error_sink)")), format!("group:{g}"), format!("the {g} settings are read as {got}"), &f.file, f.line);
            }
        }
    }
    // what the features are given
    let conf = |g: &FnInfo| g.self_ty.as_deref() == Some("Config") && g.file.ends_with("/config.rs") && !g.name.starts_with("inlay_hint_resolve") && g.name != "commands";
    let mut built = BTreeMap::new();
    for (n, fld, atoms) in BUILDS {
        let Some(f) = config_fn(r, rep, n) else { continue };
        if !built.contains_key(n) {
            built.insert(*n, trd(r, rep, f.id, None, scfg(&names, conf)));
        }
        conj(&built[n], rep, f, fld, atoms);
    }
    if let Some(f) = config_fn(r, rep, "movefmt") {
        let t = trd(r, rep, f.id, None, scfg(&names, conf));
        let mut set = 0;
        for p in &t.paths {
            let given = has(&t, p, "set.movefmt_path");
            let V::Ctor(n, a) = &p.ret else {
                rep.ob(false, "movefmt:ret", format!("movefmt returns {}", full(&t.it, &p.ret)), &f.file, f.line);
                continue;
            };
            if &**n != "Some" {
                rep.ob(given == Some(false), "movefmt:path-ignored", "no formatter although the user set a path", &f.file, f.line);
                continue;
            }
            let V::Struct(_, m) = &a[0] else { continue };
            let g = |k: &str| m.get(k).map(|v| full(&t.it, v)).unwrap_or_default();
            rep.ob(g("extra_args") == "set.movefmt_extraArgs", "movefmt:args", format!("movefmt's arguments are {}", g("extra_args")), &f.file, f.line);
            if given == Some(true) {
                set += 1;
                rep.ob(g("path") == "Some#0(set.movefmt_path)", "movefmt:path", format!("the path is {} although the user set one", g("path")), &f.file, f.line);
            } else {
                rep.ob(g("path").contains("find_movefmt_path") || !g("path").contains("set."), "movefmt:guess", format!("the path is {} and the user set none", g("path")), &f.file, f.line);
            }
        }
        rep.floor("movefmt paths from the setting", set, 1);
    }
    if let Some(f) = config_fn(r, rep, "aptos_path") {
        let t = trd(r, rep, f.id, None, scfg(&names, conf));
        for p in &t.paths {
            let s = full(&t.it, &p.ret);
            rep.ob(s.contains("set.aptosPath"), "aptos_path", format!("aptos_path is {s}"), &f.file, f.line);
        }
    }
    if let Some(f) = config_fn(r, rep, "files") {
        let t = trd(r, rep, f.id, None, scfg(&names, conf));
        for p in &t.paths {
            let client = full(&t.it, &p.ret).contains("watcher: Client");
            let set = p.st.facts.iter().any(|(x, f)| full(&t.it, &V::Sym(*x)) == "set.files_watcher" && matches!(f, Fact::Is(n, ..) if &**n == "Client"));
            let reg = fact_bool(&t.it, &p.st, |s| s.contains("did_change_watched_files_dynamic_registration"));
            rep.ob(client == (set && reg == Some(true)), "files:watcher", format!("the client watches files: {client}, where the setting is client: {set} and it can register watchers: {reg:?}"), &f.file, f.line);
        }
    }
    diagnostics(r, rep, &names);
    lenses(r, rep, &names);
    hints(r, rep, &names);
    commands(r, rep, &names);
    std::mem::take(rep)
}
fn diagnostics(r: &Repo, rep: &mut Report, names: &[String]) {
    truth_table(
        r,
        rep,
        "ide-diagnostics/src/config.rs",
        Some("DiagnosticsConfig"),
        "is_diagnostic_enabled",
        &[("enable-only is empty", &["self.enable_only.is_empty()", "ConfigErrors::is_empty()(self.enable_only)"]), ("enable-only has it", &["self.enable_only.contains(code)"]), ("disabled has it", &["self.disabled.contains(code)"])],
        &|v| if v[0] { !v[2] } else { v[1] },
    );
    // the code a syntax error carries is the one it is looked up by
    let inl = |g: &FnInfo| g.self_ty.as_deref() == Some("DiagnosticCode") || g.name == "empty_diagnostic_report";
    let code = r.fns.iter().find(|f| f.self_ty.as_deref() == Some("DiagnosticCode") && f.name == "as_str").and_then(|f| {
        let t = tr(r, rep, f.id, None, Cfg::new(|_| false));
        t.paths.iter().filter(|p| p.st.facts.values().any(|f| matches!(f, Fact::Is(n, ..) if &**n == "SyntaxError"))).find_map(|p| if let V::Str(s) = &p.ret { Some(s.to_string()) } else { None })
    });
    let Some(code) = code else {
        rep.problem("the code of syntax errors was not found");
        return;
    };
    if let Some(f) = need(r, rep, "ide-diagnostics/src/lib.rs", None, "syntax_diagnostics") {
        let t = trd(r, rep, f.id, None, scfg(names, inl));
        let mut shown = 0;
        for p in &t.paths {
            let q = p.st.facts.iter().find_map(|(x, f)| match f {
                Fact::Bool(b) => {
                    let (o, a) = op(&t.it, &V::Sym(*x));
                    (o.contains("is_diagnostic_enabled")).then(|| (*b, a.get(1).map(|a| full(&t.it, a)).unwrap_or_default(), full(&t.it, &a[0])))
                }
                _ => None,
            });
            let nothing = matches!(&p.ret, V::List(l) if l.is_empty()) || full(&t.it, &p.ret).starts_with("Vec::");
            let Some((on, by, of)) = q else {
                rep.ob(nothing, "syntax:unasked", "syntax errors are shown without asking whether they are enabled", &f.file, f.line);
                continue;
            };
            let same = by == format!("{code:?}") || by == "SyntaxError" || by.contains("SyntaxError");
            rep.ob(same && of == "config", "syntax:code", format!("syntax errors carry the code {code:?} but are looked up by {by} in {of}"), &f.file, f.line);
            if !on {
                rep.ob(nothing, "syntax:disabled", "disabled syntax errors are shown", &f.file, f.line);
            } else {
                shown += 1;
                rep.ob(!evs_last(p, "parse_errors").is_empty(), "syntax:enabled", "enabled syntax errors are not computed", &f.file, f.line);
            }
        }
        rep.floor("paths that show syntax errors", shown, 1);
    }
    if let Some(f) = need(r, rep, "ide-diagnostics/src/lib.rs", None, "semantic_diagnostics") {
        let t = trd(r, rep, f.id, None, scfg(names, |_| false));
        let mut kept = 0;
        let mut sites: std::collections::BTreeSet<String> = Default::default();
        for p in &t.paths {
            let ctx = |a: &V| full(&t.it, a).starts_with("DiagnosticsContext");
            let made = p.st.events.iter().rposition(|e| e.args.len() >= 3 && ctx(&e.args[1]));
            let Some(made) = made else { continue };
            for e in p.st.events.iter().filter(|e| e.args.len() >= 3 && ctx(&e.args[1])) {
                sites.insert(e.name.to_string());
                let V::Struct(_, m) = norm(&t.it, &p.st, &e.args[1]) else { continue };
                rep.ob(m.get("config").is_some_and(|c| full(&t.it, c) == "config"), "semantic:config", format!("{} is given another configuration", e.name), &f.file, e.line);
            }
            let keep = p.st.events.iter().enumerate().skip(made).find(|(_, e)| &*e.name == "retain").map(|(_, e)| e.clone());
            let keep = keep.and_then(|e| e.args.get(1).cloned().map(|c| (c, e.line)));
            if !rep.ob(keep.is_some(), "semantic:kept", "diagnostics are returned without dropping those of disabled codes", &f.file, f.line) {
                continue;
            }
            kept += 1;
            let (c, line) = keep.unwrap();
            let decided = |want: bool| {
                p.st.facts.iter().any(|(x, f)| *f == Fact::Bool(want) && {
                    let s = full(&t.it, &V::Sym(*x));
                    s.contains("is_diagnostic_enabled()(config, ") && s.contains("d.code")
                })
            };
            let s = full(&t.it, &c);
            let ok = match &c {
                V::Bool(b) => decided(*b),
                _ => s.starts_with("DiagnosticsConfig::is_diagnostic_enabled()(config, ") && s.contains("d.code"),
            };
            rep.ob(ok, "semantic:enabled", format!("a diagnostic d is kept when {s}; must be exactly when its code is enabled"), &f.file, line);
        }
        rep.floor("paths that make semantic diagnostics", kept, 10);
        rep.floor("diagnostic handlers", sites.len(), 15);
    }
    if let Some(f) = need(r, rep, "ide-diagnostics/src/lib.rs", None, "full_diagnostics") {
        let t = trd(r, rep, f.id, None, scfg(names, |_| false));
        for p in &t.paths {
            for n in ["syntax_diagnostics", "semantic_diagnostics"] {
                let e = evs_last(p, n);
                rep.ob(e.len() == 1 && e[0].args.iter().any(|a| full(&t.it, a) == "config"), format!("full:{n}"), format!("full_diagnostics does not ask {n} with the configuration it was given"), &f.file, f.line);
            }
        }
    }
    if let Some(f) = need(r, rep, "handlers/request.rs", None, "handle_document_diagnostics") {
        let t = trd(r, rep, f.id, None, scfg(names, inl));
        let mut asked = 0;
        for p in &t.paths {
            let on = fact_bool(&t.it, &p.st, |s| s.ends_with("diagnostics_config()(snap.config).enabled") || s.ends_with("diagnostics_enabled()(snap.config)"));
            let e = evs_last(p, "full_diagnostics");
            if e.is_empty() {
                continue;
            }
            asked += 1;
            rep.ob(on == Some(true), "document:enabled", "diagnostics are computed without them being enabled", &f.file, e[0].line);
            let c = e[0].args.get(1).map(|c| full(&t.it, c)).unwrap_or_default();
            rep.ob(c.contains("diagnostics_config()(snap.config)"), "document:config", format!("diagnostics are computed with {c}"), &f.file, e[0].line);
        }
        rep.floor("paths that compute diagnostics", asked, 1);
    }
    if let Some(f) = need(r, rep, "ide-diagnostics/src/config.rs", Some("DiagnosticsConfig"), "for_assists") {
        let t = tr(r, rep, f.id, None, Cfg::new(|_| false));
        for p in &t.paths {
            let w: Vec<String> = p.st.heap.keys().map(|k| full(&t.it, &V::Sym(*k))).filter(|k| k != "self.assists_only").collect();
            let built = matches!(&p.ret, V::Struct(_, m) if ["enabled", "disabled", "enable_only", "needs_type_annotation"].iter().any(|k| m.get(*k).is_some_and(|v| full(&t.it, v) != format!("self.{k}"))));
            rep.ob(w.is_empty() && !built, "for-assists", format!("for_assists changes {w:?} too"), &f.file, f.line);
        }
    }
    if let Some(f) = need(r, rep, "handlers/missing_type_arguments.rs", None, "missing_type_arguments") {
        let t = trd(r, rep, f.id, None, scfg(names, |_| false));
        let (mut on, mut n) = (0, 0);
        for p in &t.paths {
            let on_ = has(&t, p, "ctx.config.needs_type_annotation");
            let e = evs_last(p, "needs_type_annotation");
            n += e.len();
            on += (on_ == Some(true) && !e.is_empty()) as usize;
            rep.ob(e.is_empty() || on_ == Some(true), "needs-type-annotation", "needs-type-annotation is reported without being enabled", &f.file, f.line);
        }
        rep.floor("paths that report needs-type-annotation", n.min(on), 1);
    }
    if let Some(f) = need(r, rep, "aptos-language-server/src/reload.rs", Some("GlobalState"), "update_configuration") {
        let t = trd(r, rep, f.id, None, scfg(names, |_| false));
        let mut changed = [0; 3];
        for p in &t.paths {
            let now = heap_of(&t.it, &p.st, "self.config").map(|v| full(&t.it, &v));
            rep.ob(now.as_deref() == Some("config"), "update:installed", format!("the configuration becomes {now:?}"), &f.file, f.line);
            for (i, (what, then)) in [("diagnostics_config", "ask_client_for_diagnostics_refresh"), ("inlay_hints_config", "ask_for_inlay_hints_refresh"), ("discovered_manifests", "request_op")].iter().enumerate() {
                let q = p.st.facts.iter().find_map(|(x, f)| match (f, full(&t.it, &V::Sym(*x))) {
                    (Fact::Bool(b), s) if s.starts_with("==(") && s.matches(what).count() == 2 && s.contains("(config)") && s.contains("(self.config)") => Some(*b),
                    _ => None,
                });
                let e = evs_last(p, then).len();
                match q {
                    Some(true) | None => rep.ob(q.is_some() || e > 0, format!("update:{what}"), format!("whether {what} changed is not looked at"), &f.file, f.line),
                    Some(false) => {
                        changed[i] += 1;
                        rep.ob(e == 1, format!("update:{what}"), format!("{what} changed, {then} is asked for {e} times"), &f.file, f.line)
                    }
                };
            }
        }
        rep.floor("changes that refresh", changed.iter().filter(|c| **c > 0).count(), 3);
    }
}
fn evs_last<'a>(p: &'a PathR, n: &str) -> Vec<&'a Ev> {
    p.st.events.iter().filter(|e| last(&e.name).trim_start_matches('.') == n).collect()
}
fn lenses(r: &Repo, rep: &mut Report, names: &[String]) {
    if let Some(f) = need(r, rep, "handlers/request.rs", None, "handle_code_lens") {
        let t = trd(r, rep, f.id, None, scfg(names, |g: &FnInfo| g.self_ty.as_deref() == Some("LensConfig")));
        let l = "Config::lens()(snap.config)";
        let mut asked = 0;
        for p in &t.paths {
            let e = evs_last(p, "annotations");
            let v = |k: &str| has(&t, p, &format!("{l}.{k}"));
            if let Some(e) = e.first() {
                asked += 1;
                for (k, of) in [("annotate_runnables", "runnables"), ("annotate_fun_specs", "specifications"), ("location", "location")] {
                    let got = e.args.iter().find_map(|a| match norm(&t.it, &p.st, a) {
                        V::Struct(_, m) => m.get(k).cloned(),
                        _ => None,
                    });
                    let s = got.as_ref().map(|g| full(&t.it, g)).unwrap_or_default();
                    let known = match got {
                        Some(V::Bool(b)) => v(of) == Some(b),
                        _ => false,
                    };
                    rep.ob(known || s.contains(&format!("{l}.{of}")), format!("lens:{k}"), format!("lenses are asked for with {k} = {s}, must be the setting's {of}"), &f.file, e.line);
                }
            } else if full(&t.it, &p.ret).starts_with("Ok") {
                rep.ob(v("runnables") == Some(false) && v("specifications") == Some(false), "lens:none", format!("no lenses are shown when runnables are {:?} and specifications {:?}", v("runnables"), v("specifications")), &f.file, f.line);
            }
        }
        rep.floor("paths that ask for lenses", asked, 1);
    }
    if let Some(f) = need(r, rep, "ide/src/annotations.rs", None, "annotations") {
        let t = trd(r, rep, f.id, None, scfg(names, |_| false));
        let mut free = [false; 2];
        for p in &t.paths {
            let v = [has(&t, p, "config.annotate_runnables"), has(&t, p, "config.annotate_fun_specs")];
            for (i, k) in ["Runnable", "HasSpecs"].iter().enumerate() {
                for e in evs_last(p, "insert").into_iter().chain(evs_last(p, "push")) {
                    let a = e.args.last().map(|a| full(&t.it, a)).unwrap_or_default();
                    if !a.contains(&format!("kind: {k}")) {
                        continue;
                    }
                    rep.ob(v[i] == Some(true), format!("annotation:{k}"), format!("a {k} annotation is made although it is not known to be asked for"), &f.file, e.line);
                    free[i] |= v[1 - i] != Some(true);
                }
            }
        }
        for (i, k) in ["Runnable", "HasSpecs"].iter().enumerate() {
            rep.ob(free[i], format!("annotation-alone:{k}"), format!("no {k} annotation is ever made when only those are asked for"), &f.file, f.line);
        }
    }
    if let Some(f) = r.fns.iter().find(|f| f.name == "from" && f.file.ends_with("server/src/config.rs") && f.params().first().is_some_and(|p| type_name(p.1) == "AnnotationLocation")) {
        let t = tr(r, rep, f.id, None, Cfg::new(|_| false));
        for p in &t.paths {
            let is = p.st.facts.values().find_map(|f| if let Fact::Is(n, ..) = f { Some(n.to_string()) } else { None });
            let ret = full(&t.it, &p.ret);
            if let Some(is) = is {
                rep.ob(ret.ends_with(&is), "lens:location", format!("{is} becomes {ret}"), &f.file, f.line);
            }
        }
    }
    if let Some(f) = need(r, rep, "lsp/to_proto.rs", None, "code_lens") {
        let t = trd(r, rep, f.id, None, scfg(names, |_| false));
        let mut n = 0;
        for p in &t.paths {
            let run = p.st.facts.values().any(|f| matches!(f, Fact::Is(n, ..) if &**n == "Runnable"));
            if !run || evs_last(p, "push").is_empty() {
                continue;
            }
            n += 1;
            let on = has(&t, p, "Config::lens()(snap.config).runnables");
            rep.ob(on != Some(false), "lens:run", "a run lens is shown although they are switched off", &f.file, f.line);
            let spec = has(&t, p, "Config::lens()(snap.config).specifications");
            rep.ob(spec.is_none(), "lens:run-alone", "a run lens depends on the specification lenses", &f.file, f.line);
        }
        rep.floor("paths that make a run lens", n, 1);
    }
}
fn hints(r: &Repo, rep: &mut Report, names: &[String]) {
    for (file, own, also) in [("inlay_hints/param_name.rs", "parameter_hints", &["render_colons"][..]), ("inlay_hints/ident_pat.rs", "type_hints", &["render_colons", "hide_closure_parameter_hints", "tuple_type_hints"][..]), ("inlay_hints/range_exclusive.rs", "range_exclusive_hints", &[][..])] {
        let Some(f) = need(r, rep, file, None, "hints") else { continue };
        let fl = f.file.clone();
        let t = trd(r, rep, f.id, None, scfg(names, move |g: &FnInfo| g.file == fl && g.name != "hints"));
        let mut made = 0;
        let mut seen: BTreeMap<(String, bool), usize> = BTreeMap::new();
        for p in &t.paths {
            let flag = |k: &str| has(&t, p, &format!("config.{k}"));
            let foreign: Vec<String> = p.st.facts.keys().map(|x| full(&t.it, &V::Sym(*x))).filter(|s| s.starts_with("config.") && !s[7..].contains(['.', '(']) && &s[7..] != own && !also.contains(&&s[7..])).collect();
            rep.ob(foreign.is_empty(), format!("hint-foreign:{own}"), format!("hints of {own} depend on {foreign:?}"), &f.file, f.line);
            let e: Vec<&Ev> = evs_last(p, "push").into_iter().filter(|e| e.args.first().is_some_and(|a| full(&t.it, a) == "acc")).collect();
            if e.is_empty() {
                continue;
            }
            made += 1;
            rep.ob(flag(own) == Some(true), format!("hint:{own}"), format!("a hint is made without {own}"), &f.file, e[0].line);
            for k in also.iter() {
                for b in [true, false] {
                    if flag(k) != Some(!b) {
                        *seen.entry((k.to_string(), b)).or_default() += 1;
                    }
                }
            }
            if own == "type_hints" {
                let is = |n: &str| p.st.facts.values().any(|f| matches!(f, Fact::Is(m, ..) if &**m == n));
                let lambda = is("LambdaParam");
                let hide = flag("hide_closure_parameter_hints");
                if lambda {
                    rep.ob(hide == Some(false), "hint:closure", "the type of a closure parameter is shown although it is to be hidden", &f.file, e[0].line);
                } else {
                    rep.ob(hide != Some(true) || has_let(&t, p), "hint:closure-only", "hiding closure parameters hides other hints", &f.file, e[0].line);
                }
                let tup = fact_bool(&t.it, &p.st, |s| s.contains("parent_is"));
                let show = flag("tuple_type_hints");
                if !lambda {
                    rep.ob(show == Some(true) || tup == Some(false), "hint:tuple", "the type of a tuple's element is shown although it is to be hidden", &f.file, e[0].line);
                }
            }
        }
        rep.floor(&format!("paths that make hints of {own}"), made, 1);
        for k in also.iter() {
            let both = if *k == "hide_closure_parameter_hints" { vec![false] } else { vec![true, false] };
            for b in both {
                rep.ob(seen.get(&(k.to_string(), b)).is_some(), format!("hint-needs:{k}"), format!("no hint of {own} is made when {k} is {b}"), &f.file, f.line);
            }
        }
    }
}
fn has_let(t: &Traced, p: &PathR) -> bool {
    let _ = t;
    p.st.facts.values().any(|f| matches!(f, Fact::Is(m, ..) if &**m == "LetStmt"))
}
fn commands(r: &Repo, rep: &mut Report, names: &[String]) {
    if let Some(f) = need(r, rep, "lsp/to_proto.rs", None, "runnable") {
        let fl = f.file.clone();
        let t = trd(r, rep, f.id, None, scfg(names, move |g: &FnInfo| g.file == fl && !matches!(g.name.as_str(), "location_link" | "runnable")));
        let mut n = BTreeMap::new();
        for p in &t.paths {
            let kind = p.st.facts.iter().find_map(|(x, f)| match f {
                Fact::Is(n, ..) if full(&t.it, &V::Sym(*x)) == "runnable.kind" => Some(n.to_string()),
                _ => None,
            });
            let Some(kind) = kind else { continue };
            let own = match kind.as_str() {
                "Test" => "tests_extra_args",
                k if k.starts_with("Prove") => "prover_extra_args",
                _ => "",
            };
            for e in ["tests_extra_args", "prover_extra_args"] {
                let src = format!("Config::runnables()(snap.config).{e}");
                let q = has(&t, p, &format!("has({src}, 1)"));
                if e != own {
                    rep.ob(q != Some(true), format!("args-foreign:{kind}"), format!("the arguments of a {kind} run come from {e}"), &f.file, f.line);
                    continue;
                }
                let whole = p.st.events.iter().any(|x| x.args.iter().any(|a| full(&t.it, a).contains(&src)));
                rep.ob(q.is_some() || whole, format!("args:{kind}"), format!("the arguments of a {kind} run do not take {e}"), &f.file, f.line);
                if q == Some(true) {
                    *n.entry(kind.clone()).or_insert(0) += 1;
                    let el = format!("elem({src}, 0, 1)");
                    let known = p.st.facts.iter().any(|(x, f)| *f == Fact::Bool(true) && { let s = full(&t.it, &V::Sym(*x)); (s.contains("contains") || s.starts_with("==(")) && s.contains(&el) });
                    let put = p.st.events.iter().any(|x| matches!(last(&x.name).trim_start_matches('.'), "push" | "extend" | "insert") && x.args.iter().skip(1).any(|a| full(&t.it, a).contains(&el))) || mentions(&t.it, &p.ret, &|v| full(&t.it, v) == el) || p.st.facts.values().any(|f| matches!(f, Fact::Is(n, ..) if &**n == "Err"));
                    rep.ob(put || known, format!("args-each:{kind}"), format!("an extra argument of a {kind} run is not passed on"), &f.file, f.line);
                }
            }
        }
        rep.floor("kinds of runs with extra arguments", n.len(), 3);
    }
    if let Some(f) = need(r, rep, "aptos-language-server/src/movefmt.rs", None, "run_movefmt") {
        let fl = f.file.clone();
        let t = trd(r, rep, f.id, None, scfg(names, move |g: &FnInfo| g.file == fl && !matches!(g.name.as_str(), "run_movefmt" | "get_movefmt_version" | "spawn_command")));
        let mut n = 0;
        for p in &t.paths {
            let Some(i) = p.st.events.iter().position(|e| last(&e.name) == "spawn_command") else { continue };
            n += 1;
            let before = &p.st.events[..i];
            let c = "Some#0(Config::movefmt()(snap.config))";
            rep.ob(before.iter().any(|e| e.args.iter().any(|a| full(&t.it, a) == format!("{c}.path"))), "movefmt:run", "the formatter that runs is not the configured one", &f.file, f.line);
            rep.ob(before.iter().any(|e| e.name.ends_with("args") && e.args.iter().skip(1).any(|a| full(&t.it, a) == format!("{c}.extra_args"))), "movefmt:run-args", "the formatter does not get the extra arguments", &f.file, f.line);
        }
        rep.floor("paths that run the formatter", n, 1);
    }
}
