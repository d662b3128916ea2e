//! What the language server and its editor client say to each other.
use super::trace::*;
use super::util::*;
use crate::absint::*;
use crate::repo::*;
use crate::report::Report;
use std::collections::{BTreeMap, BTreeSet};

const EXT: &str = "aptos-language-server/src/lsp/ext.rs";
const CLIENT: &str = "editors/code/src";

#[derive(Debug, Clone, PartialEq)]
enum T {
    Word(String),
    Str(String),
    P(char),
}
/// the tokens of a TypeScript text, without comments
fn lex(s: &str) -> Vec<(T, usize)> {
    let c: Vec<char> = s.chars().collect();
    let (mut i, mut line, mut out) = (0, 1, vec![]);
    while i < c.len() {
        let x = c[i];
        if x == '\n' {
            line += 1;
        }
        if x.is_whitespace() {
            i += 1;
        } else if x == '/' && c.get(i + 1) == Some(&'/') {
            while i < c.len() && c[i] != '\n' {
                i += 1;
            }
        } else if x == '/' && c.get(i + 1) == Some(&'*') {
            i += 2;
            while i < c.len() && !(c[i] == '*' && c.get(i + 1) == Some(&'/')) {
                line += (c[i] == '\n') as usize;
                i += 1;
            }
            i += 2;
        } else if x == '"' || x == '\'' || x == '`' {
            let at = line;
            let mut w = String::new();
            i += 1;
            while i < c.len() && c[i] != x {
                line += (c[i] == '\n') as usize;
                if c[i] == '\\' {
                    i += 1;
                }
                w.extend(c.get(i));
                i += 1;
            }
            i += 1;
            out.push((T::Str(w), at));
        } else if x.is_alphanumeric() || x == '_' || x == '$' {
            let mut w = String::new();
            while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_' || c[i] == '$') {
                w.push(c[i]);
                i += 1;
            }
            out.push((T::Word(w), line));
        } else {
            out.push((T::P(x), line));
            i += 1;
        }
    }
    out
}
#[derive(Debug, Clone)]
struct Field {
    optional: bool,
    ty: Vec<T>,
}
#[derive(Default)]
struct Ts {
    /// constant, is a request, parameter type, result type, method, file, line
    messages: Vec<(String, bool, Vec<T>, Vec<T>, String, String, usize)>,
    types: BTreeMap<String, (BTreeMap<String, Field>, String, usize)>,
    words: BTreeMap<String, Vec<(T, usize)>>,
}
fn word(t: Option<&(T, usize)>) -> Option<&str> {
    match t {
        Some((T::Word(w), _)) => Some(w),
        _ => None,
    }
}
fn is(t: Option<&(T, usize)>, c: char) -> bool {
    matches!(t, Some((T::P(x), _)) if *x == c)
}
/// where the bracket opened at `i` closes
fn close(t: &[(T, usize)], i: usize) -> usize {
    let mut d = 0;
    for (k, (x, _)) in t.iter().enumerate().skip(i) {
        let arrow = k > 0 && t[k - 1].0 == T::P('=');
        match x {
            T::P('<' | '(' | '{' | '[') => d += 1,
            T::P('>') if arrow => (),
            T::P('>' | ')' | '}' | ']') => {
                d -= 1;
                if d == 0 {
                    return k;
                }
            }
            _ => (),
        }
    }
    t.len()
}
fn pieces(t: &[(T, usize)], at: &[char]) -> Vec<Vec<(T, usize)>> {
    let (mut d, mut out) = (0, vec![vec![]]);
    for (k, x) in t.iter().enumerate() {
        let arrow = k > 0 && t[k - 1].0 == T::P('=');
        match &x.0 {
            T::P('<' | '(' | '{' | '[') => d += 1,
            T::P('>') if arrow => (),
            T::P('>' | ')' | '}' | ']') => d -= 1,
            T::P(c) if d == 0 && at.contains(c) => {
                out.push(vec![]);
                continue;
            }
            _ => (),
        }
        out.last_mut().unwrap().push(x.clone());
    }
    out.retain(|p| !p.is_empty());
    out
}
fn bare(t: &[(T, usize)]) -> Vec<T> {
    t.iter().map(|x| x.0.clone()).collect()
}
/// the fields of an object type; a field ends at `;`, `,` or before the next name
fn fields(t: &[(T, usize)]) -> BTreeMap<String, Field> {
    let mut out = BTreeMap::new();
    for p in pieces(t, &[';', ',']) {
        let mut i = 0;
        while word(p.get(i)) == Some("readonly") && (word(p.get(i + 1)).is_some() || matches!(p.get(i + 1), Some((T::Str(_), _)))) {
            i += 1;
        }
        let name = match p.get(i) {
            Some((T::Word(w) | T::Str(w), _)) => w.clone(),
            _ => continue,
        };
        let optional = is(p.get(i + 1), '?');
        if is(p.get(i + 1 + optional as usize), ':') {
            out.insert(name, Field { optional, ty: bare(&p[i + 2 + optional as usize..]) });
        }
    }
    out
}
fn client(r: &Repo, rep: &mut Report) -> Ts {
    let mut ts = Ts::default();
    let Ok(dir) = std::fs::read_dir(r.root.join(CLIENT)) else {
        rep.problem("the sources of the editor client are not where they were");
        return ts;
    };
    let mut files: Vec<_> = dir.flatten().map(|e| e.path()).filter(|p| p.extension().is_some_and(|e| e == "ts")).collect();
    files.sort();
    for p in files {
        let Ok(src) = std::fs::read_to_string(&p) else { continue };
        let file = p.strip_prefix(&r.root).unwrap_or(&p).display().to_string();
        let t = lex(&src);
        for i in 0..t.len() {
            if word(t.get(i)) == Some("new") {
                let at = if word(t.get(i + 1)).is_some() && is(t.get(i + 2), '.') { i + 3 } else { i + 1 };
                let Some(k @ ("RequestType" | "RequestType0" | "NotificationType" | "NotificationType0")) = word(t.get(at)) else { continue };
                let (mut args, mut next) = (vec![], at + 1);
                if is(t.get(at + 1), '<') {
                    let e = close(&t, at + 1);
                    args = pieces(&t[at + 2..e], &[',']);
                    next = e + 1;
                }
                let Some((T::Str(m), line)) = t.get(next + 1) else { continue };
                let name = (0..i).rev().take(8).find(|j| matches!(word(t.get(*j)), Some("const" | "let" | "var"))).and_then(|j| word(t.get(j + 1))).unwrap_or("");
                let zero = k.ends_with('0');
                let arg = |n: usize| if zero && n == 0 { vec![] } else { args.get(if zero { n - 1 } else { n }).map(|a| bare(a)).unwrap_or_default() };
                ts.messages.push((name.into(), k.starts_with("Req"), arg(0), arg(1), m.clone(), file.clone(), *line));
            }
            if matches!(word(t.get(i)), Some("type" | "interface")) {
                let Some(name) = word(t.get(i + 1)) else { continue };
                let open = if is(t.get(i + 2), '=') { i + 3 } else { i + 2 };
                if !is(t.get(open), '{') {
                    continue;
                }
                let e = close(&t, open);
                ts.types.insert(name.into(), (fields(&t[open + 1..e.min(t.len())]), file.clone(), t[i].1));
            }
        }
        ts.words.insert(file, t);
    }
    ts
}
fn camel(s: &str) -> String {
    let mut up = false;
    let mut o = String::new();
    for c in s.chars() {
        if c == '_' {
            up = true;
        } else if std::mem::take(&mut up) {
            o.extend(c.to_uppercase());
        } else {
            o.push(c);
        }
    }
    o
}
fn first_low(s: &str) -> String {
    let mut c = s.chars();
    c.next().map(|x| x.to_lowercase().chain(c).collect()).unwrap_or_default()
}
/// what `#[serde(..)]` says: key -> value
fn serde(attrs: &[syn::Attribute]) -> BTreeMap<String, String> {
    let mut out = BTreeMap::new();
    for a in attrs.iter().filter(|a| a.path().is_ident("serde")) {
        let _ = a.parse_nested_meta(|m| {
            let k = m.path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::");
            let v = match m.value() {
                Ok(v) => v.parse::<syn::LitStr>().map(|l| l.value()).unwrap_or_default(),
                Err(_) => String::new(),
            };
            out.insert(k, v);
            Ok(())
        });
    }
    out
}
fn renamed(rule: Option<&String>, name: &str, variant: bool) -> String {
    match rule.map(|s| s.as_str()) {
        Some("camelCase") if variant => first_low(name),
        Some("camelCase") => camel(name),
        Some("lowercase") => name.to_lowercase(),
        Some("PascalCase") if !variant => {
            let c = camel(name);
            c[..1].to_uppercase() + &c[1..]
        }
        Some("snake_case" | "PascalCase") | None => name.into(),
        Some(other) => format!("{name} ({other})"),
    }
}
fn arg(ty: &syn::Type, n: usize) -> Option<&syn::Type> {
    let syn::Type::Path(p) = ty else { return None };
    let syn::PathArguments::AngleBracketed(a) = &p.path.segments.last()?.arguments else { return None };
    a.args.iter().filter_map(|a| if let syn::GenericArgument::Type(t) = a { Some(t) } else { None }).nth(n)
}
struct Ctx<'a> {
    r: &'a Repo,
    ts: &'a Ts,
    to_client: bool,
    seen: BTreeSet<(String, String)>,
}
/// why a value of the Rust type is not one of the TypeScript type, if it is not
fn differs(c: &mut Ctx, rep: &mut Report, ty: &syn::Type, ts: &[T]) -> Option<String> {
    let name = type_name(ty);
    let show = || ts.iter().map(|t| match t { T::Word(w) => w.clone(), T::Str(s) => format!("{s:?}"), T::P(p) => p.to_string() }).collect::<String>();
    let tok: Vec<(T, usize)> = ts.iter().map(|t| (t.clone(), 0)).collect();
    let mut alts = pieces(&tok, &['|']);
    alts.retain(|a| !matches!(bare(a).as_slice(), [T::Word(w)] if w == "null" || w == "undefined"));
    if name == "Option" {
        return differs(c, rep, arg(ty, 0)?, &alts.iter().map(|a| bare(a)).collect::<Vec<_>>().join(&T::P('|')));
    }
    if matches!(name.as_str(), "Box" | "Arc" | "Rc") {
        return differs(c, rep, arg(ty, 0)?, ts);
    }
    if let Some(e) = c.r.enums.iter().find(|e| e.name == name && e.file.ends_with(EXT)) {
        let rule = serde(&e.item.attrs);
        let ours: BTreeSet<String> = e.item.variants.iter().map(|v| serde(&v.attrs).get("rename").cloned().unwrap_or_else(|| renamed(rule.get("rename_all"), &v.ident.to_string(), true))).collect();
        let theirs: BTreeSet<String> = alts.iter().filter_map(|a| if let [(T::Str(s), _)] = a.as_slice() { Some(s.clone()) } else { None }).collect();
        let bad = if c.to_client { ours.difference(&theirs).next() } else { theirs.difference(&ours).next() };
        return bad.map(|b| format!("{name} can be {b:?} on one side only ({})", show()));
    }
    if alts.len() != 1 {
        return Some(format!("{name} stands for {}", show()));
    }
    let one = bare(&alts[0]);
    let base: Vec<&T> = one.iter().collect();
    let last_word = match base.last() {
        Some(T::Word(w)) => w.as_str(),
        _ => "",
    };
    let plain = base.len() == 1 || base.len() == 3 && *base[1] == T::P('.');
    match name.as_str() {
        "String" | "str" | "Utf8PathBuf" | "PathBuf" | "AbsPathBuf" | "Url" | "Uri" | "char" => (!plain || last_word != "string").then(|| format!("a text stands for {}", show())),
        "bool" => (!plain || last_word != "boolean").then(|| format!("a bool stands for {}", show())),
        "u8" | "u16" | "u32" | "u64" | "usize" | "i32" | "i64" | "f64" => (!plain || last_word != "number").then(|| format!("a number stands for {}", show())),
        "Vec" => {
            let inner = if one.len() > 2 && one[one.len() - 2..] == [T::P('['), T::P(']')] {
                let mut i = one[..one.len() - 2].to_vec();
                if i.first() == Some(&T::P('(')) && i.last() == Some(&T::P(')')) {
                    i = i[1..i.len() - 1].to_vec();
                }
                Some(i)
            } else if matches!(one.first(), Some(T::Word(w)) if w == "Array" || w == "ReadonlyArray") && one.len() > 3 {
                Some(one[2..one.len() - 1].to_vec())
            } else {
                None
            };
            match (inner, arg(ty, 0)) {
                (Some(i), Some(t)) => differs(c, rep, t, &i),
                _ => Some(format!("a list stands for {}", show())),
            }
        }
        "HashMap" | "BTreeMap" | "FxHashMap" => {
            let text = show();
            (!(text.starts_with("Record<string,") || text.starts_with("{[") || text.starts_with("Map<string,"))).then(|| format!("a map stands for {text}"))
        }
        _ if c.r.structs.iter().any(|s| s.name == name && s.file.ends_with(EXT)) => {
            if !plain || !c.ts.types.contains_key(last_word) {
                return Some(format!("{name} stands for {}", show()));
            }
            object(c, rep, &name, last_word);
            None
        }
        // a type of the LSP library, under the same name on both sides
        _ => (!plain || last_word != name).then(|| format!("{name} stands for {}", show())),
    }
}
fn object(c: &mut Ctx, rep: &mut Report, rust: &str, ts: &str) {
    if !c.seen.insert((rust.into(), ts.into())) {
        return;
    }
    let Some(s) = c.r.structs.iter().find(|s| s.name == rust && s.file.ends_with(EXT)) else {
        rep.problem(&format!("no struct {rust} in {EXT}"));
        return;
    };
    let Some((theirs, file, line)) = c.ts.types.get(ts) else {
        rep.problem(&format!("no type {ts} in {CLIENT}"));
        return;
    };
    let rule = serde(&s.item.attrs);
    let mut ours: BTreeMap<String, (&syn::Field, BTreeMap<String, String>)> = Default::default();
    for f in &s.item.fields {
        let a = serde(&f.attrs);
        let key = if c.to_client { "rename_all(serialize)" } else { "rename_all(deserialize)" };
        let n = f.ident.as_ref().map(|i| i.to_string()).unwrap_or_default();
        let n = n.trim_start_matches("r#");
        let n = a.get("rename").cloned().unwrap_or_else(|| renamed(rule.get(key).or(rule.get("rename_all")), n, false));
        if a.contains_key("skip") || a.contains_key(if c.to_client { "skip_serializing" } else { "skip_deserializing" }) {
            continue;
        }
        ours.insert(n, (f, a));
    }
    for (n, t) in theirs {
        let key = format!("{rust}.{n}");
        let Some((f, a)) = ours.get(n) else {
            rep.ob(false, &key, &format!("{ts}.{n} of the client is no field of {rust}, which has {}", ours.keys().cloned().collect::<Vec<_>>().join(", ")), file, *line);
            continue;
        };
        let nullable = t.ty.windows(2).any(|w| matches!(w, [T::P('|'), T::Word(x)] if x == "null" || x == "undefined"));
        let option = type_name(&f.ty) == "Option";
        let why = if c.to_client && !t.optional && a.contains_key("skip_serializing_if") {
            Some("the server may leave it out and the client counts on it".to_string())
        } else if c.to_client && option && !t.optional && !nullable {
            Some("the server may have none and the client counts on it".to_string())
        } else if !c.to_client && t.optional && !option && !a.contains_key("default") && !rule.contains_key("default") {
            Some("the client may leave it out and the server counts on it".to_string())
        } else {
            differs(c, rep, &f.ty, &t.ty)
        };
        rep.ob(why.is_none(), &key, &format!("{key}: {}", why.unwrap_or_default()), file, *line);
    }
    if !c.to_client {
        for (n, (f, a)) in &ours {
            let free = type_name(&f.ty) == "Option" || a.contains_key("default") || rule.contains_key("default");
            rep.ob(theirs.contains_key(n) || free, &format!("{rust}.{n} sent"), &format!("the server counts on {rust}.{n}, which the client does not send"), &s.file, 0);
        }
    }
    rep.count("fields compared", theirs.len());
}
fn method_of(i: &ImplInfo) -> Option<String> {
    struct L(Option<String>);
    impl<'a> syn::visit::Visit<'a> for L {
        fn visit_lit_str(&mut self, l: &'a syn::LitStr) {
            self.0 = Some(l.value());
        }
    }
    i.item.items.iter().find_map(|x| match x {
        syn::ImplItem::Const(c) if c.ident == "METHOD" => {
            let mut l = L(None);
            syn::visit::Visit::visit_expr(&mut l, &c.expr);
            l.0
        }
        _ => None,
    })
}
fn assoc<'a>(i: &'a ImplInfo, n: &str) -> Option<&'a syn::Type> {
    i.item.items.iter().find_map(|x| match x {
        syn::ImplItem::Type(t) if t.ident == n => Some(&t.ty),
        _ => None,
    })
}
/// every message both sides know has the same name, kind and contents
fn messages(r: &Repo, ts: &Ts, rep: &mut Report) {
    let ours: Vec<(&ImplInfo, String)> = r.impls.iter().filter(|i| i.file.ends_with(EXT) && matches!(i.trait_name.as_deref(), Some("Request" | "Notification"))).filter_map(|i| Some((i, method_of(i)?))).collect();
    // the types given to a generic method: `on::<_, X>(..)`, `send_notification::<X>(..)`
    let mut given: BTreeMap<String, BTreeSet<String>> = Default::default();
    struct G<'a>(&'a mut BTreeMap<String, BTreeSet<String>>);
    impl<'a> syn::visit::Visit<'a> for G<'_> {
        fn visit_expr_method_call(&mut self, m: &'a syn::ExprMethodCall) {
            for a in m.turbofish.iter().flat_map(|t| &t.args) {
                if let syn::GenericArgument::Type(t) = a {
                    self.0.entry(type_name(t)).or_default().insert(m.method.to_string());
                }
            }
            syn::visit::visit_expr_method_call(self, m);
        }
        fn visit_expr_path(&mut self, p: &'a syn::ExprPath) {
            let s: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            if s.last().is_some_and(|l| l == "METHOD") {
                let own = p.qself.as_ref().map(|q| type_name(&q.ty)).or_else(|| s.iter().rev().nth(1).cloned());
                self.0.entry(own.unwrap_or_default()).or_default().insert("METHOD".into());
            }
        }
    }
    for f in r.files.iter().filter(|f| f.path.contains("aptos-language-server/src")) {
        syn::visit::Visit::visit_file(&mut G(&mut given), f.ast);
    }
    let used = |n: &str, how: &str| {
        ts.words.values().any(|t| {
            (0..t.len()).any(|i| word(t.get(i)) == Some(how) && t[i..(i + 8).min(t.len())].iter().any(|x| matches!(&x.0, T::Word(w) if w == n)))
        })
    };
    rep.floor("messages of the client", ts.messages.len(), 5);
    for (name, request, params, result, method, file, line) in &ts.messages {
        let Some((i, _)) = ours.iter().find(|(_, m)| m == method) else {
            rep.ob(false, &format!("method:{name}"), &format!("the client knows `{method}`, which the server does not"), file, *line);
            continue;
        };
        let kind = i.trait_name.as_deref() == Some("Request");
        rep.ob(kind == *request, &format!("kind:{name}"), &format!("`{method}` is a request on one side only"), file, *line);
        let to_client = !*request && used(name, "onNotification");
        let how = given.get(&i.self_ty).cloned().unwrap_or_default();
        let met = if to_client { (how.contains("send_notification") || how.contains("METHOD")) } else { how.iter().any(|h| h.starts_with("on")) };
        rep.ob(met, &format!("met:{name}"), &format!("`{method}` is {} by the server", if to_client { "never sent" } else { "not answered" }), &i.file, 0);
        let mut c = Ctx { r, ts, to_client, seen: Default::default() };
        if let Some(t) = assoc(i, "Params") {
            let unit = matches!(t, syn::Type::Tuple(t) if t.elems.is_empty());
            let why = if params.is_empty() || unit { (params.is_empty() != unit).then(|| "only one side sends contents".to_string()) } else { differs(&mut c, rep, t, params) };
            rep.ob(why.is_none(), &format!("params:{name}"), &format!("`{method}`: {}", why.unwrap_or_default()), file, *line);
        }
        if let (true, Some(t)) = (*request, assoc(i, "Result")) {
            c.to_client = true;
            let why = if result.is_empty() { Some("no result on the client".into()) } else { differs(&mut c, rep, t, result) };
            rep.ob(why.is_none(), &format!("result:{name}"), &format!("the result of `{method}`: {}", why.unwrap_or_default()), file, *line);
        }
    }
    // what a command carries
    let mut c = Ctx { r, ts, to_client: true, seen: Default::default() };
    object(&mut c, rep, "Runnable", "Runnable");
}
/// a lens runs a command only if the client says that it has it
fn lenses(r: &Repo, ts: &Ts, rep: &mut Report) {
    let mut announced: BTreeSet<String> = Default::default();
    for t in ts.words.values() {
        for i in 0..t.len() {
            if word(t.get(i)) == Some("commands") && is(t.get(i + 1), ':') && is(t.get(i + 2), '[') {
                let e = close(t, i + 2);
                announced.extend(t[i + 3..e].iter().filter_map(|x| if let T::Str(s) = &x.0 { Some(s.clone()) } else { None }));
            }
        }
    }
    let mut registered: BTreeSet<String> = Default::default();
    for (f, t) in &ts.words {
        let Some(i) = (0..t.len()).find(|i| f.ends_with("extension.ts") && word(t.get(*i)) == Some("createCommands") && word(i.checked_sub(1).and_then(|j| t.get(j))) == Some("function")) else { continue };
        let Some(ret) = (i..t.len()).find(|k| word(t.get(*k)) == Some("return")) else { continue };
        let e = close(t, ret + 1);
        for p in pieces(&t[ret + 2..e.min(t.len())], &[',']) {
            if let Some(w) = word(p.first()) {
                registered.insert(format!("move-on-aptos.{w}"));
            }
        }
    }
    rep.floor("commands announced by the client", announced.len(), 4);
    for a in &announced {
        rep.ob(registered.contains(a), &format!("announced:{a}"), &format!("the client says it has `{a}`, which it does not register"), "editors/code/src/client.ts", 0);
    }
    // which name each flag asks for
    let mut flags: BTreeMap<String, String> = Default::default();
    if let Some(f) = need(r, rep, "aptos-language-server/src/config.rs", None, "client_commands") {
        let cfg = Cfg::new(|_| false).events(|_| false).mhook(|it, cx, st, c| {
            if c.name == "contains" {
                let a = c.args.first()?.clone();
                return Some(vec![(st.clone(), Flow::Val(it.sym("has command", vec![a])))]);
            }
            if c.name != "any" {
                return None;
            }
            let e = it.sym("command", vec![]);
            let mut out = vec![];
            for (s, fl) in it.apply(cx, c.args.first()?, vec![e], st.clone(), c.line) {
                let Flow::Val(v) = fl else { continue };
                let v = it.sym("has command", vec![v]);
                out.push((s, Flow::Val(v)));
            }
            Some(out)
        });
        let t = tr(r, rep, f.id, None, cfg);
        for p in &t.paths {
            if let V::Struct(_, m) = norm(&t.it, &p.st, &p.ret) {
                for (k, v) in m.iter() {
                    let x = full(&t.it, v);
                    let yes = x.contains("(true)").then(|| {
                        super::usages::bfacts(&t, p).iter().find_map(|(x, f)| (matches!(f, Fact::Bool(true)) && x.contains('"')).then(|| x.split('"').nth(1).unwrap_or("").to_string()))
                    });
                    if let Some(n) = x.split('"').nth(1).map(|n| n.to_string()).or(yes.flatten()) {
                        flags.insert(k.clone(), n);
                    }
                }
            }
        }
        if std::env::var("SA_DUMP").is_ok_and(|x| x == "client_commands") { t.dump(); }
        rep.floor("flags for commands", flags.len(), 4);
        for (k, n) in &flags {
            let own = n.strip_prefix("move-on-aptos.").unwrap_or("") == camel(k);
            rep.ob(announced.contains(n) && own, &format!("flag:{k}"), &format!("{k} is taken from `{n}`, which the client does not announce for it"), &f.file, f.line);
        }
    }
    let Some(f) = need(r, rep, "aptos-language-server/src/lsp/to_proto.rs", None, "code_lens") else { return };
    let t = tr(r, rep, f.id, None, Cfg::new(|g: &FnInfo| g.file.ends_with("lsp/to_proto.rs") && !["runnable", "location", "location_link", "url", "lsp_range", "lsp_position", "url_from_abs_path"].contains(&g.name.as_str())).events(|n| n.ends_with("push")).cap(4000));
    if std::env::var("SA_DUMP").is_ok_and(|x| x == "code_lens") {
        t.dump();
    }
    let mut n: BTreeMap<String, usize> = Default::default();
    for p in &t.paths {
        let fs = super::usages::bfacts(&t, p);
        let on = |flag: &str| fs.iter().any(|(x, f)| x.contains("client_commands(") && x.ends_with(&format!(".{flag}")) && matches!(f, Fact::Bool(true)));
        let specs = fs.iter().any(|(x, f)| x == "annotation.kind" && matches!(f, Fact::Is(k) if &**k == "HasSpecs"));
        for e in p.st.events.iter() {
            let Some(v) = e.args.last() else { continue };
            let x = full(&t.it, &norm(&t.it, &p.st, v));
            if !x.contains("CodeLens{") {
                continue;
            }
            let mut need: Vec<&str> = flags.iter().filter(|(_, c)| x.contains(&format!("\"{c}\""))).map(|(k, _)| k.as_str()).collect();
            let named = x.contains("command: \"");
            if named && need.is_empty() {
                rep.ob(false, "lens:unknown", "a lens runs a command no flag stands for", &f.file, e.line);
            }
            if specs {
                need = vec!["show_references", "goto_location"];
            }
            for k in need {
                *n.entry(k.to_string()).or_default() += 1;
                let dap = !k.starts_with("debug") || fs.iter().any(|(x, f)| x.contains("is_available(") && matches!(f, Fact::Bool(true)));
                rep.ob(on(k), &format!("lens:{k}"), &format!("a lens is shown without asking whether the client has {}", flags.get(k).map_or("", |s| s)), &f.file, e.line);
                rep.ob(dap, &format!("lens:{k}:dap"), "a lens to debug is shown although there is no debugger", &f.file, e.line);
            }
        }
    }
    rep.floor("lenses with a command", n.len(), 5);
}
pub fn l12(r: &Repo, _: bool) -> Report {
    let mut rep = Report::new("");
    let ts = client(r, &mut rep);
    messages(r, &ts, &mut rep);
    lenses(r, &ts, &mut rep);
    rep
}
