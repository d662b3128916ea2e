//! Semantic highlighting: the ranges tile the file, the encoding is relative, the legend matches.
use super::lsp::SRV;
use super::text::{lin_of, Lin};
use super::trace::*;
use super::tree::{run_self, strukt};
use super::state::struct_field;
use super::util::*;
use crate::absint::*;
use crate::repo::*;
use crate::report::Report;
use quote::ToTokens;
use std::rc::Rc;

/// is `a < b` known on this path?
pub fn less(it: &Interp<Trace>, st: &St<TW>, a: &Lin, b: &Lin) -> Option<bool> {
    let d = a.sub(b);
    for (t, f) in st.facts.iter() {
        let Fact::Bool(v) = f else { continue };
        let (o, x) = it.node(*t);
        if x.len() != 2 {
            continue;
        }
        let e = lin_of(it, st, &x[0]).sub(&lin_of(it, st, &x[1]));
        let n = Lin::int(0).sub(&e);
        // e OP 0 is v
        match &*o {
            "<" if e == d => return Some(*v),
            ">" if n == d => return Some(*v),
            ">=" if e == d => return Some(!*v),
            "<=" if n == d => return Some(!*v),
            // b < a known  =>  a < b is false
            "<" if n == d && *v => return Some(false),
            ">" if e == d && *v => return Some(false),
            "==" if (e == d || n == d) && *v => return Some(false),
            _ => {}
        }
    }
    None
}
/// is `d == 0` known on this path?
fn zero(it: &Interp<Trace>, st: &St<TW>, d: &Lin) -> Option<bool> {
    for (t, f) in st.facts.iter() {
        let Fact::Bool(v) = f else { continue };
        let (o, x) = it.node(*t);
        if x.len() != 2 {
            continue;
        }
        let e = lin_of(it, st, &x[0]).sub(&lin_of(it, st, &x[1]));
        let n = Lin::int(0).sub(&e);
        let same = e == *d || n == *d;
        match &*o {
            "==" if same => return Some(*v),
            "!=" if same => return Some(!*v),
            "<" | ">" if same && *v => return Some(false),
            // unsigned: !(0 < d) is d == 0
            "<" if n == *d && !*v => return Some(true),
            ">" if e == *d && !*v => return Some(true),
            _ => {}
        }
    }
    None
}
fn builder(r: &Repo, rep: &mut Report) {
    let Some(f) = need(r, rep, "lsp/semantic_tokens.rs", Some("SemanticTokensBuilder"), "push") else { return };
    let it = Interp::new(r, Trace { cfg: Cfg::new(|g: &FnInfo| g.file.ends_with("lsp/semantic_tokens.rs") && g.name != "push").cap(2000), panics: Default::default() });
    let init = match r.fn_in("lsp/semantic_tokens.rs", Some("SemanticTokensBuilder"), "new") {
        Some(n) => run(&it, n.id, None).into_iter().next().map(|p| it.deref(&p.st, &p.ret)),
        None => None,
    };
    let Some(V::Struct(..)) = &init else {
        rep.problem("SemanticTokensBuilder::new does not build the struct");
        return;
    };
    let rng = |i: usize| it.sym(&format!("r{i}"), vec![]);
    let at = |i: usize, w: &str| Lin::atom(format!("r{i}.{w}"));
    // three tokens in a row
    let mut states: Vec<V> = vec![init.unwrap()];
    let mut n = 0;
    for i in 0..3usize {
        let mut next: Vec<V> = vec![];
        for s in states {
            for (p, me) in run_self(&it, f.id, s, vec![rng(i), it.sym(&format!("t{i}"), vec![])]) {
                n += 1;
                let Some(V::List(l)) = struct_field(&me, "data").map(|d| it.deref(&p.st, &d)) else {
                    rep.viol("push:data", "push does not add to the data", &f.file, f.line);
                    continue;
                };
                rep.ob(l.len() == i + 1, "push:count", format!("after {} tokens the data has {}", i + 1, l.len()), &f.file, f.line);
                let Some(tok) = l.last() else { continue };
                let get = |n: &str| struct_field(tok, n).map(|v| lin_of(&it, &p.st, &v)).unwrap_or(Lin::atom("?".into()));
                let dl = if i == 0 { at(0, "start.line") } else { at(i, "start.line").sub(&at(i - 1, "start.line")) };
                rep.ob(get("delta_line") == dl, "push:line", format!("token {i}: the line delta is {}, not {}", get("delta_line").show(), dl.show()), &f.file, f.line);
                let full = at(i, "start.character");
                let ds = get("delta_start");
                if i == 0 {
                    rep.ob(ds == full, "push:start", format!("first token: the column is {}", ds.show()), &f.file, f.line);
                } else {
                    let rel = full.sub(&at(i - 1, "start.character"));
                    let want = match zero(&it, &p.st, &dl) {
                        Some(true) => Some(rel.clone()),
                        Some(false) => Some(full.clone()),
                        None => None,
                    };
                    rep.ob(want.as_ref() == Some(&ds), "push:start", format!("token {i}: the column delta is {} on a path where the line delta is {}", ds.show(), match zero(&it, &p.st, &dl) { Some(true) => "zero", Some(false) => "not zero", None => "not looked at" }), &f.file, f.line);
                }
                let len = at(i, "end.character").sub(&full);
                rep.ob(get("length") == len, "push:length", format!("token {i}: the length is {}", get("length").show()), &f.file, f.line);
                rep.ob(get("token_type") == Lin::atom(format!("t{i}")), "push:type", format!("token {i}: the type is {}", get("token_type").show()), &f.file, f.line);
                rep.ob(get("token_modifiers_bitset").konst() == Some(0), "push:modifiers", "a token carries modifiers though the legend has none", &f.file, f.line);
                next.push(me);
            }
        }
        next.dedup();
        states = next;
    }
    rep.floor("paths of push over three tokens", n, 3);
    for m in it.overflow.borrow().iter() {
        rep.problem(m.clone());
    }
    if let Some(b) = need(r, rep, "lsp/semantic_tokens.rs", Some("SemanticTokensBuilder"), "build") {
        let t = trace(r, b.id, None, Cfg::new(|_| false));
        for p in &t.paths {
            let d = struct_field(&t.it.deref(&p.st, &p.ret), "data").map(|v| cfull(&t.it, &t.it.deref(&p.st, &v))).unwrap_or_default();
            rep.ob(d == "self.data", "build:data", format!("build hands out {d}, not the tokens pushed"), &b.file, b.line);
        }
    }
}
fn legend(r: &Repo, rep: &mut Report) {
    // the legend
    struct Vis {
        found: Vec<(String, Vec<String>, usize)>,
    }
    fn chain(e: &syn::Expr, ms: &mut Vec<String>) -> String {
        match e {
            syn::Expr::MethodCall(m) => {
                let s = chain(&m.receiver, ms);
                ms.push(m.method.to_string());
                s
            }
            syn::Expr::Paren(p) => chain(&p.expr, ms),
            e => e.to_token_stream().to_string().replace(' ', ""),
        }
    }
    impl<'a> syn::visit::Visit<'a> for Vis {
        fn visit_expr_struct(&mut self, s: &'a syn::ExprStruct) {
            if s.path.segments.last().is_some_and(|x| x.ident == "SemanticTokensLegend") {
                for f in &s.fields {
                    if f.member.to_token_stream().to_string() == "token_types" {
                        let mut ms = vec![];
                        let b = chain(&f.expr, &mut ms);
                        self.found.push((b, ms, line_of(f)));
                    }
                }
            }
            syn::visit::visit_expr_struct(self, s);
        }
    }
    let mut n = 0;
    for f in r.fns.iter().filter(|f| f.file.starts_with(SRV)) {
        let mut v = Vis { found: vec![] };
        syn::visit::Visit::visit_block(&mut v, f.block);
        for (mut b, mut ms, l) in v.found {
            // a local: its initialiser
            if let Some(init) = local_init(f.block, &b) {
                let mut m2 = vec![];
                b = chain(init, &mut m2);
                m2.extend(ms);
                ms = m2;
            }
            n += 1;
            let plain = ms.iter().all(|m| matches!(m.as_str(), "map" | "collect" | "iter" | "into_iter" | "cloned" | "copied" | "collect_vec" | "to_vec"));
            rep.ob(plain && b.ends_with("SupportedType::iter()"), "legend:order", format!("the legend is {b} through {ms:?}, not every supported type in order: token numbers are positions in it"), &f.file, l);
        }
    }
    rep.floor("legends", n, 1);
    // the number of a type is its position
    if let Some(f) = need(r, rep, "lsp/semantic_tokens.rs", None, "type_index") {
        let t = tr(r, rep, f.id, None, Cfg::new(|_| false).no_closures());
        for p in &t.paths {
            let v = cfull(&t.it, &t.it.deref(&p.st, &p.ret));
            let w: Vec<&str> = v.split(|c: char| !c.is_alphanumeric() && c != '_').filter(|s| !s.is_empty()).collect();
            let k = f.params()[0].0.clone();
            let disc = w.iter().all(|x| *x == k || *x == "as" || *x == "u32" || *x == "cast");
            let pos = v.contains("position") && v.contains("iter");
            rep.ob(disc || pos, "index:value", format!("the number of a token type is {v}, not its position"), &f.file, f.line);
        }
    }
    // the enumeration lists its variants in the order they are declared
    let dm = r.macros.iter().find(|m| m.name == "declare_enum" && m.mac.to_token_stream().to_string().contains("SupportedType"));
    let def = r.macros.iter().find(|m| m.name == "macro_rules" && m.ident.as_deref() == Some("declare_enum"));
    match (dm, def) {
        (Some(d), Some(m)) => {
            let body = d.mac.tokens.to_string();
            let vars = body.rsplit_once('{').map(|x| x.1).unwrap_or("");
            rep.ob(!vars.contains('='), "enum:explicit", "a token type has an explicit number", &d.file, d.line);
            let t = m.mac.tokens.to_string().replace([' ', '\n'], "");
            rep.ob(t.contains("ITEMS:&[$name]=&[$($name::$variant,)*];ITEMS.iter()") && t.contains("{$($variant,)*}"), "enum:items", "iter() does not list the variants as they are declared", &m.file, m.line);
            rep.count("token types", vars.matches(',').count());
        }
        _ => {
            let e = r.enums.iter().find(|e| e.name == "SupportedType");
            match e {
                Some(e) => {
                    let vs: Vec<String> = e.item.variants.iter().map(|v| v.ident.to_string()).collect();
                    rep.ob(e.item.variants.iter().all(|v| v.discriminant.is_none()), "enum:explicit", "a token type has an explicit number", &e.file, line_of(e.item));
                    match r.fn_in("lsp/semantic_tokens.rs", Some("SupportedType"), "iter") {
                        Some(f) => {
                            let t = f.block.to_token_stream().to_string().replace(' ', "");
                            let at: Vec<Option<usize>> = vs.iter().map(|v| t.find(&format!("::{v},")).or(t.find(&format!("::{v}]")))).collect();
                            rep.ob(at.iter().all(|a| a.is_some()) && at.windows(2).all(|w| w[0] < w[1]), "enum:items", "iter() does not list the variants as they are declared", &f.file, f.line);
                        }
                        None => rep.problem("SupportedType::iter not found"),
                    }
                }
                None => rep.problem("SupportedType not found"),
            }
        }
    }
}
/// the initialiser of a local of that name
fn local_init<'a>(b: &'a syn::Block, name: &str) -> Option<&'a syn::Expr> {
    b.stmts.iter().find_map(|s| match s {
        syn::Stmt::Local(l) => {
            let p = match &l.pat {
                syn::Pat::Type(t) => &t.pat,
                p => p,
            };
            match p {
                syn::Pat::Ident(i) if i.ident == name => l.init.as_ref().map(|i| &*i.expr),
                _ => None,
            }
        }
        _ => None,
    })
}
fn highlights(r: &Repo, rep: &mut Report) {
    const F: &str = "syntax_highlighting/highlights.rs";
    let node = |it: &Interp<Trace>, n: &str, nested: V| {
        strukt("Node", vec![("hl_range", strukt("HlRange", vec![("range", it.sym(n, vec![])), ("highlight", it.sym(&format!("H{n}"), vec![]))])), ("nested", nested)])
    };
    if let Some(f) = need(r, rep, F, Some("Node"), "flatten") {
        let mut np = 0;
        for k in 0..=2usize {
            let cfg = Cfg::new(move |g: &FnInfo| g.file.ends_with(F) && g.name != "flatten").unroll(Some(5)).cap(4000).mhook(|it, _cx, st, c| {
                if c.name != "flatten" || c.args.len() != 1 {
                    return None;
                }
                let V::Ref(mut p) = c.args[0].clone() else { return None };
                while let V::Ref(q) = it.read(st, &p) {
                    p = q;
                }
                let V::List(l) = it.read(st, &p) else { return None };
                let me = it.deref(st, &c.recv);
                let rg = struct_field(&me, "hl_range").and_then(|h| struct_field(&h, "range")).unwrap_or(me);
                let mut l = l.to_vec();
                l.push(it.sym("SUB", vec![rg]));
                let mut s = st.clone();
                it.write(&mut s, &p, V::List(Rc::new(l)));
                Some(vec![(s, Flow::Val(V::Unit))])
            });
            let it = Interp::new(r, Trace { cfg, panics: Default::default() });
            let kids: Vec<V> = (0..k).map(|i| node(&it, &format!("c{i}"), it.sym("deeper", vec![]))).collect();
            let me = node(&it, "me", V::List(Rc::new(kids)));
            let mut st: St<TW> = St::new(TW::default());
            let acc = st.alloc(V::List(Rc::new(vec![])));
            for p in run_st(&it, f.id, Some(vec![me, V::Ref(Place::Cell(acc, vec![]))]), st) {
                np += 1;
                let V::List(l) = it.deref(&p.st, &V::Ref(Place::Cell(acc, vec![]))) else { continue };
                let mut cur = Lin::atom("me.start()".into());
                let mut subs = 0;
                let mut bad: Option<String> = None;
                let meets = |cur: &Lin, at: &Lin| cur == at || less(&it, &p.st, cur, at) == Some(false);
                for x in l.iter() {
                    let (o, a) = op(&it, x);
                    if o == "SUB" {
                        let n = cfull(&it, &a[0]);
                        if n != format!("c{subs}") {
                            bad = Some(format!("child {n} comes where child {subs} is due"));
                        }
                        subs += 1;
                        let s = Lin::atom(format!("{n}.start()"));
                        if !meets(&cur, &s) {
                            bad = Some(format!("the text between {} and {} is left out", cur.show(), s.show()));
                        }
                        cur = Lin::atom(format!("{n}.end()"));
                        continue;
                    }
                    let rg = struct_field(x, "range");
                    let h = struct_field(x, "highlight").map(|h| cfull(&it, &it.deref(&p.st, &h))).unwrap_or_default();
                    if h != "Hme" {
                        bad = Some(format!("the text between children gets the highlight {h}"));
                    }
                    match rg.and_then(|v| super::text::range_parts(&it, &p.st, &v)) {
                        Some((s, e, at)) => {
                            let (s, e) = (lin_of(&it, &p.st, &s), lin_of(&it, &p.st, &e));
                            let e = if at { s.add(&e, 1) } else { e };
                            if s != cur {
                                bad = Some(format!("a piece starts at {}, where {} is due", s.show(), cur.show()));
                            }
                            cur = e;
                        }
                        None => {
                            if struct_field(x, "range").map(|v| cfull(&it, &v)) == Some("me".into()) && k == 0 {
                                cur = Lin::atom("me.end()".into());
                            } else {
                                bad = Some("a piece with a range that is not understood".into());
                            }
                        }
                    }
                }
                if subs != k {
                    bad = Some(format!("{subs} of {k} children are flattened"));
                }
                if !meets(&cur, &Lin::atom("me.end()".into())) && bad.is_none() {
                    bad = Some(format!("the text from {} to the end is left out", cur.show()));
                }
                rep.ob(bad.is_none(), "flatten", format!("flatten with {k} children: {}", bad.unwrap_or_default()), &f.file, f.line);
            }
            for m in it.overflow.borrow().iter() {
                rep.problem(m.clone());
            }
        }
        rep.floor("paths of flatten", np, 6);
    }
    if let Some(f) = need(r, rep, F, Some("Node"), "add") {
        let cfg = Cfg::new(|_: &FnInfo| false).cap(4000).no_closures().mhook(|it, cx, st, c| {
            let n = c.name;
            matches!(n, "contains_range" | "start" | "end" | "add" | "push" | "splice" | "last_mut" | "last" | "len" | "clone" | "collect" | "insert").then_some(())?;
            let a: Vec<V> = std::iter::once(it.deref(st, &c.recv)).chain(c.args.iter().map(|x| it.deref(st, x))).collect();
            if n == "clone" || n == "collect" {
                return out1(st, a[0].clone());
            }
            let mut s = st.clone();
            if matches!(n, "add" | "push" | "splice" | "insert") {
                s.event(&format!(".{n}"), a.clone(), cx.func, c.line);
            }
            Some(vec![(s, Flow::Val(it.sym(&format!(".{n}()"), a)))])
        });
        let it = Interp::new(r, Trace { cfg, panics: Default::default() });
        let me = node(&it, "me", it.sym("nested", vec![]));
        let hl = strukt("HlRange", vec![("range", it.sym("new", vec![])), ("highlight", it.sym("Hnew", vec![]))]);
        let mut st: St<TW> = St::new(TW::default());
        let c = st.alloc(me);
        let (mut adds, mut pushes, mut splices) = (0, 0, 0);
        for p in run_st(&it, f.id, Some(vec![V::Ref(Place::Cell(c, vec![])), hl]), st) {
            let evn: Vec<&Ev> = p.st.events.iter().filter(|e| matches!(last(&e.name), "add" | "push" | "splice" | "insert")).collect();
            let truth = |want: &str| fact_bool_c(&it, &p.st, |s| s == want);
            let lastn = ["Some#0(nested.last_mut())", "Some#0(nested.last())"];
            let in_last = lastn.iter().any(|l| truth(&format!("{l}.hl_range.range.contains_range(new)")) == Some(true));
            let after_last = lastn.iter().any(|l| less(&it, &p.st, &Lin::atom("new.start()".into()), &Lin::atom(format!("{l}.hl_range.range.end()"))) == Some(false));
            let empty = p.st.facts.iter().any(|(t, f)| cfull(&it, &V::Sym(*t)).starts_with("nested.last") && matches!(f, Fact::Is(k) if &**k == "None"));
            if evn.len() != 1 {
                rep.viol("add:once", format!("a highlight is placed {} times", evn.len()), &f.file, f.line);
                continue;
            }
            let e = evn[0];
            let rc = cfull(&it, &e.args[0]);
            match last(&e.name) {
                "add" => {
                    adds += 1;
                    let into_last = lastn.iter().any(|l| rc == *l);
                    let one = fact_bool_c(&it, &p.st, |s| s.starts_with("==(1, ") && s.contains(".len()") || s.ends_with(".len(), 1)") && s.starts_with("==(")) == Some(true);
                    let held = fact_bool_c(&it, &p.st, |s| s == format!("{rc}.hl_range.range.contains_range(new)")) == Some(true);
                    rep.ob(into_last && in_last || one && held, "add:nested", format!("a highlight is put inside {rc}, which is not known to contain it"), &f.file, e.line);
                }
                "push" => {
                    pushes += 1;
                    rep.ob(rc == "nested" && (after_last || empty), "add:append", "a highlight is appended though it may start before the last one ends", &f.file, e.line);
                }
                "splice" => {
                    splices += 1;
                    let g = e.args.get(1).map(|v| cfull(&it, v)).unwrap_or_default();
                    rep.ob(rc == "nested" && g.starts_with("equal_range_by(nested, "), "add:splice", format!("the highlights replaced are {g}, not the ones that overlap the new one"), &f.file, e.line);
                    // what was replaced goes inside the new one
                    let kept = p.st.heap.iter().any(|(t, v)| {
                        let k = cfull(&it, &V::Sym(*t));
                        k.starts_with("[](nested, ") && k.ends_with(".nested") && matches!(it.deref(&p.st, v), V::Sym(y) if &*it.node(y).0 == ".splice()")
                    });
                    rep.ob(kept, "add:kept", "the highlights replaced are lost", &f.file, e.line);
                }
                _ => {}
            }
        }
        rep.floor("paths of add that descend", adds, 2);
        rep.floor("paths of add that append", pushes, 1);
        rep.floor("paths of add that replace", splices, 1);
    }
}
fn out1(st: &St<TW>, v: V) -> Option<Out<TW>> {
    Some(vec![(st.clone(), Flow::Val(v))])
}
fn fact_bool_c(it: &Interp<Trace>, st: &St<TW>, p: impl Fn(&str) -> bool) -> Option<bool> {
    st.facts.iter().find_map(|(t, f)| match f {
        Fact::Bool(b) if p(&cfull(it, &V::Sym(*t))) => Some(*b),
        _ => None,
    })
}
fn to_tokens(r: &Repo, rep: &mut Report) {
    let Some(f) = need(r, rep, "lsp/to_proto.rs", None, "semantic_tokens") else { return };
    let cfg = Cfg::new(|_: &FnInfo| false).cap(8000).unroll(Some(1)).mhook(|it, cx, st, c| {
        let n = c.name;
        matches!(n, "is_empty" | "lines" | "ends_with" | "start" | "end" | "push" | "lsp_range" | "is_some" | "strip_suffix").then_some(())?;
        let a: Vec<V> = std::iter::once(it.deref(st, &c.recv)).chain(c.args.iter().map(|x| it.deref(st, x))).collect();
        let mut s = st.clone();
        if n == "push" {
            s.event(".push", a.clone(), cx.func, c.line);
        }
        Some(vec![(s, Flow::Val(it.sym(&format!(".{n}()"), a)))])
    });
    let t = tr(r, rep, f.id, None, cfg);
    let it = &t.it;
    let (mut pushed, mut trimmed) = (0, 0);
    for p in &t.paths {
        let empty = fact_bool_c(it, &p.st, |s| s.starts_with("elem(highlights") && s.ends_with(".highlight.is_empty()"));
        let nl = fact_bool_c(it, &p.st, |s| s.contains(".ends_with("));
        let ev: Vec<&Ev> = p.st.events.iter().filter(|e| last(&e.name) == "push").collect();
        if empty == Some(true) {
            rep.ob(ev.is_empty(), "tokens:none", "a range without highlight becomes a token", &f.file, f.line);
            continue;
        }
        // an iteration over one piece
        let piece = p.st.facts.iter().map(|x| cfull(it, &V::Sym(*x.0))).find(|s| s.contains(".ends_with("));
        let Some(pc) = piece else {
            rep.ob(ev.is_empty(), "tokens:newline", "a piece of a line becomes a token without a look at its line end", &f.file, f.line);
            continue;
        };
        if ev.len() != 1 {
            rep.viol("tokens:lost", format!("a piece of a highlighted line becomes {} tokens", ev.len()), &f.file, f.line);
            continue;
        }
        pushed += 1;
        let rg = &ev[0].args[1];
        let (o, a) = op(it, rg);
        let inner = if last(&o) == "lsp_range" && a.len() == 2 { a[1].clone() } else { rg.clone() };
        let body = pc.split(".ends_with(").next().unwrap_or("").to_string();
        let el = body.strip_prefix("[](text, ").and_then(|s| s.strip_suffix(')')).unwrap_or("").to_string();
        rep.ob(el.contains(".lines("), "tokens:lines", format!("tokens are cut from {el}, not from the lines of the range"), &f.file, f.line);
        let ok = match nl {
            Some(true) => {
                trimmed += 1;
                match super::text::range_parts(it, &p.st, &inner) {
                    Some((s, e, false)) => {
                        let (s, e) = (lin_of(it, &p.st, &s), cfull(it, &e));
                        s == Lin::atom(format!("{el}.start()")) && (e == format!("-({el}.end(), TextSize::of('\\n'))") || e == format!("-({el}.end(), TextSize::of(\"\\n\"))") || e.starts_with(&format!("-({el}.end(), ")) && (e.contains("of(") || e.contains("(1)")))
                    }
                    _ => false,
                }
            }
            _ => cfull(it, &inner) == el,
        };
        rep.ob(ok, format!("tokens:range:{}", nl.unwrap_or(false)), format!("a token covers {} of the piece {el} (which {} with a line end)", cfull(it, &inner), if nl == Some(true) { "ends" } else { "does not end" }), &f.file, ev[0].line);
        let ix = cfull(it, &ev[0].args[2]);
        rep.ob(ix.contains("semantic_token_type") && ix.contains("type_index") && ix.contains("elem(highlights"), "tokens:type", format!("the type number of a token is {ix}"), &f.file, ev[0].line);
    }
    rep.floor("paths that push a token", pushed, 2);
    rep.floor("paths that cut a line end", trimmed, 1);
}
/// diff_tokens on every pair of token lists of up to `max` tokens, equal or not as the path assumes
fn diff(r: &Repo, rep: &mut Report, max: usize) {
    let Some(f) = need(r, rep, "lsp/semantic_tokens.rs", None, "diff_tokens") else { return };
    let site = (f.file.clone(), f.line);
    let (mut n, mut edits) = (0, 0);
    for lo in 0..=max {
        for ln in 0..=max {
            let it = Interp::new(r, Trace { cfg: Cfg::new(|_| false).cap(4000).unroll(Some(2 * max + 2)), panics: Default::default() });
            let list = |it: &Interp<Trace>, w: &str, k: usize| V::List(Rc::new((0..k).map(|i| it.sym(&format!("{w}{i}"), vec![])).collect::<Vec<_>>()));
            let args = vec![list(&it, "old", lo), list(&it, "new", ln)];
            for p in run(&it, f.id, Some(args)) {
                n += 1;
                let same = |x: &V, y: &V| {
                    if x == y {
                        return true;
                    }
                    let (cx, cy) = (cfull(&it, x), cfull(&it, y));
                    p.st.facts.iter().any(|(t, fct)| {
                        let (o, a) = it.node(*t);
                        &*o == "==" && *fct == Fact::Bool(true) && a.len() == 2 && {
                            let (ca, cb) = (cfull(&it, &a[0]), cfull(&it, &a[1]));
                            (ca == cx && cb == cy) || (ca == cy && cb == cx)
                        }
                    })
                };
                let V::List(es) = it.deref(&p.st, &p.ret) else {
                    rep.problem(format!("diff_tokens returns {}", cfull(&it, &p.ret)));
                    continue;
                };
                // apply the edits, whose offsets all refer to the old list
                let mut out: Vec<V> = vec![];
                let mut at = 0usize;
                let mut ok = true;
                let olds: Vec<V> = match list(&it, "old", lo) { V::List(l) => l.to_vec(), _ => vec![] };
                for e in es.iter() {
                    edits += 1;
                    let num = |w: &str| struct_field(e, w).and_then(|v| lin_of(&it, &p.st, &v).konst());
                    let data: Option<Vec<V>> = struct_field(e, "data").map(|d| it.deref(&p.st, &d)).and_then(|d| match d {
                        V::Ctor(ref n2, ref a) if &**n2 == "Some" => a.first().map(|x| it.deref(&p.st, x)),
                        _ => None,
                    }).and_then(|d| match d { V::List(l) => Some(l.to_vec()), _ => None });
                    match (num("start"), num("delete_count"), data) {
                        (Some(s), Some(d), Some(data)) if s % 5 == 0 && d % 5 == 0 && d >= 0 && s / 5 >= at as i128 && (s + d) / 5 <= lo as i128 => {
                            out.extend_from_slice(&olds[at..(s / 5) as usize]);
                            out.extend(data);
                            at = ((s + d) / 5) as usize;
                        }
                        x => {
                            ok = false;
                            rep.viol("diff:shape", format!("an edit of {lo} -> {ln} tokens has (start, delete_count) = ({:?}, {:?}), which are not token boundaries of the old list", x.0, x.1), &site.0, site.1);
                        }
                    }
                }
                if !ok {
                    continue;
                }
                out.extend_from_slice(&olds[at..]);
                let news: Vec<V> = match list(&it, "new", ln) { V::List(l) => l.to_vec(), _ => vec![] };
                let good = out.len() == news.len() && out.iter().zip(news.iter()).all(|(x, y)| same(x, y));
                rep.ob(good, "diff:result", format!("the edits of {lo} -> {ln} tokens turn the old list into [{}]", out.iter().map(|v| cfull(&it, v)).collect::<Vec<_>>().join(", ")), &site.0, site.1);
            }
            for m in it.overflow.borrow().iter() {
                rep.problem(m.clone());
            }
        }
    }
    rep.floor("paths of diff_tokens", n, 9);
    rep.floor("edits of diff_tokens", edits, 5);
}
pub fn l05(r: &Repo, thorough: bool) -> Report {
    let mut rep = Report::new("SemanticTokensBuilder run on three symbolic tokens in a row (every path): each delta is relative to the token before; the legend lists every supported type in order and a type's number is its position; Highlights flattening with 0-2 symbolic children tiles the node's range in order with the innermost highlight, and adding a range nests, appends or replaces only under the facts that allow it; per-line cutting drops exactly the line end");
    builder(r, &mut rep);
    legend(r, &mut rep);
    highlights(r, &mut rep);
    to_tokens(r, &mut rep);
    diff(r, &mut rep, if thorough { 3 } else { 2 });
    rep.assume("ranges handed to Highlights are those of syntax elements in preorder: any two are nested or disjoint; equal_range_by (stdx) finds the run of overlapping siblings");
    rep
}
