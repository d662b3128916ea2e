//! Helpers shared by the rules that read effect traces.
use super::trace::*;
use crate::absint::*;
use crate::repo::*;
use crate::report::Report;
use std::collections::BTreeSet;

/// the whole term, nothing elided
pub fn full<D: Domain>(it: &Interp<D>, v: &V) -> String {
    let list = |a: &[V]| a.iter().map(|x| full(it, x)).collect::<Vec<_>>().join(", ");
    match v {
        V::Ctor(n, a) if !a.is_empty() => format!("{n}({})", list(a)),
        V::Struct(n, m) => format!("{n}{{{}}}", m.iter().map(|(k, x)| format!("{k}: {}", full(it, x))).collect::<Vec<_>>().join(", ")),
        V::Tuple(a) => format!("({})", list(a)),
        V::List(a) => format!("[{}]", list(a)),
        V::Ref(Place::Heap(t)) => full(it, &V::Sym(*t)),
        V::Sym(t) => {
            let (op, a) = it.node(*t);
            if a.is_empty() {
                op.to_string()
            } else if let Some(f) = op.strip_prefix('.') {
                if f.ends_with("()") {
                    format!("{}.{}({})", full(it, &a[0]), &f[..f.len() - 2], list(&a[1..]))
                } else {
                    format!("{}.{f}", full(it, &a[0]))
                }
            } else {
                format!("{op}({})", list(&a))
            }
        }
        v => it.show(v),
    }
}
/// last segment of an event's or a term's name: `A::f`, `.f`, `.f()` -> `f`
pub fn last(n: &str) -> &str {
    let n = n.strip_suffix("()").unwrap_or(n);
    n.rsplit([':', '.']).next().unwrap_or(n)
}
pub fn evs<'a>(p: &'a PathR, name: &str) -> Vec<&'a Ev> {
    p.st.events.iter().filter(|e| last(&e.name) == name).collect()
}
pub fn ev_pos(p: &PathR, name: &str) -> Option<usize> {
    p.st.events.iter().position(|e| last(&e.name) == name)
}
/// strip conversions that do not change what a value denotes
pub fn norm<D: Domain>(it: &Interp<D>, st: &St<D::W>, v: &V) -> V {
    const T: &[&str] = &[
        "clone", "to_owned", "to_string", "into", "as_ref", "as_slice", "as_str", "as_bytes", "into_bytes", "to_vec", "cloned", "copied", "deref", "borrow", "to_path_buf", "into_boxed_slice",
        "into_string", "unwrap", "expect", "as_mut", "as_deref", "iter", "into_iter",
    ];
    let v = it.deref(st, v);
    match &v {
        V::Sym(t) => {
            let (op, a) = it.node(*t);
            if op.ends_with("()") && !a.is_empty() && T.contains(&last(&op)) && (op.starts_with('.') || a.len() == 1) {
                return norm(it, st, &a[0]);
            }
            if (&*op == "Some#0" || &*op == "Ok#0") && a.len() == 1 {
                // payload of an option: keep
            }
            if a.is_empty() {
                return v;
            }
            let b: Vec<V> = a.iter().map(|x| norm(it, st, x)).collect();
            if b == a { v } else { it.sym(&op, b) }
        }
        V::Ctor(n, a) if (&**n == "Arc" || &**n == "Box" || &**n == "Rc") && a.len() == 1 => norm(it, st, &a[0]),
        V::Ctor(n, a) => V::Ctor(n.clone(), a.iter().map(|x| norm(it, st, x)).collect::<Vec<_>>().into()),
        V::Struct(n, m) => V::Struct(n.clone(), m.iter().map(|(k, x)| (k.clone(), norm(it, st, x))).collect::<std::collections::BTreeMap<_, _>>().into()),
        V::Tuple(a) => V::Tuple(a.iter().map(|x| norm(it, st, x)).collect::<Vec<_>>().into()),
        V::List(a) => V::List(a.iter().map(|x| norm(it, st, x)).collect::<Vec<_>>().into()),
        _ => v,
    }
}
/// the operator and operands of a term or constructor
pub fn op<D: Domain>(it: &Interp<D>, v: &V) -> (String, Vec<V>) {
    match v {
        V::Sym(t) => {
            let (o, a) = it.node(*t);
            (o.to_string(), a)
        }
        V::Ctor(n, a) => (n.to_string(), a.to_vec()),
        _ => (String::new(), vec![]),
    }
}
pub fn mentions<D: Domain>(it: &Interp<D>, v: &V, pred: &dyn Fn(&V) -> bool) -> bool {
    if pred(v) {
        return true;
    }
    match v {
        V::Sym(t) => it.node(*t).1.iter().any(|x| mentions(it, x, pred)),
        V::Ctor(_, a) | V::Tuple(a) | V::List(a) => a.iter().any(|x| mentions(it, x, pred)),
        V::Struct(_, m) => m.values().any(|x| mentions(it, x, pred)),
        _ => false,
    }
}
/// a boolean fact about a term whose full text satisfies `p`
pub fn fact_bool<D: Domain>(it: &Interp<D>, st: &St<D::W>, p: impl Fn(&str) -> bool) -> Option<bool> {
    st.facts.iter().find_map(|(t, f)| match f {
        Fact::Bool(b) if p(&full(it, &V::Sym(*t))) => Some(*b),
        _ => None,
    })
}
pub fn fact_is<D: Domain>(it: &Interp<D>, st: &St<D::W>, p: impl Fn(&str) -> bool) -> Option<String> {
    st.facts.iter().find_map(|(t, f)| match f {
        Fact::Is(n) if p(&full(it, &V::Sym(*t))) => Some(n.to_string()),
        _ => None,
    })
}
/// what is stored in the place whose full text is `name` at the end of the path
pub fn heap_of<D: Domain>(it: &Interp<D>, st: &St<D::W>, name: &str) -> Option<V> {
    st.heap.iter().find(|(t, _)| full(it, &V::Sym(**t)) == name).map(|(_, v)| it.deref(st, v))
}
pub fn need<'r>(r: &'r Repo, rep: &mut Report, file: &str, ty: Option<&str>, name: &str) -> Option<&'r FnInfo> {
    let f = r.fns.iter().find(|f| f.file.ends_with(file) && f.name == name && (ty.is_none() || f.self_ty.as_deref() == ty)).or_else(|| {
        // moved to another file of the same crate
        let krate = file.split('/').nth(0).unwrap_or("");
        let _ = krate;
        let c: Vec<&FnInfo> = r.fns.iter().filter(|f| f.name == name && ty.is_some() && f.self_ty.as_deref() == ty).collect();
        if c.len() == 1 { Some(c[0]) } else { None }
    });
    if f.is_none() {
        rep.problem(format!("{}{name} not found: the rule has lost its subject", ty.map(|t| format!("{t}::")).unwrap_or_default()));
    }
    f
}
/// trace a function, reporting overflow
pub fn tr<'r>(r: &'r Repo, rep: &mut Report, id: FnId, args: Option<Vec<V>>, cfg: Cfg<'r>) -> Traced<'r, 'r> {
    let t = trace(r, id, args, cfg);
    if !t.it.overflow.borrow().is_empty() {
        rep.problem(format!("{}: {:?}", r.fns[id].qual(), t.it.overflow.borrow()));
    }
    t
}
/// every method call / path call of that name outside tests, per function
pub fn call_sites<'r>(r: &'r Repo, krate: &str, name: &str) -> Vec<(&'r FnInfo, usize)> {
    struct Vis<'x> {
        name: &'x str,
        out: Vec<usize>,
    }
    impl<'x, 'ast> syn::visit::Visit<'ast> for Vis<'x> {
        fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
            if m.method == self.name {
                self.out.push(span_line(&m.method));
            }
            syn::visit::visit_expr_method_call(self, m);
        }
        fn visit_expr_path(&mut self, p: &'ast syn::ExprPath) {
            if p.path.segments.last().is_some_and(|s| s.ident == self.name) {
                self.out.push(span_line(&p.path));
            }
        }
        fn visit_macro(&mut self, m: &'ast syn::Macro) {
            if let Ok(a) = m.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated) {
                for e in a.iter() {
                    self.visit_expr(e);
                }
            }
        }
    }
    let mut out = vec![];
    for f in r.fns.iter().filter(|f| f.module.first().map(|s| s.as_str()) == Some(krate)) {
        let mut v = Vis { name, out: vec![] };
        syn::visit::Visit::visit_block(&mut v, f.block);
        for l in v.out {
            out.push((f, l));
        }
    }
    out
}
pub fn texts<D: Domain>(it: &Interp<D>, st: &St<D::W>, vs: &[V]) -> BTreeSet<String> {
    vs.iter().map(|v| full(it, &norm(it, st, v))).collect()
}

/// as `full`, with every method call written `x.m(args)`, whatever its receiver was resolved to
pub fn cfull<D: Domain>(it: &Interp<D>, v: &V) -> String {
    let list = |a: &[V]| a.iter().map(|x| cfull(it, x)).collect::<Vec<_>>().join(", ");
    match v {
        V::Ctor(n, a) if !a.is_empty() => format!("{n}({})", list(a)),
        V::Struct(n, m) => format!("{n}{{{}}}", m.iter().map(|(k, x)| format!("{k}: {}", cfull(it, x))).collect::<Vec<_>>().join(", ")),
        V::Tuple(a) => format!("({})", list(a)),
        V::List(a) => format!("[{}]", list(a)),
        V::Ref(Place::Heap(t)) => cfull(it, &V::Sym(*t)),
        V::Sym(t) => {
            let (op, a) = it.node(*t);
            if a.is_empty() {
                return op.to_string();
            }
            if let Some(f) = op.strip_suffix("()") {
                let m = last(f);
                if f.starts_with('.') || (f.contains("::") && m.starts_with(|c: char| c.is_lowercase()) && !matches!(m, "new" | "of" | "from" | "default" | "up_to" | "empty" | "at")) {
                    return format!("{}.{m}({})", cfull(it, &a[0]), list(&a[1..]));
                }
                return format!("{f}({})", list(&a));
            }
            if let Some(f) = op.strip_prefix('.') { format!("{}.{f}", cfull(it, &a[0])) } else { format!("{op}({})", list(&a)) }
        }
        v => it.show(v),
    }
}
/// what a closure does with these arguments, path by path
pub fn clo_paths<'r, 'a>(it: &Interp<'r, Trace<'a>>, st: &St<TW>, f: &V, args: Vec<V>) -> Vec<PathR> {
    let mut st = st.clone();
    st.events = Default::default();
    st.facts = Default::default();
    let id = it.repo.fns[0].id;
    let cx = it.cx_for(id, vec![]);
    it.apply(&cx, f, args, st, 0)
        .into_iter()
        .filter_map(|(st, f)| match f {
            Flow::Val(v) | Flow::Ret(v) => Some(PathR { st, ret: v }),
            _ => None,
        })
        .collect()
}
/// the truth table of a set of paths over atoms (texts as given by `txt`)
pub fn table<D: Domain>(_it: &Interp<D>, rep: &mut Report, paths: &[(St<D::W>, V)], what: &str, site: (&str, usize), atoms: &[(&str, &[&str])], txt: &dyn Fn(&V) -> String, spec: &dyn Fn(&[bool]) -> bool) {
    for (st, ret) in paths {
        let mut known: Vec<Option<bool>> = vec![None; atoms.len()];
        let mut foreign = vec![];
        for (tm, fa) in st.facts.iter() {
            if let Fact::Bool(b) = fa {
                let s = txt(&V::Sym(*tm));
                let hit = atoms.iter().enumerate().find_map(|(i, (_, alts))| {
                    alts.iter().find_map(|a| {
                        let (neg, a) = a.strip_prefix('!').map(|x| (true, x)).unwrap_or((false, a));
                        (s == a).then_some((i, neg))
                    })
                });
                match hit {
                    Some((i, neg)) => known[i] = Some(*b != neg),
                    None => foreign.push(s),
                }
            }
        }
        rep.ob(foreign.is_empty(), format!("{what}:other"), format!("{what} depends on {foreign:?}"), site.0, site.1);
        let n = atoms.len();
        for bits in 0..1u32 << n {
            let v: Vec<bool> = (0..n).map(|i| bits >> i & 1 == 1).collect();
            if (0..n).any(|i| known[i].is_some_and(|k| k != v[i])) {
                continue;
            }
            let got = match ret {
                V::Bool(b) => Some(*b),
                x => {
                    let s = txt(x);
                    let (neg, s) = s.strip_prefix("!(").and_then(|x| x.strip_suffix(')')).map(|x| (true, x.to_string())).unwrap_or((false, s));
                    atoms.iter().position(|(_, al)| al.iter().any(|a| a.trim_start_matches('!') == s)).map(|i| {
                        let al = atoms[i].1.iter().find(|a| a.trim_start_matches('!') == s).unwrap();
                        (v[i] != al.starts_with('!')) != neg
                    })
                }
            };
            let d = atoms.iter().zip(&v).map(|(a, b)| format!("{}={b}", a.0)).collect::<Vec<_>>().join(" ");
            rep.ob(got == Some(spec(&v)), format!("{what}:{d}"), format!("{what} gives {got:?} when {d}; must be {}", spec(&v)), site.0, site.1);
        }
    }
}

/// a predicate as a truth table over its atoms (`!x` as an atom: the negation of the text x)
pub fn truth_table(r: &Repo, rep: &mut Report, file: &str, ty: Option<&str>, name: &str, atoms: &[(&str, &[&str])], spec: &dyn Fn(&[bool]) -> bool) {
        let Some(f) = need(r, rep, file, ty, name) else { return };
        let t = tr(r, rep, f.id, None, Cfg::new(|_| false));
        // `T::m()(x)` and `x.m()` are the same atom
        let canon = |s: &str| -> String {
            if let Some(i) = s.find("()(") {
                let (h, a) = (&s[..i], &s[i + 3..s.len() - 1]);
                if h.chars().all(|c| c.is_alphanumeric() || c == '_' || c == ':') && h.contains("::") && !a.contains(',') && s.ends_with(')') {
                    return format!("{a}.{}()", last(h));
                }
            }
            s.to_string()
        };
        for p in &t.paths {
            // each path fixes some atoms; the others may take either value
            let mut known: Vec<Option<bool>> = vec![None; atoms.len()];
            let mut foreign = vec![];
            let mut put = |s: &str, b: bool| {
                for (i, (_, alts)) in atoms.iter().enumerate() {
                    for a in alts.iter() {
                        let (neg, a) = a.strip_prefix('!').map(|x| (true, x)).unwrap_or((false, a));
                        if s == a {
                            known[i] = Some(b != neg);
                            return;
                        }
                    }
                }
                foreign.push(s.to_string());
            };
            for (tm, fa) in p.st.facts.iter() {
                if let Fact::Bool(b) = fa {
                    put(&canon(&full(&t.it, &V::Sym(*tm))), *b);
                }
            }
            rep.ob(foreign.is_empty(), format!("{name}:other"), format!("{name} depends on {foreign:?}"), &f.file, f.line);
            let n = atoms.len();
            for bits in 0..1u32 << n {
                let v: Vec<bool> = (0..n).map(|i| bits >> i & 1 == 1).collect();
                if (0..n).any(|i| known[i].is_some_and(|k| k != v[i])) {
                    continue;
                }
                let got = match &p.ret {
                    V::Bool(b) => Some(*b),
                    x => {
                        let s = full(&t.it, x);
                        let (neg, s) = s.strip_prefix("!(").and_then(|x| x.strip_suffix(')')).map(|x| (true, x.to_string())).unwrap_or((false, s));
                        let s = canon(&s);
                        atoms.iter().position(|(_, al)| al.iter().any(|a| a.trim_start_matches('!') == s)).map(|i| {
                            let al = atoms[i].1.iter().find(|a| a.trim_start_matches('!') == s).unwrap();
                            (v[i] != al.starts_with('!')) != neg
                        })
                    }
                };
                let d = atoms.iter().zip(&v).map(|(a, b)| format!("{}={b}", a.0)).collect::<Vec<_>>().join(" ");
                rep.ob(got == Some(spec(&v)), format!("{name}:{d}"), format!("{name} gives {got:?} when {d}; must be {}", spec(&v)), &f.file, f.line);
            }
        }
        rep.floor(&format!("paths of {name}"), t.paths.len(), 1);
}
