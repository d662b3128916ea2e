//! Types: folding and searching reach every part (D08); unification (D07).
use super::trace::*;
use super::tree::{ctor0, run_self, strukt};
use super::util::*;
use crate::absint::*;
use crate::repo::*;
use crate::report::Report;
use quote::ToTokens;
use std::collections::{BTreeMap, HashSet};
use std::rc::Rc;

fn list(v: Vec<V>) -> V {
    V::List(Rc::new(v))
}
fn in_lang(file: &str) -> bool {
    file.contains("crates/lang/src/")
}
/// what a field of this type looks like, with the types inside it as named leaves
struct Shapes<'r> {
    r: &'r Repo,
    foldable: HashSet<String>,
}
enum Sh {
    /// a `Ty`
    Ty(String),
    /// another type that knows how to fold itself
    Nested(String),
    Many(Vec<Sh>),
    Pairs(Vec<(String, Sh)>),
    Opt(Box<Sh>),
    Plain(String),
}
fn targs(t: &syn::Type) -> (String, Vec<&syn::Type>) {
    match t {
        syn::Type::Path(p) => {
            let Some(s) = p.path.segments.last() else { return (String::new(), vec![]) };
            let mut v = vec![];
            if let syn::PathArguments::AngleBracketed(a) = &s.arguments {
                for g in &a.args {
                    if let syn::GenericArgument::Type(t) = g {
                        v.push(t);
                    }
                }
            }
            (s.ident.to_string(), v)
        }
        syn::Type::Paren(p) => targs(&p.elem),
        syn::Type::Group(p) => targs(&p.elem),
        syn::Type::Reference(p) => targs(&p.elem),
        _ => (String::new(), vec![]),
    }
}
impl<'r> Shapes<'r> {
    /// does a value of this type hold a `Ty`?
    fn holds(&self, t: &syn::Type, seen: &mut HashSet<String>) -> bool {
        let (n, a) = targs(t);
        if n == "Ty" || self.foldable.contains(&n) {
            return true;
        }
        if let syn::Type::Tuple(t) = t {
            return t.elems.iter().any(|e| self.holds(e, seen));
        }
        if a.iter().any(|x| self.holds(x, seen)) {
            return true;
        }
        if n.is_empty() || !seen.insert(n.clone()) {
            return false;
        }
        let fields = |f: &'r syn::Fields| f.iter().map(|f| &f.ty).collect::<Vec<_>>();
        let mut tys: Vec<&'r syn::Type> = vec![];
        for s in self.r.structs.iter().filter(|s| s.name == n && in_lang(&s.file)) {
            tys.extend(fields(&s.item.fields));
        }
        for e in self.r.enums.iter().filter(|s| s.name == n && in_lang(&s.file)) {
            for v in &e.item.variants {
                tys.extend(fields(&v.fields));
            }
        }
        tys.iter().any(|t| self.holds(t, seen))
    }
    fn shape(&self, t: &syn::Type, path: &str, bad: &mut Vec<String>) -> Sh {
        let (n, a) = targs(t);
        match n.as_str() {
            "Ty" => Sh::Ty(path.into()),
            _ if self.foldable.contains(&n) => Sh::Nested(path.into()),
            "Box" | "Rc" | "Arc" if a.len() == 1 => self.shape(a[0], path, bad),
            "Vec" if a.len() == 1 && self.holds(a[0], &mut Default::default()) => Sh::Many((0..2).map(|i| self.shape(a[0], &format!("{path}{i}"), bad)).collect()),
            "Option" if a.len() == 1 && self.holds(a[0], &mut Default::default()) => Sh::Opt(Box::new(self.shape(a[0], path, bad))),
            "HashMap" | "BTreeMap" | "IndexMap" if a.len() == 2 && self.holds(a[1], &mut Default::default()) => Sh::Pairs((0..2).map(|i| (format!("{path}k{i}"), self.shape(a[1], &format!("{path}{i}"), bad))).collect()),
            _ => {
                if self.holds(t, &mut Default::default()) {
                    bad.push(format!("`{}` holds types but cannot be folded", t.to_token_stream()));
                }
                Sh::Plain(path.into())
            }
        }
    }
}
impl Sh {
    fn value<D: Domain>(&self, it: &Interp<D>) -> V {
        match self {
            Sh::Ty(p) => it.sym(&format!("ty:{p}"), vec![]),
            Sh::Nested(p) => it.sym(&format!("nested:{p}"), vec![]),
            Sh::Plain(p) => it.sym(&format!("plain:{p}"), vec![]),
            Sh::Many(v) => list(v.iter().map(|x| x.value(it)).collect()),
            Sh::Opt(v) => some(v.value(it)),
            Sh::Pairs(v) => list(v.iter().map(|(k, x)| V::Tuple(Rc::new(vec![it.sym(k, vec![]), x.value(it)]))).collect()),
        }
    }
    fn folded<D: Domain>(&self, it: &Interp<D>) -> V {
        match self {
            Sh::Ty(_) | Sh::Nested(_) => it.sym("fold", vec![self.value(it)]),
            Sh::Plain(_) => self.value(it),
            Sh::Many(v) => list(v.iter().map(|x| x.folded(it)).collect()),
            Sh::Opt(v) => some(v.folded(it)),
            Sh::Pairs(v) => list(v.iter().map(|(k, x)| V::Tuple(Rc::new(vec![it.sym(k, vec![]), x.folded(it)]))).collect()),
        }
    }
    fn atoms(&self, out: &mut Vec<String>) {
        match self {
            Sh::Ty(p) => out.push(format!("visit(ty:{p})")),
            Sh::Nested(p) => out.push(format!("visit(nested:{p})")),
            Sh::Plain(_) => {}
            Sh::Many(v) => v.iter().for_each(|x| x.atoms(out)),
            Sh::Opt(x) => x.atoms(out),
            Sh::Pairs(v) => v.iter().for_each(|(_, x)| x.atoms(out)),
        }
    }
    fn bearing(&self) -> bool {
        !matches!(self, Sh::Plain(_))
    }
}
fn txt0(it: &Interp<Trace>, st: &St<TW>, v: &V) -> String {
    let v = it.deref(st, v);
    match &v {
        V::List(l) => format!("[{}]", l.iter().map(|x| txt0(it, st, x)).collect::<Vec<_>>().join(", ")),
        V::Tuple(l) => format!("({})", l.iter().map(|x| txt0(it, st, x)).collect::<Vec<_>>().join(", ")),
        V::Ctor(n, a) if a.is_empty() => n.to_string(),
        V::Ctor(n, a) => format!("{n}({})", a.iter().map(|x| txt0(it, st, x)).collect::<Vec<_>>().join(", ")),
        V::Struct(n, m) => format!("{}{{{}}}", last(n), m.iter().map(|(k, x)| format!("{k}: {}", txt0(it, st, x))).collect::<Vec<_>>().join(", ")),
        V::Sym(_) => {
            let (o, a) = op(it, &v);
            if a.is_empty() { o } else { format!("{o}({})", a.iter().map(|x| txt0(it, st, x)).collect::<Vec<_>>().join(", ")) }
        }
        x => it.show(x),
    }
}
/// the symbolic value of one shape of a type, what folding it must give, and the atoms of searching it
struct Case {
    name: String,
    value: V,
    folded: V,
    atoms: Vec<String>,
    bearing: bool,
}
fn fields_case<D: Domain>(sh: &Shapes, it: &Interp<D>, name: &str, fields: &syn::Fields, bad: &mut Vec<String>) -> Case {
    let shs: Vec<(String, Sh)> = fields
        .iter()
        .enumerate()
        .map(|(i, f)| {
            let n = f.ident.as_ref().map(|x| x.to_string()).unwrap_or_else(|| format!("f{i}"));
            let s = sh.shape(&f.ty, &n, bad);
            (n, s)
        })
        .collect();
    let mut atoms = vec![];
    shs.iter().for_each(|(_, s)| s.atoms(&mut atoms));
    let mk = |g: &dyn Fn(&Sh) -> V| match fields {
        syn::Fields::Unit => ctor0(name),
        syn::Fields::Unnamed(_) => ctor(name, shs.iter().map(|(_, s)| g(s)).collect()),
        syn::Fields::Named(_) => strukt(name, shs.iter().map(|(n, s)| (n.as_str(), g(s))).collect()),
    };
    Case { name: name.into(), value: mk(&|s| s.value(it)), folded: mk(&|s| s.folded(it)), atoms, bearing: shs.iter().any(|(_, s)| s.bearing()) }
}
fn cases<D: Domain>(sh: &Shapes, it: &Interp<D>, ty: &str, bad: &mut Vec<String>) -> Vec<Case> {
    if let Some(e) = sh.r.enums.iter().find(|e| e.name == ty && in_lang(&e.file)) {
        return e.item.variants.iter().map(|v| fields_case(sh, it, &v.ident.to_string(), &v.fields, bad)).collect();
    }
    if let Some(s) = sh.r.structs.iter().find(|s| s.name == ty && in_lang(&s.file)) {
        return vec![fields_case(sh, it, ty, &s.item.fields, bad)];
    }
    vec![]
}
/// leaves as given by the shapes; what is done to them, by the folder or the visitor
fn leafish(it: &Interp<Trace>, st: &St<TW>, v: &V) -> Option<bool> {
    match it.deref(st, v) {
        V::Sym(t) => {
            let o = it.node(t).0;
            if o.starts_with("ty:") {
                Some(true)
            } else if o.starts_with("nested:") {
                Some(false)
            } else {
                None
            }
        }
        _ => None,
    }
}
fn fold_cfg<'r>() -> Cfg<'r> {
    Cfg::new(|f: &FnInfo| in_lang(&f.file) && f.trait_name.is_none() && f.file.contains("/types/"))
        .cap(20000)
        .unroll(Some(4))
        .mhook(|it, cx, st, c| {
            let mut out = vec![];
            let rv = it.deref(st, &c.recv);
            let is = |v: &V, n: &str| matches!(it.deref(st, v), V::Sym(t) if &*it.node(t).0 == n);
            let a0 = c.args.first().map(|a| it.deref(st, a));
            let ret = |v: V| Some(vec![(st.clone(), Flow::Val(v))]);
            match c.name {
                "fold_ty" if is(&rv, "folder") => return ret(it.sym("fold", vec![a0?])),
                "fold_tys" if is(&rv, "folder") => match a0? {
                    V::List(l) => return ret(list(l.iter().map(|x| it.sym("fold", vec![it.deref(st, x)])).collect())),
                    x => return ret(it.sym("fold_tys", vec![x])),
                },
                "fold_opt_ty" if is(&rv, "folder") => match a0? {
                    V::Ctor(n, a) if &*n == "Some" => return ret(some(it.sym("fold", vec![it.deref(st, &a[0])]))),
                    x => return ret(x),
                },
                "fold_with" | "deep_fold_with" if a0.as_ref().is_some_and(|a| is(a, "folder")) => {
                    let deep_ty = c.name == "deep_fold_with" && leafish(it, st, &rv) == Some(true);
                    return ret(it.sym(if deep_ty { "fold_below" } else { "fold" }, vec![rv]));
                }
                "visit_ty" if is(&rv, "visitor") => return ret(it.sym("visit", vec![a0?])),
                "visit_tys" if is(&rv, "visitor") => {
                    let V::List(l) = a0? else { return None };
                    let mut open = vec![st.clone()];
                    for x in l.iter() {
                        let b = it.sym("visit", vec![it.deref(st, x)]);
                        let mut next = vec![];
                        for s in open {
                            for (s, t) in it.branch(s, &b) {
                                if t { out.push((s, Flow::Val(V::Bool(true)))) } else { next.push(s) }
                            }
                        }
                        open = next;
                    }
                    out.extend(open.into_iter().map(|s| (s, Flow::Val(V::Bool(false)))));
                    return Some(out);
                }
                "visit_with" | "deep_visit_with" if a0.as_ref().is_some_and(|a| is(a, "visitor")) => {
                    let deep_ty = c.name == "deep_visit_with" && leafish(it, st, &rv) == Some(true);
                    return ret(it.sym(if deep_ty { "visit_below" } else { "visit" }, vec![rv]));
                }
                "deref" | "to_owned" | "clone" | "as_ref" | "as_mut" | "into" if c.args.is_empty() => return ret(rv),
                "insert" if c.args.len() == 2 => {
                    let pl = match (&c.recv, &c.place) {
                        (V::Ref(p), _) => p,
                        (_, Some(p)) => p,
                        _ => return None,
                    };
                    let V::List(l) = &rv else { return None };
                    let mut v = (**l).clone();
                    v.push(V::Tuple(Rc::new(c.args.iter().map(|a| it.deref(st, a)).collect())));
                    let mut s = st.clone();
                    it.write(&mut s, pl, list(v));
                    return Some(vec![(s, Flow::Val(none()))]);
                }
                "values" | "into_values" | "keys" | "into_keys" => {
                    let V::List(l) = &rv else { return None };
                    let k = if c.name.ends_with("values") { 1 } else { 0 };
                    let v: Option<Vec<V>> = l.iter().map(|x| match it.deref(st, x) { V::Tuple(t) if t.len() == 2 => Some(t[k].clone()), _ => None }).collect();
                    return ret(list(v?));
                }
                _ => {}
            }
            let _ = cx;
            None
        })
        .chook(|it, _cx, st, segs, args, _| {
            let n: Vec<&str> = segs.iter().map(|s| s.as_str()).collect();
            match n.as_slice() {
                [.., "HashMap" | "BTreeMap" | "IndexMap" | "Vec", "new" | "default" | "with_capacity"] => Some(vec![(st.clone(), Flow::Val(list(vec![])))]),
                [.., "Box" | "Rc" | "Arc", "new"] | [.., "Deref", "deref"] if args.len() == 1 => Some(vec![(st.clone(), Flow::Val(it.deref(st, &args[0])))]),
                _ => None,
            }
        })
}
fn is_leaf_sh(txt: &str) -> bool {
    txt.starts_with("visit(")
}
fn or_table(it: &Interp<Trace>, rep: &mut Report, paths: &[PathR], what: &str, site: (&str, usize), atoms: &[String]) {
    let n = atoms.len();
    for p in paths {
        let mut known: Vec<Option<bool>> = vec![None; n];
        for (t, f) in p.st.facts.iter() {
            if let Fact::Bool(b) = f {
                let s = txt0(it, &p.st, &V::Sym(*t));
                match atoms.iter().position(|a| *a == s) {
                    Some(i) => known[i] = Some(*b),
                    None => rep.viol(&format!("{what}:other"), &format!("whether {what} holds something depends on {s}"), site.0, site.1),
                }
            }
        }
        for bits in 0..1u32 << n {
            let v: Vec<bool> = (0..n).map(|i| bits >> i & 1 == 1).collect();
            if (0..n).any(|i| known[i].is_some_and(|k| k != v[i])) {
                continue;
            }
            let got = match it.deref(&p.st, &p.ret) {
                V::Bool(b) => Some(b),
                x => {
                    let s = txt0(it, &p.st, &x);
                    if is_leaf_sh(&s) { atoms.iter().position(|a| *a == s).map(|i| v[i]) } else { None }
                }
            };
            let want = v.iter().any(|b| *b);
            let d = atoms.iter().zip(&v).filter(|(_, b)| **b).map(|(a, _)| a.trim_start_matches("visit(").trim_end_matches(')')).collect::<Vec<_>>().join(", ");
            rep.ob(got == Some(want), format!("{what}:search:{d}"), format!("searching {what} answers {got:?} when the sought type is in [{d}]"), site.0, site.1);
        }
    }
    rep.floor(&format!("paths of searching {what}"), paths.len(), 1);
}
fn impl_fn<'r>(r: &'r Repo, tr: &str, ty: &str, name: &str) -> Option<&'r FnInfo> {
    r.fns.iter().find(|f| f.name == name && f.trait_name.as_deref() == Some(tr) && f.self_ty.as_deref() == Some(ty) && in_lang(&f.file) && !f.file.contains("/tests"))
}

pub fn d08(r: &Repo, _t: bool) -> Report {
    let mut rep = Report::new("folding a value of a foldable type gives the same value with every type inside folded once and everything else kept; searching it is the disjunction over exactly the same types; every folder and visitor descends into every composite type");
    let foldable: HashSet<String> = r.impls.iter().filter(|i| i.trait_name.as_deref() == Some("TypeFoldable") && in_lang(&i.file)).map(|i| i.self_ty.clone()).collect();
    rep.floor("foldable types", foldable.len(), 6);
    let sh = Shapes { r, foldable: foldable.clone() };
    let mut bad = vec![];
    let mut tys: Vec<String> = foldable.iter().cloned().collect();
    tys.sort();
    let mut shapes = 0;
    for ty in &tys {
        let it = Interp::new(r, Trace { cfg: fold_cfg(), panics: Default::default() });
        let cs = cases(&sh, &it, ty, &mut bad);
        if cs.is_empty() {
            rep.problem(format!("{ty} is foldable but its definition is not in the sources"));
            continue;
        }
        let Some(ff) = impl_fn(r, "TypeFoldable", ty, "deep_fold_with") else {
            rep.problem(format!("deep_fold_with of {ty} not found"));
            continue;
        };
        let Some(vf) = impl_fn(r, "TypeFoldable", ty, "deep_visit_with") else {
            rep.problem(format!("deep_visit_with of {ty} not found"));
            continue;
        };
        for c in &cs {
            shapes += 1;
            let what = if c.name == *ty { ty.clone() } else { format!("{ty}::{}", c.name) };
            let ps = run(&it, ff.id, Some(vec![c.value.clone(), it.sym("folder", vec![])]));
            rep.floor(&format!("paths of folding {what}"), ps.len(), 1);
            let same = ps.iter().all(|p| txt0(&it, &p.st, &p.ret) == txt0(&it, &p.st, &c.folded));
            let got = ps.iter().map(|p| txt0(&it, &p.st, &p.ret)).next().unwrap_or_default();
            rep.ob(same, format!("{what}:fold"), format!("folding {what} gives {got}; every type inside must be folded once and the rest kept"), &ff.file, ff.line);
            // errors are searched only for the types they are about
            if ty != "TypeError" {
                let ps = run(&it, vf.id, Some(vec![c.value.clone(), it.sym("visitor", vec![])]));
                or_table(&it, &mut rep, &ps, &what, (&vf.file, vf.line), &c.atoms);
            }
        }
        rep.ob(it.overflow.borrow().is_empty(), format!("{ty}:paths"), format!("too many paths through the folding of {ty}"), &ff.file, ff.line);
    }
    bad.sort();
    bad.dedup();
    for b in &bad {
        rep.viol("unfoldable", b, "crates/lang/src/types/fold.rs", 1);
    }
    rep.count("shapes of types", shapes);
    traversal(r, &mut rep, &sh);
    rep.sample(&format!("{shapes} shapes of {} foldable types: {}", tys.len(), tys.join(", ")));
    rep
}

/// the traits' own methods, the folders and the visitors
fn traversal(r: &Repo, rep: &mut Report, sh: &Shapes) {
    let fold = "types/fold.rs";
    // fold_with / visit_with: for a type itself the folder is asked, for everything else its parts
    for (tr, name, own, parts) in [("TypeFoldable", "fold_with", "fold_ty", "deep_fold_with"), ("TypeFoldable", "visit_with", "visit_ty", "deep_visit_with")] {
        for f in r.fns.iter().filter(|f| f.name == name && in_lang(&f.file) && (f.trait_name.as_deref() == Some(tr) || f.self_ty.as_deref() == Some(tr))) {
            let me = f.self_ty.clone().unwrap_or_default();
            let cfg = Cfg::new(|_| false).mhook(|it, _cx, st, c| {
                if matches!(c.name, "fold_ty" | "deep_fold_with" | "visit_ty" | "deep_visit_with") {
                    let mut a = vec![it.deref(st, &c.recv)];
                    a.extend(c.args.iter().map(|x| it.deref(st, x)));
                    return Some(vec![(st.clone(), Flow::Val(it.sym(c.name, a)))]);
                }
                None
            });
            let it = Interp::new(r, Trace { cfg, panics: Default::default() });
            let ps = run(&it, f.id, Some(vec![it.sym("me", vec![]), it.sym("by", vec![])]));
            let want = if me == "Ty" { format!("{own}(by, me)") } else { format!("{parts}(me, by)") };
            let ok = ps.len() == 1 && txt0(&it, &ps[0].st, &ps[0].ret) == want;
            rep.ob(ok, format!("{me}:{name}"), format!("{} must be {want}", f.short()), &f.file, f.line);
        }
    }
    let need_ty = impl_fn(r, "TypeFoldable", "Ty", "fold_with").is_some() && impl_fn(r, "TypeFoldable", "Ty", "visit_with").is_some();
    rep.ob(need_ty, "Ty:entry", "folding or searching a type must ask the folder about the type itself, not only about its parts", "crates/lang/src/types/ty.rs", 1);
    // fold_tys, fold_opt_ty, visit_tys of the traits
    for (tr, name) in [("TypeFolder", "fold_tys"), ("TypeFolder", "fold_opt_ty"), ("TypeVisitor", "visit_tys")] {
        let fs: Vec<&FnInfo> = r.fns.iter().filter(|f| f.name == name && in_lang(&f.file) && (f.trait_name.as_deref() == Some(tr) || f.self_ty.as_deref() == Some(tr))).collect();
        rep.floor(&format!("definitions of {name}"), fs.len(), 1);
        for f in fs {
            let cfg = Cfg::new(|_| false).unroll(Some(4)).mhook(|it, _cx, st, c| {
                let a = c.args.first().map(|x| it.deref(st, x));
                match c.name {
                    "fold_ty" => Some(vec![(st.clone(), Flow::Val(it.sym("fold", vec![a?])))]),
                    "visit_ty" => Some(vec![(st.clone(), Flow::Val(it.sym("visit", vec![a?])))]),
                    _ => None,
                }
            });
            let it = Interp::new(r, Trace { cfg, panics: Default::default() });
            let tys = [it.sym("ty:a", vec![]), it.sym("ty:b", vec![])];
            let f1 = |v: &V| it.sym("fold", vec![v.clone()]);
            let me = it.sym("me", vec![]);
            match name {
                "visit_tys" => {
                    let ps = run(&it, f.id, Some(vec![me, list(tys.to_vec())]));
                    or_table(&it, rep, &ps, "visit_tys", (&f.file, f.line), &["visit(ty:a)".to_string(), "visit(ty:b)".to_string()]);
                }
                "fold_tys" => {
                    let want = list(tys.iter().map(f1).collect());
                    for p in run(&it, f.id, Some(vec![me, list(tys.to_vec())])) {
                        let (g, w) = (txt0(&it, &p.st, &p.ret), txt0(&it, &p.st, &want));
                        rep.ob(g == w, "fold_tys", format!("{} gives {g}; must be {w}", f.short()), &f.file, f.line);
                    }
                }
                _ => {
                    for (x, want) in [(some(tys[0].clone()), some(f1(&tys[0]))), (none(), none())] {
                        for p in run(&it, f.id, Some(vec![me.clone(), x])) {
                            let (g, w) = (txt0(&it, &p.st, &p.ret), txt0(&it, &p.st, &want));
                            rep.ob(g == w, "fold_opt_ty", format!("{} gives {g}; must be {w}", f.short()), &f.file, f.line);
                        }
                    }
                }
            }
        }
    }
    // the folders and visitors
    let mut n = 0;
    for (tr, name) in [("TypeFolder", "fold_ty"), ("TypeVisitor", "visit_ty")] {
        for f in r.fns.iter().filter(|f| f.name == name && f.trait_name.as_deref() == Some(tr) && in_lang(&f.file) && !f.file.contains("/tests")) {
            n += 1;
            let who = f.self_ty.clone().unwrap_or_default();
            let cfg = Cfg::new(|_| false).cap(4000).mhook(|it, _cx, st, c| {
                let rv = it.deref(st, &c.recv);
                let ret = |v: V| Some(vec![(st.clone(), Flow::Val(v))]);
                match c.name {
                    "deep_fold_with" | "deep_visit_with" => {
                        let me = c.args.first().map(|x| it.deref(st, x));
                        let by = me.is_some_and(|m| matches!(&m, V::Struct(n, _) if last(n) == "Me") || matches!(&m, V::Sym(t) if &*it.node(*t).0 == "me"));
                        ret(it.sym(if by { "below" } else { "below_other" }, vec![rv]))
                    }
                    "clone" | "to_owned" | "as_ref" => ret(rv),
                    "resolve_ty_infer" => ret(it.sym("resolved", vec![it.deref(st, c.args.first()?)])),
                    "get_ty" => ret(it.sym("lookup", vec![it.deref(st, c.args.first()?)])),
                    _ => None,
                }
            });
            let it = Interp::new(r, Trace { cfg, panics: Default::default() });
            let mut bad = vec![];
            for c in cases(sh, &it, "Ty", &mut bad) {
                let me = strukt("Me", vec![("ctx", it.sym("ctx", vec![])), ("fallback", it.sym("fallback", vec![])), ("folder", it.sym("folder", vec![])), ("visitor", it.sym("visitor", vec![])), ("subst", it.sym("subst", vec![]))]);
                let ps = run_self(&it, f.id, me, vec![c.value.clone()]);
                rep.floor(&format!("paths of {who} on {}", c.name), ps.len(), 1);
                let v = |st: &St<TW>| txt0(&it, st, &c.value);
                for (p, _) in &ps {
                    let got = txt0(&it, &p.st, &p.ret);
                    let below = format!("below({})", v(&p.st));
                    let leaf_ok = if name == "fold_ty" { got == below || got == v(&p.st) } else { got == below || got == "false" };
                    let special: Option<(bool, String)> = match (who.as_str(), c.name.as_str()) {
                        ("TyVarResolver", "Infer") => Some((got == format!("below(resolved({}))", "plain:f0"), "what the variable resolves to, with its own parts resolved".into())),
                        ("FullTyVarResolver", "Infer") => {
                            let open = fact_is(&it, &p.st, |s| s.starts_with("resolved(")).as_deref() == Some("Infer") && p.st.facts.iter().any(|(t, f)| matches!(f, Fact::Is(n, ..) if &**n == "Var") && txt0(&it, &p.st, &V::Sym(*t)).contains("resolved("));
                            let r0 = "below(resolved(plain:f0))".to_string();
                            if open {
                                Some((got == "below(Unknown)" || got == "Unknown" || got.starts_with("below(TypeParam(") || got.starts_with("TypeParam("), "Unknown, or the type parameter the variable stands for".into()))
                            } else {
                                Some((got == r0 || got.starts_with("below(Infer("), "what the variable resolves to, with its own parts resolved".into()))
                            }
                        }
                        ("TyTypeParameterFolder", "TypeParam") => Some((got.contains("plain:f0") && !got.starts_with("below") && got != v(&p.st), "what the folding function gives for the parameter".into())),
                        ("SubstitutionApplier", "TypeParam") => Some((
                            match fact_is(&it, &p.st, |s| s.starts_with("lookup(")).as_deref() {
                                Some("Some") => !got.starts_with("below") && got.contains("lookup(plain:f0)"),
                                Some("None") => got == v(&p.st),
                                _ => got.contains("lookup(plain:f0)") && got.contains(&v(&p.st)) && !got.starts_with("below"),
                            },
                            "the type the substitution gives for the parameter, or the parameter itself".into(),
                        )),
                        ("TyInferVisitor", "Infer") => Some((got.contains("plain:f0") && !got.starts_with("below"), "what the visitor says of the variable".into())),
                        ("HasTyUnknownVisitor", "Unknown") | ("HasTyInferVisitor", "Infer") | ("HasTyTypeParamVisitor", "TypeParam") => Some((got == "true", "true".into())),
                        _ => None,
                    };
                    let (ok, want) = match special {
                        Some(x) => x,
                        None if c.bearing => (got == below, "asked of every type inside".into()),
                        None => (leaf_ok, "the type itself / not found".into()),
                    };
                    rep.ob(ok, format!("{who}:{}", c.name), format!("{who} gives {got} for Ty::{}; must be {want}", c.name), &f.file, f.line);
                }
            }
        }
    }
    rep.floor("folders and visitors", n, 7);
    // substitution starts from the type itself
    for f in r.fns.iter().filter(|f| f.name == "substitute" && in_lang(&f.file) && f.trait_name.is_some()) {
        let cfg = Cfg::new(|_| false).mhook(|it, _cx, st, c| {
            if matches!(c.name, "fold_with" | "deep_fold_with") {
                return Some(vec![(st.clone(), Flow::Val(it.sym(c.name, vec![it.deref(st, &c.recv), it.deref(st, c.args.first()?)])))]);
            }
            None
        });
        let it = Interp::new(r, Trace { cfg, panics: Default::default() });
        for p in run(&it, f.id, Some(vec![it.sym("me", vec![]), it.sym("subst", vec![])])) {
            let g = txt0(&it, &p.st, &p.ret);
            rep.ob(g == "fold_with(me, SubstitutionApplier{subst: subst})", "substitute", format!("substituting into a type gives {g}"), &f.file, f.line);
        }
    }
    let _ = (fold, BTreeMap::<u8, u8>::new());
}

// ------------------------------------------------------------------------------------------------
// D07: unification

const TABLE: &str = "types/unification.rs";
const COMBINE: &str = "inference/combine_types.rs";

fn strip_root(s: &str) -> String {
    let mut s = s.to_string();
    while let Some(x) = s.strip_prefix("root(").and_then(|x| x.strip_suffix(')')) {
        s = x.to_string();
    }
    s
}
fn bool_facts(it: &Interp<Trace>, st: &St<TW>) -> Vec<(String, bool)> {
    st.facts.iter().filter_map(|(t, f)| if let Fact::Bool(b) = f { Some((txt0(it, st, &V::Sym(*t)), *b)) } else { None }).collect()
}
/// the union-find table itself, in terms of root(x) and val(x)
fn union_find(r: &Repo, rep: &mut Report) {
    let cfg = || {
        Cfg::new(|f: &FnInfo| f.file.ends_with(TABLE) && !matches!(f.name.as_str(), "resolve_to_root_var" | "resolve_to_ty_value")).cap(2000).mhook(|it, cx, st, c| {
            let rv = it.deref(st, &c.recv);
            let a: Vec<V> = c.args.iter().map(|x| it.deref(st, x)).collect();
            let ret = |v: V| Some(vec![(st.clone(), Flow::Val(v))]);
            match c.name {
                "resolve_to_root_var" => ret(it.sym("root", vec![a.first()?.clone()])),
                "resolve_to_ty_value" => {
                    // the value of a variable is that of its root
                    let x = a.first()?;
                    let (o, i) = op(it, x);
                    let x = if o == "root" { i[0].clone() } else { x.clone() };
                    ret(it.sym("val", vec![x]))
                }
                "clone" | "to_owned" | "cloned" if c.args.is_empty() => ret(rv),
                "insert" if a.len() == 2 => {
                    let mut s = st.clone();
                    s.event("insert", a, cx.func, c.line);
                    Some(vec![(s, Flow::Val(none()))])
                }
                _ => None,
            }
        })
    };
    // two variables
    if let Some(f) = need(r, rep, TABLE, Some("UnificationTable"), "unify_var_var") {
        let it = Interp::new(r, Trace { cfg: cfg(), panics: Default::default() });
        let me = it.sym("table", vec![]);
        let ps = run(&it, f.id, Some(vec![me, it.sym("a", vec![]), it.sym("b", vec![])]));
        rep.floor("paths of unify_var_var", ps.len(), 2);
        for p in &ps {
            let facts = bool_facts(&it, &p.st);
            let same = facts.iter().find_map(|(s, b)| if s.contains("root(a)") && s.contains("root(b)") && !s.contains("val(") { Some(if s.starts_with("ne(") { !*b } else { *b }) } else { None });
            let same = same.or(facts.iter().any(|(s, b)| (s == "==(a, b)" || s == "==(b, a)") && *b || (s == "ne(a, b)" && !*b)).then_some(true));
            let some_of = |n: &str| fact_is(&it, &p.st, |s| s == format!("val({n})"));
            let ins: Vec<(String, String)> = p.st.events.iter().filter(|e| last(&e.name) == "insert").map(|e| (txt0(&it, &p.st, &e.args[0]), txt0(&it, &p.st, &e.args[1]))).collect();
            if same.is_none() {
                // the roots may be one: what is written last counts
                let ok = ins.last().is_none_or(|(_, v)| v.starts_with("Value("));
                rep.ob(ok, "union:unguarded", "the roots of two variables are not compared before they are joined: a variable can end up linked to itself, and following it never ends", &f.file, f.line);
            }
            match same {
                Some(true) => { rep.ob(ins.is_empty(), "union:same", format!("joining two variables that are one already changes the table: {ins:?}"), &f.file, f.line); }
                Some(false) | None => {
                    let finals: BTreeMap<String, String> = ins.iter().cloned().collect();
                    let links: Vec<(&String, &String)> = finals.iter().filter(|(_, v)| v.starts_with("Var(")).collect();
                    let ok = links.len() == 1 && {
                        let (from, to) = (links[0].0.as_str(), links[0].1.trim_start_matches("Var(").trim_end_matches(')').to_string() + ")");
                        (from == "root(a)" && to == "root(b)") || (from == "root(b)" && to == "root(a)")
                    };
                    rep.ob(ok, "union:link", format!("joining two different variables must link exactly one root to the other; it does {ins:?}"), &f.file, f.line);
                    if !ok {
                        continue;
                    }
                    let to = if links[0].0 == "root(a)" { "b" } else { "a" };
                    let from = if to == "a" { "b" } else { "a" };
                    let value = finals.get(&format!("root({to})")).cloned();
                    // what the class must be worth: the known one of the two
                    let (vt, vf) = (some_of(to), some_of(from));
                    let txt = value.clone().unwrap_or_default();
                    let keeps = |n: &str| txt == format!("Value(val({n}))") || txt == format!("Value(Some(Some#0(val({n}))))");
                    let is_none = txt == "Value(None)";
                    let either = txt.contains("val(a)") && txt.contains("val(b)") && txt.contains("or(");
                    let ok = match (vt.as_deref(), vf.as_deref()) {
                        (Some("Some"), Some("Some")) => keeps(to) || keeps(from) || value.is_none(),
                        (Some("Some"), _) => keeps(to) || value.is_none() || either,
                        (Some("None"), Some("Some")) => keeps(from) || either,
                        (Some("None"), Some("None")) => is_none || value.is_none() || keeps(to) || keeps(from) || either,
                        (_, Some("Some")) => keeps(from) || either,
                        (_, Some("None")) => keeps(to) || value.is_none() || either,
                        _ => either || (keeps(from) && vt.as_deref() == Some("None")),
                    };
                    rep.ob(ok, format!("union:value:{}:{}", vt.clone().unwrap_or("?".into()), vf.clone().unwrap_or("?".into())), format!("when variables worth {vt:?} (root) and {vf:?} (linked) are joined, the root is worth {txt:?}: a known type is lost or invented"), &f.file, f.line);
                }
            }
        }
    }
    // a variable and a type
    if let Some(f) = need(r, rep, TABLE, Some("UnificationTable"), "unify_var_value") {
        let it = Interp::new(r, Trace { cfg: cfg(), panics: Default::default() });
        let ps = run(&it, f.id, Some(vec![it.sym("table", vec![]), it.sym("a", vec![]), it.sym("ty", vec![])]));
        rep.floor("paths of unify_var_value", ps.len(), 2);
        for p in &ps {
            let known = fact_is(&it, &p.st, |s| s == "val(a)");
            let ins: Vec<String> = p.st.events.iter().filter(|e| last(&e.name) == "insert").map(|e| format!("{} := {}", txt0(&it, &p.st, &e.args[0]), txt0(&it, &p.st, &e.args[1]))).collect();
            let ok = match known.as_deref() {
                Some("Some") => ins.is_empty(),
                _ => ins == ["root(a) := Value(Some(ty))"],
            };
            rep.ob(ok && known.is_some(), format!("value:{}", known.clone().unwrap_or("?".into())), format!("binding a variable worth {known:?} does {ins:?}"), &f.file, f.line);
        }
    }
    // following links
    let links = |upto: usize| {
        Cfg::new(|f: &FnInfo| f.file.ends_with(TABLE) && f.name == "resolve_to_root_var").cap(2000).unroll(Some(upto)).mhook(|it, _cx, st, c| {
            let rv = it.deref(st, &c.recv);
            let a: Vec<V> = c.args.iter().map(|x| it.deref(st, x)).collect();
            match c.name {
                "get" if a.len() == 1 => Some(vec![(st.clone(), Flow::Val(it.sym("at", vec![a[0].clone()])))]),
                "clone" | "to_owned" | "cloned" if c.args.is_empty() => Some(vec![(st.clone(), Flow::Val(rv))]),
                _ => None,
            }
        })
    };
    // at(x) is Some(Var(y)): y is the next one
    let chain = |it: &Interp<Trace>, st: &St<TW>| -> (String, Option<String>) {
        let mut x = "a".to_string();
        loop {
            let at = format!("at({x})");
            let some_ = fact_is(it, st, |s| s == at);
            let inner = format!("Some#0({at})");
            match some_.as_deref() {
                Some("Some") => match fact_is(it, st, |s| s == inner).as_deref() {
                    Some("Var") => x = format!("Var#0({inner})"),
                    Some("Value") => return (x, Some("Value".into())),
                    _ => return (x, st.facts.iter().any(|(t, f)| matches!(f, Fact::Not(..)) && txt0(it, st, &V::Sym(*t)) == inner).then(|| "Value".into())),
                },
                Some("None") => return (x, Some("None".into())),
                _ => return (x, None),
            }
        }
    };
    if let Some(f) = need(r, rep, TABLE, Some("UnificationTable"), "resolve_to_root_var") {
        let it = Interp::new(r, Trace { cfg: links(3), panics: Default::default() });
        let ps = run(&it, f.id, Some(vec![it.sym("table", vec![]), it.sym("a", vec![])]));
        rep.floor("paths of resolve_to_root_var", ps.len(), 3);
        for p in &ps {
            let (end, _) = chain(&it, &p.st);
            let got = txt0(&it, &p.st, &p.ret);
            rep.ob(got == end, "root", format!("the root of a variable is {got} where following the links ends at {end}"), &f.file, f.line);
        }
    }
    if let Some(f) = need(r, rep, TABLE, Some("UnificationTable"), "resolve_to_ty_value") {
        let it = Interp::new(r, Trace { cfg: links(3), panics: Default::default() });
        let ps = run(&it, f.id, Some(vec![it.sym("table", vec![]), it.sym("a", vec![])]));
        rep.floor("paths of resolve_to_ty_value", ps.len(), 3);
        for p in &ps {
            let (end, kind) = chain(&it, &p.st);
            let got = txt0(&it, &p.st, &p.ret);
            let value = format!("Value#0(Some#0(at({end})))");
            let ok = match kind.as_deref() {
                Some("Value") => got == value || (got == "None" && fact_is(&it, &p.st, |s| s == value).as_deref() == Some("None")) || (got == format!("Some(Some#0({value}))")),
                Some("None") => got == "None",
                _ => false,
            };
            rep.ob(ok, format!("value-of:{}", kind.clone().unwrap_or("?".into())), format!("a variable whose links end at {kind:?} is worth {got}"), &f.file, f.line);
        }
    }
    // snapshots
    let snap = |name: &str, rep: &mut Report, spec: &dyn Fn(&str, &str) -> bool, what: &str| {
        let Some(f) = need(r, rep, TABLE, Some("UnificationTable"), name) else { return };
        let it = Interp::new(r, Trace { cfg: Cfg::new(|f: &FnInfo| f.file.ends_with(TABLE)).mhook(|it, _cx, st, c| (c.name == "clone").then(|| vec![(st.clone(), Flow::Val(it.deref(st, &c.recv)))])), panics: Default::default() });
        let me = strukt("UnificationTable", vec![("mapping", it.sym("m0", vec![])), ("snapshots", list(vec![it.sym("s0", vec![]), it.sym("s1", vec![])]))]);
        let ps = run_self(&it, f.id, me, vec![]);
        rep.floor(&format!("paths of {name}"), ps.len(), 1);
        for (p, me) in ps {
            let (m, s) = (super::tree::field(&me, "mapping"), super::tree::field(&me, "snapshots"));
            let (m, s) = (m.map(|v| txt0(&it, &p.st, &v)).unwrap_or_default(), s.map(|v| txt0(&it, &p.st, &v)).unwrap_or_default());
            let touched = p.st.events.iter().any(|e| e.args.first().is_some_and(|a| txt0(&it, &p.st, a) == "m0") && last(&e.name) != "clone");
            rep.ob(spec(&m, &s) && !touched, name, format!("{what}; it leaves mapping {m} and snapshots {s}"), &f.file, f.line);
        }
    };
    snap("snapshot", rep, &|m, s| m == "m0" && s == "[s0, s1, m0]", "taking a snapshot keeps the table and remembers it on top");
    snap("rollback", rep, &|m, s| m == "s1" && s == "[s0]", "rolling back brings the last snapshot back and forgets it");
}

fn tables<'r>() -> Cfg<'r> {
    Cfg::new(|f: &FnInfo| (f.name == "integer" && in_lang(&f.file)) || (f.file.ends_with(COMBINE) || f.file.ends_with("inference/inference_result.rs")) && !matches!(f.name.as_str(), "combine_types" | "report_combine_error" | "intersect_types"))
        .cap(8000)
        .unroll(Some(2))
        .mhook(|it, cx, st, c| {
            let rv = it.deref(st, &c.recv);
            let a: Vec<V> = c.args.iter().map(|x| it.deref(st, x)).collect();
            let ret = |v: V| Some(vec![(st.clone(), Flow::Val(v))]);
            match c.name {
                "resolve_ty_infer_shallow" | "resolve_ty_infer" => ret(it.sym("now", vec![a.first()?.clone()])),
                "resolve_ty_vars_if_possible" | "fully_resolve_vars" => ret(it.sym("all_now", vec![a.first()?.clone()])),
                "resolve_to_root_var" => ret(it.sym("root", vec![a.first()?.clone()])),
                "resolve_to_ty_value" => ret(it.sym("val", vec![a.first()?.clone()])),
                "borrow" | "borrow_mut" | "get_mut" if c.args.is_empty() => ret(match (&c.recv, &c.place) {
                    (V::Ref(_), _) => c.recv.clone(),
                    (_, Some(p)) => V::Ref(p.clone()),
                    _ => rv,
                }),
                "clone" | "to_owned" | "refine_for_specs" | "into_inner" => ret(rv),
                "combine_types" => {
                    let mut s = st.clone();
                    s.event("combine_types", a, cx.func, c.line);
                    Some(vec![(s, Flow::Val(it.sym("combined", vec![V::Int(c.line as i128)])))])
                }
                "unify_var_value" | "unify_var_var" => {
                    let table = c.expr.map(|e| e.receiver.to_token_stream().to_string().replace(' ', "")).unwrap_or_default();
                    let which = if table.contains("int_table") { "int" } else if table.contains("var_table") { "var" } else { "?" };
                    let mut s = st.clone();
                    s.event(&format!("{which}:{}", c.name), a, cx.func, c.line);
                    Some(vec![(s, Flow::Val(V::Unit))])
                }
                "deep_visit_ty_infers" => {
                    let f = a.first()?.clone();
                    if matches!(&rv, V::Ctor(_, x) if x.is_empty()) {
                        return ret(V::Bool(false));
                    }
                    let i = it.sym("infer_in", vec![rv.clone()]);
                    // what the closure does with one of the variables inside
                    let mut out = vec![];
                    for (s, fl) in it.apply(cx, &f, vec![i], st.clone(), c.line) {
                        match fl {
                            Flow::Val(v) => {
                                let v = it.deref(&s, &v);
                                match v {
                                    V::Bool(true) => out.push((s, Flow::Val(V::Bool(true)))),
                                    V::Bool(false) => out.push((s, Flow::Val(V::Bool(false)))),
                                    x => out.push((s, Flow::Val(it.sym("some_infer", vec![x])))),
                                }
                            }
                            other => out.push((s, other)),
                        }
                    }
                    Some(out)
                }
                _ => None,
            }
        })
}
/// `s` names a variable that has no type yet: it was found by looking its type up on this very path
fn unbound(s: &str) -> bool {
    let s = strip_root(s);
    let inner = |p: &str| s.strip_prefix(p).is_some();
    let core = s.trim_start_matches("Var#0(").trim_start_matches("IntVar#0(").trim_start_matches("Infer#0(");
    (inner("Var#0(") || inner("IntVar#0(")) && (core.starts_with("now(") || core.starts_with("infer_in(all_now("))
}
fn bindings(r: &Repo, rep: &mut Report) {
    let mut binds = 0;
    let mut roots: Vec<&FnInfo> = vec![];
    for (file, name) in [(COMBINE, "combine_types"), ("inference/inference_result.rs", "unify_remaining_int_vars_into_integer")] {
        if let Some(f) = need(r, rep, file, None, name) {
            roots.push(f);
        }
    }
    if let Some(f) = need(r, rep, COMBINE, None, "unify_ty_vars_with_unknown") {
        roots.push(f);
    }
    let mut covered: HashSet<usize> = HashSet::new();
    for f in roots {
        let it = Interp::new(r, Trace { cfg: tables(), panics: Default::default() });
        let args = match f.name.as_str() {
            "combine_types" => Some(vec![it.sym("ctx", vec![]), it.sym("expected", vec![]), it.sym("actual", vec![])]),
            "unify_ty_vars_with_unknown" => Some(vec![it.sym("ctx", vec![]), list(vec![it.sym("t0", vec![]), it.sym("t1", vec![])])]),
            _ => None,
        };
        // combine_no_vars ends in combine_types again: from here it is one step
        let ps = run(&it, f.id, args);
        rep.floor(&format!("paths of {}", f.name), ps.len(), 2);
        rep.ob(it.overflow.borrow().is_empty(), format!("{}:paths", f.name), format!("too many paths through {}", f.name), &f.file, f.line);
        for p in &ps {
            let mut before: Vec<String> = vec![];
            for e in p.st.events.iter() {
                let Some((which, what)) = e.name.split_once(':') else { continue };
                if !matches!(what, "unify_var_value" | "unify_var_var") {
                    continue;
                }
                binds += 1;
                covered.insert(e.line);
                let g = &r.fns[e.func];
                let v = txt0(&it, &p.st, &e.args[0]);
                let t = txt0(&it, &p.st, &e.args[1]);
                let free = |v: &str| unbound(v) || p.st.facts.iter().any(|(x, k)| matches!(k, Fact::Is(n, ..) if &**n == "None") && txt0(&it, &p.st, &V::Sym(*x)) == format!("val({v})"));
                let constant = t == "Unknown" || (which == "int" && !t.contains('(')) || t == "Integer(Integer)" || t.starts_with("Ty::integer");
                rep.ob(
                    free(&v),
                    format!("{}:{what}:{which}:stale", g.name),
                    format!("{} binds a variable ({v}) that it has not just looked up: when the variable has a type already, unification panics", g.short()),
                    &g.file,
                    e.line,
                );
                if what == "unify_var_var" {
                    rep.ob(free(&t), format!("{}:{what}:{which}:other", g.name), format!("{} joins a variable with {t}, which it has not just looked up: it may have a type already", g.short()), &g.file, e.line);
                }
                // an earlier binding on the same path may have given this variable its type
                rep.ob(before.is_empty() || (constant && before.iter().all(|b| *b == t)), format!("{}:{what}:{which}:after", g.name), format!("{} binds a variable after another binding without looking it up again", g.short()), &g.file, e.line);
                before.push(t.clone());
                if what != "unify_var_value" {
                    continue;
                }
                if which == "int" {
                    let ok = constant || fact_is(&it, &p.st, |s| s == t).as_deref() == Some("Integer") || t.starts_with("Integer(");
                    rep.ob(ok, format!("{}:int-value", g.name), format!("{} makes an integer variable worth {t}, which may be no integer type", g.short()), &g.file, e.line);
                } else if t != "Unknown" {
                    // not inside itself, even through other variables
                    let root = strip_root(&v);
                    let facts = bool_facts(&it, &p.st);
                    let not_var = p.st.facts.iter().any(|(x, k)| txt0(&it, &p.st, &V::Sym(*x)).contains(&format!("infer_in(all_now({t}))")) && !matches!(k, Fact::Is(n, ..) if &**n == "Var") && !matches!(k, Fact::Bool(_)));
                    let differs = facts.iter().any(|(s, b)| {
                        let eq = s.contains("root(Var#0(infer_in(all_now(") && s.contains(&format!("all_now({t})")) && s.contains(&format!("root({root})"));
                        eq && (if s.contains("ne(") { *b } else { !*b })
                    });
                    let leaf = fact_is(&it, &p.st, |s| s == t).is_some_and(|k| matches!(k.as_str(), "Bool" | "Integer" | "Unit" | "Never"));
                    rep.ob(
                        not_var || differs || leaf,
                        format!("{}:occurs", g.name),
                        format!("{} makes a variable worth {t} without making sure that the type, its own variables looked up, does not contain the variable: resolving it then never ends", g.short()),
                        &g.file,
                        e.line,
                    );
                }
            }
        }
    }
    rep.floor("bindings of type variables on paths", binds, 8);
    // nobody else binds
    struct Vis {
        out: Vec<usize>,
    }
    impl<'ast> syn::visit::Visit<'ast> for Vis {
        fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
            if matches!(m.method.to_string().as_str(), "unify_var_value" | "unify_var_var") {
                self.out.push(syn::spanned::Spanned::span(&m.method).start().line);
            }
            syn::visit::visit_expr_method_call(self, m);
        }
    }
    let mut sites = 0;
    for f in r.fns.iter().filter(|f| !f.file.contains("/tests")) {
        let mut v = Vis { out: vec![] };
        syn::visit::Visit::visit_block(&mut v, f.block);
        for l in v.out {
            sites += 1;
            rep.ob(covered.contains(&l) && (f.file.ends_with(COMBINE) || f.file.ends_with("inference_result.rs")), format!("{}:elsewhere", f.name), format!("{} binds a type variable on no path from combine_types that was examined", f.short()), &f.file, l);
        }
    }
    rep.count("binding call sites", sites);
}
/// trial comparisons leave no trace
fn trials(r: &Repo, rep: &mut Report) {
    let ev_of = |file: &str, name: &str, rep: &mut Report, inline: &'static [&'static str]| -> Option<(Vec<Vec<String>>, String, usize)> {
        let f = need(r, rep, file, None, name)?;
        let cfg = Cfg::new(move |g: &FnInfo| inline.contains(&g.name.as_str()) && in_lang(&g.file)).cap(500).mhook(|it, cx, st, c| {
            let rv = it.deref(st, &c.recv);
            if matches!(c.name, "snapshot" | "rollback") {
                let mut s = st.clone();
                s.event(&format!("{}:{}", c.name, txt0(it, st, &rv)), vec![], cx.func, c.line);
                return Some(vec![(s, Flow::Val(V::Unit))]);
            }
            if c.name == "combine_types" {
                let mut s = st.clone();
                s.event("combine_types", vec![], cx.func, c.line);
                return Some(vec![(s, Flow::Val(it.sym("combined", vec![])))]);
            }
            None
        });
        let it = Interp::new(r, Trace { cfg, panics: Default::default() });
        let t = run(&it, f.id, None);
        Some((t.iter().map(|p| p.st.events.iter().map(|e| e.name.to_string()).collect()).collect(), f.file.clone(), f.line))
    };
    if let Some((ps, file, line)) = ev_of("types/inference.rs", "freeze", rep, &[]) {
        rep.floor("paths of freeze", ps.len(), 1);
        for evs in ps {
            let pos = |k: &str, t: &str| evs.iter().positions_of(|e| e.starts_with(k) && e.contains(t));
            for t in ["var_table", "int_table"] {
                let (s, b) = (pos("snapshot", t), pos("rollback", t));
                // whatever else happens, happens in between
                let call = evs.iter().position(|e| !e.starts_with("snapshot") && !e.starts_with("rollback") && e != "clone");
                let lastc = evs.iter().rposition(|e| !e.starts_with("snapshot") && !e.starts_with("rollback") && e != "clone");
                let ok = s.len() == 1 && b.len() == 1 && call.is_some_and(|c| s[0] < c) && lastc.is_some_and(|c| b[0] > c);
                rep.ob(ok, format!("freeze:{t}"), format!("a trial must save {t} once before and restore it once after: {evs:?}"), &file, line);
            }
        }
    }
    if let Some((ps, file, line)) = ev_of(COMBINE, "is_tys_compatible", rep, &["freeze"]) {
        for evs in ps {
            let open = |i: usize, t: &str| evs[..i].iter().filter(|e| e.starts_with("snapshot") && e.contains(t)).count() > evs[..i].iter().filter(|e| e.starts_with("rollback") && e.contains(t)).count();
            for (i, e) in evs.iter().enumerate() {
                if e == "combine_types" {
                    rep.ob(open(i, "var_table") && open(i, "int_table"), "compatible:frozen", "asking whether two types are compatible binds variables for good", &file, line);
                }
            }
        }
    }
}
trait Positions: Iterator + Sized {
    fn positions_of(self, f: impl Fn(&Self::Item) -> bool) -> Vec<usize> {
        self.enumerate().filter(|(_, x)| f(x)).map(|(i, _)| i).collect()
    }
}
impl<I: Iterator> Positions for I {}
/// what a variable stands for right now
fn lookup(r: &Repo, rep: &mut Report) {
    let Some(f) = need(r, rep, "types/inference.rs", None, "resolve_ty_infer") else { return };
    let cfg = Cfg::new(|_| false).cap(500).mhook(|it, _cx, st, c| {
        let rv = it.deref(st, &c.recv);
        match c.name {
            "resolve_to_ty_value" => {
                let t = c.expr.map(|e| e.receiver.to_token_stream().to_string()).unwrap_or_default();
                Some(vec![(st.clone(), Flow::Val(it.sym(if t.contains("int_table") { "intval" } else { "val" }, vec![it.deref(st, c.args.first()?)])))])
            }
            "clone" | "to_owned" => Some(vec![(st.clone(), Flow::Val(rv))]),
            _ => None,
        }
    });
    let it = Interp::new(r, Trace { cfg, panics: Default::default() });
    for (k, tbl) in [("IntVar", "intval"), ("Var", "val")] {
        let arg = ctor(k, vec![it.sym("v", vec![])]);
        let ps = run(&it, f.id, Some(vec![it.sym("ctx", vec![]), arg]));
        rep.floor(&format!("paths of resolve_ty_infer on {k}"), ps.len(), 2);
        for p in &ps {
            let is = |s: &str| fact_is(&it, &p.st, |x| x == s);
            let got = txt0(&it, &p.st, &p.ret);
            let val = format!("{tbl}(v)");
            let v0 = format!("Some#0({val})");
            let own = format!("Infer({k}(v))");
            let int_of = format!("IntVar#0(Infer#0({v0}))");
            let unwraps = |x: &str| got == format!("Some#0({x})") || got.starts_with("unwrap") && got.contains(x);
            let want_self = is(&val).as_deref() == Some("None");
            let nested = k == "Var" && is(&v0).as_deref() == Some("Infer") && is(&format!("Infer#0({v0})")).as_deref() == Some("IntVar");
            let ok = if want_self {
                got == own
            } else if nested {
                match is(&format!("intval({int_of})")).as_deref() {
                    Some("Some") => unwraps(&format!("intval({int_of})")),
                    Some("None") => unwraps(&val),
                    _ => got.contains(&format!("intval({int_of})")) && got.contains(&val),
                }
            } else {
                let looked = k == "IntVar" || p.st.facts.iter().any(|(t, f)| {
                    let s = txt0(&it, &p.st, &V::Sym(*t));
                    (s == v0 || s == format!("Infer#0({v0})")) && (matches!(f, Fact::Not(..)) || matches!(f, Fact::Is(n, ..) if &**n != "Infer" && &**n != "IntVar"))
                });
                looked && is(&val).as_deref() == Some("Some") && unwraps(&val) || is(&val).is_none() && got.contains(&val) && got.contains(&own)
            };
            rep.ob(ok, format!("lookup:{k}:{}", if want_self { "unbound" } else if nested { "int" } else { "bound" }), format!("looking up a {k} variable gives {got}"), &f.file, f.line);
        }
    }
}
pub fn d07(r: &Repo, _t: bool) -> Report {
    let mut rep = Report::new("the union-find table joins roots and keeps what is known; every binding of a variable is of one looked up on the same path, to a type shown not to contain it after its own variables were looked up; trial comparisons save and restore both tables");
    union_find(r, &mut rep);
    bindings(r, &mut rep);
    trials(r, &mut rep);
    lookup(r, &mut rep);
    rep
}
