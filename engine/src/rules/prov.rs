//! Where values come from: a flow-insensitive derivation analysis inside one function. Each
//! expression gets a canonical name, the set of names it is computed from, the files whose line
//! index / URL it was made with, and the file that owns it.
use crate::repo::*;
use quote::ToTokens;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use syn::*;

#[derive(Clone, Default, Debug)]
pub struct Val {
    pub canon: String,
    pub deps: Rc<BTreeSet<String>>,
    /// files whose line index went into this value
    pub idx: BTreeSet<String>,
    /// files whose URL went into this value
    pub url: BTreeSet<String>,
    /// the file id that lives next to this value
    pub owner: Option<String>,
    pub ty: Option<String>,
    pub fields: Rc<BTreeMap<String, Val>>,
}
/// a call seen, with what its receiver and arguments are
pub struct Call {
    pub name: String,
    pub line: usize,
    pub recv: Option<Val>,
    pub args: Vec<Val>,
}
/// a value put together from parts (struct literal, tuple, constructor call)
pub struct Made {
    pub what: String,
    pub line: usize,
    pub parts: Vec<(String, Val)>,
}
pub struct Prov<'r> {
    pub repo: &'r Repo,
    pub calls: RefCell<Vec<Call>>,
    pub made: RefCell<Vec<Made>>,
    /// what each file (as named in `idx` / `url`) is computed from
    pub file_deps: RefCell<BTreeMap<String, Rc<BTreeSet<String>>>>,
    env: RefCell<Vec<(String, Val)>>,
    depth: std::cell::Cell<usize>,
}
const WRAP: &[&str] = &["Option", "Result", "Vec", "Arc", "Rc", "Box", "Cancellable", "Cow", "Ref", "IntoIter", "Iter", "SmallVec", "HashSet", "BTreeSet"];
pub fn inner_ty(t: &Type) -> Option<String> {
    match t {
        Type::Reference(r) => inner_ty(&r.elem),
        Type::Paren(r) => inner_ty(&r.elem),
        Type::Slice(r) => inner_ty(&r.elem),
        Type::Array(r) => inner_ty(&r.elem),
        Type::Path(p) => {
            let s = p.path.segments.last()?;
            let n = s.ident.to_string();
            if WRAP.contains(&n.as_str()) {
                if let PathArguments::AngleBracketed(a) = &s.arguments {
                    for x in &a.args {
                        if let GenericArgument::Type(t) = x {
                            return inner_ty(t);
                        }
                    }
                }
            }
            Some(n)
        }
        Type::ImplTrait(i) => i.bounds.iter().find_map(|b| match b {
            TypeParamBound::Trait(t) => {
                let s = t.path.segments.last()?;
                let PathArguments::AngleBracketed(a) = &s.arguments else { return None };
                a.args.iter().find_map(|x| match x {
                    GenericArgument::AssocType(t) => inner_ty(&t.ty),
                    _ => None,
                })
            }
            _ => None,
        }),
        _ => None,
    }
}
/// adapters that keep what a value is
const KEEP: &[&str] = &[
    "clone", "cloned", "copied", "unwrap", "expect", "unwrap_or_default", "iter", "into_iter", "iter_mut", "as_ref", "as_mut", "as_deref", "to_owned", "borrow", "ok", "collect", "collect_vec", "rev", "peekable", "filter", "find", "take", "skip", "next", "last", "first", "into", "as_slice", "to_vec", "sorted_by_key", "unique", "nth", "take_while", "skip_while", "inspect",
    "sorted", "min", "max", "flatten", "or", "as_deref_mut", "by_ref", "dedup", "enumerate",
];
impl<'r> Prov<'r> {
    pub fn new(repo: &'r Repo) -> Self {
        Prov { repo, calls: Default::default(), made: Default::default(), file_deps: Default::default(), env: Default::default(), depth: Default::default() }
    }
    pub fn has_file_id(&self, ty: &str) -> bool {
        self.repo.structs.iter().any(|s| s.name == ty && s.item.fields.iter().any(|f| f.ident.as_ref().is_some_and(|i| i == "file_id")))
    }
    fn field_ty(&self, ty: &str, f: &str) -> Option<String> {
        let mut c = self.repo.structs.iter().filter(|s| s.name == ty);
        let s = c.next()?;
        if c.next().is_some() {
            return None;
        }
        s.item.fields.iter().find(|x| x.ident.as_ref().is_some_and(|i| i == f)).and_then(|x| inner_ty(&x.ty))
    }
    fn ret_ty(&self, name: &str, krate: Option<&str>) -> Option<String> {
        let _ = krate;
        let mut res: Option<String> = None;
        for f in self.repo.find_fns(name) {
            let t = match &f.sig.output {
                ReturnType::Type(_, t) => inner_ty(t),
                _ => None,
            }?;
            let t = if t == "Self" { f.self_ty.clone()? } else { t };
            match &res {
                Some(x) if *x != t => return None,
                _ => res = Some(t),
            }
        }
        res
    }
    pub fn run(&self, f: &FnInfo) {
        for (n, t) in f.params() {
            let mut d = BTreeSet::new();
            d.insert(n.clone());
            self.env.borrow_mut().push((n.clone(), Val { canon: n, deps: Rc::new(d), ty: inner_ty(t), ..Default::default() }));
        }
        for a in &f.sig.inputs {
            if let FnArg::Typed(t) = a {
                if !matches!(&*t.pat, Pat::Ident(_)) {
                    let v = self.named("arg".into(), &[]);
                    self.bind(&t.pat, v);
                }
            }
        }
        if f.has_self() {
            let v = Val { ty: f.self_ty.clone(), ..self.named("self".into(), &[]) };
            self.env.borrow_mut().push(("self".into(), v));
        }
        self.block(f.block);
    }
    fn named(&self, canon: String, from: &[&Val]) -> Val {
        let mut d: BTreeSet<String> = BTreeSet::new();
        let mut v = Val::default();
        for x in from {
            d.extend(x.deps.iter().cloned());
            v.idx.extend(x.idx.iter().cloned());
            v.url.extend(x.url.iter().cloned());
        }
        if canon.len() < 400 {
            d.insert(canon.clone());
        }
        v.canon = canon;
        v.deps = Rc::new(d);
        v
    }
    fn block(&self, b: &Block) -> Val {
        let n = self.env.borrow().len();
        let mut r = self.named("()".into(), &[]);
        for s in &b.stmts {
            r = match s {
                Stmt::Local(l) => {
                    if let Some(i) = &l.init {
                        let v = self.eval(&i.expr);
                        if let Some((_, d)) = &i.diverge {
                            self.eval(d);
                        }
                        self.bind(&l.pat, v);
                    } else {
                        let v = self.named("?".into(), &[]);
                        self.bind(&l.pat, v);
                    }
                    self.named("()".into(), &[])
                }
                Stmt::Expr(e, _) => self.eval(e),
                Stmt::Macro(m) => self.mac(&m.mac),
                _ => self.named("()".into(), &[]),
            };
        }
        self.pop(n);
        r
    }
    /// leave a scope; what was learnt about outer variables by mutation stays
    fn pop(&self, n: usize) {
        self.env.borrow_mut().truncate(n);
    }
    fn mac(&self, m: &Macro) -> Val {
        let mut vs = vec![];
        if let Ok(a) = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) {
            for e in a.iter() {
                vs.push(self.eval(e));
            }
        }
        if vs.len() == 1 {
            return vs.remove(0);
        }
        let r: Vec<&Val> = vs.iter().collect();
        self.named(format!("{}!", m.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default()), &r)
    }
    pub fn lookup(&self, n: &str) -> Option<Val> {
        self.env.borrow().iter().rev().find(|(x, _)| x == n).map(|(_, v)| v.clone())
    }
    fn taint(&self, e: &Expr, v: &Val) {
        // a mutation of the variable at the root of a place
        let mut e = e;
        loop {
            match e {
                Expr::Field(f) => e = &f.base,
                Expr::Index(f) => e = &f.expr,
                Expr::Unary(f) => e = &f.expr,
                Expr::Paren(f) => e = &f.expr,
                Expr::Reference(f) => e = &f.expr,
                Expr::MethodCall(f) => e = &f.receiver,
                Expr::Path(p) if p.path.segments.len() == 1 => {
                    let n = p.path.segments[0].ident.to_string();
                    let mut env = self.env.borrow_mut();
                    if let Some((_, x)) = env.iter_mut().rev().find(|(x, _)| *x == n) {
                        let mut d = (*x.deps).clone();
                        d.extend(v.deps.iter().cloned());
                        x.deps = Rc::new(d);
                        x.idx.extend(v.idx.iter().cloned());
                        x.url.extend(v.url.iter().cloned());
                        if x.canon == "?" {
                            x.owner = v.owner.clone();
                            x.ty = v.ty.clone();
                        }
                    }
                    return;
                }
                _ => return,
            }
        }
    }
    fn part(&self, v: &Val, f: &str) -> Val {
        if let Some(x) = v.fields.get(f) {
            return x.clone();
        }
        let mut r = self.named(format!("{}.{f}", v.canon), &[v]);
        r.ty = v.ty.as_ref().and_then(|t| self.field_ty(t, f));
        r.owner = match &v.ty {
            Some(t) if self.has_file_id(t) && f != "file_id" => Some(v.fields.get("file_id").map(|x| x.canon.clone()).unwrap_or(format!("{}.file_id", v.canon))),
            _ => v.owner.clone(),
        };
        r
    }
    fn bind(&self, p: &Pat, v: Val) {
        match p {
            Pat::Ident(i) => {
                if let Some((_, s)) = &i.subpat {
                    self.bind(s, v.clone());
                }
                self.env.borrow_mut().push((i.ident.to_string(), v));
            }
            Pat::Reference(r) => self.bind(&r.pat, v),
            Pat::Paren(r) => self.bind(&r.pat, v),
            Pat::Type(r) => {
                let mut v = v;
                if v.ty.is_none() {
                    v.ty = inner_ty(&r.ty).filter(|t| t != "_");
                }
                self.bind(&r.pat, v)
            }
            Pat::Tuple(t) => {
                for (i, p) in t.elems.iter().enumerate() {
                    let x = self.part(&v, &i.to_string());
                    self.bind(p, x);
                }
            }
            Pat::TupleStruct(t) => {
                let n = t.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
                for (i, p) in t.elems.iter().enumerate() {
                    if n == "Some" || n == "Ok" || n == "Err" || n == "Continue" || n == "Break" {
                        self.bind(p, v.clone());
                    } else {
                        let x = self.part(&v, &format!("{n}{i}"));
                        self.bind(p, x);
                    }
                }
            }
            Pat::Struct(t) => {
                let n = t.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
                let mut v = v;
                if v.ty.is_none() && self.repo.structs.iter().any(|s| s.name == n) {
                    v.ty = Some(n);
                }
                for f in &t.fields {
                    let x = self.part(&v, &f.member.to_token_stream().to_string());
                    self.bind(&f.pat, x);
                }
            }
            Pat::Slice(t) => {
                for p in &t.elems {
                    self.bind(p, v.clone());
                }
            }
            Pat::Or(o) => {
                if let Some(p) = o.cases.first() {
                    self.bind(p, v);
                }
            }
            _ => {}
        }
    }
    fn all(&self, es: Vec<&Expr>) -> Vec<Val> {
        es.into_iter().map(|e| self.eval(e)).collect()
    }
    fn join(&self, name: &str, vs: &[Val]) -> Val {
        let r: Vec<&Val> = vs.iter().collect();
        if vs.len() == 1 {
            return vs[0].clone();
        }
        let mut v = self.named(name.into(), &r);
        let real: Vec<&Val> = vs.iter().filter(|v| v.canon != "()" && v.canon != "None" && v.canon != "!").collect();
        if real.len() == 1 {
            let mut x = real[0].clone();
            x.deps = v.deps;
            x.idx = v.idx;
            x.url = v.url;
            return x;
        }
        if !real.is_empty() && real.iter().all(|x| x.owner == real[0].owner) {
            v.owner = real[0].owner.clone();
        }
        if !real.is_empty() && real.iter().all(|x| x.ty == real[0].ty) {
            v.ty = real[0].ty.clone();
        }
        v
    }
    fn apply(&self, e: &Expr, args: &[Val]) -> Val {
        match e {
            Expr::Closure(c) => {
                let n = self.env.borrow().len();
                for (i, p) in c.inputs.iter().enumerate() {
                    let v = args.get(i).or(args.last()).cloned().unwrap_or_default();
                    self.bind(p, v);
                }
                let r = self.eval(&c.body);
                self.pop(n);
                r
            }
            Expr::Path(p) => {
                let name = p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
                self.call(&name, line_of(p), args.to_vec(), self.joined(p))
            }
            e => self.eval(e),
        }
    }
    fn through(&self, name: &str, args: &[Val]) -> Option<Val> {
        let mut c = self.repo.by_name.get(name)?.iter().map(|i| &self.repo.fns[*i]);
        let f = c.next()?;
        let ReturnType::Type(_, t) = &f.sig.output else { return None };
        let n = f.params().len() + f.has_self() as usize;
        if c.next().is_some() || name == "file_line_index" || n != args.len() || !t.to_token_stream().to_string().split(|c: char| !c.is_alphanumeric()).any(|w| w == "LineIndex") || self.depth.get() > 3 {
            return None;
        }
        let outer = std::mem::take(&mut *self.env.borrow_mut());
        let mut it = args.iter();
        if f.has_self() {
            self.env.borrow_mut().push(("self".into(), it.next()?.clone()));
        }
        for ((n, _), a) in f.params().into_iter().zip(it) {
            self.env.borrow_mut().push((n, a.clone()));
        }
        self.depth.set(self.depth.get() + 1);
        let v = self.block(f.block);
        self.depth.set(self.depth.get() - 1);
        *self.env.borrow_mut() = outer;
        Some(v)
    }
    fn joined(&self, p: &ExprPath) -> String {
        p.path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::")
    }
    fn call(&self, name: &str, line: usize, args: Vec<Val>, full: String) -> Val {
        let refs: Vec<&Val> = args.iter().collect();
        if matches!(name, "Some" | "Ok" | "Err") && args.len() == 1 {
            return args[0].clone();
        }
        // a helper that hands out a line index is looked through
        if let Some(v) = self.through(name, &args) {
            return v;
        }
        let mut v = self.named(format!("{}({})", name, args.iter().map(|a| a.canon.as_str()).collect::<Vec<_>>().join(",")), &refs);
        v.ty = self.ret_ty(name, None);
        // the protocol's ways of naming a file: all go through file_id(uri)
        let uri = match (name, args.len()) {
            ("file_position", 2) => Some(format!("{}.text_document.uri", args[1].canon)),
            ("file_range", 3) => Some(format!("{}.uri", args[1].canon)),
            ("file_range_uri", 3) => Some(args[1].canon.clone()),
            _ => None,
        };
        if let Some(u) = uri {
            let file = self.named(format!("file_id({},{u})", args[0].canon), &refs[..2]);
            let mut d = (*v.deps).clone();
            d.insert(file.canon.clone());
            v.deps = Rc::new(d);
            v.fields = Rc::new([("file_id".to_string(), file)].into());
        }
        let cap = name.chars().next().is_some_and(|c| c.is_uppercase());
        if cap || name == "new" || name.starts_with("from") {
            if cap || full.split("::").count() > 1 {
                self.made.borrow_mut().push(Made { what: full, line, parts: args.iter().enumerate().map(|(i, a)| (i.to_string(), a.clone())).collect() });
            }
            if v.ty.is_none() && args.len() == 1 {
                v.owner = args[0].owner.clone();
            }
        }
        self.files(name, &args, &mut v);
        self.calls.borrow_mut().push(Call { name: name.into(), line, recv: None, args });
        v
    }
    /// a line index / URL of a file
    fn files(&self, name: &str, args: &[Val], v: &mut Val) {
        if matches!(name, "file_line_index" | "url" | "file_id_to_url") {
            if let Some(a) = args.last() {
                self.file_deps.borrow_mut().insert(a.canon.clone(), a.deps.clone());
            }
        }
        match name {
            "file_line_index" if args.len() == 1 => v.idx = [args[0].canon.clone()].into(),
            "url" if args.len() == 2 => v.url = [args[1].canon.clone()].into(),
            "file_id_to_url" if args.len() == 1 => v.url = [args[0].canon.clone()].into(),
            _ => {}
        }
    }
    pub fn eval(&self, e: &Expr) -> Val {
        match e {
            Expr::Path(p) => {
                if p.path.segments.len() == 1 {
                    if let Some(v) = self.lookup(&p.path.segments[0].ident.to_string()) {
                        return v;
                    }
                }
                let s = self.joined(p);
                Val { canon: s, ..Default::default() }
            }
            Expr::Paren(x) => self.eval(&x.expr),
            Expr::Group(x) => self.eval(&x.expr),
            Expr::Reference(x) => self.eval(&x.expr),
            Expr::Unary(x) => self.eval(&x.expr),
            Expr::Try(x) => self.eval(&x.expr),
            Expr::Cast(x) => self.eval(&x.expr),
            Expr::Await(x) => self.eval(&x.base),
            Expr::Field(f) => {
                let b = self.eval(&f.base);
                self.part(&b, &f.member.to_token_stream().to_string())
            }
            Expr::Index(i) => {
                let b = self.eval(&i.expr);
                let x = self.eval(&i.index);
                let mut v = self.named(format!("{}[{}]", b.canon, x.canon), &[&b, &x]);
                v.ty = b.ty;
                v.owner = b.owner;
                v
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                let r = self.eval(&m.receiver);
                let clos = m.args.iter().any(|a| matches!(a, Expr::Closure(_)) || matches!(a, Expr::Path(p) if p.path.segments.len() > 1 || p.path.get_ident().is_some_and(|i| self.lookup(&i.to_string()).is_none())));
                let mut args = vec![];
                let mut res = vec![];
                if clos {
                    let acc: Vec<Val> = m.args.iter().filter(|a| !matches!(a, Expr::Closure(_))).map(|a| self.eval(a)).collect();
                    for a in &m.args {
                        if matches!(a, Expr::Closure(_) | Expr::Path(_)) && !matches!(a, Expr::Path(p) if p.path.get_ident().is_some_and(|i| self.lookup(&i.to_string()).is_some())) {
                            let mut el = r.clone();
                            if matches!(name.as_str(), "fold" | "try_fold") {
                                let mut x = vec![acc.first().cloned().unwrap_or_default()];
                                x.push(el);
                                res.push(self.apply(a, &x));
                                continue;
                            }
                            if m.receiver.to_token_stream().to_string().contains("enumerate") {
                                el = r.clone();
                            }
                            res.push(self.apply(a, &[el]));
                        }
                    }
                    args.extend(acc);
                } else {
                    args = self.all(m.args.iter().collect());
                }
                if !clos {
                    let all: Vec<Val> = std::iter::once(r.clone()).chain(args.iter().cloned()).collect();
                    if let Some(v) = self.through(&name, &all) {
                        return v;
                    }
                }
                let maps = matches!(name.as_str(), "map" | "filter_map" | "flat_map" | "and_then" | "then" | "map_or" | "map_or_else" | "scan" | "find_map" | "fold" | "try_fold" | "unwrap_or_else" | "or_else" | "unwrap_or" | "with_context" | "then_some");
                let mut refs: Vec<&Val> = vec![&r];
                refs.extend(args.iter());
                refs.extend(res.iter());
                let mut v;
                if maps && !res.is_empty() && !matches!(name.as_str(), "unwrap_or_else" | "or_else" | "with_context") {
                    v = self.named(res[res.len() - 1].canon.clone(), &refs);
                    v.ty = res[res.len() - 1].ty.clone();
                    v.owner = res[res.len() - 1].owner.clone();
                    v.fields = res[res.len() - 1].fields.clone();
                } else if KEEP.contains(&name.as_str()) || matches!(name.as_str(), "unwrap_or_else" | "or_else" | "with_context" | "unwrap_or" | "context") {
                    v = self.named(r.canon.clone(), &refs);
                    v.ty = r.ty.clone();
                    v.owner = r.owner.clone();
                    v.fields = r.fields.clone();
                } else {
                    v = self.named(format!("{}.{name}({})", r.canon, args.iter().map(|a| a.canon.as_str()).collect::<Vec<_>>().join(",")), &refs);
                    v.ty = self.ret_ty(&name, None);
                    v.owner = match &r.ty {
                        Some(t) if self.has_file_id(t) => Some(r.fields.get("file_id").map(|x| x.canon.clone()).unwrap_or(format!("{}.file_id", r.canon))),
                        _ => r.owner.clone(),
                    };
                }
                self.files(&name, &args, &mut v);
                // mutation of the receiver
                if matches!(name.as_str(), "push" | "extend" | "insert" | "push_str" | "push_back" | "entry" | "append" | "get_or_insert_with" | "replace" | "or_default" | "or_insert_with" | "or_insert") {
                    let a: Vec<&Val> = args.iter().chain(res.iter()).collect();
                    let x = self.named("mut".into(), &a);
                    self.taint(&m.receiver, &x);
                }
                self.calls.borrow_mut().push(Call { name, line: line_of(&m.method), recv: Some(r), args });
                v
            }
            Expr::Call(c) => {
                let args: Vec<Val> = c.args.iter().map(|a| self.eval(a)).collect();
                match &*c.func {
                    Expr::Path(p) => {
                        let n = p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
                        if p.path.segments.len() == 1 && self.lookup(&n).is_some() {
                            let f = self.lookup(&n).unwrap();
                            let mut r: Vec<&Val> = args.iter().collect();
                            r.push(&f);
                            return self.named(format!("{n}(..)"), &r);
                        }
                        self.call(&n, line_of(p), args, self.joined(p))
                    }
                    f => {
                        let f = self.eval(f);
                        let mut r: Vec<&Val> = args.iter().collect();
                        r.push(&f);
                        self.named("call".into(), &r)
                    }
                }
            }
            Expr::Struct(s) => {
                let n = s.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
                let mut fs = BTreeMap::new();
                let mut parts = vec![];
                for f in &s.fields {
                    let v = self.eval(&f.expr);
                    let k = f.member.to_token_stream().to_string();
                    parts.push((k.clone(), v.clone()));
                    fs.insert(k, v);
                }
                if let Some(r) = &s.rest {
                    parts.push(("..".into(), self.eval(r)));
                }
                let refs: Vec<&Val> = parts.iter().map(|p| &p.1).collect();
                let mut v = self.named(format!("{n}{{{}}}", parts.iter().map(|p| p.1.canon.as_str()).collect::<Vec<_>>().join(",")), &refs);
                v.ty = Some(n.clone());
                v.fields = Rc::new(fs);
                self.made.borrow_mut().push(Made { what: n, line: line_of(&s.path), parts });
                v
            }
            Expr::Tuple(t) => {
                let vs = self.all(t.elems.iter().collect());
                let parts: Vec<(String, Val)> = vs.iter().enumerate().map(|(i, v)| (i.to_string(), v.clone())).collect();
                let refs: Vec<&Val> = vs.iter().collect();
                let mut v = self.named(format!("({})", vs.iter().map(|a| a.canon.as_str()).collect::<Vec<_>>().join(",")), &refs);
                v.fields = Rc::new(parts.iter().cloned().collect());
                self.made.borrow_mut().push(Made { what: "tuple".into(), line: line_of(t), parts });
                v
            }
            Expr::Array(a) => {
                let vs = self.all(a.elems.iter().collect());
                self.join("[]", &vs)
            }
            Expr::Block(b) => self.block(&b.block),
            Expr::Unsafe(b) => self.block(&b.block),
            Expr::If(i) => {
                let n = self.env.borrow().len();
                let c = self.eval(&i.cond);
                let t = self.block(&i.then_branch);
                self.pop(n);
                let e = i.else_branch.as_ref().map(|e| self.eval(&e.1));
                let mut vs = vec![t];
                vs.extend(e);
                let _ = c;
                self.join("if", &vs)
            }
            Expr::Let(l) => {
                let v = self.eval(&l.expr);
                self.bind(&l.pat, v.clone());
                v
            }
            Expr::Match(m) => {
                let s = self.eval(&m.expr);
                let mut vs = vec![];
                for a in &m.arms {
                    let n = self.env.borrow().len();
                    self.bind(&a.pat, s.clone());
                    if let Some(g) = &a.guard {
                        self.eval(&g.1);
                    }
                    vs.push(self.eval(&a.body));
                    self.pop(n);
                }
                self.join("match", &vs)
            }
            Expr::ForLoop(f) => {
                let v = self.eval(&f.expr);
                let n = self.env.borrow().len();
                self.bind(&f.pat, v);
                self.block(&f.body);
                self.pop(n);
                self.named("()".into(), &[])
            }
            Expr::While(w) => {
                let n = self.env.borrow().len();
                self.eval(&w.cond);
                self.block(&w.body);
                self.pop(n);
                self.named("()".into(), &[])
            }
            Expr::Loop(l) => self.block(&l.body),
            Expr::Assign(a) => {
                let v = self.eval(&a.right);
                self.taint(&a.left, &v);
                self.named("()".into(), &[])
            }
            Expr::Binary(b) => {
                let l = self.eval(&b.left);
                let r = self.eval(&b.right);
                let asg = matches!(b.op, BinOp::AddAssign(_) | BinOp::SubAssign(_) | BinOp::BitOrAssign(_));
                if asg {
                    self.taint(&b.left, &r);
                }
                let mut v = self.named(format!("({} {} {})", l.canon, b.op.to_token_stream(), r.canon), &[&l, &r]);
                v.owner = l.owner.clone().or(r.owner.clone());
                v
            }
            Expr::Range(b) => {
                let vs: Vec<Val> = b.start.iter().chain(b.end.iter()).map(|e| self.eval(e)).collect();
                let r: Vec<&Val> = vs.iter().collect();
                self.named("range".into(), &r)
            }
            Expr::Closure(c) => {
                let n = self.env.borrow().len();
                for p in &c.inputs {
                    let v = self.named("arg".into(), &[]);
                    self.bind(p, v);
                }
                let v = self.eval(&c.body);
                self.pop(n);
                v
            }
            Expr::Return(x) => {
                if let Some(e) = &x.expr {
                    self.eval(e);
                }
                Val { canon: "!".into(), ..Default::default() }
            }
            Expr::Break(_) | Expr::Continue(_) => Val { canon: "!".into(), ..Default::default() },
            Expr::Macro(m) => self.mac(&m.mac),
            Expr::Async(a) => self.block(&a.block),
            Expr::Lit(l) => Val { canon: l.to_token_stream().to_string(), ..Default::default() },
            _ => self.named("?".into(), &[]),
        }
    }
}
