//! The incremental database: cancellation, the order in which a change is applied, and what memoised queries depend on.
use super::trace::*;
use super::tree::{run_self, strukt};
use super::util::*;
use crate::absint::*;
use crate::repo::*;
use crate::report::Report;
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;
use syn::visit::Visit;

fn krate(f: &FnInfo) -> &str {
    f.module.first().map(|s| s.as_str()).unwrap_or("")
}
fn ret_text(f: &FnInfo) -> String {
    match &f.sig.output {
        syn::ReturnType::Type(_, t) => t.to_token_stream().to_string().replace(' ', ""),
        _ => String::new(),
    }
}
// ------------------------------------------------------------------------------------------------
// D01: cancellation reaches the caller

#[derive(Clone, Copy, PartialEq, Debug)]
enum K {
    Other,
    /// a result that may be Err(Cancelled)
    Res,
    /// an iterator over (or option of) such results
    Many,
    Analysis,
    Snap,
}
struct Carriers<'r> {
    r: &'r Repo,
    fns: HashSet<FnId>,
    analysis: HashSet<String>,
    snap: HashSet<String>,
}
impl<'r> Carriers<'r> {
    fn method(&self, recv: K, name: &str) -> bool {
        match recv {
            K::Analysis => self.analysis.contains(name),
            K::Snap => self.snap.contains(name),
            _ => false,
        }
    }
}
struct Flow1<'a, 'r> {
    c: &'a Carriers<'r>,
    f: &'r FnInfo,
    env: HashMap<String, K>,
    found: Vec<(usize, String)>,
    carriers: usize,
    consumed: usize,
}
const PASS: &[&str] = &["map", "map_err", "and_then", "context", "with_context", "inspect", "inspect_err", "clone", "transpose", "copied", "cloned", "by_ref", "as_ref", "into", "as_mut"];
const DROP: &[&str] = &[
    "ok", "unwrap", "expect", "unwrap_or", "unwrap_or_default", "unwrap_or_else", "is_ok", "is_err", "is_ok_and", "is_err_and", "err", "map_or", "map_or_else", "iter", "into_iter", "or", "or_else", "unwrap_unchecked",
];
impl<'a, 'r> Flow1<'a, 'r> {
    fn bad(&mut self, line: usize, how: &str) {
        self.found.push((line, how.to_string()));
    }
    fn bind(&mut self, p: &syn::Pat, k: K) {
        match p {
            syn::Pat::Ident(i) => {
                self.env.insert(i.ident.to_string(), k);
            }
            syn::Pat::Type(t) => {
                let s = t.ty.to_token_stream().to_string();
                let k = if s.contains("GlobalStateSnapshot") { K::Snap } else if s.contains("Analysis") && !s.contains("Host") { K::Analysis } else { k };
                self.bind(&t.pat, k)
            }
            syn::Pat::Reference(r) => self.bind(&r.pat, k),
            syn::Pat::Paren(r) => self.bind(&r.pat, k),
            _ => {}
        }
    }
    fn closure(&mut self, c: &syn::ExprClosure, arg: K) -> K {
        let save = self.env.clone();
        for p in &c.inputs {
            self.bind(p, arg);
        }
        let used = self.consumed;
        let k = self.kind(&c.body);
        self.env = save;
        // a `?` inside: the closure passes the error on
        if self.consumed > used { K::Res } else { k }
    }
    fn tail(&mut self, b: &syn::Block) -> K {
        let n = b.stmts.len();
        let mut k = K::Other;
        for (i, s) in b.stmts.iter().enumerate() {
            match s {
                syn::Stmt::Local(l) => {
                    if let Some(init) = &l.init {
                        let mut v = self.kind(&init.expr);
                        if let syn::Pat::Wild(_) = l.pat {
                            if v == K::Res || v == K::Many {
                                self.bad(line_of(l), "dropped with `let _`");
                            }
                        }
                        if let Some((_, e)) = &init.diverge {
                            let x = self.kind(e);
                            if v == K::Res && x != K::Res {
                                let p = l.pat.to_token_stream().to_string();
                                if p.replace(' ', "").starts_with("Ok(") {
                                    self.bad(line_of(l), "a `let Ok(..) else` that drops the error");
                                }
                            }
                            v = K::Other;
                        }
                        if let syn::Pat::Type(t) = &l.pat {
                            // a collect() into a plain container
                            let ty = t.ty.to_token_stream().to_string();
                            if v == K::Many && (ty.contains("Result") || ty.contains("Cancellable")) {
                                v = K::Res;
                            }
                        }
                        self.bind(&l.pat, v);
                    }
                }
                syn::Stmt::Expr(e, semi) => {
                    let v = self.kind(e);
                    if semi.is_some() && v == K::Res && !matches!(e, syn::Expr::Return(_) | syn::Expr::Assign(_)) {
                        self.bad(line_of(e), "dropped");
                    }
                    if i + 1 == n && semi.is_none() {
                        k = v;
                    }
                }
                syn::Stmt::Macro(m) => self.mac(&m.mac),
                syn::Stmt::Item(_) => {}
            }
        }
        k
    }
    fn mac(&mut self, m: &syn::Macro) {
        if let Ok(a) = m.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated) {
            for e in a.iter() {
                self.kind(e);
            }
        }
    }
    fn join(a: K, b: K) -> K {
        if a == K::Res || b == K::Res {
            K::Res
        } else if a == K::Many || b == K::Many {
            K::Many
        } else if a == b {
            a
        } else {
            K::Other
        }
    }
    fn kind(&mut self, e: &syn::Expr) -> K {
        use syn::Expr::*;
        match e {
            Path(p) => p.path.get_ident().and_then(|i| self.env.get(&i.to_string()).copied()).unwrap_or(K::Other),
            Paren(p) => self.kind(&p.expr),
            Reference(p) => self.kind(&p.expr),
            Unary(p) => self.kind(&p.expr),
            Group(p) => self.kind(&p.expr),
            Field(f) => {
                let k = self.kind(&f.base);
                match &f.member {
                    syn::Member::Named(n) if n == "analysis" && self.f.file.contains("aptos-language-server") => K::Analysis,
                    syn::Member::Named(n) if n == "snap" => K::Snap,
                    _ if k == K::Res => K::Other,
                    _ => K::Other,
                }
            }
            Try(t) => {
                if self.kind(&t.expr) == K::Res {
                    self.consumed += 1;
                }
                K::Other
            }
            Block(b) => self.tail(&b.block),
            Unsafe(b) => self.tail(&b.block),
            If(i) => {
                if let syn::Expr::Let(l) = &*i.cond {
                    let v = self.kind(&l.expr);
                    let p = l.pat.to_token_stream().to_string().replace(' ', "");
                    if v == K::Res && p.starts_with("Ok(") && !i.else_branch.as_ref().is_some_and(|(_, e)| e.to_token_stream().to_string().contains("Err")) {
                        self.bad(line_of(i), "an `if let Ok(..)` that drops the error");
                    }
                } else {
                    self.kind(&i.cond);
                }
                let a = self.tail(&i.then_branch);
                match &i.else_branch {
                    Some((_, e)) => {
                        let b = self.kind(e);
                        Self::join(a, b)
                    }
                    None => K::Other,
                }
            }
            Let(l) => {
                let v = self.kind(&l.expr);
                let p = l.pat.to_token_stream().to_string().replace(' ', "");
                if v == K::Res && p.starts_with("Ok(") {
                    self.bad(line_of(l), "an `if let Ok(..)` that drops the error");
                }
                K::Other
            }
            Match(m) => {
                let v = self.kind(&m.expr);
                let mut k = None;
                for a in &m.arms {
                    let save = self.env.clone();
                    if let Some((_, g)) = &a.guard {
                        self.kind(g);
                    }
                    let p = a.pat.to_token_stream().to_string().replace(' ', "");
                    if v == K::Res && (p.starts_with("Err(") || p == "_") {
                        let name = p.trim_start_matches("Err(").trim_end_matches(')').to_string();
                        let used = !name.is_empty() && name != "_" && a.body.to_token_stream().to_string().split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| w == name);
                        if !used {
                            self.bad(line_of(&a.body), "a match arm that drops the error");
                        }
                    }
                    let x = self.kind(&a.body);
                    k = Some(match k {
                        None => x,
                        Some(y) => Self::join(x, y),
                    });
                    self.env = save;
                }
                k.unwrap_or(K::Other)
            }
            Closure(c) => {
                self.closure(c, K::Other);
                K::Other
            }
            Return(r) => {
                if let Some(e) = &r.expr {
                    self.kind(e);
                }
                K::Other
            }
            Macro(m) => {
                self.mac(&m.mac);
                K::Other
            }
            Call(c) => {
                let args: Vec<K> = c.args.iter().map(|a| self.kind(a)).collect();
                if let Path(p) = &*c.func {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let n = segs.last().cloned().unwrap_or_default();
                    if n == "drop" && args.first() == Some(&K::Res) {
                        self.bad(line_of(c), "dropped");
                    }
                    if let Some(id) = self.c.r.resolve_fn(&self.f.module, self.f.self_ty.as_deref(), &segs) {
                        if self.c.fns.contains(&id) {
                            self.carriers += 1;
                            return K::Res;
                        }
                        if ret_text(&self.c.r.fns[id]).contains("GlobalStateSnapshot") {
                            return K::Snap;
                        }
                    }
                    if n == "Ok" || n == "Some" {
                        // Ok(res): a result inside a result
                        return if args.first() == Some(&K::Res) { K::Many } else { K::Other };
                    }
                } else {
                    self.kind(&c.func);
                }
                K::Other
            }
            MethodCall(m) => self.method(m),
            Assign(a) => {
                let v = self.kind(&a.right);
                if let Path(p) = &*a.left {
                    if let Some(i) = p.path.get_ident() {
                        self.env.insert(i.to_string(), v);
                    } else if v == K::Res {
                        self.bad(line_of(a), "assigned away");
                    }
                } else if let Infer(_) = &*a.left {
                    if v == K::Res {
                        self.bad(line_of(a), "dropped with `_ =`");
                    }
                }
                K::Other
            }
            ForLoop(l) => {
                let v = self.kind(&l.expr);
                self.bind(&l.pat, if v == K::Many { K::Res } else { K::Other });
                self.tail(&l.body);
                K::Other
            }
            While(w) => {
                self.kind(&w.cond);
                self.tail(&w.body);
                K::Other
            }
            Loop(l) => {
                self.tail(&l.body);
                K::Other
            }
            Tuple(t) => {
                t.elems.iter().for_each(|e| {
                    self.kind(e);
                });
                K::Other
            }
            Array(t) => {
                t.elems.iter().for_each(|e| {
                    self.kind(e);
                });
                K::Other
            }
            Struct(s) => {
                s.fields.iter().for_each(|f| {
                    self.kind(&f.expr);
                });
                K::Other
            }
            Binary(b) => {
                self.kind(&b.left);
                self.kind(&b.right);
                K::Other
            }
            Cast(b) => {
                self.kind(&b.expr);
                K::Other
            }
            Index(b) => {
                self.kind(&b.expr);
                self.kind(&b.index);
                K::Other
            }
            Break(b) => {
                if let Some(e) = &b.expr {
                    self.kind(e);
                }
                K::Other
            }
            _ => K::Other,
        }
    }
    fn method(&mut self, m: &syn::ExprMethodCall) -> K {
        let k = self.kind(&m.receiver);
        let n = m.method.to_string();
        if matches!(k, K::Analysis | K::Snap) {
            for a in &m.args {
                self.kind(a);
            }
            return match () {
                _ if self.c.method(k, &n) => {
                    self.carriers += 1;
                    K::Res
                }
                _ if n == "clone" => k,
                _ if n == "analysis" => K::Analysis,
                _ => K::Other,
            };
        }
        if self.f.file.contains("aptos-language-server") && (n == "analysis" || n == "snapshot") && m.args.is_empty() {
            return if n == "analysis" { K::Analysis } else { K::Snap };
        }
        if self.f.self_ty.as_deref() == Some("Analysis") && m.receiver.to_token_stream().to_string() == "self" && self.c.analysis.contains(&n) {
            for a in &m.args {
                self.kind(a);
            }
            self.carriers += 1;
            return K::Res;
        }
        if self.f.self_ty.as_deref() == Some("GlobalStateSnapshot") && m.receiver.to_token_stream().to_string() == "self" && self.c.snap.contains(&n) {
            for a in &m.args {
                self.kind(a);
            }
            self.carriers += 1;
            return K::Res;
        }
        // what closures and function arguments give
        let mut body = K::Other;
        for a in &m.args {
            match a {
                syn::Expr::Closure(c) => body = self.closure(c, if k == K::Many { K::Res } else { K::Other }),
                syn::Expr::Path(p) => {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let s = segs.join("::");
                    if k == K::Many && matches!(s.as_str(), "Result::ok" | "Result::is_ok" | "Result::unwrap_or_default") {
                        self.bad(line_of(m), &format!("dropped with {s}"));
                        return K::Other;
                    }
                    if let Some(id) = self.c.r.resolve_fn(&self.f.module, self.f.self_ty.as_deref(), &segs) {
                        if self.c.fns.contains(&id) {
                            body = K::Res;
                        }
                    }
                    self.kind(a);
                }
                _ => {
                    self.kind(a);
                }
            }
        }
        match k {
            K::Res => {
                if DROP.contains(&n.as_str()) {
                    self.bad(line_of(&m.method), &format!("dropped with .{n}()"));
                    return K::Other;
                }
                if PASS.contains(&n.as_str()) {
                    return K::Res;
                }
                K::Other
            }
            K::Many => match n.as_str() {
                "flatten" | "flat_map" => {
                    self.bad(line_of(&m.method), &format!("dropped with .{n}()"));
                    K::Other
                }
                "collect" | "try_collect" => {
                    let t = m.turbofish.as_ref().map(|t| t.to_token_stream().to_string()).unwrap_or_default();
                    if t.contains("Result") || t.contains("Cancellable") { K::Res } else { K::Many }
                }
                "transpose" => K::Res,
                "next" | "last" | "filter" | "chain" | "rev" | "take" | "skip" | "into_iter" | "iter" | "peekable" => K::Many,
                "map" if body != K::Res => K::Other,
                "map" => K::Many,
                "unwrap" => K::Res,
                _ => K::Other,
            },
            _ => match n.as_str() {
                "filter_map" | "flat_map" if body == K::Res => {
                    self.bad(line_of(&m.method), &format!("dropped with .{n}()"));
                    K::Other
                }
                "map" | "scan" if body == K::Res => K::Many,
                "map" if body == K::Many => K::Many,
                "and_then" | "unwrap_or_else" | "map_or_else" | "map_or" if body == K::Res => K::Res,
                "try_for_each" | "try_fold" => body,
                _ => K::Other,
            },
        }
    }
}
pub fn d01(r: &Repo, _t: bool) -> Report {
    let mut rep = Report::new("every query of Analysis runs inside Cancelled::catch and reaches the database no other way; in the server and in Analysis, every result that may be Err(Cancelled) (declared Cancellable, or a Result of a function that passes one on) is propagated: it is never dropped, defaulted, unwrapped or filtered away");
    // the wrapper
    let lib = "ide/src/lib.rs";
    if let Some(f) = need(r, &mut rep, lib, Some("Analysis"), "with_db") {
        let t = tr(r, &mut rep, f.id, None, Cfg::new(|_| false));
        rep.floor("paths of with_db", t.paths.len(), 1);
        let body = f.block.to_token_stream().to_string().replace(' ', "");
        for p in &t.paths {
            let s = cfull(&t.it, &t.it.deref(&p.st, &p.ret));
            rep.ob(s.contains("Cancelled::catch(") || s.contains("catch("), "with_db", format!("with_db gives {s}, which is not what Cancelled::catch gives"), &f.file, f.line);
        }
        // f is called only inside the argument of catch
        struct Calls<'x> {
            name: &'x str,
            inside: usize,
            bad: Vec<usize>,
            good: usize,
        }
        impl<'x, 'ast> Visit<'ast> for Calls<'x> {
            fn visit_expr_call(&mut self, c: &'ast syn::ExprCall) {
                let s = c.func.to_token_stream().to_string().replace(' ', "");
                if s == self.name {
                    if self.inside > 0 {
                        self.good += 1
                    } else {
                        self.bad.push(line_of(c))
                    }
                }
                let catch = s.ends_with("Cancelled::catch") || s == "catch";
                self.inside += catch as usize;
                syn::visit::visit_expr_call(self, c);
                self.inside -= catch as usize;
            }
        }
        let arg = f.params().into_iter().map(|x| x.0).filter(|n| n != "self").next().unwrap_or_default();
        let mut v = Calls { name: &arg, inside: 0, bad: vec![], good: 0 };
        v.visit_block(f.block);
        rep.ob(v.good >= 1 && v.bad.is_empty(), "with_db:inside", format!("the query runs outside Cancelled::catch ({body})"), &f.file, f.line);
    }
    // the database is reached through with_db only
    let mut n = 0;
    for f in r.fns.iter().filter(|f| f.file.ends_with(lib) && f.self_ty.as_deref() == Some("Analysis") && f.trait_name.is_none()) {
        struct Db(Vec<usize>);
        impl<'ast> Visit<'ast> for Db {
            fn visit_expr_field(&mut self, e: &'ast syn::ExprField) {
                if e.to_token_stream().to_string().replace(' ', "") == "self.db" {
                    self.0.push(line_of(e));
                }
                syn::visit::visit_expr_field(self, e);
            }
        }
        let mut v = Db(vec![]);
        v.visit_block(f.block);
        n += 1;
        if f.name != "with_db" {
            for l in v.0 {
                rep.viol(&format!("db:{}", f.name), &format!("Analysis::{} uses the database outside with_db: a change does not cancel it, it panics", f.name), &f.file, l);
            }
        }
        if f.has_self() && f.name != "with_db" {
            let rt = ret_text(f);
            rep.ob(rt.contains("Cancellable<"), format!("ret:{}", f.name), format!("Analysis::{} returns {rt}, so its caller is not told about a cancellation", f.name), &f.file, f.line);
        }
    }
    rep.floor("methods of Analysis", n, 35);
    if let Some(s) = r.structs.iter().find(|s| s.name == "Analysis" && s.file.ends_with(lib)) {
        for fl in &s.item.fields {
            rep.ob(matches!(fl.vis, syn::Visibility::Inherited), "private", "the database of an Analysis is visible outside", &s.file, line_of(fl));
        }
    }
    // carriers
    let scope = |f: &&FnInfo| (f.file.contains("aptos-language-server/src/") && !f.file.contains("/cli/") && !f.file.contains("/bin/") && !f.file.contains("/tests")) || (f.file.ends_with(lib) && f.self_ty.as_deref() == Some("Analysis"));
    let fns: Vec<&FnInfo> = r.fns.iter().filter(scope).collect();
    let mut c = Carriers { r, fns: HashSet::new(), analysis: HashSet::new(), snap: HashSet::new() };
    let add = |c: &mut Carriers, f: &FnInfo| {
        let mut new = c.fns.insert(f.id);
        match f.self_ty.as_deref() {
            Some("Analysis") => new |= c.analysis.insert(f.name.clone()),
            Some("GlobalStateSnapshot") => new |= c.snap.insert(f.name.clone()),
            _ => {}
        }
        new
    };
    for f in &fns {
        if ret_text(f).contains("Cancellable<") {
            add(&mut c, f);
        }
    }
    let run = |c: &Carriers, f: &'_ FnInfo| {
        let f: &FnInfo = &r.fns[f.id];
        let mut w = Flow1 { c, f, env: HashMap::new(), found: vec![], carriers: 0, consumed: 0 };
        for (n, t) in f.params() {
            let s = t.to_token_stream().to_string();
            if s.contains("GlobalStateSnapshot") {
                w.env.insert(n, K::Snap);
            } else if s.replace(' ', "").trim_start_matches('&').trim_start_matches("ide::") == "Analysis" {
                w.env.insert(n, K::Analysis);
            }
        }
        let k = w.tail(f.block);
        (k, w.found, w.carriers, w.consumed)
    };
    loop {
        let mut more = false;
        for f in &fns {
            if c.fns.contains(&f.id) || !ret_text(f).contains("Result<") {
                continue;
            }
            let (k, _, n, used) = run(&c, f);
            if n > 0 && (used > 0 || k == K::Res) && add(&mut c, f) {
                more = true;
            }
        }
        if !more {
            break;
        }
    }
    let (mut total, mut asking) = (0, 0);
    for f in &fns {
        let (_, found, n, _) = run(&c, f);
        total += n;
        if n > 0 {
            asking += 1;
        }
        for _ in 0..n.saturating_sub(found.len()) {
            rep.ob(true, "", "", &f.file, f.line);
        }
        for (l, how) in found {
            rep.viol(&format!("swallowed:{}", f.name), &format!("in {} a result that may be a cancellation is {how}: the request is answered as if there were nothing more", f.short()), &f.file, l);
        }
    }
    rep.floor("results that may be a cancellation", total, 120);
    rep.count("functions that ask the analysis", asking);
    rep.floor("functions that return one", c.fns.len(), 70);
    rep.assume("salsa unwinds with Cancelled out of every query of a snapshot once a write is pending, and Cancelled::catch turns exactly that unwinding into Err");
    rep
}

// ------------------------------------------------------------------------------------------------
// D02: what a change does to the database, and what memoised queries depend on

/// operations on a field of self: (field, first method called on it, line)
fn field_ops(f: &FnInfo, base: &str) -> Vec<(String, String, usize)> {
    struct Vis<'x> {
        base: &'x str,
        out: Vec<(String, String, usize)>,
    }
    impl<'x, 'ast> Visit<'ast> for Vis<'x> {
        fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
            let mut r = &*m.receiver;
            while let syn::Expr::Paren(syn::ExprParen { expr, .. }) | syn::Expr::Reference(syn::ExprReference { expr, .. }) = r {
                r = expr;
            }
            if let syn::Expr::Field(fl) = r {
                if let syn::Member::Named(n) = &fl.member {
                    if fl.base.to_token_stream().to_string().replace(' ', "") == self.base {
                        self.out.push((n.to_string(), m.method.to_string(), line_of(&m.method)));
                    }
                }
            }
            syn::visit::visit_expr_method_call(self, m);
        }
    }
    let mut v = Vis { base, out: vec![] };
    v.visit_block(f.block);
    v.out
}
fn cancel_first(r: &Repo, rep: &mut Report) {
    let Some(f) = need(r, rep, "ide-db/src/apply_change.rs", Some("RootDatabase"), "apply_change") else { return };
    let t = tr(r, rep, f.id, None, Cfg::new(|g: &FnInfo| g.file.ends_with("apply_change.rs") && g.name != "apply_change").events(|_| true));
    let mut n = 0;
    for p in &t.paths {
        let ev: Vec<(&str, usize)> = p.st.events.iter().map(|e| (last(&e.name), e.line)).collect();
        let c = ev.iter().position(|e| e.0 == "synthetic_write" || e.0 == "trigger_cancellation" || e.0 == "cancel_others");
        let aps: Vec<usize> = (0..ev.len()).filter(|i| ev[*i].0 == "apply" || ev[*i].0.starts_with("FileChanges")).collect();
        rep.ob(aps.len() == 1, "apply:once", format!("a change is applied {} times", aps.len()), &f.file, f.line);
        for a in aps {
            n += 1;
            rep.ob(c.is_some_and(|c| c < a), "cancel:first", "the change is written before the running queries are cancelled", &f.file, ev[a].1);
        }
    }
    rep.floor("paths that apply a change", n, 1);
    // nobody else writes
    let mut sites = 0;
    for f in r.fns.iter().filter(|f| !f.file.contains("/tests") && !f.file.contains("ide-tests") && !f.file.contains("test-utils")) {
        struct Vis(Vec<(String, usize)>);
        impl<'ast> Visit<'ast> for Vis {
            fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
                self.0.push((m.method.to_string(), line_of(&m.method)));
                syn::visit::visit_expr_method_call(self, m);
            }
        }
        let mut v = Vis(vec![]);
        v.visit_block(f.block);
        for (m, l) in v.0 {
            let setter = matches!(m.as_str(), "set_file_text" | "set_file_text_with_durability" | "replace_package_roots" | "set_builtins_file_id" | "set_package_metadata" | "set_spec_related_files");
            if setter {
                sites += 1;
                let ok = f.file.ends_with("base-db/src/change.rs") || f.file.ends_with("root_db.rs") || f.file.ends_with("base-db/src/inputs.rs");
                rep.ob(ok, format!("writer:{}:{m}", f.name), format!("{} writes the inputs of the analysis ({m}) outside a change: running queries are not cancelled first", f.short()), &f.file, l);
            }
        }
    }
    rep.floor("calls that write inputs", sites, 6);
}
fn apply_order(r: &Repo, rep: &mut Report) {
    let Some(f) = need(r, rep, "base-db/src/change.rs", Some("FileChanges"), "apply") else { return };
    let mut n = 0;
    for mask in 0..8u8 {
        let (roots, builtins, graph) = (mask & 1 != 0, mask & 2 != 0, mask & 4 != 0);
        let cfg = Cfg::new(|g: &FnInfo| g.file.ends_with("base-db/src/change.rs") && g.name != "apply").cap(4000).unroll(Some(3)).mhook(|it, cx, st, c| {
            let dbish = matches!(it.deref(st, &c.recv), V::Sym(y) if &*it.node(y).0 == "db");
            if !dbish {
                return None;
            }
            let a: Vec<V> = c.args.iter().map(|x| it.deref(st, x)).collect();
            let mut s = st.clone();
            s.event(c.name, a.clone(), cx.func, c.line);
            Some(vec![(s, Flow::Val(it.sym(&format!("db.{}()", c.name), a)))])
        });
        let it = Interp::new(r, Trace { cfg, panics: Default::default() });
        let opt = |on: bool, v: V| if on { some(v) } else { none() };
        let me = strukt(
            "FileChanges",
            vec![
                ("builtins_file", opt(builtins, V::Tuple(Rc::new(vec![it.sym("bid", vec![]), it.sym("btext", vec![])])))),
                ("files_changed", V::List(Rc::new(vec![V::Tuple(Rc::new(vec![it.sym("f0", vec![]), some(it.sym("t0", vec![]))])), V::Tuple(Rc::new(vec![it.sym("f1", vec![]), none()])), V::Tuple(Rc::new(vec![it.sym("f0", vec![]), some(it.sym("t2", vec![]))]))]))),
                ("package_roots", opt(roots, it.sym("roots", vec![]))),
                ("package_graph", opt(graph, V::List(Rc::new(vec![V::Tuple(Rc::new(vec![it.sym("m0", vec![]), it.sym("d0", vec![])])), V::Tuple(Rc::new(vec![it.sym("m1", vec![]), it.sym("d1", vec![])]))])))),
            ],
        );
        let db = it.sym("db", vec![]);
        for p in run(&it, f.id, Some(vec![me, db])) {
            n += 1;
            let ev: Vec<(String, Vec<String>, usize)> = p.st.events.iter().map(|e| (last(&e.name).to_string(), e.args.iter().map(|a| cfull(&it, a)).collect(), e.line)).collect();
            let idx = |n: &str| (0..ev.len()).filter(|i| ev[*i].0 == n).collect::<Vec<_>>();
            let rr = idx("replace_package_roots");
            rep.ob(rr.len() == roots as usize && rr.iter().all(|i| ev[*i].1.first().is_some_and(|a| a == "roots")), "apply:roots", format!("a change {} package roots replaces them {} times", if roots { "with" } else { "without" }, rr.len()), &f.file, f.line);
            // whatever looks a package up comes after
            for (i, e) in ev.iter().enumerate() {
                if matches!(e.0.as_str(), "file_package_id" | "package_root" | "spec_related_files" | "set_spec_related_files") && rr.first().is_some_and(|k| i < *k) {
                    rep.viol("apply:roots-first", &format!("{} is called before the package roots of the change are in place", e.0), &f.file, e.2);
                }
            }
            let bi = idx("set_builtins_file_id");
            rep.ob(bi.len() == builtins as usize && bi.iter().all(|i| ev[*i].1.first().is_some_and(|a| a.contains("bid"))), "apply:builtins", "the builtins file of the change is not set, or set without one", &f.file, f.line);
            let sp: Vec<&Vec<String>> = idx("set_spec_related_files").into_iter().map(|i| &ev[i].1).collect();
            rep.ob(sp.len() == builtins as usize && sp.iter().all(|a| a.first().is_some_and(|x| x == "bid")), "apply:builtins-spec", "the builtins file has no set of related spec files: the first query that asks for it panics", &f.file, f.line);
            // texts, in order
            let texts: Vec<(String, String)> = ev.iter().filter(|e| e.0.starts_with("set_file_text")).map(|e| (e.1[0].clone(), e.1.get(1).cloned().unwrap_or_default())).collect();
            let mut b: Vec<&(String, String)> = texts.iter().filter(|t| t.0 == "bid").collect();
            b.dedup();
            rep.ob(b.len() == builtins as usize && b.iter().all(|t| t.1 == "btext"), "apply:builtins-text", format!("the text of the builtins file is set to {b:?}"), &f.file, f.line);
            let rest: Vec<(String, String)> = texts.iter().filter(|t| t.0 != "bid").cloned().collect();
            let empty = |s: &str| matches!(s, "\"\"" | "" | "''") || s.to_lowercase().contains("default") || s == "String::new()";
            let ok = rest.len() == 3 && rest[0] == ("f0".into(), "t0".into()) && rest[1].0 == "f1" && empty(&rest[1].1) && rest[2] == ("f0".into(), "t2".into());
            rep.ob(ok, "apply:texts", format!("changes of the texts (f0, t0), (f1, deleted), (f0, t2) set {rest:?}"), &f.file, f.line);
            let md: Vec<(String, String)> = idx("set_package_metadata").into_iter().map(|i| (ev[i].1[0].clone(), ev[i].1.get(1).cloned().unwrap_or_default())).collect();
            let want: Vec<(String, String)> = if graph { vec![("m0".into(), "d0".into()), ("m1".into(), "d1".into())] } else { vec![] };
            rep.ob(md == want, "apply:metadata", format!("the metadata set is {md:?}, the change has {want:?}"), &f.file, f.line);
        }
        for m in it.overflow.borrow().iter() {
            rep.problem(m.clone());
        }
    }
    rep.floor("paths of FileChanges::apply", n, 8);
}
fn tracked_reads(r: &Repo, rep: &mut Report) {
    const I: &str = "base-db/src/inputs.rs";
    const RD: &str = "ide-db/src/root_db.rs";
    let Some(files) = r.structs.iter().find(|s| s.name == "Files" && s.file.ends_with(I)) else {
        rep.problem("struct Files not found");
        return;
    };
    let meths: Vec<&FnInfo> = r.fns.iter().filter(|f| f.file.ends_with(I) && f.self_ty.as_deref() == Some("Files")).collect();
    // maps: field -> (key type)
    let mut maps: BTreeMap<String, String> = BTreeMap::new();
    for fl in &files.item.fields {
        let t = fl.ty.to_token_stream().to_string().replace(' ', "");
        if let Some(i) = t.find("Map<") {
            maps.insert(fl.ident.as_ref().unwrap().to_string(), t[i + 4..].split(',').next().unwrap_or("").to_string());
        }
    }
    rep.floor("maps beside the database", maps.len(), 4);
    const REPL: &[&str] = &["clear", "insert", "remove", "retain", "alter", "alter_all", "remove_if", "drain", "extend"];
    let mut reads: BTreeMap<String, BTreeSet<String>> = BTreeMap::new(); // method -> maps
    let mut writers: BTreeMap<String, Vec<&FnInfo>> = BTreeMap::new(); // map -> methods that replace entries
    for m in &meths {
        for (fl, op, _) in field_ops(m, "self") {
            if !maps.contains_key(&fl) {
                continue;
            }
            if REPL.contains(&op.as_str()) {
                let w = writers.entry(fl.clone()).or_default();
                if !w.iter().any(|x| x.id == m.id) {
                    w.push(m);
                }
            } else if op != "entry" {
                reads.entry(m.name.clone()).or_default().insert(fl.clone());
            }
        }
    }
    // a writer nobody calls does not count
    for w in writers.values_mut() {
        w.retain(|f| r.fns.iter().filter(|g| !g.file.contains("/tests")).any(|g| g.id != f.id && called(g, &f.name)));
    }
    writers.retain(|_, w| !w.is_empty());
    rep.floor("maps whose entries are replaced", writers.len(), 2);
    // which inputs does each writer set, on every path?
    let mut sets: BTreeMap<FnId, BTreeSet<String>> = BTreeMap::new();
    for w in writers.values().flatten() {
        if sets.contains_key(&w.id) {
            continue;
        }
        let t = trace(r, w.id, None, Cfg::new(|_| false).events(|_| true).cap(6000));
        let mut acc: Option<BTreeSet<String>> = None;
        for p in &t.paths {
            let mut on: BTreeSet<String> = BTreeSet::new();
            for e in p.st.events.iter() {
                // ...set_data(db)...to(v)
                if last(&e.name) == "to" {
                    let s = e.args.first().map(|v| cfull(&t.it, v)).unwrap_or_default();
                    if let Some(i) = s.find(".set_data(") {
                        for fl in files.item.fields.iter().filter_map(|f| f.ident.as_ref()) {
                            if s[..i].split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| *fl == w) {
                                on.insert(fl.to_string());
                            }
                        }
                    }
                }
            }
            acc = Some(match acc {
                None => on,
                Some(a) => a.intersection(&on).cloned().collect(),
            });
        }
        sets.insert(w.id, acc.unwrap_or_default());
    }
    // fresh keys: a map keyed by an input that each writer creates anew
    let fresh = |map: &str| -> bool {
        let k = &maps[map];
        let input = r.structs.iter().any(|s| &s.name == k && s.item.attrs.iter().any(|a| a.path().to_token_stream().to_string().replace(' ', "").ends_with("::input")));
        input && writers.get(map).is_some_and(|w| w.iter().all(|f| f.block.to_token_stream().to_string().replace(' ', "").contains(&format!("{k}::new("))))
    };
    let impls: Vec<&FnInfo> = r.fns.iter().filter(|f| f.file.ends_with(RD) && f.self_ty.as_deref() == Some("RootDatabase") && f.trait_name.as_deref() == Some("SourceDatabase")).collect();
    rep.floor("methods of the database", impls.len(), 11);
    let mut guarded = 0;
    for f in impls {
        if f.sig.inputs.first().is_some_and(|a| matches!(a, syn::FnArg::Receiver(r) if r.mutability.is_some())) {
            continue;
        }
        let it = Interp::new(r, Trace { cfg: Cfg::new(|g: &FnInfo| g.file.ends_with(RD) || (g.file.ends_with(I) && g.self_ty.as_deref() == Some("Files"))).cap(2000).mhook(|it, cx, st, c| {
            let V::Sym(_) = it.deref(st, &c.recv) else { return None };
            if matches!(c.name, "expect" | "unwrap" | "unwrap_or_else" | "clone" | "map" | "copied") {
                return None;
            }
            let a: Vec<V> = std::iter::once(it.deref(st, &c.recv)).chain(c.args.iter().cloned()).collect();
            let mut s = st.clone();
            s.event(c.name, a.clone(), cx.func, c.line);
            Some(vec![(s, Flow::Val(it.sym(&format!("{}()", c.name), vec![a[0].clone()])))])
        }), panics: Default::default() });
        let names: Vec<String> = files.item.fields.iter().filter_map(|f| f.ident.as_ref()).map(|i| i.to_string()).collect();
        let fv = strukt("Files", names.iter().map(|n| (n.as_str(), if maps.contains_key(n) { it.sym(&format!("map:{n}"), vec![]) } else { some(it.sym(n, vec![])) })).collect());
        let me = strukt("RootDatabase", vec![("storage", it.sym("storage", vec![])), ("files", fv), ("builtins_file_id", it.sym("builtins_file_id", vec![]))]);
        let args: Vec<V> = f.params().iter().filter(|x| x.0 != "self").map(|x| it.sym(&x.0, vec![])).collect();
        let paths = run_self(&it, f.id, me, args);
        for m in it.overflow.borrow().iter() {
            rep.problem(m.clone());
        }
        for (p, _) in &paths {
            let mut read: BTreeSet<String> = BTreeSet::new();
            let mut tracked: Vec<String> = vec![];
            for e in p.st.events.iter() {
                let s = e.args.first().map(|v| cfull(&it, &it.deref(&p.st, v))).unwrap_or_default();
                if last(&e.name) == "data" {
                    tracked.push(s.clone());
                }
                for m in maps.keys() {
                    if s == format!("map:{m}") && !matches!(last(&e.name), "clone" | "deref" | "as_ref") {
                        read.insert(m.clone());
                    }
                }
            }
            for m in read {
                let Some(ws) = writers.get(&m) else {
                    rep.ob(true, "", "", &f.file, f.line);
                    continue;
                };
                if fresh(&m) {
                    rep.ob(true, "", "", &f.file, f.line);
                    continue;
                }
                guarded += 1;
                for w in ws {
                    let ok = sets[&w.id].iter().any(|i| tracked.iter().any(|s| s.split(|c: char| !c.is_alphanumeric() && c != '_').any(|x| x == i)));
                    rep.ob(ok, format!("untracked:{}:{m}", f.name), format!("RootDatabase::{} looks into `{m}`, whose entries {} replaces, without depending on an input that it sets: a memoised query keeps the old entry", f.name, w.short()), &f.file, f.line);
                }
            }
        }
    }
    rep.floor("lookups that need a tracked dependency", guarded, 2);
}
fn called(f: &FnInfo, name: &str) -> bool {
    struct Vis<'x>(&'x str, bool);
    impl<'x, 'ast> Visit<'ast> for Vis<'x> {
        fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
            self.1 |= m.method == self.0;
            syn::visit::visit_expr_method_call(self, m);
        }
        fn visit_expr_path(&mut self, m: &'ast syn::ExprPath) {
            self.1 |= m.path.segments.last().is_some_and(|s| s.ident == self.0);
        }
    }
    let mut v = Vis(name, false);
    v.visit_block(f.block);
    v.1
}
/// nothing mutable beside the database in the code memoised queries run
fn pure(r: &Repo, rep: &mut Report) {
    let in_scope = |file: &str| !file.contains("/tests") && (file.contains("crates/lang/src/") || file.contains("crates/base-db/src/") || file.contains("crates/syntax/src/parse") || file.contains("crates/syntax/src/ast"));
    struct Vis {
        out: Vec<(String, usize)>,
    }
    impl<'ast> Visit<'ast> for Vis {
        fn visit_expr_path(&mut self, p: &'ast syn::ExprPath) {
            let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            let s = segs.join("::");
            let bad = ["fs::", "env::var", "env::current", "SystemTime::now", "rand::", "random", "process::id"];
            if bad.iter().any(|b| s.contains(b)) || s == "Instant::now" || s.ends_with("::Instant::now") {
                self.out.push((s, line_of(p)));
            }
            syn::visit::visit_expr_path(self, p);
        }
        fn visit_macro(&mut self, m: &'ast syn::Macro) {
            let n = m.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
            if n == "thread_local" {
                self.out.push(("thread_local!".into(), line_of(m)));
            }
            if let Ok(a) = m.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated) {
                for e in a.iter() {
                    self.visit_expr(e);
                }
            }
        }
        fn visit_item_static(&mut self, s: &'ast syn::ItemStatic) {
            let t = s.ty.to_token_stream().to_string().replace(' ', "");
            if matches!(s.mutability, syn::StaticMutability::Mut(_)) || ["Mutex", "RwLock", "Atomic", "RefCell", "DashMap", "OnceCell", "Cell<"].iter().any(|m| t.contains(m)) {
                self.out.push((format!("static {}", s.ident), line_of(s)));
            }
        }
    }
    let mut n = 0;
    for f in r.fns.iter().filter(|f| in_scope(&f.file)) {
        n += 1;
        if f.self_ty.as_deref() == Some("DbPanicContext") {
            continue; // the frames printed when a query panics
        }
        let mut v = Vis { out: vec![] };
        v.visit_block(f.block);
        for (s, l) in v.out {
            rep.viol(&format!("impure:{}", f.name), &format!("{} reads `{s}`, which the database does not know of: memoised values are not renewed when it changes", f.short()), &f.file, l);
        }
    }
    for fi in r.files.iter().filter(|f| in_scope(&f.path)) {
        let mut v = Vis { out: vec![] };
        for it in fi.ast.items.iter() {
            if let syn::Item::Static(s) = it {
                v.visit_item_static(s);
            }
            if let syn::Item::Macro(m) = it {
                if m.ident.is_none() {
                    v.visit_macro(&m.mac);
                }
            }
        }
        for (s, l) in v.out {
            rep.viol("impure:static", &format!("`{s}` is state the database does not know of: memoised values are not renewed when it changes"), &fi.path, l);
        }
    }
    rep.floor("functions queries may run", n, 900);
}
pub fn d02(r: &Repo, _t: bool) -> Report {
    let mut rep = Report::new("applying a change cancels running queries first and nothing else writes inputs; FileChanges::apply, run on every combination of its parts, writes each part exactly, package roots before anything that looks a package up; every lookup of the database in a map whose entries are replaced (not set through an input) also reads an input which each replacement sets; the code of memoised queries uses no state outside the database");
    cancel_first(r, &mut rep);
    apply_order(r, &mut rep);
    tracked_reads(r, &mut rep);
    pure(r, &mut rep);
    rep.assume("salsa: a setter invalidates what read the field, a memoised value whose inputs did not change is kept, interned and tracked structs are compared by value");
    rep.assume("the builtins file is set before the first query and never changes");
    rep
}
