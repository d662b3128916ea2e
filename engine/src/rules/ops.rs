//! Token sets, composite tokens, operators.
use super::kinds::Kinds;
use super::text::lin_of;
use super::trace::*;
use super::tree::{ctor0, field, strukt};
use super::util::*;
use crate::absint::*;
use crate::repo::*;
use crate::report::Report;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

const R7: &str = "Token-set and recovery-set operations are evaluated symbolically, one bit at a time: the term each path returns is compared with the set operation for every assignment of its leaf bits; every token kind must fit 128 bits.";
const R8: &str = "Decision tables extracted from the operator functions over every lexer-producible window of tokens; typestate of the precedence-climbing loop on every path (what is known of the operator when it is consumed, with which power its operand is parsed, which node is completed); the three tables (parser, tree, written form) compared.";
const R9: &str = "Decision tables of at/nth_at/eat/bump extracted for every punctuation kind the grammar asks for, over every window of raw tokens the lexer can produce, and compared with spelling: joined tokens whose texts concatenate to the kind's text.";
const PARSER: &str = "parse/parser.rs";
const TSET: &str = "parse/token_set.rs";
const RSET: &str = "parse/recovery_set.rs";
const EXPRS: &str = "grammar/expressions.rs";

// ------------------------------------------------------------------ S07: token sets

/// the value of a bit-set term at one bit, given the bits of its leaves
fn bit(it: &Interp<Trace>, st: &St<TW>, v: &V, env: &BTreeMap<String, bool>) -> Option<bool> {
    let v = it.deref(st, v);
    match &v {
        V::Int(0) => Some(false),
        V::Ctor(n, a) if &**n == "TokenSet" && a.len() == 1 => bit(it, st, &a[0], env),
        V::Struct(n, m) if &**n == "TokenSet" && m.len() == 1 => bit(it, st, m.values().next().unwrap(), env),
        V::Sym(t) => {
            let (o, a) = it.node(*t);
            let txt = cfull(it, &v);
            // a set that holds one kind is that kind's bit
            if let Some(b) = env.get(&txt).or_else(|| env.get(&format!("mask:{txt}"))) {
                return Some(*b);
            }
            match (&*o, a.len()) {
                ("|", 2) => Some(bit(it, st, &a[0], env)? | bit(it, st, &a[1], env)?),
                ("&", 2) => Some(bit(it, st, &a[0], env)? & bit(it, st, &a[1], env)?),
                ("^", 2) => Some(bit(it, st, &a[0], env)? ^ bit(it, st, &a[1], env)?),
                ("!", 1) => Some(!bit(it, st, &a[0], env)?),
                ("<<", 2) => {
                    // 1 << kind
                    if a[0] != V::Int(1) {
                        return None;
                    }
                    let k = cfull(it, &it.deref(st, &a[1]));
                    env.get(&format!("mask:{k}")).copied()
                }
                // the operators of sets, each decided by this rule
                ("+", 2) => Some(bit(it, st, &a[0], env)? | bit(it, st, &a[1], env)?),
                (".0", 1) => bit(it, st, &a[0], env),
                ("ts!" | "ts!()", _) => {
                    let mut b = false;
                    for x in a.iter() {
                        b |= bit(it, st, x, env)?;
                    }
                    Some(b)
                }
                (x, 1) if x == "cast" || x.starts_with("as ") => bit(it, st, &a[0], env),
                _ => None,
            }
        }
        _ => None,
    }
}
/// a comparison of bit sets, decided in a world of two positions
fn holds(it: &Interp<Trace>, st: &St<TW>, v: &V, ak: bool, aj: bool) -> Option<bool> {
    let (o, a) = op(it, v);
    match (o.as_str(), a.len()) {
        ("!", 1) => return holds(it, st, &a[0], ak, aj).map(|x| !x),
        ("==" | "!=", 2) => {}
        _ => return None,
    }
    // (a >> k) & 1
    let one = |v: &V| -> Option<bool> {
        let (o, x) = op(it, v);
        if o != "&" || x.len() != 2 {
            return None;
        }
        let sh = x.iter().find(|y| !matches!(y, V::Int(_)))?;
        if !x.contains(&V::Int(1)) {
            return None;
        }
        let (o, y) = op(it, sh);
        (o == ">>" && y.len() == 2 && cfull(it, &y[0]) == "a" && cfull(it, &y[1]) == "k").then_some(ak)
    };
    let pair = |v: &V| -> Option<(bool, bool)> {
        let w = |x: bool, y: bool| -> BTreeMap<String, bool> { [("a".to_string(), x), ("mask:k".to_string(), y)].into() };
        Some((bit(it, st, v, &w(ak, true))?, bit(it, st, v, &w(aj, false))?))
    };
    let eq = match (one(&a[0]), one(&a[1]), &a[0], &a[1]) {
        (Some(x), None, _, V::Int(n)) | (None, Some(x), V::Int(n), _) => x as i128 == *n,
        _ => pair(&a[0])? == pair(&a[1])?,
    };
    Some(eq == (o == "=="))
}
struct BitOp<'a> {
    ty: &'a str,
    name: &'a str,
    /// the trait argument, when several impls have this method
    args: Vec<V>,
    leaves: Vec<&'a str>,
    spec: &'a dyn Fn(&[bool]) -> bool,
    what: &'a str,
}
fn ts(it: &Interp<Trace>, n: &str) -> V {
    V::Ctor(Rc::from("TokenSet"), Rc::new(vec![it.sym(n, vec![])]))
}
fn bit_op(r: &Repo, rep: &mut Report, it: &Interp<Trace>, f: &FnInfo, b: BitOp) {
    let ps = run(it, f.id, Some(b.args.clone()));
    rep.floor(&format!("paths of {}::{}", b.ty, b.name), ps.len(), 1);
    rep.count("token set operations", 1);
    let _ = r;
    for p in &ps {
        for bits in 0..1u32 << b.leaves.len() {
            let v: Vec<bool> = (0..b.leaves.len()).map(|i| bits >> i & 1 == 1).collect();
            let env: BTreeMap<String, bool> = b.leaves.iter().zip(&v).map(|(l, x)| (l.to_string(), *x)).collect();
            let got = bit(it, &p.st, &p.ret, &env);
            rep.ob(
                got == Some((b.spec)(&v)),
                format!("{}::{}", b.ty, b.name),
                format!("{} gives {} ({}), must be {}", b.what, cfull(it, &p.ret), got.map(|x| x.to_string()).unwrap_or("not a set of bits".into()), b.leaves.iter().zip(&v).map(|(l, x)| format!("{l}={x}")).collect::<Vec<_>>().join(" ")),
                &f.file,
                f.line,
            );
        }
    }
}

pub fn s07(r: &Repo, _t: bool) -> Report {
    let mut rep = Report::new(R7);
    let rep = &mut rep;
    let k = Rc::new(Kinds::load(r));
    for p in &k.problems {
        rep.problem(p.clone());
    }
    // every kind that can be asked for fits the 128 bits
    if let Some(e) = r.enums.iter().find(|e| e.name == "SyntaxKind") {
        rep.ob(e.item.variants.iter().all(|v| v.discriminant.is_none()), "kinds:discriminants", "SyntaxKind gives a variant an explicit number", &e.file, 0);
        let mut asked: BTreeSet<usize> = k.all.iter().collect();
        asked.extend(asked_kinds(r, &k));
        let n = asked.len();
        for i in asked {
            rep.ob(i < 128, format!("kinds:{}", k.name(i)), format!("the token kind {} has number {i}: it does not fit a token set of 128 bits", k.name(i)), &e.file, 0);
        }
        rep.floor("kinds that are looked for", n, 90);
    } else {
        rep.problem("SyntaxKind not found");
    }
    // operations
    let inl = |g: &FnInfo| g.file.ends_with(TSET) && g.self_ty.as_deref() != Some("fmt");
    let it = Interp::new(r, Trace { cfg: Cfg::new(inl).unroll(Some(5)), panics: Default::default() });
    let sym = |n: &str| it.sym(n, vec![]);
    let klist = |n: usize| V::List(Rc::new((0..n).map(|i| it.sym(&format!("k{i}"), vec![])).collect()));
    let mut seen = BTreeMap::new();
    for f in r.fns.iter().filter(|f| f.file.ends_with(TSET)) {
        let arg = |i: usize| {
            f.sig.inputs.iter().nth(i).map(|a| match a {
                syn::FnArg::Receiver(_) => f.self_ty.clone().unwrap_or_default(),
                syn::FnArg::Typed(t) => quote::quote!(#t).to_string().split(':').next_back().unwrap().trim().to_string(),
            })
        };
        let ty = |i: usize| arg(i).map(|x| if x == "Self" { f.self_ty.clone().unwrap_or_default() } else { x }).unwrap_or_default();
        let (t0, t1) = (ty(0), ty(1));
        let mk = |s: &str, n: &str| if s.contains("SyntaxKind") { sym(n) } else { ts(&it, n) };
        let leaf = |s: &str, n: &str| if s.contains("SyntaxKind") { format!("mask:{n}") } else { n.to_string() };
        let q = format!("{}::{}", f.self_ty.clone().unwrap_or_default(), f.name);
        match (f.self_ty.as_deref(), f.name.as_str()) {
            (Some(_), "union" | "add" | "bitor") => {
                let l = [leaf(&t0, "a"), leaf(&t1, "b")];
                let l: Vec<&str> = l.iter().map(|x| x.as_str()).collect();
                bit_op(r, rep, &it, f, BitOp { ty: &t0, name: &f.name, args: vec![mk(&t0, "a"), mk(&t1, "b")], leaves: l, spec: &|b| b[0] | b[1], what: &q });
                *seen.entry(f.name.clone()).or_insert(0) += 1;
            }
            (Some("TokenSet"), "sub") => {
                bit_op(r, rep, &it, f, BitOp { ty: &t0, name: &f.name, args: vec![ts(&it, "a"), ts(&it, "b")], leaves: vec!["a", "b"], spec: &|b| b[0] & !b[1], what: &q });
                *seen.entry(f.name.clone()).or_insert(0) += 1;
            }
            (Some("TokenSet"), "from") => {
                bit_op(r, rep, &it, f, BitOp { ty: "TokenSet", name: "from", args: vec![sym("a")], leaves: vec!["mask:a"], spec: &|b| b[0], what: &q });
                *seen.entry(f.name.clone()).or_insert(0) += 1;
            }
            (Some("TokenSet"), "new") => {
                for n in 0..=4usize {
                    let l: Vec<String> = (0..n).map(|i| format!("mask:k{i}")).collect();
                    bit_op(r, rep, &it, f, BitOp { ty: "TokenSet", name: "new", args: vec![klist(n)], leaves: l.iter().map(|x| x.as_str()).collect(), spec: &|b| b.iter().any(|x| *x), what: &format!("a set built of {n} kinds") });
                }
                *seen.entry(f.name.clone()).or_insert(0) += 1;
            }
            (None, "mask") => {
                bit_op(r, rep, &it, f, BitOp { ty: "", name: "mask", args: vec![sym("a")], leaves: vec!["mask:a"], spec: &|b| b[0], what: "the bit of a kind" });
                *seen.entry(f.name.clone()).or_insert(0) += 1;
            }
            (Some("TokenSet"), "contains" | "is_empty") => {
                let has = f.name == "contains";
                let ps = run(&it, f.id, Some(if has { vec![ts(&it, "a"), sym("k")] } else { vec![ts(&it, "a")] }));
                rep.floor(&format!("paths of {}", f.name), ps.len(), 1);
                for p in &ps {
                    // two positions of the bit set: that of the kind asked for, and any other
                    for world in 0..4u32 {
                        let (ak, aj) = (world & 1 == 1, world & 2 == 2);
                        let want = if has { ak } else { !ak && !aj };
                        let mut live = true;
                        let mut other = vec![];
                        for (t, fa) in p.st.facts.iter() {
                            match (fa, holds(&it, &p.st, &V::Sym(*t), ak, aj)) {
                                (Fact::Bool(b), Some(x)) => live &= *b == x,
                                _ => other.push(cfull(&it, &V::Sym(*t))),
                            }
                        }
                        rep.ob(other.is_empty(), format!("{}:other", f.name), format!("{q} depends on {other:?}"), &f.file, f.line);
                        if !live {
                            continue;
                        }
                        let got = match &p.ret {
                            V::Bool(b) => Some(*b),
                            x => holds(&it, &p.st, x, ak, aj),
                        };
                        rep.ob(got == Some(want), format!("{}:answer", f.name), format!("{q} answers {got:?} when the kind's bit is {ak} and another is {aj}"), &f.file, f.line);
                    }
                }
                *seen.entry(f.name.clone()).or_insert(0) += 1;
            }
            _ => {}
        }
    }
    for (n, min) in [("union", 1), ("add", 1), ("bitor", 3), ("sub", 1), ("from", 1), ("new", 1), ("mask", 1), ("contains", 1), ("is_empty", 1)] {
        rep.floor(&format!("definitions of {n}"), seen.get(n).copied().unwrap_or(0), min);
    }
    if let Some(c) = r.consts.iter().find(|c| c.name == "EMPTY" && c.self_ty.as_deref() == Some("TokenSet")) {
        let e = c.expr;
        let s = quote::quote!(#e).to_string().replace(' ', "");
        rep.ob(matches!(s.as_str(), "TokenSet(0)" | "Self(0)" | "TokenSet(0u128)" | "TokenSet::new(&[])"), "EMPTY", format!("TokenSet::EMPTY is {s}"), TSET, 0);
    } else {
        rep.problem("TokenSet::EMPTY not found");
    }
    recovery(r, rep, &k);
    rep.assume("u128 shifts, `|`, `&`, `!` and comparison with zero mean what they mean in Rust");
    std::mem::replace(rep, Report::new(R7))
}

fn recovery(r: &Repo, rep: &mut Report, k: &Rc<Kinds>) {
    let inl = |g: &FnInfo| (g.file.ends_with(TSET) || g.file.ends_with(RSET)) && g.name != "contains";
    let mk = || Interp::new(r, Trace { cfg: Cfg::new(inl).kinds(k.clone()).mhook(keywords), panics: Default::default() });
    // sets of names stay what std says they are
    fn keywords<'a>(it: &Interp<Trace<'a>>, cx: &Rc<Cx>, st: &St<TW>, c: &MCall) -> Option<Out<TW>> {
        let rv = it.deref(st, &c.recv);
        let named = |s: &str| cfull(it, &rv).ends_with(s);
        if !named("keywords") && !named("kws") && !cfull(it, &rv).contains("HashSet") {
            return None;
        }
        match c.name {
            "contains" | "is_empty" => {
                let mut a = vec![rv.clone()];
                a.extend(c.args.iter().map(|x| norm(it, st, x)));
                Some(vec![(st.clone(), Flow::Val(it.sym(&format!("kw.{}()", c.name), a)))])
            }
            "insert" | "remove" | "extend" => {
                let mut s = st.clone();
                let mut a = vec![rv.clone()];
                a.extend(c.args.iter().map(|x| norm(it, st, x)));
                s.event(&format!("kw.{}", c.name), a, cx.func, c.line);
                Some(vec![(s, Flow::Val(V::Unit))])
            }
            _ => None,
        }
    }
    let rs = |it: &Interp<Trace>, n: &str, kw: &str| strukt("RecoverySet", vec![("token_set", ts(it, n)), ("keywords", it.sym(kw, vec![]))]);
    struct C<'a> {
        name: &'a str,
        arg: &'a dyn Fn(&Interp<Trace>) -> V,
        leaves: &'a [&'a str],
        spec: &'a dyn Fn(&[bool]) -> bool,
        kw: Option<(&'a str, &'a str)>,
    }
    let tok = |it: &Interp<Trace>| V::Ctor(Rc::from("SyntaxKind"), Rc::new(vec![it.sym("k", vec![])]));
    let word = |it: &Interp<Trace>| V::Ctor(Rc::from("KwIdent"), Rc::new(vec![it.sym("w", vec![])]));
    let keep: &dyn Fn(&[bool]) -> bool = &|b| b[0];
    let or: &dyn Fn(&[bool]) -> bool = &|b| b[0] | b[1];
    let minus: &dyn Fn(&[bool]) -> bool = &|b| b[0] & !b[1];
    let cases = [
        C { name: "with_another_rs", arg: &|it| rs(it, "b", "kws"), leaves: &["a", "b"], spec: or, kw: Some(("extend", "kws")) },
        C { name: "with_ts", arg: &|it| ts(it, "b"), leaves: &["a", "b"], spec: or, kw: None },
        C { name: "with_kw", arg: &|it| it.sym("w", vec![]), leaves: &["a"], spec: keep, kw: Some(("insert", "w")) },
        C { name: "with_recovery_token", arg: &tok, leaves: &["a", "mask:k"], spec: or, kw: None },
        C { name: "with_recovery_token", arg: &word, leaves: &["a"], spec: keep, kw: Some(("insert", "w")) },
        C { name: "without_recovery_token", arg: &tok, leaves: &["a", "mask:k"], spec: minus, kw: None },
        C { name: "without_recovery_token", arg: &word, leaves: &["a"], spec: keep, kw: Some(("remove", "w")) },
    ];
    for c in cases {
        let Some(f) = need(r, rep, RSET, Some("RecoverySet"), c.name) else { continue };
        let it = mk();
        let ps = run(&it, f.id, Some(vec![rs(&it, "a", "keywords"), (c.arg)(&it)]));
        rep.floor(&format!("paths of {}", c.name), ps.len(), 1);
        for p in &ps {
            let ret = it.deref(&p.st, &p.ret);
            let t = field(&ret, "token_set").unwrap_or(V::Unit);
            for bits in 0..1u32 << c.leaves.len() {
                let v: Vec<bool> = (0..c.leaves.len()).map(|i| bits >> i & 1 == 1).collect();
                let env: BTreeMap<String, bool> = c.leaves.iter().zip(&v).map(|(l, x)| (l.to_string(), *x)).collect();
                rep.ob(bit(&it, &p.st, &t, &env) == Some((c.spec)(&v)), format!("{}:tokens", c.name), format!("{} leaves the token set {}", c.name, cfull(&it, &t)), &f.file, f.line);
            }
            let kw: Vec<(String, String)> = p
                .st
                .events
                .iter()
                .filter(|e| e.name.starts_with("kw.") && cfull(&it, &e.args[0]) == "keywords")
                .map(|e| (e.name[3..].to_string(), cfull(&it, &norm(&it, &p.st, &e.args[1]))))
                .collect();
            let want: Vec<(String, String)> = c.kw.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
            let kws = field(&ret, "keywords").map(|x| cfull(&it, &x)).unwrap_or_default();
            rep.ob(kw == want && kws == "keywords", format!("{}:names", c.name), format!("{} changes the names by {kw:?} (must be {want:?}) and returns {kws}", c.name), &f.file, f.line);
        }
    }
    // membership of the current token
    for (file, ty, name, n) in [(RSET, "RecoverySet", "contains_current", false), (PARSER, "Parser", "nth_at_rset", true)] {
        let Some(f) = need(r, rep, file, Some(ty), name) else { continue };
        for id in [true, false] {
            let kk = k.clone();
            let kind = if id { k.ident } else { k.t.get("{").copied().unwrap_or(2) };
            let cfg = Cfg::new(move |g: &FnInfo| g.file.ends_with(RSET) && g.name != "contains_current" || g.file.ends_with(PARSER) && g.name == "nth_at_rset")
                .kinds(k.clone())
                .mhook(move |it, cx, st, c| match (c.name, c.args.len()) {
                    ("current", 0) | ("nth", 1) => Some(vec![(st.clone(), Flow::Val(V::Kinds(KSet::one(kind))))]),
                    ("contains", 1) if cfull(it, &it.deref(st, &c.recv)).starts_with('a') || matches!(it.deref(st, &c.recv), V::Ctor(..)) => {
                        let x = match it.deref(st, &c.args[0]) {
                            V::Kinds(q) => kk.show(&q),
                            x => cfull(it, &x),
                        };
                        Some(vec![(st.clone(), Flow::Val(it.sym(&format!("has:{x}"), vec![])))])
                    }
                    ("contains", 1) => {
                        let x = norm(it, st, &c.args[0]);
                        Some(vec![(st.clone(), Flow::Val(it.sym("haskw", vec![x])))])
                    }
                    ("current_text", 0) => Some(vec![(st.clone(), Flow::Val(it.sym("text", vec![V::Int(0)])))]),
                    ("nth_text", 1) => Some(vec![(st.clone(), Flow::Val(it.sym("text", vec![c.args[0].clone()])))]),
                    _ => {
                        let _ = cx;
                        None
                    }
                });
            let it = Interp::new(r, Trace { cfg, panics: Default::default() });
            let me = rs(&it, "a", "keywords");
            let p = it.sym("p", vec![]);
            let ps = run(&it, f.id, Some(if n { vec![p, V::Int(0), me] } else { vec![me, p] }));
            rep.floor(&format!("paths of {name}"), ps.len(), 1);
            let has = format!("has:{}", k.name(kind));
            let paths: Vec<(St<TW>, V)> = ps.into_iter().map(|p| (p.st, p.ret)).collect();
            let txt = |v: &V| cfull(&it, v).replace("haskw(text(0))", "haskw").replace("text(0).haskw", "haskw");
            if id {
                table(&it, rep, &paths, &format!("{name} at a name"), (&f.file, f.line), &[("kind", &[&has]), ("word", &["haskw"])], &txt, &|b| b[0] || b[1]);
            } else {
                table(&it, rep, &paths, &format!("{name} at another token"), (&f.file, f.line), &[("kind", &[&has])], &txt, &|b| b[0]);
            }
        }
    }
}

// ------------------------------------------------------------------ windows of raw tokens

pub struct Window {
    pub toks: Vec<(usize, bool)>,
    pub word: Option<&'static str>,
}
pub struct Texts {
    /// kind -> the text it is written as
    pub of: BTreeMap<usize, String>,
    /// punctuation the lexer produces as one token
    pub raw: BTreeMap<usize, String>,
    /// punctuation glued by the parser
    pub glued: BTreeMap<usize, String>,
}
impl Texts {
    pub fn new(k: &Kinds) -> Texts {
        let punct = |s: &str| !s.is_empty() && s.chars().all(|c| c.is_ascii_punctuation() && c != '_' && c != '"');
        let lexed: BTreeSet<usize> = k.tok.values().copied().collect();
        let of: BTreeMap<usize, String> = k.t.iter().map(|(t, k)| (*k, t.clone())).collect();
        let p: BTreeMap<usize, String> = of.iter().filter(|(_, t)| punct(t)).map(|(k, t)| (*k, t.clone())).collect();
        Texts { raw: p.iter().filter(|(k, _)| lexed.contains(k)).map(|(k, t)| (*k, t.clone())).collect(), glued: p.iter().filter(|(k, _)| !lexed.contains(k)).map(|(k, t)| (*k, t.clone())).collect(), of }
    }
    /// the first raw token of this text (the longest the lexer knows)
    fn munch(&self, s: &str) -> Option<(usize, usize)> {
        self.raw.iter().filter(|(_, t)| s.starts_with(t.as_str())).max_by_key(|(_, t)| t.len()).map(|(k, t)| (*k, t.len()))
    }
    /// how the lexer cuts this text
    pub fn split(&self, s: &str) -> Option<Vec<usize>> {
        let mut out = vec![];
        let mut rest = s;
        while !rest.is_empty() {
            let (k, n) = self.munch(rest)?;
            out.push(k);
            rest = &rest[n..];
        }
        Some(out)
    }
    /// can the lexer produce these tokens in this order, joined where they say so?
    fn possible(&self, w: &Window) -> bool {
        let mut i = 0;
        while i < w.toks.len() {
            let mut j = i;
            while j < w.toks.len() && w.toks[j].1 && j + 1 < w.toks.len() && self.raw.contains_key(&w.toks[j].0) && self.raw.contains_key(&w.toks[j + 1].0) {
                j += 1;
            }
            if (i..=j).all(|x| self.raw.contains_key(&w.toks[x].0)) {
                let s: String = (i..=j).map(|x| self.raw[&w.toks[x].0].as_str()).collect();
                if self.split(&s) != Some((i..=j).map(|x| w.toks[x].0).collect()) {
                    return false;
                }
            }
            i = j + 1;
        }
        true
    }
    /// is the text of `k` spelled by the joined tokens from `n`? how many tokens?
    fn spelled(&self, w: &Window, n: usize, k: usize) -> Option<usize> {
        let Some(t) = self.raw.get(&k).or_else(|| self.glued.get(&k)) else {
            return (w.toks.get(n)?.0 == k).then_some(1);
        };
        let mut s = String::new();
        for (i, (kk, joint)) in w.toks.iter().enumerate().skip(n) {
            s.push_str(self.raw.get(kk)?);
            if s == *t {
                return Some(i - n + 1);
            }
            if !t.starts_with(s.as_str()) || !*joint {
                return None;
            }
        }
        None
    }
}
/// the parser over one window: `lookahead_nth` answers from it
fn windowed<'r>(r: &'r Repo, k: &Rc<Kinds>, w: Rc<std::cell::RefCell<Window>>, inline: &'static [&'static str]) -> Interp<'r, Trace<'r>> {
    let kk = k.clone();
    let cfg = Cfg::new(move |g: &FnInfo| {
        g.file.ends_with(PARSER) && (inline.contains(&g.name.as_str()) || !PRIMITIVES.contains(&g.name.as_str()))
    })
        .kinds(k.clone())
        .events(|n| last(n) == "do_bump")
        .mhook(move |it, _cx, st, c| match c.name {
            "lookahead_nth" => {
                let V::Int(n) = it.deref(st, c.args.first()?) else { return None };
                let w = w.borrow();
                let (kd, j) = w.toks.get(n as usize).copied().unwrap_or((kk.eof, false));
                Some(vec![(st.clone(), Flow::Val(strukt("Token", vec![("kind", V::Kinds(KSet::one(kd))), ("is_jointed_to_next", V::Bool(j))])))])
            }
            "is_keyword" => {
                let V::Str(s) = it.deref(st, c.args.first()?) else { return None };
                let w = w.borrow();
                Some(vec![(st.clone(), Flow::Val(V::Bool(w.word == Some(&*s))))])
            }
            _ => None,
        });
    Interp::new(r, Trace { cfg, panics: Default::default() })
}
/// functions of parser.rs that a window does not look into; any other helper there is followed
const PRIMITIVES: &[&str] = &[
    "abandon", "abandon_with_rollback", "at_same_pos_as", "at_ts", "at_ts_fn", "bump_any", "bump_remap", "bump_remap_many",
    "complete", "current_context", "current_text", "do_bump", "error", "error_and_bump", "error_and_recover", "event_pos", "expect",
    "expect_with_error", "extend_to", "finish", "if_at", "iterate_to_", "kind", "last_token", "lookahead_nth", "is_keyword",
    "merged_recovery_set", "new", "nth_at_rset", "nth_at_ts", "nth_text", "outer_recovery_set", "pop_event", "pos", "precede",
    "prev_ws", "push_error", "push_event", "push_event_preceding", "reset_recovery", "should_stop", "start", "stmt_kind",
    "with_recovery", "with_recovery_token", "with_recovery_token_set", "with_recovery_tokens", "with_stmt_kind",
    "wrap_with_error",
];
const LOOK: &[&str] = &["current", "nth", "at", "nth_at", "at_composite2", "at_composite3", "at_composite4", "at_contextual_kw", "at_contextual_kw_ident", "nth_is_jointed_to_next", "eat", "bump"];

fn windows(k: &Kinds, t: &Texts, firsts: &[usize]) -> Vec<Window> {
    let mut out = vec![];
    let mut second: Vec<usize> = t.raw.keys().copied().filter(|x| "=<>&|!+-*/%^.:".contains(&t.raw[x][..1])).collect();
    second.push(k.ident);
    second.push(k.eof);
    let third: Vec<usize> = second.iter().copied().filter(|x| t.raw.get(x).is_none_or(|s| s.len() == 1 || s.starts_with('='))).collect();
    for a in firsts {
        for ja in [false, true] {
            for b in &second {
                for jb in [false, true] {
                    for c in &third {
                        if !ja && (jb || *c != k.eof) {
                            continue;
                        }
                        let w = Window { toks: vec![(*a, ja), (*b, jb), (*c, false)], word: None };
                        if t.possible(&w) && !(*a == k.eof && ja) && !(*b == k.eof && (jb || *c != k.eof)) {
                            out.push(w);
                        }
                    }
                }
            }
        }
    }
    out
}
fn show_w(k: &Kinds, t: &Texts, w: &Window) -> String {
    let mut s = String::new();
    for (kd, j) in &w.toks {
        if *kd == k.eof {
            break;
        }
        s.push_str(t.of.get(kd).map(|x| x.as_str()).unwrap_or(k.name(*kd)));
        if !*j {
            s.push(' ');
        }
    }
    format!("`{}`", w.word.unwrap_or(s.trim()))
}

// ------------------------------------------------------------------ S09: composite tokens

pub fn s09(r: &Repo, _t: bool) -> Report {
    let mut rep = Report::new(R9);
    let rep = &mut rep;
    let k = Rc::new(Kinds::load(r));
    for p in &k.problems {
        rep.problem(p.clone());
    }
    let t = Texts::new(&k);
    rep.floor("punctuation the lexer knows", t.raw.len(), 30);
    rep.floor("punctuation the parser glues", t.glued.len(), 5);
    // what the parser asks for must be producible at all
    let (Some(at), Some(eat), Some(bump)) = (need(r, rep, PARSER, Some("Parser"), "nth_at"), need(r, rep, PARSER, Some("Parser"), "eat"), need(r, rep, PARSER, Some("Parser"), "bump")) else {
        return std::mem::replace(rep, Report::new(R9));
    };
    let used = used_kinds(r, &k);
    rep.floor("punctuation used in the grammar", used.iter().filter(|x| t.raw.contains_key(x) || t.glued.contains_key(x)).count(), 30);
    let w0 = Rc::new(std::cell::RefCell::new(Window { toks: vec![], word: None }));
    let it = windowed(r, &k, w0.clone(), LOOK);
    let p = it.sym("p", vec![]);
    let kv = |x: usize| V::Kinds(KSet::one(x));
    let firsts: Vec<usize> = t.raw.keys().copied().chain([k.ident, k.eof]).collect();
    let ws = windows(&k, &t, &firsts);
    let mut nw = 0;
    for (kd, text) in t.raw.iter().chain(t.glued.iter()) {
        if !used.contains(kd) {
            continue;
        }
        let glued = t.glued.contains_key(kd);
        let mut ok = false;
        for w in &ws {
            let w = Window { toks: w.toks.clone(), word: None };
            // only the first token and its neighbours decide
            if w.toks[0].0 != *kd && !t.raw.get(&w.toks[0].0).is_some_and(|s| text.starts_with(s.as_str())) && (w.toks[0].1 || w.toks[1].0 != k.eof) {
                continue;
            }
            if !glued && w.toks[0].1 && !(w.toks[2].0 == k.eof) {
                continue;
            }
            nw += 1;
            let want = if glued || t.raw.contains_key(kd) { t.spelled(&w, 0, *kd) } else { None };
            // a plain token is what it is, whatever follows
            let want = if glued { want } else { (w.toks[0].0 == *kd).then_some(1) };
            ok |= want.is_some();
            let sh = show_w(&k, &t, &w);
            for n in 0..=1usize {
                // at offset n: the same window after another token
                let mut toks = w.toks.clone();
                if n == 1 {
                    toks.insert(0, (k.ident, false));
                }
                *w0.borrow_mut() = Window { toks, word: None };
                let res = run(&it, at.id, Some(vec![p.clone(), V::Int(n as i128), kv(*kd)]));
                let good = res.len() == 1 && res[0].ret == V::Bool(want.is_some());
                rep.ob(good, format!("at:{text}"), format!("asked whether {sh} starts with `{text}`, nth_at({n}) answers {}; must be {}", res.iter().map(|p| it.show(&p.ret)).collect::<Vec<_>>().join(" or "), want.is_some()), &at.file, at.line);
            }
            *w0.borrow_mut() = Window { toks: w.toks.clone(), word: None };
            for (f, name) in [(eat, "eat"), (bump, "bump")] {
                let res = run(&it, f.id, Some(vec![p.clone(), kv(*kd)]));
                if name == "bump" && want.is_none() {
                    rep.ob(res.is_empty() || res.iter().all(|p| p.st.events.is_empty()), format!("bump:{text}"), format!("bump of `{text}` at {sh} consumes something else"), &f.file, f.line);
                    continue;
                }
                let got: Vec<String> = res
                    .iter()
                    .map(|p| {
                        let b: Vec<String> = p.st.events.iter().map(|e| format!("{} as {}", e.args.get(2).map(|x| it.show(x)).unwrap_or_default(), if e.args.get(1) == Some(&kv(*kd)) { text.clone() } else { "another kind".into() })).collect();
                        format!("{} consuming {:?}", if name == "eat" { it.show(&p.ret) } else { "done".into() }, b)
                    })
                    .collect();
                let w = match want {
                    Some(n) => format!("{} consuming {:?}", if name == "eat" { "true" } else { "done" }, [format!("{n} as {text}")]),
                    None => "false consuming []".to_string(),
                };
                rep.ob(got == [w.clone()], format!("{name}:{text}"), format!("{name} of `{text}` at {sh}: {got:?}; must be {w:?}"), &f.file, f.line);
            }
        }
        rep.ob(ok, format!("spelled:{text}"), format!("no sequence of lexer tokens spells `{text}`, which the grammar asks for"), &at.file, at.line);
    }
    rep.count("token windows", nw);
    // lookahead primitives
    expect(r, rep, &k);
    rep.assume("the lexer cuts punctuation by the longest token it knows (decided by S05), `is_jointed_to_next` means nothing stands between two tokens (decided by S06)");
    std::mem::replace(rep, Report::new(R9))
}
/// kinds the grammar may look for: all it names, except as what a token or node becomes
fn asked_kinds(r: &Repo, k: &Kinds) -> BTreeSet<usize> {
    struct M<'a>(&'a Kinds, BTreeSet<usize>);
    impl<'a> syn::visit::Visit<'a> for M<'_> {
        fn visit_expr_method_call(&mut self, c: &'a syn::ExprMethodCall) {
            self.visit_expr(&c.receiver);
            if !matches!(c.method.to_string().as_str(), "bump_remap" | "bump_remap_many" | "complete") {
                c.args.iter().for_each(|a| self.visit_expr(a));
            }
        }
        fn visit_macro(&mut self, m: &'a syn::Macro) {
            if m.path.is_ident("T") {
                self.1.extend(self.0.t.get(&super::kinds::norm(&m.tokens)));
            } else if m.path.is_ident("ts") {
                if let Ok(a) = m.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated) {
                    let a: Vec<syn::Expr> = a.into_iter().collect();
                    for e in &a {
                        match e {
                            syn::Expr::Macro(m) => self.1.extend(self.0.t.get(&super::kinds::norm(&m.mac.tokens))),
                            syn::Expr::Path(p) => self.1.extend(self.0.idx.get(&p.path.segments.last().unwrap().ident.to_string())),
                            _ => {}
                        }
                    }
                }
            }
        }
    }
    let mut m = M(k, BTreeSet::new());
    for f in r.fns.iter().filter(|f| f.file.contains("parse/grammar")) {
        syn::visit::Visit::visit_block(&mut m, f.block);
    }
    for c in r.consts.iter().filter(|c| c.file.contains("parse/grammar")) {
        syn::visit::Visit::visit_expr(&mut m, c.expr);
    }
    m.1
}
/// kinds named by `T![..]` or by name in the grammar
fn used_kinds(r: &Repo, k: &Kinds) -> BTreeSet<usize> {
    struct M<'a>(&'a Kinds, BTreeSet<usize>);
    impl M<'_> {
        fn toks(&mut self, ts: proc_macro2::TokenStream) {
            let v: Vec<proc_macro2::TokenTree> = ts.into_iter().collect();
            for (i, x) in v.iter().enumerate() {
                match x {
                    proc_macro2::TokenTree::Group(g) => {
                        let is_t = i >= 2 && v[i - 2].to_string() == "T" && v[i - 1].to_string() == "!";
                        if is_t {
                            if let Some(k) = self.0.t.get(&super::kinds::norm(&g.stream())) {
                                self.1.insert(*k);
                            }
                        } else {
                            self.toks(g.stream())
                        }
                    }
                    proc_macro2::TokenTree::Ident(id) => {
                        if let Some(k) = self.0.idx.get(&id.to_string()) {
                            self.1.insert(*k);
                        }
                    }
                    _ => {}
                }
            }
        }
    }
    let mut m = M(k, BTreeSet::new());
    for f in r.fns.iter().filter(|f| f.file.contains("parse/grammar")) {
        let b = f.block;
        m.toks(quote::quote!(#b));
    }
    m.1
}
fn expect(r: &Repo, rep: &mut Report, k: &Rc<Kinds>) {
    // expect: eats or reports, never both
    for name in ["expect", "expect_with_error"] {
        let Some(f) = need(r, rep, PARSER, Some("Parser"), name) else { continue };
        let cfg = Cfg::new(|g: &FnInfo| g.file.ends_with(PARSER) && matches!(g.name.as_str(), "expect" | "expect_with_error" | "error")).kinds(k.clone());
        let t = tr(r, rep, f.id, None, cfg);
        rep.floor(&format!("paths of {name}"), t.paths.len(), 2);
        for p in &t.paths {
            let ate = p.st.facts.iter().find_map(|(x, f)| match f {
                Fact::Bool(b) if cfull(&t.it, &V::Sym(*x)).contains("eat") => Some(*b),
                _ => None,
            });
            let errs = p.st.events.iter().filter(|e| last(&e.name) == "push_error").count();
            let right = p.st.events.iter().filter(|e| last(&e.name) == "eat").all(|e| e.args.get(1).is_some_and(|x| cfull(&t.it, x) == "kind"));
            let answer = match &p.ret {
                V::Bool(b) => Some(*b),
                x if op(&t.it, x).0.contains("eat") => ate,
                _ => None,
            };
            rep.ob(
                right && ate.is_some() && errs == (ate == Some(false)) as usize && answer == ate,
                format!("{name}"),
                format!("{name}: eat answers {ate:?}, {errs} errors reported, returns {}", t.it.show(&p.ret)),
                &f.file,
                f.line,
            );
        }
    }
}

// ------------------------------------------------------------------ S08: operators

/// operator text, its level (a higher level binds tighter)
const LADDER: &[(&[&str], i128)] = &[
    (&["=", "+=", "-=", "*=", "/=", "%=", "<<=", ">>=", "^=", "|=", "&=", "==>", "<==>"], 0),
    (&["||"], 3),
    (&["&&"], 4),
    (&["==", "!=", "<", ">", "<=", ">="], 5),
    (&["|"], 6),
    (&["^"], 7),
    (&["&"], 8),
    (&["<<", ">>"], 9),
    (&["+", "-"], 10),
    (&["*", "/", "%"], 11),
];

pub fn s08(r: &Repo, _t: bool) -> Report {
    let mut rep = Report::new(R8);
    let rep = &mut rep;
    let k = Rc::new(Kinds::load(r));
    for p in &k.problems {
        rep.problem(p.clone());
    }
    let t = Texts::new(&k);
    let bps = current_op(r, rep, &k, &t);
    climb(r, rep);
    unary(r, rep, &k, &bps);
    ast_ops(r, rep, &k, &t, &bps);
    rep.assume("at/eat/bump of composite tokens are exact (decided by S09); the event stream is turned into the tree it denotes (decided by S06)");
    std::mem::replace(rep, Report::new(R8))
}
fn current_op(r: &Repo, rep: &mut Report, k: &Rc<Kinds>, t: &Texts) -> BTreeMap<String, i128> {
    let mut bps: BTreeMap<String, i128> = BTreeMap::new();
    let Some(f) = need(r, rep, EXPRS, None, "current_op") else { return bps };
    let w0 = Rc::new(std::cell::RefCell::new(Window { toks: vec![], word: None }));
    let it = windowed(r, k, w0.clone(), LOOK);
    let p = strukt("Parser", vec![("token_source", it.sym("source", vec![]))]);
    let ask = |w: Window| -> Result<(i128, usize), String> {
        *w0.borrow_mut() = w;
        let res = run(&it, f.id, Some(vec![p.clone()]));
        match res.as_slice() {
            [x] => match &x.ret {
                V::Tuple(a) => match (a.first(), a.get(1)) {
                    (Some(V::Int(b)), Some(V::Kinds(q))) if q.len() == 1 => Ok((*b, q.iter().next().unwrap())),
                    _ => Err(it.show(&x.ret)),
                },
                v => Err(it.show(v)),
            },
            _ => Err(format!("{} outcomes", res.len())),
        }
    };
    let level: BTreeMap<&str, i128> = LADDER.iter().flat_map(|(o, l)| o.iter().map(move |o| (*o, *l))).collect();
    let kind_of: BTreeMap<&str, usize> = t.raw.iter().chain(t.glued.iter()).map(|(k, s)| (s.as_str(), *k)).collect();
    // every operator alone
    for o in level.keys().chain([&".."]) {
        let Some(kd) = kind_of.get(o) else {
            rep.problem(format!("operator `{o}` has no token kind"));
            continue;
        };
        let Some(sp) = t.split(o) else {
            rep.problem(format!("the lexer does not know `{o}`"));
            continue;
        };
        let n = sp.len();
        let mut toks: Vec<(usize, bool)> = sp.into_iter().enumerate().map(|(i, x)| (x, i + 1 < n)).collect();
        toks.push((k.ident, false));
        match ask(Window { toks, word: None }) {
            Ok((b, q)) => {
                rep.ob(b > 0 && q == *kd, format!("op:{o}"), format!("at `{o}` the operator found is {} with binding power {b}", k.name(q)), &f.file, f.line);
                bps.insert(o.to_string(), b);
            }
            Err(e) => rep.viol(format!("op:{o}"), format!("at `{o}` the operator could not be determined: {e}"), &f.file, f.line),
        }
    }
    // the ladder
    for (a, la) in &level {
        for (b, lb) in &level {
            let (Some(x), Some(y)) = (bps.get(*a), bps.get(*b)) else { continue };
            rep.ob(x.cmp(y) == la.cmp(lb), format!("ladder:{a}:{b}"), format!("`{a}` has binding power {x} and `{b}` {y}: their order must be {:?}", la.cmp(lb)), &f.file, f.line);
        }
    }
    rep.count("operators", bps.len());
    // every sequence of tokens: the longest operator it starts with
    let firsts: Vec<usize> = t.raw.keys().copied().chain([k.eof]).collect();
    let mut nw = 0;
    for w in windows(k, t, &firsts) {
        nw += 1;
        let best = t
            .raw
            .iter()
            .chain(t.glued.iter())
            .filter(|(kd, s)| level.contains_key(s.as_str()) || s.as_str() == ".." || t.raw.contains_key(kd))
            .filter(|(kd, _)| t.spelled(&w, 0, **kd).is_some())
            .max_by_key(|(_, s)| s.len());
        let want = best.filter(|(_, s)| level.contains_key(s.as_str()) || s.as_str() == "..");
        let sh = show_w(k, t, &w);
        match ask(w) {
            Ok((b, q)) => {
                let good = match want {
                    Some((kd, s)) => q == *kd && bps.get(s.as_str()) == Some(&b),
                    None => b == 0,
                };
                rep.ob(good, format!("window:{}", want.map(|x| x.1.as_str()).unwrap_or("none")), format!("at {sh} the operator found is {} ({b}); must be {}", k.name(q), want.map(|x| format!("`{}`", x.1)).unwrap_or("none".into())), &f.file, f.line);
            }
            Err(e) => rep.viol("window".to_string(), format!("at {sh} the operator could not be determined: {e}"), &f.file, f.line),
        }
    }
    rep.count("token windows", nw);
    // the words
    let top = bps.values().max().copied().unwrap_or(0);
    let asn = bps.get("=").copied().unwrap_or(1);
    for w in ["as", "is"] {
        let toks = match (w, k.kw.get(w)) {
            ("as", Some(x)) => vec![(*x, false), (k.ident, false)],
            _ => vec![(k.ident, false), (k.ident, false)],
        };
        let r = ask(Window { toks, word: Some(w) });
        let name = k.t.get(w).copied();
        rep.ob(matches!(&r, Ok((b, q)) if *b > asn && *b <= top && Some(*q) == name), format!("op:{w}"), format!("at `{w}`: {r:?}; must be an operator binding tighter than an assignment"), &f.file, f.line);
        if let Ok((b, _)) = r {
            bps.insert(w.into(), b);
        }
    }
    for w in ["isnt", "foo"] {
        let r = ask(Window { toks: vec![(k.ident, false), (k.ident, false)], word: Some(w) });
        rep.ob(matches!(&r, Ok((0, _))), "op:name", format!("at the name `{w}`: {r:?}; must be no operator"), &f.file, f.line);
    }
    for (kd, n) in k.names.iter().enumerate() {
        if !k.all.has(kd) || t.raw.contains_key(&kd) || kd == k.ident || k.kw.get("as") == Some(&kd) {
            continue;
        }
        let r = ask(Window { toks: vec![(kd, false), (k.ident, false)], word: None });
        rep.ob(matches!(&r, Ok((0, _))), format!("op:{n}"), format!("at {n}: {r:?}; must be no operator"), &f.file, f.line);
    }
    bps
}
/// the loop of `expr_bp`
fn climb(r: &Repo, rep: &mut Report) {
    let Some(f) = need(r, rep, EXPRS, None, "expr_bp") else { return };
    const CONSUME: &[&str] = &["bump", "expr_bp", "cast_expr", "is_expr", "bump_any", "bump_remap"];
    fn pos(st: &St<TW>) -> i128 {
        st.events.iter().filter(|e| CONSUME.contains(&last(&e.name))).count() as i128
    }
    let cfg = Cfg::new(|_| false)
        .unroll(Some(3))
        .cap(60000)
        .events(|n| !matches!(last(n), "T!" | "current_op"))
        .mhook(|it, _cx, st, c| {
            if matches!(c.name, "at" | "at_ts" | "at_contextual_kw_ident" | "at_contextual_kw" | "current" | "nth_at") {
                let a: Vec<V> = c.args.iter().map(|x| it.deref(st, x)).chain([V::Int(pos(st))]).collect();
                return Some(vec![(st.clone(), Flow::Val(it.sym(&format!("look:{}", c.name), a)))]);
            }
            None
        })
        .chook(|it, cx, st, segs, args, line| {
            let n = pos(st);
            match segs.last().map(|s| s.as_str()) {
                Some("current_op") => Some(vec![(st.clone(), Flow::Val(V::Tuple(Rc::new(vec![it.sym("bp_of", vec![V::Int(n)]), it.sym("op_of", vec![V::Int(n)])]))))]),
                Some(x @ ("expr_bp" | "cast_expr" | "is_expr")) => {
                    let mut s = st.clone();
                    let a: Vec<V> = args.iter().map(|x| it.deref(st, x)).collect();
                    s.event(x, a, cx.func, line);
                    let v = it.sym(&format!("res:{x}"), vec![V::Int(n)]);
                    Some(vec![(s, Flow::Val(v))])
                }
                _ => None,
            }
        });
    let t = tr(r, rep, f.id, None, cfg);
    rep.floor("paths of expr_bp", t.paths.len(), 10);
    let it = &t.it;
    let lt = |p: &PathR, n: i128| -> Option<bool> {
        let b = it.sym("bp_of", vec![V::Int(n)]);
        let (b, m) = (cfull(it, &b), "bp".to_string());
        p.st.facts.iter().find_map(|(x, fa)| {
            let Fact::Bool(v) = fa else { return None };
            let (o, a) = op(it, &V::Sym(*x));
            if a.len() != 2 {
                return None;
            }
            let (l, rr) = (cfull(it, &a[0]), cfull(it, &a[1]));
            match o.as_str() {
                "<" if l == b && rr == m => Some(*v),
                "<=" if l == m && rr == b => Some(!*v),
                _ => None,
            }
        })
    };
    let look = |p: &PathR, name: &str, what: &str, n: i128| -> Option<bool> {
        p.st.facts.iter().find_map(|(x, fa)| {
            let Fact::Bool(v) = fa else { return None };
            let (o, a) = op(it, &V::Sym(*x));
            (o == format!("look:{name}") && a.last() == Some(&V::Int(n)) && cfull(it, &a[0]).contains(what)).then_some(*v)
        })
    };
    let (file, line) = (f.file.as_str(), f.line);
    let mut shown = 0;
    for p in &t.paths {
        let lhs_some = p.st.facts.iter().find_map(|(x, fa)| {
            let s = cfull(it, &V::Sym(*x));
            match fa {
                Fact::Is(n) if s.contains("lhs") => Some(&**n == "Some"),
                Fact::Not(n) if s.contains("lhs") => Some(n.iter().all(|n| &**n != "Some")),
                _ => None,
            }
        });
        if lhs_some == Some(false) {
            rep.ob(pos(&p.st) == 0 && matches!(&p.ret, V::Ctor(n, _) if &**n == "None"), "climb:none", "expr_bp goes on without an operand", file, line);
            continue;
        }
        let mut n = 0i128; // consuming events so far
        let mut cur: Option<V> = None; // the expression built so far
        let mut pend: Option<(V, i128, bool)> = None; // the marker before it, the operator, is a range
        let mut rec = false;
        let mut stop = false;
        let mut bad: Vec<String> = vec![];
        for e in p.st.events.iter() {
            let nm = last(&e.name);
            let is = |v: Option<&V>, w: &Option<V>| v.is_some() && v == w.as_ref();
            match nm {
                "extend_to" if cur.is_none() => cur = Some(it.sym("CompletedMarker::extend_to()", e.args.to_vec())),
                "cast_expr" | "is_expr" => {
                    if lt(p, n) != Some(false) {
                        bad.push(format!("{nm} without knowing that the operator binds at least as tightly as asked"));
                    }
                    let w = if nm == "cast_expr" { look(p, "at", "\"as\"", n).or(look(p, "at", "as", n)) } else { look(p, "at_contextual_kw_ident", "is", n).or(look(p, "at_contextual_kw", "is", n)) };
                    // or: the operator found is that word
                    let o = cfull(it, &it.sym("op_of", vec![V::Int(n)]));
                    let by_op = p.st.facts.iter().any(|(x, fa)| {
                        let s = cfull(it, &V::Sym(*x));
                        matches!(fa, Fact::Bool(true)) && s.starts_with("==(") && s.contains(&o) && s.contains(if nm == "cast_expr" { "\"as\"" } else { "\"is\"" })
                    });
                    if w != Some(true) && !by_op {
                        bad.push(format!("{nm} where the operator is another"));
                    }
                    if !is(e.args.get(1), &cur) || pend.is_some() {
                        bad.push(format!("{nm} does not take the expression built so far"));
                    }
                    cur = Some(it.sym(&format!("res:{nm}"), vec![V::Int(n)]));
                    n += 1;
                }
                "precede" => {
                    if !is(e.args.first(), &cur) || pend.is_some() {
                        bad.push("the new node does not start before the expression built so far".into());
                    }
                    pend = Some((it.sym("CompletedMarker::precede()", e.args.to_vec()), n, look(p, "at", "range", n) == Some(true) || look(p, "at", "..", n) == Some(true)));
                    rec = false;
                }
                "bump" => {
                    if lt(p, n) != Some(false) {
                        bad.push("an operator is consumed without knowing that it binds at least as tightly as asked".into());
                    }
                    if e.args.get(1) != Some(&it.sym("op_of", vec![V::Int(n)])) {
                        bad.push(format!("consumes {} where the operator is op_of({n})", e.args.get(1).map(|x| cfull(it, x)).unwrap_or_default()));
                    }
                    if pend.as_ref().map(|x| x.1) != Some(n) || rec {
                        bad.push("an operator is consumed outside a new node".into());
                    }
                    n += 1;
                }
                "expr_bp" => {
                    let want = pend.as_ref().map(|x| x.1);
                    let l = e.args.get(2).map(|x| lin_of(it, &p.st, x));
                    let w = want.map(|w| lin_of(it, &p.st, &it.sym("+", vec![it.sym("bp_of", vec![V::Int(w)]), V::Int(1)])));
                    if l.is_none() || l != w || rec {
                        bad.push(format!("the right operand is parsed with binding power {}; left associativity needs that of its operator plus one", e.args.get(2).map(|x| cfull(it, x)).unwrap_or_default()));
                    }
                    let rs = e.args.get(1).map(|x| cfull(it, x)).unwrap_or_default();
                    if rs.contains("forbid_structs: false") || rs.contains("forbid_structs: true") || !rs.contains('r') {
                        bad.push(format!("the right operand is parsed under {rs}: the ban on struct literals must be kept"));
                    }
                    rec = true;
                    n += 1;
                }
                "complete" => match pend.take() {
                    Some((m, _, rg)) => {
                        let kd = e.args.get(2).map(|x| cfull(it, x)).unwrap_or_default();
                        if e.args.first() != Some(&m) || !kd.ends_with(if rg { "RANGE_EXPR" } else { "BIN_EXPR" }) {
                            bad.push(format!("the node is completed as {kd}"));
                        }
                        if !rec {
                            if !rg {
                                bad.push("a binary node has no right operand".into());
                            }
                            stop = true;
                        }
                        cur = Some(it.sym("Marker::complete()", e.args.to_vec()));
                    }
                    None => bad.push("a node is completed that was not started".into()),
                },
                _ => {}
            }
        }
        if pend.is_some() {
            bad.push("the new node is left unfinished".into());
        }
        // the loop may only end when the next operator is too weak (or after a range without end)
        if !stop && lt(p, n) != Some(true) {
            bad.push("stops although the next operator may bind tightly enough".into());
        }
        let got = match &p.ret {
            V::Ctor(n, a) if &**n == "Some" => match a.first() {
                Some(V::Tuple(x)) => x.first().cloned(),
                _ => None,
            },
            _ => None,
        };
        if got.is_none() || got != cur {
            bad.push("does not return the expression built".into());
        }
        rep.ob(bad.is_empty(), format!("climb:{}", bad.first().cloned().unwrap_or_default()), format!("expr_bp, after {n} steps: {}", bad.join("; ")), file, line);
        if shown < 3 {
            rep.sample(format!("expr_bp path with {n} consuming steps returns {}", got.map(|x| cfull(it, &x)).unwrap_or_default()));
            shown += 1;
        }
    }
    // whoever asks for an expression asks for at least binding power one
    let mut n = 0;
    let mut todo = vec![("expr_bp".to_string(), 2usize)];
    let mut done = BTreeSet::new();
    while let Some((callee, ix)) = todo.pop() {
        if !done.insert((callee.clone(), ix)) {
            continue;
        }
        for g in r.fns.iter().filter(|g| g.file.contains("parse/grammar") && g.name != "expr_bp") {
            struct M<'a>(&'a str, Vec<(&'a syn::Expr, usize)>, usize);
            impl<'a> syn::visit::Visit<'a> for M<'a> {
                fn visit_expr_call(&mut self, c: &'a syn::ExprCall) {
                    if let syn::Expr::Path(p) = &*c.func {
                        if p.path.segments.last().is_some_and(|s| s.ident == self.0) && c.args.len() > self.2 {
                            self.1.push((&c.args[self.2], c.paren_token.span.open().start().line));
                        }
                    }
                    syn::visit::visit_expr_call(self, c);
                }
            }
            let mut m = M(&callee, vec![], ix);
            syn::visit::Visit::visit_block(&mut m, g.block);
            for (e, l) in m.1 {
                n += 1;
                let txt = quote::quote!(#e).to_string();
                let param = g.sig.inputs.iter().position(|a| matches!(a, syn::FnArg::Typed(t) if matches!(&*t.pat, syn::Pat::Ident(i) if i.ident == txt)));
                if let Some(i) = param {
                    // handed on: the same question for the callers
                    todo.push((g.name.clone(), i));
                    continue;
                }
                let ok = positive(r, g, e, 0);
                rep.ob(ok, format!("entry:{}", g.name), format!("{} asks for an expression of binding power {txt}: with zero, a token that is no operator would be taken for one", g.name), &g.file, l);
            }
        }
    }
    rep.floor("callers of expr_bp", n, 3);
}
/// an expression whose every possible value is a literal above zero
fn positive(r: &Repo, g: &FnInfo, e: &syn::Expr, depth: usize) -> bool {
    struct M<'a>(Vec<&'a syn::Expr>, bool);
    impl<'a> syn::visit::Visit<'a> for M<'a> {
        fn visit_expr(&mut self, e: &'a syn::Expr) {
            match e {
                syn::Expr::If(i) => {
                    syn::visit::Visit::visit_block(self, &i.then_branch);
                    match &i.else_branch {
                        Some((_, e)) => self.visit_expr(e),
                        None => self.1 = true,
                    }
                }
                syn::Expr::Match(m) => m.arms.iter().for_each(|a| self.visit_expr(&a.body)),
                syn::Expr::Block(b) => syn::visit::Visit::visit_block(self, &b.block),
                syn::Expr::Paren(p) => self.visit_expr(&p.expr),
                syn::Expr::Cast(c) => self.visit_expr(&c.expr),
                syn::Expr::Binary(syn::ExprBinary { left, op: syn::BinOp::Add(_), right, .. }) => {
                    self.visit_expr(left);
                    self.visit_expr(right);
                }
                syn::Expr::Lit(_) | syn::Expr::Path(_) => self.0.push(e),
                _ => self.1 = true,
            }
        }
    }
    struct L<'a>(&'a syn::Ident, Vec<&'a syn::Expr>);
    impl<'a> syn::visit::Visit<'a> for L<'a> {
        fn visit_local(&mut self, l: &'a syn::Local) {
            let p = match &l.pat {
                syn::Pat::Type(t) => &*t.pat,
                p => p,
            };
            if let (syn::Pat::Ident(i), Some(x)) = (p, &l.init) {
                if i.ident == *self.0 && i.mutability.is_none() {
                    self.1.push(&x.expr);
                }
            }
            syn::visit::visit_local(self, l);
        }
    }
    let mut m = M(vec![], false);
    syn::visit::Visit::visit_expr(&mut m, e);
    !m.1
        && !m.0.is_empty()
        && depth < 4
        && m.0.iter().all(|x| match x {
            syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Int(i), .. }) => i.base10_parse::<u32>().is_ok_and(|x| x >= 1),
            syn::Expr::Path(p) => match p.path.get_ident() {
                Some(id) => {
                    let mut l = L(id, vec![]);
                    syn::visit::Visit::visit_block(&mut l, g.block);
                    let c: Vec<&syn::Expr> = r.consts.iter().filter(|c| *id == c.name && c.file == g.file).map(|c| c.expr).collect();
                    let all: Vec<&syn::Expr> = l.1.iter().copied().chain(c).collect();
                    !all.is_empty() && all.iter().all(|x| positive(r, g, x, depth + 1))
                }
                None => false,
            },
            _ => false,
        })
}
/// prefix operators bind tighter than any binary one
fn unary(r: &Repo, rep: &mut Report, k: &Rc<Kinds>, bps: &BTreeMap<String, i128>) {
    let Some(f) = need(r, rep, EXPRS, None, "lhs") else { return };
    let top = bps.values().max().copied().unwrap_or(0);
    let spec = [("&", "BORROW_EXPR"), ("*", "DEREF_EXPR"), ("!", "BANG_EXPR"), ("-", "MINUS_EXPR"), ("move", "RESOURCE_EXPR"), ("copy", "RESOURCE_EXPR")];
    for (text, node) in spec {
        let (kd, word) = match k.t.get(text) {
            _ if text == "copy" => (k.ident, Some("copy")),
            Some(x) => (*x, None),
            None => {
                rep.problem(format!("no token `{text}`"));
                continue;
            }
        };
        let w = Rc::new(std::cell::RefCell::new(Window { toks: vec![(kd, false), (k.ident, false)], word }));
        let kk = k.clone();
        let cfg = Cfg::new(|g: &FnInfo| g.file.ends_with(PARSER) && LOOK[..8].contains(&g.name.as_str()))
            .kinds(k.clone())
            .cap(4000)
            .mhook(move |it, _cx, st, c| match c.name {
                "lookahead_nth" => {
                    let V::Int(n) = it.deref(st, c.args.first()?) else { return None };
                    let w = w.borrow();
                    let (kd, j) = w.toks.get(n as usize).copied().unwrap_or((kk.eof, false));
                    Some(vec![(st.clone(), Flow::Val(strukt("Token", vec![("kind", V::Kinds(KSet::one(kd))), ("is_jointed_to_next", V::Bool(j))])))])
                }
                "is_keyword" => {
                    let V::Str(s) = it.deref(st, c.args.first()?) else { return None };
                    Some(vec![(st.clone(), Flow::Val(V::Bool(w.borrow().word == Some(&*s))))])
                }
                _ => None,
            })
            .chook(|_it, _cx, st, segs, _a, _l| match segs.last().map(|s| s.as_str()) {
                Some("is_at_quant_kw") => Some(vec![(st.clone(), Flow::Val(V::Bool(false)))]),
                _ => None,
            });
        let t = {
            let it = Interp::new(r, Trace { cfg, panics: Default::default() });
            let a = vec![strukt("Parser", vec![("token_source", it.sym("source", vec![]))]), it.sym("r", vec![])];
            let paths = run(&it, f.id, Some(a));
            Traced { it, paths }
        };
        rep.floor(&format!("paths of lhs at `{text}`"), t.paths.len(), 1);
        for p in &t.paths {
            let ev: Vec<&Ev> = evs(p, "expr_bp").into_iter().collect();
            let bp = ev.first().and_then(|e| e.args.get(2)).cloned();
            let ok = ev.len() == 1 && matches!(bp, Some(V::Int(b)) if b > top);
            rep.ob(ok, format!("prefix:{text}"), format!("the operand of prefix `{text}` is parsed with binding power {}; must be above {top}", bp.map(|b| t.it.show(&b)).unwrap_or("none".into())), &f.file, f.line);
            let done = p.st.events.iter().filter(|e| last(&e.name) == "complete").filter_map(|e| e.args.get(2)).any(|x| matches!(x, V::Kinds(q) if k.show(q) == node));
            rep.ob(done, format!("prefix:{text}:node"), format!("prefix `{text}` does not make a {node}"), &f.file, f.line);
        }
    }
}
/// the syntax tree's view of an operator agrees with the parser's
fn ast_ops(r: &Repo, rep: &mut Report, k: &Rc<Kinds>, t: &Texts, bps: &BTreeMap<String, i128>) {
    const BE: &str = "node_ext/bin_expr.rs";
    let (Some(det), Some(bp)) = (need(r, rep, BE, Some("BinExpr"), "op_details"), need(r, rep, BE, Some("BinExpr"), "op_bp")) else { return };
    let ops: Vec<&str> = LADDER.iter().flat_map(|x| x.0.iter().copied()).collect();
    for o in ops {
        let Some(kd) = t.raw.iter().chain(t.glued.iter()).find(|(_, s)| s.as_str() == o).map(|x| *x.0) else { continue };
        let look = |c: &MCall, st: &St<TW>| -> Option<Out<TW>> { (c.name == "kind" && c.args.is_empty()).then(|| vec![(st.clone(), Flow::Val(V::Kinds(KSet::one(kd))))]) };
        let cfg = Cfg::new(|_| false).kinds(k.clone()).mhook(move |it, cx, st, c| {
            if let Some(o) = look(c, st) {
                return Some(o);
            }
            if matches!(c.name, "find_map") && matches!(c.args.first(), Some(V::Closure(_))) {
                return Some(it.apply(cx, &c.args[0], vec![it.sym("c", vec![])], st.clone(), c.line));
            }
            None
        });
        let d = tr(r, rep, det.id, None, cfg);
        let op_v = match d.paths.as_slice() {
            [p, rest @ ..] if rest.iter().all(|q| q.ret == p.ret) => match &p.ret {
                V::Ctor(n, a) if &**n == "Some" => match a.first() {
                    Some(V::Tuple(x)) if x.len() == 2 => Some((x[0].clone(), x[1].clone())),
                    _ => None,
                },
                _ => None,
            },
            _ => None,
        };
        let Some((tokv, v)) = op_v else {
            rep.viol(format!("ast:{o}"), format!("`{o}`, which the parser makes a binary expression of, is not an operator of BinExpr::op_details: {}", d.paths.iter().map(|p| d.it.show(&p.ret)).collect::<Vec<_>>().join(" or ")), &det.file, det.line);
            continue;
        };
        rep.ob(cfull(&d.it, &tokv) == "c", format!("ast:{o}:token"), format!("op_details of `{o}` returns the token {}", cfull(&d.it, &tokv)), &det.file, det.line);
        // how it is written
        let s = display(r, rep, k, &v, 0);
        rep.ob(s.as_deref() == Some(o), format!("ast:{o}:text"), format!("`{o}` is read as {}, which is written {:?}", d.it.show(&v), s), &det.file, det.line);
        // how tightly it binds
        let v2 = v.clone();
        let cfg = Cfg::new(|_| false).kinds(k.clone()).mhook(move |_it, _cx, st, c| match c.name {
            "op_kind" => Some(vec![(st.clone(), Flow::Val(V::Ctor(Rc::from("Some"), Rc::new(vec![v2.clone()]))))]),
            "op_details" => Some(vec![(st.clone(), Flow::Val(V::Ctor(Rc::from("Some"), Rc::new(vec![V::Tuple(Rc::new(vec![V::Unit, v2.clone()]))]))))]),
            _ => None,
        });
        let b = tr(r, rep, bp.id, None, cfg);
        let want = bps.get(o).copied();
        for p in &b.paths {
            let got = match &p.ret {
                V::Ctor(n, a) if &**n == "Some" => match a.first() {
                    Some(V::Int(i)) => Some(*i),
                    _ => None,
                },
                _ => None,
            };
            rep.ob(got.is_some() && got == want, format!("ast:{o}:bp"), format!("BinExpr::op_bp of `{o}` is {got:?}; the parser uses {want:?}"), &bp.file, bp.line);
        }
        rep.floor(&format!("paths of op_bp for `{o}`"), b.paths.len(), 1);
    }
    rep.count("operators of the tree", bps.len());
}
/// the text `Display` writes for an operator value
fn display(r: &Repo, rep: &mut Report, k: &Rc<Kinds>, v: &V, depth: usize) -> Option<String> {
    let name = match v {
        V::Ctor(n, _) | V::Struct(n, _) => last(n).to_string(),
        _ => return None,
    };
    let e = r.enums.iter().find(|e| e.file.ends_with("ast/operators.rs") && e.item.variants.iter().any(|x| x.ident == name))?;
    let f = r.fns.iter().find(|f| f.file.ends_with("ast/operators.rs") && f.name == "fmt" && f.self_ty.as_deref() == Some(&e.name))?;
    if depth > 3 {
        return None;
    }
    let cfg = Cfg::new(|_| false).kinds(k.clone()).mhook(|it, cx, st, c| match c.name {
        "write_str" => {
            let mut s = st.clone();
            s.event("w", vec![it.deref(st, &c.args[0])], cx.func, c.line);
            Some(vec![(s, Flow::Val(V::Ctor(Rc::from("Ok"), Rc::new(vec![V::Unit]))))])
        }
        "fmt" => {
            let mut s = st.clone();
            s.event("sub", vec![it.deref(st, &c.recv)], cx.func, c.line);
            Some(vec![(s, Flow::Val(V::Ctor(Rc::from("Ok"), Rc::new(vec![V::Unit]))))])
        }
        _ => None,
    })
    .chook(|it, cx, st, segs, args, line| match segs.last().map(|s| s.as_str()) {
        Some("fmt") => {
            let mut s = st.clone();
            s.event("sub", vec![it.deref(st, &args[0])], cx.func, line);
            Some(vec![(s, Flow::Val(V::Ctor(Rc::from("Ok"), Rc::new(vec![V::Unit]))))])
        }
        _ => None,
    });
    let it = Interp::new(r, Trace { cfg, panics: Default::default() });
    let ps = run(&it, f.id, Some(vec![v.clone(), it.sym("f", vec![])]));
    if ps.len() != 1 {
        return None;
    }
    let mut out = String::new();
    for e in ps[0].st.events.iter() {
        match &*e.name {
            "w" => match &e.args[0] {
                V::Str(s) => out.push_str(s),
                _ => return None,
            },
            "sub" => out.push_str(&display(r, rep, k, &e.args[0], depth + 1)?),
            _ => {}
        }
    }
    Some(out)
}
#[allow(unused)]
fn unused() -> V {
    ctor0("None")
}
