//! Byte-unit and coverage analysis of the lexer.
//!
//! The token finder is interpreted abstractly once per first grapheme class; the text itself stays
//! symbolic.  Every (token, length) result is normalised to a linear form over byte-sized atoms
//! (`len`, `find`, sizes of consumed characters, ...) and compared with the byte boundaries the
//! path has established.  Character counts are a different unit and never equal one.
use crate::absint::*;
use crate::repo::*;
use crate::report::Report;
use crate::rules::kinds::Kinds;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

#[derive(Clone, PartialEq, Eq, Hash, Default)]
pub struct LW {
    /// iterator term -> (next index, exhausted?, peeked Some?)
    iters: BTreeMap<Term, (u32, bool, Option<bool>)>,
    n: u32,
}
struct LexDom {
    first: Option<Rc<str>>,
    notes: std::cell::RefCell<Vec<(FnId, usize, String)>>,
    regexes: BTreeMap<String, String>,
    intercept_find_token: bool,
}
#[derive(Clone, PartialEq, Eq, Debug, Default)]
struct Lin {
    c: i128,
    a: BTreeMap<V2, i128>,
}
type V2 = String; // atoms are shown terms: unique within one interpreter

fn is_text_op(op: &str) -> bool {
    matches!(op, "text" | "slice" | "trim" | "line" | "mstr")
}
impl LexDom {
    fn texty(it: &Interp<Self>, v: &V) -> bool {
        match v {
            V::Sym(t) => {
                let (op, a) = it.node(*t);
                is_text_op(&op) || (&*op == "[]" && a.len() == 2 && Self::texty(it, &a[0]))
            }
            _ => false,
        }
    }
    fn is_root(it: &Interp<Self>, v: &V) -> bool {
        matches!(v, V::Sym(t) if &*it.node(*t).0 == "text")
    }
    /// (skipped ASCII set, skips non-ASCII?)  for predicate `clo` where `keep` = value that continues
    fn class(&self, it: &Interp<Self>, cx: &Rc<Cx>, st: &St<LW>, clo: &V, keep: bool, bytes: bool) -> Option<(Vec<u8>, bool)> {
        let mut set = vec![];
        let mut non = false;
        let mut st = st.clone();
        st.w = LW::default();
        for c in (0..128u32).chain([0xE9]) {
            for (s, f) in it.apply(cx, clo, vec![if bytes { V::Int(c as i128) } else { V::Tag("char", c) }], st.clone(), 0) {
                let Flow::Val(v) = f else { return None };
                let v = it.deref(&s, &v);
                let may = match v {
                    V::Bool(b) => b == keep,
                    _ => return None,
                };
                if may {
                    if c < 128 {
                        set.push(c as u8)
                    } else {
                        non = true
                    }
                }
            }
        }
        set.dedup();
        Some((set, non))
    }
    fn char_pred(c: u32, name: &str) -> Option<bool> {
        let ch = char::from_u32(c)?;
        Some(match name {
            "is_ascii_digit" => ch.is_ascii_digit(),
            "is_ascii_alphabetic" => ch.is_ascii_alphabetic(),
            "is_ascii_alphanumeric" => ch.is_ascii_alphanumeric(),
            "is_ascii_hexdigit" => ch.is_ascii_hexdigit(),
            "is_ascii_whitespace" => ch.is_ascii_whitespace(),
            "is_ascii_punctuation" => ch.is_ascii_punctuation(),
            "is_ascii" => ch.is_ascii(),
            "is_ascii_lowercase" => ch.is_ascii_lowercase(),
            "is_ascii_uppercase" => ch.is_ascii_uppercase(),
            // for the non-ASCII representative: some non-ASCII character satisfies it
            "is_alphabetic" | "is_alphanumeric" | "is_numeric" | "is_whitespace" | "is_lowercase" | "is_uppercase" if c >= 128 => true,
            "is_alphabetic" => ch.is_alphabetic(),
            "is_alphanumeric" => ch.is_alphanumeric(),
            "is_numeric" => ch.is_numeric(),
            "is_whitespace" => ch.is_whitespace(),
            "is_lowercase" => ch.is_lowercase(),
            "is_uppercase" => ch.is_uppercase(),
            _ => return None,
        })
    }
    fn known_false<'x>(it: &Interp<Self>, st: &'x St<LW>, text: &V, truth: bool) -> Vec<Rc<str>> {
        let mut v = vec![];
        for (t, f) in st.facts.iter() {
            if let Fact::Bool(b) = f {
                if *b == truth {
                    let (op, a) = it.node(*t);
                    if &*op == "starts_with" && a.len() == 2 && a[0] == *text {
                        if let V::Str(s) = &a[1] {
                            v.push(s.clone());
                        }
                    }
                }
            }
        }
        v
    }
}
fn val1(st: St<LW>, v: V) -> Option<Out<LW>> {
    Some(vec![(st, Flow::Val(v))])
}
impl Domain for LexDom {
    type W = LW;
    fn unroll(&self) -> Option<usize> {
        Some(3)
    }
    fn merge_at(&self) -> usize {
        1 << 30
    }
    fn cap(&self) -> usize {
        40000
    }
    fn panic(&self, _it: &Interp<Self>, cx: &Rc<Cx>, _st: &St<LW>, k: PanicKind, line: usize, msg: &str) {
        if matches!(k, PanicKind::Assert) {
            self.notes.borrow_mut().push((cx.func, line, msg.to_string()));
        }
    }
    fn call_fn(&self, it: &Interp<Self>, cx: &Rc<Cx>, st: &St<LW>, f: FnId, args: &[V], line: usize) -> Option<Out<LW>> {
        let g = &it.repo.fns[f];
        if self.intercept_find_token && g.name == "find_token" {
            let a: Vec<V> = args.iter().map(|x| it.deref(st, x)).collect();
            let mut st = st.clone();
            st.event("find_token", a.clone(), cx.func, line);
            let r = V::Tuple(Rc::new(vec![it.sym("tok", a.clone()), it.sym("toklen", a)]));
            return val1(st, r);
        }
        None
    }
    fn may_inline(&self, it: &Interp<Self>, f: FnId) -> bool {
        // the token-to-kind table is read separately
        !(self.intercept_find_token
            && matches!(&it.repo.fns[f].sig.output, syn::ReturnType::Type(_, t) if type_name(t) == "SyntaxKind"))
    }
    fn method(&self, it: &Interp<Self>, cx: &Rc<Cx>, st: &St<LW>, c: &MCall) -> Option<Out<LW>> {
        let a: Vec<V> = c.args.iter().map(|x| it.deref(st, x)).collect();
        let st = st.clone();
        let r = &c.recv;
        let one = |v: V| val1(st.clone(), v);
        // characters
        if let V::Tag("char", ch) = r {
            if let Some(b) = Self::char_pred(*ch, c.name) {
                return one(V::Bool(b));
            }
            if c.name == "len_utf8" {
                return one(V::Int(char::from_u32(*ch).map_or(1, |c| c.len_utf8()) as i128));
            }
        }
        if let V::Int(b) = r {
            if (0..=255).contains(b) {
                if let Some(x) = Self::char_pred(*b as u32, c.name) {
                    return one(V::Bool(x));
                }
            }
        }
        if c.name == "len_utf8" {
            return one(it.sym("size", vec![r.clone()]));
        }
        // known strings
        if let V::Str(s) = r {
            match c.name {
                "len" => return one(V::Int(s.len() as i128)),
                "is_empty" => return one(V::Bool(s.is_empty())),
                "chars" => return one(V::List(Rc::new(s.chars().map(|c| V::Tag("char", c as u32)).collect()))),
                "bytes" | "as_bytes" => {
                    return one(V::List(Rc::new(s.bytes().map(|c| V::Int(c as i128)).collect())));
                }
                "starts_with" => {
                    if let Some(V::Str(x)) = a.first() {
                        return one(V::Bool(s.starts_with(&**x)));
                    }
                }
                _ => {}
            }
        }
        if let V::List(l) = r {
            match c.name {
                "next" => {
                    if let Some(p) = &c.place {
                        let mut s = st.clone();
                        let mut l = l.to_vec();
                        let x = if l.is_empty() { none() } else { some(l.remove(0)) };
                        it.write(&mut s, p, V::List(Rc::new(l)));
                        return val1(s, x);
                    }
                    return one(l.first().cloned().map(some).unwrap_or(none()));
                }
                "count" => return one(V::Int(l.len() as i128)),
                "nth" => {
                    if let Some(V::Int(n)) = a.first() {
                        return one(l.get(*n as usize).cloned().map(some).unwrap_or(none()));
                    }
                }
                _ => {}
            }
        }
        if Self::texty(it, r) {
            match c.name {
                "len" => return one(it.sym("len", vec![r.clone()])),
                "is_empty" if Self::is_root(it, r) => return one(V::Bool(self.first.is_none())),
                "graphemes" | "chars" | "bytes" | "char_indices" | "lines" | "as_bytes" | "grapheme_indices" => {
                    return one(it.sym("iter", vec![V::Str(Rc::from(c.name)), r.clone()]));
                }
                "starts_with" => {
                    let lit: Option<Rc<str>> = match a.first() {
                        Some(V::Str(s)) => Some(s.clone()),
                        Some(V::Tag("char", c)) => char::from_u32(*c).map(|c| Rc::from(c.to_string())),
                        _ => None,
                    };
                    if let Some(l) = lit {
                        let mut known = Self::known_false(it, &st, r, true);
                        if Self::is_root(it, r) {
                            match &self.first {
                                Some(f) => known.push(f.clone()),
                                None => return one(V::Bool(l.is_empty())),
                            }
                        }
                        if known.iter().any(|k| k.starts_with(&*l)) {
                            return one(V::Bool(true));
                        }
                        if known.iter().any(|k| !l.starts_with(&**k)) {
                            return one(V::Bool(false));
                        }
                        if Self::known_false(it, &st, r, false).iter().any(|k| l.starts_with(&**k)) {
                            return one(V::Bool(false));
                        }
                        let t = it.sym("starts_with", vec![r.clone(), V::Str(l)]);
                        return Some(it.branch(st, &t).into_iter().map(|(s, b)| (s, Flow::Val(V::Bool(b)))).collect());
                    }
                }
                "strip_prefix" => {
                    if let Some(V::Str(l)) = a.first() {
                        let t = it.sym("starts_with", vec![r.clone(), V::Str(l.clone())]);
                        let rest = it.sym("[]", vec![r.clone(), it.sym("range:100", vec![V::Int(l.len() as i128)])]);
                        return Some(
                            it.branch(st, &t)
                                .into_iter()
                                .map(|(s, b)| (s, Flow::Val(if b { some(rest.clone()) } else { none() })))
                                .collect(),
                        );
                    }
                }
                "find" => {
                    let cls = match a.first() {
                        Some(clo @ (V::Closure(_) | V::Fn(_))) => self.class(it, cx, &st, clo, false, false).map(|(s, _)| s),
                        _ => None,
                    };
                    let v = it.sym("find", vec![r.clone(), V::Int(c.line as i128), cls_val(&cls)]);
                    return Some(optional(it, st, v));
                }
                "trim_start_matches" | "trim_start" => {
                    return one(it.sym("trim", vec![r.clone(), V::Int(c.line as i128)]));
                }
                "to_string" | "to_owned" | "as_str" => return one(r.clone()),
                _ => {}
            }
        }
        if let V::Sym(t) = r {
            let (op, ra) = it.node(*t);
            if &*op == "iter" {
                let kind = match &ra[0] {
                    V::Str(s) => s.to_string(),
                    _ => String::new(),
                };
                let text = ra[1].clone();
                match c.name {
                    "peekable" | "by_ref" | "iter" | "into_iter" | "enumerate_" => return one(r.clone()),
                    "next" | "peek" => {
                        if Self::is_root(it, &text) && (kind == "graphemes") {
                            return one(match &self.first {
                                Some(f) => some(V::Str(f.clone())),
                                None => none(),
                            });
                        }
                        if kind == "lines" {
                            return one(some(it.sym("line", vec![text])));
                        }
                        let (i, ex, pk) = st.w.iters.get(t).cloned().unwrap_or((0, false, None));
                        let mut out: Out<LW> = vec![];
                        let item = |i: u32| -> V {
                            if i == 0 && kind == "chars" && Self::is_root(it, &text) {
                                if let Some(f) = &self.first {
                                    return V::Tag("char", f.chars().next().unwrap() as u32);
                                }
                            }
                            let ch = it.sym("item", vec![r.clone(), V::Int(i as i128)]);
                            if kind == "char_indices" {
                                V::Tuple(Rc::new(vec![it.sym("idx", vec![r.clone(), V::Int(i as i128)]), ch]))
                            } else {
                                ch
                            }
                        };
                        let can_some = !ex && pk != Some(false);
                        let must_some = pk == Some(true) || (i == 0 && Self::is_root(it, &text) && self.first.is_some());
                        if can_some {
                            let mut s = st.clone();
                            let e = if c.name == "next" { (i + 1, false, None) } else { (i, false, Some(true)) };
                            s.w.iters.insert(*t, e);
                            out.push((s, Flow::Val(some(item(i)))));
                        }
                        if !must_some || !can_some {
                            let mut s = st.clone();
                            s.w.iters.insert(*t, (i, true, Some(false)));
                            out.push((s, Flow::Val(none())));
                        }
                        return Some(out);
                    }
                    "position" => {
                        let clo = c.args.first()?;
                        let cls = self.class(it, cx, &st, clo, false, kind == "bytes" || kind == "as_bytes");
                        let ascii = kind == "bytes" || kind == "as_bytes" || cls.as_ref().is_some_and(|c| !c.1);
                        let op = if ascii {
                            "posb"
                        } else if cls.is_some() {
                            "posc"
                        } else {
                            "pos?"
                        };
                        let v = it.sym(op, vec![text, V::Int(c.line as i128), cls_val(&cls.map(|c| c.0))]);
                        return Some(optional(it, st, v));
                    }
                    "take_while" => {
                        let clo = c.args.first()?;
                        let cls = self.class(it, cx, &st, clo, true, kind == "bytes" || kind == "as_bytes");
                        let ascii = kind == "bytes" || kind == "as_bytes" || cls.as_ref().is_some_and(|c| !c.1);
                        let op = if ascii {
                            "posb"
                        } else if cls.is_some() {
                            "posc"
                        } else {
                            "pos?"
                        };
                        return one(it.sym("tw", vec![V::Str(Rc::from(op)), text, V::Int(c.line as i128), cls_val(&cls.map(|c| c.0))]));
                    }
                    "count" => return one(it.sym("posc", vec![text, V::Int(c.line as i128)])),
                    _ => {}
                }
            }
            if &*op == "tw" {
                let V::Str(o) = &ra[0] else { return None };
                match c.name {
                    "count" => return one(it.sym(o, ra[1..].to_vec())),
                    "map" => {
                        // map(char::len_utf8) / map(|c| c.len_utf8())
                        let src = c.expr.map(|e| quote::quote!(#e).to_string()).unwrap_or_default();
                        if src.contains("len_utf8") {
                            return one(it.sym("twsz", ra.to_vec()));
                        }
                    }
                    _ => {}
                }
            }
            if &*op == "twsz" && c.name == "sum" {
                return one(it.sym("posb", ra[1..].to_vec()));
            }
            if &*op == "match" {
                match c.name {
                    "len" | "end" => return one(it.sym("mlen", ra.to_vec())),
                    "as_str" => return one(it.sym("mstr", ra.to_vec())),
                    "range" => return one(it.sym("range:010", vec![it.sym("mlen", ra.to_vec())])),
                    _ => {}
                }
            }
        }
        if c.name == "find" && a.len() == 1 && Self::texty(it, &a[0]) {
            // a regular expression
            let e = c.expr?;
            let src = {
                let x = &e.receiver;
                quote::quote!(#x).to_string().replace(' ', "")
            };
            let last = src.rsplit("::").next().unwrap_or("").to_string();
            let re = self.regexes.get(&last).cloned().unwrap_or_default();
            let anchored = re.starts_with('^');
            let v = it.sym(if anchored { "match" } else { "match?" }, vec![a[0].clone(), V::Str(Rc::from(re))]);
            return Some(optional(it, st, v));
        }
        if matches!(r, V::Sym(_)) && matches!(c.name, "next" | "peek" | "nth" | "push") && c.name != "push" {
            let mut s = st.clone();
            s.w.n += 1;
            let v = it.sym("fresh", vec![r.clone(), V::Int(s.w.n as i128)]);
            return val1(s, v);
        }
        None
    }
}
fn cls_val(c: &Option<Vec<u8>>) -> V {
    match c {
        None => V::Unit,
        Some(c) => V::Str(Rc::from(c.iter().map(|b| format!("{b:02x}")).collect::<String>())),
    }
}
fn optional(it: &Interp<LexDom>, st: St<LW>, v: V) -> Out<LW> {
    let t = it.sym("some?", vec![v.clone()]);
    it.branch(st, &t)
        .into_iter()
        .map(|(s, b)| (s, Flow::Val(if b { some(v.clone()) } else { none() })))
        .collect()
}

struct Norm<'x, 'r> {
    it: &'x Interp<'r, LexDom>,
    st: &'x St<LW>,
}
impl<'x, 'r> Norm<'x, 'r> {
    fn add(a: Lin, b: Lin, k: i128) -> Lin {
        let mut r = a;
        r.c += k * b.c;
        for (t, n) in b.a {
            let e = r.a.entry(t.clone()).or_insert(0);
            *e += k * n;
            if *e == 0 {
                r.a.remove(&t);
            }
        }
        r
    }
    fn atom(&self, v: &V) -> Lin {
        let mut l = Lin::default();
        l.a.insert(self.it.show(v), 1);
        l
    }
    fn c(n: i128) -> Lin {
        Lin { c: n, a: BTreeMap::new() }
    }
    /// byte offset in the root text at which `t` starts
    fn off(&self, t: &V) -> Lin {
        if let V::Sym(x) = t {
            let (op, a) = self.it.node(*x);
            match &*op {
                "[]" => {
                    if let V::Sym(r) = &a[1] {
                        let (ro, ra) = self.it.node(*r);
                        if ro.starts_with("range:1") {
                            return Self::add(self.off(&a[0]), self.lin(&ra[0]), 1);
                        }
                    }
                    return self.off(&a[0]);
                }
                "line" | "mstr" => return self.off(&a[0]),
                "trim" => return Self::add(self.off(&a[0]), self.atom(t), 1),
                _ => {}
            }
        }
        Lin::default()
    }
    fn lin(&self, v: &V) -> Lin {
        let v = self.it.deref(self.st, v);
        match &v {
            V::Int(n) => Self::c(*n),
            V::Sym(t) => {
                let (op, a) = self.it.node(*t);
                match (&*op, a.len()) {
                    ("+", 2) => Self::add(self.lin(&a[0]), self.lin(&a[1]), 1),
                    ("-", 2) => Self::add(self.lin(&a[0]), self.lin(&a[1]), -1),
                    ("len", 1) => {
                        if let V::Sym(s) = &a[0] {
                            let (so, sa) = self.it.node(*s);
                            match &*so {
                                "text" => return self.atom(&v),
                                "[]" => {
                                    if let V::Sym(r) = &sa[1] {
                                        let (ro, ra) = self.it.node(*r);
                                        match &*ro {
                                            "range:100" => {
                                                let l = self.it.sym("len", vec![sa[0].clone()]);
                                                return Self::add(self.lin(&l), self.lin(&ra[0]), -1);
                                            }
                                            "range:010" => return self.lin(&ra[0]),
                                            "range:110" => return Self::add(self.lin(&ra[1]), self.lin(&ra[0]), -1),
                                            _ => {}
                                        }
                                    }
                                }
                                "trim" => {
                                    let l = self.it.sym("len", vec![sa[0].clone()]);
                                    return Self::add(self.lin(&l), self.atom(&a[0]), -1);
                                }
                                "mstr" => {
                                    let l = self.it.sym("mlen", sa.clone());
                                    return self.lin(&l);
                                }
                                _ => {}
                            }
                        }
                        self.atom(&v)
                    }
                    ("size", 1) => self.size(&a[0]),
                    ("idx", 2) => {
                        // byte index of the i-th character of char_indices: sum of the previous sizes
                        if let (V::Sym(i), V::Int(n)) = (&a[0], &a[1]) {
                            let _ = i;
                            let mut l = Lin::default();
                            for k in 0..*n {
                                let ch = self.it.sym("item", vec![a[0].clone(), V::Int(k)]);
                                l = Self::add(l, self.size(&ch), 1);
                            }
                            return l;
                        }
                        self.atom(&v)
                    }
                    (".0", 1) => {
                        if let V::Sym(e) = &a[0] {
                            if &*self.it.node(*e).0 == "elem" {
                                let mut l = Lin::default();
                                for ch in self.elems_before(*e) {
                                    l = Self::add(l, self.size(&ch), 1);
                                }
                                return l;
                            }
                        }
                        self.atom(&v)
                    }
                    _ => self.atom(&v),
                }
            }
            _ => self.atom(&v),
        }
    }
    fn elems_before(&self, e: Term) -> Vec<V> {
        let (_, a) = self.it.node(e);
        let mut out = vec![];
        if let (Some(V::Int(n)), 3) = (a.get(2), a.len()) {
            for k in 1..*n {
                let el = self.it.sym("elem", vec![a[0].clone(), a[1].clone(), V::Int(k)]);
                out.push(self.it.sym(".1", vec![el]));
            }
        }
        out
    }
    /// size in bytes of a character value, one when the path proves it is a known ASCII character
    fn size(&self, ch: &V) -> Lin {
        let ch = self.it.deref(self.st, ch);
        if let V::Tag("char", c) = ch {
            return Self::c(char::from_u32(c).map_or(1, |c| c.len_utf8()) as i128);
        }
        if let V::Int(_) = ch {
            return Self::c(1);
        }
        for (t, f) in self.st.facts.iter() {
            if matches!(f, Fact::Bool(true)) {
                let (op, a) = self.it.node(*t);
                if &*op == "==" && a.len() == 2 {
                    for (x, y) in [(&a[0], &a[1]), (&a[1], &a[0])] {
                        if *x == ch {
                            if let V::Tag("char", c) = y {
                                return Self::c(char::from_u32(*c).map_or(1, |c| c.len_utf8()) as i128);
                            }
                        }
                    }
                }
                if op.starts_with("in-range:") && a.first() == Some(&ch) && op.is_ascii() {
                    return Self::c(1);
                }
            }
        }
        if let V::Sym(t) = &ch {
            let (op, a) = self.it.node(*t);
            // bytes are one byte each
            if (&*op == "item" || &*op == "elem") && !a.is_empty() {
                if let V::Sym(i) = &a[0] {
                    let (io, ia) = self.it.node(*i);
                    if &*io == "iter" && matches!(&ia[0], V::Str(s) if &**s == "bytes" || &**s == "as_bytes") {
                        return Self::c(1);
                    }
                }
            }
        }
        let s = self.it.sym("size", vec![ch]);
        self.atom(&s)
    }
    fn known_char(&self, ch: &V) -> Option<u32> {
        self.st.facts.iter().find_map(|(t, f)| {
            if *f != Fact::Bool(true) {
                return None;
            }
            let (op, a) = self.it.node(*t);
            if &*op != "==" {
                return None;
            }
            [(&a[0], &a[1]), (&a[1], &a[0])].into_iter().find_map(|(x, y)| match y {
                V::Tag("char", c) if x == ch => Some(*c),
                _ => None,
            })
        })
    }
    /// where a scan over characters has seen the end of a comment; None when the scan is of another kind
    fn comment_ends(&self) -> Option<Vec<Lin>> {
        let whole = self.it.sym("len", vec![self.it.sym("text", vec![])]);
        let mut out = vec![self.lin(&whole)];
        let mut scanned = false;
        for (t, (i, ex, pk)) in self.st.w.iters.iter() {
            let (_, a) = self.it.node(*t);
            if !matches!(&a[0], V::Str(s) if &**s == "chars") || self.off(&a[1]) != Self::c(2) {
                continue;
            }
            scanned = true;
            let mut l = self.off(&a[1]);
            let mut prev = None;
            for k in 0..(*i + (*pk == Some(true)) as u32) {
                let ch = self.it.sym("item", vec![V::Sym(*t), V::Int(k as i128)]);
                l = Self::add(l, self.size(&ch), 1);
                let c = self.known_char(&ch);
                if prev == Some(42) && c == Some(47) {
                    out.push(l.clone());
                }
                prev = c;
            }
            if *ex {
                out.push(l);
            }
        }
        scanned.then_some(out)
    }
    /// every byte boundary of the root text this path has established
    fn bounds(&self, first: Option<&str>) -> Vec<Lin> {
        let mut b = vec![Lin::default()];
        let add_lit = |b: &mut Vec<Lin>, o: Lin, lit: &str| {
            let mut n = 0;
            for c in lit.chars() {
                n += c.len_utf8();
                b.push(Self::add(o.clone(), Self::c(n as i128), 1));
            }
        };
        if let Some(f) = first {
            add_lit(&mut b, Lin::default(), f);
        }
        let whole = self.it.sym("len", vec![self.it.sym("text", vec![])]);
        b.push(self.lin(&whole));
        for (t, f) in self.st.facts.iter() {
            let (op, a) = self.it.node(*t);
            match (&*op, f) {
                ("starts_with", Fact::Bool(true)) => {
                    if let V::Str(s) = &a[1] {
                        add_lit(&mut b, self.off(&a[0]), s);
                    }
                }
                ("some?", Fact::Bool(true)) => {
                    if let V::Sym(x) = &a[0] {
                        let (xo, xa) = self.it.node(*x);
                        match &*xo {
                            "find" | "posb" => b.push(Self::add(self.off(&xa[0]), self.atom(&a[0]), 1)),
                            "match" => {
                                let m = self.it.sym("mlen", xa.clone());
                                b.push(Self::add(self.off(&xa[0]), self.atom(&m), 1));
                            }
                            _ => {}
                        }
                    }
                }
                _ => {}
            }
        }
        // byte counts that need no test to exist
        let n = self.it.terms.borrow().nodes.len();
        for t in 0..n as Term {
            let (op, a) = self.it.node(t);
            match &*op {
                "posb" => b.push(Self::add(self.off(&a[0]), self.atom(&V::Sym(t)), 1)),
                "trim" => b.push(self.off(&V::Sym(t))),
                "len" if a.len() == 1 => {
                    if let V::Sym(s) = &a[0] {
                        if &*self.it.node(*s).0 == "line" {
                            b.push(Self::add(self.off(&a[0]), self.atom(&V::Sym(t)), 1));
                        }
                    }
                }
                "elem" if a.len() == 3 => {
                    if let V::Sym(i) = &a[0] {
                        let (io, ia) = self.it.node(*i);
                        if &*io == "iter" {
                            let chars = matches!(&ia[0], V::Str(s) if matches!(&**s, "chars" | "bytes" | "as_bytes"));
                            let mut l = self.off(&ia[1]);
                            if let V::Int(n) = &a[2] {
                                for k in 1..=*n {
                                    b.push(l.clone());
                                    let e = self.it.sym("elem", vec![a[0].clone(), a[1].clone(), V::Int(k)]);
                                    let ch = if chars { e } else { self.it.sym(".1", vec![e]) };
                                    l = Self::add(l, self.size(&ch), 1);
                                }
                                b.push(l);
                            }
                        }
                    }
                }
                _ => {}
            }
        }
        for (t, (i, _, pk)) in self.st.w.iters.iter() {
            let (_, a) = self.it.node(*t);
            let mut l = self.off(&a[1]);
            let n = *i + (*pk == Some(true)) as u32;
            for k in 0..n {
                let ch = if k == 0 && LexDom::is_root(self.it, &a[1]) && first.is_some() && matches!(&a[0], V::Str(s) if &**s == "chars") {
                    V::Tag("char", first.unwrap().chars().next().unwrap() as u32)
                } else {
                    self.it.sym("item", vec![V::Sym(*t), V::Int(k as i128)])
                };
                l = Self::add(l, self.size(&ch), 1);
                b.push(l.clone());
            }
        }
        b
    }
}

fn class_kind(n: &str) -> bool {
    n.ends_with("_NUMBER")
        || n.ends_with("_STRING")
        || matches!(n, "IDENT" | "QUOTE_IDENT" | "WHITESPACE" | "COMMENT" | "BAD_CHARACTER" | "EOF" | "ERROR" | "TOMBSTONE")
}

pub fn s05(repo: &Repo, _t: bool) -> Report {
    let mut r = Report::new(
        "lexer: every token length is a byte boundary of the text on every path, tokens tile the text, and spelling, token and syntax kind agree",
    );
    let k = Kinds::load(repo);
    for p in &k.problems {
        r.problem(p.clone());
    }
    let Some(ft) = repo.fn_in("lexer/move_model.rs", None, "find_token") else {
        r.problem("the lexer's token finder (find_token) was not found");
        return r;
    };
    let mut regexes = BTreeMap::new();
    for c in repo.consts.iter().filter(|c| c.file == ft.file) {
        struct S(Option<String>);
        impl<'a> syn::visit::Visit<'a> for S {
            fn visit_lit_str(&mut self, l: &'a syn::LitStr) {
                self.0.get_or_insert(l.value());
            }
        }
        let mut s = S(None);
        syn::visit::Visit::visit_expr(&mut s, c.expr);
        if let Some(x) = s.0 {
            regexes.insert(c.name.clone(), x);
        }
    }
    // kind -> spelling
    let mut spell: BTreeMap<usize, String> = BTreeMap::new();
    for (t, i) in &k.t {
        if !class_kind(k.name(*i)) {
            spell.insert(*i, t.clone());
        }
    }
    let tok_spell = |t: &str| -> Option<String> { k.tok.get(t).and_then(|i| spell.get(i)).cloned() };
    let mut firsts: Vec<Option<String>> = vec![None];
    firsts.extend((0..128u8).map(|b| Some((b as char).to_string())));
    firsts.extend(["\r\n", "é", "e\u{301}", "/\u{301}", "1\u{301}", "日", "'\u{301}"].iter().map(|s| Some(s.to_string())));
    let mut produced: BTreeSet<String> = BTreeSet::new();
    struct P {
        tok: String,
        first: Option<String>,
        known: String,
        not: Vec<String>,
        line: usize,
    }
    let mut fixed: Vec<P> = vec![];
    let mut npaths = 0;
    let mut undecided = vec![];
    for f in &firsts {
        let dom = LexDom {
            first: f.as_ref().map(|s| Rc::from(s.as_str())),
            notes: Default::default(),
            regexes: regexes.clone(),
            intercept_find_token: false,
        };
        let it = Interp::new(repo, dom);
        let text = it.sym("text", vec![]);
        let cx0 = it.cx_for(ft.id, vec![]);
        let cx = Rc::new(Cx { func: ft.id, module: cx0.module.clone(), self_ty: None, stack: vec![], ret_opt: false });
        let outs = it.inline(&cx, ft.id, vec![text.clone()], St::new(LW::default()));
        for o in it.overflow.borrow().iter() {
            r.problem(format!("find_token: {o}"));
        }
        for (fid, line, msg) in it.dom.notes.borrow().iter() {
            let g = &repo.fns[*fid];
            r.viol(
                format!("lexer:assert:{}:{}", g.name, msg),
                format!("lexer assertion can fail on some text: {msg}"),
                &g.file,
                *line,
            );
        }
        for (st, fl) in outs {
            let (Flow::Val(v) | Flow::Ret(v)) = fl else { continue };
            npaths += 1;
            let v = it.deref(&st, &v);
            let V::Tuple(tv) = &v else {
                undecided.push(format!("result {}", it.show(&v)));
                continue;
            };
            let tokv = it.deref(&st, &tv[0]);
            let tok = match &tokv {
                V::Ctor(n, _) => n.to_string(),
                _ => {
                    undecided.push(format!("token {}", it.show(&tokv)));
                    continue;
                }
            };
            let n = Norm { it: &it, st: &st };
            let l = n.lin(&tv[1]);
            let disp = |l: &Lin| {
                let mut s: Vec<String> = l.a.iter().map(|(a, k)| if *k == 1 { a.clone() } else { format!("{k}*{a}") }).collect();
                if l.c != 0 || s.is_empty() {
                    s.push(l.c.to_string())
                }
                s.join(" + ")
            };
            if f.is_none() {
                r.ob(
                    tok == "EOF" && l == Lin::default(),
                    "lexer:eof",
                    format!("at the end of the text the lexer must report EOF with length 0, not {tok} with length {}", disp(&l)),
                    &ft.file,
                    ft.line,
                );
                continue;
            }
            produced.insert(tok.clone());
            let fs = f.as_deref().unwrap();
            if tok == "EOF" {
                r.viol("lexer:early-eof", format!("the lexer reports end of file although text starting with {fs:?} remains"), &ft.file, ft.line);
                continue;
            }
            let b = n.bounds(Some(fs));
            let ok = b.iter().skip(1).any(|x| *x == l);
            let unknown = l.a.keys().any(|a| a.starts_with("pos?") || a.contains("()") || a.contains("havoc") || a.contains("match?") || a.contains("fresh(")) || l.a.keys().any(|a| a.starts_with("*("));
            let facts = || {
                st.facts
                    .iter()
                    .filter(|(_, f)| matches!(f, Fact::Bool(true)))
                    .map(|(t, _)| it.show(&V::Sym(*t)))
                    .take(6)
                    .collect::<Vec<_>>()
                    .join(" & ")
            };
            if !ok && unknown {
                undecided.push(format!("length {} of {tok}", disp(&l)));
            } else {
                let zero = l == Lin::default();
                r.ob(
                    ok,
                    format!("lexer:len:{tok}"),
                    format!(
                        "text starting with {fs:?}: token {tok} gets length `{}`, which is {} (path: {})",
                        disp(&l),
                        if zero { "zero: the lexer would not advance" } else { "not the byte offset of a character boundary on this path" },
                        facts()
                    ),
                    &ft.file,
                    ft.line,
                );
            }
            // a block comment ends right after `*/` or with the text
            if tok == "BlockComment" && ok {
                if let Some(ends) = n.comment_ends() {
                    r.ob(
                        ends.contains(&l),
                        "lexer:comment-end",
                        format!("a block comment gets length `{}`, which is neither the end of the text nor right after a `*/` (path: {})", disp(&l), facts()),
                        &ft.file,
                        ft.line,
                    );
                }
            }
            // zero-length: a skipped class must contain the first character
            if let Some((a, 1)) = l.a.iter().next().map(|(a, k)| (a.clone(), *k)) {
                if l.c == 0 && l.a.len() == 1 && (a.starts_with("posb(text,") || a.starts_with("find(text,")) {
                    for t in 0..it.terms.borrow().nodes.len() as Term {
                        if it.show(&V::Sym(t)) == a {
                            let (_, aa) = it.node(t);
                            if let Some(V::Str(cls)) = aa.get(2) {
                                let c0 = fs.chars().next().unwrap();
                                r.ob(
                                    c0.is_ascii() && (0..cls.len() / 2).any(|i| cls[2 * i..2 * i + 2] == format!("{:02x}", c0 as u32)),
                                    format!("lexer:zero:{tok}"),
                                    format!("token {tok} for text starting with {fs:?} gets length zero: {c0:?} is not in the class it skips, so the lexer never advances"),
                                    &ft.file,
                                    ft.line,
                                );
                            }
                        }
                    }
                }
            }
            // spelling
            let mut known = fs.to_string();
            let mut kind_known = false;
            for s in LexDom::known_false(&it, &st, &text, true) {
                if s.len() > known.len() {
                    known = s.to_string();
                }
            }
            for (t, fa) in st.facts.iter() {
                if *fa == Fact::Bool(true) {
                    let (op, a) = it.node(*t);
                    if &*op == "==" {
                        if let (V::Str(s), V::Sym(x)) | (V::Sym(x), V::Str(s)) = (&a[0], &a[1]) {
                            let (xo, xa) = it.node(*x);
                            if &*xo == "[]" && LexDom::is_root(&it, &xa[0]) {
                                if let V::Sym(rg) = &xa[1] {
                                    let (ro, ra) = it.node(*rg);
                                    if &*ro == "range:010" && n.lin(&ra[0]) == l {
                                        known = s.to_string();
                                        kind_known = true;
                                    }
                                }
                            }
                        }
                    }
                }
            }
            if kind_known && !known.starts_with(fs) {
                continue; // infeasible: the word starts with another letter
            }
            if let Some(sp) = tok_spell(&tok) {
                let got = if kind_known {
                    Some(known.clone())
                } else if l.a.is_empty() && l.c > 0 && (l.c as usize) <= known.len() && known.is_char_boundary(l.c as usize) {
                    Some(known[..l.c as usize].to_string())
                } else {
                    None
                };
                match got {
                    Some(g) => {
                        r.ob(
                            g == sp,
                            format!("lexer:spelling:{tok}"),
                            format!("text {g:?} is turned into the token of {sp:?} ({tok})"),
                            &ft.file,
                            ft.line,
                        );
                        fixed.push(P {
                            tok: tok.clone(),
                            first: f.clone(),
                            known: g,
                            not: LexDom::known_false(&it, &st, &text, false).iter().map(|s| s.to_string()).collect(),
                            line: ft.line,
                        });
                    }
                    None => undecided.push(format!("spelling of {tok} starting with {fs:?}")),
                }
            } else if kind_known {
                // an identifier-like class although the text equals a known word
                r.sample(format!("{known:?} -> {tok}"));
            }
        }
    }
    // longest match
    let spells: BTreeSet<String> = fixed.iter().filter(|p| !p.known.chars().all(|c| c.is_alphanumeric() || c == '_')).map(|p| p.known.clone()).collect();
    for p in &fixed {
        for s in spells.iter().filter(|s| s.len() > p.known.len() && s.starts_with(&p.known)) {
            r.ob(
                p.not.iter().any(|x| s.starts_with(x.as_str())),
                format!("lexer:longest:{}:{s}", p.tok),
                format!("text {s:?} is split: {:?} ({}) is returned without first ruling out the longer token {s:?}", p.known, p.tok),
                &ft.file,
                p.line,
            );
            let _ = &p.first;
        }
    }
    // every produced token has a syntax kind; every mapped token is produced
    let map = repo.fn_in("parse/lexer.rs", None, "aptos_token_kind_to_syntax_kind");
    let (mf, ml) = map.map(|m| (m.file.clone(), m.line)).unwrap_or_default();
    for t in &produced {
        r.ob(
            k.tok.contains_key(t),
            format!("lexer:unmapped:{t}"),
            format!("token {t} is produced by the lexer but has no syntax kind: the tree builder would panic"),
            &mf,
            ml,
        );
    }
    for t in k.tok.keys() {
        if t == "EOF" || t == "_" {
            continue;
        }
        r.ob(
            produced.contains(t),
            format!("lexer:unproduced:{t}"),
            format!("token {t} has the syntax kind {} but no text is lexed to it", k.name(k.tok[t])),
            &ft.file,
            ft.line,
        );
    }
    // distinct fixed tokens must map to distinct kinds
    let mut seen: BTreeMap<usize, &String> = BTreeMap::new();
    for (t, i) in &k.tok {
        if class_kind(k.name(*i)) {
            continue;
        }
        if let Some(o) = seen.insert(*i, t) {
            r.viol(format!("lexer:kind-clash:{t}"), format!("tokens {o} and {t} are both mapped to {}", k.name(*i)), &mf, ml);
        }
    }
    for t in ["Whitespace", "LineComment", "BlockComment"] {
        if let Some(i) = k.tok.get(t) {
            r.ob(k.trivia.has(*i), format!("lexer:trivia:{t}"), format!("{t} is mapped to {}, which is not trivia", k.name(*i)), &mf, ml);
        }
    }
    // ---- advance / tokenize
    let mk = |repo| {
        Interp::new(
            repo,
            LexDom { first: Some(Rc::from("?")), notes: Default::default(), regexes: Default::default(), intercept_find_token: true },
        )
    };
    if let Some(adv) = repo.method(&ft.module[0], "Lexer", "advance") {
        let it = mk(repo);
        let mut st = St::new(LW::default());
        let mut m = BTreeMap::new();
        let text = it.sym("text", vec![]);
        m.insert("text".to_string(), text.clone());
        m.insert("cur_start".to_string(), it.sym("start0", vec![]));
        m.insert("cur_end".to_string(), it.sym("end0", vec![]));
        m.insert("token".to_string(), it.sym("token0", vec![]));
        let cell = st.alloc(V::Struct(Rc::from("Lexer"), Rc::new(m)));
        let cx0 = it.cx_for(adv.id, vec![]);
        let cx = Rc::new(Cx { func: adv.id, module: cx0.module.clone(), self_ty: cx0.self_ty.clone(), stack: vec![], ret_opt: false });
        for (st, _) in it.inline(&cx, adv.id, vec![V::Ref(Place::Cell(cell, vec![]))], st) {
            let n = Norm { it: &it, st: &st };
            let V::Struct(_, m) = &st.cells[cell] else { continue };
            let end0 = n.lin(&it.sym("end0", vec![]));
            let calls: Vec<_> = st.events.iter().filter(|e| &*e.name == "find_token").collect();
            let ok_call = calls.len() == 1 && n.off(&calls[0].args[0]) == end0;
            r.ob(ok_call, "lexer:advance:from", "advance must look for the next token exactly where the previous one ended", &adv.file, adv.line);
            let (s, e) = (n.lin(&m["cur_start"]), n.lin(&m["cur_end"]));
            r.ob(s == end0, "lexer:advance:start", "after advance the token must start where the previous one ended", &adv.file, adv.line);
            if let Some(c) = calls.first() {
                let tl = it.sym("toklen", c.args.to_vec());
                let want = Norm::add(s, n.lin(&tl), 1);
                r.ob(e == want, "lexer:advance:end", "after advance the token must end at its start plus the length found", &adv.file, adv.line);
                r.ob(
                    it.deref(&st, &m["token"]) == it.sym("tok", c.args.to_vec()),
                    "lexer:advance:token",
                    "advance must remember the token it found",
                    &adv.file,
                    adv.line,
                );
            }
        }
    } else {
        r.problem("Lexer::advance not found");
    }
    match repo.fn_in("parse/lexer.rs", None, "tokenize") {
        Some(tz) => {
            let it = mk(repo);
            let cx0 = it.cx_for(tz.id, vec![]);
            let cx = Rc::new(Cx { func: tz.id, module: cx0.module.clone(), self_ty: None, stack: vec![], ret_opt: false });
            let mut n_ok = 0;
            for (st, fl) in it.inline(&cx, tz.id, vec![it.sym("text", vec![])], St::new(LW::default())) {
                let (Flow::Val(v) | Flow::Ret(v)) = fl else { continue };
                let V::Tuple(tv) = it.deref(&st, &v) else { continue };
                let calls: Vec<_> = st.events.iter().filter(|e| &*e.name == "find_token").collect();
                let V::List(toks) = it.deref(&st, &tv[0]) else {
                    r.count("tokenize results not read", 1);
                    continue;
                };
                let n = Norm { it: &it, st: &st };
                // the last call found the end of the text
                let want = calls.len().saturating_sub(1);
                let good = toks.len() == want;
                r.ob(
                    good,
                    "lexer:tokenize:count",
                    format!("after finding {want} tokens tokenize returns {} raw tokens: text is lost or duplicated", toks.len()),
                    &tz.file,
                    tz.line,
                );
                if !good {
                    continue;
                }
                for (i, t) in toks.iter().enumerate() {
                    let V::Struct(_, m) = t else { continue };
                    let Some(len) = m.get("len") else { continue };
                    let len = match len {
                        V::Ctor(_, a) if a.len() == 1 => a[0].clone(),
                        V::Sym(x) if it.node(*x).0.ends_with("TextSize::of()") && it.node(*x).1.len() == 1 => {
                            it.sym("len", vec![it.deref(&st, &it.node(*x).1[0])])
                        }
                        V::Sym(x) if it.node(*x).1.len() == 1 && it.node(*x).0.ends_with("()") => it.node(*x).1[0].clone(),
                        v => v.clone(),
                    };
                    let tl = n.lin(&it.sym("toklen", calls[i].args.to_vec()));
                    r.ob(
                        n.lin(&len) == tl,
                        "lexer:tokenize:len",
                        format!("the length recorded for a token is not the byte length of its text but `{}`", it.show(&len)),
                        &tz.file,
                        tz.line,
                    );
                    n_ok += 1;
                }
            }
            r.floor("token records checked in tokenize", n_ok, 2);
        }
        None => r.problem("tokenize not found"),
    }
    r.count("paths of the token finder", npaths);
    r.count("first-character classes", firsts.len());
    r.count("token classes produced", produced.len());
    r.count("fixed spellings checked", fixed.len());
    undecided.sort();
    undecided.dedup();
    r.count("results in a form the unit analysis does not read", undecided.len());
    for u in undecided.iter().take(10) {
        r.sample(format!("not read: {u}"));
    }
    r.floor("paths of the token finder", npaths, 120);
    r.floor("fixed spellings", fixed.len(), 60);
    r.assume("grapheme segmentation, str and regex methods behave as documented; `find`/`len` count bytes, `position`/`count` on chars count characters");
    r
}
