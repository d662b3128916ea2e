//! Text: line endings, text edits.
use super::trace::*;
use super::util::*;
use crate::absint::*;
use crate::repo::*;
use crate::report::Report;
use std::collections::BTreeMap;

/// a linear form over opaque quantities
#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct Lin {
    c: i128,
    m: BTreeMap<String, i128>,
}
impl Lin {
    pub fn int(c: i128) -> Lin {
        Lin { c, m: Default::default() }
    }
    pub fn atom(s: String) -> Lin {
        Lin { c: 0, m: [(s, 1)].into() }
    }
    pub fn add(&self, o: &Lin, k: i128) -> Lin {
        let mut r = self.clone();
        r.c += k * o.c;
        for (a, n) in &o.m {
            *r.m.entry(a.clone()).or_default() += k * n;
        }
        r.m.retain(|_, n| *n != 0);
        r
    }
    pub fn sub(&self, o: &Lin) -> Lin {
        self.add(o, -1)
    }
    pub fn is_zero(&self) -> bool {
        self.c == 0 && self.m.is_empty()
    }
    pub fn konst(&self) -> Option<i128> {
        self.m.is_empty().then_some(self.c)
    }
    pub fn show(&self) -> String {
        let mut s: Vec<String> = self.m.iter().map(|(a, n)| if *n == 1 { a.clone() } else { format!("{n}*{a}") }).collect();
        if self.c != 0 || s.is_empty() {
            s.push(self.c.to_string());
        }
        s.join("+").replace("+-", "-").replace("-1*", "-")
    }
}
struct Slices<'x, 'r, 'a> {
    it: &'x Interp<'r, Trace<'a>>,
    finds: std::cell::RefCell<Vec<Term>>,
}
const CONV: &[&str] = &["from_utf8_unchecked", "from_utf8", "into_bytes", "as_mut_slice", "as_slice", "as_bytes", "as_str", "to_string", "to_owned", "clone", "unwrap", "expect", "as_bytes_mut", "as_mut_vec", "into_string", "as_mut", "from"];
impl<'x, 'r, 'a> Slices<'x, 'r, 'a> {
    /// strip conversions that keep the bytes
    fn base(&self, st: &St<TW>, v: &V) -> V {
        let v = self.it.deref(st, v);
        let (o, a) = op(self.it, &v);
        if o.ends_with("()") && a.len() == 1 && CONV.contains(&last(&o)) {
            return self.base(st, &a[0]);
        }
        if (o == "Ok#0" || o == "Some#0") && a.len() == 1 {
            let (o2, _) = op(self.it, &a[0]);
            if o2.ends_with("()") && CONV.contains(&last(&o2)) {
                return self.base(st, &a[0]);
            }
        }
        v
    }
    fn slice(&self, st: &St<TW>, v: &V) -> (String, Lin, Lin) {
        let v = self.base(st, v);
        let (o, a) = op(self.it, &v);
        if o == "[]" && a.len() == 2 {
            let (ro, ra) = op(self.it, &self.it.deref(st, &a[1]));
            if let Some(f) = ro.strip_prefix("range:") {
                let (b, s, e) = self.slice(st, &a[0]);
                let fl: Vec<bool> = f.chars().map(|c| c == '1').collect();
                let mut i = 0;
                let mut lo = Lin::int(0);
                if fl[0] {
                    lo = self.lin(st, &ra[i]);
                    i += 1;
                }
                let hi = if fl[1] {
                    let h = self.lin(st, &ra[i]);
                    s.add(&h, 1).add(&Lin::int(if fl[2] { 1 } else { 0 }), 1)
                } else {
                    e
                };
                return (b, s.add(&lo, 1), hi);
            }
        }
        let n = cfull(self.it, &v);
        let l = Lin::atom("L".into());
        (n, Lin::int(0), l)
    }
    fn range(&self, st: &St<TW>, v: &V) -> Option<(Lin, Lin)> {
        let (ro, ra) = op(self.it, &self.it.deref(st, v));
        let f = ro.strip_prefix("range:")?;
        if !f.starts_with("11") || ra.len() != 2 {
            return None;
        }
        let incl = f.ends_with('1') && f.len() == 3;
        Some((self.lin(st, &ra[0]), self.lin(st, &ra[1]).add(&Lin::int(incl as i128), 1)))
    }
    fn lin(&self, st: &St<TW>, v: &V) -> Lin {
        let v = self.it.deref(st, v);
        match &v {
            V::Int(n) => Lin::int(*n),
            V::Sym(t) => {
                let (o, a) = self.it.node(*t);
                match (&*o, a.len()) {
                    ("+", 2) => self.lin(st, &a[0]).add(&self.lin(st, &a[1]), 1),
                    ("-", 2) => self.lin(st, &a[0]).sub(&self.lin(st, &a[1])),
                    (x, 1) if x.ends_with("()") && last(x) == "len" => {
                        let (b, s, e) = self.slice(st, &a[0]);
                        if b == "src" { e.sub(&s) } else { Lin::atom(cfull(self.it, &v)) }
                    }
                    ("Some#0", 1) => match &a[0] {
                        V::Sym(f) => {
                            let mut fs = self.finds.borrow_mut();
                            let i = fs.iter().position(|x| x == f).unwrap_or_else(|| {
                                fs.push(*f);
                                fs.len() - 1
                            });
                            Lin::atom(format!("f{i}"))
                        }
                        _ => Lin::atom(cfull(self.it, &v)),
                    },
                    _ => Lin::atom(cfull(self.it, &v)),
                }
            }
            _ => Lin::atom(self.it.show(&v)),
        }
    }
}
fn crlf(it: &Interp<Trace>, v: &V) -> bool {
    match v {
        V::Str(s) => &**s == "\r\n",
        V::Sym(_) | V::Ctor(..) => {
            let (o, a) = op(it, v);
            (o.contains("Finder") || o.ends_with("as_bytes()") || o.ends_with("as_ref()") || o.ends_with("as_str()")) && a.len() == 1 && crlf(it, &a[0])
        }
        V::List(a) => a.len() == 2 && a[0] == V::Int(13) && a[1] == V::Int(10),
        _ => false,
    }
}
fn nl(it: &Interp<Trace>, v: &V) -> bool {
    match v {
        V::Str(s) => &**s == "\n",
        V::Int(10) => true,
        v => it.show(v) == "char#10",
    }
}

/// T01: line endings are normalised on the way in and restored on the way out
pub fn t01(r: &Repo, _t: bool) -> Report {
    let mut rep = Report::new("line endings: on every path the output is the input without the CR of each CRLF found (pieces, lengths and destinations compared as linear forms), and the ending reported matches; edits sent back are converted with the endings of their file.");
    rep.assume("memmem / str::find return the first occurrence; copy_within, set_len, truncate, replace behave as documented; the third and later iterations of the loop behave as the second");
    let file = "stdext/src/line_endings.rs";
    if let Some(f) = need(r, &mut rep, file, Some("LineEndings"), "normalize") {
        let arg = f.sig.inputs.len();
        rep.ob(arg == 1, "normalize:arity", "normalize must take the text", &f.file, f.line);
        let raw = ["find", "replace", "contains", "copy_within", "set_len", "truncate", "push_str", "push", "len", "position"];
        let cfg = Cfg::new(|g: &FnInfo| g.file.ends_with("line_endings.rs")).no_closures().mhook(move |it, cx, st, c| {
            if !raw.contains(&c.name) {
                return None;
            }
            let mut s = st.clone();
            let mut a = vec![it.deref(&s, &c.recv)];
            if c.name == "push_str" || c.name == "push" {
                if let Some(p) = &c.place {
                    a[0] = it.read(&s, p);
                }
            }
            a.extend(c.args.iter().map(|x| it.deref(&s, x)));
            s.event(&format!(".{}", c.name), a.clone(), cx.func, c.line);
            let v = it.sym(&format!(".{}()", c.name), a);
            Some(vec![(s, Flow::Val(v))])
        });
        let it_arg = |t: &Interp<Trace>| vec![t.sym("src", vec![])];
        let it = Interp::new(r, Trace { cfg, panics: Default::default() });
        let paths = run(&it, f.id, Some(it_arg(&it)));
        if !it.overflow.borrow().is_empty() {
            rep.problem(format!("normalize: {:?}", it.overflow.borrow()));
        }
        let (mut unix, mut dos, mut infeasible) = (0, 0, 0);
        for p in &paths {
            let sl = Slices { it: &it, finds: Default::default() };
            let st = &p.st;
            let is = |v: &V| match v {
                V::Sym(t) => match st.facts.get(t) {
                    Some(Fact::Is(n)) => Some(n.to_string()),
                    _ => None,
                },
                _ => None,
            };
            let mut found: Vec<Lin> = vec![]; // absolute positions of the CRs found
            let mut start: Vec<Lin> = vec![]; // where each search began
            let mut exhausted: Option<Lin> = None; // start of the search that found nothing
            let mut pieces: Vec<(Lin, Lin, Option<Lin>)> = vec![];
            let mut newlen: Option<Lin> = None;
            let mut seen_crlf: Option<bool> = None;
            let mut bad: Option<String> = None;
            for e in st.events.iter() {
                let n = last(&e.name);
                match n {
                    "find" => {
                        let (hay, needle) = if e.args.len() == 2 && crlf(&it, &e.args[0]) { (&e.args[1], &e.args[0]) } else { (&e.args[0], e.args.get(1).unwrap_or(&e.args[0])) };
                        if !crlf(&it, needle) {
                            bad = Some(format!("searches for {} instead of CRLF", it.show(needle)));
                            break;
                        }
                        let (b, s, _) = sl.slice(st, hay);
                        if b != "src" {
                            bad = Some(format!("searches {b}"));
                            break;
                        }
                        let term = it.sym(&if e.name.starts_with('.') { ".find()".to_string() } else { format!("{}()", e.name) }, e.args.to_vec());
                        match is(&term).as_deref() {
                            Some("Some") => {
                                let V::Sym(t) = &term else { continue };
                                let pos = sl.lin(st, &it.sym("Some#0", vec![V::Sym(*t)]));
                                found.push(s.add(&pos, 1));
                                start.push(s);
                            }
                            Some("None") => exhausted = Some(s),
                            _ => bad = Some("the result of a search is not examined".into()),
                        }
                    }
                    "contains" if e.args.len() == 2 && crlf(&it, &e.args[1]) => {
                        seen_crlf = fact_bool(&it, st, |s| s == full(&it, &it.sym(".contains()", e.args.to_vec())));
                    }
                    "copy_within" => {
                        let (b, s, _) = sl.slice(st, &e.args[0]);
                        match (b == "src", sl.range(st, &e.args[1])) {
                            (true, Some((lo, hi))) => pieces.push((s.add(&lo, 1), s.add(&hi, 1), Some(s.add(&sl.lin(st, &e.args[2]), 1)))),
                            _ => bad = Some("copies an unknown range".into()),
                        }
                    }
                    "push_str" | "extend_from_slice" => {
                        let (b, s, x) = sl.slice(st, &e.args[1]);
                        if b == "src" {
                            pieces.push((s, x, None));
                        } else if nl(&it, &e.args[1]) {
                            let c = pieces.last().map(|p| p.1.clone()).unwrap_or_default().add(&Lin::int(1), 1);
                            pieces.push((c.clone(), c.add(&Lin::int(1), 1), None));
                        } else {
                            bad = Some(format!("emits {}", it.show(&e.args[1])));
                        }
                    }
                    "push" if nl(&it, &e.args[1]) => {
                        let c = pieces.last().map(|p| p.1.clone()).unwrap_or_default().add(&Lin::int(1), 1);
                        pieces.push((c.clone(), c.add(&Lin::int(1), 1), None));
                    }
                    "set_len" | "truncate" => newlen = Some(sl.lin(st, &e.args[1])),
                    _ => {}
                }
            }
            // impossible paths: CRLF occupies two bytes of the text
            let l = Lin::atom("L".into());
            let dead = st.facts.iter().any(|(t, fa)| {
                let (o, a) = it.node(*t);
                let Fact::Bool(b) = fa else { return false };
                if a.len() != 2 || !(&*o == "==" || &*o == "<") {
                    return false;
                }
                let (x, y) = (sl.lin(st, &a[0]), sl.lin(st, &a[1]));
                let d = x.sub(&y);
                let room = |d: &Lin, strict: bool| {
                    // d is (L - p) - c with the room after p at least 2
                    found.iter().any(|p| d.sub(&l.sub(p)).konst().is_some_and(|k| if strict { 2 + k > 0 } else { 2 + k >= 0 }))
                };
                match (&*o, b) {
                    ("==", true) => d.konst().is_some_and(|k| k != 0) || room(&d, true) || room(&y.sub(&x), true),
                    ("==", false) => d.is_zero(),
                    ("<", true) => d.konst().is_some_and(|k| k >= 0) || room(&d, false),
                    ("<", false) => d.konst().is_some_and(|k| k < 0) || room(&y.sub(&x), true),
                    _ => false,
                }
            });
            if dead {
                infeasible += 1;
                continue;
            }
            let (text, ending) = match &p.ret {
                V::Tuple(v) if v.len() == 2 => (it.deref(st, &v[0]), it.deref(st, &v[1])),
                x => {
                    rep.problem(format!("normalize: result {} not understood", it.show(x)));
                    continue;
                }
            };
            let what = format!("with {} CRLF found", found.len());
            if let Some(b) = bad {
                rep.viol("normalize:shape", format!("normalize: {b}"), &f.file, f.line);
                continue;
            }
            let any = seen_crlf.unwrap_or(!found.is_empty());
            let want = if any { "Dos" } else { "Unix" };
            if any { dos += 1 } else { unix += 1 }
            rep.ob(it.show(&ending).ends_with(want), format!("normalize:ending:{want}"), format!("normalize, {what}: reports {}, must report {want}", it.show(&ending)), &f.file, f.line);
            let tb = sl.base(st, &text);
            let (to, ta) = op(&it, &tb);
            if to.ends_with("()") && last(&to) == "replace" {
                let ok = ta.len() == 3 && cfull(&it, &sl.base(st, &ta[0])) == "src" && crlf(&it, &ta[1]) && nl(&it, &ta[2]);
                rep.ob(ok, "normalize:replace", "normalize must replace every CRLF by LF", &f.file, f.line);
                continue;
            }
            // the searches cover the text without a gap
            let mut cur = Lin::int(0);
            for (s, pos) in start.iter().zip(&found) {
                let d = s.sub(&cur).konst();
                rep.ob(d == Some(0) || (d == Some(1) && !cur.is_zero()), "normalize:search", format!("normalize, {what}: a search starts at {} although everything from {} on is unread", s.show(), cur.show()), &f.file, f.line);
                cur = pos.add(&Lin::int(1), 1);
            }
            if seen_crlf != Some(false) {
                match &exhausted {
                    Some(s) => {
                        let d = s.sub(&cur).konst();
                        rep.ob(d == Some(0) || (d == Some(1) && !cur.is_zero()), "normalize:search", format!("normalize, {what}: the last search starts at {}, must start at {}", s.show(), cur.show()), &f.file, f.line);
                    }
                    None => {
                        rep.viol("normalize:rest", format!("normalize, {what}: stops although the rest of the text was not searched"), &f.file, f.line);
                    }
                }
            }
            // what must come out
            let mut want: Vec<(Lin, Lin)> = vec![];
            let mut c = Lin::int(0);
            for p in &found {
                want.push((c.clone(), p.clone()));
                c = p.add(&Lin::int(1), 1);
            }
            want.push((c, l.clone()));
            let tbase = cfull(&it, &tb);
            let in_place = tbase == "src";
            if in_place && found.is_empty() && pieces.is_empty() {
                rep.ob(newlen.is_none_or(|n| n == l), "normalize:unchanged", "normalize shortens a text without CRLF", &f.file, f.line);
                continue;
            }
            let mut got: Vec<(Lin, Lin)> = vec![];
            let mut at = Lin::int(0);
            if in_place && pieces.first().is_some_and(|x| !x.0.is_zero() && x.2.as_ref() == Some(&want[0].1)) {
                got.push(want[0].clone());
                at = want[0].1.clone();
            }
            for (a, b, d) in &pieces {
                if a == b {
                    continue;
                }
                if let Some(d) = d {
                    rep.ob(*d == at, "normalize:dst", format!("normalize, {what}: bytes {}..{} are moved to {}, must go to {}", a.show(), b.show(), d.show(), at.show()), &f.file, f.line);
                }
                at = at.add(&b.sub(a), 1);
                match got.last_mut() {
                    Some(x) if x.1 == *a => x.1 = b.clone(),
                    _ => got.push((a.clone(), b.clone())),
                }
            }
            want.retain(|(a, b)| a != b);
            let sh = |v: &[(Lin, Lin)]| v.iter().map(|(a, b)| format!("{}..{}", a.show(), b.show())).collect::<Vec<_>>().join(" ");
            rep.ob(got == want, "normalize:output", format!("normalize, {what}: keeps bytes {}; must keep {}", sh(&got), sh(&want)), &f.file, f.line);
            if in_place {
                let total = want.iter().fold(Lin::int(0), |s, (a, b)| s.add(&b.sub(a), 1));
                rep.ob(newlen.as_ref() == Some(&total), "normalize:length", format!("normalize, {what}: length becomes {}, must be {}", newlen.map(|n| n.show()).unwrap_or("unchanged".into()), total.show()), &f.file, f.line);
            }
            rep.sample(format!("normalize, {what}: keeps {}", sh(&got)));
        }
        rep.count("impossible paths of normalize", infeasible);
        rep.floor("paths of normalize without CRLF", unix, 1);
        rep.floor("paths of normalize with CRLF", dos, 1);
    }
    if let Some(f) = need(r, &mut rep, file, Some("LineEndings"), "map") {
        let t = tr(r, &mut rep, f.id, None, Cfg::new(|_| false).mhook(|it, _, st, c| {
            if c.name != "replace" {
                return None;
            }
            let mut a = vec![it.deref(st, &c.recv)];
            a.extend(c.args.iter().map(|x| it.deref(st, x)));
            Some(vec![(st.clone(), Flow::Val(it.sym(".replace()", a)))])
        }));
        for p in &t.paths {
            let which = fact_is(&t.it, &p.st, |s| s == "self");
            let eq = |n: &str| fact_bool(&t.it, &p.st, |s| s.starts_with("==(") && s.contains("self") && s.contains(n));
            let dos = match which.as_deref() {
                Some("Dos") => Some(true),
                Some("Unix") => Some(false),
                _ => eq("Dos").or(eq("Unix").map(|b| !b)).or_else(|| {
                    p.st.facts.iter().find_map(|(t2, f)| match f {
                        Fact::Not(n) if full(&t.it, &V::Sym(*t2)).starts_with("self") && n.len() == 1 => Some(n.iter().next().is_some_and(|x| x.ends_with("Unix"))),
                        _ => None,
                    })
                }),
            };
            let (o, a) = op(&t.it, &norm(&t.it, &p.st, &p.ret));
            let same = o == "text" && a.is_empty();
            let conv = o == ".replace()" && a.len() == 3 && full(&t.it, &a[0]) == "text" && nl(&t.it, &a[1]) && crlf(&t.it, &a[2]);
            let ok = match dos {
                Some(true) => conv,
                Some(false) => same,
                None => false,
            };
            rep.ob(ok, format!("map:{dos:?}"), format!("map for {} text gives {}", if dos == Some(true) { "Dos" } else { "Unix" }, t.it.show(&p.ret)), &f.file, f.line);
        }
        rep.floor("paths of map", t.paths.len(), 2);
    }
    // consumers: every edit sent to the client is converted with the endings of the index it is given
    if let Some(f) = need(r, &mut rep, "lsp/to_proto.rs", None, "lsp_text_edit") {
        let t = tr(r, &mut rep, f.id, None, Cfg::new(|g| g.file.ends_with("lsp/to_proto.rs") && g.name == "lsp_text_edit"));
        for p in &t.paths {
            let nt = match &p.ret {
                V::Struct(_, m) => m.get("new_text").map(|v| cfull(&t.it, v)),
                _ => None,
            };
            let want = ["line_index.endings.map(change.new_text)"];
            rep.ob(nt.as_deref().is_some_and(|x| want.contains(&x)), "lsp_text_edit", format!("an edit is sent with text {nt:?}; must be converted to the endings of its file"), &f.file, f.line);
        }
        rep.floor("paths of lsp_text_edit", t.paths.len(), 1);
    }
    if let Some(f) = need(r, &mut rep, "global_state.rs", Some("GlobalStateSnapshot"), "file_line_index") {
        let t = tr(r, &mut rep, f.id, None, Cfg::new(|g| g.file.ends_with("global_state.rs") && g.name == "file_line_index"));
        let mut n = 0;
        for p in &t.paths {
            if let V::Ctor(c, a) = &p.ret {
                if &**c == "Ok" {
                    n += 1;
                    let ok = match &a[0] {
                        V::Struct(_, m) => m.get("endings").is_some_and(|v| {
                            let s = cfull(&t.it, &norm(&t.it, &p.st, v));
                            s.contains("file_id") && s.contains(".vfs") && s.contains(".1")
                        }),
                        _ => false,
                    };
                    rep.ob(ok, "file_line_index", "the index of a file must carry the endings recorded for that file", &f.file, f.line);
                }
            }
        }
        rep.floor("answers of file_line_index", n, 1);
    }
    rep
}

/// canonical order atoms: `a<b` facts, whatever way round they were written
fn c(it: &Interp<Trace>, st: &St<TW>, v: &V) -> String {
    cfull(it, &norm(it, st, v))
}
const RAW: &[&str] = &[
    "start", "end", "len", "is_empty", "iter", "into_iter", "rev", "zip", "skip", "all", "any", "sort_by_key", "sort_by", "sort_unstable_by_key", "sort_unstable_by", "sort_by_cached_key", "coalesce", "collect_vec", "collect", "merge_by", "dedup_by",
    "dedup", "replace_range", "push", "push_str", "contains", "contains_inclusive", "checked_sub", "reserve", "tuple_windows", "windows", "sorted_by_key", "retain", "insert", "dedup_by_key", "extend", "chain", "clear", "truncate", "pop", "remove", "swap", "reverse",
    "sort", "filter", "map", "take", "skip_while", "take_while", "step_by", "flat_map", "get", "first", "last", "intersect", "cmp", "then", "then_with", "min", "max",
];
/// treats the listed methods as opaque (never as a repository function of the same name), unless called on self
pub fn raw_cfg<'r>(inline: impl Fn(&FnInfo) -> bool + 'r) -> Cfg<'r> {
    Cfg::new(inline).no_closures().mhook(|it, cx, st, c| {
        if !RAW.contains(&c.name) {
            return None;
        }
        let recv = it.deref(st, &c.recv);
        if let V::Sym(_) | V::Struct(..) = recv {
            let n = full(it, &recv);
            if n == "self" || n == "other" || matches!(recv, V::Struct(..)) {
                return None;
            }
        } else {
            return None;
        }
        let mut s = st.clone();
        let mut a = vec![recv];
        a.extend(c.args.iter().map(|x| it.deref(&s, x)));
        s.event(&format!(".{}", c.name), a.clone(), cx.func, c.line);
        let v = it.sym(&format!(".{}()", c.name), a);
        Some(vec![(s, Flow::Val(v))])
    })
}

/// D03: text edits are disjoint, sorted and applied once
pub fn d03(r: &Repo, _t: bool) -> Report {
    let mut rep = Report::new("text edits: who may build one; the checks, the order and the merging it goes through; how it is applied and mapped over an offset.");
    rep.assume("slice::sort_by_key is stable; itertools merge_by / coalesce / dedup_by behave as documented");
    let file = "ide-db/src/text_edit.rs";
    let inl = |g: &FnInfo| g.file.ends_with("ide-db/src/text_edit.rs") && g.self_ty.as_deref() != Some("TextChange") && g.name != "apply";
    let ev_arg = |e: &Ev, i: usize| e.args.get(i).cloned().unwrap_or(V::Unit);

    // ---- who writes the changes of an edit
    for (f, line) in super::state::field_writes(r, "ide_db", "changes") {
        if f.file.ends_with("text_edit.rs") {
            rep.ob(["union", "finish"].contains(&f.name.as_str()), format!("writes:{}", f.name), format!("{} changes a finished edit", f.name), &f.file, line);
        }
    }
    let mut builders = 0;
    for f in r.fns.iter().filter(|f| f.file.ends_with("text_edit.rs") && f.module.first().is_some_and(|m| m == "ide_db")) {
        let t = quote::ToTokens::to_token_stream(f.block).to_string();
        let lit = t.match_indices("TextEdit {").filter(|(i, _)| !t[..*i].ends_with(|c: char| c.is_alphanumeric() || c == '_')).count() + if f.self_ty.as_deref() == Some("TextEdit") { t.matches("Self {").count() } else { 0 };
        if lit > 0 {
            builders += lit;
            rep.ob(f.name == "finish" && f.self_ty.as_deref() == Some("TextEditBuilder"), format!("built:{}", f.name), format!("{} builds an edit without the checks of finish", f.name), &f.file, f.line);
        }
    }
    rep.floor("places that build an edit", builders, 1);

    // ---- the predicate `disjoint or equal` over neighbours of a sorted list
    let neighbours = |rep: &mut Report, it: &Interp<Trace>, st: &St<TW>, call: &V, what: &str, site: (&str, usize)| -> Option<V> {
        let (o, a) = op(it, call);
        let (o2, z) = op(it, a.first().unwrap_or(&V::Unit));
        let pairs = if last(&o2) == "zip" && z.len() == 2 {
            let (l, s) = (c(it, st, &z[0]), c(it, st, &z[1]));
            let want = format!("{l}.skip(1)");
            (s == want || s.replace(".iter()", "") == want.replace(".iter()", "")).then(|| z[0].clone())
        } else if last(&o2) == "tuple_windows" || (last(&o2) == "windows" && z.get(1) == Some(&V::Int(2))) {
            Some(z[0].clone())
        } else {
            None
        };
        if last(&o) != "all" || pairs.is_none() {
            rep.viol(format!("{what}:pairs"), format!("{what}: not every pair of neighbours is compared ({})", it.show(call)), site.0, site.1);
            return None;
        }
        let clo = a.get(1).cloned().unwrap_or(V::Unit);
        let (l, rr) = (it.sym("l", vec![]), it.sym("r", vec![]));
        let arg = if last(&o2) == "windows" { V::List(vec![l, rr].into()) } else { V::Tuple(vec![l, rr].into()) };
        let ps = clo_paths(it, st, &clo, vec![arg]);
        if ps.is_empty() {
            rep.problem(format!("{what}: the comparison of neighbours could not be read"));
        }
        let pv: Vec<(St<TW>, V)> = ps.into_iter().map(|p| (p.st, p.ret)).collect();
        let txt = |v: &V| cfull(it, v);
        let atoms: &[(&str, &[&str])] = &[("overlap", &["<(r.range.start(), l.range.end())", "!<=(l.range.end(), r.range.start())", ">(l.range.end(), r.range.start())"]), ("equal", &["==(l, r)", "==(r, l)"])];
        table(it, rep, &pv, what, site, atoms, &txt, &|b| !b[0] || b[1]);
        pairs
    };
    let sort_key = |rep: &mut Report, it: &Interp<Trace>, st: &St<TW>, e: &Ev, what: &str, site: (&str, usize)| {
        let n = last(&e.name);
        let x = it.sym("x", vec![]);
        let y = it.sym("y", vec![]);
        let key = "(x.range.start(), x.range.end())";
        let ok = match n {
            "sort_by_key" | "sort_by_cached_key" => {
                let ps = clo_paths(it, st, &ev_arg(e, 1), vec![x]);
                ps.len() == 1 && c(it, &ps[0].st, &ps[0].ret) == key
            }
            "sort_by" => {
                let ps = clo_paths(it, st, &ev_arg(e, 1), vec![x, y]);
                let k = key.replace('x', "y");
                ps.len() == 1 && (c(it, &ps[0].st, &ps[0].ret) == format!("{key}.cmp({k})") || c(it, &ps[0].st, &ps[0].ret) == "x.range.start().cmp(y.range.start()).then(x.range.end().cmp(y.range.end()))")
            }
            _ => false,
        };
        rep.ob(ok, format!("{what}:sort"), format!("{what}: changes must be sorted by (start, end), insertions at the same place staying in order; got {n}"), site.0, site.1);
    };

    // ---- finish
    if let Some(f) = need(r, &mut rep, file, Some("TextEditBuilder"), "finish") {
        let t = tr(r, &mut rep, f.id, None, raw_cfg(inl));
        let site = (f.file.as_str(), f.line);
        for p in &t.paths {
            let it = &t.it;
            let pos = |n: &str| p.st.events.iter().position(|e| last(&e.name) == n);
            // the list that ends up in the edit
            let ret = match &p.ret {
                V::Struct(n, m) if n.ends_with("TextEdit") => m.get("changes").cloned(),
                _ => None,
            };
            let Some(ret) = ret else {
                rep.problem(format!("finish: result {} not understood", it.show(&p.ret)));
                continue;
            };
            let sort = p.st.events.iter().position(|e| last(&e.name).starts_with("sort"));
            let all = pos("all");
            let (Some(s), Some(al)) = (sort, all) else {
                rep.viol("finish:checked", "finish builds an edit without sorting its changes and checking them", site.0, site.1);
                continue;
            };
            sort_key(&mut rep, it, &p.st, &p.st.events[s], "finish", site);
            rep.ob(s < al, "finish:order", "finish checks neighbours before the changes are sorted", site.0, site.1);
            let call = it.sym(".all()", p.st.events[al].args.to_vec());
            neighbours(&mut rep, it, &p.st, &call, "finish: neighbours", site);
            let txt = full(it, &call);
            rep.ob(fact_bool(it, &p.st, |x| x == txt) == Some(true), "finish:assert", "finish must refuse overlapping changes", site.0, site.1);
            // duplicates of replacements are applied once; insertions are kept
            let dd: Vec<&Ev> = p.st.events.iter().filter(|e| last(&e.name).starts_with("dedup")).collect();
            rep.ob(dd.len() == 1, "finish:dedup", "finish must drop the second copy of a deletion or replacement added twice (it would be applied twice)", site.0, site.1);
            for e in dd {
                dedup(&mut rep, it, &p.st, e, "finish", site);
            }
            // coalescing
            let co: Vec<&Ev> = p.st.events.iter().filter(|e| last(&e.name) == "coalesce").collect();
            for e in &co {
                coalesce(&mut rep, it, &p.st, e, site);
            }
            let got = c(it, &p.st, &ret);
            let keep = ["self.text_changes", ".coalesce(<closure>)", ".coalesce(())", ".collect_vec()", ".collect()", ".dedup_by(())", ".into_iter()", ".iter()"];
            let mut rest = got.clone();
            for k in keep {
                rest = rest.replace(k, "");
            }
            rep.ob(got.starts_with("self.text_changes") && rest.is_empty(), "finish:kept", format!("finish must keep every change: the edit holds {got}"), site.0, site.1);
        }
        rep.floor("paths of finish", t.paths.len(), 1);
    }
    // ---- union
    if let Some(f) = need(r, &mut rep, file, Some("TextEdit"), "union") {
        let t = tr(r, &mut rep, f.id, None, raw_cfg(inl));
        let site = (f.file.as_str(), f.line);
        let (mut oks, mut errs) = (0, 0);
        for p in &t.paths {
            let it = &t.it;
            let Some(al) = p.st.events.iter().find(|e| last(&e.name) == "all") else {
                rep.viol("union:checked", "union merges two edits without checking that they do not overlap", site.0, site.1);
                continue;
            };
            let call = it.sym(".all()", al.args.to_vec());
            let list = neighbours(&mut rep, it, &p.st, &call, "union: neighbours", site);
            let txt = full(it, &call);
            let b = fact_bool(it, &p.st, |x| x == txt);
            let heap = heap_of(it, &p.st, "self.changes");
            match &p.ret {
                V::Ctor(n, a) if &**n == "Err" => {
                    errs += 1;
                    rep.ob(b == Some(false) && heap.is_none() && c(it, &p.st, &a[0]) == "other", "union:err", "union must hand the other edit back, and leave this one alone, exactly when they overlap", site.0, site.1);
                }
                _ => {
                    oks += 1;
                    rep.ob(b == Some(true), "union:ok", "union accepts overlapping edits", site.0, site.1);
                    let h = heap.map(|h| c(it, &p.st, &h)).unwrap_or_default();
                    let l = list.map(|l| c(it, &p.st, &l)).unwrap_or_default();
                    let merged = l.contains(".merge_by(");
                    rep.ob(merged && h.starts_with(&l) && [".dedup_by(()).collect()", ".dedup_by(<closure>).collect()", ".dedup_by(()).collect_vec()"].contains(&h.strip_prefix(&l).unwrap_or("?")), "union:result", format!("after union the edit holds {h}; must hold the merged changes that were checked, without duplicates"), site.0, site.1);
                }
            }
            for e in p.st.events.iter().filter(|e| last(&e.name) == "merge_by") {
                let (l, rr) = (it.sym("l", vec![]), it.sym("r", vec![]));
                let ps: Vec<(St<TW>, V)> = clo_paths(it, &p.st, &ev_arg(e, 2), vec![l, rr]).into_iter().map(|p| (p.st, p.ret)).collect();
                table(it, &mut rep, &ps, "union: merge order", site, &[("right first", &["<(r.range.start(), l.range.start())"])], &|v| cfull(it, v), &|b| !b[0]);
                let both = [c(it, &p.st, &ev_arg(e, 0)), c(it, &p.st, &ev_arg(e, 1))].map(|s| s.replace(".iter()", "").replace(".into_iter()", "").replace(".changes", ""));
                rep.ob(both == ["self".to_string(), "other".to_string()], "union:inputs", format!("union merges {both:?}"), site.0, site.1);
            }
            for e in p.st.events.iter().filter(|e| last(&e.name).starts_with("dedup")) {
                dedup(&mut rep, it, &p.st, e, "union", site);
            }
        }
        rep.floor("accepting paths of union", oks, 1);
        rep.floor("refusing paths of union", errs, 1);
    }
    // ---- apply
    if let Some(f) = need(r, &mut rep, file, Some("TextChange"), "apply") {
        let t = tr(r, &mut rep, f.id, None, Cfg::new(|_| false).no_closures().mhook(|it, cx, st, c| {
            if c.name != "replace_range" {
                return None;
            }
            let mut s = st.clone();
            let mut a = vec![it.deref(&s, &c.recv)];
            a.extend(c.args.iter().map(|x| it.deref(&s, x)));
            s.event(".replace_range", a, cx.func, c.line);
            Some(vec![(s, Flow::Val(V::Unit))])
        }));
        for p in &t.paths {
            let e = evs(p, "replace_range");
            let ok = e.len() == 1 && {
                let r0 = c(&t.it, &p.st, &ev_arg(e[0], 1)).replace(".into()", "");
                let r0 = r0.replace("usize.from(", "(").replace("TextSize.into", "");
                c(&t.it, &p.st, &ev_arg(e[0], 0)) == "text"
                    && (r0 == "range:110(self.range.start(), self.range.end())" || r0 == "self.range" || r0 == "Range::from(self.range)" || r0.replace("usize::from(", "").replace(')', "") == "range:110(self.range.start(, self.range.end(")
                    && c(&t.it, &p.st, &ev_arg(e[0], 2)) == "self.new_text"
            };
            rep.ob(ok, "change:apply", "a change must replace exactly its range by its new text", &f.file, f.line);
        }
        rep.floor("paths of TextChange::apply", t.paths.len(), 1);
    }
    if let Some(f) = need(r, &mut rep, file, Some("TextEdit"), "apply") {
        let t = tr(r, &mut rep, f.id, None, raw_cfg(move |g: &FnInfo| inl(g)).unroll(Some(2)));
        let mut loops = 0;
        for p in &t.paths {
            let it = &t.it;
            let mut applied: Vec<String> = vec![];
            let mut other = vec![];
            for e in p.st.events.iter() {
                let n = last(&e.name);
                let on_text = e.args.iter().any(|a| c(it, &p.st, a) == "text");
                if n == "apply" && e.args.len() == 2 {
                    applied.push(cfull(it, &it.deref(&p.st, &e.args[0])));
                } else if on_text && !["of", "reserve", "len", "checked_sub", "is_empty"].contains(&n) && !r.fns.iter().any(|g| g.name == n && inl(g)) {
                    other.push(n.to_string());
                }
            }
            rep.ob(other.is_empty(), "apply:text", format!("apply changes the text by {other:?}"), &f.file, f.line);
            let lin = applied.len();
            let len_is = |k: i128| fact_bool(it, &p.st, |s| s == format!("==({k}, self.changes.len())"));
            let empty = len_is(0) == Some(true) || fact_bool(it, &p.st, |s| s.ends_with("self.changes.is_empty()") ) == Some(true);
            let one = len_is(1) == Some(true);
            let whole = "elem(self.changes.iter().rev(), ";
            let whole2 = "elem(self.changes.rev(), ";
            // `changes[i]` for `i` running down from the last index
            let by_index = |a: &str| a.strip_prefix("[](self.changes, elem(range:").and_then(|x| x.split_once('(')).is_some_and(|(n, x)| n == "110" && x.starts_with("0, self.changes.len()).rev(), "));
            let ok = if empty {
                lin == 0 || applied.iter().all(|a| a.starts_with(whole) || a.starts_with(whole2) || by_index(a))
            } else if one && applied.iter().any(|a| a.starts_with("[](self.changes")) {
                lin == 1 && applied[0] == "[](self.changes, 0)"
            } else {
                // a loop over all changes, last first, each applied
                loops += 1;
                let ns: Vec<&String> = applied.iter().collect();
                ns.iter().all(|a| a.starts_with(whole) || a.starts_with(whole2) || by_index(a)) && {
                    let mut d = applied.clone();
                    d.dedup();
                    d.len() == applied.len()
                }
            };
            rep.ob(ok, "apply:each", format!("apply must apply every change once, the last one first; applies {applied:?}"), &f.file, f.line);
            // every iteration of a loop over the changes that skips one would show as a path with an element that was not applied
            let elems: std::collections::BTreeSet<String> = p.st.facts.iter().flat_map(|(t, _)| elems_of(it, &V::Sym(*t))).filter(|e| e.starts_with(whole) || e.starts_with("elem(range:110(0, self.changes.len()).rev(), ")).collect();
            for e in elems {
                let e = if e.starts_with("elem(range:") { format!("[](self.changes, {e})") } else { e };
                let is = |x: String| p.st.facts.iter().any(|(t, f)| *f == Fact::Bool(true) && cfull(it, &V::Sym(*t)) == x);
                let noop = is(format!("{e}.new_text.is_empty()")) && is(format!("{e}.range.is_empty()"));
                rep.ob(noop || applied.contains(&e), "apply:skipped", "apply looks at a change and does not apply it", &f.file, f.line);
            }
            if !empty && !one {
                let used = p.st.events.iter().any(|e| last(&e.name) == "rev");
                rep.ob(used, "apply:all", "apply leaves without applying the changes", &f.file, f.line);
            }
        }
        rep.floor("paths of apply that loop over the changes", loops, 2);
        rep.ob(t.paths.iter().any(|p| evs(p, "apply").len() >= 2), "apply:loop", "no path applies more than one change", &f.file, f.line);
    }
    // ---- apply_to_offset: per change
    if let Some(f) = need(r, &mut rep, file, Some("TextEdit"), "apply_to_offset") {
        let t = tr(r, &mut rep, f.id, None, raw_cfg(move |g: &FnInfo| inl(g)).unroll(Some(2)));
        let site = (f.file.as_str(), f.line);
        let it = &t.it;
        let lin = |st: &St<TW>, v: &V| lin_of(it, st, v);
        for p in &t.paths {
            // the elements seen, in order
            let mut el: Vec<String> = vec![];
            for e in p.st.events.iter() {
                for a in e.args.iter() {
                    for x in elems_of(it, a) {
                        if !el.contains(&x) {
                            el.push(x);
                        }
                    }
                }
            }
            for (t2, _) in p.st.facts.iter() {
                for x in elems_of(it, &V::Sym(*t2)) {
                    if !el.contains(&x) {
                        el.push(x);
                    }
                }
            }
            el.sort_by_key(|e| e.rsplit(", ").next().and_then(|n| n.trim_end_matches(')').parse::<u32>().ok()).unwrap_or(0));
            let ok_src = el.iter().all(|e| e.starts_with("elem(self.changes, ") || e.starts_with("elem(self.changes.iter(), "));
            rep.ob(ok_src, "offset:order", "apply_to_offset must go through the changes in order", site.0, site.1);
            let mut want = Lin::atom("offset".into());
            let mut stopped = false;
            let mut inside = false;
            for e in &el {
                if stopped || inside {
                    rep.viol("offset:past", "apply_to_offset goes on after a change at or past the offset", site.0, site.1);
                    break;
                }
                let (s, n, x) = (format!("{e}.range.start()"), format!("{e}.new_text"), format!("{e}.range.end()"));
                let before = cmp_fact(it, p, &s, "offset");
                let within = cmp_fact(it, p, "offset", &x);
                match (before, within) {
                    (Some(false), _) => stopped = true,
                    (Some(true), Some(true)) => inside = true,
                    (Some(true), Some(false)) => {
                        let _ = &n;
                        want = want.add(&Lin::atom(format!("len({n})")), 1).sub(&Lin::atom(format!("len({e}.range)")));
                    }
                    (b, w) => {
                        // the two comparisons may be made in either order
                        if w == Some(false) && b.is_none() {
                            want = want.add(&Lin::atom(format!("len({n})")), 1).sub(&Lin::atom(format!("len({e}.range)")));
                        } else {
                            rep.viol("offset:cases", format!("apply_to_offset does not compare the offset with the change (start before: {b:?}, end after: {w:?})"), site.0, site.1);
                        }
                    }
                }
            }
            match &p.ret {
                V::Ctor(n, _) if &**n == "None" => {
                    rep.ob(inside, "offset:none", "apply_to_offset gives up although the offset is not inside a change", site.0, site.1);
                }
                V::Ctor(n, a) if &**n == "Some" => {
                    rep.ob(!inside, "offset:inside", "apply_to_offset maps an offset that lies inside a replaced range", site.0, site.1);
                    let got = lin(&p.st, &a[0]);
                    rep.ob(got == want, "offset:value", format!("apply_to_offset gives {}, must give {}", got.show(), want.show()), site.0, site.1);
                }
                x => rep.problem(format!("apply_to_offset: result {} not understood", it.show(x))),
            }
        }
        rep.floor("paths of apply_to_offset", t.paths.len(), 4);
    }
    // ---- adding changes
    for (name, spec) in [("replace", "(range, replace_with)"), ("delete", "(range, \"\")"), ("insert", "(empty offset, text)")] {
        let Some(f) = need(r, &mut rep, file, Some("TextEditBuilder"), name) else { continue };
        let t = tr(r, &mut rep, f.id, None, raw_cfg(|g: &FnInfo| g.file.ends_with("ide-db/src/text_edit.rs") && g.name != "apply"));
        for p in &t.paths {
            let pushes = evs(p, "push");
            let ok = pushes.len() == 1
                && match &pushes[0].args[1] {
                    V::Struct(_, m) => {
                        let rg = m.get("range").map(|v| c(&t.it, &p.st, v)).unwrap_or_default();
                        let nt = m.get("new_text").map(|v| t.it.show(&norm(&t.it, &p.st, v))).unwrap_or_default();
                        match name {
                            "replace" => rg == "range" && nt == "replace_with",
                            "delete" => rg == "range" && (nt == "String::new()" || nt == "\"\"" || nt == "String::new()()"),
                            _ => (rg == "TextRange::empty(offset)" || rg == "TextRange::new(offset, offset)") && nt == "text",
                        }
                    }
                    _ => false,
                };
            rep.ob(ok, format!("add:{name}"), format!("{name} must add the one change {spec}"), &f.file, f.line);
        }
        rep.floor(&format!("paths of {name}"), t.paths.len(), 1);
    }
    rep
}
pub fn lin_of(it: &Interp<Trace>, st: &St<TW>, v: &V) -> Lin {
    let v = it.deref(st, v);
    match &v {
        V::Int(n) => Lin::int(*n),
        V::Sym(t) => {
            let (o, a) = it.node(*t);
            match (&*o, a.len()) {
                ("+", 2) => lin_of(it, st, &a[0]).add(&lin_of(it, st, &a[1]), 1),
                ("-", 2) => lin_of(it, st, &a[0]).sub(&lin_of(it, st, &a[1])),
                (x, 1) if x.ends_with("()") && (last(x) == "from" || last(x) == "new") && x.contains("TextSize") => lin_of(it, st, &a[0]),
                (x, 1) if matches!(last(x), "start" | "end" | "len") && range_parts(it, st, &a[0]).is_some() => {
                    let (s, e, at) = range_parts(it, st, &a[0]).unwrap();
                    let (s, e) = (lin_of(it, st, &s), lin_of(it, st, &e));
                    let end = if at { s.add(&e, 1) } else { e };
                    match last(x) {
                        "start" => s,
                        "end" => end,
                        _ => end.sub(&s),
                    }
                }
                (x, 1) if x.ends_with("()") && (last(x) == "len" || (x.contains("TextSize") && last(x) == "of")) => Lin::atom(format!("len({})", c(it, st, &a[0]))),
                _ => Lin::atom(c(it, st, &v)),
            }
        }
        _ => Lin::atom(it.show(&v)),
    }
}
/// the parts of `TextRange::at(start, len)` / `TextRange::new(start, end)`
pub fn range_parts(it: &Interp<Trace>, st: &St<TW>, v: &V) -> Option<(V, V, bool)> {
    let V::Sym(t) = it.deref(st, v) else { return None };
    let (o, a) = it.node(t);
    if a.len() != 2 || !o.contains("TextRange") {
        return None;
    }
    match o.trim_end_matches("()").rsplit("::").next() {
        Some("at") => Some((a[0].clone(), a[1].clone(), true)),
        Some("new") => Some((a[0].clone(), a[1].clone(), false)),
        _ => None,
    }
}
/// is `a < b` known on this path?
fn cmp_fact(it: &Interp<Trace>, p: &PathR, a: &str, b: &str) -> Option<bool> {
    let f = |n: String| {
        p.st.facts.iter().find_map(|(t, f)| match f {
            Fact::Bool(v) if cfull(it, &V::Sym(*t)) == n => Some(*v),
            _ => None,
        })
    };
    f(format!("<({a}, {b})")).or_else(|| f(format!("<=({b}, {a})")).map(|v| !v))
}
pub fn elems_of(it: &Interp<Trace>, v: &V) -> Vec<String> {
    let mut out = vec![];
    fn go(it: &Interp<Trace>, v: &V, out: &mut Vec<String>) {
        match v {
            V::Sym(t) => {
                let (o, a) = it.node(*t);
                if &*o == "elem" {
                    out.push(cfull(it, v));
                }
                a.iter().for_each(|x| go(it, x, out));
            }
            V::Ctor(_, a) | V::Tuple(a) | V::List(a) => a.iter().for_each(|x| go(it, x, out)),
            V::Struct(_, m) => m.values().for_each(|x| go(it, x, out)),
            _ => {}
        }
    }
    go(it, v, &mut out);
    out
}
fn dedup(rep: &mut Report, it: &Interp<Trace>, st: &St<TW>, e: &Ev, what: &str, site: (&str, usize)) {
    if last(&e.name) != "dedup_by" || e.args.len() < 2 {
        rep.viol(format!("{what}:dedup"), format!("{what}: {} drops repeated insertions too", last(&e.name)), site.0, site.1);
        return;
    }
    let (a, b) = (it.sym("a", vec![]), it.sym("b", vec![]));
    let ps: Vec<(St<TW>, V)> = clo_paths(it, st, &e.args[1], vec![a, b]).into_iter().map(|p| (p.st, p.ret)).collect();
    if ps.is_empty() {
        rep.problem(format!("{what}: the test for duplicates could not be read"));
    }
    let atoms: &[(&str, &[&str])] = &[("equal", &["==(a, b)", "==(b, a)"]), ("insertion", &["a.range.is_empty()", "b.range.is_empty()"])];
    // when they are not equal the second atom does not matter
    table(it, rep, &ps, &format!("{what}: duplicate"), site, atoms, &|v| cfull(it, v), &|b| b[0] && !b[1]);
}
fn coalesce(rep: &mut Report, it: &Interp<Trace>, st: &St<TW>, e: &Ev, site: (&str, usize)) {
    let (a, b) = (it.sym("a", vec![]), it.sym("b", vec![]));
    let ps = clo_paths(it, st, &e.args[1], vec![a, b]);
    if ps.is_empty() {
        rep.problem("finish: the merging of neighbours could not be read");
    }
    for p in ps {
        let touch = p.st.facts.iter().find_map(|(t, f)| match f {
            Fact::Bool(v) => {
                let s = cfull(it, &V::Sym(*t));
                (s == "==(a.range.end(), b.range.start())" || s == "==(b.range.start(), a.range.end())").then_some(*v)
            }
            _ => None,
        });
        let facts = p.st.facts.len();
        match &p.ret {
            V::Ctor(n, x) if &**n == "Ok" => {
                let v = it.deref(&p.st, &x[0]);
                let range = heap_of(it, &p.st, "a.range").or_else(|| field(it, &p.st, &v, "range")).map(|v| cfull(it, &v)).unwrap_or_default();
                let pushes: Vec<String> = p.st.events.iter().filter(|e| last(&e.name) == "push_str").map(|e| format!("{} {}", c(it, &p.st, &e.args[0]), c(it, &p.st, &e.args[1]))).collect();
                let txt = field(it, &p.st, &v, "new_text").map(|v| cfull(it, &v)).unwrap_or_default();
                let text_ok = pushes == ["a.new_text b.new_text"] || txt == "+(a.new_text, b.new_text)";
                let range_ok = range == "TextRange::new(a.range.start(), b.range.end())" || range == "a.range.cover(b.range)";
                rep.ob(touch == Some(true), "coalesce:when", "finish merges changes that do not touch", site.0, site.1);
                rep.ob(text_ok && range_ok, "coalesce:merged", format!("finish merges neighbours a, b into text {pushes:?}{txt} and range {range}"), site.0, site.1);
            }
            V::Ctor(n, x) if &**n == "Err" => {
                let s = cfull(it, &it.deref(&p.st, &x[0]));
                rep.ob(s == "(a, b)" && p.st.events.iter().all(|e| last(&e.name) != "push_str"), "coalesce:kept", format!("finish must keep both changes when it does not merge them; keeps {s}"), site.0, site.1);
            }
            x => rep.problem(format!("finish: merging gives {} ({facts} facts)", it.show(x))),
        }
    }
}
fn field(it: &Interp<Trace>, st: &St<TW>, v: &V, name: &str) -> Option<V> {
    Some(it.deref(st, &it.field_of(st, v, name)))
}
