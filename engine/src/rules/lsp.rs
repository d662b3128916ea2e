//! Language server protocol conversions: positions, incremental edits.
use super::trace::*;
use super::util::*;
use crate::absint::*;
use crate::repo::*;
use crate::report::Report;
use std::collections::BTreeSet;
use std::rc::Rc;

pub const SRV: &str = "crates/aptos-language-server/src/";

fn out1(st: &St<TW>, v: V) -> Option<Out<TW>> {
    Some(vec![(st.clone(), Flow::Val(v))])
}
/// remove wrappers that keep the value
fn bare<D: Domain>(it: &Interp<D>, st: &St<D::W>, v: &V) -> V {
    let v = it.deref(st, v);
    let (o, a) = op(it, &v);
    if a.len() == 1 && matches!(last(&o), "new" | "from" | "into" | "clone" | "to_owned" | "to_string" | "as_str" | "as_ref" | "borrow" | "take" | "try_into" | "as_usize") && o.ends_with("()") {
        return bare(it, st, &a[0]);
    }
    v
}

pub fn l16(r: &Repo, thorough: bool) -> Report {
    let mut rep = Report::new("apply_document_changes, run symbolically on every sequence of up to 3 (4) changes of both kinds: the result is the last whole-document text (or the file's text) with every later partial change applied in order, each one's range converted with a line index that is still valid for the lines it touches, and with the negotiated encoding");
    let Some(f) = need(r, &mut rep, "lsp/utils.rs", None, "apply_document_changes") else { return rep };
    let site = (f.file.clone(), f.line);
    let mut npaths = 0;
    let mut nchanges = 0;
    for n in 0..=(if thorough { 4 } else { 3 }) {
        for mask in 0..(1u32 << n) {
            let cfg = Cfg::new(|g: &FnInfo| g.file.ends_with("lsp/utils.rs")).unroll(Some(6)).cap(60000).fresh(|_| false).chook(|it, _cx, st, segs, a, _l| {
                let n = segs.last().map(|s| s.as_str()).unwrap_or("");
                let q = segs.len().checked_sub(2).map(|i| segs[i].as_str()).unwrap_or("");
                match (q, n) {
                    ("LineIndex", "new") if a.len() == 1 => out1(st, it.sym("lidx", vec![bare(it, st, &a[0])])),
                    ("Arc" | "Rc" | "Box", "new") if a.len() == 1 => out1(st, a[0].clone()),
                    ("Arc" | "Rc", "make_mut" | "get_mut") if a.len() == 1 => out1(st, a[0].clone()),
                    (_, "text_range") if a.len() == 2 => {
                        let li = it.deref(st, &a[0]);
                        let idx = it.deref(st, &it.field_of(st, &li, "index"));
                        let enc = it.deref(st, &it.field_of(st, &li, "encoding"));
                        out1(st, it.sym("text_range", vec![bare(it, st, &idx), enc, it.deref(st, &a[1])]))
                    }
                    _ => None,
                }
            }).mhook(|it, _cx, st, c| match c.name {
                "replace_range" if c.args.len() == 2 => {
                    let p = c.place.clone()?;
                    let old = it.deref(st, &it.read(st, &p));
                    let mut s = st.clone();
                    let nv = it.sym("replaced", vec![old, bare(it, st, &c.args[0]), bare(it, st, &c.args[1])]);
                    it.write(&mut s, &p, nv);
                    Some(vec![(s, Flow::Val(V::Unit))])
                }
                "to_owned" | "to_string" | "clone" | "as_str" | "as_mut" | "as_ref" if c.args.is_empty() => out1(st, it.deref(st, &c.recv)),
                _ => None,
            });
            let it = Interp::new(r, Trace { cfg, panics: Default::default() });
            let fc = it.sym("FILE", vec![]);
            let enc = it.sym("ENC", vec![]);
            let list: Vec<V> = (0..n)
                .map(|i| {
                    let whole = mask >> i & 1 == 1;
                    ctor(if whole { "TextDocumentContentChangeWholeDocument" } else { "TextDocumentContentChangePartial" }, vec![it.sym(&format!("c{i}"), vec![])])
                })
                .collect();
            let paths = run(&it, f.id, Some(vec![enc, fc, V::List(Rc::new(list))]));
            let name = format!("changes [{}]", (0..n).map(|i| if mask >> i & 1 == 1 { "whole" } else { "partial" }).collect::<Vec<_>>().join(", "));
            let start = (0..n).rev().find(|i| mask >> i & 1 == 1);
            let first = start.map(|i| i + 1).unwrap_or(0);
            let base = start.map(|i| format!("c{i}.text")).unwrap_or("FILE".into());
            for p in &paths {
                npaths += 1;
                // unfold the result
                let mut steps: Vec<(V, V)> = vec![];
                let mut versions: Vec<String> = vec![];
                let mut v = bare(&it, &p.st, &p.ret);
                loop {
                    let (o, a) = op(&it, &v);
                    versions.push(cfull(&it, &v));
                    if o == "replaced" && a.len() == 3 {
                        steps.push((a[1].clone(), a[2].clone()));
                        v = a[0].clone();
                    } else {
                        break;
                    }
                }
                steps.reverse();
                versions.reverse(); // versions[k] = text after k replacements
                let b = cfull(&it, &v);
                rep.ob(b == base, "base", format!("{name}: the result starts from {b}, not from {base}"), &site.0, site.1);
                // which changes were refused (text_range failed)
                let refused = |i: usize| {
                    p.st.facts.iter().any(|(t, f)| {
                        let s = cfull(&it, &V::Sym(*t));
                        s.starts_with("text_range(") && s.ends_with(&format!("c{i}.range)")) && matches!(f, Fact::Is(k) if &**k == "Err") || s.starts_with("text_range(") && s.ends_with(&format!("c{i}.range)")) && matches!(f, Fact::Not(x) if x.iter().any(|x| &**x == "Ok"))
                    })
                };
                let want: Vec<usize> = (first..n).filter(|i| !refused(*i)).collect();
                let mut idx_at: Vec<Option<usize>> = vec![];
                let mut got: Vec<String> = vec![];
                for (rg, tx) in &steps {
                    let (mut o, mut a) = op(&it, rg);
                    if o == "Ok#0" && a.len() == 1 {
                        (o, a) = op(&it, &a[0]);
                    }
                    if o != "text_range" || a.len() != 3 {
                        got.push(format!("{} by {}", cfull(&it, rg), cfull(&it, tx)));
                        idx_at.push(None);
                        continue;
                    }
                    let rn = cfull(&it, &a[2]);
                    let tn = cfull(&it, tx);
                    got.push(if rn.ends_with(".range") && tn.ends_with(".text") && rn.trim_end_matches(".range") == tn.trim_end_matches(".text") { rn.trim_end_matches(".range").to_string() } else { format!("{rn} by {tn}") });
                    let e = cfull(&it, &a[1]);
                    rep.ob(e == "ENC", "encoding", format!("{name}: a range is converted with the encoding {e}, not the negotiated one"), &site.0, site.1);
                    let (lo, la) = op(&it, &a[0]);
                    idx_at.push(if lo == "lidx" { versions.iter().position(|x| *x == cfull(&it, &la[0])) } else { None });
                }
                let wn: Vec<String> = want.iter().map(|i| format!("c{i}")).collect();
                rep.ob(got == wn, "order", format!("{name}: the replacements made are {got:?}; the changes after the last whole document, in the order sent, are {wn:?}"), &site.0, site.1);
                if got != wn {
                    continue;
                }
                nchanges += wn.len();
                // index freshness: strict "line" order facts
                let mut edges: Vec<(String, String)> = vec![];
                let ends = |a: &str| a.ends_with(".start.line") || a.ends_with(".end.line");
                for (t, fct) in p.st.facts.iter() {
                    let Fact::Bool(bv) = fct else { continue };
                    let s = cfull(&it, &V::Sym(*t));
                    let Some((o, x)) = s.split_once('(') else { continue };
                    let Some((l, rr)) = x.trim_end_matches(')').split_once(", ") else { continue };
                    if !ends(l) || !ends(rr) {
                        continue;
                    }
                    match (o, *bv) {
                        ("<", true) | (">=", false) => edges.push((l.into(), rr.into())),
                        (">", true) | ("<=", false) => edges.push((rr.into(), l.into())),
                        _ => {}
                    }
                }
                // u32::MAX as "everything valid" is caught by the range of the values: facts over !0 are ignored
                let below = |a: &str, b: &str| {
                    // a < b, through start <= end of well-formed ranges
                    let mut seen = vec![a.to_string()];
                    let mut strict = vec![];
                    let mut todo = vec![(a.to_string(), false)];
                    while let Some((x, s)) = todo.pop() {
                        if x == b && s {
                            return true;
                        }
                        for (l, h) in &edges {
                            if *l == x && !strict.contains(h) {
                                strict.push(h.clone());
                                todo.push((h.clone(), true));
                            }
                        }
                        if let Some(c) = x.strip_suffix(".start.line") {
                            let e = format!("{c}.end.line");
                            if !seen.contains(&e) {
                                seen.push(e.clone());
                                todo.push((e, s));
                            }
                        }
                    }
                    false
                };
                for (k, i) in want.iter().enumerate() {
                    let Some(at) = idx_at[k] else {
                        rep.viol("index", format!("{name}: the range of c{i} is converted with an index that is not one of the text being edited"), &site.0, site.1);
                        continue;
                    };
                    for j in at..k {
                        let (e, s) = (format!("c{i}.range.end.line"), format!("c{}.range.start.line", want[j]));
                        rep.ob(below(&e, &s), "index:stale", format!("{name}: the range of c{i} is converted with a line index from before c{} was applied, though it may end on or after the line where that change starts", want[j]), &site.0, site.1);
                    }
                }
            }
            for m in it.overflow.borrow().iter() {
                rep.problem(format!("{name}: {m}"));
            }
            for (_, l, m) in it.dom.panics.borrow().iter() {
                rep.viol("panic", format!("{name}: the edit can panic: {m}"), &site.0, *l);
            }
        }
    }
    rep.floor("paths", npaths, 20);
    rep.floor("changes applied on those paths", nchanges, 20);
    rep.assume("the ranges a client sends have start <= end; line_index::LineIndex (external crate) describes the text it was built from, and lines up to the first changed one keep their offsets");
    rep
}


/// conversions between offsets and positions, one by one
fn conversions(r: &Repo, rep: &mut Report) {
    let hooks = || {
        Cfg::new(|g: &FnInfo| matches!(g.name.as_str(), "lsp_position" | "offset") && g.file.starts_with(SRV)).cap(4000).mhook(|it, _cx, st, c| {
            let n = c.name;
            let a: Vec<V> = std::iter::once(it.deref(st, &c.recv)).chain(c.args.iter().map(|x| it.deref(st, x))).collect();
            matches!(n, "to_utf8" | "to_wide" | "line" | "line_col" | "try_line_col" | "start" | "end" | "len" | "map" | "min").then_some(())?;
            if n == "map" && c.args.iter().any(|x| matches!(it.deref(st, x), V::Closure(..))) {
                return None;
            }
            out1(st, it.sym(&format!(".{n}()"), a))
        }).chook(|it, _cx, st, segs, a, _| {
            let q = segs.len().checked_sub(2).map(|i| segs[i].as_str()).unwrap_or("");
            let f: [&str; 2] = match (q, segs.last().map(|s| s.as_str())) {
                ("Position", Some("new")) => ["line", "character"],
                ("Range", Some("new")) => ["start", "end"],
                _ => return None,
            };
            (a.len() == 2).then(|| out1(st, V::Struct(Rc::from(q), Rc::new(f.iter().zip(a).map(|(k, v)| (k.to_string(), it.deref(st, v))).collect())))).flatten()
        })
    };
    // ---- offset: position -> offset
    if let Some(f) = need(r, rep, "lsp/from_proto.rs", None, "offset") {
        let t = tr(r, rep, f.id, None, hooks());
        let it = &t.it;
        let site = (f.file.as_str(), f.line);
        let (mut u8s, mut wides, mut errs) = (0, 0, 0);
        let ps = f.params();
        let (li, po) = (ps[0].0.clone(), ps[1].0.clone());
        for p in &t.paths {
            let enc = fact_is(it, &p.st, |s| s == format!("{li}.encoding"));
            let ret = it.deref(&p.st, &p.ret);
            let (ok, v) = match &ret {
                V::Ctor(n, a) if &**n == "Ok" => (true, a[0].clone()),
                _ => (false, V::Unit),
            };
            if !ok {
                errs += 1;
                let out = p.st.facts.iter().any(|(t, f)| {
                    let s = cfull(it, &V::Sym(*t));
                    (s.contains(".index.line(") || s.contains(".index.to_utf8(")) && matches!(f, Fact::Is(k) if &**k == "None" || &**k == "Err")
                });
                rep.ob(out, "offset:refused", "offset refuses a position whose line exists", site.0, site.1);
                continue;
            }
            // (line, column) looked up
            let (line, col) = match enc.as_deref() {
                Some("Utf8") => {
                    u8s += 1;
                    (format!("{po}.line"), format!("{po}.character"))
                }
                Some("Wide") => {
                    wides += 1;
                    let u = p.st.facts.iter().map(|(t, _)| cfull(it, &V::Sym(*t))).find(|s| s.contains(".to_utf8("));
                    let Some(u) = u else {
                        rep.viol("offset:wide", "a UTF-16/UTF-32 column is used as if it counted bytes", site.0, site.1);
                        continue;
                    };
                    let good = u.contains(&format!("{li}.encoding")) && u.contains(&format!("{po}.line")) && u.contains(&format!("{po}.character"));
                    rep.ob(good, "offset:wide:args", format!("the wide position is converted as {u}"), site.0, site.1);
                    (format!("Some#0({u}).line"), format!("Some#0({u}).col"))
                }
                _ => {
                    rep.viol("offset:encoding", "offset does not look at the encoding of the line index", site.0, site.1);
                    continue;
                }
            };
            let lr = [format!("Some#0({li}.index.line({line}))"), format!("Ok#0({li}.index.line({line}))")];
            let s = cfull(it, &v).replace("TextSize::from", "").replace("TextSize.from", "").replace("u32::from", "").replace("TextSize::new", "");
            let s = s.replace(&format!("({col})"), &col);
            let good = lr.iter().any(|lr| {
                let (st, ln) = (format!("{lr}.start()"), format!("{lr}.len()"));
                let past = fact_cmp(it, &p.st, &ln, &col);
                let forms = [format!("+({st}, {col}.min({ln}))"), format!("+({st}, {ln}.min({col}))"), format!("+({st}, min({col}, {ln}))"), format!("+({st}, min({ln}, {col}))"), format!("+({col}.min({ln}), {st})"), format!("{lr}.end().min(+({st}, {col}))"), format!("+({st}, {col}).min({lr}.end())")];
                forms.iter().any(|f| *f == s) || past == Some(true) && (s == format!("+({st}, {ln})") || s == format!("{lr}.end()")) || past == Some(false) && s == format!("+({st}, {col})")
            });
            rep.ob(good, format!("offset:value:{}", enc.unwrap_or_default()), format!("offset gives {s}; it must be the start of the line plus the column, cut at the end of the line"), site.0, site.1);
        }
        rep.floor("paths of offset: UTF-8", u8s, 1);
        rep.floor("paths of offset: wide", wides, 1);
        rep.floor("paths of offset: refused", errs, 1);
    }
    // ---- text_range
    if let Some(f) = need(r, rep, "lsp/from_proto.rs", None, "text_range") {
        let cfg = Cfg::new(|_| false).chook(|it, _cx, st, segs, a, _| match segs.last().map(|s| s.as_str()) {
            Some("offset") if a.len() == 2 => out1(st, it.sym("offset", vec![it.deref(st, &a[0]), it.deref(st, &a[1])])),
            _ => None,
        });
        let t = tr(r, rep, f.id, None, cfg);
        let it = &t.it;
        let ps = f.params();
        let (li, rg) = (ps[0].0.clone(), ps[1].0.clone());
        let (s, e) = (format!("Ok#0(offset({li}, {rg}.start))"), format!("Ok#0(offset({li}, {rg}.end))"));
        let mut oks = 0;
        for p in &t.paths {
            let failed = p.st.facts.iter().any(|(t, f)| cfull(it, &V::Sym(*t)).starts_with("offset(") && matches!(f, Fact::Is(k) if &**k == "Err"));
            let inv = fact_cmp(it, &p.st, &e, &s); // end < start
            match it.deref(&p.st, &p.ret) {
                V::Ctor(n, a) if &*n == "Ok" => {
                    oks += 1;
                    let (a0, b0) = super::text::range_parts(it, &p.st, &a[0]).map(|(x, y, _)| (cfull(it, &x), cfull(it, &y))).unwrap_or_default();
                    let v = cfull(it, &a[0]);
                    rep.ob(inv == Some(false) && !failed, "range:inverted", "an inverted range is not refused", &f.file, f.line);
                    rep.ob(a0 == s && b0 == e, "range:value", format!("text_range gives {v}, not the range from the start's to the end's offset"), &f.file, f.line);
                }
                _ => {
                    rep.ob(failed || inv == Some(true), "range:refused", "a well-formed range is refused", &f.file, f.line);
                }
            }
        }
        rep.floor("paths of text_range that succeed", oks, 1);
    }
    // ---- lsp_position / lsp_range
    let pos = |li: &str, off: &str, wide: bool| {
        let lc = format!("{li}.index.line_col({off})");
        if wide {
            let w = format!("{li}.index.to_wide(Wide#0({li}.encoding), {lc})");
            (format!("Some#0({w}).line"), format!("Some#0({w}).col"))
        } else {
            (format!("{lc}.line"), format!("{lc}.col"))
        }
    };
    let two = |it: &Interp<Trace>, st: &St<TW>, v: &V, names: [&str; 2]| -> Option<(V, V)> {
        let v = it.deref(st, v);
        let (o, a) = op(it, &v);
        if a.len() == 2 && last(&o) == "new" {
            return Some((it.deref(st, &a[0]), it.deref(st, &a[1])));
        }
        let a = super::state::struct_field(&v, names[0])?;
        let b = super::state::struct_field(&v, names[1])?;
        Some((a, b))
    };
    for (name, ranged) in [("lsp_position", false), ("lsp_range", true)] {
        let Some(f) = need(r, rep, "lsp/to_proto.rs", None, name) else { continue };
        let t = tr(r, rep, f.id, None, hooks());
        let it = &t.it;
        let ps = f.params();
        let (li, x) = (ps[0].0.clone(), ps[1].0.clone());
        let (mut n8, mut nw) = (0, 0);
        for p in &t.paths {
            let wide = match fact_is(it, &p.st, |s| s == format!("{li}.encoding")).as_deref() {
                Some("Wide") => {
                    nw += 1;
                    true
                }
                Some("Utf8") => {
                    n8 += 1;
                    false
                }
                o => {
                    rep.viol(format!("{name}:encoding"), format!("{name} does not look at the encoding of the line index ({o:?})"), &f.file, f.line);
                    continue;
                }
            };
            let one = |v: &V, off: &str| {
                let want = pos(&li, off, wide);
                match two(it, &p.st, v, ["line", "character"]) {
                    Some((l, c)) => {
                        let un = |v: &V| cfull(it, v).replace(").unwrap().", ").").replace("Some#0(", "(").replace(").expect().", ").");
                        let wn = |s: &str| s.replace("Some#0(", "(");
                        let eq = |g: String, w: String| g == w || g.replace(['(', ')'], "") == w.replace(['(', ')'], "");
                        let g = (un(&l), un(&c));
                        (eq(g.0.clone(), wn(&want.0)) && eq(g.1.clone(), wn(&want.1)), format!("({}, {})", g.0, g.1))
                    }
                    None => (false, cfull(it, v)),
                }
            };
            if !ranged {
                let (ok, g) = one(&p.ret, &x);
                rep.ob(ok, format!("{name}:value"), format!("{name} gives {g}"), &f.file, f.line);
            } else {
                match two(it, &p.st, &p.ret, ["start", "end"]) {
                    Some((s, e)) => {
                        let (a, ga) = one(&s, &format!("{x}.start()"));
                        let (b, gb) = one(&e, &format!("{x}.end()"));
                        rep.ob(a && b, format!("{name}:value"), format!("{name} gives {ga} .. {gb}"), &f.file, f.line);
                    }
                    None => rep.viol(format!("{name}:value"), format!("{name} gives {}", cfull(it, &p.ret)), &f.file, f.line),
                }
            }
        }
        rep.floor(&format!("paths of {name}: UTF-8"), n8, 1);
        rep.floor(&format!("paths of {name}: wide"), nw, 1);
    }
    // ---- lsp_text_edit
    if let Some(f) = need(r, rep, "lsp/to_proto.rs", None, "lsp_text_edit") {
        let t = tr(r, rep, f.id, None, Cfg::new(|_| false).mhook(|it, _cx, st, c| (c.name == "map").then(|| out1(st, it.sym(".map()", vec![it.deref(st, &c.recv), it.deref(st, &c.args[0])]))).flatten()));
        let it = &t.it;
        let ps = f.params();
        for p in &t.paths {
            let rg = super::state::struct_field(&it.deref(&p.st, &p.ret), "range").map(|v| cfull(it, &it.deref(&p.st, &v))).unwrap_or_default();
            let tx = super::state::struct_field(&it.deref(&p.st, &p.ret), "new_text").map(|v| cfull(it, &it.deref(&p.st, &v))).unwrap_or_default();
            rep.ob(rg.ends_with(&format!("lsp_range({}, {}.range)", ps[0].0, ps[1].0)) || rg == format!("{}.lsp_range({}.range)", ps[0].0, ps[1].0), "edit:range", format!("the range of a text edit is {rg}"), &f.file, f.line);
            rep.ob(tx == format!("{}.endings.map({}.new_text)", ps[0].0, ps[1].0), "edit:text", format!("the text of an edit is {tx}, not the new text with the document's line endings"), &f.file, f.line);
        }
        rep.floor("paths of lsp_text_edit", t.paths.len(), 1);
    }
}
/// is `a < b` known on this path?
fn fact_cmp(it: &Interp<Trace>, st: &St<TW>, a: &str, b: &str) -> Option<bool> {
    for (t, f) in st.facts.iter() {
        let Fact::Bool(v) = f else { continue };
        let s = cfull(it, &V::Sym(*t)).replace("TextSize::from", "").replace("TextSize.from", "");
        let s = s.replace(&format!("({a})"), a).replace(&format!("({b})"), b);
        let m = |o: &str, x: &str, y: &str| s == format!("{o}({x}, {y})");
        if m("<", a, b) || m(">", b, a) {
            return Some(*v);
        }
        if m("<=", b, a) || m(">=", a, b) {
            return Some(!*v);
        }
        // min(b, a) < a  <=>  b < a
        for mn in [format!("{b}.min({a})"), format!("{a}.min({b})"), format!("min({b}, {a})"), format!("min({a}, {b})")] {
            if m("<", &mn, b) || m(">", b, &mn) {
                return Some(*v);
            }
        }
    }
    None
}

pub fn l14(r: &Repo, _t: bool) -> Report {
    use super::prov::*;
    let mut rep = Report::new("a derivation analysis of every function of the server: each value converted with a line index is computed from the file whose index it is (or from the same argument), never from a value that carries another file's id, and goes out with that file's URL; functions given a file and a range apart hand the obligation to their callers. Plus the conversions themselves: offset, text_range, lsp_position, lsp_range, lsp_text_edit, path by path");
    conversions(r, &mut rep);
    let dbg = std::env::var("DBG").is_ok();
    let fns: Vec<&FnInfo> = r.fns.iter().filter(|f| f.file.starts_with(SRV)).collect();
    // converters: functions that take a line index; (function, argument positions that belong together)
    let conv: Vec<(&FnInfo, usize)> = fns
        .iter()
        .filter_map(|f| f.params().iter().position(|(_, t)| inner_ty(t).as_deref() == Some("LineIndex")).map(|i| (*f, i)))
        .collect();
    let (mut ncall, mut nmade, mut npair) = (0, 0, 0);
    let mut pairs: Vec<(&FnInfo, usize, usize)> = vec![];
    let runs: Vec<(&FnInfo, Prov)> = fns
        .iter()
        .map(|f| {
            let p = Prov::new(r);
            p.run(f);
            (*f, p)
        })
        .collect();
    let roots_of = |f: &FnInfo| -> Vec<String> { f.params().iter().filter(|p| !matches!(inner_ty(p.1).as_deref(), Some("GlobalStateSnapshot" | "GlobalState"))).map(|p| p.0.clone()).chain(std::iter::once("arg".to_string())).collect() };
    for (f, p) in &runs {
        let roots = roots_of(f);
        for c in p.calls.borrow().iter() {
            let Some((g, k)) = conv.iter().find(|(g, k)| g.name == c.name && g.params().len() == c.args.len() && *k < c.args.len()) else { continue };
            let ix = &c.args[*k];
            let others: Vec<(usize, &Val)> = c.args.iter().enumerate().filter(|(i, _)| i != k).collect();
            if ix.idx.is_empty() {
                // the index came in as an argument: the function is a converter itself
                let own = conv.iter().any(|(g, k)| g.id == f.id && ix.deps.contains(&f.params()[*k].0));
                rep.ob(own || ix.canon.starts_with("LineIndex{"), format!("index:unknown:{}:{}", f.name, c.name), format!("{} converts with a line index that comes from no file: {}", f.name, ix.canon), &f.file, c.line);
                continue;
            }
            ncall += 1;
            if ix.idx.len() > 1 {
                rep.viol(format!("index:mixed:{}:{}", f.name, c.name), format!("{} converts with the line index of one of several files: {:?}", f.name, ix.idx), &f.file, c.line);
                continue;
            }
            let fl = ix.idx.iter().next().unwrap().clone();
            let base = fl.strip_suffix(".file_id").unwrap_or(&fl).to_string();
            let fdeps = p.file_deps.borrow().get(&fl).cloned().unwrap_or_default();
            let inward = g.file.ends_with("from_proto.rs") || f.file.ends_with("to_proto.rs");
            let exact = others.iter().any(|(_, a)| a.deps.contains(&fl) || a.deps.contains(&base));
            let shared = others.iter().any(|(_, a)| roots.iter().any(|x| fdeps.contains(x) && a.deps.contains(x)));
            let rel = exact || inward && shared;
            if dbg {
                println!("{} {}:{} {} rel {exact} {shared} index of [{}]", if rel { "call" } else { "CALL" }, f.name, c.line, c.name, fl);
            }
            if !rel {
                // both are arguments of this function: its callers answer for them
                let fr: Vec<usize> = f.params().iter().enumerate().filter(|(_, q)| fdeps.contains(&q.0) && roots.contains(&q.0)).map(|x| x.0).collect();
                let rr: Vec<usize> = f.params().iter().enumerate().filter(|(_, q)| roots.contains(&q.0) && others.iter().any(|(_, a)| a.deps.contains(&q.0))).map(|x| x.0).collect();
                if fr.len() == 1 && !rr.is_empty() && !rr.contains(&fr[0]) {
                    for x in &rr {
                        pairs.push((f, fr[0], *x));
                    }
                    continue;
                }
            }
            rep.ob(rel, format!("index:other:{}:{}", f.name, c.name), format!("{} converts {:?} with the line index of {fl}, from which it is not computed", f.name, others.iter().map(|o| o.1.canon.as_str()).collect::<Vec<_>>()), &f.file, c.line);
            for (_, a) in &others {
                let Some(o) = &a.owner else { continue };
                let ok = *o == fl || fdeps.contains(o) || a.deps.contains(&fl) || a.deps.contains(&base);
                rep.ob(ok, format!("index:owner:{}:{}", f.name, c.name), format!("{} converts {} (of the file {o}) with the line index of {fl}", f.name, a.canon), &f.file, c.line);
            }
        }
        for m in p.made.borrow().iter() {
            let parts: Vec<&(String, Val)> = m.parts.iter().filter(|p| !p.0.starts_with("origin")).collect();
            let u: BTreeSet<&String> = parts.iter().flat_map(|p| p.1.url.iter()).collect();
            let i: BTreeSet<&String> = parts.iter().flat_map(|p| p.1.idx.iter()).collect();
            if u.len() != 1 || i.len() != 1 {
                continue;
            }
            nmade += 1;
            rep.ob(u == i, format!("url:{}:{}", f.name, m.what), format!("{}: {} goes out with the URL of {u:?} and positions made with the line index of {i:?}", f.name, m.what), &f.file, m.line);
        }
    }
    // obligations handed to callers
    let mut i = 0;
    let mut done = BTreeSet::new();
    while i < pairs.len() {
        let (g, a, b) = pairs[i];
        i += 1;
        if !done.insert((g.id, a, b)) {
            continue;
        }
        for (f, p) in &runs {
            let roots = roots_of(f);
            for c in p.calls.borrow().iter().filter(|c| c.name == g.name && c.args.len() == g.params().len()) {
                npair += 1;
                let (x, y) = (&c.args[a], &c.args[b]);
                let shared = x.deps.iter().any(|d| y.deps.contains(d) && d != "snap" && d != "state" && d != "self" && d != "?" && d != "()");
                if !shared {
                    let fx: Vec<usize> = f.params().iter().enumerate().filter(|(_, q)| roots.contains(&q.0) && x.deps.contains(&q.0)).map(|z| z.0).collect();
                    let fy: Vec<usize> = f.params().iter().enumerate().filter(|(_, q)| roots.contains(&q.0) && y.deps.contains(&q.0)).map(|z| z.0).collect();
                    if fx.len() == 1 && fy.len() == 1 {
                        pairs.push((f, fx[0], fy[0]));
                        continue;
                    }
                }
                rep.ob(shared, format!("pair:{}:{}", f.name, g.name), format!("{} gives {} the file {} and, from elsewhere, {}", f.name, g.name, x.canon, y.canon), &f.file, c.line);
            }
        }
    }
    rep.count("obligations handed to callers", npair);
    rep.floor("conversions with a file's line index", ncall, 20);
    rep.floor("locations put together", nmade, 3);
    rep.floor("call sites that answer for a file and a range given apart", npair, 3);
    rep.assume("values named by different arguments of a handler belong to different files; an answer of the analysis asked about a file is in that file unless it carries its own file id");
    rep
}
