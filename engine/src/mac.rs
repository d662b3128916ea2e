//! A small `macro_rules!` expander, enough for the configuration macros: fragments, repetitions,
//! nested invocations, `stringify!`.
use crate::repo::Repo;
use proc_macro2::{Delimiter, Group, Literal, TokenStream, TokenTree};
use quote::ToTokens;
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub enum Bind {
    Leaf(TokenStream),
    Seq(Vec<Binds>),
}
pub type Binds = BTreeMap<String, Bind>;
pub struct Rules {
    pub arms: Vec<(Vec<TokenTree>, TokenStream)>,
}
fn punct(t: Option<&TokenTree>, c: char) -> bool {
    matches!(t, Some(TokenTree::Punct(p)) if p.as_char() == c)
}
pub fn parse_rules(ts: TokenStream) -> Rules {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut arms = vec![];
    let mut i = 0;
    while i < v.len() {
        let (Some(TokenTree::Group(m)), Some(TokenTree::Group(t))) = (v.get(i), v.get(i + 3)) else { break };
        arms.push((m.stream().into_iter().collect(), t.stream()));
        i += 4;
        if punct(v.get(i), ';') {
            i += 1;
        }
    }
    Rules { arms }
}
fn frag(kind: &str, toks: &[TokenTree]) -> Option<usize> {
    fn by<T: syn::parse::Parse>(toks: &[TokenTree]) -> Option<usize> {
        use syn::parse::Parser;
        let ts: TokenStream = toks.iter().cloned().collect();
        let p = |i: syn::parse::ParseStream| {
            let _: T = i.parse()?;
            let rest: TokenStream = i.parse()?;
            Ok(rest.into_iter().count())
        };
        p.parse2(ts).ok().map(|n| toks.len() - n)
    }
    match kind {
        "ident" => matches!(toks.first(), Some(TokenTree::Ident(_))).then_some(1),
        "tt" => (!toks.is_empty()).then_some(1),
        "literal" => {
            let n = punct(toks.first(), '-') as usize;
            match toks.get(n) {
                Some(TokenTree::Literal(_)) => Some(n + 1),
                Some(TokenTree::Ident(i)) if i == "true" || i == "false" => Some(n + 1),
                _ => None,
            }
        }
        "vis" => match toks.first() {
            Some(TokenTree::Ident(i)) if i == "pub" => Some(1 + matches!(toks.get(1), Some(TokenTree::Group(g)) if g.delimiter() == Delimiter::Parenthesis) as usize),
            _ => Some(0),
        },
        "ty" => by::<syn::Type>(toks),
        "path" => by::<syn::Path>(toks),
        "expr" => by::<syn::Expr>(toks),
        "block" => by::<syn::Block>(toks),
        "item" => by::<syn::Item>(toks),
        _ => None,
    }
}
/// one element of a pattern: fragment, repetition or token
enum El<'a> {
    Frag(String, String),
    Rep(Vec<TokenTree>, Option<TokenTree>, char),
    Tok(&'a TokenTree),
}
fn elements(p: &[TokenTree], matcher: bool) -> Vec<El<'_>> {
    let mut out = vec![];
    let mut i = 0;
    while i < p.len() {
        if punct(p.get(i), '$') {
            match p.get(i + 1) {
                Some(TokenTree::Ident(n)) if matcher => {
                    let k = p.get(i + 3).map(|t| t.to_string()).unwrap_or_default();
                    out.push(El::Frag(n.to_string(), k));
                    i += 4;
                    continue;
                }
                Some(TokenTree::Ident(n)) => {
                    out.push(El::Frag(n.to_string(), String::new()));
                    i += 2;
                    continue;
                }
                Some(TokenTree::Group(g)) if g.delimiter() == Delimiter::Parenthesis => {
                    let body = g.stream().into_iter().collect();
                    let mut j = i + 2;
                    let is_op = |t: Option<&TokenTree>| punct(t, '*') || punct(t, '+') || punct(t, '?');
                    let sep = if is_op(p.get(j)) { None } else { j += 1; p.get(j - 1).cloned() };
                    let op = match p.get(j) { Some(TokenTree::Punct(c)) => c.as_char(), _ => '*' };
                    out.push(El::Rep(body, sep, op));
                    i = j + 1;
                    continue;
                }
                _ => {}
            }
        }
        out.push(El::Tok(&p[i]));
        i += 1;
    }
    out
}
fn match_seq(p: &[TokenTree], t: &[TokenTree], b: &mut Binds) -> Option<usize> {
    let mut pos = 0;
    for e in elements(p, true) {
        match e {
            El::Frag(n, k) => {
                let c = frag(&k, &t[pos..])?;
                b.insert(n, Bind::Leaf(t[pos..pos + c].iter().cloned().collect()));
                pos += c;
            }
            El::Rep(body, sep, op) => {
                let mut items: Vec<Binds> = vec![];
                loop {
                    let mut bb = Binds::new();
                    let start = if items.is_empty() || sep.is_none() {
                        pos
                    } else if t.get(pos).map(|x| x.to_string()) == sep.as_ref().map(|x| x.to_string()) {
                        pos + 1
                    } else {
                        break;
                    };
                    match match_seq(&body, &t[start..], &mut bb) {
                        Some(n) if n > 0 => {
                            pos = start + n;
                            items.push(bb);
                        }
                        _ => break,
                    }
                    if op == '?' {
                        break;
                    }
                }
                if op == '+' && items.is_empty() {
                    return None;
                }
                let mut names = vec![];
                names_of(&body, true, &mut names);
                for n in names {
                    b.insert(n, Bind::Seq(items.clone()));
                }
            }
            El::Tok(TokenTree::Group(g)) => {
                let Some(TokenTree::Group(h)) = t.get(pos) else { return None };
                if g.delimiter() != h.delimiter() {
                    return None;
                }
                let (pg, tg): (Vec<_>, Vec<_>) = (g.stream().into_iter().collect(), h.stream().into_iter().collect());
                if match_seq(&pg, &tg, b)? != tg.len() {
                    return None;
                }
                pos += 1;
            }
            El::Tok(x) => {
                if t.get(pos).map(|y| y.to_string()) != Some(x.to_string()) {
                    return None;
                }
                pos += 1;
            }
        }
    }
    Some(pos)
}
fn names_of(p: &[TokenTree], matcher: bool, out: &mut Vec<String>) {
    for e in elements(p, matcher) {
        match e {
            El::Frag(n, _) => out.push(n),
            El::Rep(b, ..) => names_of(&b, matcher, out),
            El::Tok(TokenTree::Group(g)) => names_of(&g.stream().into_iter().collect::<Vec<_>>(), matcher, out),
            _ => {}
        }
    }
}
fn transcribe(p: &[TokenTree], b: &Binds, out: &mut Vec<TokenTree>) -> Result<(), String> {
    for e in elements(p, false) {
        match e {
            El::Frag(n, _) if n == "crate" => out.extend("crate".parse::<TokenStream>().unwrap()),
            El::Frag(n, _) => match b.get(&n) {
                Some(Bind::Leaf(ts)) => out.extend(ts.clone()),
                _ => return Err(format!("no value for ${n}")),
            },
            El::Rep(body, sep, _) => {
                let mut names = vec![];
                names_of(&body, false, &mut names);
                let Some(Bind::Seq(items)) = names.iter().filter_map(|n| b.get(n)).find(|x| matches!(x, Bind::Seq(_))) else {
                    return Err("repetition over nothing".into());
                };
                for (i, it) in items.iter().enumerate() {
                    let mut bb = b.clone();
                    bb.extend(it.clone());
                    if i > 0 {
                        out.extend(sep.clone());
                    }
                    transcribe(&body, &bb, out)?;
                }
            }
            El::Tok(TokenTree::Group(g)) => {
                let mut o = vec![];
                transcribe(&g.stream().into_iter().collect::<Vec<_>>(), b, &mut o)?;
                let mut ng = Group::new(g.delimiter(), o.into_iter().collect());
                ng.set_span(g.span());
                out.push(TokenTree::Group(ng));
            }
            El::Tok(t) => out.push(t.clone()),
        }
    }
    Ok(())
}
pub struct Macros(pub BTreeMap<String, Rules>);
impl Macros {
    /// the `macro_rules!` of a crate's file; a leading underscore of the name is dropped, since they
    /// are re-exported without it
    pub fn of(r: &Repo, file: &str) -> Macros {
        let mut m = BTreeMap::new();
        for x in r.macros.iter().filter(|x| x.name == "macro_rules" && x.file.ends_with(file)) {
            let Some(id) = &x.ident else { continue };
            m.insert(id.trim_start_matches('_').to_string(), parse_rules(x.mac.tokens.clone()));
        }
        Macros(m)
    }
    pub fn bind(&self, name: &str, ts: TokenStream) -> Option<(Binds, TokenStream)> {
        let toks: Vec<TokenTree> = ts.into_iter().collect();
        for (p, t) in &self.0.get(name.trim_start_matches('_'))?.arms {
            let mut b = Binds::new();
            if match_seq(p, &toks, &mut b) == Some(toks.len()) {
                return Some((b, t.clone()));
            }
        }
        None
    }
    pub fn expand(&self, name: &str, ts: TokenStream) -> Result<TokenStream, String> {
        let (b, t) = self.bind(name, ts).ok_or_else(|| format!("no rule of {name}! matches"))?;
        let mut out = vec![];
        transcribe(&t.into_iter().collect::<Vec<_>>(), &b, &mut out)?;
        self.all(out.into_iter().collect())
    }
    /// expand the invocations of the known macros, innermost last
    pub fn all(&self, ts: TokenStream) -> Result<TokenStream, String> {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        let mut out: Vec<TokenTree> = vec![];
        let mut i = 0;
        while i < v.len() {
            if let (TokenTree::Ident(n), Some(TokenTree::Group(g))) = (&v[i], v.get(i + 2)) {
                if punct(v.get(i + 1), '!') {
                    let n = n.to_string();
                    if n == "stringify" {
                        let s = g.stream().to_token_stream().to_string().replace(' ', "");
                        out.push(TokenTree::Literal(Literal::string(&s)));
                        i += 3;
                        continue;
                    }
                    if self.0.contains_key(n.trim_start_matches('_')) {
                        out.extend(self.expand(&n, g.stream())?);
                        i += 3;
                        continue;
                    }
                }
            }
            match &v[i] {
                TokenTree::Group(g) => {
                    let mut ng = Group::new(g.delimiter(), self.all(g.stream())?);
                    ng.set_span(g.span());
                    out.push(TokenTree::Group(ng));
                }
                t => out.push(t.clone()),
            }
            i += 1;
        }
        Ok(out.into_iter().collect())
    }
}
