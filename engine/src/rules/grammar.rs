//! Typestate / progress analysis of the recursive-descent grammar.
//!
//! Every grammar function reachable from a parse entry point is interpreted abstractly over
//! *sets* of token kinds (current token and look-ahead), jointness bits, known text of the current
//! token, the open node markers, the recovery-set depth and the statement kind.  Function
//! summaries are computed per abstract entry state by a worklist fixpoint, so recursion is handled
//! without unrolling; nothing is executed and no token stream is ever built.
use crate::absint::*;
use crate::repo::*;
use crate::rules::kinds::{Kinds, norm};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Txt {
    Not(BTreeSet<Rc<str>>),
    Is(Rc<str>),
}
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Tk {
    pub k: [KSet; 4],
    pub joint: [Option<bool>; 3],
    pub text: Txt,
}
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Snap {
    tk: Tk,
    marks: BTreeMap<u32, bool>,
    pos: BTreeMap<u32, bool>,
    base: Option<u32>,
}
/// what has been put directly into a node: classes of children certainly there, kinds possibly there
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Fr {
    must: u32,
    may: KSet,
}
impl Fr {
    fn new() -> Fr {
        Fr { must: 0, may: KSet::empty() }
    }
    fn join(&self, o: &Fr) -> Fr {
        Fr { must: self.must & o.must, may: self.may.union(&o.may) }
    }
    fn then(&self, o: &Fr) -> Fr {
        Fr { must: self.must | o.must, may: self.may.union(&o.may) }
    }
}
/// the children analysis (S10): classes of children, and which node kind needs which class
#[derive(Default)]
pub struct Classes {
    pub class: Vec<KSet>,
    pub req: Vec<(usize, usize, String)>,
    pub interest: Option<KSet>,
}
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Open {
    fr: Fr,
    id: u32,
    snap: Rc<Snap>,
    precede: bool,
    site: (FnId, usize),
}
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct W {
    pub tk: Tk,
    pub fr: Fr,
    pub snapfr: BTreeMap<u32, Fr>,
    pub open: Rc<Vec<Open>>,
    /// loop heads and function entry (0): has a token been consumed since?
    pub marks: BTreeMap<u32, bool>,
    pub loops: Vec<u32>,
    pub pos: BTreeMap<u32, bool>,
    pub snaps: BTreeMap<u32, Rc<Snap>>,
    pub depth: i32,
    pub top: bool,
    pub base: Option<u32>,
    /// look-ahead index observed in the running loop iteration: (cell, value)
    pub idx: Option<(usize, V)>,
}

#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Key {
    /// nothing is on the recovery stack on entry
    top: bool,
    f: FnId,
    args: Vec<V>,
    tk: Tk,
    sk: V,
    open: Vec<Open>,
}
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Outcome {
    ret: V,
    tk: Tk,
    fr: Fr,
    consumed: bool,
    base: Option<u32>,
    sk: V,
    open: Vec<Open>,
}

#[derive(Clone)]
pub struct Viol {
    pub prop: &'static str,
    pub key: String,
    pub msg: String,
    pub file: String,
    pub line: usize,
}

#[derive(Default)]
pub struct Stats {
    pub keys: usize,
    pub fns: BTreeSet<FnId>,
    pub starts: BTreeSet<(FnId, usize)>,
    pub consumes: BTreeSet<(FnId, usize)>,
    pub asserts: BTreeSet<(FnId, usize)>,
    pub loops: BTreeSet<(FnId, usize)>,
    pub exits: usize,
    pub calls: BTreeSet<(FnId, usize)>,
    pub sets: usize,
    pub recov: BTreeSet<(FnId, usize)>,
}

pub struct G {
    pub kinds: Kinds,
    pub table: RefCell<HashMap<Key, Vec<Outcome>>>,
    pub order: RefCell<Vec<Key>>,
    pub work: RefCell<BTreeSet<usize>>,
    pub index: RefCell<HashMap<Key, usize>>,
    pub deps: RefCell<HashMap<Key, HashSet<Key>>>,
    pub current: RefCell<Option<Key>>,
    pub report: Cell<bool>,
    pub viols: RefCell<BTreeMap<(&'static str, String), Viol>>,
    pub edges: RefCell<HashMap<Key, HashSet<Key>>>,
    pub stats: RefCell<Stats>,
    pub grammar: HashSet<FnId>,
    pub sk_term: Cell<Option<Term>>,
    pub unmodelled: RefCell<BTreeSet<String>>,
    pub ch: Option<Rc<Classes>>,
    /// (child, parent) -> where the parent is completed
    pub rel: RefCell<BTreeMap<(usize, usize), (FnId, usize)>>,
    pub kids: RefCell<BTreeSet<(usize, usize)>>,
}

const P: V = V::Tag("parser", 0);
const RS: V = V::Tag("RS", 0);
const RS1: V = V::Tag("RS", 1);
const ANY: V = V::Tag("any", 0);

fn val<W>(st: St<W>, v: V) -> Out<W> {
    vec![(st, Flow::Val(v))]
}

fn map_v(v: &V, f: &mut dyn FnMut(&V) -> Option<V>) -> V {
    if let Some(x) = f(v) {
        return x;
    }
    match v {
        V::Ctor(n, a) => V::Ctor(n.clone(), Rc::new(a.iter().map(|x| map_v(x, f)).collect())),
        V::Tuple(a) => V::Tuple(Rc::new(a.iter().map(|x| map_v(x, f)).collect())),
        V::List(a) => V::List(Rc::new(a.iter().map(|x| map_v(x, f)).collect())),
        V::Struct(n, m) => V::Struct(n.clone(), Rc::new(m.iter().map(|(k, x)| (k.clone(), map_v(x, f))).collect())),
        v => v.clone(),
    }
}
fn any_v(v: &V, f: &mut dyn FnMut(&V) -> bool) -> bool {
    if f(v) {
        return true;
    }
    match v {
        V::Ctor(_, a) | V::Tuple(a) | V::List(a) => a.iter().any(|x| any_v(x, f)),
        V::Struct(_, m) => m.values().any(|x| any_v(x, f)),
        _ => false,
    }
}

fn join_txt(a: &Txt, b: &Txt) -> Txt {
    match (a, b) {
        (Txt::Is(x), Txt::Is(y)) if x == y => a.clone(),
        (Txt::Is(x), Txt::Not(s)) | (Txt::Not(s), Txt::Is(x)) => {
            let mut s = s.clone();
            s.remove(x);
            Txt::Not(s)
        }
        (Txt::Not(s), Txt::Not(t)) => Txt::Not(s.intersection(t).cloned().collect()),
        _ => Txt::Not(BTreeSet::new()),
    }
}
fn join_tk(a: &Tk, b: &Tk) -> Tk {
    let j = |i: usize| if a.joint[i] == b.joint[i] { a.joint[i] } else { None };
    Tk {
        k: [a.k[0].union(&b.k[0]), a.k[1].union(&b.k[1]), a.k[2].union(&b.k[2]), a.k[3].union(&b.k[3])],
        joint: [j(0), j(1), j(2)],
        text: join_txt(&a.text, &b.text),
    }
}
/// completed-marker kinds are joined, not enumerated
fn shape(v: &V) -> V {
    map_v(v, &mut |x| match x {
        V::Ctor(n, _) if &**n == "CM" => Some(ctor("CM", vec![])),
        _ => None,
    })
}
fn join_shape(a: &V, b: &V) -> V {
    match (a, b) {
        (V::Ctor(n, x), V::Ctor(m, y)) if n == m => {
            if &**n == "CM" {
                if let (Some(V::Kinds(p)), Some(V::Kinds(q))) = (x.first(), y.first()) {
                    return ctor("CM", vec![V::Kinds(p.union(q))]);
                }
                return a.clone();
            }
            V::Ctor(n.clone(), Rc::new(x.iter().zip(y.iter()).map(|(p, q)| join_shape(p, q)).collect()))
        }
        (V::Tuple(x), V::Tuple(y)) => V::Tuple(Rc::new(x.iter().zip(y.iter()).map(|(p, q)| join_shape(p, q)).collect())),
        _ => a.clone(),
    }
}

impl G {
    pub fn new(repo: &Repo) -> G {
        let kinds = Kinds::load(repo);
        let grammar = repo
            .fns
            .iter()
            .filter(|f| f.file.contains("crates/syntax/src/parse/grammar"))
            .map(|f| f.id)
            .collect();
        G {
            kinds,
            table: Default::default(),
            order: Default::default(),
            work: Default::default(),
            index: Default::default(),
            deps: Default::default(),
            current: Default::default(),
            report: Cell::new(false),
            viols: Default::default(),
            edges: Default::default(),
            stats: Default::default(),
            grammar,
            sk_term: Cell::new(None),
            unmodelled: Default::default(),
            ch: None,
            rel: Default::default(),
            kids: Default::default(),
        }
    }
    /// classes every kind of the set belongs to
    fn cls(&self, k: &KSet) -> u32 {
        let Some(ch) = &self.ch else { return 0 };
        if k.is_empty() {
            return 0;
        }
        ch.class.iter().enumerate().filter(|(_, c)| k.minus(c).is_empty()).fold(0, |a, (i, _)| a | 1 << i)
    }
    /// the largest set with the same classes
    fn canon(&self, k: &KSet) -> KSet {
        let mut r = KSet::range(self.kinds.names.len());
        if let Some(ch) = &self.ch {
            for c in &ch.class {
                if k.minus(c).is_empty() {
                    r = r.inter(c);
                }
            }
        }
        r
    }
    fn fr_mut<'s>(&self, w: &'s mut W) -> &'s mut Fr {
        if w.open.is_empty() { &mut w.fr } else { &mut Rc::make_mut(&mut w.open).last_mut().unwrap().fr }
    }
    fn put(&self, st: &mut St<W>, f: &Fr) {
        if self.ch.is_some() {
            let x = self.fr_mut(&mut st.w);
            *x = x.then(f);
        }
    }
    fn fr_of(&self, k: &KSet) -> Fr {
        match &self.ch {
            None => Fr::new(),
            Some(ch) => Fr {
                must: self.cls(k),
                may: match &ch.interest {
                    Some(i) => k.inter(i),
                    None => k.clone(),
                },
            },
        }
    }
    fn check_children(&self, it: &Interp<Self>, cx: &Rc<Cx>, fr: &Fr, k: &KSet, line: usize) {
        let Some(ch) = &self.ch else { return };
        if !self.report.get() {
            return;
        }
        for x in k.iter() {
            for c in fr.may.iter() {
                self.rel.borrow_mut().entry((c, x)).or_insert((self.site(cx), line));
            }
            for (kk, c, acc) in &ch.req {
                if *kk == x {
                    self.kids.borrow_mut().insert((self.site(cx), line));
                    if fr.must & (1 << c) == 0 {
                        self.viol(it, cx, "S10", format!("{}:{acc}", self.kinds.name(x)), format!("can complete a {} without the child that {acc} takes for granted", self.kinds.name(x)), line);
                    }
                }
            }
        }
    }
    fn viol(&self, it: &Interp<Self>, cx: &Rc<Cx>, prop: &'static str, key: String, msg: String, line: usize) {
        if !self.report.get() {
            return;
        }
        let f = self.site(cx);
        let fi = &it.repo.fns[f];
        let k = format!("{}:{}", fi.qual(), key);
        self.viols.borrow_mut().entry((prop, k.clone())).or_insert(Viol {
            prop,
            key: k,
            msg: format!("{}: {}", fi.qual(), msg),
            file: fi.file.clone(),
            line,
        });
    }
    /// innermost grammar function on the inlining stack
    fn site(&self, cx: &Rc<Cx>) -> FnId {
        cx.stack.iter().rev().copied().find(|f| self.grammar.contains(f)).unwrap_or(cx.func)
    }
    fn kset(&self, st: &St<W>, n: usize) -> KSet {
        if n < 4 { st.w.tk.k[n].clone() } else { self.kinds.all.clone() }
    }
    fn narrow(&self, st: &St<W>, n: usize, set: &KSet) -> Option<St<W>> {
        if n >= 4 {
            return Some(st.clone());
        }
        let k = st.w.tk.k[n].inter(set);
        if k.is_empty() {
            return None;
        }
        if k == st.w.tk.k[n] {
            return Some(st.clone());
        }
        let mut s = st.clone();
        s.w.tk.k[n] = k;
        if n == 0 {
            if let Txt::Is(w) = &s.w.tk.text {
                let want = self.kinds.kw.get(&**w).copied().unwrap_or(self.kinds.ident);
                if !s.w.tk.k[0].has(want) {
                    return None;
                }
            }
        }
        if s.w.tk.k[n] == KSet::one(self.kinds.eof) {
            for i in n + 1..4 {
                s.w.tk.k[i] = KSet::one(self.kinds.eof);
            }
        }
        // a token after a non-EOF one: nothing further known
        if n > 0 && !s.w.tk.k[n].has(self.kinds.eof) {
            for i in 0..n {
                let mut m = s.w.tk.k[i].clone();
                m = m.minus(&KSet::one(self.kinds.eof));
                if m.is_empty() {
                    return None;
                }
                s.w.tk.k[i] = m;
            }
        }
        Some(s)
    }
    fn split(&self, st: &St<W>, n: usize, set: &KSet) -> Vec<(St<W>, bool)> {
        let mut out = vec![];
        let full = self.kset(st, n);
        if n >= 4 {
            return vec![(st.clone(), true), (st.clone(), false)];
        }
        if let Some(s) = self.narrow(st, n, set) {
            out.push((s, true));
        }
        let rest = full.minus(set);
        if !rest.is_empty() {
            if let Some(s) = self.narrow(st, n, &rest) {
                out.push((s, false));
            }
        }
        out
    }
    fn map_cells(&self, st: &mut St<W>, f: &mut dyn FnMut(&V) -> Option<V>) {
        let mut need = false;
        for c in st.cells.iter() {
            if any_v(c, &mut |x| f(x).is_some()) {
                need = true;
                break;
            }
        }
        if need {
            let cells = Rc::make_mut(&mut st.cells);
            for c in cells.iter_mut() {
                *c = map_v(c, f);
            }
        }
    }
    fn freeze(&self, st: &mut St<W>) {
        let tk = st.w.tk.clone();
        let all = self.kinds.all.clone();
        self.map_cells(st, &mut |v| match v {
            V::Nth(n) => Some(V::Kinds(tk.k.get(*n as usize).cloned().unwrap_or(all.clone()))),
            V::Text(_) => Some(ANY),
            V::Tag("joint", _) => Some(ANY),
            _ => None,
        });
    }
    fn shift(&self, st: &mut St<W>, n: Option<usize>) {
        self.freeze(st);
        let all = self.kinds.all.clone();
        let w = &mut st.w;
        match n {
            Some(n) => {
                for _ in 0..n {
                    if w.tk.k[0] == KSet::one(self.kinds.eof) {
                        break;
                    }
                    w.tk.k = [w.tk.k[1].clone(), w.tk.k[2].clone(), w.tk.k[3].clone(), all.clone()];
                    w.tk.joint = [w.tk.joint[1], w.tk.joint[2], None];
                }
            }
            None => {
                w.tk.k = [all.clone(), all.clone(), all.clone(), all];
                w.tk.joint = [None; 3];
            }
        }
        w.tk.text = Txt::Not(BTreeSet::new());
        for v in w.marks.values_mut() {
            *v = true;
        }
        for v in w.pos.values_mut() {
            *v = true;
        }
    }
    fn snapshot(&self, st: &St<W>) -> Rc<Snap> {
        Rc::new(Snap {
            tk: st.w.tk.clone(),
            marks: st.w.marks.clone(),
            pos: st.w.pos.clone(),
            base: st.w.base,
        })
    }
    fn rollback(&self, st: &mut St<W>, s: &Snap) {
        self.freeze(st);
        st.w.tk = s.tk.clone();
        st.w.base = s.base;
        for (id, m) in st.w.marks.iter_mut() {
            *m = s.marks.get(id).copied().unwrap_or(false);
        }
        let keep: BTreeMap<u32, bool> =
            st.w.pos.keys().filter_map(|k| s.pos.get(k).map(|v| (*k, *v))).collect();
        st.w.pos = keep;
    }
    fn fresh_open(&self, w: &W) -> u32 {
        (0..).find(|i| !w.open.iter().any(|o| o.id == *i)).unwrap()
    }
    fn to_set(&self, v: &V) -> Option<KSet> {
        match v {
            V::TSet(k) => Some(k.clone()),
            V::Kinds(k) if k.len() == 1 => Some(k.clone()),
            V::Ctor(n, a) if &**n == "SyntaxKind" && a.len() == 1 => self.to_set(&a[0]),
            _ => None,
        }
    }
    fn mk_set(&self, it: &Interp<Self>, cx: &Rc<Cx>, k: KSet, line: usize) -> V {
        self.stats.borrow_mut().sets += 1;
        for x in k.iter() {
            if x >= 128 {
                self.viol(
                    it,
                    cx,
                    "S07",
                    format!("set-overflow:{}", self.kinds.name(x)),
                    format!("kind {} (discriminant {x}) does not fit the 128-bit token set", self.kinds.name(x)),
                    line,
                );
            }
        }
        V::TSet(k)
    }
    fn is_kw(&self, st: &St<W>, kw: &str) -> Vec<(St<W>, bool)> {
        let want = self.kinds.kw.get(kw).copied().unwrap_or(self.kinds.ident);
        let mut out = vec![];
        let poss = match &st.w.tk.text {
            Txt::Is(w) => &**w == kw,
            Txt::Not(s) => !s.contains(kw),
        };
        if poss && st.w.tk.k[0].has(want) {
            if let Some(mut s) = self.narrow(st, 0, &KSet::one(want)) {
                s.w.tk.text = Txt::Is(Rc::from(kw));
                out.push((s, true));
            }
        }
        let must = match &st.w.tk.text {
            Txt::Is(w) => &**w == kw,
            _ => false,
        };
        if !must {
            let mut s = st.clone();
            if let Txt::Not(n) = &mut s.w.tk.text {
                n.insert(Rc::from(kw));
            }
            if self.kinds.kw.contains_key(kw) {
                if let Some(s) = self.narrow(&s, 0, &self.kinds.all.minus(&KSet::one(want))) {
                    out.push((s, false));
                }
            } else {
                out.push((s, false));
            }
        }
        out
    }
    fn bools(v: Vec<(St<W>, bool)>) -> Out<W> {
        v.into_iter().map(|(s, b)| (s, Flow::Val(V::Bool(b)))).collect()
    }
    fn sk(&self, it: &Interp<Self>, st: &St<W>) -> V {
        let t = match self.sk_term.get() {
            Some(t) => t,
            None => {
                let t = it.term(".stmt_kind", vec![P]);
                self.sk_term.set(Some(t));
                t
            }
        };
        st.heap.get(&t).cloned().unwrap_or(V::Sym(t))
    }
    fn set_sk(&self, it: &Interp<Self>, st: &mut St<W>, v: V) {
        let t = it.term(".stmt_kind", vec![P]);
        Rc::make_mut(&mut st.heap).insert(t, v);
    }
    fn gc(&self, st: &mut St<W>) {
        let mut pos = BTreeSet::new();
        let mut snaps = BTreeSet::new();
        for c in st.cells.iter() {
            any_v(c, &mut |x| {
                match x {
                    V::Tag("pos", i) => {
                        pos.insert(*i);
                    }
                    V::Tag("snap", i) => {
                        snaps.insert(*i);
                    }
                    _ => {}
                }
                false
            });
        }
        st.w.pos.retain(|k, _| pos.contains(k));
        st.w.snaps.retain(|k, _| snaps.contains(k));
        st.w.snapfr.retain(|k, _| snaps.contains(k));
    }
    fn close_marker(&self, it: &Interp<Self>, cx: &Rc<Cx>, st: &mut St<W>, id: u32, what: &str, line: usize) -> Option<Open> {
        let i = st.w.open.iter().position(|o| o.id == id);
        match i {
            Some(i) => Some(Rc::make_mut(&mut st.w.open).remove(i)),
            None => {
                self.viol(
                    it,
                    cx,
                    "S01",
                    format!("{what}-not-open"),
                    format!("{what} of a marker that is not open (its start event was rolled back or it was closed already)"),
                    line,
                );
                None
            }
        }
    }
    fn unmod(&self, it: &Interp<Self>, cx: &Rc<Cx>, what: &str) {
        self.unmodelled
            .borrow_mut()
            .insert(format!("{} in {}", what, it.repo.fns[self.site(cx)].qual()));
    }
    fn check_dropped(&self, it: &Interp<Self>, cx: &Rc<Cx>, st: &St<W>, ret: Option<&V>, what: &str, line: usize) {
        for o in st.w.open.iter() {
            let mut found = false;
            if let Some(r) = ret {
                found = any_v(r, &mut |x| *x == V::Res(o.id));
            } else {
                for c in st.cells.iter() {
                    if any_v(c, &mut |x| *x == V::Res(o.id)) {
                        found = true;
                        break;
                    }
                }
            }
            if !found {
                let sf = &it.repo.fns[o.site.0];
                self.viol(
                    it,
                    cx,
                    "S01",
                    format!("dropped-marker:{}", sf.qual()),
                    format!(
                        "marker started in {} ({}:{}) is neither completed nor abandoned {what}",
                        sf.qual(),
                        sf.file,
                        o.site.1
                    ),
                    line,
                );
            }
        }
    }

    // ---------------------------------------------------------------- summaries
    fn enqueue_new(&self, key: &Key) {
        let mut o = self.order.borrow_mut();
        self.index.borrow_mut().insert(key.clone(), o.len());
        self.work.borrow_mut().insert(o.len());
        o.push(key.clone());
    }
    fn summary_call(&self, it: &Interp<Self>, cx: &Rc<Cx>, st: &St<W>, f: FnId, args: Vec<V>, line: usize) -> Out<W> {
        let mut ids: Vec<u32> = vec![];
        for o in st.w.open.iter() {
            if args.iter().any(|a| any_v(a, &mut |x| *x == V::Res(o.id))) {
                ids.push(o.id);
            }
        }
        let ren = |v: &V| {
            map_v(v, &mut |x| match x {
                V::Res(i) => ids.iter().position(|j| j == i).map(|p| V::Res(p as u32)),
                V::Ctor(n, a) if &**n == "CM" => Some(ctor("CM", vec![V::Kinds(match a.first() {
                    Some(V::Kinds(k)) => self.canon(k),
                    _ => KSet::range(self.kinds.names.len()),
                })])),
                _ => None,
            })
        };
        let kargs: Vec<V> = args.iter().map(ren).collect();
        let open: Vec<Open> = ids
            .iter()
            .enumerate()
            .map(|(p, id)| {
                let o = st.w.open.iter().find(|o| o.id == *id).unwrap();
                Open {
                    fr: o.fr.clone(),
                    id: p as u32,
                    snap: Rc::new(Snap {
                        tk: o.snap.tk.clone(),
                        marks: BTreeMap::from([(0, false)]),
                        pos: BTreeMap::new(),
                        base: Some(p as u32),
                    }),
                    precede: o.precede,
                    site: o.site,
                }
            })
            .collect();
        let key = Key { top: st.w.top && st.w.depth == 0, f, args: kargs, tk: st.w.tk.clone(), sk: self.sk(it, st), open };
        let cur = self.current.borrow().clone();
        if let Some(c) = &cur {
            self.deps.borrow_mut().entry(key.clone()).or_default().insert(c.clone());
            if self.report.get() {
                let w = &st.w;
                if !w.marks.get(&0).copied().unwrap_or(false) {
                    self.edges.borrow_mut().entry(c.clone()).or_default().insert(key.clone());
                }
            }
        }
        if self.report.get() {
            self.stats.borrow_mut().calls.insert((self.site(cx), line));
        }
        let outs = {
            let mut t = self.table.borrow_mut();
            match t.get(&key) {
                Some(o) => o.clone(),
                None => {
                    t.insert(key.clone(), vec![]);
                    self.enqueue_new(&key);
                    vec![]
                }
            }
        };
        let mut res = vec![];
        // a finished node handed over is no longer certainly a child here
        let st = &{
            let mut st = st.clone();
            if self.ch.is_some() {
                let mut lost = 0;
                for a in &args {
                    any_v(a, &mut |x| {
                        if let V::Ctor(n, a) = x {
                            if &**n == "CM" {
                                if let Some(V::Kinds(k)) = a.first() {
                                    lost |= self.cls(k);
                                }
                            }
                        }
                        false
                    });
                }
                self.fr_mut(&mut st.w).must &= !lost;
            }
            st
        };
        for o in outs {
            let mut s = st.clone();
            if let Some(b) = o.base {
                let snap = st.w.open.iter().find(|x| x.id == ids[b as usize]).unwrap().snap.clone();
                self.rollback(&mut s, &snap);
            }
            if o.consumed {
                self.shift(&mut s, None);
            }
            s.w.tk = o.tk.clone();
            // markers
            let mut back: BTreeMap<u32, u32> = BTreeMap::new();
            let mut new_open: Vec<Open> = s
                .w
                .open
                .iter()
                .filter(|x| match ids.iter().position(|j| *j == x.id) {
                    Some(p) => o.open.iter().any(|y| y.id == p as u32),
                    None => true,
                })
                .cloned()
                .map(|mut x| {
                    if let Some(y) = ids.iter().position(|j| *j == x.id).and_then(|p| o.open.iter().find(|y| y.id == p as u32)) {
                        x.fr = y.fr.clone();
                    }
                    x
                })
                .collect();
            // what the callee put down outside the markers it was given
            if self.ch.is_some() {
                let mut add = o.fr.clone();
                any_v(&o.ret, &mut |x| {
                    if let V::Ctor(n, a) = x {
                        if &**n == "CM" {
                            if let Some(V::Kinds(k)) = a.first() {
                                add.must |= self.cls(k);
                            }
                        }
                    }
                    false
                });
                let suffix = st.w.open.len() >= ids.len() && st.w.open[st.w.open.len() - ids.len()..].iter().all(|x| ids.contains(&x.id));
                let at = if suffix {
                    st.w.open.len() - ids.len()
                } else {
                    // not nested as usual: nothing certain, anything possible
                    add.must = 0;
                    st.w.open.len()
                };
                match at.checked_sub(1).map(|i| st.w.open[i].id).and_then(|id| new_open.iter_mut().find(|x| x.id == id)) {
                    Some(x) => x.fr = x.fr.then(&add),
                    None => s.w.fr = s.w.fr.then(&add),
                }
            }
            for y in &o.open {
                if (y.id as usize) < ids.len() && y.snap.base == Some(y.id) {
                    back.insert(y.id, ids[y.id as usize]);
                } else {
                    let mut w2 = s.w.clone();
                    w2.open = Rc::new(new_open.clone());
                    // avoid clashing with ids still used by the caller
                    let id = (0..)
                        .find(|i| !new_open.iter().any(|o| o.id == *i) && !st.w.open.iter().any(|o| o.id == *i))
                        .unwrap();
                    let consumed = y.snap.marks.get(&0).copied().unwrap_or(false);
                    let mut marks = st.w.marks.clone();
                    if consumed {
                        marks.values_mut().for_each(|v| *v = true);
                    }
                    let mut pos = st.w.pos.clone();
                    if consumed {
                        pos.values_mut().for_each(|v| *v = true);
                    }
                    new_open.push(Open {
                        fr: y.fr.clone(),
                        id,
                        snap: Rc::new(Snap { tk: y.snap.tk.clone(), marks, pos, base: st.w.base }),
                        precede: y.precede,
                        site: y.site,
                    });
                    back.insert(y.id, id);
                }
            }
            s.w.open = Rc::new(new_open);
            let ret = map_v(&o.ret, &mut |x| match x {
                V::Res(i) => Some(V::Res(back.get(i).copied().unwrap_or(9999))),
                _ => None,
            });
            self.set_sk(it, &mut s, o.sk.clone());
            res.push((s, Flow::Val(ret)));
        }
        res
    }

    fn evaluate(&self, it: &Interp<Self>, key: &Key) -> Vec<Outcome> {
        *self.current.borrow_mut() = Some(key.clone());
        let mut st = St::new(W {
            tk: key.tk.clone(),
            fr: Fr::new(),
            snapfr: BTreeMap::new(),
            open: Rc::new(key.open.clone()),
            marks: BTreeMap::from([(0, false)]),
            loops: vec![],
            pos: BTreeMap::new(),
            snaps: BTreeMap::new(),
            depth: 0,
            top: key.top,
            base: None,
            idx: None,
        });
        self.set_sk(it, &mut st, key.sk.clone());
        let cx0 = Rc::new(Cx {
            func: key.f,
            module: it.repo.fns[key.f].module.clone(),
            self_ty: None,
            stack: vec![],
            ret_opt: false,
        });
        let outs = it.inline(&cx0, key.f, key.args.clone(), st);
        let cx = it.cx_for(key.f, vec![]);
        let line = it.repo.fns[key.f].line;
        let mut res: Vec<Outcome> = vec![];
        for (s, fl) in outs {
            let ret = match fl {
                Flow::Val(v) | Flow::Ret(v) => it.deref(&s, &v),
                _ => continue,
            };
            let ret = map_v(&ret, &mut |x| match x {
                V::Nth(n) => Some(V::Kinds(self.kset(&s, *n as usize))),
                V::Sym(_) | V::Text(_) | V::Str(_) => Some(ANY),
                _ => None,
            });
            if self.report.get() {
                self.stats.borrow_mut().exits += 1;
                self.check_dropped(it, &cx, &s, Some(&ret), "when the function returns", line);
                if s.w.depth != 0 {
                    self.viol(
                        it,
                        &cx,
                        "S04",
                        "recovery-depth".into(),
                        format!("returns with the recovery stack {:+} entries deeper than on entry", s.w.depth),
                        line,
                    );
                }
                let sk = self.sk(it, &s);
                if sk != key.sk {
                    self.viol(
                        it,
                        &cx,
                        "S04",
                        "stmt-kind".into(),
                        format!("returns with statement kind {} (entered with {})", it.show(&sk), it.show(&key.sk)),
                        line,
                    );
                }
            }
            let open: Vec<Open> = s
                .w
                .open
                .iter()
                .filter(|o| any_v(&ret, &mut |x| *x == V::Res(o.id)))
                .cloned()
                .map(|mut o| {
                    if o.snap.base.is_none() || o.snap.marks.len() != 1 || !o.snap.pos.is_empty() {
                        o.snap = Rc::new(Snap {
                            tk: o.snap.tk.clone(),
                            marks: BTreeMap::from([(0, o.snap.marks.get(&0).copied().unwrap_or(false))]),
                            pos: BTreeMap::new(),
                            base: o.snap.base,
                        });
                    }
                    o
                })
                .collect();
            res.push(Outcome {
                ret,
                tk: s.w.tk.clone(),
                fr: s.w.fr.clone(),
                consumed: s.w.marks.get(&0).copied().unwrap_or(false),
                base: s.w.base,
                sk: self.sk(it, &s),
                open,
            });
        }
        res
    }

    fn add_outcomes(&self, key: &Key, new: Vec<Outcome>) -> bool {
        let mut t = self.table.borrow_mut();
        let cur = t.get_mut(key).unwrap();
        let mut changed = false;
        for n in new {
            if cur.contains(&n) {
                continue;
            }
            let sh = shape(&n.ret);
            let same: Vec<usize> = cur
                .iter()
                .enumerate()
                .filter(|(_, o)| {
                    o.consumed == n.consumed
                        && o.base == n.base
                        && o.sk == n.sk
                        && o.open.iter().map(|x| (x.id, x.precede)).eq(n.open.iter().map(|x| (x.id, x.precede)))
                        && shape(&o.ret) == sh
                })
                .map(|(i, _)| i)
                .collect();
            let lim = if n.consumed { 1 } else { 6 };
            if same.len() >= lim {
                let o = &mut cur[same[same.len() - 1]];
                let j = Outcome {
                    ret: join_shape(&o.ret, &n.ret),
                    tk: join_tk(&o.tk, &n.tk),
                    fr: o.fr.join(&n.fr),
                    open: o
                        .open
                        .iter()
                        .zip(n.open.iter())
                        .map(|(a, b)| {
                            if a == b {
                                a.clone()
                            } else {
                                let mut a = a.clone();
                                a.fr = a.fr.join(&b.fr);
                                a.snap = Rc::new(Snap {
                                    tk: join_tk(&a.snap.tk, &b.snap.tk),
                                    marks: a
                                        .snap
                                        .marks
                                        .iter()
                                        .map(|(k, v)| (*k, *v && b.snap.marks.get(k).copied().unwrap_or(false)))
                                        .collect(),
                                    ..(*a.snap).clone()
                                });
                                a
                            }
                        })
                        .collect(),
                    ..o.clone()
                };
                if j != *o {
                    *o = j;
                    changed = true;
                }
            } else {
                cur.push(n);
                changed = true;
            }
        }
        changed
    }
}

impl Domain for G {
    type W = W;
    fn unroll(&self) -> Option<usize> {
        None
    }
    fn max_rec(&self) -> usize {
        4
    }
    fn cap(&self) -> usize {
        4000
    }
    fn list_push_widen(&self) -> bool {
        true
    }
    fn explore_closures(&self) -> bool {
        true
    }

    fn path(&self, _it: &Interp<Self>, _cx: &Rc<Cx>, segs: &[String]) -> Option<V> {
        let last = segs.last()?;
        if segs.len() == 1 || segs[segs.len() - 2] == "SyntaxKind" {
            if let Some(k) = self.kinds.idx.get(last) {
                return Some(V::Kinds(KSet::one(*k)));
            }
        }
        if segs.len() == 2 && segs[0] == "TokenSet" && last == "EMPTY" {
            return Some(V::TSet(KSet::empty()));
        }
        None
    }
    fn mac(&self, it: &Interp<Self>, cx: &Rc<Cx>, st: &St<W>, m: &'static syn::Macro) -> Option<Out<W>> {
        let n = m.path.segments.last()?.ident.to_string();
        match n.as_str() {
            "T" => {
                let k = self.kinds.t.get(&norm(&m.tokens));
                match k {
                    Some(k) => Some(val(st.clone(), V::Kinds(KSet::one(*k)))),
                    None => {
                        self.unmod(it, cx, &format!("T![{}]", m.tokens));
                        Some(val(st.clone(), ANY))
                    }
                }
            }
            "ts" => {
                let args = it.macro_args(m)?;
                let mut set = KSet::empty();
                for a in args {
                    for (_, f) in it.eval(cx, a, st.clone()) {
                        if let Flow::Val(V::Kinds(k)) = f {
                            if k.len() != 1 {
                                return Some(val(st.clone(), RS));
                            }
                            set = set.union(&k);
                        } else {
                            return Some(val(st.clone(), RS));
                        }
                    }
                }
                let v = self.mk_set(it, cx, set, 0);
                Some(val(st.clone(), v))
            }
            "format" => Some(val(st.clone(), V::Str(Rc::from("fmt")))),
            _ => None,
        }
    }
    fn pat_mac(&self, _it: &Interp<Self>, m: &'static syn::Macro) -> Option<V> {
        if m.path.is_ident("T") {
            return self.kinds.t.get(&norm(&m.tokens)).map(|k| V::Kinds(KSet::one(*k)));
        }
        None
    }
    fn truth(&self, _it: &Interp<Self>, st: &St<W>, v: &V) -> Option<Vec<(St<W>, bool)>> {
        match v {
            V::Tag("joint", n) => {
                let n = *n as usize;
                if n >= 3 {
                    return Some(vec![(st.clone(), true), (st.clone(), false)]);
                }
                match st.w.tk.joint[n] {
                    Some(b) => Some(vec![(st.clone(), b)]),
                    None => {
                        let mut out = vec![];
                        let ne = self.kinds.all.minus(&KSet::one(self.kinds.eof));
                        // joined => both this token and the next exist
                        if let Some(s) = self.narrow(st, n, &ne) {
                            let s = if n + 1 < 4 { self.narrow(&s, n + 1, &ne) } else { Some(s) };
                            if let Some(mut s) = s {
                                s.w.tk.joint[n] = Some(true);
                                out.push((s, true));
                            }
                        }
                        let mut b = st.clone();
                        b.w.tk.joint[n] = Some(false);
                        out.push((b, false));
                        Some(out)
                    }
                }
            }
            V::Tag("any", _) => Some(vec![(st.clone(), true), (st.clone(), false)]),
            _ => None,
        }
    }
    fn eq(&self, _it: &Interp<Self>, st: &St<W>, a: &V, b: &V) -> Option<Vec<(St<W>, bool)>> {
        match (a, b) {
            (V::Nth(n), V::Kinds(k)) | (V::Kinds(k), V::Nth(n)) => {
                if k.len() == 1 {
                    return Some(self.split(st, *n as usize, k));
                }
                Some(vec![(st.clone(), true), (st.clone(), false)])
            }
            (V::Nth(n), V::Nth(m)) => {
                if n == m {
                    Some(vec![(st.clone(), true)])
                } else {
                    Some(vec![(st.clone(), true), (st.clone(), false)])
                }
            }
            (V::Kinds(a), V::Kinds(b)) => {
                if a.len() == 1 && b.len() == 1 {
                    return Some(vec![(st.clone(), a == b)]);
                }
                if a.inter(b).is_empty() {
                    return Some(vec![(st.clone(), false)]);
                }
                Some(vec![(st.clone(), true), (st.clone(), false)])
            }
            (V::Text(0), V::Str(s)) | (V::Str(s), V::Text(0)) => Some(self.is_kw(st, s)),
            (V::Tag("any", _), _) | (_, V::Tag("any", _)) => Some(vec![(st.clone(), true), (st.clone(), false)]),
            (V::Text(_), _) | (_, V::Text(_)) => Some(vec![(st.clone(), true), (st.clone(), false)]),
            (V::Tag("pos", a), V::Tag("pos", b)) => {
                let x = st.w.pos.get(a).copied();
                let y = st.w.pos.get(b).copied();
                match (x, y) {
                    (Some(false), Some(false)) => Some(vec![(st.clone(), true)]),
                    (Some(true), Some(false)) | (Some(false), Some(true)) => Some(vec![(st.clone(), false)]),
                    _ => Some(vec![(st.clone(), true), (st.clone(), false)]),
                }
            }
            (V::Tag("big", _), V::Int(i)) | (V::Int(i), V::Tag("big", _)) => {
                if *i <= 2 {
                    Some(vec![(st.clone(), false)])
                } else {
                    Some(vec![(st.clone(), true), (st.clone(), false)])
                }
            }
            _ => None,
        }
    }
    fn binop(&self, it: &Interp<Self>, op: &str, a: &V, b: &V) -> Option<V> {
        let _ = it;
        match (op, a, b) {
            ("+", V::Int(x), V::Int(y)) if x + y > 2 => Some(V::Tag("big", 0)),
            ("+", V::Tag("big", n), V::Int(y)) if *y > 0 => Some(V::Tag("big", 1 - n)),
            (">" | ">=", V::Tag("big", _), V::Int(y)) if *y <= 2 => Some(V::Bool(true)),
            ("<" | "<=", V::Tag("big", _), V::Int(y)) if *y <= 2 => Some(V::Bool(false)),
            ("<" | "<=", V::Int(y), V::Tag("big", _)) if *y <= 2 => Some(V::Bool(true)),
            (">" | ">=", V::Int(y), V::Tag("big", _)) if *y <= 2 => Some(V::Bool(false)),
            ("<" | "<=" | ">" | ">=" | "-", V::Tag("big", _), _) | ("<" | "<=" | ">" | ">=", _, V::Tag("big", _)) => {
                Some(ANY)
            }
            ("<" | "<=" | ">" | ">=", V::Tag("any", _), _) | ("<" | "<=" | ">" | ">=", _, V::Tag("any", _)) => Some(ANY),
            ("|" | "+", x, y) => {
                let (x, y) = (self.to_set(x), self.to_set(y));
                match (x, y) {
                    (Some(x), Some(y)) => Some(V::TSet(x.union(&y))),
                    _ => {
                        if matches!(a, V::Tag("RS", _)) || matches!(b, V::Tag("RS", _)) {
                            return Some(RS1);
                        }
                        None
                    }
                }
            }
            _ => None,
        }
    }
    fn field(&self, _it: &Interp<Self>, _st: &St<W>, base: &V, name: &str) -> Option<V> {
        match (base, name) {
            (V::Tag("parser", _), "token_source") => Some(V::Tag("tsrc", 0)),
            (V::Tag("parser", _), "recovery_set_stack") => Some(V::Tag("rstack", 0)),
            (V::Tag("parser", _), "events") => Some(V::Tag("events", 0)),
            _ => None,
        }
    }
    fn panic(&self, it: &Interp<Self>, cx: &Rc<Cx>, st: &St<W>, k: PanicKind, line: usize, msg: &str) {
        if !self.report.get() {
            return;
        }
        let site = self.site(cx);
        let m = match k {
            PanicKind::Assert => {
                // the asserted kind, when the assertion sits in a parser primitive
                match st.lookup("kind") {
                    Some(c) if cx.func != site => {
                        let v = it.deref(st, &st.cells[c].clone());
                        match v {
                            V::Kinds(s) => format!("{}({})", it.repo.fns[cx.func].name, self.kinds.show(&s)),
                            _ => format!("assert {msg}"),
                        }
                    }
                    _ => format!("assert {msg}"),
                }
            }
            PanicKind::Panic => msg.to_string(),
            PanicKind::Unwrap => format!("{msg} on an absent value"),
        };
        let short: String = m.chars().take(80).collect();
        // assertions in a grammar function's prologue are preconditions: name the caller
        let stack: Vec<String> =
            cx.stack.iter().map(|f| it.repo.fns[*f].name.clone()).collect();
        let cur = self.kinds.show(&st.w.tk.k[0]);
        // nothing consumed since entry: the caller decides, so name it
        let mut callers: BTreeSet<String> = BTreeSet::new();
        if !st.w.marks.get(&0).copied().unwrap_or(false) {
            if let Some(k) = &*self.current.borrow() {
                if let Some(d) = self.deps.borrow().get(k) {
                    callers = d.iter().map(|k| it.repo.fns[k.f].qual()).collect();
                }
            }
        }
        let one = |from: &str| {
            self.viol(
                it,
                cx,
                "S02",
                if from.is_empty() { format!("panic:{short}") } else { format!("panic:{short}:from:{from}") },
                format!(
                    "`{m}` can fail: reachable with current token in {{{cur}}} next in {{{}}} (via {}{}{})",
                    self.kinds.show(&st.w.tk.k[1]),
                    from,
                    if from.is_empty() { "" } else { " > " },
                    stack.join(" > ")
                ),
                line,
            );
        };
        if callers.is_empty() {
            one("");
        }
        for c in &callers {
            one(c);
        }
    }
    fn join(&self, a: &W, b: &W) -> Option<W> {
        let mut c = b.clone();
        c.tk = a.tk.clone();
        if self.ch.is_some() {
            c.fr = a.fr.clone();
            if c.snapfr.keys().eq(a.snapfr.keys()) {
                c.snapfr = a.snapfr.clone();
            }
            if c.open.len() == a.open.len() && c.open != a.open {
                for (x, y) in Rc::make_mut(&mut c.open).iter_mut().zip(a.open.iter()) {
                    x.fr = y.fr.clone();
                }
            }
        }
        if c != *a {
            return None;
        }
        let mut r = a.clone();
        if self.ch.is_some() {
            r.fr = a.fr.join(&b.fr);
            for (k, v) in r.snapfr.iter_mut() {
                *v = v.join(&b.snapfr[k]);
            }
            if a.open != b.open {
                for (x, y) in Rc::make_mut(&mut r.open).iter_mut().zip(b.open.iter()) {
                    x.fr = x.fr.join(&y.fr);
                }
            }
        }
        r.tk = join_tk(&a.tk, &b.tk);
        Some(r)
    }
    fn join_facts(&self) -> bool {
        true
    }
    fn join_val(&self, a: &V, b: &V) -> Option<V> {
        if a == b {
            return Some(a.clone());
        }
        (shape(a) == shape(b)).then(|| join_shape(a, b))
    }
    fn loop_enter(&self, st: &mut St<W>) {
        let id = (1..).find(|i| !st.w.marks.contains_key(i)).unwrap();
        st.w.marks.insert(id, false);
        st.w.loops.push(id);
    }
    fn loop_iter(&self, st: &mut St<W>) {
        if let Some(id) = st.w.loops.last().copied() {
            st.w.marks.insert(id, false);
        }
        st.w.idx = None;
        self.gc(st);
    }
    fn loop_back(&self, it: &Interp<Self>, cx: &Rc<Cx>, st: &St<W>, line: usize, bounded: bool) {
        if self.report.get() {
            self.stats.borrow_mut().loops.insert((cx.func, line));
            let adv = st.w.loops.last().and_then(|i| st.w.marks.get(i)).copied().unwrap_or(false);
            let idx = st.w.idx.as_ref().is_some_and(|(c, v)| st.cells.get(*c).is_some_and(|x| x != v));
            if !bounded && !adv && !idx {
                self.viol(
                    it,
                    cx,
                    "S03",
                    format!("loop-no-progress:{}", it.repo.fns[cx.func].name),
                    format!(
                        "a loop iteration in {} can finish without consuming a token (current token in {{{}}})",
                        it.repo.fns[cx.func].qual(),
                        self.kinds.show(&st.w.tk.k[0])
                    ),
                    line,
                );
            }
            self.check_dropped(it, cx, st, None, "at the end of a loop iteration", line);
        }
    }
    fn loop_exit(&self, st: &mut St<W>) {
        if let Some(id) = st.w.loops.pop() {
            st.w.marks.remove(&id);
        }
        st.w.idx = None;
    }

    fn call_fn(&self, it: &Interp<Self>, cx: &Rc<Cx>, st: &St<W>, f: FnId, args: &[V], line: usize) -> Option<Out<W>> {
        if !self.grammar.contains(&f) {
            return None;
        }
        let mut a = vec![];
        for x in args {
            let d = it.deref(st, x);
            if d == P {
                a.push(P);
                continue;
            }
            if any_v(x, &mut |y| matches!(y, V::Closure(_) | V::Ref(_))) {
                return None;
            }
            a.push(map_v(x, &mut |y| match y {
                V::Nth(n) => Some(V::Kinds(self.kset(st, *n as usize))),
                V::Str(_) | V::Text(_) | V::Sym(_) => Some(ANY),
                _ => None,
            }));
        }
        Some(self.summary_call(it, cx, st, f, a, line))
    }

    fn call(
        &self,
        it: &Interp<Self>,
        cx: &Rc<Cx>,
        st: &St<W>,
        segs: &[String],
        _f: Option<FnId>,
        args: &[V],
        line: usize,
    ) -> Option<Out<W>> {
        let last = segs.last()?.as_str();
        let ty = if segs.len() >= 2 { segs[segs.len() - 2].as_str() } else { "" };
        match (ty, last) {
            ("TokenSet", "new") => {
                let a = it.deref(st, args.first()?);
                let mut set = KSet::empty();
                if let V::List(l) = &a {
                    for x in l.iter() {
                        match it.deref(st, x) {
                            V::Kinds(k) if k.len() == 1 => set = set.union(&k),
                            _ => return Some(val(st.clone(), RS)),
                        }
                    }
                    let v = self.mk_set(it, cx, set, line);
                    return Some(val(st.clone(), v));
                }
                Some(val(st.clone(), RS))
            }
            ("TokenSet", "from") | ("RecoverySet", "from") | ("RecoverySet", "from_ts") => {
                let a = it.deref(st, args.first()?);
                let v = match self.to_set(&a) {
                    Some(s) => self.mk_set(it, cx, s, line),
                    None => RS,
                };
                Some(val(st.clone(), v))
            }
            ("RecoverySet", "new") => Some(val(st.clone(), V::TSet(KSet::empty()))),
            ("RecoveryToken", "from") => Some(val(st.clone(), args[0].clone())),
            ("HashSet", "new") => {
                let v = it.sym("hashset", vec![]);
                Some(val(st.clone(), v))
            }
            _ if segs[0] == "stdx" => Some(val(st.clone(), V::Unit)),
            _ => None,
        }
    }

    fn method(&self, it: &Interp<Self>, cx: &Rc<Cx>, st: &St<W>, c: &MCall) -> Option<Out<W>> {
        let recv = it.deref(st, &c.recv);
        let arg = |i: usize| c.args.get(i).map(|a| it.deref(st, a));
        let report = self.report.get();
        match &recv {
            V::Tag("parser", _) => {
                match c.name {
                    "start" => {
                        let mut s = st.clone();
                        let id = self.fresh_open(&s.w);
                        let snap = self.snapshot(&s);
                        let site = (self.site(cx), c.line);
                        if report {
                            self.stats.borrow_mut().starts.insert(site);
                        }
                        Rc::make_mut(&mut s.w.open).push(Open { fr: Fr::new(), id, snap, precede: false, site });
                        return Some(val(s, V::Res(id)));
                    }
                    "push_event" => return Some(val(st.clone(), V::Unit)),
                    "do_bump" => {
                        let n = match arg(1) {
                            Some(V::Int(i)) => Some(i as usize),
                            _ => None,
                        };
                        let mut s = st.clone();
                        if report {
                            let site = (self.site(cx), c.line);
                            self.stats.borrow_mut().consumes.insert(site);
                            for i in 0..n.unwrap_or(1).min(4) {
                                if s.w.tk.k[i].has(self.kinds.eof) {
                                    self.viol(
                                        it,
                                        cx,
                                        "S06",
                                        "consume-past-eof".into(),
                                        format!("a token event covering {} raw token(s) can be emitted at end of input", n.map(|x| x.to_string()).unwrap_or("?".into())),
                                        c.line,
                                    );
                                }
                            }
                        }
                        if n == Some(0) {
                            return Some(val(s, V::Unit));
                        }
                        if self.ch.is_some() {
                            let k = match arg(0) {
                                Some(V::Kinds(k)) => k,
                                Some(V::Nth(n)) => self.kset(&s, n as usize),
                                _ => self.kinds.all.clone(),
                            };
                            let f = Fr { must: self.cls(&k), may: KSet::empty() };
                            self.put(&mut s, &f);
                        }
                        self.shift(&mut s, n);
                        return Some(val(s, V::Unit));
                    }
                    "event_pos" => {
                        let mut s = st.clone();
                        let id = (0..).find(|i| !s.w.snaps.contains_key(i)).unwrap();
                        let sn = self.snapshot(&s);
                        s.w.snaps.insert(id, sn);
                        if self.ch.is_some() {
                            let f = self.fr_mut(&mut s.w).clone();
                            s.w.snapfr.insert(id, f);
                        }
                        return Some(val(s, V::Tag("snap", id)));
                    }
                    "outer_recovery_set" | "merged_recovery_set" if st.w.top && st.w.depth == 0 => return Some(val(st.clone(), V::TSet(KSet::empty()))),
                    "outer_recovery_set" | "merged_recovery_set" => return Some(val(st.clone(), RS)),
                    "current_context" => return Some(val(st.clone(), ANY)),
                    "prev_ws" => return Some(val(st.clone(), ANY)),
                    "pos" => {
                        let mut s = st.clone();
                        let id = (0..).find(|i| !s.w.pos.contains_key(i)).unwrap();
                        s.w.pos.insert(id, false);
                        return Some(val(s, V::Tag("pos", id)));
                    }
                    "nth_at_rset" => {
                        let n = match arg(0) {
                            Some(V::Int(i)) => i as usize,
                            _ => 9,
                        };
                        return Some(match arg(1).and_then(|v| self.to_set(&v)) {
                            Some(k) => Self::bools(self.split(st, n, &k)),
                            None => Self::bools(vec![(st.clone(), true), (st.clone(), false)]),
                        });
                    }
                    _ => {}
                }
                if c.name == "nth_at" {
                    // remember a variable look-ahead index (bounded look-ahead loops)
                    if let Some(e) = c.expr {
                        if let syn::Expr::Path(p) = strip(&e.args[0]) {
                            if let Some(id) = p.path.get_ident() {
                                if let Some(cell) = st.lookup(&id.to_string()) {
                                    let mut s = st.clone();
                                    let v = s.cells[cell].clone();
                                    s.w.idx = Some((cell, v));
                                    let f = it.repo.method("syntax", "Parser", c.name)?.id;
                                    let mut args = vec![P];
                                    args.extend(c.args.iter().cloned());
                                    return Some(it.call_id(cx, f, args, s, c.line));
                                }
                            }
                        }
                    }
                }
                if matches!(c.name, "bump" | "expect" | "eat" | "bump_any" | "bump_remap") && report {
                    self.stats.borrow_mut().consumes.insert((self.site(cx), c.line));
                }
                if c.name.starts_with("with_") && report {
                    self.stats.borrow_mut().recov.insert((self.site(cx), c.line));
                }
                match it.repo.method("syntax", "Parser", c.name) {
                    Some(f) => {
                        let f = f.id;
                        let mut args = vec![P];
                        args.extend(c.args.iter().cloned());
                        Some(it.call_id(cx, f, args, st.clone(), c.line))
                    }
                    None => {
                        self.unmod(it, cx, &format!("Parser::{}", c.name));
                        Some(val(st.clone(), ANY))
                    }
                }
            }
            V::Tag("tsrc", _) => {
                let n = match arg(0) {
                    Some(V::Int(i)) => i as usize,
                    None => 0,
                    _ => 99,
                };
                match c.name {
                    "lookahead_nth" => {
                        let mut m = BTreeMap::new();
                        let kind = if n < 4 { V::Nth(n as u8) } else { V::Kinds(self.kinds.all.clone()) };
                        let joint = if n < 3 { V::Tag("joint", n as u32) } else { ANY };
                        m.insert("kind".to_string(), kind);
                        m.insert("is_jointed_to_next".to_string(), joint);
                        Some(val(st.clone(), V::Struct(Rc::from("Token"), Rc::new(m))))
                    }
                    "current_text" => Some(val(st.clone(), V::Text(0))),
                    "nth_text" => Some(val(st.clone(), if n == 0 { V::Text(0) } else { ANY })),
                    "is_keyword" => match arg(0) {
                        Some(V::Str(s)) => Some(Self::bools(self.is_kw(st, &s))),
                        _ => Some(val(st.clone(), ANY)),
                    },
                    "current_pos" | "curr_pos" => {
                        let mut s = st.clone();
                        let id = (0..).find(|i| !s.w.pos.contains_key(i)).unwrap();
                        s.w.pos.insert(id, false);
                        Some(val(s, V::Tag("pos", id)))
                    }
                    "prev_text" | "next_text" | "token_range" => Some(val(st.clone(), ANY)),
                    _ => {
                        self.unmod(it, cx, &format!("TokenSource::{}", c.name));
                        Some(val(st.clone(), ANY))
                    }
                }
            }
            V::Tag("rstack", _) => match c.name {
                "push" => {
                    let mut s = st.clone();
                    s.w.depth += 1;
                    Some(val(s, V::Unit))
                }
                "pop" => {
                    let mut s = st.clone();
                    s.w.depth -= 1;
                    if s.w.depth < 0 {
                        self.viol(
                            it,
                            cx,
                            "S04",
                            "recovery-underflow".into(),
                            "pops a recovery set that this function did not push".into(),
                            c.line,
                        );
                    }
                    Some(val(s, some(RS)))
                }
                "last" | "clone" | "iter" | "len" | "is_empty" => Some(val(st.clone(), ANY)),
                _ => {
                    self.viol(
                        it,
                        cx,
                        "S04",
                        format!("recovery-{}", c.name),
                        format!("recovery stack modified by `{}`, which is not a balanced push/pop", c.name),
                        c.line,
                    );
                    Some(val(st.clone(), ANY))
                }
            },
            V::Res(id) => {
                let id = *id;
                let mut s = st.clone();
                match c.name {
                    "complete" => {
                        let o = self.close_marker(it, cx, &mut s, id, "complete", c.line)?;
                        let k = match arg(1) {
                            Some(V::Kinds(k)) => k,
                            _ => self.kinds.all.clone(),
                        };
                        if self.ch.is_some() {
                            self.check_children(it, cx, &o.fr, &k, c.line);
                            self.put(&mut s, &self.fr_of(&k));
                        }
                        for bad in ["TOMBSTONE", "EOF"] {
                            if k.has(self.kinds.idx[bad]) && k.len() == 1 {
                                self.viol(
                                    it,
                                    cx,
                                    "S01",
                                    format!("complete-as-{bad}"),
                                    format!("completes a node as {bad}: its finish event would have no start"),
                                    c.line,
                                );
                            }
                        }
                        Some(val(s, ctor("CM", vec![V::Kinds(k)])))
                    }
                    "abandon" => {
                        let o = self.close_marker(it, cx, &mut s, id, "abandon", c.line)?;
                        if o.precede {
                            self.viol(
                                it,
                                cx,
                                "S01",
                                "abandon-preceded".into(),
                                "abandons a marker created by `precede`: the preceded node keeps a dangling parent link".into(),
                                c.line,
                            );
                        }
                        self.put(&mut s, &o.fr);
                        Some(val(s, V::Unit))
                    }
                    "abandon_with_rollback" => {
                        let i = s.w.open.iter().position(|o| o.id == id);
                        let later: Vec<Open> = i.map(|i| s.w.open[i + 1..].to_vec()).unwrap_or_default();
                        let o = self.close_marker(it, cx, &mut s, id, "rollback", c.line)?;
                        for l in later {
                            self.viol(
                                it,
                                cx,
                                "S01",
                                format!("rollback-open:{}", it.repo.fns[l.site.0].qual()),
                                "rolls back the start event of a marker that is still open".into(),
                                c.line,
                            );
                        }
                        if o.precede {
                            self.viol(
                                it,
                                cx,
                                "S01",
                                "rollback-preceded".into(),
                                "rolls back a marker created by `precede`: the preceded node keeps a dangling parent link".into(),
                                c.line,
                            );
                        }
                        self.rollback(&mut s, &o.snap);
                        Some(val(s, V::Unit))
                    }
                    _ => {
                        self.unmod(it, cx, &format!("Marker::{}", c.name));
                        Some(val(st.clone(), ANY))
                    }
                }
            }
            _ if c.name == "precede" && c.args.len() == 1 => {
                let mut s = st.clone();
                let id = self.fresh_open(&s.w);
                let snap = self.snapshot(&s);
                let site = (self.site(cx), c.line);
                if report {
                    self.stats.borrow_mut().starts.insert(site);
                }
                let mut fr = Fr::new();
                if self.ch.is_some() {
                    match &recv {
                        V::Ctor(n, a) if &**n == "CM" => {
                            if let Some(V::Kinds(k)) = a.first() {
                                fr = self.fr_of(k);
                                if k.len() > 60 {
                                    fr.may = KSet::empty();
                                }
                                self.fr_mut(&mut s.w).must &= !fr.must;
                            }
                        }
                        _ => {}
                    }
                }
                Rc::make_mut(&mut s.w.open).push(Open { fr, id, snap, precede: true, site });
                Some(val(s, V::Res(id)))
            }
            _ if c.name == "extend_to" && c.args.len() == 2 => {
                let mut s = st.clone();
                match arg(1) {
                    Some(V::Res(id)) => {
                        let o = self.close_marker(it, cx, &mut s, id, "extend_to", c.line)?;
                        if let (true, V::Ctor(n, a)) = (self.ch.is_some(), &recv) {
                            if let (true, Some(V::Kinds(k))) = (&**n == "CM", a.first()) {
                                let may = o.fr.may.minus(k);
                                self.check_children(it, cx, &Fr { must: u32::MAX, may }, k, c.line);
                                self.put(&mut s, &self.fr_of(k));
                            }
                        }
                    }
                    _ => self.unmod(it, cx, "extend_to of an untracked marker"),
                }
                Some(val(s, recv.clone()))
            }
            V::Ctor(n, a) if &**n == "CM" => match c.name {
                "kind" => Some(val(st.clone(), a[0].clone())),
                "abandon_with_rollback" => {
                    let mut s = st.clone();
                    match arg(1) {
                        Some(V::Tag("snap", id)) => {
                            if let Some(sn) = s.w.snaps.get(&id).cloned() {
                                self.rollback(&mut s, &sn);
                            }
                            if let Some(f) = s.w.snapfr.get(&id).cloned() {
                                *self.fr_mut(&mut s.w) = f;
                            }
                        }
                        _ => self.unmod(it, cx, "abandon_with_rollback to an untracked position"),
                    }
                    Some(val(s, V::Unit))
                }
                _ => {
                    self.unmod(it, cx, &format!("CompletedMarker::{}", c.name));
                    None
                }
            },
            V::TSet(_) | V::Kinds(_) | V::Tag("RS", _) => {
                let me = self.to_set(&recv);
                let un = |o: Option<V>| -> V {
                    let o = o.and_then(|o| self.to_set(&o));
                    match (&me, o) {
                        (Some(a), Some(b)) => self.mk_set(it, cx, a.union(&b), c.line),
                        _ => RS1,
                    }
                };
                match c.name {
                    "union" | "with_ts" | "with_another_rs" | "with_recovery_token" | "with_merged" => {
                        Some(val(st.clone(), un(arg(0))))
                    }
                    "with_kw" => Some(val(st.clone(), RS1)),
                    "sub" | "without_recovery_token" => {
                        let o = arg(0).and_then(|o| self.to_set(&o));
                        let v = match (&me, o) {
                            (Some(a), Some(b)) => V::TSet(a.minus(&b)),
                            _ => RS,
                        };
                        Some(val(st.clone(), v))
                    }
                    "contains" | "token_set_contains" => {
                        let k = arg(0);
                        match (&me, &k) {
                            (Some(a), Some(V::Nth(n))) => Some(Self::bools(self.split(st, *n as usize, a))),
                            (Some(a), Some(V::Kinds(k))) if k.len() == 1 => {
                                Some(val(st.clone(), V::Bool(!a.inter(k).is_empty())))
                            }
                            (Some(a), Some(V::Kinds(k))) if a.inter(k).is_empty() => Some(val(st.clone(), V::Bool(false))),
                            _ => Some(val(st.clone(), ANY)),
                        }
                    }
                    "contains_current" => match &me {
                        Some(a) => Some(Self::bools(self.split(st, 0, a))),
                        None => Some(val(st.clone(), ANY)),
                    },
                    "is_empty" => Some(val(
                        st.clone(),
                        match (&me, &recv) {
                            (Some(a), _) => V::Bool(a.is_empty()),
                            (_, V::Tag("RS", 1)) => V::Bool(false),
                            _ => ANY,
                        },
                    )),
                    _ => None,
                }
            }
            V::Text(_) | V::Tag("any", _) => match c.name {
                "into" | "to_string" | "clone" | "as_str" | "to_owned" => Some(val(st.clone(), recv.clone())),
                _ => None,
            },
            _ => None,
        }
    }
    fn opaque(&self, it: &Interp<Self>, cx: &Rc<Cx>, _st: &mut St<W>, name: &str, args: &[V], _line: usize) {
        // an unmodelled call that receives the parser could consume anything: fail closed
        if args.iter().any(|a| {
            let d = it.deref(_st, a);
            d == P || any_v(&d, &mut |x| matches!(x, V::Res(_)))
        }) {
            self.unmod(it, cx, &format!("call of {name} with the parser"));
        }
    }
}

pub struct GrammarResult {
    pub viols: Vec<Viol>,
    pub stats: Stats,
    pub problems: Vec<String>,
    pub entry_points: Vec<String>,
    pub fn_names: Vec<String>,
    pub n_outcomes: usize,
    /// per entry point: the kinds the current token may have when it returns
    pub root_exits: Vec<(FnId, Vec<String>)>,
    /// (child, parent) -> where the parent is completed (children analysis)
    pub rel: BTreeMap<(usize, usize), (FnId, usize)>,
    pub kids: usize,
}

pub fn analyse(repo: &Repo, ch: Option<Rc<Classes>>) -> GrammarResult {
    let mut g = G::new(repo);
    g.ch = ch;
    let mut problems = g.kinds.problems.clone();
    let it = Interp::new(repo, g);
    let g = &it.dom;
    let roots: Vec<FnId> = repo
        .fns
        .iter()
        .filter(|f| f.file.ends_with("parse/grammar.rs") && f.module.last().is_some_and(|m| m == "entry_points"))
        .map(|f| f.id)
        .collect();
    if roots.is_empty() {
        problems.push("no parse entry points found".into());
    }
    let all = g.kinds.all.clone();
    let tk0 = Tk {
        k: [all.clone(), all.clone(), all.clone(), all],
        joint: [None; 3],
        text: Txt::Not(BTreeSet::new()),
    };
    for f in &roots {
        let key = Key { top: true, f: *f, args: vec![P], tk: tk0.clone(), sk: none(), open: vec![] };
        g.table.borrow_mut().insert(key.clone(), vec![]);
        g.enqueue_new(&key);
    }
    let mut n = 0usize;
    let trace = std::env::var("SA_TRACE").is_ok();
    let mut prof: HashMap<FnId, (f64, usize, usize)> = HashMap::new();
    loop {
        // newest contexts first: callees settle before their callers are revisited
        let i = g.work.borrow_mut().pop_last();
        let Some(i) = i else { break };
        let k = g.order.borrow()[i].clone();
        n += 1;
        if trace && n % 500 == 0 {
            let mut ks: HashMap<FnId, usize> = HashMap::new();
            for k in g.order.borrow().iter() {
                *ks.entry(k.f).or_default() += 1;
            }
            let mut v: Vec<_> = prof.iter().collect();
            v.sort_by(|a, b| b.1.0.total_cmp(&a.1.0));
            for (f, e) in v.iter().take(14) {
                eprintln!("   {:.2}s {} evals, {} outs, {} keys {}", e.0, e.1, e.2, ks.get(f).unwrap_or(&0), repo.fns[**f].qual());
            }
            eprintln!(
                "{n} evals, {} keys, {} queued: {}",
                g.table.borrow().len(),
                g.work.borrow().len(),
                repo.fns[k.f].qual()
            );
        }
        if n > 400_000 {
            problems.push("summary fixpoint not reached within 400000 evaluations".into());
            break;
        }
        let t0 = std::time::Instant::now();
        let o = g.evaluate(&it, &k);
        if trace {
            let e = prof.entry(k.f).or_insert((0.0f64, 0usize, 0usize));
            e.0 += t0.elapsed().as_secs_f64();
            e.1 += 1;
            e.2 = e.2.max(o.len());
        }
        if g.add_outcomes(&k, o) {
            let d: Vec<Key> = g.deps.borrow().get(&k).map(|s| s.iter().cloned().collect()).unwrap_or_default();
            for x in d {
                let i = g.index.borrow()[&x];
                g.work.borrow_mut().insert(i);
            }
        }
    }
    g.report.set(true);
    let keys = g.order.borrow().clone();
    for k in &keys {
        g.evaluate(&it, k);
    }
    // left recursion: cycles among calls made before anything was consumed
    let edges = g.edges.borrow();
    let idx: HashMap<&Key, usize> = keys.iter().enumerate().map(|(i, k)| (k, i)).collect();
    let adj: Vec<Vec<usize>> = keys
        .iter()
        .map(|k| edges.get(k).map(|s| s.iter().filter_map(|x| idx.get(x).copied()).collect()).unwrap_or_default())
        .collect();
    let mut color = vec![0u8; keys.len()];
    let mut cycles: Vec<Vec<usize>> = vec![];
    for s in 0..keys.len() {
        if color[s] != 0 {
            continue;
        }
        let mut stack: Vec<(usize, usize)> = vec![(s, 0)];
        color[s] = 1;
        while let Some((v, i)) = stack.last().copied() {
            if i < adj[v].len() {
                stack.last_mut().unwrap().1 += 1;
                let u = adj[v][i];
                if color[u] == 0 {
                    color[u] = 1;
                    stack.push((u, 0));
                } else if color[u] == 1 {
                    let p = stack.iter().position(|(x, _)| *x == u).unwrap();
                    cycles.push(stack[p..].iter().map(|(x, _)| *x).collect());
                }
            } else {
                color[v] = 2;
                stack.pop();
            }
        }
    }
    for c in cycles {
        let mut names: Vec<String> = c.iter().map(|i| repo.fns[keys[*i].f].qual()).collect();
        names.dedup();
        let f = &repo.fns[keys[c[0]].f];
        let mut sorted = names.clone();
        sorted.sort();
        sorted.dedup();
        let key = format!("left-recursion:{}", sorted.join(","));
        g.viols.borrow_mut().entry(("S03", key.clone())).or_insert(Viol {
            prop: "S03",
            key,
            msg: format!("unbounded recursion without consuming a token: {}", names.join(" > ")),
            file: f.file.clone(),
            line: f.line,
        });
    }
    drop(edges);
    let mut stats = std::mem::take(&mut *g.stats.borrow_mut());
    stats.keys = keys.len();
    stats.fns = it.fns_seen.borrow().clone();
    let fn_names = stats.fns.iter().map(|f| repo.fns[*f].qual()).collect();
    problems.extend(it.overflow.borrow().iter().cloned());
    problems.extend(g.unmodelled.borrow().iter().map(|u| format!("unmodelled: {u}")));
    problems.sort();
    problems.dedup();
    let root_exits = roots
        .iter()
        .map(|f| {
            let mut ks = BTreeSet::new();
            for (k, os) in g.table.borrow().iter() {
                if k.f == *f {
                    for o in os {
                        ks.extend(g.kinds.names.iter().enumerate().filter(|(i, _)| o.tk.k[0].has(*i)).map(|(_, n)| n.clone()));
                    }
                }
            }
            (*f, ks.into_iter().collect())
        })
        .collect();
    let n_outcomes = g.table.borrow().values().map(|v| v.len()).sum();
    GrammarResult {
        viols: g.viols.borrow().values().cloned().collect(),
        stats,
        problems,
        entry_points: roots.iter().map(|f| repo.fns[*f].qual()).collect(),
        fn_names,
        n_outcomes,
        root_exits,
        rel: g.rel.borrow().clone(),
        kids: g.kids.borrow().len(),
    }
}
