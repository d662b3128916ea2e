//! A path-sensitive abstract interpreter over the Rust syntax tree.
//!
//! Values are partly concrete (booleans, enum constructors, small lists), partly opaque terms.
//! Undecided conditions split the path and are remembered as facts, so that a condition tested
//! twice is decided the same way twice.  Callees are resolved through the repository index and
//! inlined; a `Domain` decides what is primitive and carries the rule-specific abstract state.
//! Nothing is executed: no value here comes from running the program.
use crate::repo::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use syn::spanned::Spanned;
use syn::{Expr, Pat, Stmt};

pub type Term = u32;

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Default)]
pub struct KSet(pub [u64; 6]);
impl KSet {
    pub fn empty() -> Self {
        KSet([0; 6])
    }
    pub fn one(k: usize) -> Self {
        let mut s = Self::empty();
        s.add(k);
        s
    }
    pub fn range(n: usize) -> Self {
        let mut s = Self::empty();
        (0..n).for_each(|k| s.add(k));
        s
    }
    pub fn add(&mut self, k: usize) {
        self.0[k / 64] |= 1 << (k % 64);
    }
    pub fn has(&self, k: usize) -> bool {
        self.0[k / 64] >> (k % 64) & 1 == 1
    }
    pub fn is_empty(&self) -> bool {
        self.0.iter().all(|x| *x == 0)
    }
    pub fn union(&self, o: &Self) -> Self {
        let mut r = self.clone();
        for i in 0..6 {
            r.0[i] |= o.0[i];
        }
        r
    }
    pub fn inter(&self, o: &Self) -> Self {
        let mut r = self.clone();
        for i in 0..6 {
            r.0[i] &= o.0[i];
        }
        r
    }
    pub fn minus(&self, o: &Self) -> Self {
        let mut r = self.clone();
        for i in 0..6 {
            r.0[i] &= !o.0[i];
        }
        r
    }
    pub fn iter(&self) -> impl Iterator<Item = usize> + '_ {
        (0..384).filter(|k| self.has(*k))
    }
    pub fn len(&self) -> usize {
        self.0.iter().map(|x| x.count_ones() as usize).sum()
    }
}

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Place {
    Cell(usize, Vec<String>),
    Heap(Term),
}

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum V {
    Unit,
    Bool(bool),
    Int(i128),
    Str(Rc<str>),
    Ctor(Rc<str>, Rc<Vec<V>>),
    Struct(Rc<str>, Rc<BTreeMap<String, V>>),
    Tuple(Rc<Vec<V>>),
    List(Rc<Vec<V>>),
    Ref(Place),
    Closure(Rc<Clo>),
    Fn(FnId),
    CtorFn(Rc<str>),
    Sym(Term),
    // ---- domain-owned values
    Kinds(KSet),
    TSet(KSet),
    Nth(u8),
    Text(u8),
    Pos(bool),
    Res(u32),
    Tag(&'static str, u32),
}

pub struct Clo {
    pub params: Vec<&'static Pat>,
    pub body: &'static Expr,
    pub env: Rc<Vec<(Rc<str>, usize)>>,
    pub cx: Rc<Cx>,
}
impl Clo {
    fn key(&self) -> (usize, &Vec<(Rc<str>, usize)>) {
        (self.body as *const _ as usize, &self.env)
    }
}
impl PartialEq for Clo {
    fn eq(&self, o: &Self) -> bool {
        self.key() == o.key()
    }
}
impl Eq for Clo {}
impl std::hash::Hash for Clo {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.key().hash(h)
    }
}
impl PartialOrd for Clo {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Clo {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.key().cmp(&o.key())
    }
}

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum Fact {
    Bool(bool),
    Is(Rc<str>),
    Not(BTreeSet<Rc<str>>),
}

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Ev {
    pub name: Rc<str>,
    pub args: Rc<Vec<V>>,
    pub func: FnId,
    pub line: usize,
}

#[derive(Clone, PartialEq, Eq, Hash)]
pub struct St<W> {
    pub cells: Rc<Vec<V>>,
    pub env: Rc<Vec<(Rc<str>, usize)>>,
    pub facts: Rc<BTreeMap<Term, Fact>>,
    pub heap: Rc<BTreeMap<Term, V>>,
    pub events: Rc<Vec<Ev>>,
    pub w: W,
}
impl<W: Clone> St<W> {
    pub fn new(w: W) -> Self {
        St {
            cells: Rc::new(vec![]),
            env: Rc::new(vec![]),
            facts: Rc::new(BTreeMap::new()),
            heap: Rc::new(BTreeMap::new()),
            events: Rc::new(vec![]),
            w,
        }
    }
    pub fn alloc(&mut self, v: V) -> usize {
        let c = Rc::make_mut(&mut self.cells);
        c.push(v);
        c.len() - 1
    }
    pub fn bind(&mut self, name: &str, v: V) {
        let c = self.alloc(v);
        Rc::make_mut(&mut self.env).push((Rc::from(name), c));
    }
    pub fn lookup(&self, name: &str) -> Option<usize> {
        self.env.iter().rev().find(|(n, _)| &**n == name).map(|(_, c)| *c)
    }
    pub fn set_fact(&mut self, t: Term, f: Fact) {
        Rc::make_mut(&mut self.facts).insert(t, f);
    }
    pub fn event(&mut self, name: &str, args: Vec<V>, func: FnId, line: usize) {
        Rc::make_mut(&mut self.events).push(Ev { name: Rc::from(name), args: Rc::new(args), func, line });
    }
}

#[derive(Clone, PartialEq, Eq, Hash)]
pub enum Flow {
    Val(V),
    Ret(V),
    Brk(Option<String>, V),
    Cont(Option<String>),
}
pub type Out<W> = Vec<(St<W>, Flow)>;

pub struct Cx {
    pub func: FnId,
    pub module: Vec<String>,
    pub self_ty: Option<String>,
    pub stack: Vec<FnId>,
    pub ret_opt: bool,
}

pub enum PanicKind {
    Assert,
    Panic,
    Unwrap,
}

pub struct MCall<'a> {
    pub name: &'a str,
    pub recv: V,
    pub place: Option<Place>,
    pub args: Vec<V>,
    pub line: usize,
    pub expr: Option<&'static syn::ExprMethodCall>,
}

#[allow(unused_variables)]
pub trait Domain: Sized {
    type W: Clone + PartialEq + Eq + std::hash::Hash;
    /// primitive method call; `None` = not primitive
    fn method(&self, it: &Interp<Self>, cx: &Rc<Cx>, st: &St<Self::W>, c: &MCall) -> Option<Out<Self::W>> {
        None
    }
    /// primitive path call
    fn call(
        &self,
        it: &Interp<Self>,
        cx: &Rc<Cx>,
        st: &St<Self::W>,
        segs: &[String],
        f: Option<FnId>,
        args: &[V],
        line: usize,
    ) -> Option<Out<Self::W>> {
        None
    }
    /// called instead of inlining
    fn call_fn(
        &self,
        it: &Interp<Self>,
        cx: &Rc<Cx>,
        st: &St<Self::W>,
        f: FnId,
        args: &[V],
        line: usize,
    ) -> Option<Out<Self::W>> {
        None
    }
    /// the element lists a loop over an unknown collection is followed for
    fn iterate(&self, _it: &Interp<Self>, _st: &St<Self::W>, _over: &V) -> Option<Vec<(St<Self::W>, Vec<V>)>>
    where
        Self: Sized,
    {
        None
    }
    /// a `for` loop over something that is not a known list is entered
    fn for_over(&self, _it: &Interp<Self>, _cx: &Rc<Cx>, _st: &mut St<Self::W>, _over: &V, _line: usize)
    where
        Self: Sized,
    {
    }
    fn may_inline(&self, it: &Interp<Self>, f: FnId) -> bool {
        true
    }
    fn path(&self, it: &Interp<Self>, cx: &Rc<Cx>, segs: &[String]) -> Option<V> {
        None
    }
    fn mac(&self, it: &Interp<Self>, cx: &Rc<Cx>, st: &St<Self::W>, m: &'static syn::Macro) -> Option<Out<Self::W>> {
        None
    }
    fn pat_mac(&self, it: &Interp<Self>, m: &'static syn::Macro) -> Option<V> {
        None
    }
    fn eq(&self, it: &Interp<Self>, st: &St<Self::W>, a: &V, b: &V) -> Option<Vec<(St<Self::W>, bool)>> {
        None
    }
    fn binop(&self, it: &Interp<Self>, op: &str, a: &V, b: &V) -> Option<V> {
        None
    }
    fn field(&self, it: &Interp<Self>, st: &St<Self::W>, base: &V, name: &str) -> Option<V> {
        None
    }
    fn assign_field(&self, it: &Interp<Self>, st: &St<Self::W>, base: &V, name: &str, v: &V) -> Option<St<Self::W>> {
        None
    }
    fn panic(&self, it: &Interp<Self>, cx: &Rc<Cx>, st: &St<Self::W>, k: PanicKind, line: usize, msg: &str) {}
    /// join two domain states at a merge point, when only they differ
    fn join(&self, a: &Self::W, b: &Self::W) -> Option<Self::W> {
        None
    }
    /// join of two values that need not be told apart (None: keep the paths apart)
    fn join_val(&self, a: &V, b: &V) -> Option<V> {
        None
    }
    /// may joins forget facts known on one side only?
    fn join_facts(&self) -> bool {
        false
    }
    fn merge_at(&self) -> usize {
        12
    }
    fn loop_enter(&self, st: &mut St<Self::W>) {}
    fn loop_iter(&self, st: &mut St<Self::W>) {}
    fn loop_back(&self, it: &Interp<Self>, cx: &Rc<Cx>, st: &St<Self::W>, line: usize, bounded: bool) {}
    fn loop_exit(&self, st: &mut St<Self::W>) {}
    /// None = fixpoint; Some(k) = at most k iterations
    fn unroll(&self) -> Option<usize> {
        Some(2)
    }
    /// should closures passed to opaque calls be explored (0 or 1 call)?
    fn explore_closures(&self) -> bool {
        true
    }
    fn opaque(&self, it: &Interp<Self>, cx: &Rc<Cx>, st: &mut St<Self::W>, name: &str, args: &[V], line: usize) {}
    fn cap(&self) -> usize {
        20000
    }
    fn truth(&self, it: &Interp<Self>, st: &St<Self::W>, v: &V) -> Option<Vec<(St<Self::W>, bool)>> {
        None
    }
    fn max_rec(&self) -> usize {
        1
    }
    /// abstract the elements of unknown-length lists
    fn list_push_widen(&self) -> bool {
        false
    }
}

#[derive(Default)]
pub struct TermTable {
    pub nodes: Vec<(Rc<str>, Vec<V>)>,
    pub map: HashMap<(Rc<str>, Vec<V>), Term>,
}

pub struct Interp<'r, D: Domain> {
    pub repo: &'r Repo,
    pub dom: D,
    pub terms: RefCell<TermTable>,
    pub mac_exprs: RefCell<HashMap<usize, Option<&'static Vec<Expr>>>>,
    pub mac_matches: RefCell<HashMap<usize, Option<&'static (Expr, Pat, Option<Expr>)>>>,
    pub consts: RefCell<HashMap<usize, Option<V>>>,
    pub overflow: RefCell<Vec<String>>,
    pub steps: RefCell<u64>,
    pub fns_seen: RefCell<BTreeSet<FnId>>,
    pub unresolved: RefCell<BTreeSet<String>>,
    /// iteration number of the innermost unrolled loop
    pub iter_no: std::cell::Cell<u32>,
}

fn val<W>(st: St<W>, v: V) -> Out<W> {
    vec![(st, Flow::Val(v))]
}

pub fn some(v: V) -> V {
    V::Ctor(Rc::from("Some"), Rc::new(vec![v]))
}
pub fn none() -> V {
    V::Ctor(Rc::from("None"), Rc::new(vec![]))
}
pub fn ctor(n: &str, a: Vec<V>) -> V {
    V::Ctor(Rc::from(n), Rc::new(a))
}

impl<'r, D: Domain> Interp<'r, D> {
    pub fn new(repo: &'r Repo, dom: D) -> Self {
        Interp {
            repo,
            dom,
            terms: Default::default(),
            mac_exprs: Default::default(),
            mac_matches: Default::default(),
            consts: Default::default(),
            overflow: Default::default(),
            steps: Default::default(),
            fns_seen: Default::default(),
            unresolved: Default::default(),
            iter_no: Default::default(),
        }
    }
    pub fn term(&self, op: &str, args: Vec<V>) -> Term {
        let mut t = self.terms.borrow_mut();
        let key = (Rc::from(op), args);
        if let Some(i) = t.map.get(&key) {
            return *i;
        }
        let i = t.nodes.len() as Term;
        t.nodes.push(key.clone());
        t.map.insert(key, i);
        i
    }
    pub fn sym(&self, op: &str, args: Vec<V>) -> V {
        V::Sym(self.term(op, args))
    }
    pub fn node(&self, t: Term) -> (Rc<str>, Vec<V>) {
        self.terms.borrow().nodes[t as usize].clone()
    }
    pub fn show(&self, v: &V) -> String {
        self.show_d(v, 0)
    }
    fn show_d(&self, v: &V, d: usize) -> String {
        if d > 8 {
            return "..".into();
        }
        let list = |a: &Vec<V>| a.iter().map(|x| self.show_d(x, d + 1)).collect::<Vec<_>>().join(", ");
        match v {
            V::Unit => "()".into(),
            V::Bool(b) => b.to_string(),
            V::Int(i) => i.to_string(),
            V::Str(s) => format!("{s:?}"),
            V::Ctor(n, a) if a.is_empty() => n.to_string(),
            V::Ctor(n, a) => format!("{n}({})", list(a)),
            V::Struct(n, m) => format!(
                "{n}{{{}}}",
                m.iter().map(|(k, x)| format!("{k}: {}", self.show_d(x, d + 1))).collect::<Vec<_>>().join(", ")
            ),
            V::Tuple(a) => format!("({})", list(a)),
            V::List(a) => format!("[{}]", list(a)),
            V::Ref(Place::Cell(c, p)) => format!("&c{c}.{}", p.join(".")),
            V::Ref(Place::Heap(t)) => format!("&{}", self.show_d(&V::Sym(*t), d + 1)),
            V::Closure(_) => "<closure>".into(),
            V::Fn(f) => self.repo.fns[*f].short(),
            V::CtorFn(n) => n.to_string(),
            V::Sym(t) => {
                let (op, a) = self.node(*t);
                if a.is_empty() {
                    op.to_string()
                } else if let Some(f) = op.strip_prefix('.') {
                    if f.ends_with("()") {
                        format!("{}.{}({})", self.show_d(&a[0], d + 1), &f[..f.len() - 2], list(&a[1..].to_vec()))
                    } else {
                        format!("{}.{f}", self.show_d(&a[0], d + 1))
                    }
                } else {
                    format!("{op}({})", list(&a))
                }
            }
            V::Kinds(k) => format!("kinds#{}", k.len()),
            V::TSet(k) => format!("tset#{}", k.len()),
            V::Nth(n) => format!("nth({n})"),
            V::Text(n) => format!("text({n})"),
            V::Pos(b) => format!("pos({b})"),
            V::Res(n) => format!("res{n}"),
            V::Tag(s, n) => format!("{s}#{n}"),
        }
    }

    // ------------------------------------------------------------------ places
    pub fn read(&self, st: &St<D::W>, p: &Place) -> V {
        match p {
            Place::Cell(c, proj) => {
                let mut v = st.cells.get(*c).cloned().unwrap_or_else(|| self.sym("dead", vec![]));
                for f in proj {
                    v = self.field_of(st, &v, f);
                }
                v
            }
            Place::Heap(t) => match st.heap.get(t) {
                Some(v) => v.clone(),
                None => {
                    let (op, a) = self.node(*t);
                    if let (Some(f), 1) = (op.strip_prefix('.'), a.len()) {
                        if let Some(v) = self.dom.field(self, st, &a[0], f) {
                            return v;
                        }
                    }
                    V::Sym(*t)
                }
            },
        }
    }
    pub fn deref(&self, st: &St<D::W>, v: &V) -> V {
        let mut v = v.clone();
        let mut n = 0;
        while let V::Ref(p) = &v {
            v = self.read(st, p);
            n += 1;
            if n > 20 {
                break;
            }
        }
        v
    }
    pub fn field_of(&self, st: &St<D::W>, base: &V, name: &str) -> V {
        let b = self.deref(st, base);
        if let Some(v) = self.dom.field(self, st, &b, name) {
            return v;
        }
        match &b {
            V::Struct(_, m) => m.get(name).cloned().unwrap_or_else(|| self.sym(&format!(".{name}"), vec![b.clone()])),
            V::List(l) if name.starts_with('[') => {
                name[1..name.len() - 1].parse::<usize>().ok().and_then(|k| l.get(k).cloned()).unwrap_or_else(|| self.sym("dead", vec![]))
            }
            V::Tuple(a) | V::Ctor(_, a) => {
                if let Ok(i) = name.parse::<usize>() {
                    if let Some(x) = a.get(i) {
                        return x.clone();
                    }
                }
                self.sym(&format!(".{name}"), vec![b.clone()])
            }
            _ => {
                let t = self.term(&format!(".{name}"), vec![b.clone()]);
                st.heap.get(&t).cloned().unwrap_or(V::Sym(t))
            }
        }
    }
    /// what a pattern binds for a field: a reference into the place when matching through one
    fn sub_of(&self, st: &St<D::W>, v: &V, whole: &V, name: &str) -> V {
        if let (V::Ref(p @ Place::Cell(..)), V::Struct(..) | V::Tuple(..)) = (v, whole) {
            let mut p = p.clone();
            while let V::Ref(q) = self.read(st, &p) {
                p = q;
            }
            if matches!(p, Place::Cell(..)) {
                return V::Ref(self.field_place(st, &p, name));
            }
        }
        self.field_of(st, whole, name)
    }
    pub fn field_place(&self, st: &St<D::W>, base: &Place, name: &str) -> Place {
        let v = self.read(st, base);
        match v {
            V::Ref(p) => self.field_place(st, &p, name),
            V::Struct(..) | V::Tuple(..) => match base {
                Place::Cell(c, pr) => {
                    let mut pr = pr.clone();
                    pr.push(name.to_string());
                    Place::Cell(*c, pr)
                }
                Place::Heap(_) => Place::Heap(self.term(&format!(".{name}"), vec![v.clone()])),
            },
            _ => Place::Heap(self.term(&format!(".{name}"), vec![v.clone()])),
        }
    }
    pub fn write(&self, st: &mut St<D::W>, p: &Place, v: V) {
        match p {
            Place::Heap(t) => {
                Rc::make_mut(&mut st.heap).insert(*t, v);
            }
            Place::Cell(c, proj) => {
                if let Some(V::Ref(p2)) = st.cells.get(*c).cloned() {
                    if proj.is_empty() {
                        // writing through a reference binding is explicit (deref); a plain
                        // assignment rebinds
                    } else {
                        let mut q = p2.clone();
                        for f in proj {
                            q = self.field_place(st, &q, f);
                        }
                        return self.write(st, &q, v);
                    }
                }
                let cells = Rc::make_mut(&mut st.cells);
                if *c >= cells.len() {
                    return;
                }
                fn put(slot: &mut V, proj: &[String], v: V) {
                    if proj.is_empty() {
                        *slot = v;
                        return;
                    }
                    match slot {
                        V::Struct(_, m) => {
                            let m = Rc::make_mut(m);
                            if let Some(s) = m.get_mut(&proj[0]) {
                                put(s, &proj[1..], v);
                            } else {
                                m.insert(proj[0].clone(), v);
                            }
                        }
                        V::Tuple(a) | V::Ctor(_, a) => {
                            if let Ok(i) = proj[0].parse::<usize>() {
                                if let Some(s) = Rc::make_mut(a).get_mut(i) {
                                    put(s, &proj[1..], v);
                                }
                            }
                        }
                        V::List(l) if proj[0].starts_with('[') => {
                            if let Ok(i) = proj[0][1..proj[0].len() - 1].parse::<usize>() {
                                if let Some(s) = Rc::make_mut(l).get_mut(i) {
                                    put(s, &proj[1..], v);
                                }
                            }
                        }
                        _ => {}
                    }
                }
                put(&mut cells[*c], proj, v);
            }
        }
    }

    /// evaluate an expression as a place, if it is one
    fn place(&self, cx: &Rc<Cx>, e: &'static Expr, st: St<D::W>) -> Vec<(St<D::W>, Result<Place, Flow>)> {
        match e {
            Expr::Path(p) if p.path.segments.len() == 1 => {
                let n = p.path.segments[0].ident.to_string();
                if let Some(c) = st.lookup(&n) {
                    return vec![(st, Ok(Place::Cell(c, vec![])))];
                }
                self.temp(self.eval(cx, e, st))
            }
            Expr::Paren(p) => self.place(cx, &p.expr, st),
            Expr::Group(p) => self.place(cx, &p.expr, st),
            Expr::Field(f) => {
                let name = match &f.member {
                    syn::Member::Named(i) => i.to_string(),
                    syn::Member::Unnamed(i) => i.index.to_string(),
                };
                let mut out = vec![];
                for (st, r) in self.place(cx, &f.base, st) {
                    match r {
                        Ok(p) => {
                            let q = self.field_place(&st, &p, &name);
                            out.push((st, Ok(q)));
                        }
                        Err(fl) => out.push((st, Err(fl))),
                    }
                }
                out
            }
            Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) => {
                if matches!(strip(&u.expr), Expr::Call(_) | Expr::MethodCall(_)) {
                    // a returned reference: its referent, not what lives there
                    return self.temp(self.eval(cx, &u.expr, st));
                }
                let mut out = vec![];
                for (st, r) in self.place(cx, &u.expr, st) {
                    match r {
                        Ok(p) => {
                            let v = self.read(&st, &p);
                            match v {
                                V::Ref(q) => out.push((st, Ok(q))),
                                V::Sym(t) => out.push((st, Ok(Place::Heap(t)))),
                                _ => out.push((st, Ok(p))),
                            }
                        }
                        Err(fl) => out.push((st, Err(fl))),
                    }
                }
                out
            }
            Expr::Index(i) => {
                let mut out = vec![];
                for (st, r) in self.place(cx, &i.expr, st) {
                    match r {
                        Ok(p) => {
                            let base = {
                                let v = self.read(&st, &p);
                                self.deref(&st, &v)
                            };
                            for (st, fl) in self.eval(cx, &i.index, st) {
                                match fl {
                                    Flow::Val(iv) => {
                                        let iv = self.deref(&st, &iv);
                                        if let (V::List(l), V::Sym(r)) = (&base, &iv) {
                                            let (o, ra) = self.node(*r);
                                            if let Some(f) = o.strip_prefix("range:") {
                                                if ra.iter().all(|x| matches!(x, V::Int(_))) {
                                                    let n: Vec<usize> = ra.iter().map(|x| if let V::Int(k) = x { *k as usize } else { 0 }).collect();
                                                    let (lo, hi) = match &f[..2] {
                                                        "11" => (n[0], n[1]),
                                                        "10" => (n[0], l.len()),
                                                        "01" => (0, n[0]),
                                                        _ => (0, l.len()),
                                                    };
                                                    let hi = hi + (f.ends_with('1') && f.len() == 3) as usize;
                                                    if lo > hi || hi > l.len() {
                                                        self.dom.panic(self, cx, &st, PanicKind::Panic, line_of(i), "slice out of range");
                                                        continue;
                                                    }
                                                    {
                                                        let x = V::List(Rc::new(l[lo..hi].to_vec()));
                                                        let mut st2 = st.clone();
                                                        let c = st2.alloc(x);
                                                        out.push((st2, Ok(Place::Cell(c, vec![]))));
                                                        continue;
                                                    }
                                                }
                                            }
                                        }
                                        if let (V::List(l), V::Int(k)) = (&base, &iv) {
                                            if *k < 0 || *k as usize >= l.len() {
                                                self.dom.panic(self, cx, &st, PanicKind::Panic, line_of(i), "index out of range");
                                                continue;
                                            }
                                        }
                                        let v = match (&base, &iv) {
                                            (V::List(l), V::Int(k)) if (*k as usize) < l.len() => {
                                                let x = l[*k as usize].clone();
                                                let mut q = p.clone();
                                                while let V::Ref(r) = self.read(&st, &q) {
                                                    q = r;
                                                }
                                                if let Place::Cell(c, pr) = &q {
                                                    let mut pr = pr.clone();
                                                    pr.push(format!("[{k}]"));
                                                    out.push((st.clone(), Ok(Place::Cell(*c, pr))));
                                                    continue;
                                                }
                                                let mut st2 = st.clone();
                                                let c = st2.alloc(x);
                                                out.push((st2, Ok(Place::Cell(c, vec![]))));
                                                continue;
                                            }
                                            _ => self.term("[]", vec![base.clone(), iv]),
                                        };
                                        out.push((st, Ok(Place::Heap(v))));
                                    }
                                    o => out.push((st, Err(o))),
                                }
                            }
                        }
                        Err(fl) => out.push((st, Err(fl))),
                    }
                }
                out
            }
            _ => self.temp(self.eval(cx, e, st)),
        }
    }
    fn temp(&self, o: Out<D::W>) -> Vec<(St<D::W>, Result<Place, Flow>)> {
        o.into_iter()
            .map(|(mut st, f)| match f {
                Flow::Val(V::Sym(t)) => (st, Ok(Place::Heap(t))),
                Flow::Val(V::Ref(p)) => (st, Ok(p)),
                Flow::Val(v) => {
                    let c = st.alloc(v);
                    (st, Ok(Place::Cell(c, vec![])))
                }
                o => (st, Err(o)),
            })
            .collect()
    }

    // ------------------------------------------------------------------ branching
    pub fn branch(&self, st: St<D::W>, v: &V) -> Vec<(St<D::W>, bool)> {
        let v = self.deref(&st, v);
        if let Some(r) = self.dom.truth(self, &st, &v) {
            return r;
        }
        match v {
            V::Bool(b) => vec![(st, b)],
            V::Sym(t) => {
                let (op, args) = self.node(t);
                if &*op == "!" {
                    return self.branch(st, &args[0]).into_iter().map(|(s, b)| (s, !b)).collect();
                }
                match st.facts.get(&t) {
                    Some(Fact::Bool(b)) => {
                        let b = *b;
                        vec![(st, b)]
                    }
                    _ => {
                        let mut a = st.clone();
                        a.set_fact(t, Fact::Bool(true));
                        let mut b = st;
                        b.set_fact(t, Fact::Bool(false));
                        vec![(a, true), (b, false)]
                    }
                }
            }
            _ => {
                let mut a = st.clone();
                let _ = &mut a;
                vec![(a, true), (st, false)]
            }
        }
    }
    /// is `v` the variant `name`?  yields (state, Some(payload values)) or (state, None)
    pub fn variant(&self, st: St<D::W>, v: &V, name: &str, arity: usize) -> Vec<(St<D::W>, Option<Vec<V>>)> {
        let v = self.deref(&st, v);
        match &v {
            V::Ctor(n, a) => {
                if &**n == name {
                    let mut a: Vec<V> = a.to_vec();
                    while a.len() < arity {
                        a.push(self.sym(&format!("payload{}", a.len()), vec![v.clone()]));
                    }
                    vec![(st, Some(a))]
                } else {
                    vec![(st, None)]
                }
            }
            V::Struct(n, _) => {
                if &**n == name {
                    vec![(st, Some(vec![v.clone(); arity]))]
                } else {
                    vec![(st, None)]
                }
            }
            V::Sym(t) => {
                let pay: Vec<V> = (0..arity)
                    .map(|i| {
                        let t2 = self.term(&format!("{name}#{i}"), vec![v.clone()]);
                        st.heap.get(&t2).cloned().unwrap_or(V::Sym(t2))
                    })
                    .collect();
                let compl = match name {
                    "Some" => Some("None"),
                    "None" => Some("Some"),
                    "Ok" => Some("Err"),
                    "Err" => Some("Ok"),
                    _ => None,
                };
                match st.facts.get(t) {
                    Some(Fact::Is(n)) => {
                        if &**n == name {
                            vec![(st, Some(pay))]
                        } else {
                            vec![(st, None)]
                        }
                    }
                    Some(Fact::Not(s)) if s.contains(name) => vec![(st, None)],
                    f => {
                        let mut ns = match f {
                            Some(Fact::Not(s)) => s.clone(),
                            _ => BTreeSet::new(),
                        };
                        let mut a = st.clone();
                        a.set_fact(*t, Fact::Is(Rc::from(name)));
                        let mut b = st;
                        if let Some(c) = compl {
                            b.set_fact(*t, Fact::Is(Rc::from(c)));
                        } else {
                            ns.insert(Rc::from(name));
                            b.set_fact(*t, Fact::Not(ns));
                        }
                        vec![(a, Some(pay)), (b, None)]
                    }
                }
            }
            _ => vec![(st, None)],
        }
    }

    pub fn concrete(&self, v: &V) -> bool {
        match v {
            V::Unit | V::Bool(_) | V::Int(_) | V::Str(_) | V::Fn(_) => true,
            V::Ctor(_, a) | V::Tuple(a) | V::List(a) => a.iter().all(|x| self.concrete(x)),
            V::Struct(_, m) => m.values().all(|x| self.concrete(x)),
            V::Tag(..) => true,
            _ => false,
        }
    }
    pub fn eq(&self, st: St<D::W>, a: &V, b: &V) -> Vec<(St<D::W>, bool)> {
        let a = self.deref(&st, a);
        let b = self.deref(&st, b);
        if let Some(r) = self.dom.eq(self, &st, &a, &b) {
            return r;
        }
        if a == b {
            return vec![(st, true)];
        }
        if self.concrete(&a) && self.concrete(&b) {
            return vec![(st, false)];
        }
        match (&a, &b) {
            (V::Ctor(n, x), V::Ctor(m, y)) => {
                if n != m || x.len() != y.len() {
                    return vec![(st, false)];
                }
                let mut cur = vec![(st, true)];
                for i in 0..x.len() {
                    let mut nx = vec![];
                    for (s, ok) in cur {
                        if ok {
                            nx.extend(self.eq(s, &x[i], &y[i]));
                        } else {
                            nx.push((s, false));
                        }
                    }
                    cur = nx;
                }
                return cur;
            }
            (V::Sym(_), V::Bool(x)) | (V::Bool(x), V::Sym(_)) => {
                let s = if matches!(a, V::Sym(_)) { &a } else { &b };
                let x = *x;
                return self.branch(st, s).into_iter().map(|(s, r)| (s, r == x)).collect();
            }
            (V::Sym(_), V::Ctor(n, p)) | (V::Ctor(n, p), V::Sym(_)) => {
                let s = if matches!(a, V::Sym(_)) { &a } else { &b };
                let mut out = vec![];
                for (st, r) in self.variant(st, s, n, p.len()) {
                    match r {
                        None => out.push((st, false)),
                        Some(pay) => {
                            let mut cur = vec![(st, true)];
                            for i in 0..p.len() {
                                let mut nx = vec![];
                                for (s, ok) in cur {
                                    if ok {
                                        nx.extend(self.eq(s, &pay[i], &p[i]));
                                    } else {
                                        nx.push((s, false));
                                    }
                                }
                                cur = nx;
                            }
                            out.extend(cur);
                        }
                    }
                }
                return out;
            }
            _ => {}
        }
        // a value known to equal one literal differs from every other literal
        let lit = |v: &V| matches!(v, V::Str(_) | V::Tag("char", _) | V::Int(_));
        if lit(&a) != lit(&b) {
            let (l, s) = if lit(&a) { (&a, &b) } else { (&b, &a) };
            let other = st.facts.iter().any(|(t, f)| {
                *f == Fact::Bool(true) && {
                    let tt = self.terms.borrow();
                    let n = &tt.nodes[*t as usize];
                    &*n.0 == "=="
                        && ((n.1[0] == *s && lit(&n.1[1]) && n.1[1] != *l) || (n.1[1] == *s && lit(&n.1[0]) && n.1[0] != *l))
                }
            });
            if other {
                return vec![(st, false)];
            }
        }
        let (x, y) = if a <= b { (a, b) } else { (b, a) };
        let t = self.sym("==", vec![x, y]);
        self.branch(st, &t)
    }

    // ------------------------------------------------------------------ patterns
    /// On a match, bindings have been added to the environment.
    pub fn pat(&self, cx: &Rc<Cx>, p: &'static Pat, v: &V, st: St<D::W>) -> Vec<(St<D::W>, bool)> {
        match p {
            Pat::Wild(_) | Pat::Rest(_) => vec![(st, true)],
            Pat::Ident(i) => {
                let n = i.ident.to_string();
                if i.subpat.is_none() && i.by_ref.is_none() && i.mutability.is_none() {
                    let up = n.chars().next().is_some_and(|c| c.is_uppercase());
                    if up {
                        if let Some(k) = self.path_value(cx, &[n.clone()], &st) {
                            return self.match_const(st, v, &k);
                        }
                        return self.match_const(st, v, &ctor(&n, vec![]));
                    }
                }
                let mut out = vec![];
                let sub = match &i.subpat {
                    Some((_, sp)) => self.pat(cx, sp, v, st),
                    None => vec![(st, true)],
                };
                for (mut st, ok) in sub {
                    if ok {
                        st.bind(&n, v.clone());
                    }
                    out.push((st, ok));
                }
                out
            }
            Pat::Paren(q) => self.pat(cx, &q.pat, v, st),
            Pat::Reference(q) => self.pat(cx, &q.pat, v, st),
            Pat::Type(q) => self.pat(cx, &q.pat, v, st),
            Pat::Or(o) => {
                let mut out = vec![];
                let mut pending = vec![st];
                for c in &o.cases {
                    let mut nx = vec![];
                    for s in pending {
                        for (s, ok) in self.pat(cx, c, v, s) {
                            if ok {
                                out.push((s, true));
                            } else {
                                nx.push(s);
                            }
                        }
                    }
                    pending = nx;
                }
                out.extend(pending.into_iter().map(|s| (s, false)));
                out
            }
            Pat::Path(q) => {
                let segs: Vec<String> = q.path.segments.iter().map(|s| s.ident.to_string()).collect();
                let k = self.path_value(cx, &segs, &st).unwrap_or_else(|| ctor(segs.last().unwrap(), vec![]));
                self.match_const(st, v, &k)
            }
            Pat::Lit(l) => {
                let k = lit_value(&l.lit);
                match k {
                    Some(k) => self.match_const(st, v, &k),
                    None => vec![(st.clone(), true), (st, false)],
                }
            }
            Pat::Range(r) => {
                // decided for known characters and integers
                let num = |v: &V| match v {
                    V::Int(i) => Some(*i),
                    V::Tag("char", c) => Some(*c as i128),
                    _ => None,
                };
                let bound = |e: &Option<Box<Expr>>| -> Option<Option<i128>> {
                    match e {
                        None => Some(None),
                        Some(e) => match &**e {
                            Expr::Lit(l) => lit_value(&l.lit).and_then(|v| num(&v)).map(Some),
                            _ => None,
                        },
                    }
                };
                if let (Some(x), Some(lo), Some(hi)) = (num(&self.deref(&st, v)), bound(&r.start), bound(&r.end)) {
                    let closed = matches!(r.limits, syn::RangeLimits::Closed(_));
                    let ok = lo.is_none_or(|l| l <= x) && hi.is_none_or(|h| if closed { x <= h } else { x < h });
                    return vec![(st, ok)];
                }
                let t = self.sym(&format!("in-range:{}", quote::quote!(#p)), vec![v.clone()]);
                self.branch(st, &t)
            }
            Pat::TupleStruct(t) => {
                let name = t.path.segments.last().unwrap().ident.to_string();
                let rest = t.elems.iter().position(|e| matches!(e, Pat::Rest(_)));
                let mut out = vec![];
                for (st, r) in self.variant(st, v, &name, t.elems.len()) {
                    match r {
                        None => out.push((st, false)),
                        Some(pay) => {
                            let idx: Vec<(usize, &'static Pat)> = t
                                .elems
                                .iter()
                                .enumerate()
                                .filter(|(_, e)| !matches!(e, Pat::Rest(_)))
                                .map(|(i, e)| match rest {
                                    Some(r) if i > r => (pay.len() - (t.elems.len() - i), e),
                                    _ => (i, e),
                                })
                                .collect();
                            out.extend(self.pats(cx, st, idx.into_iter().map(|(i, e)| (e, pay[i].clone())).collect()));
                        }
                    }
                }
                out
            }
            Pat::Struct(s) => {
                let name = s.path.segments.last().unwrap().ident.to_string();
                let n_seg = s.path.segments.len();
                // `module::Struct { .. }` is a struct, `Enum::Variant { .. }` is not
                let is_variant = n_seg > 1
                    && s.path.segments[n_seg - 2].ident.to_string().chars().next().is_some_and(|c| c.is_uppercase());
                let vv = self.deref(&st, v);
                let cases = match &vv {
                    V::Struct(n, _) if **n != *name && is_variant => vec![(st, false)],
                    V::Ctor(n, _) if **n != *name => vec![(st, false)],
                    V::Sym(_) if is_variant => self
                        .variant(st, &vv, &name, 0)
                        .into_iter()
                        .map(|(s, r)| (s, r.is_some()))
                        .collect(),
                    _ => vec![(st, true)],
                };
                let mut out = vec![];
                for (st, ok) in cases {
                    if !ok {
                        out.push((st, false));
                        continue;
                    }
                    let subs = s
                        .fields
                        .iter()
                        .map(|f| {
                            let n = match &f.member {
                                syn::Member::Named(i) => i.to_string(),
                                syn::Member::Unnamed(i) => i.index.to_string(),
                            };
                            (&*f.pat as &'static Pat, self.sub_of(&st, v, &vv, &n))
                        })
                        .collect();
                    out.extend(self.pats(cx, st, subs));
                }
                out
            }
            Pat::Tuple(t) => {
                let vv = self.deref(&st, v);
                let subs = t
                    .elems
                    .iter()
                    .enumerate()
                    .filter(|(_, e)| !matches!(e, Pat::Rest(_)))
                    .map(|(i, e)| (e as &'static Pat, self.sub_of(&st, v, &vv, &i.to_string())))
                    .collect();
                self.pats(cx, st, subs)
            }
            Pat::Slice(sl) => {
                let vv = self.deref(&st, v);
                match &vv {
                    V::List(l) if !sl.elems.iter().any(|e| matches!(e, Pat::Rest(_)) || matches!(e, Pat::Ident(i) if i.subpat.is_some())) => {
                        if l.len() != sl.elems.len() {
                            return vec![(st, false)];
                        }
                        let subs = sl.elems.iter().zip(l.iter().cloned()).map(|(e, x)| (e as &'static Pat, x)).collect();
                        self.pats(cx, st, subs)
                    }
                    _ => {
                        // what the pattern says about the length, then its elements by position
                        let is_rest = |e: &Pat| matches!(e, Pat::Rest(_)) || matches!(e, Pat::Ident(i) if i.subpat.is_some());
                        let fixed = sl.elems.iter().filter(|e| !is_rest(e)).count();
                        let rest = sl.elems.iter().position(is_rest);
                        let n = self.sym(".len()", vec![vv.clone()]);
                        let k = V::Int(fixed as i128);
                        let t = match rest {
                            None => self.sym("==", vec![k, n.clone()]),
                            Some(_) if fixed == 0 => V::Bool(true),
                            Some(_) => self.sym("<=", vec![k, n.clone()]),
                        };
                        let mut out = vec![];
                        for (s, ok) in self.branch(st, &t) {
                            if ok {
                                let len = sl.elems.len();
                                let subs = sl
                                    .elems
                                    .iter()
                                    .enumerate()
                                    .filter(|(_, e)| !matches!(e, Pat::Rest(_)))
                                    .map(|(i, e)| {
                                        let x = if Some(i) == rest {
                                            self.sym(&format!("slice:{i}:{}", len - 1 - i), vec![vv.clone()])
                                        } else if rest.is_some_and(|r| i > r) {
                                            self.sym(&format!("slice-end#{}", len - i), vec![vv.clone()])
                                        } else {
                                            self.sym("[]", vec![vv.clone(), V::Int(i as i128)])
                                        };
                                        (e as &'static Pat, x)
                                    })
                                    .collect();
                                out.extend(self.pats(cx, s, subs));
                            } else {
                                out.push((s, false));
                            }
                        }
                        out
                    }
                }
            }
            Pat::Macro(m) => {
                if let Some(k) = self.dom.pat_mac(self, &m.mac) {
                    return self.match_const(st, v, &k);
                }
                let t = self.sym(&format!("mac-pat:{}", quote::quote!(#p)), vec![v.clone()]);
                self.branch(st, &t)
            }
            _ => vec![(st.clone(), true), (st, false)],
        }
    }
    fn pats(&self, cx: &Rc<Cx>, st: St<D::W>, subs: Vec<(&'static Pat, V)>) -> Vec<(St<D::W>, bool)> {
        let mut cur = vec![(st, true)];
        for (p, v) in subs {
            let mut nx = vec![];
            for (s, ok) in cur {
                if ok {
                    nx.extend(self.pat(cx, p, &v, s));
                } else {
                    nx.push((s, false));
                }
            }
            cur = nx;
        }
        cur
    }
    fn match_const(&self, st: St<D::W>, v: &V, k: &V) -> Vec<(St<D::W>, bool)> {
        self.eq(st, v, k)
    }

    // ------------------------------------------------------------------ paths
    fn path_value(&self, cx: &Rc<Cx>, segs: &[String], _st: &St<D::W>) -> Option<V> {
        if let Some(v) = self.dom.path(self, cx, segs) {
            return Some(v);
        }
        let last = segs.last().unwrap();
        let up = last.chars().next().is_some_and(|c| c.is_uppercase());
        if up && last.chars().all(|c| c.is_uppercase() || c == '_' || c.is_ascii_digit()) && last.len() > 1 {
            if let Some(c) = self.repo.resolve_const(&cx.module, cx.self_ty.as_deref(), segs) {
                let key = c.expr as *const _ as usize;
                if let Some(v) = self.consts.borrow().get(&key) {
                    return v.clone();
                }
                self.consts.borrow_mut().insert(key, None);
                let ncx = Rc::new(Cx {
                    func: cx.func,
                    module: c.module.clone(),
                    self_ty: c.self_ty.clone(),
                    stack: cx.stack.clone(),
                    ret_opt: false,
                });
                // constants are evaluated in a throw-away copy of the current state
                let st = St { env: Rc::new(vec![]), ..(*_st).clone() };
                let outs = self.eval(&ncx, c.expr, st);
                let v = match outs.as_slice() {
                    [(s, Flow::Val(v))] => Some(self.deref(s, v)),
                    _ => None,
                };
                let v = v.or_else(|| Some(self.sym(&format!("const {}", last), vec![])));
                self.consts.borrow_mut().insert(key, v.clone());
                return v;
            }
        }
        None
    }

    fn eval_path(&self, cx: &Rc<Cx>, e: &'static syn::ExprPath, st: St<D::W>) -> Out<D::W> {
        let segs: Vec<String> = e.path.segments.iter().map(|s| s.ident.to_string()).collect();
        if segs.len() == 1 {
            if let Some(c) = st.lookup(&segs[0]) {
                let v = st.cells[c].clone();
                return val(st, v);
            }
        }
        if let Some(v) = self.path_value(cx, &segs, &st) {
            return val(st, v);
        }
        if let Some(f) = self.repo.resolve_fn(&cx.module, cx.self_ty.as_deref(), &segs) {
            return val(st, V::Fn(f));
        }
        let last = segs.last().unwrap();
        let is_const_param = segs.len() == 1 && self.repo.fns[cx.func].sig.generics.const_params().any(|c| c.ident == last);
        if last.chars().next().is_some_and(|c| c.is_uppercase()) && !is_const_param {
            return val(st, ctor(last, vec![]));
        }
        let v = self.sym(&segs.join("::"), vec![]);
        val(st, v)
    }

    // ------------------------------------------------------------------ expressions
    fn seq(&self, o: Out<D::W>, mut f: impl FnMut(St<D::W>, V) -> Out<D::W>) -> Out<D::W> {
        let mut out = vec![];
        for (st, fl) in o {
            match fl {
                Flow::Val(v) => out.extend(f(st, v)),
                other => out.push((st, other)),
            }
        }
        self.dedup(out)
    }
    fn dedup(&self, o: Out<D::W>) -> Out<D::W> {
        if o.len() > self.dom.cap() {
            self.overflow.borrow_mut().push(format!("path cap exceeded ({} states)", o.len()));
            let mut o = o;
            o.truncate(self.dom.cap() / 4);
            return o;
        }
        o
    }
    fn eval_args(
        &self,
        cx: &Rc<Cx>,
        args: impl Iterator<Item = &'static Expr>,
        st: St<D::W>,
    ) -> Vec<(St<D::W>, Result<Vec<V>, Flow>)> {
        let mut cur: Vec<(St<D::W>, Result<Vec<V>, Flow>)> = vec![(st, Ok(vec![]))];
        for a in args {
            let mut nx = vec![];
            for (st, r) in cur {
                match r {
                    Ok(vs) => {
                        for (st, fl) in self.eval(cx, a, st) {
                            match fl {
                                Flow::Val(v) => {
                                    let mut vs = vs.clone();
                                    vs.push(v);
                                    nx.push((st, Ok(vs)));
                                }
                                o => nx.push((st, Err(o))),
                            }
                        }
                    }
                    Err(f) => nx.push((st, Err(f))),
                }
            }
            cur = nx;
        }
        cur
    }

    pub fn eval(&self, cx: &Rc<Cx>, e: &'static Expr, st: St<D::W>) -> Out<D::W> {
        *self.steps.borrow_mut() += 1;
        match e {
            Expr::Lit(l) => {
                let v = lit_value(&l.lit).unwrap_or_else(|| self.sym(&quote::quote!(#l).to_string(), vec![]));
                val(st, v)
            }
            Expr::Path(p) => self.eval_path(cx, p, st),
            Expr::Paren(p) => self.eval(cx, &p.expr, st),
            Expr::Group(p) => self.eval(cx, &p.expr, st),
            Expr::Block(b) => {
                let o = self.block(cx, &b.block, st);
                match &b.label {
                    Some(l) => {
                        let n = l.name.ident.to_string();
                        o.into_iter()
                            .map(|(s, f)| match f {
                                Flow::Brk(Some(x), v) if x == n => (s, Flow::Val(v)),
                                f => (s, f),
                            })
                            .collect()
                    }
                    None => o,
                }
            }
            Expr::Unsafe(b) => self.block(cx, &b.block, st),
            Expr::Const(b) => self.block(cx, &b.block, st),
            Expr::Tuple(t) => {
                let outs = self.eval_args(cx, t.elems.iter(), st);
                outs.into_iter()
                    .map(|(s, r)| match r {
                        Ok(v) if v.is_empty() => (s, Flow::Val(V::Unit)),
                        Ok(v) => (s, Flow::Val(V::Tuple(Rc::new(v)))),
                        Err(f) => (s, f),
                    })
                    .collect()
            }
            Expr::Array(t) => {
                let outs = self.eval_args(cx, t.elems.iter(), st);
                outs.into_iter()
                    .map(|(s, r)| match r {
                        Ok(v) => (s, Flow::Val(V::List(Rc::new(v)))),
                        Err(f) => (s, f),
                    })
                    .collect()
            }
            Expr::Repeat(r) => self.seq(self.eval(cx, &r.expr, st), |s, v| {
                let x = self.sym("repeat", vec![v]);
                val(s, x)
            }),
            Expr::Reference(r) => {
                // `&mut x` / `&x` of a place is a reference to it; of a value is the value
                let idx = matches!(strip(&r.expr), Expr::Index(i) if !matches!(strip(&i.index), Expr::Range(_)));
                let is_place = (idx || matches!(strip(&r.expr), Expr::Path(_) | Expr::Field(_) | Expr::Unary(_)))
                    && !matches!(strip(&r.expr), Expr::Unary(u) if !matches!(u.op, syn::UnOp::Deref(_)));
                if r.mutability.is_some() && is_place {
                    return self
                        .place(cx, strip(&r.expr), st)
                        .into_iter()
                        .map(|(s, p)| match p {
                            Ok(Place::Heap(t)) if !s.heap.contains_key(&t) => (s, Flow::Val(V::Ref(Place::Heap(t)))),
                            Ok(p) => (s, Flow::Val(V::Ref(p))),
                            Err(f) => (s, f),
                        })
                        .collect();
                }
                self.eval(cx, &r.expr, st)
            }
            Expr::Unary(u) => self.seq(self.eval(cx, &u.expr, st), |s, v| match u.op {
                syn::UnOp::Not(_) => {
                    let v = self.deref(&s, &v);
                    let r = match v {
                        V::Bool(b) => V::Bool(!b),
                        V::Sym(t) => {
                            let (op, a) = self.node(t);
                            if &*op == "!" { a[0].clone() } else { self.sym("!", vec![V::Sym(t)]) }
                        }
                        v => self.sym("!", vec![v]),
                    };
                    val(s, r)
                }
                syn::UnOp::Neg(_) => {
                    let v = self.deref(&s, &v);
                    let r = match v {
                        V::Int(i) => V::Int(-i),
                        v => self.sym("neg", vec![v]),
                    };
                    val(s, r)
                }
                _ => {
                    let v = self.deref(&s, &v);
                    val(s, v)
                }
            }),
            Expr::Cast(c) => self.seq(self.eval(cx, &c.expr, st), |s, v| {
                let v = self.deref(&s, &v);
                val(s, v)
            }),
            Expr::Field(f) => {
                let name = match &f.member {
                    syn::Member::Named(i) => i.to_string(),
                    syn::Member::Unnamed(i) => i.index.to_string(),
                };
                self.seq(self.eval(cx, &f.base, st), |s, v| {
                    let r = self.field_of(&s, &v, &name);
                    val(s, r)
                })
            }
            Expr::Index(_) => self
                .place(cx, e, st)
                .into_iter()
                .map(|(s, r)| match r {
                    Ok(p) => {
                        let v = self.read(&s, &p);
                        (s, Flow::Val(v))
                    }
                    Err(f) => (s, f),
                })
                .collect(),
            Expr::Binary(b) => self.binary(cx, b, st),
            Expr::Let(l) => {
                // `let` in a condition: value is whether it matched; bindings stay in env
                self.seq(self.eval(cx, &l.expr, st), |s, v| {
                    self.pat(cx, &l.pat, &v, s)
                        .into_iter()
                        .map(|(s, ok)| (s, Flow::Val(V::Bool(ok))))
                        .collect()
                })
            }
            Expr::If(i) => {
                let env0 = st.env.clone();
                let ncells = st.cells.len();
                let o = self.seq(self.eval(cx, &i.cond, st), |s, c| {
                    let mut out = vec![];
                    for (mut s, b) in self.branch(s, &c) {
                        if b {
                            out.extend(self.block(cx, &i.then_branch, s));
                        } else {
                            s.env = env0.clone();
                            match &i.else_branch {
                                Some((_, e)) => out.extend(self.eval(cx, e, s)),
                                None => out.push((s, Flow::Val(V::Unit))),
                            }
                        }
                    }
                    out
                });
                self.close_scope(o, env0, ncells)
            }
            Expr::Match(m) => self.eval_match(cx, m, st),
            Expr::While(w) => {
                let label = w.label.as_ref().map(|l| l.name.ident.to_string());
                let line = line_of(w);
                self.run_loop(cx, st, label, line, false, &|it, s| {
                    let env0 = s.env.clone();
                    let n = s.cells.len();
                    let o = it.seq(it.eval(cx, &w.cond, s), |s, c| {
                        let mut out = vec![];
                        for (mut s, b) in it.branch(s, &c) {
                            if b {
                                out.extend(it.block(cx, &w.body, s));
                            } else {
                                s.env = env0.clone();
                                out.push((s, Flow::Brk(None, V::Unit)));
                            }
                        }
                        out
                    });
                    it.close_scope(o, env0, n)
                })
            }
            Expr::Loop(l) => {
                let label = l.label.as_ref().map(|l| l.name.ident.to_string());
                let line = line_of(l);
                self.run_loop(cx, st, label, line, false, &|it, s| it.block(cx, &l.body, s))
            }
            Expr::ForLoop(f) => {
                let label = f.label.as_ref().map(|l| l.name.ident.to_string());
                let line = line_of(f);
                self.seq(self.eval(cx, &f.expr, st), |s, itv| {
                    let itv = self.deref(&s, &itv);
                    if let V::List(l) = &itv {
                        if l.len() <= 8 {
                            return self.for_known(cx, f, &label, s, l.to_vec());
                        }
                    }
                    if let V::Sym(t) = &itv {
                        let (o, a) = self.node(*t);
                        if let (Some(fl), [V::Int(lo), V::Int(hi)]) = (o.strip_prefix("range:11"), &a[..]) {
                            let hi = hi + (fl == "1") as i128;
                            if hi - lo <= 8 {
                                return self.for_known(cx, f, &label, s, (*lo..hi.max(*lo)).map(V::Int).collect());
                            }
                        }
                    }
                    let mut s = s;
                    if matches!(itv, V::Sym(_)) {
                        if let Some(ls) = self.dom.iterate(self, &s, &itv) {
                            let mut out = vec![];
                            for (mut s, l) in ls {
                                self.dom.for_over(self, cx, &mut s, &itv, line);
                                out.extend(self.for_known(cx, f, &label, s, l));
                            }
                            return out;
                        }
                    }
                    self.dom.for_over(self, cx, &mut s, &itv, line);
                    let elem = self.sym("elem", vec![itv.clone(), V::Int(line as i128)]);
                    let unroll = self.dom.unroll();
                    self.run_loop(cx, s, label.clone(), line, true, &|it, s| {
                        let n_iter = it.iter_no.get();
                        let env0 = s.env.clone();
                        let n = s.cells.len();
                        let mut out = vec![];
                        // exhausted
                        out.push((s.clone(), Flow::Brk(None, V::Unit)));
                        let ev = if unroll.is_some() {
                            it.sym("elem", vec![itv.clone(), V::Int(line as i128), V::Int(n_iter as i128)])
                        } else {
                            elem.clone()
                        };
                        for (s, ok) in it.pat(cx, &f.pat, &ev, s) {
                            if ok {
                                out.extend(it.block(cx, &f.body, s));
                            }
                        }
                        it.close_scope(out, env0, n)
                    })
                })
            }
            Expr::Return(r) => match &r.expr {
                Some(e) => self.seq(self.eval(cx, e, st), |s, v| vec![(s, Flow::Ret(v))]),
                None => vec![(st, Flow::Ret(V::Unit))],
            },
            Expr::Break(b) => {
                let l = b.label.as_ref().map(|l| l.ident.to_string());
                match &b.expr {
                    Some(e) => self.seq(self.eval(cx, e, st), |s, v| vec![(s, Flow::Brk(l.clone(), v))]),
                    None => vec![(st, Flow::Brk(l, V::Unit))],
                }
            }
            Expr::Continue(c) => vec![(st, Flow::Cont(c.label.as_ref().map(|l| l.ident.to_string())))],
            Expr::Assign(a) => self.seq(self.eval(cx, &a.right, st), |s, v| {
                if let Expr::Infer(_) = &*a.left {
                    return val(s, V::Unit);
                }
                // domain-owned fields
                if let Expr::Field(f) = strip(&a.left) {
                    let name = match &f.member {
                        syn::Member::Named(i) => i.to_string(),
                        syn::Member::Unnamed(i) => i.index.to_string(),
                    };
                    let mut out = vec![];
                    let mut all = true;
                    for (s, fl) in self.eval(cx, &f.base, s.clone()) {
                        match fl {
                            Flow::Val(b) => {
                                let b = self.deref(&s, &b);
                                if let Some(s2) = self.dom.assign_field(self, &s, &b, &name, &v) {
                                    out.push((s2, Flow::Val(V::Unit)));
                                } else {
                                    all = false;
                                }
                            }
                            o => out.push((s, o)),
                        }
                    }
                    if all {
                        return out;
                    }
                }
                if let Expr::Tuple(t) = strip(&a.left) {
                    let mut s = s;
                    for (i, el) in t.elems.iter().enumerate() {
                        let x = self.field_of(&s, &v, &i.to_string());
                        let ps = self.place(cx, el, s.clone());
                        if let Some((s2, Ok(p))) = ps.into_iter().next() {
                            s = s2;
                            self.write(&mut s, &p, x);
                        }
                    }
                    return val(s, V::Unit);
                }
                self.place(cx, strip(&a.left), s)
                    .into_iter()
                    .map(|(mut s, p)| match p {
                        Ok(p) => {
                            self.write(&mut s, &p, v.clone());
                            (s, Flow::Val(V::Unit))
                        }
                        Err(f) => (s, f),
                    })
                    .collect()
            }),
            Expr::Closure(c) => {
                let clo = Clo {
                    params: c.inputs.iter().collect(),
                    body: &c.body,
                    env: st.env.clone(),
                    cx: cx.clone(),
                };
                val(st, V::Closure(Rc::new(clo)))
            }
            Expr::Call(c) => self.eval_call(cx, c, st),
            Expr::MethodCall(m) => self.eval_method(cx, m, st),
            Expr::Try(t) => self.seq(self.eval(cx, &t.expr, st), |s, v| self.try_op(cx, s, v)),
            Expr::Struct(s) => {
                let name = s.path.segments.last().unwrap().ident.to_string();
                let name = if name == "Self" { cx.self_ty.clone().unwrap_or(name) } else { name };
                let outs = self.eval_args(cx, s.fields.iter().map(|f| &f.expr), st);
                let mut res = vec![];
                for (st, r) in outs {
                    match r {
                        Ok(vs) => {
                            let mut m = BTreeMap::new();
                            for (f, v) in s.fields.iter().zip(vs) {
                                let n = match &f.member {
                                    syn::Member::Named(i) => i.to_string(),
                                    syn::Member::Unnamed(i) => i.index.to_string(),
                                };
                                m.insert(n, v);
                            }
                            match &s.rest {
                                Some(rest) => {
                                    for (st, fl) in self.eval(cx, rest, st) {
                                        match fl {
                                            Flow::Val(b) => {
                                                let b = self.deref(&st, &b);
                                                let mut mm = m.clone();
                                                if let V::Struct(_, bm) = &b {
                                                    for (k, v) in bm.iter() {
                                                        mm.entry(k.clone()).or_insert(v.clone());
                                                    }
                                                } else {
                                                    mm.insert("..".into(), b);
                                                }
                                                res.push((st, Flow::Val(V::Struct(Rc::from(&*name), Rc::new(mm)))));
                                            }
                                            o => res.push((st, o)),
                                        }
                                    }
                                }
                                None => res.push((st, Flow::Val(V::Struct(Rc::from(&*name), Rc::new(m))))),
                            }
                        }
                        Err(f) => res.push((st, f)),
                    }
                }
                res
            }
            Expr::Range(r) => {
                let mut parts = vec![];
                if let Some(a) = &r.start {
                    parts.push(&**a);
                }
                if let Some(b) = &r.end {
                    parts.push(&**b);
                }
                let both = (r.start.is_some(), r.end.is_some());
                let incl = matches!(r.limits, syn::RangeLimits::Closed(_));
                self.eval_args(cx, parts.into_iter(), st)
                    .into_iter()
                    .map(|(s, r)| match r {
                        Ok(v) => {
                            let v: Vec<V> = v.iter().map(|x| self.deref(&s, x)).collect();
                            let x = self.sym(
                                &format!("range:{}{}{}", both.0 as u8, both.1 as u8, incl as u8),
                                v,
                            );
                            (s, Flow::Val(x))
                        }
                        Err(f) => (s, f),
                    })
                    .collect()
            }
            Expr::Macro(m) => self.eval_macro(cx, &m.mac, st, line_of(m)),
            Expr::Async(_) | Expr::Await(_) | Expr::Yield(_) | Expr::TryBlock(_) => {
                let v = self.sym("async", vec![]);
                val(st, v)
            }
            _ => {
                let v = self.sym(&quote::quote!(#e).to_string(), vec![]);
                val(st, v)
            }
        }
    }

    fn for_known(
        &self,
        cx: &Rc<Cx>,
        f: &'static syn::ExprForLoop,
        label: &Option<String>,
        st: St<D::W>,
        items: Vec<V>,
    ) -> Out<D::W> {
        let mut live = vec![st];
        let mut out = vec![];
        for x in items {
            let mut nx = vec![];
            for s in live {
                let env0 = s.env.clone();
                let n = s.cells.len();
                let mut o = vec![];
                for (s, ok) in self.pat(cx, &f.pat, &x, s) {
                    if ok {
                        o.extend(self.block(cx, &f.body, s));
                    }
                }
                for (s, fl) in self.close_scope(o, env0, n) {
                    match fl {
                        Flow::Val(_) => nx.push(s),
                        Flow::Cont(None) => nx.push(s),
                        Flow::Cont(Some(ref l)) if Some(l) == label.as_ref() => nx.push(s),
                        Flow::Brk(None, v) => out.push((s, Flow::Val(v))),
                        Flow::Brk(Some(ref l), ref v) if Some(l) == label.as_ref() => {
                            let v = v.clone();
                            out.push((s, Flow::Val(v)))
                        }
                        o => out.push((s, o)),
                    }
                }
            }
            live = nx;
        }
        out.extend(live.into_iter().map(|s| (s, Flow::Val(V::Unit))));
        out
    }

    pub fn try_op(&self, cx: &Rc<Cx>, s: St<D::W>, v: V) -> Out<D::W> {
        let v = self.deref(&s, &v);
        match &v {
            V::Ctor(n, a) => match &**n {
                "Some" | "Ok" => {
                    let x = a.first().cloned().unwrap_or(V::Unit);
                    val(s, x)
                }
                "None" => vec![(s, Flow::Ret(none()))],
                "Err" => vec![(s, Flow::Ret(v.clone()))],
                _ => val(s, v.clone()),
            },
            V::Sym(_) => {
                let (good, bad) = if cx.ret_opt { ("Some", "None") } else { ("Ok", "Err") };
                let mut out = vec![];
                for (s, r) in self.variant(s, &v, good, 1) {
                    match r {
                        Some(p) => out.push((s, Flow::Val(p[0].clone()))),
                        None => {
                            let rv = if bad == "None" {
                                none()
                            } else {
                                ctor("Err", vec![self.sym("Err#0", vec![v.clone()])])
                            };
                            out.push((s, Flow::Ret(rv)));
                        }
                    }
                }
                out
            }
            _ => {
                let x = self.sym("try", vec![v.clone()]);
                val(s, x)
            }
        }
    }

    fn close_scope(&self, o: Out<D::W>, env: Rc<Vec<(Rc<str>, usize)>>, ncells: usize) -> Out<D::W> {
        let o: Out<D::W> = o.into_iter()
            .map(|(mut s, f)| {
                s.env = env.clone();
                let v = match &f {
                    Flow::Val(v) | Flow::Ret(v) | Flow::Brk(_, v) => Some(v),
                    _ => None,
                };
                let esc = v.is_some_and(|v| escapes(v, ncells))
                    || s.heap.values().any(|v| escapes(v, ncells))
                    || s.cells.iter().take(ncells).any(|v| escapes(v, ncells));
                if !esc && s.cells.len() > ncells {
                    Rc::make_mut(&mut s.cells).truncate(ncells);
                }
                (s, f)
            })
            .collect();
        self.merge_out(o, self.dom.merge_at())
    }

    pub fn block(&self, cx: &Rc<Cx>, b: &'static syn::Block, st: St<D::W>) -> Out<D::W> {
        let env0 = st.env.clone();
        let n = st.cells.len();
        let mut live: Vec<St<D::W>> = vec![st];
        let mut out: Out<D::W> = vec![];
        let len = b.stmts.len();
        let mut last_vals: Option<Out<D::W>> = None;
        for (i, s) in b.stmts.iter().enumerate() {
            let is_last = i + 1 == len;
            let mut nx: Vec<St<D::W>> = vec![];
            let mut tail: Out<D::W> = vec![];
            for st in live {
                let o = match s {
                    Stmt::Local(l) => {
                        if crate::repo::is_cfg_test(&l.attrs) {
                            val(st, V::Unit)
                        } else {
                            self.local(cx, l, st)
                        }
                    }
                    Stmt::Item(_) => val(st, V::Unit),
                    Stmt::Expr(e, _) if expr_debug_only(e) => val(st, V::Unit),
                    Stmt::Expr(e, semi) => {
                        let o = self.eval(cx, e, st);
                        if semi.is_none() && is_last {
                            for (s, f) in o {
                                tail.push((s, f));
                            }
                            continue;
                        }
                        o
                    }
                    Stmt::Macro(m) => {
                        if m.attrs.iter().any(|a| {
                            a.path().is_ident("cfg") && quote::quote!(#a).to_string().contains("debug_assertions")
                        }) {
                            val(st, V::Unit)
                        } else {
                            let o = self.eval_macro(cx, &m.mac, st, line_of(m));
                            if m.semi_token.is_none() && is_last {
                                for (s, f) in o {
                                    tail.push((s, f));
                                }
                                continue;
                            }
                            o
                        }
                    }
                };
                for (s, f) in o {
                    match f {
                        Flow::Val(_) => nx.push(s),
                        o => out.push((s, o)),
                    }
                }
            }
            if !tail.is_empty() {
                last_vals = Some(tail);
            }
            live = self.merge_states(nx);
            if live.len() > self.dom.cap() {
                self.overflow.borrow_mut().push(format!(
                    "{}: more than {} paths",
                    self.repo.fns.get(cx.func).map(|f| f.qual()).unwrap_or_default(),
                    self.dom.cap()
                ));
                live.truncate(self.dom.cap() / 4);
            }
            if live.is_empty() && last_vals.is_none() {
                break;
            }
        }
        if let Some(t) = last_vals {
            out.extend(t);
        } else {
            out.extend(live.into_iter().map(|s| (s, Flow::Val(V::Unit))));
        }
        self.close_scope(out, env0, n)
    }

    /// drop duplicates; join states that differ only in the joinable domain part
    pub fn merge_states(&self, v: Vec<St<D::W>>) -> Vec<St<D::W>> {
        if v.len() < 2 {
            return v;
        }
        let lim = self.dom.merge_at();
        let o = self.merge_out(v.into_iter().map(|s| (s, Flow::Val(V::Unit))).collect(), lim);
        o.into_iter().map(|(s, _)| s).collect()
    }
    pub fn try_join(&self, a: &St<D::W>, b: &St<D::W>) -> Option<St<D::W>> {
        if a.env != b.env || (a.facts != b.facts && !self.dom.join_facts()) || a.heap != b.heap || a.events != b.events || a.cells.len() != b.cells.len()
        {
            return None;
        }
        let mut cells: Option<Vec<V>> = None;
        if !Rc::ptr_eq(&a.cells, &b.cells) {
            for i in 0..a.cells.len() {
                if a.cells[i] != b.cells[i] {
                    let j = self.dom.join_val(&a.cells[i], &b.cells[i])?;
                    cells.get_or_insert_with(|| a.cells.to_vec())[i] = j;
                }
            }
        }
        let w = if a.w == b.w { a.w.clone() } else { self.dom.join(&a.w, &b.w)? };
        let mut r = a.clone();
        if a.facts != b.facts {
            let f: BTreeMap<Term, Fact> =
                a.facts.iter().filter(|(k, v)| b.facts.get(k) == Some(v)).map(|(k, v)| (*k, v.clone())).collect();
            r.facts = Rc::new(f);
        }
        if let Some(c) = cells {
            r.cells = Rc::new(c);
        }
        r.w = w;
        Some(r)
    }
    /// exact duplicates are dropped; above `lim` results, states that differ only in joinable parts are joined
    pub fn merge_out(&self, o: Out<D::W>, lim: usize) -> Out<D::W> {
        if o.len() < 2 {
            return o;
        }
        let mut seen: std::collections::HashSet<(St<D::W>, Flow)> = Default::default();
        let mut out: Out<D::W> = vec![];
        for x in o {
            if seen.contains(&x) {
                continue;
            }
            seen.insert(x.clone());
            out.push(x);
        }
        if out.len() <= lim {
            return out;
        }
        let mut merged: Out<D::W> = vec![];
        'next: for (s, f) in out {
            for (m, g) in merged.iter_mut() {
                let nf = if *g == f {
                    None
                } else {
                    match (&*g, &f) {
                        (Flow::Val(a), Flow::Val(b)) => match self.dom.join_val(a, b) {
                            Some(v) => Some(Flow::Val(v)),
                            None => continue,
                        },
                        (Flow::Ret(a), Flow::Ret(b)) => match self.dom.join_val(a, b) {
                            Some(v) => Some(Flow::Ret(v)),
                            None => continue,
                        },
                        _ => continue,
                    }
                };
                if let Some(j) = self.try_join(m, &s) {
                    *m = j;
                    if let Some(nf) = nf {
                        *g = nf;
                    }
                    continue 'next;
                }
            }
            merged.push((s, f));
        }
        merged
    }

    fn local(&self, cx: &Rc<Cx>, l: &'static syn::Local, st: St<D::W>) -> Out<D::W> {
        match &l.init {
            None => {
                let mut st = st;
                let uninit = self.sym("uninit", vec![]);
                for (s, _) in self.pat(cx, &l.pat, &uninit, st.clone()).into_iter().take(1) {
                    st = s;
                }
                val(st, V::Unit)
            }
            Some(init) => self.seq(self.eval(cx, &init.expr, st), |s, v| {
                let mut out = vec![];
                let env0 = s.env.clone();
                for (mut s, ok) in self.pat(cx, &l.pat, &v, s) {
                    if ok {
                        out.push((s, Flow::Val(V::Unit)));
                    } else if let Some((_, e)) = &init.diverge {
                        s.env = env0.clone();
                        out.extend(self.eval(cx, e, s));
                    } else if !matches!(strip_pat(&l.pat), Pat::TupleStruct(_) | Pat::Struct(_) | Pat::Slice(_)) {
                        out.push((s, Flow::Val(V::Unit)));
                    }
                }
                out
            }),
        }
    }

    fn eval_match(&self, cx: &Rc<Cx>, m: &'static syn::ExprMatch, st: St<D::W>) -> Out<D::W> {
        let env0 = st.env.clone();
        let ncells = st.cells.len();
        let o = self.seq(self.eval(cx, &m.expr, st), |s, v| {
            let mut pending = vec![s];
            let mut out = vec![];
            for arm in &m.arms {
                let mut nx = vec![];
                for s in pending {
                    let env = s.env.clone();
                    for (mut s, ok) in self.pat(cx, &arm.pat, &v, s) {
                        if !ok {
                            s.env = env.clone();
                            nx.push(s);
                            continue;
                        }
                        match &arm.guard {
                            None => out.extend(self.eval(cx, &arm.body, s)),
                            Some((_, g)) => {
                                for (s, fl) in self.eval(cx, g, s) {
                                    match fl {
                                        Flow::Val(c) => {
                                            for (mut s, b) in self.branch(s, &c) {
                                                if b {
                                                    out.extend(self.eval(cx, &arm.body, s));
                                                } else {
                                                    s.env = env.clone();
                                                    nx.push(s);
                                                }
                                            }
                                        }
                                        o => out.push((s, o)),
                                    }
                                }
                            }
                        }
                    }
                }
                pending = self.merge_states(nx);
                if pending.is_empty() {
                    break;
                }
            }
            out
        });
        self.close_scope(o, env0, ncells)
    }

    fn binary(&self, cx: &Rc<Cx>, b: &'static syn::ExprBinary, st: St<D::W>) -> Out<D::W> {
        use syn::BinOp::*;
        match b.op {
            And(_) => self.seq(self.eval(cx, &b.left, st), |s, l| {
                let mut out = vec![];
                for (s, x) in self.branch(s, &l) {
                    if x {
                        out.extend(self.eval(cx, &b.right, s));
                    } else {
                        out.push((s, Flow::Val(V::Bool(false))));
                    }
                }
                out
            }),
            Or(_) => self.seq(self.eval(cx, &b.left, st), |s, l| {
                let mut out = vec![];
                for (s, x) in self.branch(s, &l) {
                    if x {
                        out.push((s, Flow::Val(V::Bool(true))));
                    } else {
                        out.extend(self.eval(cx, &b.right, s));
                    }
                }
                out
            }),
            _ => {
                let op = b.op;
                let opn = quote::quote!(#op).to_string();
                let assign = opn.len() > 1
                    && opn.ends_with('=')
                    && !matches!(opn.as_str(), "==" | "!=" | "<=" | ">=");
                if assign {
                    return self.seq(self.eval(cx, &b.right, st), |s, r| {
                        self.place(cx, strip(&b.left), s)
                            .into_iter()
                            .map(|(mut s, p)| match p {
                                Ok(p) => {
                                    let p = match self.read(&s, &p) {
                                        V::Ref(q) => q,
                                        _ => p,
                                    };
                                    let old = self.read(&s, &p);
                                    let old = self.deref(&s, &old);
                                    let r = self.deref(&s, &r);
                                    let nv = self.arith(opn.trim_end_matches('='), &old, &r);
                                    self.write(&mut s, &p, nv);
                                    (s, Flow::Val(V::Unit))
                                }
                                Err(f) => (s, f),
                            })
                            .collect()
                    });
                }
                self.seq(self.eval(cx, &b.left, st), |s, l| {
                    self.seq(self.eval(cx, &b.right, s), |s, r| {
                        let l = self.deref(&s, &l);
                        let r = self.deref(&s, &r);
                        match opn.as_str() {
                            "==" => self
                                .eq(s, &l, &r)
                                .into_iter()
                                .map(|(s, b)| (s, Flow::Val(V::Bool(b))))
                                .collect(),
                            "!=" => self
                                .eq(s, &l, &r)
                                .into_iter()
                                .map(|(s, b)| (s, Flow::Val(V::Bool(!b))))
                                .collect(),
                            _ => {
                                let v = self.arith(&opn, &l, &r);
                                val(s, v)
                            }
                        }
                    })
                })
            }
        }
    }
    pub fn arith(&self, op: &str, l: &V, r: &V) -> V {
        if let Some(v) = self.dom.binop(self, op, l, r) {
            return v;
        }
        match (op, l, r) {
            ("+", V::Int(a), V::Int(b)) => V::Int(a.wrapping_add(*b)),
            ("-", V::Int(a), V::Int(b)) => V::Int(a.wrapping_sub(*b)),
            ("*", V::Int(a), V::Int(b)) => V::Int(a.wrapping_mul(*b)),
            ("<", V::Int(a), V::Int(b)) => V::Bool(a < b),
            ("<=", V::Int(a), V::Int(b)) => V::Bool(a <= b),
            (">", V::Int(a), V::Int(b)) => V::Bool(a > b),
            (">=", V::Int(a), V::Int(b)) => V::Bool(a >= b),
            ("<<", V::Int(a), V::Int(b)) if *b < 120 => V::Int(a << b),
            ("|", V::Int(a), V::Int(b)) => V::Int(a | b),
            ("&", V::Int(a), V::Int(b)) => V::Int(a & b),
            ("|", V::Bool(a), V::Bool(b)) => V::Bool(a | b),
            ("&", V::Bool(a), V::Bool(b)) => V::Bool(a & b),
            // canonical comparisons: a > b  ==>  b < a ; a >= b ==> !(a < b)
            (">", a, b) => self.sym("<", vec![b.clone(), a.clone()]),
            (">=", a, b) => {
                let t = self.sym("<", vec![a.clone(), b.clone()]);
                self.sym("!", vec![t])
            }
            ("<=", a, b) => {
                let t = self.sym("<", vec![b.clone(), a.clone()]);
                self.sym("!", vec![t])
            }
            _ => self.sym(op, vec![l.clone(), r.clone()]),
        }
    }

    // ------------------------------------------------------------------ loops
    fn run_loop(
        &self,
        cx: &Rc<Cx>,
        st: St<D::W>,
        label: Option<String>,
        line: usize,
        bounded: bool,
        step: &dyn Fn(&Self, St<D::W>) -> Out<D::W>,
    ) -> Out<D::W> {
        let mut st = st;
        self.dom.loop_enter(&mut st);
        let is_mine = |l: &Option<String>| l.is_none() || *l == label;
        let split = |o: Out<D::W>, back: &mut Vec<St<D::W>>, exit: &mut Out<D::W>| {
            for (s, f) in o {
                match f {
                    Flow::Val(_) => back.push(s),
                    Flow::Cont(ref l) if is_mine(l) => back.push(s),
                    Flow::Brk(ref l, ref v) if is_mine(l) => {
                        let v = v.clone();
                        exit.push((s, Flow::Val(v)))
                    }
                    o => exit.push((s, o)),
                }
            }
        };
        let mut exits: Out<D::W> = vec![];
        match self.dom.unroll() {
            Some(k) => {
                let mut heads = vec![st];
                let outer = self.iter_no.get();
                for k in 0..=k {
                    let mut back = vec![];
                    for mut h in heads {
                        self.dom.loop_iter(&mut h);
                        self.iter_no.set(k as u32 + 1);
                        let o = step(self, h);
                        split(o, &mut back, &mut exits);
                    }
                    for b in &back {
                        self.dom.loop_back(self, cx, b, line, bounded);
                    }
                    heads = self.merge_states(back);
                    if heads.is_empty() {
                        break;
                    }
                }
                self.iter_no.set(outer);
            }
            None => {
                // fixpoint over head states
                let mut heads: Vec<St<D::W>> = vec![];
                let mut res: Vec<Out<D::W>> = vec![];
                let mut dirty: Vec<usize> = vec![];
                let add = |s: St<D::W>,
                           heads: &mut Vec<St<D::W>>,
                           res: &mut Vec<Out<D::W>>,
                           dirty: &mut Vec<usize>| {
                    for (i, h) in heads.iter_mut().enumerate() {
                        if let Some(j) = self.try_join(h, &s) {
                            if j != *h {
                                *h = j;
                                if !dirty.contains(&i) {
                                    dirty.push(i);
                                }
                            }
                            return;
                        }
                    }
                    heads.push(s);
                    res.push(vec![]);
                    dirty.push(heads.len() - 1);
                };
                self.dom.loop_iter(&mut st);
                add(st, &mut heads, &mut res, &mut dirty);
                let mut n = 0;
                let mut backs: Vec<Vec<St<D::W>>> = vec![];
                while let Some(i) = dirty.pop() {
                    n += 1;
                    if n > 400 {
                        self.overflow.borrow_mut().push(format!("loop fixpoint not reached at line {line}"));
                        break;
                    }
                    let o = step(self, heads[i].clone());
                    if std::env::var("SA_LOOP").is_ok() {
                        eprintln!("loop {}:{line} n={n} head {i}/{} -> {}", self.repo.fns[cx.func].qual(), heads.len(), o.len());
                        if heads.len() > 20 {
                            for h in &heads {
                                eprintln!("   H {} | {}", h.cells.iter().map(|c| self.show(c)).collect::<Vec<_>>().join(", "), h.facts.len());
                            }
                            std::process::exit(1);
                        }
                    }
                    let mut back = vec![];
                    let mut ex = vec![];
                    split(o, &mut back, &mut ex);
                    res[i] = ex;
                    while backs.len() < heads.len() {
                        backs.push(vec![]);
                    }
                    backs[i] = back.clone();
                    for mut b in back {
                        self.dom.loop_iter(&mut b);
                        add(b, &mut heads, &mut res, &mut dirty);
                    }
                }
                for b in backs.iter().flatten() {
                    self.dom.loop_back(self, cx, b, line, bounded);
                }
                for r in res {
                    exits.extend(r);
                }
            }
        }
        for (s, _) in exits.iter_mut() {
            self.dom.loop_exit(s);
        }
        self.merge_out(exits, self.dom.merge_at())
    }

    // ------------------------------------------------------------------ calls
    pub fn apply(&self, cx: &Rc<Cx>, f: &V, args: Vec<V>, st: St<D::W>, line: usize) -> Out<D::W> {
        let fv = self.deref(&st, f);
        match &fv {
            V::Closure(c) => {
                let env0 = st.env.clone();
                let n = st.cells.len();
                let mut st = st;
                st.env = c.env.clone();
                let mut cur = vec![st];
                for (i, p) in c.params.iter().enumerate() {
                    let a = args.get(i).cloned().unwrap_or(V::Unit);
                    let mut nx = vec![];
                    for s in cur {
                        for (s, ok) in self.pat(&c.cx, p, &a, s) {
                            if ok {
                                nx.push(s);
                            }
                        }
                    }
                    cur = nx;
                }
                let mut out = vec![];
                for s in cur {
                    for (s, f) in self.eval(&c.cx, c.body, s) {
                        match f {
                            Flow::Ret(v) => out.push((s, Flow::Val(v))),
                            f => out.push((s, f)),
                        }
                    }
                }
                self.close_scope(out, env0, n)
            }
            V::Fn(id) => self.call_id(cx, *id, args, st, line),
            V::CtorFn(n) => val(st, V::Ctor(n.clone(), Rc::new(args))),
            V::Ctor(n, a) if a.is_empty() => val(st, V::Ctor(n.clone(), Rc::new(args))),
            _ => {
                let mut a = vec![fv.clone()];
                a.extend(args);
                self.opaque(cx, "apply", a, st, line)
            }
        }
    }

    pub fn call_id(&self, cx: &Rc<Cx>, id: FnId, args: Vec<V>, st: St<D::W>, line: usize) -> Out<D::W> {
        if let Some(o) = self.dom.call_fn(self, cx, &st, id, &args, line) {
            return o;
        }
        let f = &self.repo.fns[id];
        let rec = cx.stack.iter().filter(|x| **x == id).count();
        if rec >= self.dom.max_rec() || cx.stack.len() > 60 || !self.dom.may_inline(self, id) {
            return self.opaque(cx, &f.short(), args, st, line);
        }
        self.inline(cx, id, args, st)
    }

    pub fn cx_for(&self, id: FnId, stack: Vec<FnId>) -> Rc<Cx> {
        let f = &self.repo.fns[id];
        let mut stack = stack;
        stack.push(id);
        let ret_opt = match &f.sig.output {
            syn::ReturnType::Type(_, t) => type_name(t) == "Option",
            _ => false,
        };
        Rc::new(Cx { func: id, module: f.module.clone(), self_ty: f.self_ty.clone(), stack, ret_opt })
    }

    pub fn inline(&self, cx: &Rc<Cx>, id: FnId, args: Vec<V>, st: St<D::W>) -> Out<D::W> {
        let f = &self.repo.fns[id];
        self.fns_seen.borrow_mut().insert(id);
        let ncx = self.cx_for(id, cx.stack.clone());
        let env0 = st.env.clone();
        let n = st.cells.len();
        let mut st = st;
        st.env = Rc::new(vec![]);
        let mut cur = vec![st];
        for (i, p) in f.sig.inputs.iter().enumerate() {
            let a = args.get(i).cloned().unwrap_or_else(|| self.sym("missing-arg", vec![]));
            match p {
                syn::FnArg::Receiver(_) => {
                    for s in cur.iter_mut() {
                        s.bind("self", a.clone());
                    }
                }
                syn::FnArg::Typed(t) => {
                    let mut nx = vec![];
                    for s in cur {
                        for (s, ok) in self.pat(&ncx, &t.pat, &a, s) {
                            if ok {
                                nx.push(s);
                            }
                        }
                    }
                    cur = nx;
                }
            }
        }
        let mut out = vec![];
        for s in cur {
            for (s, fl) in self.block(&ncx, f.block, s) {
                match fl {
                    Flow::Ret(v) => out.push((s, Flow::Val(v))),
                    fl => out.push((s, fl)),
                }
            }
        }
        self.close_scope(out, env0, n)
    }

    /// an unmodelled call: evaluates closures passed to it zero or one time, havocs `&mut` args
    pub fn opaque(&self, cx: &Rc<Cx>, name: &str, args: Vec<V>, st: St<D::W>, line: usize) -> Out<D::W> {
        let mut st = st;
        self.dom.opaque(self, cx, &mut st, name, &args, line);
        let dargs: Vec<V> = args
            .iter()
            .map(|a| match a {
                V::Closure(_) => V::Unit,
                a => self.deref(&st, a),
            })
            .collect();
        for (i, a) in args.iter().enumerate() {
            if let V::Ref(p) = a {
                if matches!(p, Place::Cell(..)) && i > 0 {
                    let h = self.sym("havoc", vec![V::Str(Rc::from(name)), dargs[i].clone()]);
                    self.write(&mut st, p, h);
                }
            }
        }
        let mut states = vec![st];
        if self.dom.explore_closures() {
            for a in &args {
                if let V::Closure(c) = a {
                    let mut nx = vec![];
                    for s in states {
                        nx.push(s.clone());
                        let ca = (0..c.params.len())
                            .map(|i| self.sym(&format!("arg{i}-of-{name}"), vec![dargs[0].clone()]))
                            .collect();
                        for (s, f) in self.apply(cx, a, ca, s, line) {
                            if let Flow::Val(_) = f {
                                nx.push(s);
                            }
                        }
                    }
                    states = self.merge_states(nx);
                }
            }
        }
        let v = self.sym(&format!("{name}()"), dargs);
        states.into_iter().map(|s| (s, Flow::Val(v.clone()))).collect()
    }

    fn eval_call(&self, cx: &Rc<Cx>, c: &'static syn::ExprCall, st: St<D::W>) -> Out<D::W> {
        let line = line_of(c);
        let mut out = vec![];
        for (st, r) in self.eval_args(cx, c.args.iter(), st) {
            let args = match r {
                Ok(a) => a,
                Err(f) => {
                    out.push((st, f));
                    continue;
                }
            };
            if let Expr::Path(p) = strip(&c.func) {
                let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                if segs.len() == 1 {
                    if let Some(cell) = st.lookup(&segs[0]) {
                        let f = st.cells[cell].clone();
                        out.extend(self.apply(cx, &f, args, st, line));
                        continue;
                    }
                }
                let last = segs.last().unwrap().clone();
                let fid = self.repo.resolve_fn(&cx.module, cx.self_ty.as_deref(), &segs);
                if let Some(o) = self.dom.call(self, cx, &st, &segs, fid, &args, line) {
                    out.extend(o);
                    continue;
                }
                match last.as_str() {
                    "Box" | "Some" | "Ok" | "Err" => {
                        out.push((st, Flow::Val(V::Ctor(Rc::from(&*last), Rc::new(args)))));
                        continue;
                    }
                    _ => {}
                }
                if segs.len() >= 2 {
                    let ty = segs[segs.len() - 2].as_str();
                    match (ty, last.as_str()) {
                        ("Rc", "new") | ("Arc", "new") | ("Box", "new") | ("Cell", "new") | ("RefCell", "new")
                        | ("String", "from") | ("Cow", "from") | ("Arc", "clone") | ("Rc", "clone") | ("Some", _)
                        | ("mem", "drop") => {
                            let v = args.into_iter().next().unwrap_or(V::Unit);
                            out.push((st, Flow::Val(v)));
                            continue;
                        }
                        ("Vec", "new") | ("Vec", "with_capacity") => {
                            out.push((st, Flow::Val(V::List(Rc::new(vec![])))));
                            continue;
                        }
                        ("mem", "take") | ("mem", "replace") => {
                            if let Some(V::Ref(p)) = args.first() {
                                let mut st2 = st.clone();
                                let old = self.read(&st2, p);
                                let nv = args.get(1).cloned().unwrap_or_else(|| self.sym("Default", vec![]));
                                self.write(&mut st2, p, nv);
                                out.push((st2, Flow::Val(old)));
                                continue;
                            }
                        }
                        _ => {}
                    }
                }
                if let Some(id) = fid {
                    out.extend(self.call_id(cx, id, args, st, line));
                    continue;
                }
                let up = last.chars().next().is_some_and(|c| c.is_uppercase());
                if up {
                    let nm = if last == "Self" { cx.self_ty.clone().unwrap_or(last) } else { last };
                    out.push((st, Flow::Val(V::Ctor(Rc::from(&*nm), Rc::new(args)))));
                    continue;
                }
                let name = if segs.len() >= 2 { segs[segs.len() - 2..].join("::") } else { last };
                out.extend(self.opaque(cx, &name, args, st, line));
                continue;
            }
            for (st, fl) in self.eval(cx, &c.func, st) {
                match fl {
                    Flow::Val(f) => out.extend(self.apply(cx, &f, args.clone(), st, line)),
                    o => out.push((st, o)),
                }
            }
        }
        self.dedup(out)
    }

    fn eval_method(&self, cx: &Rc<Cx>, m: &'static syn::ExprMethodCall, st: St<D::W>) -> Out<D::W> {
        let name = m.method.to_string();
        let line = line_of(&m.method);
        let mut out = vec![];
        let is_place = matches!(strip(&m.receiver), Expr::Path(_) | Expr::Field(_));
        let recvs: Vec<(St<D::W>, Result<(V, Option<Place>), Flow>)> = if is_place {
            self.place(cx, strip(&m.receiver), st)
                .into_iter()
                .map(|(s, r)| match r {
                    Ok(p) => {
                        let v = self.read(&s, &p);
                        (s, Ok((v, Some(p))))
                    }
                    Err(f) => (s, Err(f)),
                })
                .collect()
        } else {
            self.eval(cx, &m.receiver, st)
                .into_iter()
                .map(|(s, f)| match f {
                    Flow::Val(v) => (s, Ok((v, None))),
                    f => (s, Err(f)),
                })
                .collect()
        };
        for (st, r) in recvs {
            let (rv, place) = match r {
                Ok(x) => x,
                Err(f) => {
                    out.push((st, f));
                    continue;
                }
            };
            for (st, r) in self.eval_args(cx, m.args.iter(), st) {
                let args = match r {
                    Ok(a) => a,
                    Err(f) => {
                        out.push((st, f));
                        continue;
                    }
                };
                // re-read: evaluating the arguments may have changed the receiver
                let (rv, place) = match (&rv, &place) {
                    (_, Some(p)) => {
                        let v = self.read(&st, p);
                        match v {
                            V::Ref(q) => (self.read(&st, &q), Some(q)),
                            v => (v, Some(p.clone())),
                        }
                    }
                    (V::Ref(q), None) => (self.read(&st, q), Some(q.clone())),
                    (v, None) => (v.clone(), None),
                };
                let rv = self.deref(&st, &rv);
                let call = MCall { name: &name, recv: rv, place, args, line, expr: Some(m) };
                out.extend(self.do_method(cx, st, call));
            }
        }
        self.dedup(out)
    }

    pub fn do_method(&self, cx: &Rc<Cx>, st: St<D::W>, c: MCall) -> Out<D::W> {
        if let Some(o) = self.dom.method(self, cx, &st, &c) {
            return o;
        }
        if let Some(o) = self.std_method(cx, &st, &c) {
            return o;
        }
        // resolve
        let recv_ty = match &c.recv {
            V::Struct(n, _) | V::Ctor(n, _) => Some(n.to_string()),
            _ => None,
        };
        let is_self = matches!(c.expr.map(|e| strip(&e.receiver)), Some(Expr::Path(p)) if p.path.is_ident("self"));
        let mut cands: Vec<FnId> = self
            .repo
            .find_fns(c.name)
            .filter(|f| f.has_self() && f.sig.inputs.len() == c.args.len() + 1)
            .map(|f| f.id)
            .collect();
        if let Some(t) = &recv_ty {
            let m: Vec<_> = cands.iter().copied().filter(|f| self.repo.fns[*f].self_ty.as_ref() == Some(t)).collect();
            if !m.is_empty() {
                cands = m;
            }
        } else if is_self {
            if let Some(t) = &cx.self_ty {
                let m: Vec<_> = cands
                    .iter()
                    .copied()
                    .filter(|f| self.repo.fns[*f].self_ty.as_ref() == Some(t) && self.repo.fns[*f].module[0] == cx.module[0])
                    .collect();
                if !m.is_empty() {
                    cands = m;
                }
            }
        }
        if cands.len() > 1 {
            let m: Vec<_> =
                cands.iter().copied().filter(|f| self.repo.fns[*f].module[0] == cx.module[0]).collect();
            if m.len() == 1 {
                cands = m;
            }
        }
        let self_arg = match &c.place {
            Some(p) => match &c.recv {
                V::Sym(t) if !matches!(p, Place::Cell(..)) => V::Sym(*t),
                _ => V::Ref(p.clone()),
            },
            None => c.recv.clone(),
        };
        let mut args = vec![self_arg];
        args.extend(c.args.iter().cloned());
        if cands.len() == 1 {
            return self.call_id(cx, cands[0], args, st, c.line);
        }
        args[0] = c.recv.clone();
        self.opaque(cx, &format!(".{}", c.name), args, st, c.line)
    }

    /// is this the result of a method that returns an Option wherever the repository defines it?
    fn returns_option(&self, v: &V) -> bool {
        let V::Sym(t) = v else { return false };
        let (op, _) = self.node(*t);
        let Some(op) = op.strip_suffix("()") else { return false };
        let name = op.rsplit([':', '.']).next().unwrap_or("");
        if ["as_path", "get", "get_mut", "first", "last", "first_mut", "last_mut", "pop", "find", "position", "next", "next_back", "peek", "checked_sub", "checked_add", "split_once", "min_by_key", "max_by_key"].contains(&name) {
            return true;
        }
        let Some(c) = self.repo.by_name.get(name) else { return false };
        // (of the types returned, only Option and iterators have the methods that are asked about)
        let of = |f: &FnId| match &self.repo.fns[*f].sig.output {
            syn::ReturnType::Type(_, t) => match (&**t, type_name(t)) {
                (_, n) if n == "Option" => Some(true),
                (syn::Type::ImplTrait(_), _) => Some(false),
                (_, n) if n == "Self" || n == "Result" || n.contains("Iter") || n.contains("Children") || n.len() == 1 => Some(false),
                _ => None,
            },
            _ => None,
        };
        let kinds: Vec<bool> = c.iter().filter_map(of).collect();
        !kinds.is_empty() && kinds.iter().all(|x| *x)
    }
    fn opt_case(
        &self,
        st: &St<D::W>,
        v: &V,
        hint: Option<bool>,
    ) -> Option<Vec<(St<D::W>, bool, V)>> {
        // (state, is Some/Ok, payload)
        match v {
            V::Ctor(n, a) => match &**n {
                "Some" | "Ok" => Some(vec![(st.clone(), true, a.first().cloned().unwrap_or(V::Unit))]),
                "None" => Some(vec![(st.clone(), false, V::Unit)]),
                "Err" => Some(vec![(st.clone(), false, a.first().cloned().unwrap_or(V::Unit))]),
                _ => None,
            },
            V::Sym(t) => {
                let (good, bad) = match st.facts.get(t) {
                    Some(Fact::Is(n)) if &**n == "Some" || &**n == "None" => ("Some", "None"),
                    Some(Fact::Is(n)) if &**n == "Ok" || &**n == "Err" => ("Ok", "Err"),
                    _ => match hint {
                        Some(true) => ("Some", "None"),
                        Some(false) => ("Ok", "Err"),
                        None => return None,
                    },
                };
                let mut out = vec![];
                for (s, r) in self.variant(st.clone(), v, good, 1) {
                    match r {
                        Some(p) => out.push((s, true, p[0].clone())),
                        None => {
                            let e = self.sym(&format!("{bad}#0"), vec![v.clone()]);
                            out.push((s, false, e));
                        }
                    }
                }
                Some(out)
            }
            _ => None,
        }
    }

    fn listy(&self) -> bool {
        self.dom.unroll().is_some()
    }
    fn std_method(&self, cx: &Rc<Cx>, st: &St<D::W>, c: &MCall) -> Option<Out<D::W>> {
        let v = &c.recv;
        let a = &c.args;
        let line = c.line;
        let one = |v: V| Some(val(st.clone(), v));
        match c.name {
            "is_break" | "is_continue" if a.is_empty() => {
                thread_local!(static BREAK: &'static Pat = Box::leak(Box::new(
                    syn::parse::Parser::parse_str(Pat::parse_single, "ControlFlow::Break(_)").unwrap()
                )));
                let cases = self.pat(cx, BREAK.with(|b| *b), v, st.clone());
                let want = c.name == "is_break";
                return Some(cases.into_iter().map(|(s, m)| (s, Flow::Val(V::Bool(m == want)))).collect());
            }
            "clone" | "to_owned" | "as_ref" | "as_mut" | "as_deref" | "as_deref_mut" | "borrow" | "borrow_mut" | "by_ref"
            | "cloned" | "copied" | "as_str" | "as_slice" | "into_boxed_slice" | "to_vec" | "into"
                if a.is_empty() =>
            {
                if matches!(c.name, "as_mut" | "borrow_mut" | "by_ref") {
                    if let (V::Struct(..), Some(p)) = (v, &c.place) {
                        return one(V::Ref(p.clone()));
                    }
                }
                if c.name == "into" && !matches!(v, V::Str(_) | V::List(_) | V::Int(_) | V::Sym(_) | V::Struct(..) | V::Kinds(_) | V::TSet(_) | V::Nth(_)) {
                    return one(v.clone());
                }
                return one(v.clone());
            }
            "to_string" if matches!(v, V::Str(_)) => return one(v.clone()),
            "drain" if matches!(v, V::List(_)) && c.place.is_some() => {
                let mut s = st.clone();
                self.write(&mut s, c.place.as_ref().unwrap(), V::List(Rc::new(vec![])));
                return Some(val(s, v.clone()));
            }
            "iter" | "into_iter" | "iter_mut" | "drain" if matches!(v, V::List(_)) => return one(v.clone()),
            "iter" | "into_iter" | "iter_mut" if matches!(v, V::Ctor(n, _) if &**n == "Some" || &**n == "None") => {
                if let V::Ctor(_, x) = v {
                    return one(V::List(x.clone()));
                }
            }
            "collect" | "collect_vec" if matches!(v, V::List(_)) => return one(v.clone()),
            "then" => {
                if a.len() == 1 && matches!(a[0], V::Closure(_) | V::Fn(_)) {
                    let mut out = vec![];
                    for (s, b) in self.branch(st.clone(), v) {
                        if b {
                            out.extend(self.seq(self.apply(cx, &a[0], vec![], s, line), |s, x| val(s, some(x))));
                        } else {
                            out.push((s, Flow::Val(none())));
                        }
                    }
                    return Some(out);
                }
            }
            "then_some" => {
                let mut out = vec![];
                for (s, b) in self.branch(st.clone(), v) {
                    out.push((s, Flow::Val(if b { some(a[0].clone()) } else { none() })));
                }
                return Some(out);
            }
            _ => {}
        }
        if let (V::Int(x), [V::Int(y)]) = (v, a.as_slice()) {
            match c.name {
                "max" => return one(V::Int(*x.max(y))),
                "min" => return one(V::Int(*x.min(y))),
                "abs_diff" => return one(V::Int((x - y).abs())),
                "saturating_sub" if *x >= 0 && *y >= 0 => return one(V::Int((x - y).max(0))),
                "checked_sub" if *x >= 0 && *y >= 0 => return one(if x >= y { some(V::Int(x - y)) } else { none() }),
                _ => {}
            }
        }
        // Vec-like
        if let V::List(l) = v {
            match c.name {
                "len" => return one(V::Int(l.len() as i128)),
                "is_empty" => return one(V::Bool(l.is_empty())),
                "push" | "push_back" => {
                    if let Some(p) = &c.place {
                        let mut s = st.clone();
                        if self.dom.list_push_widen() || l.len() > 16 {
                            let nv = self.sym("list", vec![]);
                            self.write(&mut s, p, nv);
                        } else {
                            let mut nl = l.to_vec();
                            nl.push(a[0].clone());
                            self.write(&mut s, p, V::List(Rc::new(nl)));
                        }
                        return Some(val(s, V::Unit));
                    }
                }
                "pop" => {
                    if let Some(p) = &c.place {
                        let mut s = st.clone();
                        let mut nl = l.to_vec();
                        let x = nl.pop();
                        self.write(&mut s, p, V::List(Rc::new(nl)));
                        return Some(val(s, x.map(some).unwrap_or(none())));
                    }
                }
                "clear" => {
                    if let Some(p) = &c.place {
                        let mut s = st.clone();
                        self.write(&mut s, p, V::List(Rc::new(vec![])));
                        return Some(val(s, V::Unit));
                    }
                }
                "first" => return one(l.first().cloned().map(some).unwrap_or(none())),
                "last" => return one(l.last().cloned().map(some).unwrap_or(none())),
                "rev" => {
                    let mut x = l.to_vec();
                    x.reverse();
                    return one(V::List(Rc::new(x)));
                }
                "any" | "all" if a.len() == 1 => {
                    let want = c.name == "any";
                    let mut cur = vec![(st.clone(), !want)];
                    for x in l.iter() {
                        let mut nx = vec![];
                        for (s, r) in cur {
                            if r == want {
                                nx.push((s, r));
                                continue;
                            }
                            for (s, f) in self.apply(cx, &a[0], vec![x.clone()], s, line) {
                                if let Flow::Val(b) = f {
                                    nx.extend(self.branch(s, &b));
                                }
                            }
                        }
                        cur = nx;
                    }
                    return Some(cur.into_iter().map(|(s, b)| (s, Flow::Val(V::Bool(b)))).collect());
                }
                "contains" if a.len() == 1 => {
                    let mut cur = vec![(st.clone(), false)];
                    for x in l.iter() {
                        let mut nx = vec![];
                        for (s, r) in cur {
                            if r {
                                nx.push((s, r));
                                continue;
                            }
                            nx.extend(self.eq(s, x, &a[0]));
                        }
                        cur = nx;
                    }
                    return Some(cur.into_iter().map(|(s, b)| (s, Flow::Val(V::Bool(b)))).collect());
                }
                "peekable" | "fuse" => return one(v.clone()),
                "count" if a.is_empty() => return one(V::Int(l.len() as i128)),
                "enumerate" => return one(V::List(Rc::new(l.iter().enumerate().map(|(i, x)| V::Tuple(Rc::new(vec![V::Int(i as i128), x.clone()]))).collect()))),
                "peek" => return one(l.first().cloned().map(some).unwrap_or(none())),
                "next" | "next_back" | "pop_front" | "remove" if a.is_empty() || matches!(a[0], V::Int(_)) => {
                    if let Some(p) = &c.place {
                        let mut s = st.clone();
                        let mut nl = l.to_vec();
                        let x = match (c.name, a.first()) {
                            ("remove", Some(V::Int(k))) if (*k as usize) < nl.len() => return {
                                let x = nl.remove(*k as usize);
                                self.write(&mut s, p, V::List(Rc::new(nl)));
                                Some(val(s, x))
                            },
                            ("next_back", _) => nl.pop(),
                            ("next" | "pop_front", _) if !nl.is_empty() => Some(nl.remove(0)),
                            _ => None,
                        };
                        if c.name != "remove" {
                            self.write(&mut s, p, V::List(Rc::new(nl)));
                            return Some(val(s, x.map(some).unwrap_or(none())));
                        }
                    }
                }
                "get" if a.len() == 1 => {
                    if let V::Int(k) = a[0] {
                        return one(l.get(k as usize).cloned().map(some).unwrap_or(none()));
                    }
                }
                "split_at" if a.len() == 1 => {
                    if let V::Int(k) = a[0] {
                        if k >= 0 && k as usize <= l.len() {
                            let (x, y) = l.split_at(k as usize);
                            return one(V::Tuple(Rc::new(vec![V::List(Rc::new(x.to_vec())), V::List(Rc::new(y.to_vec()))])));
                        }
                    }
                }
                "skip" | "take" | "truncate" if a.len() == 1 => {
                    if let V::Int(k) = a[0] {
                        let k = (k.max(0) as usize).min(l.len());
                        let nl = V::List(Rc::new(if c.name == "skip" { l[k..].to_vec() } else { l[..k].to_vec() }));
                        if c.name != "truncate" {
                            return one(nl);
                        }
                        if let Some(p) = &c.place {
                            let mut s = st.clone();
                            self.write(&mut s, p, nl);
                            return Some(val(s, V::Unit));
                        }
                    }
                }
                "chain" | "extend" | "append" | "zip" if a.len() == 1 => {
                    let o = match self.deref(st, &a[0]) {
                        V::Ctor(n, v) if &*n == "Some" && v.len() == 1 => V::List(v.clone()),
                        V::Ctor(n, _) if &*n == "None" => V::List(Rc::new(vec![])),
                        o => o,
                    };
                    if let V::List(m) = &o {
                        if c.name == "zip" {
                            return one(V::List(Rc::new(l.iter().zip(m.iter()).map(|(x, y)| V::Tuple(Rc::new(vec![x.clone(), y.clone()]))).collect())));
                        }
                        let nl = V::List(Rc::new(l.iter().chain(m.iter()).cloned().collect()));
                        if c.name == "chain" {
                            return one(nl);
                        }
                        if let Some(p) = &c.place {
                            let mut s = st.clone();
                            self.write(&mut s, p, nl);
                            if let (V::Ref(q), "append") = (&a[0], c.name) {
                                self.write(&mut s, q, V::List(Rc::new(vec![])));
                            }
                            return Some(val(s, V::Unit));
                        }
                    }
                }
                "sum" if a.is_empty() => {
                    let mut acc: Option<V> = None;
                    for x in l.iter() {
                        acc = Some(match (acc, x) {
                            (None, x) => x.clone(),
                            (Some(V::Int(m)), V::Int(n)) => V::Int(m + n),
                            (Some(y), x) => self.sym("+", vec![y, x.clone()]),
                        });
                    }
                    return one(acc.unwrap_or(V::Int(0)));
                }
                "for_each" if a.len() == 1 => {
                    let mut out = vec![];
                    let mut live = vec![st.clone()];
                    for x in l.iter() {
                        let mut nx = vec![];
                        for s in live {
                            for (s, f) in self.apply(cx, &a[0], vec![x.clone()], s, line) {
                                match f {
                                    Flow::Val(_) => nx.push(s),
                                    f => out.push((s, f)),
                                }
                            }
                        }
                        live = nx;
                    }
                    out.extend(live.into_iter().map(|s| (s, Flow::Val(V::Unit))));
                    return Some(out);
                }
                "fold" if a.len() == 2 => {
                    let mut cur = vec![(st.clone(), a[0].clone())];
                    for x in l.iter() {
                        let mut nx = vec![];
                        for (s, acc) in cur {
                            for (s, f) in self.apply(cx, &a[1], vec![acc.clone(), x.clone()], s, line) {
                                if let Flow::Val(y) = f {
                                    nx.push((s, y));
                                }
                            }
                        }
                        cur = nx;
                    }
                    return Some(cur.into_iter().map(|(s, y)| (s, Flow::Val(y))).collect());
                }
                "try_fold" if a.len() == 2 => {
                    let mut cur = vec![(st.clone(), a[0].clone())];
                    let mut out: Out<D::W> = vec![];
                    let mut wrap = "Ok";
                    for x in l.iter() {
                        let mut nx = vec![];
                        for (s, acc) in cur {
                            for (s, f) in self.apply(cx, &a[1], vec![acc.clone(), x.clone()], s, line) {
                                let Flow::Val(y) = f else { continue };
                                let go = ["Ok", "Some", "Continue"];
                                match &y {
                                    V::Ctor(n, w) if w.len() == 1 && go.contains(&&**n) => {
                                        wrap = go.iter().find(|g| **g == &**n).unwrap();
                                        nx.push((s, w[0].clone()))
                                    }
                                    V::Ctor(..) => out.push((s, Flow::Val(y))),
                                    _ => return None,
                                }
                            }
                        }
                        cur = nx;
                    }
                    out.extend(cur.into_iter().map(|(s, y)| (s, Flow::Val(ctor(wrap, vec![y])))));
                    return Some(out);
                }
                "filter" | "take_while" | "skip_while" | "map_while" | "filter_map" | "flat_map" | "position" | "find" | "find_map" | "retain" if a.len() == 1 && self.listy() => {
                    // (state, kept so far, phase over?)
                    let mut cur: Vec<(St<D::W>, Vec<V>, bool)> = vec![(st.clone(), vec![], false)];
                    let n = c.name;
                    for (i, x) in l.iter().enumerate() {
                        let mut nx = vec![];
                        for (s, acc, over) in cur {
                            if over {
                                let mut acc = acc;
                                if n == "skip_while" {
                                    acc.push(x.clone());
                                }
                                nx.push((s, acc, over));
                                continue;
                            }
                            for (s, f) in self.apply(cx, &a[0], vec![x.clone()], s, line) {
                                let Flow::Val(y) = f else { continue };
                                let mut put = |s: St<D::W>, yes: bool, p: Option<V>| {
                                    let mut acc = acc.clone();
                                    let mut over = false;
                                    match (n, yes) {
                                        ("filter" | "take_while" | "retain", true) => acc.push(x.clone()),
                                        ("take_while" | "map_while", false) => over = true,
                                        ("skip_while", false) => {
                                            acc.push(x.clone());
                                            over = true
                                        }
                                        ("filter_map" | "map_while" | "flat_map", true) => acc.push(p.unwrap()),
                                        ("position", true) => {
                                            acc.push(V::Int(i as i128));
                                            over = true
                                        }
                                        ("find", true) => {
                                            acc.push(x.clone());
                                            over = true
                                        }
                                        ("find_map", true) => {
                                            acc.push(p.unwrap());
                                            over = true
                                        }
                                        _ => {}
                                    }
                                    nx.push((s, acc, over));
                                };
                                if matches!(n, "filter_map" | "find_map" | "map_while" | "flat_map") {
                                    let y = self.deref(&s, &y);
                                    for (s, r) in self.variant(s, &y, "Some", 1) {
                                        match r {
                                            Some(p) => put(s, true, Some(p[0].clone())),
                                            None => put(s, false, None),
                                        }
                                    }
                                } else {
                                    for (s, b) in self.branch(s, &y) {
                                        put(s, b, None);
                                    }
                                }
                            }
                        }
                        cur = nx;
                    }
                    return Some(
                        cur.into_iter()
                            .map(|(mut s, l, _)| {
                                let v = match n {
                                    "position" | "find" | "find_map" => l.first().cloned().map(some).unwrap_or(none()),
                                    "retain" => {
                                        if let Some(p) = &c.place {
                                            self.write(&mut s, p, V::List(Rc::new(l)));
                                        }
                                        V::Unit
                                    }
                                    _ => V::List(Rc::new(l)),
                                };
                                (s, Flow::Val(v))
                            })
                            .collect(),
                    );
                }
                "map" if a.len() == 1 => {
                    let mut cur: Vec<(St<D::W>, Vec<V>)> = vec![(st.clone(), vec![])];
                    for x in l.iter() {
                        let mut nx = vec![];
                        for (s, acc) in cur {
                            for (s, f) in self.apply(cx, &a[0], vec![x.clone()], s, line) {
                                if let Flow::Val(y) = f {
                                    let mut acc = acc.clone();
                                    acc.push(y);
                                    nx.push((s, acc));
                                }
                            }
                        }
                        cur = nx;
                    }
                    return Some(cur.into_iter().map(|(s, l)| (s, Flow::Val(V::List(Rc::new(l))))).collect());
                }
                _ => {}
            }
        }
        // known characters
        if let V::Tag("char", ch) = self.deref(st, &c.recv) {
            if let Some(ch) = char::from_u32(ch) {
                let b = match c.name {
                    "is_ascii_alphabetic" => Some(ch.is_ascii_alphabetic()),
                    "is_ascii_alphanumeric" => Some(ch.is_ascii_alphanumeric()),
                    "is_ascii_digit" => Some(ch.is_ascii_digit()),
                    "is_ascii_lowercase" => Some(ch.is_ascii_lowercase()),
                    "is_ascii_uppercase" => Some(ch.is_ascii_uppercase()),
                    "is_ascii_whitespace" => Some(ch.is_ascii_whitespace()),
                    "is_ascii_punctuation" => Some(ch.is_ascii_punctuation()),
                    "is_ascii" => Some(ch.is_ascii()),
                    "is_alphabetic" => Some(ch.is_alphabetic()),
                    "is_alphanumeric" => Some(ch.is_alphanumeric()),
                    "is_numeric" => Some(ch.is_numeric()),
                    "is_whitespace" => Some(ch.is_whitespace()),
                    _ => None,
                };
                if let Some(b) = b {
                    return Some(vec![(st.clone(), Flow::Val(V::Bool(b)))]);
                }
            }
        }
        // Option / Result
        let hint = match c.name {
            "is_some" | "is_none" | "is_some_and" | "is_none_or" | "ok_or" | "ok_or_else" | "get_or_insert_with" | "zip"
            | "xor" => Some(true),
            "is_ok" | "is_err" | "map_err" | "ok" | "err" | "is_ok_and" | "is_err_and" | "unwrap_err" | "inspect_err" => {
                Some(false)
            }
            "unwrap" | "expect" | "unwrap_or" | "unwrap_or_default" | "unwrap_or_else" | "and_then" | "map_or"
            | "map_or_else" | "or_else" => {
                // Option vs Result does not matter for the outcome
                let res = c.expr.is_some_and(|e| {
                    (c.name == "unwrap_or_else" || c.name == "map_or_else" || c.name == "or_else")
                        && matches!(e.args.first(), Some(Expr::Closure(k)) if k.inputs.len() == 1)
                });
                Some(!res)
            }
            "map" | "filter" | "inspect" if self.returns_option(v) => Some(true),
            "map" | "filter" | "take" | "replace" | "insert" | "or" | "flatten" | "inspect" => None,
            _ => return None,
        };
        if c.name == "insert" && a.len() != 1 {
            return None;
        }
        if c.name == "replace" && a.len() != 1 {
            return None;
        }
        if c.name == "take" && !a.is_empty() {
            return None;
        }
        let cases = self.opt_case(st, v, hint)?;
        let is_res = match v {
            V::Ctor(n, _) => &**n == "Ok" || &**n == "Err",
            _ => hint == Some(false) || cases.iter().any(|(s, _, _)| matches!(v, V::Sym(t) if matches!(s.facts.get(t), Some(Fact::Is(n)) if &**n=="Ok" || &**n=="Err"))),
        };
        let good = if is_res { "Ok" } else { "Some" };
        let bad = |p: &V| if is_res { ctor("Err", vec![p.clone()]) } else { none() };
        let mut out: Out<D::W> = vec![];
        for (s, ok, p) in cases {
            let r: Out<D::W> = match c.name {
                "unwrap" | "expect" => {
                    if ok {
                        val(s, p)
                    } else {
                        self.dom.panic(self, cx, &s, PanicKind::Unwrap, line, c.name);
                        vec![]
                    }
                }
                "unwrap_err" => {
                    if ok {
                        self.dom.panic(self, cx, &s, PanicKind::Unwrap, line, c.name);
                        vec![]
                    } else {
                        val(s, p)
                    }
                }
                "unwrap_or" => val(s, if ok { p } else { a[0].clone() }),
                "unwrap_or_default" => {
                    let d = self.sym("Default", vec![v.clone()]);
                    val(s, if ok { p } else { d })
                }
                "unwrap_or_else" => {
                    if ok {
                        val(s, p)
                    } else {
                        self.apply(cx, &a[0], vec![p], s, line)
                    }
                }
                "map" => {
                    if ok {
                        self.seq(self.apply(cx, &a[0], vec![p], s, line), |s, x| val(s, ctor(good, vec![x])))
                    } else {
                        val(s, bad(&p))
                    }
                }
                "inspect" | "inspect_err" => {
                    let call = ok == (c.name == "inspect");
                    let keep = if ok { ctor(good, vec![p.clone()]) } else { bad(&p) };
                    if call {
                        self.seq(self.apply(cx, &a[0], vec![p], s, line), |s, _| val(s, keep.clone()))
                    } else {
                        val(s, keep)
                    }
                }
                "map_err" => {
                    if ok {
                        val(s, ctor("Ok", vec![p]))
                    } else {
                        self.seq(self.apply(cx, &a[0], vec![p], s, line), |s, x| val(s, ctor("Err", vec![x])))
                    }
                }
                "and_then" => {
                    if ok {
                        self.apply(cx, &a[0], vec![p], s, line)
                    } else {
                        val(s, bad(&p))
                    }
                }
                "or_else" => {
                    if ok {
                        val(s, ctor(good, vec![p]))
                    } else {
                        self.apply(cx, &a[0], vec![p], s, line)
                    }
                }
                "or" => val(s, if ok { ctor(good, vec![p]) } else { a[0].clone() }),
                "filter" => {
                    if ok {
                        let mut o = vec![];
                        for (s, f) in self.apply(cx, &a[0], vec![p.clone()], s, line) {
                            if let Flow::Val(b) = f {
                                for (s, b) in self.branch(s, &b) {
                                    o.push((s, Flow::Val(if b { some(p.clone()) } else { none() })));
                                }
                            }
                        }
                        o
                    } else {
                        val(s, none())
                    }
                }
                "map_or" => {
                    if ok {
                        self.apply(cx, &a[1], vec![p], s, line)
                    } else {
                        val(s, a[0].clone())
                    }
                }
                "map_or_else" => {
                    if ok {
                        self.apply(cx, &a[1], vec![p], s, line)
                    } else {
                        self.apply(cx, &a[0], vec![p], s, line)
                    }
                }
                "is_some" | "is_ok" => val(s, V::Bool(ok)),
                "is_none" | "is_err" => val(s, V::Bool(!ok)),
                "is_some_and" | "is_ok_and" => {
                    if ok {
                        self.apply(cx, &a[0], vec![p], s, line)
                    } else {
                        val(s, V::Bool(false))
                    }
                }
                "is_none_or" => {
                    if ok {
                        self.apply(cx, &a[0], vec![p], s, line)
                    } else {
                        val(s, V::Bool(true))
                    }
                }
                "is_err_and" => {
                    if !ok {
                        self.apply(cx, &a[0], vec![p], s, line)
                    } else {
                        val(s, V::Bool(false))
                    }
                }
                "ok" => val(s, if ok { some(p) } else { none() }),
                "err" => val(s, if !ok { some(p) } else { none() }),
                "ok_or" => val(s, if ok { ctor("Ok", vec![p]) } else { ctor("Err", vec![a[0].clone()]) }),
                "ok_or_else" => {
                    if ok {
                        val(s, ctor("Ok", vec![p]))
                    } else {
                        self.seq(self.apply(cx, &a[0], vec![], s, line), |s, x| val(s, ctor("Err", vec![x])))
                    }
                }
                "flatten" => {
                    if ok {
                        val(s, p)
                    } else {
                        val(s, bad(&p))
                    }
                }
                "take" | "replace" | "insert" => {
                    let mut s = s;
                    let old = if ok { ctor(good, vec![p]) } else { bad(&p) };
                    match &c.place {
                        Some(pl) => {
                            let nv = if c.name == "take" { none() } else { some(a[0].clone()) };
                            self.write(&mut s, pl, nv);
                            val(s, old)
                        }
                        None => val(s, old),
                    }
                }
                "zip" | "xor" | "get_or_insert_with" => {
                    let x = self.sym(&format!(".{}()", c.name), vec![v.clone()]);
                    val(s, x)
                }
                _ => val(s, V::Unit),
            };
            out.extend(r);
        }
        Some(out)
    }

    // ------------------------------------------------------------------ macros
    pub fn macro_args(&self, m: &'static syn::Macro) -> Option<&'static Vec<Expr>> {
        let key = m as *const _ as usize;
        if let Some(x) = self.mac_exprs.borrow().get(&key) {
            return *x;
        }
        let parser = syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated;
        let r = syn::parse::Parser::parse2(parser, m.tokens.clone())
            .ok()
            .map(|p| &*Box::leak(Box::new(p.into_iter().collect::<Vec<_>>())));
        self.mac_exprs.borrow_mut().insert(key, r);
        r
    }
    pub fn matches_args(&self, m: &'static syn::Macro) -> Option<&'static (Expr, Pat, Option<Expr>)> {
        let key = m as *const _ as usize;
        if let Some(x) = self.mac_matches.borrow().get(&key) {
            return *x;
        }
        let r = parse_matches(m.tokens.clone()).map(|x| &*Box::leak(Box::new(x)));
        self.mac_matches.borrow_mut().insert(key, r);
        r
    }

    fn eval_macro(&self, cx: &Rc<Cx>, m: &'static syn::Macro, st: St<D::W>, line: usize) -> Out<D::W> {
        if let Some(o) = self.dom.mac(self, cx, &st, m) {
            return o;
        }
        let name = m.path.segments.last().unwrap().ident.to_string();
        match name.as_str() {
            "matches" => {
                if let Some((e, p, g)) = self.matches_args(m) {
                    let env0 = st.env.clone();
                    let n = st.cells.len();
                    let o = self.seq(self.eval(cx, e, st), |s, v| {
                        let mut out = vec![];
                        for (s, ok) in self.pat(cx, p, &v, s) {
                            if ok {
                                if let Some(g) = g {
                                    out.extend(self.eval(cx, g, s));
                                    continue;
                                }
                            }
                            out.push((s, Flow::Val(V::Bool(ok))));
                        }
                        out
                    });
                    return self.close_scope(o, env0, n);
                }
            }
            "assert" | "debug_assert" | "assert_eq" | "assert_ne" | "debug_assert_eq" | "debug_assert_ne" => {
                if let Some(args) = self.macro_args(m) {
                    let neq = name.ends_with("_ne");
                    let two = name.ends_with("_eq") || neq;
                    let n = if two { 2 } else { 1 };
                    let mut out = vec![];
                    for (s, r) in self.eval_args(cx, args.iter().take(n), st) {
                        match r {
                            Ok(vs) => {
                                let br = if two {
                                    self.eq(s, &vs[0], &vs[1]).into_iter().map(|(s, b)| (s, b != neq)).collect()
                                } else {
                                    self.branch(s, &vs[0])
                                };
                                for (s, b) in br {
                                    if b {
                                        out.push((s, Flow::Val(V::Unit)));
                                    } else {
                                        let a = &args[0];
                                        self.dom.panic(
                                            self,
                                            cx,
                                            &s,
                                            PanicKind::Assert,
                                            line,
                                            &quote::quote!(#a).to_string(),
                                        );
                                    }
                                }
                            }
                            Err(f) => out.push((s, f)),
                        }
                    }
                    return out;
                }
            }
            "panic" | "unreachable" | "todo" | "unimplemented" => {
                self.dom.panic(self, cx, &st, PanicKind::Panic, line, &format!("{name}!({})", m.tokens));
                return vec![];
            }
            "bail" => {
                let v = ctor("Err", vec![self.sym("bail", vec![V::Str(Rc::from(m.tokens.to_string()))])]);
                return vec![(st, Flow::Ret(v))];
            }
            "ensure" => {
                if let Some(args) = self.macro_args(m) {
                    return self.seq(self.eval(cx, &args[0], st), |s, v| {
                        self.branch(s, &v)
                            .into_iter()
                            .map(|(s, b)| {
                                if b {
                                    (s, Flow::Val(V::Unit))
                                } else {
                                    (s, Flow::Ret(ctor("Err", vec![self.sym("ensure", vec![])])))
                                }
                            })
                            .collect()
                    });
                }
            }
            "vec" => {
                if let Some(args) = self.macro_args(m) {
                    return self
                        .eval_args(cx, args.iter(), st)
                        .into_iter()
                        .map(|(s, r)| match r {
                            Ok(v) => (s, Flow::Val(V::List(Rc::new(v)))),
                            Err(f) => (s, f),
                        })
                        .collect();
                }
            }
            "format" | "anyhow" | "format_err" | "concat" => {
                if let Some(args) = self.macro_args(m) {
                    // keep the format string, and the arguments for their effects
                    let outs = self.eval_args(cx, args.iter().filter(|a| !matches!(a, Expr::Assign(_))), st);
                    return outs
                        .into_iter()
                        .map(|(s, r)| match r {
                            Ok(v) => {
                                let v: Vec<V> = v.iter().map(|x| self.deref(&s, x)).collect();
                                if v.len() == 1 && name == "format" {
                                    if let V::Str(t) = &v[0] {
                                        if !t.contains('{') {
                                            let x = v[0].clone();
                                            return (s, Flow::Val(x));
                                        }
                                        // inline captures
                                        let mut a = v.clone();
                                        for cap in captures(t) {
                                            if let Some(c) = s.lookup(&cap) {
                                                let x = s.cells[c].clone();
                                                a.push(self.deref(&s, &x));
                                            }
                                        }
                                        if let Some(x) = spell(&a) {
                                            return (s, Flow::Val(V::Str(Rc::from(x))));
                                        }
                                        let x = self.sym("format!", a);
                                        return (s, Flow::Val(x));
                                    }
                                }
                                let mut a = v.clone();
                                if let Some(V::Str(t)) = v.first() {
                                    for cap in captures(t) {
                                        if let Some(c) = s.lookup(&cap) {
                                            let x = s.cells[c].clone();
                                            a.push(self.deref(&s, &x));
                                        }
                                    }
                                }
                                if name == "format" {
                                    if let Some(x) = spell(&a) {
                                        return (s, Flow::Val(V::Str(Rc::from(x))));
                                    }
                                }
                                let x = self.sym(&format!("{name}!"), a);
                                (s, Flow::Val(x))
                            }
                            Err(f) => (s, f),
                        })
                        .collect();
                }
            }
            "println" | "eprintln" | "print" | "eprint" | "info" | "debug" | "warn" | "error" | "trace" | "dbg" | "span"
            | "info_span" | "debug_span" | "trace_span" => {
                let v = self.sym("()", vec![]);
                return val(st, v);
            }
            _ => {}
        }
        if let Some(args) = self.macro_args(m) {
            let outs = self.eval_args(cx, args.iter(), st);
            let mut res = vec![];
            for (s, r) in outs {
                match r {
                    Ok(v) => res.extend(self.opaque(cx, &format!("{name}!"), v, s, line)),
                    Err(f) => res.push((s, f)),
                }
            }
            return res;
        }
        let v = self.sym(&format!("{name}!"), vec![V::Str(Rc::from(m.tokens.to_string()))]);
        val(st, v)
    }
}

/// `format!` of plain holes and strings only, spelled out
fn spell(a: &[V]) -> Option<String> {
    let (V::Str(f), rest) = a.split_first()? else { return None };
    let caps = captures(f);
    let mut pos = rest.iter().take(rest.len().checked_sub(caps.len())?);
    let mut named = caps.iter().zip(&rest[rest.len() - caps.len()..]);
    let text = |v: &V| match v {
        V::Str(s) => Some(s.to_string()),
        V::Tag("char", c) => char::from_u32(*c).map(|c| c.to_string()),
        _ => None,
    };
    let mut out = String::new();
    let mut it = f.chars().peekable();
    while let Some(c) = it.next() {
        match c {
            '{' if it.peek() == Some(&'{') => out.push(it.next()?),
            '}' if it.peek() == Some(&'}') => out.push(it.next()?),
            '{' => {
                let hole: String = it.by_ref().take_while(|x| *x != '}').collect();
                if hole.is_empty() {
                    out += &text(pos.next()?)?;
                } else {
                    let (n, v) = named.next()?;
                    if *n != hole {
                        return None;
                    }
                    out += &text(v)?;
                }
            }
            c => out.push(c),
        }
    }
    Some(out)
}

fn captures(t: &str) -> Vec<String> {
    let mut out = vec![];
    let b: Vec<char> = t.chars().collect();
    let mut i = 0;
    while i < b.len() {
        if b[i] == '{' {
            if i + 1 < b.len() && b[i + 1] == '{' {
                i += 2;
                continue;
            }
            let mut j = i + 1;
            let mut n = String::new();
            while j < b.len() && b[j] != '}' && b[j] != ':' {
                n.push(b[j]);
                j += 1;
            }
            if !n.is_empty() && !n.chars().next().unwrap().is_ascii_digit() {
                out.push(n);
            }
            i = j;
        }
        i += 1;
    }
    out
}

pub fn parse_matches(ts: proc_macro2::TokenStream) -> Option<(Expr, Pat, Option<Expr>)> {
    let p = |input: syn::parse::ParseStream| -> syn::Result<(Expr, Pat, Option<Expr>)> {
        let e: Expr = input.parse()?;
        input.parse::<syn::Token![,]>()?;
        let pat = Pat::parse_multi_with_leading_vert(input)?;
        let g = if input.peek(syn::Token![if]) {
            input.parse::<syn::Token![if]>()?;
            Some(input.parse::<Expr>()?)
        } else {
            None
        };
        let _ = input.parse::<Option<syn::Token![,]>>()?;
        Ok((e, pat, g))
    };
    syn::parse::Parser::parse2(p, ts).ok()
}

fn expr_debug_only(e: &Expr) -> bool {
    let attrs = match e {
        Expr::Block(b) => &b.attrs,
        Expr::If(b) => &b.attrs,
        Expr::Call(b) => &b.attrs,
        Expr::MethodCall(b) => &b.attrs,
        Expr::Macro(b) => &b.attrs,
        _ => return false,
    };
    attrs
        .iter()
        .any(|a| a.path().is_ident("cfg") && quote::quote!(#a).to_string().contains("debug_assertions"))
}
pub fn strip(e: &'static Expr) -> &'static Expr {
    match e {
        Expr::Paren(p) => strip(&p.expr),
        Expr::Group(p) => strip(&p.expr),
        e => e,
    }
}
fn strip_pat(p: &'static Pat) -> &'static Pat {
    match p {
        Pat::Paren(q) => strip_pat(&q.pat),
        Pat::Type(q) => strip_pat(&q.pat),
        Pat::Reference(q) => strip_pat(&q.pat),
        p => p,
    }
}
pub fn lit_value(l: &syn::Lit) -> Option<V> {
    match l {
        syn::Lit::Bool(b) => Some(V::Bool(b.value)),
        syn::Lit::Int(i) => i.base10_parse::<i128>().ok().map(V::Int),
        syn::Lit::Str(s) => Some(V::Str(Rc::from(s.value()))),
        syn::Lit::Char(c) => Some(V::Tag("char", c.value() as u32)),
        syn::Lit::Byte(c) => Some(V::Int(c.value() as i128)),
        syn::Lit::ByteStr(s) => Some(V::Str(Rc::from(String::from_utf8_lossy(&s.value()).to_string()))),
        _ => None,
    }
}
fn escapes(v: &V, n: usize) -> bool {
    match v {
        V::Ref(Place::Cell(c, _)) => *c >= n,
        V::Closure(c) => c.env.iter().any(|(_, c)| *c >= n),
        V::Ctor(_, a) | V::Tuple(a) | V::List(a) => a.iter().any(|x| escapes(x, n)),
        V::Struct(_, m) => m.values().any(|x| escapes(x, n)),
        _ => false,
    }
}
#[allow(dead_code)]
pub fn span_line<T: Spanned>(t: &T) -> usize {
    t.span().start().line
}
