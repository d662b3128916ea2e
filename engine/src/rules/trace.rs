//! A generic effect-trace domain: every path of a function (callees inlined as configured) is
//! enumerated symbolically, with the calls that were not inlined recorded as events.
use crate::absint::*;
use crate::repo::*;
use std::rc::Rc;

pub struct Cfg<'a> {
    /// inline this callee?
    pub inline: Box<dyn Fn(&FnInfo) -> bool + 'a>,
    pub unroll: Option<usize>,
    pub closures: bool,
    /// is the n-th call of this name a new value each time?
    pub fresh: Box<dyn Fn(&str) -> bool + 'a>,
    /// record an event for this (un-inlined) call?
    pub event: Box<dyn Fn(&str) -> bool + 'a>,
    /// record writes of fields / heap places
    pub writes: bool,
    /// record an event at each entry of a `for` loop
    pub loops: bool,
    pub cap: usize,
    pub merge_at: usize,
    pub mhook: Option<MHook<'a>>,
    pub chook: Option<CHook<'a>>,
    /// resolve `T![..]` and syntax-kind names to kind sets of one
    pub kinds: Option<Rc<super::kinds::Kinds>>,
    /// follow iterations over unknown collections for up to this many elements, each element having
    /// one name wherever it is met
    pub coll: Option<usize>,
}
pub type MHook<'a> = Box<dyn Fn(&Interp<Trace<'a>>, &Rc<Cx>, &St<TW>, &MCall) -> Option<Out<TW>> + 'a>;
pub type CHook<'a> = Box<dyn Fn(&Interp<Trace<'a>>, &Rc<Cx>, &St<TW>, &[String], &[V], usize) -> Option<Out<TW>> + 'a>;
/// type arguments written at a method call, as text without spaces
pub fn turbofish(c: &MCall) -> String {
    use quote::ToTokens;
    c.expr
        .and_then(|e| e.turbofish.as_ref())
        .map(|t| t.args.to_token_stream().to_string().replace(' ', ""))
        .unwrap_or_default()
}
impl<'a> Cfg<'a> {
    pub fn new(inline: impl Fn(&FnInfo) -> bool + 'a) -> Self {
        Cfg {
            inline: Box::new(inline),
            unroll: Some(2),
            closures: true,
            fresh: Box::new(|_| false),
            event: Box::new(|_| true),
            writes: true,
            loops: false,
            cap: 20000,
            merge_at: 100000,
            mhook: None,
            chook: None,
            kinds: None,
            coll: None,
        }
    }
    pub fn fresh(mut self, f: impl Fn(&str) -> bool + 'a) -> Self {
        self.fresh = Box::new(f);
        self
    }
    pub fn events(mut self, f: impl Fn(&str) -> bool + 'a) -> Self {
        self.event = Box::new(f);
        self
    }
    pub fn unroll(mut self, n: Option<usize>) -> Self {
        self.unroll = n;
        self
    }
    pub fn mhook(mut self, f: impl Fn(&Interp<Trace<'a>>, &Rc<Cx>, &St<TW>, &MCall) -> Option<Out<TW>> + 'a) -> Self {
        self.mhook = Some(Box::new(f));
        self
    }
    pub fn chook(mut self, f: impl Fn(&Interp<Trace<'a>>, &Rc<Cx>, &St<TW>, &[String], &[V], usize) -> Option<Out<TW>> + 'a) -> Self {
        self.chook = Some(Box::new(f));
        self
    }
    pub fn kinds(mut self, k: Rc<super::kinds::Kinds>) -> Self {
        self.kinds = Some(k);
        self
    }
    pub fn loops(mut self) -> Self {
        self.loops = true;
        self
    }
    pub fn no_closures(mut self) -> Self {
        self.closures = false;
        self
    }
    pub fn coll(mut self, n: usize) -> Self {
        self.coll = Some(n);
        self
    }
    pub fn cap(mut self, n: usize) -> Self {
        self.cap = n;
        self
    }
}
pub struct Trace<'a> {
    pub cfg: Cfg<'a>,
    pub panics: std::cell::RefCell<Vec<(FnId, usize, String)>>,
}
#[derive(Clone, PartialEq, Eq, Hash, Default)]
pub struct TW {
    pub n: u32,
}
impl<'a> Domain for Trace<'a> {
    type W = TW;
    fn may_inline(&self, it: &Interp<Self>, f: FnId) -> bool {
        (self.cfg.inline)(&it.repo.fns[f])
    }
    fn unroll(&self) -> Option<usize> {
        self.cfg.unroll
    }
    fn explore_closures(&self) -> bool {
        self.cfg.closures
    }
    fn cap(&self) -> usize {
        self.cfg.cap
    }
    fn merge_at(&self) -> usize {
        self.cfg.merge_at
    }
    fn path(&self, _it: &Interp<Self>, _cx: &Rc<Cx>, segs: &[String]) -> Option<V> {
        let k = self.cfg.kinds.as_ref()?;
        let last = segs.last()?;
        if segs.len() == 1 || segs[segs.len() - 2] == "SyntaxKind" {
            return k.idx.get(last).map(|k| V::Kinds(KSet::one(*k)));
        }
        None
    }
    fn mac(&self, _it: &Interp<Self>, _cx: &Rc<Cx>, st: &St<TW>, m: &'static syn::Macro) -> Option<Out<TW>> {
        self.pat_mac(_it, m).map(|v| vec![(st.clone(), Flow::Val(v))])
    }
    fn pat_mac(&self, _it: &Interp<Self>, m: &'static syn::Macro) -> Option<V> {
        let k = self.cfg.kinds.as_ref()?;
        if !m.path.is_ident("T") {
            return None;
        }
        k.t.get(&super::kinds::norm(&m.tokens)).map(|k| V::Kinds(KSet::one(*k)))
    }
    fn eq(&self, _it: &Interp<Self>, st: &St<TW>, a: &V, b: &V) -> Option<Vec<(St<TW>, bool)>> {
        match (a, b) {
            (V::Kinds(a), V::Kinds(b)) if self.cfg.kinds.is_some() && a.len() == 1 && b.len() == 1 => Some(vec![(st.clone(), a == b)]),
            _ => None,
        }
    }
    fn opaque(&self, it: &Interp<Self>, cx: &Rc<Cx>, st: &mut St<TW>, name: &str, args: &[V], line: usize) {
        if (self.cfg.event)(name) {
            let a: Vec<V> = args.iter().map(|x| it.deref(st, x)).collect();
            st.event(name, a, cx.func, line);
        }
    }
    fn iterate(&self, it: &Interp<Self>, st: &St<TW>, over: &V) -> Option<Vec<(St<TW>, Vec<V>)>> {
        self.cfg.coll.map(|n| super::pkg::elements(it, st, over, n))
    }
    fn for_over(&self, it: &Interp<Self>, cx: &Rc<Cx>, st: &mut St<TW>, over: &V, line: usize) {
        if self.cfg.loops {
            let a = vec![it.deref(st, over)];
            st.event("for", a, cx.func, line);
        }
    }
    fn call(&self, it: &Interp<Self>, cx: &Rc<Cx>, st: &St<TW>, segs: &[String], _f: Option<FnId>, args: &[V], line: usize) -> Option<Out<TW>> {
        self.cfg.chook.as_ref().and_then(|h| h(it, cx, st, segs, args, line))
    }
    fn method(&self, it: &Interp<Self>, cx: &Rc<Cx>, st: &St<TW>, c: &MCall) -> Option<Out<TW>> {
        if let Some(o) = self.cfg.mhook.as_ref().and_then(|h| h(it, cx, st, c)) {
            return Some(o);
        }
        if let Some(o) = self.cfg.coll.and_then(|n| super::pkg::coll(it, cx, st, c, n)) {
            return Some(o);
        }
        if c.name == "for_each" && c.args.len() == 1 && matches!(c.args[0], V::Closure(_)) && matches!(it.deref(st, &c.recv), V::Sym(_)) {
            // the same as a `for` loop over the receiver
            let recv = it.deref(st, &c.recv);
            let mut s0 = st.clone();
            if self.cfg.loops {
                s0.event("for", vec![recv.clone()], cx.func, c.line);
            }
            let mut live = vec![s0];
            let mut out: Out<TW> = live.iter().map(|s| (s.clone(), Flow::Val(V::Unit))).collect();
            for k in 1..=self.cfg.unroll.unwrap_or(2) + 1 {
                let mut next = vec![];
                for s in live {
                    let e = it.sym("elem", vec![recv.clone(), V::Int(c.line as i128), V::Int(k as i128)]);
                    for (s2, f) in it.apply(cx, &c.args[0], vec![e], s, c.line) {
                        match f {
                            Flow::Val(_) => {
                                out.push((s2.clone(), Flow::Val(V::Unit)));
                                next.push(s2);
                            }
                            f => out.push((s2, f)),
                        }
                    }
                }
                live = next;
                if out.len() > self.cfg.cap {
                    break;
                }
            }
            return Some(out);
        }
        let nm = format!(".{}", c.name);
        if (self.cfg.fresh)(&nm) {
            let mut s = st.clone();
            s.w.n += 1;
            let mut a = vec![c.recv.clone()];
            a.extend(c.args.iter().map(|x| it.deref(&s, x)));
            if (self.cfg.event)(&nm) {
                s.event(&nm, a.clone(), cx.func, c.line);
            }
            a.push(V::Tag("fresh", s.w.n));
            let v = it.sym(&format!("{nm}()"), a);
            return Some(vec![(s, Flow::Val(v))]);
        }
        None
    }
    fn panic(&self, _it: &Interp<Self>, cx: &Rc<Cx>, _st: &St<TW>, _k: PanicKind, line: usize, msg: &str) {
        self.panics.borrow_mut().push((cx.func, line, msg.to_string()));
    }
    fn assign_field(&self, it: &Interp<Self>, st: &St<TW>, base: &V, name: &str, v: &V) -> Option<St<TW>> {
        let _ = (it, st, base, name, v);
        None
    }
}
pub struct PathR {
    pub st: St<TW>,
    pub ret: V,
}
pub struct Traced<'r, 'a> {
    pub it: Interp<'r, Trace<'a>>,
    pub paths: Vec<PathR>,
}
pub fn trace<'r, 'a>(repo: &'r Repo, id: FnId, args: Option<Vec<V>>, cfg: Cfg<'a>) -> Traced<'r, 'a> {
    let it = Interp::new(repo, Trace { cfg, panics: Default::default() });
    let paths = run(&it, id, args);
    Traced { it, paths }
}
/// default symbolic arguments: one symbol per parameter, `self` included
pub fn sym_args<D: Domain>(it: &Interp<D>, id: FnId) -> Vec<V> {
    let f = &it.repo.fns[id];
    f.sig
        .inputs
        .iter()
        .map(|p| match p {
            syn::FnArg::Receiver(_) => it.sym("self", vec![]),
            syn::FnArg::Typed(t) => match &*t.pat {
                syn::Pat::Ident(i) => it.sym(&i.ident.to_string(), vec![]),
                _ => it.sym("arg", vec![]),
            },
        })
        .collect()
}
pub fn run<'r, 'a>(it: &Interp<'r, Trace<'a>>, id: FnId, args: Option<Vec<V>>) -> Vec<PathR> {
    run_st(it, id, args, St::new(TW::default()))
}
/// as `run`, from a state in which the arguments already live
pub fn run_st<'r, 'a>(it: &Interp<'r, Trace<'a>>, id: FnId, args: Option<Vec<V>>, st: St<TW>) -> Vec<PathR> {
    let a = args.unwrap_or_else(|| sym_args(it, id));
    let cx = it.cx_for(id, vec![]);
    let out = it.inline(&Rc::new(Cx { func: id, module: cx.module.clone(), self_ty: cx.self_ty.clone(), stack: vec![], ret_opt: cx.ret_opt }), id, a, st);
    out.into_iter()
        .filter_map(|(st, f)| match f {
            Flow::Val(v) | Flow::Ret(v) => Some(PathR { st, ret: v }),
            _ => None,
        })
        .collect()
}
impl<'r, 'a> Traced<'r, 'a> {
    pub fn dump(&self) {
        for (i, p) in self.paths.iter().enumerate() {
            println!("--- path {i}: ret {}", self.it.show(&p.ret));
            for (t, f) in p.st.facts.iter() {
                println!("     fact {} = {:?}", self.it.show(&V::Sym(*t)), f);
            }
            for e in p.st.events.iter() {
                println!(
                    "     ev {}:{} {}({})",
                    self.it.repo.fns[e.func].short(),
                    e.line,
                    e.name,
                    e.args.iter().map(|a| self.it.show(a)).collect::<Vec<_>>().join(", ")
                );
            }
            for (t, v) in p.st.heap.iter() {
                println!("     heap {} := {}", self.it.show(&V::Sym(*t)), self.it.show(v));
            }
        }
        println!("{} paths; overflow {:?}; panics at {:?}", self.paths.len(), self.it.overflow.borrow(), self.it.dom.panics.borrow().iter().map(|p| p.1).collect::<std::collections::BTreeSet<_>>());
    }
}
