//! S01-S04: views of the grammar analysis.
use crate::repo::Repo;
use crate::report::Report;
use crate::rules::grammar::{GrammarResult, analyse};
use std::cell::RefCell;
use std::rc::Rc;

thread_local! {
    static CACHE: RefCell<Option<Rc<GrammarResult>>> = const { RefCell::new(None) };
}
pub fn result(repo: &Repo) -> Rc<GrammarResult> {
    CACHE.with(|c| c.borrow_mut().get_or_insert_with(|| Rc::new(analyse(repo, None))).clone())
}

fn base(repo: &Repo, prop: &str, rule: &str) -> (Rc<GrammarResult>, Report) {
    let g = result(repo);
    let mut r = Report::new(rule);
    for p in &g.problems {
        r.problem(p.clone());
    }
    for v in g.viols.iter().filter(|v| v.prop == prop) {
        r.viol(v.key.clone(), v.msg.clone(), &v.file, v.line);
    }
    r.floor("grammar_functions", g.stats.fns.len(), 120);
    r.floor("call_sites", g.stats.calls.len(), 200);
    r.count("abstract_entry_states", g.stats.keys);
    r.count("function_exits_examined", g.stats.exits);
    r.count("summary_outcomes", g.n_outcomes);
    for e in &g.entry_points {
        r.sample(format!("entry point {e}"));
    }
    for f in g.fn_names.iter().take(8) {
        r.sample(f.clone());
    }
    r.assume("std and the primitive operations of the parser (start/complete/abandon/rollback/bump, token source) behave as modelled; their own source is checked by S06");
    (g, r)
}
fn tally(r: &mut Report, n: usize) {
    r.obligations += n;
    r.discharged += n - r.findings.len().min(n);
}

pub fn s01(repo: &Repo, _t: bool) -> Report {
    let (g, mut r) = base(
        repo,
        "S01",
        "Interprocedural typestate analysis of node markers over every path of every grammar function reachable from the parse entry points: each opened marker is completed, abandoned, rolled back or handed to the caller exactly once, on every exit, and never used after its start event was rolled back.",
    );
    r.floor("marker_open_sites", g.stats.starts.len(), 120);
    tally(&mut r, g.stats.starts.len() + g.stats.exits);
    r
}
pub fn s02(repo: &Repo, _t: bool) -> Report {
    let (g, mut r) = base(
        repo,
        "S02",
        "Interprocedural abstract interpretation over sets of token kinds (current token, three tokens of look-ahead, jointness, known text): at every unconditional consume, assertion, unwrap, unreachable!/panic! in the grammar, the failing case is shown unreachable from the parse entry points.",
    );
    r.floor("consume_and_assert_sites", g.stats.consumes.len() + g.stats.asserts.len(), 250);
    tally(&mut r, g.stats.consumes.len() + g.stats.asserts.len());
    r
}
pub fn s03(repo: &Repo, _t: bool) -> Report {
    let (g, mut r) = base(
        repo,
        "S03",
        "Progress analysis: every loop iteration in the grammar and in the parser's iteration helpers consumes a token (or advances a look-ahead index) before it goes round again, and no cycle of calls exists in which nothing was consumed.",
    );
    r.floor("loops", g.stats.loops.len(), 6);
    tally(&mut r, g.stats.loops.len() + g.stats.keys);
    r
}
pub fn s04(repo: &Repo, _t: bool) -> Report {
    let (g, mut r) = base(
        repo,
        "S04",
        "Effect-balance analysis: on every exit of every grammar function (early returns and `?` included) the recovery-set stack has the depth it had on entry and the statement kind has the value it had on entry.",
    );
    r.floor("recovery_push_sites", g.stats.recov.len(), 1);
    tally(&mut r, g.stats.exits);
    r
}
