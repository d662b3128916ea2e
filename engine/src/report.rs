//! What a rule hands back, and how it becomes an exit code, a VIOLATION line and an evidence file.
use serde_json::{Map, Value, json};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};

#[derive(Clone, Debug)]
pub struct Finding {
    /// stable identity: rule + construct, never a line number
    pub key: String,
    pub msg: String,
    pub file: String,
    pub line: usize,
}

#[derive(Default)]
pub struct Report {
    pub rule: String,
    pub findings: Vec<Finding>,
    /// things the analysis could not decide: they fail the check (fail closed)
    pub problems: Vec<String>,
    pub assumptions: Vec<String>,
    pub obligations: usize,
    pub discharged: usize,
    pub cov: Map<String, Value>,
    pub samples: Vec<String>,
}

impl Report {
    pub fn new(rule: &str) -> Report {
        Report { rule: rule.into(), ..Default::default() }
    }
    /// one proof obligation, examined on this run
    pub fn ob(&mut self, ok: bool, key: impl Into<String>, msg: impl Into<String>, file: &str, line: usize) -> bool {
        self.obligations += 1;
        if ok {
            self.discharged += 1;
        } else {
            self.viol(key, msg, file, line);
        }
        ok
    }
    pub fn viol(&mut self, key: impl Into<String>, msg: impl Into<String>, file: &str, line: usize) {
        let f = Finding { key: key.into(), msg: msg.into(), file: file.into(), line };
        if !self.findings.iter().any(|x| x.key == f.key) {
            self.findings.push(f);
        }
    }
    pub fn problem(&mut self, p: impl Into<String>) {
        let p = p.into();
        if !self.problems.contains(&p) {
            self.problems.push(p);
        }
    }
    /// the analysis must have seen at least `min` instances, or it is looking at the wrong thing
    pub fn floor(&mut self, what: &str, n: usize, min: usize) {
        self.cov.insert(what.into(), json!(n));
        if n < min {
            self.problem(format!("only {n} {what} found, at least {min} expected: the rule has lost its subject"));
        }
    }
    pub fn count(&mut self, what: &str, n: usize) {
        self.cov.insert(what.into(), json!(n));
    }
    pub fn sample(&mut self, s: impl Into<String>) {
        if self.samples.len() < 12 {
            self.samples.push(s.into());
        }
    }
    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.into());
    }
}

pub fn known(verif: &Path, id: &str) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    let Ok(t) = std::fs::read_to_string(verif.join("known_findings.txt")) else { return m };
    for l in t.lines() {
        // finding: property=<id> key=<key> :: <what fails>
        let Some(r) = l.strip_prefix("finding: property=") else { continue };
        let Some((p, r)) = r.split_once(" key=") else { continue };
        if p != id {
            continue;
        }
        let (k, d) = r.split_once(" :: ").unwrap_or((r, ""));
        m.insert(k.trim().to_string(), d.trim().to_string());
    }
    m
}

pub fn finish(id: &str, mut r: Report, tier: &str, secs: f64, verif: &Path) -> i32 {
    let dir: PathBuf = verif.join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    for p in r.problems.clone() {
        r.findings.push(Finding { key: format!("undecided:{p}"), msg: format!("undecided: {p}"), file: String::new(), line: 0 });
    }
    let kn = known(verif, id);
    let mut new = vec![];
    let mut old = vec![];
    for f in &r.findings {
        if kn.contains_key(&f.key) { old.push(f) } else { new.push(f) }
    }
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut cov = r.cov.clone();
    cov.insert(
        "explanation".into(),
        json!(format!(
            "Static analysis of the source tree: {} {} obligations examined on this run, {} discharged, {} listed as known findings, {} violations.",
            r.rule, r.obligations, r.discharged, old.len(), new.len()
        )),
    );
    cov.insert("rule".into(), json!(r.rule));
    cov.insert("obligations".into(), json!(r.obligations));
    cov.insert("discharged".into(), json!(r.discharged));
    cov.insert("known_findings".into(), json!(old.iter().map(|f| f.key.clone()).collect::<Vec<_>>()));
    cov.insert("violations".into(), json!(new.iter().map(|f| format!("{}: {} ({}:{})", f.key, f.msg, f.file, f.line)).collect::<Vec<_>>()));
    cov.insert("samples".into(), json!(r.samples));
    cov.insert("assumptions".into(), json!(r.assumptions));
    let ev = json!({
        "property": id,
        "tier": tier,
        "seed": seed,
        "level": "other",
        "coverage": Value::Object(cov),
        "wall_s": secs,
    });
    if let Err(e) = std::fs::write(dir.join(format!("{id}.json")), serde_json::to_string_pretty(&ev).unwrap()) {
        println!("cannot write evidence: {e}");
    }
    for f in &old {
        println!("KNOWN-FINDING: property={id} {} ({})", f.key, kn[&f.key]);
    }
    println!("{id}: {} obligations, {} discharged, {} known, {} new", r.obligations, r.discharged, old.len(), new.len());
    if new.is_empty() {
        return 0;
    }
    let rp = dir.join(format!("{id}.violation.txt"));
    let mut t = String::new();
    for f in &new {
        t.push_str(&format!("{} {}\n  at {}:{}\n  {}\n", id, f.key, f.file, f.line, f.msg));
        println!("  {}:{}: {}", f.file, f.line, f.msg);
    }
    let _ = std::fs::write(&rp, t);
    println!("VIOLATION property={id} replay={}", rp.display());
    1
}
