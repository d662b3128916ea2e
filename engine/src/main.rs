#![allow(dead_code)]
mod absint;
mod mac;
mod repo;
mod report;
mod rules;
use std::path::PathBuf;

fn run() -> i32 {
    let a: Vec<String> = std::env::args().collect();
    let root = std::env::var("VERIF_REPO").unwrap_or("/repo".into());
    let verif = PathBuf::from(std::env::var("VERIF_DIR").unwrap_or("/verif".into()));
    let tier = std::env::var("VERIF_TIER").unwrap_or("quick".into());
    let Some(id) = a.get(1).cloned() else {
        println!("usage: sa <PROPERTY>|list");
        return 2;
    };
    if id == "list" {
        for (i, _) in rules::RULES {
            println!("{i}");
        }
        return 0;
    }
    let t0 = std::time::Instant::now();
    let r = repo::Repo::load(std::path::Path::new(&root));
    if id == "dump" {
        // debugging aid: sa dump <file suffix> <fn> [self type] [inline file suffixes,..]
        let st = a.get(4).map(|s| s.as_str()).filter(|s| *s != "-");
        let Some(f) = r.fn_in(&a[2], st, &a[3]) else {
            println!("no such function");
            return 2;
        };
        let inl: Vec<String> = a.get(5).map(|s| s.split(',').map(|x| x.to_string()).collect()).unwrap_or_default();
        let cfg = rules::trace::Cfg::new(move |g| inl.iter().any(|x| g.file.ends_with(x.as_str())));
        rules::trace::trace(&r, f.id, None, cfg).dump();
        return 0;
    }
    let ids: Vec<&str> = if id == "all" { rules::RULES.iter().map(|r| r.0).collect() } else { vec![id.as_str()] };
    let mut rc = 0;
    for id in ids {
        let t1 = if ids_len(&a) { t0 } else { std::time::Instant::now() };
        let Some((_, f)) = rules::RULES.iter().find(|(i, _)| *i == id) else {
            println!("no rule decides {id}");
            return 2;
        };
        let mut rep = f(&r, tier == "thorough");
        for e in &r.parse_errors {
            rep.problem(format!("source file does not parse: {e:?}"));
        }
        rc |= report::finish(id, rep, &tier, t1.elapsed().as_secs_f64(), &verif);
    }
    rc
}
fn ids_len(a: &[String]) -> bool {
    a.get(1).is_some_and(|x| x != "all")
}
fn main() {
    let h = std::thread::Builder::new().stack_size(4 << 30).spawn(run).unwrap();
    let rc = h.join().unwrap_or(2);
    std::process::exit(rc);
}
