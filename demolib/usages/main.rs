use shim::files::*;
use shim::*;
#[derive(Debug, Clone)]
pub struct NavigationTarget;
impl NavigationTarget { pub fn from_named_item(_: InFile<ast::NamedElement>) -> Option<NavigationTarget> { Some(NavigationTarget) } }
#[derive(Debug)] pub struct RangeInfo<T> { pub range: TextRange, pub info: T }
impl<T> RangeInfo<T> { pub fn new(range: TextRange, info: T) -> Self { RangeInfo { range, info } } }
fn at(l: &str) -> FilePosition { let n = labelled(l); FilePosition { file_id: n.file(), offset: n.child("Name").unwrap_or(n).text_range().start() } }
fn check(what: &str, got: String, want: &str) { if got != want { eprintln!("{what}: got {got}, wanted {want}"); std::process::exit(1) } }
/// the texts after renaming the name at `l`, and what else was asked
fn renamed(l: &str, new: &str) -> String {
    match rename::rename(&RootDatabase, at(l), new) { Ok(c) => c.apply().into_iter().map(|(f, t)| format!("{f}:{t}")).collect::<Vec<_>>().join("|"), Err(_) => "refused".into() }
}
fn refs(l: &str) -> String {
    let Some(r) = references::find_all_refs(&RootDatabase, at(l), None) else { return "none".into() };
    let mut v: Vec<String> = r.references.iter().flat_map(|(f, rs)| rs.iter().map(move |r| format!("{}@{}", f.0, u32::from(r.start())))).collect();
    v.sort();
    v.join(" ")
}
fn shown(l: &str) -> String {
    let p = at(l);
    let mut v: Vec<u32> = highlight_related::highlight_related(&Semantics::new(&RootDatabase, p.file_id), p).unwrap_or_default().iter().map(|r| r.start().into()).collect();
    v.sort();
    format!("{v:?}")
}
fn one(t: &str) { reset(); deps(1, &[]); file(1, 1, t) }
fn main() {
    // a struct, a local and its shorthands
    let prog = "«File «Module#m «Struct#s struct «Name S» { «NamedField#f «Name f»: u8» }» «Fun#fun fun «Name g»(«Param «IdentPat#p «Name p»»: u8») «Block { «LetStmt let «IdentPat#l «Name f»» = «NameRef=p p»»; «NameRef=s S» { «StructLitField «NameRef#sh=l/f f»» }; «NameRef=s S» { «StructLitField «NameRef=f f»: «Expr «NameRef=p p»»» }; «LetStmt let «NameRef=s S» { «StructPatField «IdentPat#q «Name=/f f»»» }»; «NameRef=q f»; let «NameRef=s S» { «StructPatField «NameRef=f f»: «IdentPat#r «Name r»»» }; «NameRef=r r»+«NameRef=p p» }»»»»";
    one(prog);
    let t0 = text(1);
    check("field", renamed("f", "new"), &format!("1:{}", t0.replace("{ f: u8 }", "{ new: u8 }").replace("S { f };", "S { new: f };").replacen("S { f: p }", "S { new: p }", 1).replace("let S { f }", "let S { new: f }").replace("let S { f: r }", "let S { new: r }")));
    check("field to the name of a value", renamed("f", "p"), &format!("1:{}", t0.replace("{ f: u8 }", "{ p: u8 }").replace("S { f };", "S { p: f };").replacen("S { f: p }", "S { p }", 1).replace("let S { f }", "let S { p: f }").replace("let S { f: r }", "let S { p: r }")));
    check("field to the name of a pattern", renamed("f", "r"), &format!("1:{}", t0.replace("{ f: u8 }", "{ r: u8 }").replace("S { f };", "S { r: f };").replacen("S { f: p }", "S { r: p }", 1).replace("let S { f }", "let S { r: f }").replace("let S { f: r }", "let S { r }")));
    check("local", renamed("l", "new"), &format!("1:{}", t0.replace("let f =", "let new =").replacen("S { f };", "S { f: new };", 1)));
    for (a, b) in [("sh", "l"), ("l", "sh")] { check("uses from a shorthand", refs(a), &refs(b)); check("highlight from a shorthand", shown(a), &shown(b)); }
    check("at a shorthand", renamed("sh", "new"), &renamed("l", "new"));
    check("local of a shorthand pattern", renamed("q", "new"), &format!("1:{}", t0.replace("let S { f }; f;", "let S { f: new }; new;")));
    check("local to its field", renamed("p", "f"), &format!("1:{}", t0.replace("g(p:", "g(f:").replace("= p;", "= f;").replacen("S { f: p }", "S { f: f }", 1).replace("+p }", "+f }")));
    check("pattern to its field", renamed("r", "f"), &format!("1:{}", t0.replace("{ f: r }; r+", "{ f: f }; f+")));
    for n in ["_", "'a", "fun", "1", "a b", ""] { check(&format!("renaming to {n:?}"), renamed("l", n), "refused"); }
    let offer = |l: &str| rename::prepare_rename(&RootDatabase, at(l)).map(|r| format!("{:?}", r.range)).unwrap_or("refused".into());
    check("offer", offer("l"), &format!("{:?}", labelled("l").text_range()));
    // at a use
    one("«File «Fun#fun fun «Name f»() «Block { «NameRef#u=fun f»(); «NameRef#al=fun g»(); «NameRef#b=builtin u8» }»»; use «UseAlias «Name#ua=fun h»» »");
    check("offer at a use", offer("u"), &format!("{:?}", labelled("u").text_range()));
    check("at a use", renamed("u", "new"), "1:fun new() { new(); new(); u8 }; use new ".replace("new(); u8", "g(); u8").replace("use new", "use h").as_str());
    for l in ["al", "b", "ua"] { check(&format!("rename at {l}"), renamed(l, "new"), "refused"); check(&format!("offer at {l}"), offer(l), "refused"); }
    // constants in patterns, item specs
    one("«File «Module#m «Const#c const «Name C» = 1»; «Fun#fun fun «Name f»(«Param «IdentPat#p «Name x»»») «Block { «NameRef=p x»; match (1) { «MatchArm «IdentPat «Name#cp=c C»» => «Expr 2»» «MatchArm «IdentPat#a «Name y»» if «NameRef=a y» => «Expr «NameRef=a y»»» } «NameRef=c C» }»» «ItemSpec#sp spec f(«ItemSpecParam «IdentPat#sx «Name=@p x»»») { «NameRef=p x» }»»»");
    item_spec("fun", "sp");
    check("constant", renamed("c", "D"), &format!("1:{}", text(1).replace('C', "D")));
    check("parameter", renamed("p", "z"), &format!("1:{}", text(1).replace('x', "z")));
    check("parameter, from the spec", renamed("sx", "z"), &format!("1:{}", text(1).replace('x', "z")));
    check("uses from the spec", refs("sx"), &refs("p"));
    check("uses from a pattern", refs("cp"), &refs("c"));
    check("arm", renamed("a", "z"), &format!("1:{}", text(1).replace('y', "z")));
    // the whole of what a variable is bound in, and nothing else
    one("«File «Module#m «Lemma#lm lemma «Name l»(«Param «IdentPat#p «Name x»»») «Block { «NameRef=p x» }» «Proof proof { «NameRef=p x» }»» «Fun#fun fun «Name f»() «Block { «LambdaExpr |«LambdaParam «IdentPat#lp «Name e»»», 1| «Expr «NameRef=lp e»»»; «ForExpr for («ForCondition «IdentPat#i «Name i»» in 0..2 spec { «NameRef=i i» }») «Block { «NameRef=i i» }»»; «LetStmt let «IdentPat#v «Name v»» = 1»; «NameRef=v v» }»»»»");
    for (l, a, b) in [("p", 'x', 'z'), ("lp", 'e', 'z'), ("i", 'i', 'z'), ("v", 'v', 'z')] {
        let r = renamed(l, "z");
        let n = labelled("m").text().len();
        check(l, r.len().to_string(), &(n + 2).to_string());
        let uses = match l { "p" => 2, "i" => 2, _ => 1 };
        check(&format!("uses of {l}"), refs(l).split(' ').count().to_string(), &uses.to_string());
        let _ = (a, b);
    }
    // other packages
    reset();
    for (p, d) in [(1, &[2, 3][..]), (2, &[3]), (3, &[]), (4, &[3]), (5, &[])] { deps(p, d); }
    file(31, 3, "«File «Module#m «Fun#fun fun «Name run»() {}» «Schema#sc schema S { «SchemaField «IdentPat#sf «Name q»»» }» «Struct#st struct «Name S» { «NamedField#fl «Name q2»» }»»»");
    file(32, 3, "«File «NameRef=fun run»(); xrun;run1»");
    file(21, 2, "«File («NameRef=fun run»)»");
    file(11, 1, "«File »");
    file(12, 1, "«File 0x1::m::«NameRef=fun run»<u8>(); include S { «NameRef=sf q»: 1 }; s.«NameRef=fl q2» »");
    file(41, 4, "«File \n«NameRef=fun run»;«NameRef=fun run»,_run,«NameRef=fun run»»");
    file(51, 5, "«File run»");
    check("across packages", refs("fun"), "12@8 21@1 32@0 41@1 41@14 41@5".split(' ').collect::<Vec<_>>().join(" ").as_str());
    check("schema field", refs("sf"), "12@31");
    check("field", refs("fl"), "12@41");
    check("all files", renamed("fun", "go").split('|').map(|x| x.split(':').next().unwrap().to_string()).collect::<Vec<_>>().join(" "), "12 21 31 32 41");
    check("highlight", shown("fun"), "[4]");
    // module scope: the specs of the module
    reset();
    deps(1, &[]);
    file(1, 1, "«File «Module#m «ItemSpec {«QuantBinding forall «IdentPat#x «Name x»»»: «NameRef=x x» == «NameRef=x x»}»»»");
    file(2, 1, "«File «ModuleSpec#ms spec m { «NameRef=x x» }»»");
    module_spec("m", "ms");
    check("module and its spec", refs("x"), "1@11 1@16 2@9");
    check("highlight here", shown("x"), "[8, 11, 16]");
    // what must not be touched
    reset();
    deps(1, &[60]); deps(60, &[]); deps(99, &[]);
    file(100, 99, "«File «Fun#bf fun «Name vector»()»»");
    file(61, 60, "«File «Fun#lf fun «Name lib»()»»");
    file(1, 1, "«File «NameRef#u1=bf vector» «NameRef#u2=lf lib»»");
    check("builtin", renamed("u1", "x"), "refused");
    check("library", renamed("u2", "x"), "refused");
    check("uses of a library item", refs("u2"), "1@7");
}
