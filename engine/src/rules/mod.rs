pub mod grammar;
pub mod kinds;
pub mod lexer;
pub mod parser_rules;
pub mod trace;
pub mod dispatch;
pub mod util;
pub mod state;
pub mod text;
pub mod tree;
pub mod ops;
pub mod lsp;
pub mod prov;
pub mod resolve;
pub mod hl;
pub mod base;
pub mod types;
pub mod children;
pub mod caps;
mod cfg;
mod watch;
mod usages;
mod proto;
mod visible;
pub mod pkg;
use crate::repo::Repo;
use crate::report::Report;

pub type Rule = fn(&Repo, bool) -> Report;
pub const RULES: &[(&str, Rule)] = &[
    ("S01", parser_rules::s01),
    ("S02", parser_rules::s02),
    ("S03", parser_rules::s03),
    ("S04", parser_rules::s04),
    ("S05", lexer::s05),
    ("S06", tree::s06),
    ("S07", ops::s07),
    ("S08", ops::s08),
    ("S09", ops::s09),
    ("S10", children::s10),
    ("L01", dispatch::l01),
    ("L02", dispatch::l02),
    ("L03", dispatch::l03),
    ("T01", text::t01),
    ("D03", text::d03),
    ("L06", state::l06),
    ("L07", state::l07),
    ("L08", state::l08),
    ("L09", state::l09),
    ("L05", hl::l05),
    ("D01", base::d01),
    ("D02", base::d02),
    ("D07", types::d07),
    ("D08", types::d08),
    ("L14", lsp::l14),
    ("L04", caps::l04),
    ("D05", pkg::d05),
    ("L10", cfg::l10),
    ("L17", watch::l17),
    ("D10", usages::d10),
    ("D04", usages::d04),
    ("D09", visible::d09),
        ("L12", proto::l12),
    ("L11", cfg::l11),
    ("L15", resolve::l15),
    ("L16", lsp::l16),
];
