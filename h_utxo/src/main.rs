mod balance;
mod common;
mod select;

use mclib::{Check, Level};

fn main() {
    let c = |property, rule, scenarios| Check {
        property,
        level: Level::ModelChecking,
        rule,
        assumptions: vec!["fee estimators are additive: a fee per input, per output and per asset", "available inputs are distinct and not among the fixed ones"],
        scenarios,
    };
    let case = "each execution is one selection over one set of inputs, outputs and fees, with one outcome of every random draw";
    let given = "each execution is one set of inputs, outputs and fees";
    mclib::main(vec![
        c("S01", case, select::s01),
        c("S02", case, select::s02),
        c("S03", case, select::s03),
        c("S04", "each execution is one history of selections and resets of one selector", select::s04),
        c("S05", given, balance::s05),
        c("S06", given, balance::s06),
        c("S07", given, balance::s07),
        c("S08", given, balance::s08),
    ])
}
