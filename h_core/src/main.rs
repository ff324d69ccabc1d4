mod cip14;
mod ints;
mod num;
mod store;
mod value;

use mclib::{Check, Level};

fn main() {
    let c = |property, rule, scenarios| Check {
        property,
        level: Level::ModelChecking,
        rule,
        assumptions: vec![
            "values outside the enumerated alphabets behave like those inside",
            "num-bigint integer arithmetic (the oracle's integers) is correct",
        ],
        scenarios,
    };
    mclib::main(vec![
        c("C01", "each execution is one operation history run on the real store; a state is the set of outputs present", store::c01),
        c("C02", "each execution is one operation history run on the real store; a state is the set of outputs present", store::c02),
        c("C03", "each execution is one history of edits and snapshots; a state is the contents of the edited store and of all live snapshots", store::c03),
        c("C04", "each execution is one sequence of balance operations; a state is the exact amount", value::c04),
        c("C05", "each execution is one number taken through one group of conversions", value::c05),
        c("C06", "each execution is one text or number; a state is the text or number", value::c06),
        c("C07", "each execution is one operand pair; a state is the pair of exact numbers", value::c07),
        c("C08", "each execution is one operand pair or chain of operations; a state is the exact number(s)", ints::c08),
        c("C09", "each execution is one text, number, identifier or record", ints::c09),
        c("U01", "each execution is one policy id and asset name", cip14::u01),
    ])
}
