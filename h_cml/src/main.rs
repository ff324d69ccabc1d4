//! What the repository builds on cardano-multiplatform-lib: conversions, assumed costs, fee estimators.

mod convert;
mod costs;
mod estimate;

use mclib::{Check, Level};

fn main() {
    let c = |property, rule, scenarios| Check {
        property,
        level: Level::ModelChecking,
        rule,
        assumptions: vec!["cardano-multiplatform-lib is a stand-in with the ledger's encoding: every run compares it with the sizes and fees that the repository's tests record for the real library"],
        scenarios,
    };
    mclib::main(vec![
        c("U02", "each execution converts one input and output, or one list of assets", convert::u02),
        c("U03", "each execution is one network, one multisig plan and the transactions of one shape", costs::u03),
        c("U04", "each execution is one plan in one written form", costs::u04),
        c("S09", "each execution is one history of additions to one estimator, or one selection with it", estimate::s09),
    ])
}
