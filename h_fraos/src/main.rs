mod crash;
mod db;
mod ops;
mod sys;

use mclib::{Check, Level};

fn main() {
    let c = |property, level, rule, scenarios| Check {
        property,
        level,
        rule,
        assumptions: vec![
            "files on tmpfs seen through shared mappings behave like files on the production filesystem",
            "the small-constants build differs from the shipped one only in its growth unit and mapping limit",
        ],
        scenarios,
    };
    let crash = |property, rule, scenarios| {
        let mut k = c(property, Level::FaultEnumeration, rule, scenarios);
        k.assumptions.extend([
            "stores made between two system calls reach the page cache in address order, a machine word at a time",
            "the device persists whole 4 KiB pages, and synchronizing a range also persists the length of the file",
            "a created file's directory entry is durable",
        ]);
        k
    };
    mclib::main(vec![
        c("F01", Level::ModelChecking, "each execution is one sequence of appends on a real database; a state is the list of record sizes", ops::f01),
        c("F02", Level::ModelChecking, "each execution is one history of appends, closes and kills on real files; a state is the list of record sizes", ops::f02),
        crash("F03", "each execution is one history on real files with all its crash states recovered; a state is the content of the files and the records recovered from it", crash::f03),
        crash("F04", "each execution is one history with one placement of failing calls; a state is the list of record sizes and the call that failed", crash::f04),
        c("F06", Level::ModelChecking, "each execution is one history of handles and iterators; a state is the records, live handles and iterator positions", ops::f06),
        c("F07", Level::ModelChecking, "each execution is one set of files opened read-only", ops::f07),
    ])
}
