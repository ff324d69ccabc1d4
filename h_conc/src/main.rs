mod f05;
mod i02;
mod ilm;
mod sys;

use mclib::{Check, Level};
use std::path::{Path, PathBuf};

pub fn base() -> PathBuf {
    PathBuf::from("/dev/shm").join(format!("mc-conc-{}", std::process::id()))
}

pub fn schedule(s: &[(usize, &'static str)]) -> String {
    let mut out = String::from("schedule:");
    let mut last = usize::MAX;
    for (t, what) in s {
        if *t != last {
            out += &format!("\n    thread {t}:");
            last = *t;
        }
        out += &format!(" {what};");
    }
    out
}

fn main() {
    let c = |property, rule, scenarios| Check {
        property,
        level: Level::ModelChecking,
        rule,
        assumptions: vec![
            "threads interact only at locks, atomics, system calls and storage operations, all of which are scheduling points",
            "sequentially consistent atomics (weaker orderings are not explored)",
            "the small-constants build differs from the shipped one only in its growth unit and mapping limit",
        ],
        scenarios,
    };
    let stand = "the key-index stand-in behaves like sled: atomic operations in program order, of which a crash loses a suffix not yet flushed";
    let mut i01 = c("I01", "each execution is one history of a real map; a state is the list of entries", ilm::i01);
    let mut i03 = c("I03", "each execution is one history with one set of crash or failure points; an outcome is what was left to recover", ilm::i03);
    i01.assumptions = vec![stand];
    i03.assumptions = vec![stand, "a stopped process leaves everything it stored in mapped files"];
    i03.level = Level::FaultEnumeration;
    mclib::main(vec![
        i01,
        i03,
        c("F05", "each execution is one schedule of one program on a real database; a state is a program and what its operations returned", f05::f05),
        c("I02", "each execution is one schedule of one program on a real map; a state is a program and what its operations returned", i02::i02),
    ])
}
