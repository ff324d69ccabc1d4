mod conf;
mod era;
mod mv;
mod net;

use mclib::{Check, Level};
use std::{
    path::{Path, PathBuf},
    sync::atomic::{AtomicU64, Ordering},
};

pub fn base() -> PathBuf {
    PathBuf::from("/dev/shm").join(format!("mc-multi-{}", std::process::id()))
}

pub fn fresh() -> PathBuf {
    static NEXT: AtomicU64 = AtomicU64::new(0);
    base().join(format!("m{}", NEXT.fetch_add(1, Ordering::Relaxed)))
}

fn main() {
    let stand = "the storage stand-in behaves like sled (compared with it by M05)";
    let c = |property, rule, scenarios| Check { property, level: Level::ModelChecking, rule, assumptions: vec![stand, "blocks are numbered higher than their parents"], scenarios };
    let history = "each execution is one history of a real multiverse; a state is its set of members";
    let run = "each execution is one run of the real source over one history of the node; a state is the node's blocks, what it reported and what the consumer has";
    let b = |property, scenarios| Check {
        property,
        level: Level::ModelChecking,
        rule: run,
        assumptions: vec![stand, "the wrapped source behaves like the Cardano source: it serves the range it has under way, then a new one from the highest checkpoint on the node's chain", "forks leave no block that has the configured number of confirmations, and not the first block"],
        scenarios,
    };
    let plain = |property, rule, scenarios| Check { property, level: Level::ModelChecking, rule, assumptions: vec!["values outside the enumerated alphabets behave like those inside"], scenarios };
    mclib::main(vec![
        b("B01", net::b01),
        b("B02", net::b02),
        b("B03", net::b03),
        b("B04", net::b04),
        b("B05", net::b05),
        plain("B06", "each execution is a walk over consecutive slots of one era", era::b06),
        plain("B07", "each execution is one point, pair of points or hash text", era::b07),
        c("M01", history, mv::m01),
        c("M02", history, mv::m02),
        c("M03", history, mv::m03),
        c("M04", history, mv::m04),
        c("M05", history, mv::m05),
        c("M06", "each execution is one history of a real multiverse and of the handles taken from it; a state is its set of members and the number of handles", mv::m06),
        Check { level: Level::FaultEnumeration, ..c("M07", "each execution is one history with one placement of refused storage operations; an outcome is a set of members and a number of failures", mv::m07) },
    ])
}
