//! Small exhaustive explorer used by every harness in /verif.
//!
//! A *scenario* is a closed program over the real code whose only source of nondeterminism is
//! [`Ctx::choose`] / [`Ctx::dev`].  The explorer runs it for every sequence of choices (depth-first,
//! on all cores, splitting the choice tree), optionally merging runs that reach an already explored
//! canonical state ([`Ctx::prune`]).  A violation is re-executed twice from its choice sequence, must
//! reproduce identically, and is written to a replay file.
//!
//! The exploration itself runs in a child process: a crash (SIGSEGV, SIGBUS, abort, stack overflow) or
//! a hang of the code under test is attributed to the execution that was running, re-run alone to
//! confirm it, and reported as a violation too.

mod engine;
mod hash;
mod report;
mod supervise;

pub use engine::{take_panic, Ctx, Divergence, End, RunResult, Violation};
pub use hash::with_hash_seed;
pub use supervise::main;

/// A closed, exhaustively explorable program.
pub struct Scenario {
    pub name: String,
    /// alphabet, bound and oracle, for the evidence file
    pub what: String,
    /// how many non-default answers [`Ctx::dev`] may give per execution
    pub deviations: u32,
    pub run: Box<dyn Fn(&mut Ctx) -> RunResult + Send + Sync>,
    /// split over processes instead of threads
    pub processes: bool,
}

impl Scenario {
    pub fn new(
        name: impl Into<String>,
        what: impl Into<String>,
        deviations: u32,
        run: impl Fn(&mut Ctx) -> RunResult + Send + Sync + 'static,
    ) -> Self {
        Scenario { name: name.into(), what: what.into(), deviations, run: Box::new(run), processes: false }
    }

    /// Explores this scenario with one process per core rather than one thread: for executions that map memory or
    /// switch threads all the time, which threads of one process do at each other's expense.  States are merged
    /// within a process only.
    pub fn in_processes(mut self) -> Self {
        self.processes = true;
        self
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    /// `q` in the quick tier, `t` in the thorough one
    pub fn of<T>(self, q: T, t: T) -> T {
        match self {
            Tier::Quick => q,
            Tier::Thorough => t,
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Level {
    ModelChecking,
    FaultEnumeration,
}

pub struct Check {
    pub property: &'static str,
    pub level: Level,
    pub rule: &'static str,
    pub assumptions: Vec<&'static str>,
    pub scenarios: fn(Tier) -> Vec<Scenario>,
}

/// Builds a violation: `sig` identifies the failure stably (it is what the known-findings file lists),
/// `msg` explains this instance.
pub fn violation(sig: impl Into<String>, msg: impl Into<String>) -> Violation {
    Violation { sig: sig.into(), msg: msg.into() }
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $sig:expr, $($msg:tt)*) => {
        if !$cond { return Err($crate::violation($sig, format!($($msg)*))); }
    };
}

#[macro_export]
macro_rules! ensure_eq {
    ($left:expr, $right:expr, $sig:expr, $($msg:tt)*) => {{
        let (l, r) = (&$left, &$right);
        if l != r {
            return Err($crate::violation($sig, format!("{}: got {:?}, expected {:?}", format!($($msg)*), l, r)));
        }
    }};
}
