use crate::Scenario;
use std::cell::RefCell;
use std::collections::HashMap;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Condvar, Mutex};
use std::time::Instant;

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Violation {
    pub sig: String,
    pub msg: String,
}

pub enum End {
    /// the execution ran to its end and everything it checked held
    Done,
    /// the execution reached a state that is explored from elsewhere
    Pruned,
}

pub type RunResult = Result<End, Violation>;

pub type Choice = (u32, u32);

/// thrown (as a panic payload) when an execution does not follow the prefix it was given
pub struct Divergence(pub String);

const SHARDS: usize = 64;

pub struct Seen {
    shards: Vec<Mutex<HashMap<u128, u8>>>,
}

impl Seen {
    pub fn new() -> Self {
        Seen { shards: (0..SHARDS).map(|_| Mutex::new(HashMap::new())).collect() }
    }
    /// true if the state must (still) be explored with `remaining` steps to go
    fn enter(&self, key: u128, remaining: u8) -> bool {
        let mut shard = self.shards[(key as usize) % SHARDS].lock().unwrap();
        match shard.get_mut(&key) {
            Some(r) if *r >= remaining => false,
            Some(r) => {
                *r = remaining;
                true
            }
            None => {
                shard.insert(key, remaining);
                true
            }
        }
    }
    fn all(&self) -> Vec<u128> {
        self.shards.iter().flat_map(|s| s.lock().unwrap().keys().copied().collect::<Vec<_>>()).collect()
    }
    pub fn len(&self) -> usize {
        self.shards.iter().map(|s| s.lock().unwrap().len()).sum()
    }
}

pub fn hash128<T: Hash + ?Sized>(t: &T) -> u128 {
    #[allow(deprecated)]
    fn one<T: Hash + ?Sized>(t: &T, salt: u64) -> u64 {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        salt.hash(&mut h);
        t.hash(&mut h);
        h.finish()
    }
    ((one(t, 0x9e37_79b9) as u128) << 64) | one(t, 0x85eb_ca6b_0000_0001) as u128
}

/// One slot of the progress area shared with the supervising process.
#[derive(Clone, Copy)]
pub struct Slot(pub *mut u64);
unsafe impl Send for Slot {}
unsafe impl Sync for Slot {}

pub const SLOT_WORDS: usize = 4096;

impl Slot {
    pub const NONE: Slot = Slot(std::ptr::null_mut());
    fn begin(self, scenario: usize, prefix: &[Choice]) {
        if self.0.is_null() {
            return;
        }
        unsafe {
            self.0.add(1).write_volatile(scenario as u64 + 1);
            for (i, c) in prefix.iter().enumerate().take(SLOT_WORDS - 8) {
                self.0.add(4 + i).write_volatile(((c.0 as u64) << 32) | c.1 as u64);
            }
            self.0.add(2).write_volatile(prefix.len() as u64);
            self.beat();
        }
    }
    fn push(self, at: usize, c: Choice) {
        if self.0.is_null() || at >= SLOT_WORDS - 8 {
            return;
        }
        unsafe {
            self.0.add(4 + at).write_volatile(((c.0 as u64) << 32) | c.1 as u64);
            self.0.add(2).write_volatile(at as u64 + 1);
            self.beat();
        }
    }
    pub fn beat(self) {
        if !self.0.is_null() {
            unsafe { self.0.write_volatile(self.0.read_volatile().wrapping_add(1)) }
        }
    }
    fn end(self) {
        if !self.0.is_null() {
            unsafe {
                self.0.add(1).write_volatile(0);
                self.beat();
            }
        }
    }
    pub fn ticks(self) -> u64 {
        unsafe { self.0.read_volatile() }
    }
    /// the scenario and choices of the execution in progress, if any
    pub fn current(self) -> Option<(usize, Vec<Choice>)> {
        unsafe {
            let s = self.0.add(1).read_volatile();
            if s == 0 {
                return None;
            }
            let n = self.0.add(2).read_volatile() as usize;
            let v = (0..n.min(SLOT_WORDS - 8))
                .map(|i| {
                    let w = self.0.add(4 + i).read_volatile();
                    ((w >> 32) as u32, w as u32)
                })
                .collect();
            Some((s as usize - 1, v))
        }
    }
}

/// What an execution uses to make its choices and to report what it covers.
pub struct Ctx<'a> {
    prefix: &'a [Choice],
    trace: Vec<Choice>,
    dev_left: u32,
    verbose: bool,
    notes: Vec<String>,
    seen: &'a Seen,
    outcomes: &'a Seen,
    slot: Slot,
    transitions: u64,
    default_tail: bool,
    pub worker: usize,
}

impl<'a> Ctx<'a> {
    /// One of `n` alternatives; every one of them is explored.
    pub fn choose(&mut self, n: usize) -> usize {
        assert!(n > 0, "choose(0)");
        if n == 1 {
            return 0;
        }
        let at = self.trace.len();
        let pick = if at < self.prefix.len() {
            let (pn, pp) = self.prefix[at];
            if pn as usize != n {
                std::panic::panic_any(Divergence(format!(
                    "choice {at} had {pn} alternatives when first run and {n} now"
                )));
            }
            pp
        } else {
            0
        };
        self.trace.push((n as u32, pick));
        if at >= self.prefix.len() {
            self.slot.push(at, (n as u32, pick));
        }
        pick as usize
    }

    /// One of `n` answers of the environment, of which 0 is the ordinary one; at most the scenario's
    /// number of deviations is taken per execution.
    pub fn dev(&mut self, n: usize) -> usize {
        if self.dev_left == 0 {
            return 0;
        }
        let c = self.choose(n);
        if c != 0 {
            self.dev_left -= 1;
        }
        c
    }

    pub fn deviations_left(&self) -> u32 {
        self.dev_left
    }

    /// spends `n` deviations (for choices whose cost the caller decides)
    pub fn spend(&mut self, n: u32) {
        self.dev_left = self.dev_left.saturating_sub(n);
    }

    pub fn pick<'b, T>(&mut self, of: &'b [T]) -> &'b T {
        &of[self.choose(of.len())]
    }

    pub fn flag(&mut self) -> bool {
        self.choose(2) == 1
    }

    /// Describes a step; only evaluated while a violation is being written out.
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.verbose {
            self.notes.push(f());
        }
    }

    pub fn verbose(&self) -> bool {
        self.verbose
    }

    /// Counts one operation / transition of the system under test.
    pub fn step(&mut self) {
        self.transitions += 1;
    }

    pub fn steps(&mut self, n: u64) {
        self.transitions += n;
    }

    /// Whether the steps from here on have not been executed before with these very choices; checks that change
    /// nothing may be left out while a prefix is being replayed.
    pub fn fresh(&self) -> bool {
        self.verbose || self.default_tail || self.trace.len() >= self.prefix.len()
    }

    /// tells the supervisor that a long execution is still making progress
    pub fn beat(&self) {
        self.slot.beat();
    }

    /// Records a state as covered (no merging).
    pub fn state<T: Hash + ?Sized>(&mut self, canon: &T) {
        self.seen.enter(hash128(canon), 0);
    }

    /// Records a state and tells whether the execution may stop here, because the same canonical state
    /// has been (or is being) explored with at least `remaining` further steps.
    pub fn prune<T: Hash + ?Sized>(&mut self, canon: &T, remaining: usize) -> bool {
        if self.verbose || self.default_tail || self.trace.len() < self.prefix.len() {
            return false;
        }
        !self.seen.enter(hash128(canon), remaining.min(254) as u8 + 1)
    }

    /// Records what this execution observed, to count the distinct observations.
    pub fn outcome<T: Hash + ?Sized>(&mut self, o: &T) {
        self.outcomes.enter(hash128(o), 0);
    }
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "(panic)".to_string()
        };
        let loc = info
            .location()
            .map(|l| {
                let f = l.file();
                let tail: Vec<&str> = f.rsplit('/').take(3).collect();
                format!("{}:{}", tail.into_iter().rev().collect::<Vec<_>>().join("/"), l.line())
            })
            .unwrap_or_default();
        if std::env::var_os("MC_PANIC").is_some() {
            eprintln!("panic at {loc}: {msg}\n{}", std::backtrace::Backtrace::force_capture());
        }
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = Some(format!("{msg} [at {loc}]")));
    }));
}

/// takes the message of the last panic on this thread
pub fn take_panic() -> Option<String> {
    LAST_PANIC.with(|p| p.borrow_mut().take())
}

pub(crate) fn set_panic(m: Option<String>) {
    LAST_PANIC.with(|p| *p.borrow_mut() = m);
}

pub struct Executed {
    pub trace: Vec<Choice>,
    pub result: Result<RunResult, String>,
    pub notes: Vec<String>,
    pub transitions: u64,
}

fn strip_digits(s: &str) -> String {
    let mut out = String::new();
    let mut last_hash = false;
    for c in s.chars() {
        if c.is_ascii_digit() {
            if !last_hash {
                out.push('#');
            }
            last_hash = true;
        } else {
            out.push(c);
            last_hash = false;
        }
    }
    out
}

#[allow(clippy::too_many_arguments)]
pub fn execute(
    idx: usize,
    sc: &Scenario,
    prefix: &[Choice],
    verbose: bool,
    alone: bool,
    seen: &Seen,
    outcomes: &Seen,
    slot: Slot,
    worker: usize,
) -> Executed {
    let mut ctx = Ctx {
        prefix,
        trace: Vec::with_capacity(prefix.len() + 16),
        dev_left: sc.deviations,
        verbose,
        notes: vec![],
        seen,
        outcomes,
        slot,
        transitions: 0,
        default_tail: alone,
        worker,
    };
    slot.begin(idx, prefix);
    let _ = take_panic();
    let r = catch_unwind(AssertUnwindSafe(|| (sc.run)(&mut ctx)));
    slot.end();
    let result = match r {
        Ok(r) => {
            if ctx.trace.len() < prefix.len() {
                Err(format!(
                    "execution ended after {} choices of a prefix of {}{}",
                    ctx.trace.len(),
                    prefix.len(),
                    match &r {
                        Err(v) => format!("; {}: {}", v.sig, v.msg),
                        Ok(_) => String::new(),
                    }
                ))
            } else {
                Ok(r)
            }
        }
        Err(p) => {
            if let Some(d) = p.downcast_ref::<Divergence>() {
                Err(d.0.clone())
            } else {
                let m = take_panic().unwrap_or_else(|| "panic".into());
                let first = m.split(" [at ").next().unwrap_or("").lines().next().unwrap_or("").to_string();
                Ok(Err(Violation {
                    sig: format!("panic: {}", strip_digits(&first)),
                    msg: format!("panicked: {m}"),
                }))
            }
        }
    };
    Executed { trace: ctx.trace, result, notes: ctx.notes, transitions: ctx.transitions }
}

#[derive(Default)]
pub struct Stats {
    pub executions: u64,
    pub pruned: u64,
    pub transitions: u64,
    pub states: u64,
    pub outcomes: u64,
    pub max_choices: u64,
    pub complete: bool,
}

pub struct Found {
    pub violation: Violation,
    pub trace: Vec<Choice>,
}

pub enum Verdict {
    Ok,
    Engine(String),
}

pub struct Exploration {
    pub stats: Stats,
    /// one per signature
    pub found: Vec<Found>,
    pub sample: Vec<Vec<Choice>>,
    pub verdict: Verdict,
}

/// Explores every execution of a scenario; `known` tells which violation signatures are listed
/// findings (they do not stop the search).
pub fn explore(
    idx: usize,
    sc: &Scenario,
    workers: usize,
    deadline: Instant,
    known: &(dyn Fn(&str) -> bool + Sync),
    slots: &[Slot],
) -> Exploration {
    let (seen, outcomes) = (Seen::new(), Seen::new());
    if sc.processes && workers > 1 {
        return forked::explore(idx, sc, workers, deadline, known, slots);
    }
    explore_share(idx, sc, workers, deadline, known, slots, &seen, &outcomes, (0, 1))
}

/// how many choices decide which share an execution belongs to
const SHARE_DEPTH: usize = 3;

/// Explores the `share.0`-th of `share.1` shares.
#[allow(clippy::too_many_arguments)]
fn explore_share(
    idx: usize,
    sc: &Scenario,
    workers: usize,
    deadline: Instant,
    known: &(dyn Fn(&str) -> bool + Sync),
    slots: &[Slot],
    seen: &Seen,
    outcomes: &Seen,
    share: (usize, usize),
) -> Exploration {
    let mine = |p: &[Choice]| share.1 == 1 || hash128(&p[..p.len().min(SHARE_DEPTH)]) as usize % share.1 == share.0;
    let mine = &mine;
    let queue: Mutex<(Vec<Vec<Choice>>, usize)> = Mutex::new((vec![vec![]], 0));
    let cv = Condvar::new();
    let hungry = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let capped = AtomicBool::new(false);
    let executions = AtomicU64::new(0);
    let pruned = AtomicU64::new(0);
    let transitions = AtomicU64::new(0);
    let max_choices = AtomicU64::new(0);
    let found: Mutex<Vec<Found>> = Mutex::new(vec![]);
    let engine_err: Mutex<Option<String>> = Mutex::new(None);
    let sample: Mutex<Vec<Vec<Choice>>> = Mutex::new(vec![]);

    std::thread::scope(|scope| {
        for w in 0..workers {
            let (seen, outcomes, queue, cv, hungry, stop, capped) =
                (seen, outcomes, &queue, &cv, &hungry, &stop, &capped);
            let (executions, pruned, transitions, max_choices, found, engine_err, sample) =
                (&executions, &pruned, &transitions, &max_choices, &found, &engine_err, &sample);
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(scope, move || {
                    let slot = slots.get(w).copied().unwrap_or(Slot::NONE);
                    let mut local: Vec<Vec<Choice>> = vec![];
                    loop {
                        if stop.load(Relaxed) {
                            break;
                        }
                        let prefix = match local.pop() {
                            Some(p) => p,
                            None => {
                                let mut q = queue.lock().unwrap();
                                let got = loop {
                                    if stop.load(Relaxed) {
                                        break None;
                                    }
                                    if let Some(p) = q.0.pop() {
                                        break Some(p);
                                    }
                                    q.1 += 1;
                                    hungry.store(q.1, Relaxed);
                                    if q.1 == workers {
                                        stop.store(true, Relaxed);
                                        cv.notify_all();
                                        break None;
                                    }
                                    q = cv.wait(q).unwrap();
                                    q.1 -= 1;
                                    hungry.store(q.1, Relaxed);
                                };
                                match got {
                                    Some(p) => p,
                                    None => break,
                                }
                            }
                        };
                        // short prefixes lead to every share
                        let counts = mine(&prefix);
                        if !counts && prefix.len() >= SHARE_DEPTH {
                            continue;
                        }
                        if Instant::now() > deadline {
                            capped.store(true, Relaxed);
                            stop.store(true, Relaxed);
                            cv.notify_all();
                            break;
                        }
                        let ex = execute(idx, sc, &prefix, false, false, seen, outcomes, slot, w);
                        let n = executions.fetch_add(counts as u64, Relaxed);
                        transitions.fetch_add(if counts { ex.transitions } else { 0 }, Relaxed);
                        max_choices.fetch_max(ex.trace.len() as u64, Relaxed);
                        match &ex.result {
                            Err(e) => {
                                *engine_err.lock().unwrap() =
                                    Some(format!("{e} (scenario {}, prefix {:?})", sc.name, prefix));
                                stop.store(true, Relaxed);
                                cv.notify_all();
                                break;
                            }
                            Ok(Ok(End::Done)) => {
                                if counts && (n == 0 || n == 7 || n == 1000) {
                                    sample.lock().unwrap().push(ex.trace.clone());
                                }
                            }
                            Ok(Ok(End::Pruned)) => {
                                pruned.fetch_add(1, Relaxed);
                            }
                            Ok(Err(v)) => {
                                let mut f = found.lock().unwrap();
                                match f.iter_mut().find(|x| x.violation.sig == v.sig) {
                                    Some(x) if x.trace.len() <= ex.trace.len() => {}
                                    Some(x) => {
                                        *x = Found { violation: v.clone(), trace: ex.trace.clone() }
                                    }
                                    None => {
                                        f.push(Found { violation: v.clone(), trace: ex.trace.clone() })
                                    }
                                }
                                if !known(&v.sig) {
                                    stop.store(true, Relaxed);
                                    cv.notify_all();
                                    break;
                                }
                            }
                        }
                        for i in (prefix.len()..ex.trace.len()).rev() {
                            let (n, p) = ex.trace[i];
                            debug_assert_eq!(p, 0);
                            for alt in (p + 1..n).rev() {
                                let mut next = ex.trace[..i].to_vec();
                                next.push((n, alt));
                                local.push(next);
                            }
                        }
                        if hungry.load(Relaxed) > 0 && local.len() > 1 {
                            let give = local.len() / 2;
                            let mut q = queue.lock().unwrap();
                            // the oldest (shallowest) prefixes are the biggest subtrees
                            q.0.extend(local.drain(..give.max(1)));
                            cv.notify_all();
                        }
                    }
                })
                .expect("worker thread");
        }
    });

    let complete = !capped.load(Relaxed)
        && found.lock().unwrap().iter().all(|f| known(&f.violation.sig))
        && engine_err.lock().unwrap().is_none();
    let verdict = match engine_err.into_inner().unwrap() {
        Some(e) => Verdict::Engine(e),
        None => Verdict::Ok,
    };
    Exploration {
        stats: Stats {
            executions: executions.load(Relaxed),
            pruned: pruned.load(Relaxed),
            transitions: transitions.load(Relaxed),
            states: seen.len() as u64,
            outcomes: outcomes.len() as u64,
            max_choices: max_choices.load(Relaxed),
            complete,
        },
        found: found.into_inner().unwrap(),
        sample: sample.into_inner().unwrap(),
        verdict,
    }
}

/// One process per core.
mod forked {
    use super::*;
    use crate::report::{choices_text, parse_choices};
    use std::fmt::Write as _;

    fn line(s: &str) -> String {
        s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t")
    }
    fn unline(s: &str) -> String {
        let mut out = String::new();
        let mut it = s.chars();
        while let Some(c) = it.next() {
            match (c, c == '\\') {
                (_, true) => match it.next() {
                    Some('n') => out.push('\n'),
                    Some('t') => out.push('\t'),
                    Some(c) => out.push(c),
                    None => {}
                },
                (c, _) => out.push(c),
            }
        }
        out
    }

    fn dump(e: &Exploration, seen: &Seen, outcomes: &Seen) -> String {
        let mut s = String::new();
        let t = &e.stats;
        let _ = writeln!(s, "N\t{}\t{}\t{}\t{}\t{}", t.executions, t.pruned, t.transitions, t.max_choices, t.complete as u8);
        if let Verdict::Engine(m) = &e.verdict {
            let _ = writeln!(s, "E\t{}", line(m));
        }
        for f in &e.found {
            let _ = writeln!(s, "F\t{}\t{}\t{}", line(&f.violation.sig), line(&f.violation.msg), line(&choices_text(&f.trace)));
        }
        for p in &e.sample {
            let _ = writeln!(s, "P\t{}", line(&choices_text(p)));
        }
        for (c, set) in [('S', seen), ('O', outcomes)] {
            for h in set.all() {
                let _ = writeln!(s, "{c}\t{h:x}");
            }
        }
        s.push_str("end\n");
        s
    }

    pub fn explore(
        idx: usize,
        sc: &Scenario,
        workers: usize,
        deadline: Instant,
        known: &(dyn Fn(&str) -> bool + Sync),
        slots: &[Slot],
    ) -> Exploration {
        let dir = std::env::temp_dir();
        let file = |w: usize| dir.join(format!("share-{idx}-{w}"));
        let mut children = vec![];
        for w in 0..workers {
            match unsafe { libc::fork() } {
                -1 => {
                    return Exploration {
                        stats: Stats::default(),
                        found: vec![],
                        sample: vec![],
                        verdict: Verdict::Engine("cannot fork".into()),
                    }
                }
                0 => {
                    unsafe {
                        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                        stay_on(w);
                    }
                    let (seen, outcomes) = (Seen::new(), Seen::new());
                    let e = explore_share(idx, sc, 1, deadline, known, &slots[w..w + 1], &seen, &outcomes, (w, workers));
                    let ok = std::fs::write(file(w), dump(&e, &seen, &outcomes)).is_ok();
                    unsafe { libc::_exit(if ok { 0 } else { 3 }) }
                }
                pid => children.push((pid, w)),
            }
        }
        let (mut seen, mut outcomes) = (std::collections::HashSet::new(), std::collections::HashSet::new());
        let mut all = Exploration {
            stats: Stats { complete: true, ..Default::default() },
            found: vec![],
            sample: vec![],
            verdict: Verdict::Ok,
        };
        while !children.is_empty() {
            let mut status = 0;
            let pid = unsafe { libc::waitpid(-1, &mut status, 0) };
            let Some(at) = children.iter().position(|c| c.0 == pid) else {
                if pid < 0 {
                    break;
                }
                continue;
            };
            let (_, w) = children.remove(at);
            let rest = || children.iter().for_each(|c| unsafe {
                libc::kill(c.0, libc::SIGKILL);
            });
            if libc::WIFSIGNALED(status) {
                // the supervisor looks into it as if it had happened here
                rest();
                unsafe {
                    libc::signal(libc::WTERMSIG(status), libc::SIG_DFL);
                    libc::raise(libc::WTERMSIG(status));
                    libc::_exit(2);
                }
            }
            let text = std::fs::read_to_string(file(w)).unwrap_or_default();
            let _ = std::fs::remove_file(file(w));
            if !text.ends_with("end\n") {
                all.verdict = Verdict::Engine(format!("share {w} ended without a result (status {status})"));
            }
            for l in text.lines() {
                let f: Vec<&str> = l.split('\t').collect();
                let n = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
                let s = |i: usize| unline(f.get(i).unwrap_or(&""));
                let h = || u128::from_str_radix(f.get(1).unwrap_or(&"0"), 16).unwrap_or(0);
                match f[0] {
                    "N" => {
                        all.stats.executions += n(1);
                        all.stats.pruned += n(2);
                        all.stats.transitions += n(3);
                        all.stats.max_choices = all.stats.max_choices.max(n(4));
                        all.stats.complete &= n(5) == 1;
                    }
                    "E" => all.verdict = Verdict::Engine(s(1)),
                    "F" => {
                        let new = Found { violation: Violation { sig: s(1), msg: s(2) }, trace: parse_choices(&s(3)) };
                        match all.found.iter_mut().find(|x| x.violation.sig == new.violation.sig) {
                            Some(x) if x.trace.len() <= new.trace.len() => {}
                            Some(x) => *x = new,
                            None => all.found.push(new),
                        }
                    }
                    "P" => all.sample.push(parse_choices(&s(1))),
                    "S" => {
                        seen.insert(h());
                    }
                    "O" => {
                        outcomes.insert(h());
                    }
                    _ => {}
                }
            }
            if !matches!(all.verdict, Verdict::Ok) || all.found.iter().any(|f| !known(&f.violation.sig)) {
                rest();
                for (pid, w) in children.drain(..) {
                    unsafe { libc::waitpid(pid, &mut status, 0) };
                    let _ = std::fs::remove_file(file(w));
                }
                all.stats.complete = false;
            }
        }
        all.stats.states = seen.len() as u64;
        all.stats.outcomes = outcomes.len() as u64;
        // no execution is in progress any more
        slots.iter().take(workers).for_each(|s| s.end());
        all
    }

    unsafe fn stay_on(w: usize) {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        if libc::sched_getaffinity(0, std::mem::size_of_val(&set), &mut set) != 0 {
            return;
        }
        let cores: Vec<usize> = (0..libc::CPU_SETSIZE as usize).filter(|i| libc::CPU_ISSET(*i, &set)).collect();
        if cores.is_empty() {
            return;
        }
        let mut one: libc::cpu_set_t = std::mem::zeroed();
        libc::CPU_SET(cores[w % cores.len()], &mut one);
        libc::sched_setaffinity(0, std::mem::size_of_val(&one), &one);
    }
}
