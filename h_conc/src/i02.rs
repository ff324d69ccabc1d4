//! I02: one IndexedLogMap shared by several threads.

use indexed_log_map::{config::IndexedLogMapConfig, storage::IndexedLogMap};
use mclib::{ensure, ensure_eq, violation, Ctx, End, RunResult, Scenario, Tier, Violation};
use mc_sched::Abort;
use std::{
    path::PathBuf,
    sync::{
        atomic::{AtomicU64, Ordering},
        Arc,
    },
};

type Map = IndexedLogMap<String, (u32, String)>;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Append(&'static str),
    Get(&'static str),
    Contains(&'static str),
    From(&'static str),
    Last,
}
use Op::*;

#[derive(Clone, Debug)]
enum Saw {
    Appended(&'static str, u32),
    Value(&'static str, Option<(u32, String)>),
    There(&'static str, bool),
    Rows(&'static str, Option<Vec<(u32, String)>>),
    Last(Option<(u32, String)>),
    Failed(String),
}

#[derive(Clone, Debug)]
struct Obs {
    thread: usize,
    op: Op,
    call: u64,
    ret: u64,
    saw: Saw,
}

fn value(k: &str, n: u32) -> (u32, String) {
    (n, k.into())
}

fn perform(m: &Map, thread: usize, ops: &[Op]) -> Vec<Obs> {
    let mut log = vec![];
    for (i, op) in ops.iter().enumerate() {
        let n = (10 * (thread + 1) + i) as u32;
        let call = mc_sched::now();
        let fail = |e: anyhow::Error| Saw::Failed(format!("{e:?}"));
        let saw = match *op {
            Append(k) => m.append(k.into(), value(k, n)).map_or_else(fail, |_| Saw::Appended(k, n)),
            Get(k) => m.get(&k.into()).map_or_else(fail, |v| Saw::Value(k, v)),
            Contains(k) => m.contains(&k.into()).map_or_else(fail, |v| Saw::There(k, v)),
            Last => m.last().map_or_else(fail, Saw::Last),
            From(k) => match m.iter_from(&k.into()) {
                Err(e) => fail(e),
                Ok(None) => Saw::Rows(k, None),
                Ok(Some(it)) => match it.collect::<Result<Vec<_>, _>>() {
                    Err(e) => fail(e),
                    Ok(v) => Saw::Rows(k, Some(v)),
                },
            },
        };
        let ret = mc_sched::now();
        log.push(Obs { thread, op: *op, call, ret, saw });
    }
    log
}

/// `rows`: the log at the end
fn judge(rows: &[(u32, String)], pre: usize, log: &[Obs]) -> Result<(), Violation> {
    let mut appended = 0;
    // (key, value, called, returned)
    let mut appends: Vec<(&str, u32, u64, u64)> = rows[..pre].iter().map(|r| (r.1.as_str(), r.0, 0, 0)).collect();
    for o in log {
        match &o.saw {
            Saw::Failed(e) => return Err(violation("operation failed", format!("thread {} {:?}: {e}", o.thread, o.op))),
            Saw::Appended(k, n) => {
                appended += 1;
                let times = rows.iter().filter(|r| **r == value(k, *n)).count();
                ensure_eq!(times, 1, "log", "entries in the log for the append of {k} -> {n} by thread {}", o.thread);
                appends.push((k, *n, o.call, o.ret));
            }
            _ => {}
        }
    }
    ensure_eq!(rows.len(), pre + appended, "log", "entries in the log");
    let at = |n: u32| rows.iter().position(|r| r.0 == n);
    for o in log {
        // the position in the log before which `k` may not be found any more
        let least = |k: &str| appends.iter().filter(|a| a.0 == k && a.3 < o.call).filter_map(|a| at(a.1)).max();
        let fits = |k: &str, got: Option<u32>| -> Result<(), Violation> {
            let least = least(k);
            match got {
                None => ensure!(least.is_none(), "stale lookup", "thread {} {:?}: absent although an append of {k} had returned (log {rows:?})", o.thread, o.op),
                Some(n) => {
                    let made = appends.iter().find(|a| a.1 == n);
                    ensure!(made.is_some_and(|a| a.0 == k && a.2 < o.ret), "foreign value", "thread {} {:?}: value {n} was not appended for {k}", o.thread, o.op);
                    ensure!(at(n) >= least, "stale lookup", "thread {} {:?}: value {n}, but a later entry of {k} had been appended before (log {rows:?})", o.thread, o.op);
                }
            }
            Ok(())
        };
        match &o.saw {
            Saw::Value(k, v) => fits(k, v.as_ref().map(|v| v.0))?,
            Saw::There(k, false) => fits(k, None)?,
            Saw::There(k, true) => ensure!(appends.iter().any(|a| a.0 == *k && a.2 < o.ret), "foreign value", "thread {} {:?}: {k} was never appended", o.thread, o.op),
            Saw::Rows(k, None) => fits(k, None)?,
            Saw::Rows(k, Some(v)) => {
                fits(k, v.first().map(|v| v.0))?;
                let from = v.first().and_then(|v| at(v.0)).unwrap_or(rows.len());
                ensure!(rows[from..].starts_with(v), "iteration", "thread {} {:?}: iterated {v:?}, the log is {rows:?}", o.thread, o.op);
                let must = appends.iter().filter(|a| a.3 < o.call).filter_map(|a| at(a.1)).max().map_or(0, |p| p + 1);
                ensure!(from + v.len() >= must, "iteration", "thread {} {:?}: iterated {v:?} although {must} entries had been appended (log {rows:?})", o.thread, o.op);
            }
            Saw::Last(v) => {
                let must = appends.iter().filter(|a| a.3 < o.call).filter_map(|a| at(a.1)).max();
                ensure!(v.as_ref().and_then(|v| at(v.0)) >= must, "last", "thread {} {:?}: {v:?}, the log is {rows:?}", o.thread, o.op);
            }
            _ => {}
        }
    }
    Ok(())
}

static NEXT: AtomicU64 = AtomicU64::new(0);

struct Dir(Option<PathBuf>);
impl Drop for Dir {
    fn drop(&mut self) {
        if let Some(d) = &self.0 {
            let _ = std::fs::remove_dir_all(d);
            mc_sled::mc::forget(&d.join("key_index"));
        }
    }
}

fn lookups(m: &Map, when: &str) -> Result<Vec<(u32, String)>, Violation> {
    let rows: Vec<(u32, String)> = m
        .iter()
        .into_iter()
        .flatten()
        .collect::<Result<_, _>>()
        .map_err(|e| violation("log", format!("{when}: iterating: {e:?}")))?;
    for k in ["a", "b", "c"] {
        let want = rows.iter().rev().find(|r| r.1 == k);
        let got = m.get(&k.to_string()).map_err(|e| violation("lookup", format!("{when}: looking up {k}: {e:?}")))?;
        ensure!(got.as_ref() == want, "lookup does not agree with the log", "{when}: looking up {k} yields {got:?}, but the log is {rows:?}");
    }
    Ok(rows)
}

fn execute(ctx: &mut Ctx, file: bool, pre: usize, program: &[Vec<Op>]) -> RunResult {
    let dir = Dir(file.then(|| crate::base().join(NEXT.fetch_add(1, Ordering::Relaxed).to_string())));
    if file {
        std::fs::create_dir_all(crate::base()).expect("scratch");
    }
    let open = || -> Result<Map, Violation> {
        Map::new(IndexedLogMapConfig { storage_path: dir.0.clone(), readonly: false, use_key_indexing: true })
            .map_err(|e| violation("open", format!("{e:?}")))
    };
    let m = Arc::new(open()?);
    for i in 0..pre {
        let k = ["a", "b"][i % 2];
        m.append(k.into(), value(k, i as u32 + 1)).map_err(|e| violation("preload", format!("{e:?}")))?;
    }
    ctx.note(|| format!("{} map, {pre} entries before, threads {program:?}", if file { "file" } else { "memory" }));
    let bodies: Vec<Box<dyn FnOnce() -> Vec<Obs> + Send>> = program
        .iter()
        .enumerate()
        .map(|(t, ops)| {
            let (m, ops) = (m.clone(), ops.clone());
            Box::new(move || perform(&m, t, &ops)) as Box<dyn FnOnce() -> Vec<Obs> + Send>
        })
        .collect();
    let out = mc_sched::run(ctx, bodies);
    if ctx.verbose() {
        ctx.note(|| crate::schedule(&out.schedule));
    }
    match &out.abort {
        None => {}
        Some(Abort::Deadlock(who)) => return Err(violation("deadlock", format!("{program:?}: {who}"))),
        Some(Abort::Livelock) => return Err(violation("livelock", format!("{program:?}: threads never finish"))),
        Some(Abort::Panic) => return Err(violation("panic", format!("{program:?}: {}", out.message.unwrap_or_default()))),
    }
    let log: Vec<Obs> = out.results.into_iter().flatten().flatten().collect();
    ctx.state(&(file, pre, format!("{program:?}"), log.iter().map(|o| format!("{:?}", o.saw)).collect::<Vec<_>>()));
    let rows = lookups(&m, "after all threads")?;
    judge(&rows, pre, &log)?;
    if file {
        drop(m);
        let m = open()?;
        let again = lookups(&m, "reopened")?;
        ensure!(again == rows, "log", "the log was {rows:?} and is {again:?} after reopening");
    }
    Ok(End::Done)
}

fn programs(tier: Tier) -> Vec<Vec<Vec<Op>>> {
    let reads = [Get("a"), Get("b"), Contains("a"), From("a"), Last];
    let (a, b) = (Append("a"), Append("b"));
    let mut v = vec![vec![vec![a], vec![a]], vec![vec![a], vec![b]], vec![vec![a, b], vec![b, a]], vec![vec![a, a], vec![a]], vec![vec![a, b], vec![a]], vec![vec![a, a], vec![a, a]]];
    for r in reads {
        v.push(vec![vec![a], vec![r]]);
        v.push(vec![vec![a, a], vec![r]]);
        v.push(vec![vec![a, b], vec![r]]);
        v.push(vec![vec![b, a], vec![r]]);
        v.push(vec![vec![a], vec![a, r]]);
        v.push(vec![vec![b], vec![a, r]]);
        v.push(vec![vec![a], vec![r, a]]);
        for q in reads {
            v.push(vec![vec![a], vec![r, q]]);
            if tier == Tier::Thorough {
                v.push(vec![vec![a, a], vec![r, q]]);
                v.push(vec![vec![a, b], vec![r, q]]);
                v.push(vec![vec![a, q], vec![a, r]]);
                v.push(vec![vec![b, q], vec![a, r]]);
            }
        }
    }
    v
}

fn triples(tier: Tier) -> Vec<Vec<Vec<Op>>> {
    let reads = [Get("a"), Get("b"), From("a")];
    let (a, b) = (Append("a"), Append("b"));
    let mut v = vec![vec![vec![a], vec![a], vec![a]], vec![vec![a], vec![a], vec![b]]];
    for r in reads {
        v.push(vec![vec![a], vec![a], vec![r]]);
        v.push(vec![vec![a], vec![b], vec![r]]);
        if tier == Tier::Thorough {
            for q in reads {
                v.push(vec![vec![a], vec![a], vec![r, q]]);
                v.push(vec![vec![a], vec![b], vec![r, q]]);
                v.push(vec![vec![a], vec![r], vec![q]]);
            }
        }
    }
    v
}

pub fn i02(tier: Tier) -> Vec<Scenario> {
    let mut v = vec![];
    for (file, pre) in [(false, 0), (true, 0), (true, 2)] {
        for threads in [2, 3] {
            let list = if threads == 2 { programs(tier) } else { triples(tier) };
            let bound = match (tier, threads) {
                (Tier::Quick, _) => 2,
                (Tier::Thorough, 2) => 3,
                (Tier::Thorough, _) => 2,
            };
            v.push(
                Scenario::new(
                    format!("{} map, {pre} entries before, {threads} threads", if file { "file" } else { "memory" }),
                    format!("{} programs of {threads} threads of up to two operations (appends, lookups and iterations over two keys), every schedule with up to {bound} preemptions at locks, atomics, system calls and key-index operations", list.len()),
                    bound,
                    move |ctx: &mut Ctx| {
                        let program = ctx.pick(&list).clone();
                        execute(ctx, file, pre, &program)
                    },
                )
                .in_processes(),
            );
        }
    }
    v
}
