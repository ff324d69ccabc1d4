//! F05: clones of one database used by several threads.

use mclib::{ensure, ensure_eq, violation, Ctx, End, RunResult, Scenario, Tier, Violation};
use mc_sched::Abort;
use std::{
    path::PathBuf,
    sync::atomic::{AtomicU64, Ordering},
};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    /// one small record
    Put,
    /// two small records
    Batch,
    /// a record that does not fit into the active mapping
    Big,
    /// the `k`-th record after the preloaded ones
    Get(usize),
    Len,
    Last,
    /// everything from the first record on
    Iter,
}
use Op::*;

const READS: [Op; 5] = [Get(0), Get(1), Len, Last, Iter];
const WRITES: [Op; 3] = [Put, Batch, Big];

#[derive(Debug, Clone)]
enum Saw {
    Appended { at: usize, rows: Vec<Vec<u8>> },
    Row(usize, Option<Vec<u8>>),
    Len(usize),
    Last(Option<Vec<u8>>),
    Failed(String),
}

#[derive(Debug, Clone)]
struct Obs {
    thread: usize,
    op: Op,
    call: u64,
    ret: u64,
    saw: Saw,
}

fn record(n: usize, len: usize) -> Vec<u8> {
    (0..len).map(|i| if i == 0 { 1 + n as u8 } else { 1 + ((n * 7 + i * 13) % 255) as u8 }).collect()
}

fn rows_of(op: Op, n: usize) -> Vec<Vec<u8>> {
    match op {
        Put => vec![record(n, 3)],
        Batch => vec![record(n, 2), record(n + 1, 4)],
        Big => vec![record(n, 70)],
        _ => vec![],
    }
}

fn perform(db: &fraos::Database, thread: usize, base: usize, first: usize, ops: &[Op]) -> Vec<Obs> {
    let mut log = vec![];
    for (i, op) in ops.iter().enumerate() {
        let mut watch = |f: &mut dyn FnMut() -> Saw| {
            let call = mc_sched::now();
            let saw = f();
            let ret = mc_sched::now();
            log.push(Obs { thread, op: *op, call, ret, saw: saw.clone() });
            saw
        };
        match *op {
            Put | Batch | Big => {
                let rows = rows_of(*op, first + 2 * i);
                watch(&mut || {
                    let refs: Vec<&[u8]> = rows.iter().map(|r| r.as_slice()).collect();
                    match db.append_get_seqno(&refs) {
                        Ok(Some(at)) => Saw::Appended { at, rows: rows.clone() },
                        Ok(None) => Saw::Failed("no sequence number for a batch that is not empty".into()),
                        Err(e) => Saw::Failed(format!("{e:?}")),
                    }
                });
            }
            Get(k) => {
                watch(&mut || match db.get_by_seqno(base + k) {
                    Ok(r) => Saw::Row(base + k, r),
                    Err(e) => Saw::Failed(format!("{e:?}")),
                });
            }
            Len => {
                watch(&mut || Saw::Len(db.len()));
            }
            Last => {
                watch(&mut || match db.last() {
                    Ok(r) => Saw::Last(r),
                    Err(e) => Saw::Failed(format!("{e:?}")),
                });
            }
            Iter => {
                let mut it = None;
                for n in 0.. {
                    let saw = watch(&mut || match it.get_or_insert_with(|| db.iter_from_seqno(0).expect("an iterator")).next() {
                        None => Saw::Row(n, None),
                        Some(Ok(r)) => Saw::Row(n, Some(r)),
                        Some(Err(e)) => Saw::Failed(format!("{e:?}")),
                    });
                    if !matches!(saw, Saw::Row(_, Some(_))) {
                        break;
                    }
                }
            }
        }
    }
    log
}

fn show(r: &[u8]) -> String {
    if r.len() <= 6 { format!("{r:02x?}") } else { format!("{:02x?}.. ({} bytes)", &r[..4], r.len()) }
}

fn show_opt(r: &Option<Vec<u8>>) -> String {
    r.as_ref().map_or("absent".into(), |r| show(r))
}

fn all(db: &fraos::Database, want: &[Vec<u8>], when: &str) -> Result<(), Violation> {
    ensure_eq!(db.len(), want.len(), "len at the end", "{when}: len");
    for (i, w) in want.iter().enumerate() {
        let got = db.get_by_seqno(i);
        ensure!(got.as_ref().is_ok_and(|g| g.as_ref() == Some(w)), "contents at the end", "{when}: record {i} is {:?}, expected {}", got.map(|g| show_opt(&g)), show(w));
    }
    let rows: Vec<_> = db.iter_from_seqno(0).into_iter().flatten().take(want.len() + 1).filter_map(|r| r.ok()).collect();
    ensure!(rows == want, "contents at the end", "{when}: iterating yields other records than looking them up");
    let last = db.last();
    ensure!(last.as_ref().is_ok_and(|l| l.as_ref() == want.last()), "contents at the end", "{when}: last() is {last:?}");
    Ok(())
}

fn judge(pre: &[Vec<u8>], log: &[Obs]) -> Result<Vec<Vec<u8>>, Violation> {
    let mut order: Vec<(usize, &Vec<Vec<u8>>, &Obs)> = vec![];
    for o in log {
        match &o.saw {
            Saw::Failed(e) => return Err(violation("operation failed", format!("thread {} {:?}: {e}", o.thread, o.op))),
            Saw::Appended { at, rows } => order.push((*at, rows, o)),
            _ => {}
        }
    }
    order.sort_by_key(|x| x.0);
    let mut want: Vec<Vec<u8>> = pre.to_vec();
    for (at, rows, o) in &order {
        ensure_eq!(*at, want.len(), "sequence numbers", "sequence number returned to thread {} for {:?} (all of them: {:?})", o.thread, o.op, order.iter().map(|x| (x.0, x.1.len())).collect::<Vec<_>>());
        want.extend(rows.iter().cloned());
    }
    for (i, (_, _, a)) in order.iter().enumerate() {
        for (_, _, b) in &order[i + 1..] {
            ensure!(b.ret > a.call, "order of appends", "thread {} {:?} returned before thread {} {:?} started, but comes after it", b.thread, b.op, a.thread, a.op);
        }
    }
    for o in log {
        // records that must and that may be there
        let mut must = pre.len();
        let mut may = pre.len();
        for p in log {
            let end = match &p.saw {
                Saw::Appended { at, rows } => {
                    if p.call < o.ret {
                        may = may.max(at + rows.len());
                    }
                    at + rows.len()
                }
                Saw::Row(n, Some(_)) => n + 1,
                Saw::Len(k) => *k,
                Saw::Last(Some(r)) => want.iter().position(|w| w == r).map_or(0, |n| n + 1),
                _ => 0,
            };
            if p.ret < o.call {
                must = must.max(end);
            }
        }
        let who = format!("thread {} {:?}", o.thread, o.op);
        match &o.saw {
            Saw::Row(n, None) => ensure!(*n >= must, "record missing", "{who}: record {n} is absent although {must} records had been appended or seen before"),
            Saw::Row(n, Some(r)) => {
                ensure!(want.get(*n) == Some(r), "torn or foreign record", "{who}: record {n} is {}, expected {}", show(r), show_opt(&want.get(*n).cloned()));
                ensure!(*n < may, "record from the future", "{who}: record {n} is there before its append was called");
            }
            Saw::Len(k) => ensure!(must <= *k && *k <= may, "len", "{who}: {k}, but at least {must} and at most {may} records can be there"),
            Saw::Last(None) => ensure!(must == 0, "last", "{who}: absent although {must} records had been appended or seen before"),
            Saw::Last(Some(r)) => {
                let n = want.iter().position(|w| w == r);
                ensure!(n.is_some_and(|n| n + 1 >= must && n < may), "last", "{who}: {} (record {n:?}), but at least {must} and at most {may} records can be there", show(r));
            }
            _ => {}
        }
    }
    Ok(want)
}

static NEXT: AtomicU64 = AtomicU64::new(0);

struct Dir(Option<PathBuf>);
impl Drop for Dir {
    fn drop(&mut self) {
        if let Some(d) = &self.0 {
            let _ = std::fs::remove_dir_all(d);
        }
    }
}

fn execute(ctx: &mut Ctx, file: bool, preload: &[usize], program: &[Vec<Op>]) -> RunResult {
    let dir = Dir(file.then(|| crate::base().join(NEXT.fetch_add(1, Ordering::Relaxed).to_string())));
    let db = match &dir.0 {
        None => fraos::Database::memory(),
        Some(d) => {
            std::fs::create_dir_all(crate::base()).expect("scratch");
            fraos::Database::file(d)
        }
    }
    .map_err(|e| violation("open", format!("{e:?}")))?;
    let pre: Vec<Vec<u8>> = preload.iter().enumerate().map(|(i, len)| record(100 + i, *len)).collect();
    for r in &pre {
        db.put(r).map_err(|e| violation("preload", format!("{e:?}")))?;
    }
    ctx.note(|| format!("{} database, preloaded {preload:?}, threads {program:?}", if file { "file" } else { "memory" }));
    let base = pre.len();
    let bodies: Vec<Box<dyn FnOnce() -> Vec<Obs> + Send>> = program
        .iter()
        .enumerate()
        .map(|(t, ops)| {
            let (db, ops) = (db.clone(), ops.clone());
            Box::new(move || perform(&db, t, base, 20 * t, &ops)) as Box<dyn FnOnce() -> Vec<Obs> + Send>
        })
        .collect();
    let out = mc_sched::run(ctx, bodies);
    if ctx.verbose() {
        ctx.note(|| crate::schedule(&out.schedule));
    }
    match &out.abort {
        None => {}
        Some(Abort::Deadlock(who)) => return Err(violation("deadlock", format!("{program:?}: {who}"))),
        Some(Abort::Livelock) => return Err(violation("livelock", format!("{program:?}: threads never finish"))),
        Some(Abort::Panic) => return Err(violation("panic", format!("{program:?}: {}", out.message.unwrap_or_default()))),
    }
    let log: Vec<Obs> = out.results.into_iter().flatten().flatten().collect();
    let said: Vec<String> = log
        .iter()
        .map(|o| match &o.saw {
            Saw::Appended { at, .. } => format!("{at}"),
            Saw::Row(n, r) => format!("{n}:{}", r.is_some()),
            Saw::Len(k) => format!("{k}"),
            Saw::Last(r) => show_opt(r),
            Saw::Failed(e) => e.clone(),
        })
        .collect();
    ctx.state(&(file, preload, format!("{program:?}"), said));
    let want = judge(&pre, &log)?;
    all(&db, &want, "after all threads")?;
    if let Some(d) = &dir.0 {
        drop(db);
        let db = fraos::Database::file(d).map_err(|e| violation("reopen", format!("{e:?}")))?;
        all(&db, &want, "reopened")?;
    }
    Ok(End::Done)
}

fn programs(tier: Tier) -> (Vec<Vec<Vec<Op>>>, Vec<Vec<Vec<Op>>>) {
    let mut two = vec![];
    for (i, w) in WRITES.into_iter().enumerate() {
        for v in &WRITES[i..] {
            two.push(vec![vec![w], vec![*v]]);
        }
        for r in READS {
            two.push(vec![vec![w], vec![r]]);
            for q in READS {
                two.push(vec![vec![w], vec![r, q]]);
            }
            for v in WRITES {
                two.push(vec![vec![w, v], vec![r]]);
                two.push(vec![vec![w], vec![v, r]]);
                if tier == Tier::Thorough {
                    for q in READS {
                        two.push(vec![vec![w, v], vec![r, q]]);
                        two.push(vec![vec![w, q], vec![v, r]]);
                    }
                }
            }
        }
        for v in WRITES {
            for u in WRITES {
                two.push(vec![vec![w, v], vec![u]]);
            }
        }
    }
    let mut three = vec![];
    for (i, w) in WRITES.into_iter().enumerate() {
        for v in &WRITES[i..] {
            for r in READS {
                three.push(vec![vec![w], vec![*v], vec![r]]);
            }
            three.push(vec![vec![w], vec![*v], vec![Put]]);
        }
        for (j, r) in READS.into_iter().enumerate() {
            for q in &READS[j..] {
                three.push(vec![vec![w], vec![r], vec![*q]]);
            }
        }
    }
    (two, three)
}

pub fn f05(tier: Tier) -> Vec<Scenario> {
    let mut v = vec![];
    let (two, three) = programs(tier);
    for (file, preload) in [(false, vec![]), (true, vec![]), (true, vec![70, 70, 70]), (false, vec![3])] {
        for (list, threads) in [(&two, 2), (&three, 3)] {
            let bound = match (tier, threads) {
                (Tier::Quick, 3) if preload.len() > 0 => 1,
                (Tier::Quick, _) => 2,
                (Tier::Thorough, 2) => 3,
                (Tier::Thorough, _) => 2,
            };
            let (list, preload) = (list.clone(), preload.clone());
            v.push(
            Scenario::new(
                format!("{} database, {} preloaded records, {threads} threads", if file { "file" } else { "memory" }, preload.len()),
                format!("{} programs of {threads} threads of up to two operations (append of one, two or one mapping-filling record; get, len, last, iteration), every schedule with up to {bound} preemptions at locks, atomics and system calls", list.len()),
                bound,
                move |ctx: &mut Ctx| {
                    let program = ctx.pick(&list).clone();
                    execute(ctx, file, &preload, &program)
                },
            )
            .in_processes());
        }
    }
    v
}
