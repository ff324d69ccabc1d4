//! Crashes and failing calls (F03, F04).

use crate::{
    db::{compare, record, Db, Scratch},
    ops::{append, batch},
    sys::{self, Event, Image},
};
use mclib::{ensure, Ctx, End, RunResult, Scenario, Tier, Violation};
use std::collections::{BTreeMap, HashSet};

const PAGE: usize = 4096;

/// A state the files may be in when everything stops: after `acked` operations were acknowledged and with
/// operation `flying` (if any) under way.
struct State {
    image: Image,
    acked: usize,
    flying: Option<usize>,
    what: String,
}

fn apply(img: &mut Image, e: &Event) {
    match e {
        Event::Create { file } => {
            img.entry(file.clone()).or_default();
        }
        Event::Length { file, len } => img.entry(file.clone()).or_default().resize(*len, 0),
        Event::Store { file, at, bytes, .. } => {
            let f = img.entry(file.clone()).or_default();
            let end = (at + bytes.len()).min(f.len());
            if *at < end {
                f[*at..end].copy_from_slice(&bytes[..end - at]);
            }
        }
        _ => {}
    }
}

fn describe(e: &Event) -> String {
    match e {
        Event::Create { file } => format!("{file} created"),
        Event::Length { file, len } => format!("{file} resized to {len}"),
        Event::Store { file, at, bytes, .. } => format!("{} bytes stored in {file} at {at}", bytes.len()),
        Event::Sync { file, .. } => format!("{file} synchronized"),
        Event::Begin { op } => format!("operation {op} started"),
        Event::End { op, acked } => format!("operation {op} returned {}", if *acked { "success" } else { "an error" }),
    }
}

/// a cursor over the log that knows which operations were acknowledged
#[derive(Default)]
struct Progress {
    acked: usize,
    flying: Option<usize>,
}

impl Progress {
    fn see(&mut self, e: &Event) {
        match e {
            Event::Begin { op } => self.flying = Some(*op),
            Event::End { op, acked } => {
                self.flying = None;
                if *acked {
                    self.acked = op + 1;
                }
            }
            _ => {}
        }
    }
}

/// The process is killed: what it stored so far is in the files, up to any machine word of the store under way.
fn kills(start: &Image, log: &[Event]) -> Vec<State> {
    let mut out = vec![];
    let mut img = start.clone();
    let mut pr = Progress::default();
    let push = |img: &Image, pr: &Progress, what: String, out: &mut Vec<State>| {
        out.push(State { image: img.clone(), acked: pr.acked, flying: pr.flying, what })
    };
    push(&img, &pr, "killed at the start".into(), &mut out);
    for e in log {
        if let Event::Store { file, at, bytes, .. } = e {
            let end = at + bytes.len();
            for cut in (*at + 1..end).filter(|c| c % 8 == 0 && (end - at <= 256 || c - at <= 32 || end - c <= 32 || c % PAGE == 0)) {
                let mut torn = img.clone();
                apply(&mut torn, &Event::Store { file: file.clone(), at: *at, old: vec![], bytes: bytes[..cut - at].to_vec() });
                push(&torn, &pr, format!("killed with {} of {} bytes stored in {file} at {at}", cut - at, bytes.len()), &mut out);
            }
        }
        apply(&mut img, e);
        pr.see(e);
        push(&img, &pr, format!("killed after {}", describe(e)), &mut out);
    }
    out
}

#[derive(Clone, Default)]
struct Device {
    /// lengths the file may have on the device, oldest first
    lengths: Vec<usize>,
    /// contents each dirty page may have on the device, oldest first
    pages: BTreeMap<usize, Vec<Vec<u8>>>,
    durable: Vec<u8>,
}

fn page(bytes: &[u8], p: usize) -> Vec<u8> {
    let mut v = bytes.get(p * PAGE..bytes.len().min((p + 1) * PAGE)).unwrap_or(&[]).to_vec();
    v.resize(PAGE, 0);
    v
}

/// The machine stops: of what was not synchronized, any subset of pages and any of the later lengths survive.
fn power_losses(start: &Image, log: &[Event], cap: usize) -> (Vec<State>, bool) {
    let mut out = vec![];
    let mut capped = false;
    let mut pr = Progress::default();
    let mut cache = start.clone();
    let mut dev: BTreeMap<String, Device> =
        start.iter().map(|(n, b)| (n.clone(), Device { lengths: vec![b.len()], pages: BTreeMap::new(), durable: b.clone() })).collect();
    for e in log {
        apply(&mut cache, e);
        pr.see(e);
        match e {
            Event::Create { file } => {
                dev.insert(file.clone(), Device { lengths: vec![0], ..Device::default() });
            }
            Event::Length { file, len } => {
                let d = dev.get_mut(file).unwrap();
                d.lengths.push(*len);
                // what is cut off is gone when the length comes back
                let c = &cache[file];
                for (p, versions) in d.pages.iter_mut() {
                    let v = page(c, *p);
                    if versions.last() != Some(&v) {
                        versions.push(v);
                    }
                }
                let from = len / PAGE;
                for p in from..d.durable.len().div_ceil(PAGE) {
                    let (was, now) = (page(&d.durable, p), page(c, p));
                    if was != now && !d.pages.contains_key(&p) {
                        d.pages.insert(p, vec![was, now]);
                    }
                }
            }
            Event::Store { file, at, bytes, .. } => {
                let d = dev.get_mut(file).unwrap();
                let c = &cache[file];
                for p in at / PAGE..=(at + bytes.len() - 1) / PAGE {
                    let was = page(&d.durable, p);
                    let versions = d.pages.entry(p).or_insert_with(|| vec![was]);
                    let v = page(c, p);
                    if versions.last() != Some(&v) {
                        versions.push(v);
                    }
                }
            }
            Event::Sync { file, from, to } => {
                let d = dev.get_mut(file).unwrap();
                let c = &cache[file];
                let synced: Vec<usize> =
                    d.pages.keys().copied().filter(|p| p * PAGE < *to && from < &((p + 1) * PAGE)).collect();
                for p in synced {
                    d.pages.remove(&p);
                    let v = page(c, p);
                    if d.durable.len() < (p + 1) * PAGE {
                        d.durable.resize((p + 1) * PAGE, 0);
                    }
                    d.durable[p * PAGE..(p + 1) * PAGE].copy_from_slice(&v);
                }
                d.lengths = vec![c.len()];
            }
            _ => {}
        }
        // every combination of what may be on the device now
        let mut choices: Vec<(String, Option<usize>, usize)> = vec![];
        for (n, d) in &dev {
            choices.push((n.clone(), None, d.lengths.len()));
            for (p, v) in &d.pages {
                choices.push((n.clone(), Some(*p), v.len()));
            }
        }
        let total: usize = choices.iter().map(|c| c.2).fold(1, |a, b| a.saturating_mul(b));
        if total > cap {
            capped = true;
            continue;
        }
        for k in 0..total {
            let mut rest = k;
            let mut pick: BTreeMap<(&str, Option<usize>), usize> = BTreeMap::new();
            for (n, p, m) in &choices {
                pick.insert((n, *p), rest % m);
                rest /= m;
            }
            let mut img = Image::new();
            for (n, d) in &dev {
                let len = d.lengths[pick[&(n.as_str(), None)]];
                let mut bytes = d.durable.clone();
                for (p, v) in &d.pages {
                    if bytes.len() < (p + 1) * PAGE {
                        bytes.resize((p + 1) * PAGE, 0);
                    }
                    bytes[p * PAGE..(p + 1) * PAGE].copy_from_slice(&v[pick[&(n.as_str(), Some(*p))]]);
                }
                bytes.resize(len, 0);
                img.insert(n.clone(), bytes);
            }
            out.push(State {
                image: img,
                acked: pr.acked,
                flying: pr.flying,
                what: format!(
                    "power lost after {}; on the device: {}",
                    describe(e),
                    pick.iter()
                        .map(|((n, p), v)| match p {
                            None => format!("{n} length {}", dev[*n].lengths[*v]),
                            Some(p) => format!("{n} page {p} version {v}"),
                        })
                        .collect::<Vec<_>>()
                        .join(", ")
                ),
            });
        }
    }
    (out, capped)
}

/// Opens what a crash left and checks that it holds a prefix of `tried` with every acknowledged record, then that
/// the database works.  `bounds[i]` is the number of records tried by the first i operations.
fn recover<D: Db>(ctx: &mut Ctx, s: &Scratch, st: &State, tried: &[Vec<u8>], bounds: &[usize], seq: usize) -> Result<usize, Violation> {
    let p = s.path(&format!("r{seq}"));
    sys::lay_out(&p, &st.image);
    let at_least = bounds[st.acked];
    let at_most = st.flying.map_or(at_least, |f| bounds[f + 1].max(at_least));
    let w = &st.what;
    let bad = |sig: &str, msg: String| mclib::violation(sig, format!("{w}: {msg}"));
    let db = D::file(&p).map_err(|e| bad("recovery: open", format!("opening fails: {e}")))?;
    let n = db.len();
    if n < at_least {
        return Err(bad("recovery: lost", format!("{n} records recovered, {at_least} were acknowledged")));
    }
    if n > at_most {
        return Err(bad("recovery: invented", format!("{n} records recovered, at most {at_most} were written")));
    }
    let mut model = tried[..n].to_vec();
    let tag = |v: Violation| mclib::violation(format!("recovery: {}", v.sig), format!("{w}: {}", v.msg));
    compare(ctx, &db, &model, "recovered").map_err(tag)?;
    // life goes on, through an unclean and a clean end
    for round in 0..2 {
        let recs = [record(200 + round, 3), record(210 + round, 20)];
        let got = db.append_get_seqno(&[&recs[0]]);
        ensure!(got == Ok(Some(model.len())), "recovery: append", "{w}: append after recovery gives {got:?}");
        model.push(recs[0].clone());
        if round == 1 {
            let got = db.append_get_seqno(&[&recs[1], &recs[0]]);
            ensure!(got == Ok(Some(model.len())), "recovery: append", "{w}: append after recovery gives {got:?}");
            model.push(recs[1].clone());
            model.push(recs[0].clone());
        }
        compare(ctx, &db, &model, "continued").map_err(tag)?;
        let q = s.path(&format!("q{seq}"));
        sys::lay_out(&q, &sys::image(&p));
        {
            let again = D::file(&q).map_err(|e| bad("recovery: open", format!("opening after continuing fails: {e}")))?;
            compare(ctx, &again, &model, "continued, killed and reopened").map_err(tag)?;
        }
        let _ = std::fs::remove_dir_all(&q);
    }
    drop(db);
    let db = D::file(&p).map_err(|e| bad("recovery: open", format!("opening after continuing fails: {e}")))?;
    compare(ctx, &db, &model, "continued, closed and reopened").map_err(tag)?;
    drop(db);
    let _ = std::fs::remove_dir_all(&p);
    Ok(n)
}

struct Session {
    log: Vec<Event>,
    start: Image,
    tried: Vec<Vec<u8>>,
    bounds: Vec<usize>,
}

/// appends of the kinds `kinds` (4 = close and reopen) to the database at `name`, recorded
fn session<D: Db>(ctx: &mut Ctx, s: &Scratch, name: &str, before: Vec<Vec<u8>>, ops: usize, made: &mut usize) -> Result<Session, Violation> {
    let path = s.path(name);
    let start = sys::image(&path);
    let mut tried = before;
    let mut bounds = vec![tried.len()];
    sys::start(&path);
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            sys::abandon();
        }
    }
    let _off = Off;
    let mut db = Some(D::file(&path).map_err(|e| mclib::violation("open", e))?);
    for op in 0..ops {
        let kind = ctx.choose(5);
        sys::mark(Event::Begin { op });
        if kind == 4 {
            drop(db.take());
            db = Some(D::file(&path).map_err(|e| mclib::violation("reopen", e))?);
            ctx.note(|| "close, open".into());
        } else {
            append(ctx, db.as_ref().unwrap(), &mut tried, made, [0, 1, 2, 5][kind], 0)?;
        }
        sys::mark(Event::End { op, acked: true });
        bounds.push(tried.len());
    }
    let op = ops;
    sys::mark(Event::Begin { op });
    drop(db);
    sys::mark(Event::End { op, acked: true });
    bounds.push(tried.len());
    Ok(Session { log: sys::stop(), start, tried, bounds })
}

fn distinct(states: Vec<State>) -> Vec<State> {
    let mut seen = HashSet::new();
    states.into_iter().filter(|s| seen.insert((mclib_hash(&s.image), s.acked, s.flying))).collect()
}

fn mclib_hash<T: std::hash::Hash>(t: &T) -> u64 {
    use std::hash::{DefaultHasher, Hasher};
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

#[derive(Clone, Copy, PartialEq)]
enum Crash {
    Kill,
    Power,
}

fn states(crash: Crash, ses: &Session) -> Result<Vec<State>, Violation> {
    Ok(distinct(match crash {
        Crash::Kill => kills(&ses.start, &ses.log),
        Crash::Power => {
            let (st, capped) = power_losses(&ses.start, &ses.log, 4096);
            ensure!(!capped, "harness: too many device states", "more than 4096 device states at one point");
            st
        }
    }))
}

fn crashes<D: Db>(ctx: &mut Ctx, ops: usize, crash: Crash) -> RunResult {
    let s = Scratch::new();
    let mut made = 0;
    let ses = session::<D>(ctx, &s, "db", vec![], ops, &mut made)?;
    if ctx.verbose() {
        for e in &ses.log {
            ctx.note(|| describe(e));
        }
    }
    let mut ns = vec![];
    for (i, st) in states(crash, &ses)?.iter().enumerate() {
        let n = recover::<D>(ctx, &s, st, &ses.tried, &ses.bounds, i)?;
        ns.push(n);
        ctx.state(&(&st.image, n));
        ctx.beat();
    }
    ctx.outcome(&ns);
    Ok(End::Done)
}

/// a crash, a recovery, more work, and another crash
fn twice<D: Db>(ctx: &mut Ctx, first: usize, second: usize, crash: Crash) -> RunResult {
    let s = Scratch::new();
    let mut made = 0;
    let ses = session::<D>(ctx, &s, "db", vec![], first, &mut made)?;
    let mut all = states(crash, &ses)?;
    let k = ctx.choose(all.len());
    let st = all.swap_remove(k);
    ctx.note(|| st.what.clone());
    let n = recover::<D>(ctx, &s, &st, &ses.tried, &ses.bounds, 0)?;
    sys::lay_out(&s.path("db1"), &st.image);
    let ses = session::<D>(ctx, &s, "db1", ses.tried[..n].to_vec(), second, &mut made)?;
    let mut ns = vec![];
    for (i, st) in states(crash, &ses)?.iter().enumerate() {
        let n = recover::<D>(ctx, &s, st, &ses.tried, &ses.bounds, i + 1)?;
        ns.push(n);
        ctx.state(&(&st.image, n));
        ctx.beat();
    }
    ctx.outcome(&ns);
    Ok(End::Done)
}

/// one batch whose index entries do not fit into what is left of a page
fn across_pages<D: Db>(ctx: &mut Ctx, crash: Crash) -> RunResult {
    let s = Scratch::new();
    let before = *ctx.pick(&[250usize, 255, 256, 257]);
    let size = *ctx.pick(&[2usize, 10, 300]);
    ctx.note(|| format!("{before} records, then a batch of {size} records"));
    let make = |from: usize, n: usize| -> Vec<Vec<u8>> { (from..from + n).map(|i| record(i, 1 + i % 3)).collect() };
    let a = make(0, before);
    let b = make(before, size);
    let path = s.path("db");
    {
        let db = D::file(&path).map_err(|e| mclib::violation("open", e))?;
        db.append(&a.iter().map(|r| r.as_slice()).collect::<Vec<_>>()).map_err(|e| mclib::violation("append", e))?;
    }
    let start = sys::image(&path);
    sys::start(&path);
    let db = D::file(&path).map_err(|e| mclib::violation("open", e))?;
    sys::mark(Event::Begin { op: 0 });
    db.append(&b.iter().map(|r| r.as_slice()).collect::<Vec<_>>()).map_err(|e| mclib::violation("append", e))?;
    sys::mark(Event::End { op: 0, acked: true });
    let log = sys::stop();
    drop(db);
    let mut tried = a;
    tried.extend(b);
    let ses = Session { log, start, bounds: vec![before, tried.len()], tried };
    let mut ns = vec![];
    for (i, st) in states(crash, &ses)?.iter().enumerate() {
        let n = recover::<D>(ctx, &s, st, &ses.tried, &ses.bounds, i).map_err(|v| {
            let later_only = crash == Crash::Power
                && st.image.get("seqno").is_some_and(|f| (before..tried_hole(f)).any(|k| f[k * 16..k * 16 + 16] == [0; 16]));
            if later_only {
                mclib::violation("power loss keeps a later page of one batch's index and loses an earlier one", v.msg)
            } else {
                v
            }
        })?;
        ns.push(n);
        ctx.state(&(&st.image, n));
        ctx.beat();
    }
    ctx.outcome(&ns);
    Ok(End::Done)
}

/// number of index entries up to the last one that is not zero
fn tried_hole(f: &[u8]) -> usize {
    (0..f.len() / 16).rev().find(|k| f[k * 16..k * 16 + 16] != [0; 16]).map_or(0, |k| k + 1)
}

pub fn f03(t: Tier) -> Vec<Scenario> {
    let d = t.of(3, 4);
    let hist = "every history of the stated number of operations (4 kinds of append, close and reopen)";
    let kill = "and a kill after every system call and every stored machine word, recovery and closing included";
    let power = "and a power loss after every event with every subset of unsynchronized pages and every unsynchronized file length lost";
    vec![
        Scenario::new("kill-small", format!("{hist}: {d}; small growth constants; {kill}"), 0, move |c| crashes::<fraos_small::Database>(c, d, Crash::Kill)),
        Scenario::new("kill", format!("{hist}: {}; shipped constants; {kill}", d - 1), 0, move |c| crashes::<fraos::Database>(c, d - 1, Crash::Kill)),
        Scenario::new("power-small", format!("{hist}: {d}; small growth constants; {power}"), 0, move |c| crashes::<fraos_small::Database>(c, d, Crash::Power)),
        Scenario::new("kill-twice-small", format!("{hist}: {}, any kill, recovery, and {hist}: {}; small growth constants; {kill}", t.of(1, 2), 2), 0, move |c| twice::<fraos_small::Database>(c, t.of(1, 2), 2, Crash::Kill)),
        Scenario::new("power-twice-small", format!("{hist}: {}, any power loss, recovery, and {hist}: {}; small growth constants; {power}", t.of(1, 2), t.of(1, 2)), 0, move |c| twice::<fraos_small::Database>(c, t.of(1, 2), t.of(1, 2), Crash::Power)),
        Scenario::new("kill-pages", format!("a batch whose index entries cross a page of the index file, {kill}"), 0, |c| across_pages::<fraos::Database>(c, Crash::Kill)),
        Scenario::new("power-pages", format!("a batch whose index entries cross a page of the index file, {power}"), 0, |c| across_pages::<fraos::Database>(c, Crash::Power)),
    ]
}

// ---------------------------------------------------------------- F04

fn failing<D: Db>(ctx: &mut Ctx, depth: usize, memory: bool) -> RunResult {
    let s = Scratch::new();
    let mut at = "db".to_string();
    let mut path = s.path(&at);
    std::fs::create_dir_all(&path).unwrap();
    sys::start(&path);
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            sys::abandon();
        }
    }
    let _off = Off;
    let mut model: Vec<Vec<u8>> = vec![];
    let mut made = 0;
    let mut db: Option<D> = None;
    let mut last_failed: Option<&'static str> = None;
    for i in 0..=depth {
        let opening = db.is_none();
        let op = if i == depth {
            4 + ctx.choose(2) // end with a close or a kill
        } else if opening {
            9
        } else {
            ctx.choose(6)
        };
        if op == 5 {
            if memory {
                return Ok(End::Pruned);
            }
            // killed: what is in the files now is what the next process finds
            let next = format!("db{i}");
            sys::lay_out(&s.path(&next), &sys::image(&path));
            sys::abandon();
            db = None;
            at = next;
            path = s.path(&at);
            sys::start(&path);
            ctx.note(|| "killed".into());
            continue;
        }
        if op == 4 && memory {
            break;
        }
        let mut failed: Option<&'static str> = None;
        let mut calls = vec![];
        let made_before = made;
        let verbose = ctx.verbose();
        let result: Result<Option<Option<usize>>, String>;
        let mut recs: Vec<Vec<u8>> = vec![];
        if op < 4 {
            recs = batch::<D>([0, 1, 2, 5][op])
                .iter()
                .map(|n| {
                    made += 1;
                    record(made, *n)
                })
                .collect();
        }
        {
            let refs: Vec<&[u8]> = recs.iter().map(|r| r.as_slice()).collect();
            let mut decide = |call: &'static str| -> Option<libc::c_int> {
                if verbose {
                    calls.push(call);
                }
                if ctx.dev(2) == 1 {
                    failed = Some(call);
                    Some(match call {
                        "ftruncate" => libc::ENOSPC,
                        "msync" => libc::EIO,
                        _ => libc::ENOMEM,
                    })
                } else {
                    None
                }
            };
            result = sys::with_faults(&mut decide, || match op {
                4 => {
                    drop(db.take());
                    Ok(None)
                }
                9 => {
                    let d = if memory { D::memory() } else { D::file(&path) };
                    d.map(|d| {
                        db = Some(d);
                        None
                    })
                }
                _ => db.as_ref().unwrap().append_get_seqno(&refs).map(Some),
            });
        }
        let _ = made_before;
        ctx.step();
        ctx.note(|| {
            format!(
                "{} {} [{}]",
                match op {
                    4 => "close".to_string(),
                    9 => "open".to_string(),
                    _ => format!("append of {:?} bytes", recs.iter().map(|r| r.len()).collect::<Vec<_>>()),
                },
                match (&result, failed) {
                    (Ok(_), None) => "-> ok".to_string(),
                    (Ok(_), Some(c)) => format!("-> ok although {c} failed"),
                    (Err(e), c) => format!("-> {e} ({c:?} failed)"),
                },
                calls.join(" ")
            )
        });
        if failed.is_some() {
            last_failed = failed;
        }
        let sig = |what: &str| match last_failed {
            None => what.to_string(),
            Some("mprotect") if memory => "records of a memory database lost after a failed mprotect".to_string(),
            Some(c) => format!("{what} after a failed {c}"),
        };
        match &result {
            Err(e) => ensure!(failed.is_some(), sig("error"), "failed although no call did: {e}"),
            Ok(Some(seqno)) => {
                ensure!(*seqno == Some(model.len()), sig("seqno"), "returned {seqno:?} for record {}", model.len());
                model.extend(recs);
            }
            Ok(None) => {}
        }
        if let Some(db) = &db {
            compare(ctx, db, &model, "open handle").map_err(|v| mclib::violation(sig(&v.sig), v.msg))?;
        }
        let lens: Vec<usize> = model.iter().map(|r| r.len()).collect();
        ctx.state(&(lens, failed));
    }
    drop(db);
    sys::abandon();
    if !memory {
        for round in 0..2 {
            let db = D::file(&path)
                .map_err(|e| mclib::violation(format!("reopen after a failed {last_failed:?}"), e))?;
            compare(ctx, &db, &model, "reopened")
                .map_err(|v| mclib::violation(format!("{} reopened after a failed {last_failed:?}", v.sig), v.msg))?;
            if round == 0 {
                append(ctx, &db, &mut model, &mut made, 1, 0)?;
            }
        }
    }
    ctx.outcome(&(model.len(), last_failed));
    Ok(End::Done)
}

pub fn f04(t: Tier) -> Vec<Scenario> {
    let d = t.of(4, 5);
    let what = |d: usize, f: usize, b: &str| {
        format!("every history of {d} operations (4 kinds of append, close, kill, reopen) on {b}, with up to {f} failing system calls at every possible place (resize, map, protect, flush; opening and closing included); every query compared with the successful appends after every operation and after reopening")
    };
    vec![
        Scenario::new("faults-small", what(d, 1, "files, small growth constants"), 1, move |c| failing::<fraos_small::Database>(c, d, false)),
        Scenario::new("faults", what(3, 1, "files, shipped constants"), 1, move |c| failing::<fraos::Database>(c, 3, false)),
        Scenario::new("faults-memory", what(4, 1, "memory"), 1, move |c| failing::<fraos::Database>(c, 4, true)),
        Scenario::new("two-faults-small", what(3, 2, "files, small growth constants"), 2, move |c| failing::<fraos_small::Database>(c, t.of(3, 4), false)),
    ]
}
