//! Operation sequences on one or more handles (F01, F02, F06, F07).

use crate::{
    db::{compare, record, show, Db, Scratch},
    sys,
};
use mclib::{ensure, ensure_eq, Ctx, End, RunResult, Scenario, Tier, Violation};

pub const APPENDS: usize = 8;

/// what the `kind`-th append writes: sizes of its records
pub fn batch<D: Db>(kind: usize) -> Vec<usize> {
    match kind {
        0 => vec![1],
        1 => vec![2, 30],
        2 => vec![D::BIG],
        3 => vec![],
        4 => vec![3, 0, 2],
        5 => vec![1, 1, 1, 1, 1],
        6 => vec![0],
        7 => vec![9, D::BIG, 5],
        _ => unreachable!(),
    }
}

/// performs the append and checks what it answers; on success extends `model`
pub fn append<D: Db>(ctx: &mut Ctx, db: &D, model: &mut Vec<Vec<u8>>, made: &mut usize, kind: usize, via: usize) -> Result<(), Violation> {
    let sizes = batch::<D>(kind);
    let recs: Vec<Vec<u8>> = sizes
        .iter()
        .map(|s| {
            *made += 1;
            record(*made, *s)
        })
        .collect();
    let refs: Vec<&[u8]> = recs.iter().map(|r| r.as_slice()).collect();
    let n = model.len();
    let bad = sizes.contains(&0);
    let single = refs.len() == 1;
    ctx.step();
    let seqno: Result<Option<Option<usize>>, String> = match via {
        // which of the equivalent calls is used
        1 if single => db.put_seqno(refs[0]).map(|s| Some(Some(s))),
        2 if single => db.put(refs[0]).map(|_| None),
        2 => db.append(&refs).map(|_| None),
        _ => db.append_get_seqno(&refs).map(Some),
    };
    ctx.note(|| format!("append of {sizes:?} bytes -> {seqno:?}"));
    if bad {
        ensure!(seqno.is_err(), "empty record", "appending {sizes:?} bytes succeeded");
        return Ok(());
    }
    match seqno {
        Err(e) => return Err(mclib::violation("append", format!("appending {sizes:?} bytes failed: {e}"))),
        Ok(Some(s)) => ensure_eq!(s, if sizes.is_empty() { None } else { Some(n) }, "seqno", "sequence number returned"),
        Ok(None) => {}
    }
    model.extend(recs);
    Ok(())
}

fn sequence<D: Db>(ctx: &mut Ctx, memory: bool, depth: usize) -> RunResult {
    let s = Scratch::new();
    let db = if memory { D::memory() } else { D::file(&s.path("db")) }.map_err(|e| mclib::violation("open", e))?;
    let mut model = vec![];
    let mut made = 0;
    compare(ctx, &db, &model, "new database")?;
    for i in 0..depth {
        let kind = ctx.choose(APPENDS);
        append(ctx, &db, &mut model, &mut made, kind, i % 3)?;
        compare(ctx, &db, &model, "after an append")?;
        let lens: Vec<usize> = model.iter().map(|r| r.len()).collect();
        ctx.state(&lens);
    }
    ctx.outcome(&model);
    Ok(End::Done)
}

fn long<D: Db>(ctx: &mut Ctx, memory: bool, n: usize) -> RunResult {
    let s = Scratch::new();
    let size = *ctx.pick(&[1usize, 7, 16, 33, 63, 64, 65, 200]);
    let per = 1 + ctx.choose(5);
    let db = if memory { D::memory() } else { D::file(&s.path("db")) }.map_err(|e| mclib::violation("open", e))?;
    let mut model: Vec<Vec<u8>> = vec![];
    ctx.note(|| format!("{n} appends of {per} records of {size} bytes"));
    for i in 0..n {
        let recs: Vec<Vec<u8>> = (0..per).map(|k| record(i * per + k, size)).collect();
        let refs: Vec<&[u8]> = recs.iter().map(|r| r.as_slice()).collect();
        let got = db.append_get_seqno(&refs);
        ensure_eq!(got, Ok(Some(model.len())), "seqno", "append {i}");
        model.extend(recs.iter().cloned());
        if n < 100 || i % 50 == 0 || i + 1 == n {
            compare(ctx, &db, &model, "after an append")?;
        }
        ctx.beat();
    }
    ctx.state(&(size, per));
    ctx.outcome(&model.len());
    Ok(End::Done)
}

const LENS: &[usize] = &[1, 2, 100, 255, 257, 1000, 1025, 2049, 5000, 33_000, 70_000];

/// Batches of very different lengths, some of them with an empty record somewhere
fn batches<D: Db>(ctx: &mut Ctx, memory: bool, lens: &[usize]) -> RunResult {
    let s = Scratch::new();
    let db = if memory { D::memory() } else { D::file(&s.path("db")) }.map_err(|e| mclib::violation("open", e))?;
    let mut model: Vec<Vec<u8>> = vec![];
    for round in 0..2 {
        let n = if round == 0 { *ctx.pick(lens) } else { *ctx.pick(&[1, 300, 1025]) };
        let size = if round == 0 { [1, 9][ctx.choose(2)] } else { 5 };
        let mut recs: Vec<Vec<u8>> = (0..n).map(|k| record(model.len() + k, size)).collect();
        let empty = [None, Some(0), Some(1), Some(n / 2), Some(n - 1)][ctx.choose(5)].filter(|i| *i < n);
        if let Some(i) = empty {
            recs[i].clear();
        }
        let refs: Vec<&[u8]> = recs.iter().map(|r| r.as_slice()).collect();
        let got = db.append_get_seqno(&refs);
        ctx.step();
        ctx.note(|| format!("batch {round} of {n} records of {size} bytes, empty {empty:?}: {got:?}"));
        match empty {
            Some(i) => ensure!(got.is_err(), "empty record", "a batch of {n} records is accepted, number {i} of them is empty"),
            None => {
                ensure_eq!(got, Ok(Some(model.len())), "seqno", "batch of {n} records");
                model.extend(recs);
            }
        }
        compare(ctx, &db, &model, "after a batch")?;
        ctx.state(&(model.len(), empty));
        ctx.beat();
    }
    ctx.outcome(&model.len());
    Ok(End::Done)
}

pub fn f01(t: Tier) -> Vec<Scenario> {
    let d = t.of(4, 5);
    let what = |b: &str| {
        format!("every sequence of {d} appends out of {APPENDS} kinds (single, batches, empty batch, batches with an empty record, records larger than a mapping) on {b}; every query compared with the list after every step")
    };
    vec![
        Scenario::new("files-small", what("files, small growth constants"), 0, move |c| sequence::<fraos_small::Database>(c, false, d)),
        Scenario::new("memory", what("memory"), 0, move |c| sequence::<fraos::Database>(c, true, d)),
        Scenario::new("files", what("files, shipped constants"), 0, move |c| sequence::<fraos::Database>(c, false, t.of(3, 4))),
        Scenario::new("batches-memory", format!("every batch of {LENS:?} records of 1 or 9 bytes followed by one of 1, 300 or 1025, each with an empty record at the beginning, in second place, in the middle, at the end or nowhere, in memory"), 0, |c| batches::<fraos::Database>(c, true, LENS)),
        Scenario::new("batches", "the same on files, shipped constants", 0, |c| batches::<fraos::Database>(c, false, LENS)),
        Scenario::new("batches-small", "the same on files, small growth constants", 0, |c| batches::<fraos_small::Database>(c, false, LENS)),
        Scenario::new("long-small", "40 appends of 1..5 records of 8 sizes, small growth constants, on files", 0, |c| long::<fraos_small::Database>(c, false, 40)),
        Scenario::new("long-memory", "40 appends of 1..5 records of 8 sizes, in memory", 0, |c| long::<fraos::Database>(c, true, 40)),
        Scenario::new("very-long", "3000 appends of 1..5 records of 8 sizes, small growth constants", 0, move |c| long::<fraos_small::Database>(c, false, t.of(400, 3000))),
    ]
}

// ---------------------------------------------------------------- F02

/// what is on the files right now, as a process that is killed leaves it
fn kill_and_copy(s: &Scratch, at: &str, to: &str) -> std::path::PathBuf {
    let img = sys::image(&s.path(at));
    let p = s.path(to);
    sys::lay_out(&p, &img);
    p
}

fn reopening<D: Db>(ctx: &mut Ctx, depth: usize) -> RunResult {
    let s = Scratch::new();
    let mut at = "db0".to_string();
    let mut db = D::file(&s.path(&at)).map_err(|e| mclib::violation("open", e))?;
    let mut model = vec![];
    let mut made = 0;
    for i in 0..depth {
        // appends, a clean close, an unclean end, a read-only look
        let op = ctx.choose(7);
        match op {
            0..=3 => append(ctx, &db, &mut model, &mut made, [0, 1, 2, 5][op], 0)?,
            4 => {
                drop(db);
                db = D::file(&s.path(&at)).map_err(|e| mclib::violation("reopen", e))?;
                ctx.note(|| "close, open".into());
            }
            5 => {
                let next = format!("db{}", i + 1);
                let p = kill_and_copy(&s, &at, &next);
                db = D::file(&p).map_err(|e| mclib::violation("reopen after an unclean end", e))?;
                at = next;
                ctx.note(|| "killed, open".into());
            }
            _ => {
                let ro = D::readonly(&s.path(&at)).map_err(|e| mclib::violation("open read-only", e))?;
                compare(ctx, &ro, &model, "read-only, while open")?;
                ctx.note(|| "looked at read-only".into());
            }
        }
        compare(ctx, &db, &model, "after the step")?;
        let lens: Vec<usize> = model.iter().map(|r| r.len()).collect();
        ctx.state(&lens);
    }
    drop(db);
    let db = D::file(&s.path(&at)).map_err(|e| mclib::violation("reopen", e))?;
    compare(ctx, &db, &model, "finally reopened")?;
    ctx.outcome(&model);
    Ok(End::Done)
}

fn tails<D: Db>(ctx: &mut Ctx, max: usize) -> RunResult {
    let s = Scratch::new();
    let n = ctx.choose(max + 1);
    let per = 1 + ctx.choose(3);
    let again = ctx.choose(3);
    let db = D::file(&s.path("db")).map_err(|e| mclib::violation("open", e))?;
    let mut model: Vec<Vec<u8>> = vec![];
    let add = |db: &D, model: &mut Vec<Vec<u8>>, upto: usize| -> Result<(), Violation> {
        while model.len() < upto {
            let k = per.min(upto - model.len());
            let recs: Vec<Vec<u8>> = (0..k).map(|j| record(model.len() + j, 1 + (model.len() + j) % 5)).collect();
            let refs: Vec<&[u8]> = recs.iter().map(|r| r.as_slice()).collect();
            let got = db.append_get_seqno(&refs);
            ensure_eq!(got, Ok(Some(model.len())), "seqno", "append at {}", model.len());
            model.extend(recs);
        }
        Ok(())
    };
    ctx.note(|| format!("{n} records in batches of {per}, killed, {again} more, killed"));
    add(&db, &mut model, n)?;
    let p = kill_and_copy(&s, "db", "db1");
    let db1 = D::file(&p).map_err(|e| mclib::violation("reopen after an unclean end", e))?;
    compare(ctx, &db1, &model, "after an unclean end")?;
    add(&db1, &mut model, n + again)?;
    compare(ctx, &db1, &model, "continued")?;
    let p = kill_and_copy(&s, "db1", "db2");
    let db2 = D::file(&p).map_err(|e| mclib::violation("reopen after an unclean end", e))?;
    compare(ctx, &db2, &model, "after a second unclean end")?;
    drop(db2);
    let db3 = D::file(&p).map_err(|e| mclib::violation("reopen", e))?;
    compare(ctx, &db3, &model, "after a clean end")?;
    ctx.state(&(n, per, again));
    ctx.outcome(&(n + again));
    Ok(End::Done)
}

/// Many records, a clean or unclean end, some more, an end again
fn big<D: Db>(ctx: &mut Ctx) -> RunResult {
    let s = Scratch::new();
    let mut at = "db0".to_string();
    let mut db = D::file(&s.path(&at)).map_err(|e| mclib::violation("open", e))?;
    let mut model: Vec<Vec<u8>> = vec![];
    let size = *ctx.pick(&[1usize, 40, 701]);
    let per = *ctx.pick(&[700usize, 5000]);
    for (round, counts) in [[3000usize, 16_400, 33_000], [10, 5000, 33_000]].iter().enumerate() {
        let n = *ctx.pick(counts);
        for from in (0..n).step_by(per) {
            let recs: Vec<Vec<u8>> = (from..n.min(from + per)).map(|k| record(model.len() + k - from, size + k % 3)).collect();
            let refs: Vec<&[u8]> = recs.iter().map(|r| r.as_slice()).collect();
            let got = db.append_get_seqno(&refs);
            ensure_eq!(got, Ok(Some(model.len())), "seqno", "append at {}", model.len());
            model.extend(recs);
        }
        let clean = ctx.choose(2) == 0;
        ctx.note(|| format!("{n} records of {size}.. bytes in batches of {per}, {}", if clean { "closed" } else { "killed" }));
        if clean {
            drop(db);
        } else {
            let next = format!("db{}", round + 1);
            kill_and_copy(&s, &at, &next);
            drop(db);
            at = next;
        }
        db = D::file(&s.path(&at)).map_err(|e| mclib::violation("reopen", e))?;
        compare(ctx, &db, &model, "reopened")?;
        ctx.state(&model.len());
        ctx.beat();
    }
    ctx.outcome(&model.len());
    Ok(End::Done)
}

pub fn f02(t: Tier) -> Vec<Scenario> {
    let d = t.of(5, 6);
    let what = |d: usize, b: &str| {
        format!("every sequence of {d} steps out of 4 appends, clean close and reopen, unclean end and reopen, read-only look, on files with {b}; every query compared with the list after every step and after a last reopen")
    };
    vec![
        Scenario::new("reopen-small", what(d, "small growth constants"), 0, move |c| reopening::<fraos_small::Database>(c, d)),
        Scenario::new("reopen", what(d - 1, "shipped constants"), 0, move |c| reopening::<fraos::Database>(c, d - 1)),
        Scenario::new("tails-small", "0..70 records in batches of 1..3, unclean end, 0..2 more records, unclean end, clean end; small growth constants", 0, move |c| tails::<fraos_small::Database>(c, 70)),
        Scenario::new("big", "3000, 16400 or 33000 records of 1, 40 or 701 bytes and a little more in batches of 700 or 5000, clean or unclean end, 10, 5000 or 33000 more, clean or unclean end; shipped constants", 0, big::<fraos::Database>),
        Scenario::new("tails", "the same with the shipped constants", 0, move |c| tails::<fraos::Database>(c, t.of(70, 600))),
    ]
}

// ---------------------------------------------------------------- F06

fn handles<D: Db>(ctx: &mut Ctx, memory: bool, depth: usize) -> RunResult {
    let s = Scratch::new();
    let path = s.path("db");
    let db = if memory { D::memory() } else { D::file(&path) }.map_err(|e| mclib::violation("open", e))?;
    let mut clones: Vec<D> = vec![db];
    struct It {
        rows: crate::db::Rows<'static>,
        at: usize,
    }
    let mut iters: Vec<It> = vec![];
    let mut model: Vec<Vec<u8>> = vec![];
    let mut made = 0;
    for _ in 0..depth {
        // 0: clone  1: iterator  2: step the iterators  3..: appends through some clone; drop of some clone; drop of an iterator
        let appends = [0usize, 2, 5];
        let op = ctx.choose(4 + appends.len() + 1);
        match op {
            0 => {
                if clones.is_empty() || clones.len() == 3 {
                    return Ok(End::Pruned);
                }
                let k = ctx.choose(clones.len());
                let c = clones[k].clone();
                ctx.note(|| format!("clone of handle {k}"));
                clones.push(c);
            }
            1 => {
                if clones.is_empty() || iters.len() == 2 {
                    return Ok(End::Pruned);
                }
                let at = if model.is_empty() { 0 } else { ctx.choose(2) * model.len() };
                ctx.note(|| format!("iterator from {at}"));
                if let Some(rows) = clones[clones.len() - 1].rows(at) {
                    iters.push(It { rows, at });
                }
            }
            2 => {
                if iters.is_empty() {
                    return Ok(End::Pruned);
                }
                ctx.note(|| "step every iterator".into());
                for it in iters.iter_mut() {
                    let got = it.rows.next();
                    let want = model.get(it.at).cloned().map(Ok);
                    ensure!(
                        got == want,
                        "iterator",
                        "item {} is {:?}, expected {:?}",
                        it.at,
                        got.map(|r| r.map(|b| show(&b))),
                        want.map(|r| r.map(|b: Vec<u8>| show(&b)))
                    );
                    if got.is_some() {
                        it.at += 1;
                    }
                }
            }
            3 => {
                if clones.is_empty() {
                    return Ok(End::Pruned);
                }
                let k = ctx.choose(clones.len());
                ctx.note(|| format!("drop of handle {k}"));
                drop(clones.remove(k));
            }
            4..=6 => {
                if clones.is_empty() {
                    return Ok(End::Pruned);
                }
                let k = ctx.choose(clones.len());
                ctx.note(|| format!("through handle {k}:"));
                append(ctx, &clones[k], &mut model, &mut made, appends[op - 4], 0)?;
            }
            _ => {
                if iters.is_empty() {
                    return Ok(End::Pruned);
                }
                ctx.note(|| "drop of the first iterator".into());
                drop(iters.remove(0));
            }
        }
        for (k, c) in clones.iter().enumerate() {
            compare(ctx, c, &model, &format!("handle {k}"))?;
        }
        let lens: Vec<usize> = model.iter().map(|r| r.len()).collect();
        ctx.state(&(lens, clones.len(), iters.iter().map(|i| i.at).collect::<Vec<_>>()));
    }
    // the remaining iterators see everything, whoever is gone
    let first = ctx.flag();
    if first {
        clones.clear();
    }
    for it in iters.iter_mut() {
        while it.at < model.len() {
            let got = it.rows.next();
            ensure!(got == Some(Ok(model[it.at].clone())), "iterator", "item {} at the end", it.at);
            it.at += 1;
        }
        ensure!(it.rows.next().is_none(), "iterator", "an item past the end");
    }
    drop(iters);
    drop(clones);
    if !memory {
        let db = D::file(&path).map_err(|e| mclib::violation("reopen", e))?;
        compare(ctx, &db, &model, "reopened")?;
    }
    ctx.outcome(&model);
    Ok(End::Done)
}

pub fn f06(t: Tier) -> Vec<Scenario> {
    let d = t.of(5, 6);
    let what = |d: usize, b: &str| {
        format!("every sequence of {d} steps out of: clone a handle (up to 3), create or step or drop an iterator (up to 2), append 3 kinds of batch through any handle, drop any handle; {b}; every handle compared with the list after every step, iterators item by item, and the files after everything is dropped")
    };
    vec![
        Scenario::new("handles-small", what(d, "small growth constants"), 0, move |c| handles::<fraos_small::Database>(c, false, d)),
        Scenario::new("handles", what(d - 1, "shipped constants"), 0, move |c| handles::<fraos::Database>(c, false, d - 1)),
        Scenario::new("handles-memory", what(d, "in memory"), 0, move |c| handles::<fraos::Database>(c, true, d)),
    ]
}

// ---------------------------------------------------------------- F07

fn read_only<D: Db>(ctx: &mut Ctx, depth: usize) -> RunResult {
    let s = Scratch::new();
    let path = s.path("db");
    let mut model = vec![];
    let mut made = 0;
    let mut db = Some(D::file(&path).map_err(|e| mclib::violation("open", e))?);
    let n = ctx.choose(depth + 1);
    for _ in 0..n {
        let k = ctx.choose(4);
        append(ctx, db.as_ref().unwrap(), &mut model, &mut made, [0, 1, 2, 5][k], 0)?;
    }
    // how the writer ended: still open, closed, killed
    let path = match ctx.choose(3) {
        0 => path,
        1 => {
            db = None;
            path
        }
        _ => {
            let p = kill_and_copy(&s, "db", "db1");
            db = None;
            p
        }
    };
    let before = sys::image(&path);
    {
        let ro = D::readonly(&path).map_err(|e| mclib::violation("open read-only", e))?;
        compare(ctx, &ro, &model, "read-only")?;
        ensure!(sys::image(&path) == before, "files changed", "opening read-only changed the files");
        let other = ro.clone();
        for kind in [0, 1, 2, 4, 5] {
            let recs: Vec<Vec<u8>> = batch::<D>(kind).iter().map(|n| record(99, *n)).collect();
            let refs: Vec<&[u8]> = recs.iter().map(|r| r.as_slice()).collect();
            let got = ro.append_get_seqno(&refs);
            ensure!(got.is_err(), "read-only append", "appending {:?} bytes gave {got:?}", batch::<D>(kind));
            ensure!(sys::image(&path) == before, "files changed", "a rejected append changed the files");
        }
        compare(ctx, &ro, &model, "read-only, after rejected appends")?;
        drop(other);
        compare(ctx, &ro, &model, "read-only, after dropping a clone")?;
        if let Some(w) = &db {
            // the writer goes on; the reader still reads what it found
            let mut m = model.clone();
            append(ctx, w, &mut m, &mut made, 1, 0)?;
            compare(ctx, &ro, &model, "read-only, while the writer appends")?;
            model = m;
        }
    }
    if db.is_none() {
        ensure!(sys::image(&path) == before, "files changed", "closing a read-only database changed the files");
    } else if let Some(w) = db.take() {
        compare(ctx, &w, &model, "the writer")?;
        append(ctx, &w, &mut model, &mut made, 0, 0)?;
        compare(ctx, &w, &model, "the writer")?;
    }
    let db = D::file(&path).map_err(|e| mclib::violation("reopen", e))?;
    compare(ctx, &db, &model, "writable again")?;
    let lens: Vec<usize> = model.iter().map(|r| r.len()).collect();
    ctx.state(&lens);
    ctx.outcome(&lens);
    Ok(End::Done)
}

fn missing<D: Db>(ctx: &mut Ctx) -> RunResult {
    let s = Scratch::new();
    ctx.step();
    let what = ctx.choose(4);
    let p = s.path("db");
    match what {
        0 => {}
        1 => std::fs::create_dir(&p).unwrap(),
        2 => {
            std::fs::create_dir(&p).unwrap();
            std::fs::write(p.join("data"), b"").unwrap();
        }
        _ => std::fs::write(&p, b"a file").unwrap(),
    }
    let tree = |p: &std::path::Path| (p.exists(), p.is_dir(), sys::image(p));
    let before = tree(&p);
    let got = D::readonly(&p);
    ctx.note(|| format!("{} read-only", ["a missing path", "an empty directory", "a directory without an index", "a plain file"][what]));
    ensure!(got.is_err(), "opened nothing", "opening it succeeded");
    drop(got);
    ensure!(tree(&p) == before, "created", "opening {} read-only changed it", p.display());
    ctx.state(&what);
    ctx.outcome(&what);
    Ok(End::Done)
}

pub fn f07(t: Tier) -> Vec<Scenario> {
    let d = t.of(4, 5);
    let what = "appends of 4 kinds, with the writer still open, closed or killed; every query, rejected appends, clones, and the bytes of every file before and after";
    vec![
        Scenario::new("readers-small", format!("up to {d} {what}; small growth constants"), 0, move |c| read_only::<fraos_small::Database>(c, d)),
        Scenario::new("readers", format!("up to {} {what}; shipped constants", d - 1), 0, move |c| read_only::<fraos::Database>(c, d - 1)),
        Scenario::new("missing", "missing path, empty directory, directory without an index, plain file", 0, missing::<fraos::Database>),
    ]
}
