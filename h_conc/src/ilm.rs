//! I01 and I03: one IndexedLogMap through histories, crashes and failures.

use indexed_log_map::{config::IndexedLogMapConfig, storage::IndexedLogMap};
use mclib::{ensure, ensure_eq, violation, Ctx, End, RunResult, Scenario, Tier, Violation};
use serde::{de::DeserializeOwned, Serialize};
use std::{
    collections::BTreeMap,
    fmt::Debug,
    path::{Path, PathBuf},
    sync::atomic::{AtomicU64, Ordering},
};

static NEXT: AtomicU64 = AtomicU64::new(0);

pub struct Dir(pub PathBuf);

impl Dir {
    pub fn new() -> Self {
        let _ = std::fs::create_dir_all(crate::base());
        Dir(crate::base().join(format!("m{}", NEXT.fetch_add(1, Ordering::Relaxed))))
    }
}

impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
        mc_sled::mc::forget(&self.0.join("key_index"));
    }
}

/// The two builds of the map (on the key-index stand-in with small constants, and as shipped).
pub trait Map<K, V>: Sized + 'static {
    const NAME: &'static str;
    fn open(path: Option<&Path>, index: bool, readonly: bool) -> Result<Self, String>;
    fn append(&self, k: K, v: V) -> Result<(), String>;
    fn get(&self, k: &K) -> Result<Option<V>, String>;
    fn contains(&self, k: &K) -> Result<bool, String>;
    fn is_empty(&self) -> Result<bool, String>;
    fn last(&self) -> Result<Option<V>, String>;
    fn rows(&self) -> Result<Vec<V>, String>;
    fn from(&self, k: &K) -> Result<Option<Vec<V>>, String>;
    fn next(&self, k: &Option<K>) -> Result<Option<V>, String>;
}

macro_rules! implement {
    ($map:ident, $root:ident, $name:literal) => {
        pub struct $map<K: Serialize + DeserializeOwned, V: Serialize + DeserializeOwned>($root::storage::IndexedLogMap<K, V>);

        impl<K: Serialize + DeserializeOwned + 'static, V: Serialize + DeserializeOwned + 'static> Map<K, V> for $map<K, V> {
            const NAME: &'static str = $name;
            fn open(path: Option<&Path>, index: bool, readonly: bool) -> Result<Self, String> {
                let c = $root::config::IndexedLogMapConfig { storage_path: path.map(|p| p.into()), use_key_indexing: index, readonly };
                // sled releases a database's lock some time after the database was dropped
                let mut patience = 2000;
                loop {
                    let r = $root::storage::IndexedLogMap::new(c.clone()).map($map).map_err(|e| format!("{e:?}"));
                    match r {
                        Err(e) if e.contains("acquire lock") && patience > 0 => {
                            patience -= 1;
                            std::thread::sleep(std::time::Duration::from_millis(5));
                        }
                        r => return r,
                    }
                }
            }
            fn append(&self, k: K, v: V) -> Result<(), String> {
                self.0.append(k, v).map_err(|e| format!("{e:?}"))
            }
            fn get(&self, k: &K) -> Result<Option<V>, String> {
                self.0.get(k).map_err(|e| format!("{e:?}"))
            }
            fn contains(&self, k: &K) -> Result<bool, String> {
                self.0.contains(k).map_err(|e| format!("{e:?}"))
            }
            fn is_empty(&self) -> Result<bool, String> {
                self.0.is_empty().map_err(|e| format!("{e:?}"))
            }
            fn last(&self) -> Result<Option<V>, String> {
                self.0.last().map_err(|e| format!("{e:?}"))
            }
            fn rows(&self) -> Result<Vec<V>, String> {
                self.0.iter().into_iter().flatten().take(1000).collect::<Result<_, _>>().map_err(|e: anyhow::Error| format!("{e:?}"))
            }
            fn from(&self, k: &K) -> Result<Option<Vec<V>>, String> {
                match self.0.iter_from(k).map_err(|e| format!("{e:?}"))? {
                    None => Ok(None),
                    Some(it) => it.take(1000).collect::<Result<_, _>>().map(Some).map_err(|e: anyhow::Error| format!("{e:?}")),
                }
            }
            fn next(&self, k: &Option<K>) -> Result<Option<V>, String> {
                $root::storage::get_next(&self.0, k).map_err(|e| format!("{e:?}"))
            }
        }
    };
}

implement!(Stand, indexed_log_map, "key-index stand-in");
implement!(Shipped, indexed_log_map_shipped, "as shipped");

/// everything a reader can ask, against the list of entries
fn compare<K: Clone + Debug + PartialEq, V: Clone + Debug + PartialEq, M: Map<K, V>>(ctx: &mut Ctx, m: &M, keys: &[K], want: &[(K, V)], index: bool, when: &str) -> Result<(), Violation> {
    ctx.step();
    let values: Vec<V> = want.iter().map(|w| w.1.clone()).collect();
    let rows = m.rows();
    ensure!(rows.as_ref() == Ok(&values), "log", "{when}: the log is {rows:?}, expected {values:?}");
    let last = m.last();
    ensure!(last.as_ref() == Ok(&values.last().cloned()), "last", "{when}: last is {last:?}, expected {:?}", values.last());
    let first = m.next(&None);
    ensure!(first.as_ref() == Ok(&values.first().cloned()), "next", "{when}: the first entry is {first:?}, expected {:?}", values.first());
    if !index {
        for k in keys {
            ensure!(m.get(k).is_err(), "lookup without index", "{when}: get({k:?}) answers without a key index");
            ensure!(m.contains(k).is_err(), "lookup without index", "{when}: contains({k:?}) answers without a key index");
            ensure!(m.from(k).is_err(), "lookup without index", "{when}: iter_from({k:?}) answers without a key index");
            ensure!(m.next(&Some(k.clone())).is_err(), "lookup without index", "{when}: get_next({k:?}) answers without a key index");
        }
        return Ok(());
    }
    let empty = m.is_empty();
    ensure!(empty == Ok(want.is_empty()), "is_empty", "{when}: is_empty is {empty:?} with {} entries", want.len());
    for k in keys {
        let at = want.iter().rposition(|w| w.0 == *k);
        let v = at.map(|a| values[a].clone());
        let got = m.get(k);
        ensure!(got.as_ref() == Ok(&v), "get", "{when}: get({k:?}) is {got:?}, expected {v:?}; the log is {want:?}");
        let there = m.contains(k);
        ensure!(there == Ok(at.is_some()), "contains", "{when}: contains({k:?}) is {there:?}; the log is {want:?}");
        let tail = at.map(|a| values[a..].to_vec());
        let got = m.from(k);
        ensure!(got.as_ref() == Ok(&tail), "iter_from", "{when}: iterating from {k:?} yields {got:?}, expected {tail:?}");
        let next = at.and_then(|a| values.get(a + 1).cloned());
        let got = m.next(&Some(k.clone()));
        ensure!(got.as_ref() == Ok(&next), "next", "{when}: the entry after {k:?} is {got:?}, expected {next:?}");
    }
    Ok(())
}

/// every history of `depth` steps over the given keys and values
fn history<K, V, M>(ctx: &mut Ctx, depth: usize, file: bool, keys: &[K], value: &dyn Fn(usize, usize) -> V, sizes: usize) -> RunResult
where
    K: Clone + Debug + PartialEq + Serialize,
    V: Clone + Debug + PartialEq,
    M: Map<K, V>,
{
    let dir = Dir::new();
    let path = file.then_some(dir.0.as_path());
    let mut m = Some(M::open(path, true, false).map_err(|e| violation("open", e))?);
    let mut want: Vec<(K, V)> = vec![];
    compare(ctx, m.as_ref().unwrap(), keys, &want, true, "new map")?;
    for step in 0..depth {
        let n = keys.len() * sizes;
        let what = ctx.choose(n + if file { 3 } else { 0 });
        let when;
        if what < n {
            let (k, v) = (keys[what / sizes].clone(), value(step, what % sizes));
            when = format!("step {step}: after appending {k:?} -> {:.60}", format!("{v:?}"));
            ctx.note(|| when.clone());
            m.as_ref().unwrap().append(k.clone(), v.clone()).map_err(|e| violation("append", format!("{when}: {e}")))?;
            want.push((k, v));
        } else {
            drop(m.take());
            match what - n {
                0 => when = format!("step {step}: reopened"),
                1 => {
                    when = format!("step {step}: reopened after a visit without the key index");
                    ctx.note(|| when.clone());
                    let other = M::open(path, false, false).map_err(|e| violation("open without index", format!("{when}: {e}")))?;
                    compare(ctx, &other, keys, &want, false, &format!("{when}, during it"))?;
                    let r = other.append(keys[0].clone(), value(step, 0));
                    ensure!(r.is_err(), "append without index", "{when}: an append succeeds without the key index");
                    compare(ctx, &other, keys, &want, false, &format!("{when}, during it, after an append"))?;
                }
                _ => {
                    when = format!("step {step}: reopened after a read-only visit");
                    ctx.note(|| when.clone());
                    let other = M::open(path, true, true).map_err(|e| violation("open read-only", format!("{when}: {e}")))?;
                    compare(ctx, &other, keys, &want, true, &format!("{when}, during it"))?;
                }
            }
            m = Some(M::open(path, true, false).map_err(|e| violation("open", format!("{when}: {e}")))?);
        }
        compare(ctx, m.as_ref().unwrap(), keys, &want, true, &when)?;
        ctx.state(&(file, format!("{want:?}")));
    }
    Ok(End::Done)
}

/// two maps at once, each of which may be closed and opened again: they have nothing in common
fn pair<M: Map<String, String>>(ctx: &mut Ctx, depth: usize, files: [bool; 2]) -> RunResult {
    let dirs = [Dir::new(), Dir::new()];
    let path = |i: usize| files[i].then_some(dirs[i].0.as_path());
    let keys = ["a".to_string(), "b".to_string()];
    let mut want: [Vec<(String, String)>; 2] = [vec![], vec![]];
    let open = |i: usize, when: &str| M::open(path(i), true, false).map_err(|e| violation("open", format!("{when}: {e}")));
    let mut maps = [Some(open(0, "new map")?), Some(open(1, "new map")?)];
    let mut when = String::from("new maps");
    for step in 0..=depth {
        for i in 0..2 {
            let m = maps[i].as_ref().unwrap();
            compare(ctx, m, &keys, &want[i], true, &format!("map {i} of two, {when}"))?;
        }
        ctx.state(&(files, format!("{want:?}")));
        if step == depth {
            break;
        }
        let i = ctx.choose(2);
        match ctx.choose(3) {
            2 => {
                maps[i] = None;
                if !files[i] {
                    want[i].clear();
                }
                when = format!("step {step}: map {i} closed and opened");
                maps[i] = Some(open(i, &when)?);
            }
            k => {
                let v = format!("{i}{step}");
                when = format!("step {step}: map {i} given {} -> {v}", keys[k]);
                maps[i].as_ref().unwrap().append(keys[k].clone(), v.clone()).map_err(|e| violation("append", format!("{when}: {e}")))?;
                want[i].push((keys[k].clone(), v));
            }
        }
        ctx.note(|| when.clone());
    }
    Ok(End::Done)
}

/// many entries under few or many keys
fn many<M: Map<Vec<u8>, Vec<u8>>>(ctx: &mut Ctx, most: usize, largest: usize) -> RunResult {
    let file = ctx.flag();
    let keys = *ctx.pick(&[1, 3, 40, most]);
    let length = *ctx.pick(&[1, 30, 300]);
    let size = *ctx.pick(&[0, 5, largest]);
    let reopen = if file { *ctx.pick(&[most / 3, most]) } else { usize::MAX };
    let dir = Dir::new();
    let path = file.then_some(dir.0.as_path());
    let key = |n: usize| {
        let mut k = vec![7; length - 1];
        k.extend(((n % keys) as u16).to_le_bytes());
        k
    };
    let mut m = Some(M::open(path, true, false).map_err(|e| violation("open", e))?);
    let mut want = vec![];
    let of = format!("{keys} keys of {} bytes, values of {size}, {}", length + 1, if file { "on file" } else { "in memory" });
    for n in 0..most {
        let (k, v) = (key(n), vec![n as u8; if n % 7 == 3 { size } else { size.min(9) }]);
        m.as_ref().unwrap().append(k.clone(), v.clone()).map_err(|e| violation("append", format!("{of}, append {n}: {e}")))?;
        want.push((k, v));
        if (n + 1) % reopen == 0 {
            drop(m.take());
            m = Some(M::open(path, true, false).map_err(|e| violation("open", format!("{of}, after {n}: {e}")))?);
        }
        if n + 1 == most || (n + 1) % reopen == 0 || [8, 16, 17, 32, 64, 100, 128, 255, 256, 257].contains(&n) {
            let some: Vec<Vec<u8>> = [0, 1, n / 2, n, n + 1].map(key).into();
            let r = compare(ctx, m.as_ref().unwrap(), &some, &want, true, "");
            r.map_err(|v| violation(&v.sig, format!("{of}, after append {n}: {:.300}", v.msg)))?;
        }
    }
    ctx.state(&(file, keys, length, size, reopen));
    Ok(End::Done)
}

#[derive(Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
pub enum Odd {
    Unit,
    Pair(i64, Option<u8>),
    Named { text: String, bytes: Vec<u8> },
    Map(BTreeMap<String, u64>),
}

fn odd(step: usize, what: usize) -> Odd {
    match what {
        0 => Odd::Unit,
        1 => Odd::Pair(i64::MIN + step as i64, (step % 2 == 0).then_some(255)),
        2 => Odd::Named { text: "\u{0}é\"".repeat(step), bytes: vec![0, 255, step as u8] },
        _ => Odd::Map([("".to_string(), u64::MAX), ("x".to_string(), step as u64)].into()),
    }
}

pub fn i01(tier: Tier) -> Vec<Scenario> {
    let text = |step: usize, size: usize| format!("{step}{}", "v".repeat([0, 80][size % 2]));
    let mut v = vec![];
    let both = |f: [bool; 2]| f.map(|f| if f { "on files" } else { "in memory" }).join(" and ");
    for files in [[false, false], [false, true], [true, true]] {
        let depth = tier.of(3, 4);
        let explored = format!("every history of {depth} steps over two maps (one step more with the stand-in, one less as shipped), {}: appends of two keys, closing and opening; all reads of both after each", both(files));
        v.push(
            Scenario::new(format!("two maps, {}, {}", both(files), Stand::<String, String>::NAME), explored.clone(), 0, move |ctx: &mut Ctx| pair::<Stand<_, _>>(ctx, depth + 1, files)).in_processes(),
        );
        v.push(Scenario::new(format!("two maps, {}, {}", both(files), Shipped::<String, String>::NAME), explored, 0, move |ctx: &mut Ctx| pair::<Shipped<_, _>>(ctx, depth - 1, files)));
    }
    for file in [false, true] {
        let depth = tier.of(if file { 5 } else { 6 }, if file { 6 } else { 7 });
        v.push(
            Scenario::new(
                format!("text keys, {}, {}", if file { "file" } else { "memory" }, Stand::<String, String>::NAME),
                format!("every history of {depth} steps: appends over three colliding keys with small and mapping-filling values{}; all reads after each", if file { ", reopenings, visits without the key index and read-only" } else { "" }),
                0,
                move |ctx: &mut Ctx| history::<String, String, Stand<_, _>>(ctx, depth, file, &["a".into(), "b".into(), "".into()], &text, 2),
            )
            .in_processes(),
        );
        let depth = tier.of(if file { 3 } else { 4 }, if file { 4 } else { 5 });
        v.push(
            Scenario::new(
                format!("text keys, {}, {}", if file { "file" } else { "memory" }, Shipped::<String, String>::NAME),
                format!("the same with the real key index, {depth} steps"),
                0,
                move |ctx: &mut Ctx| history::<String, String, Shipped<_, _>>(ctx, depth, file, &["a".into(), "b".into(), "".into()], &text, 2),
            ),
        );
    }
    let depth = tier.of(3, 4);
    v.push(
        Scenario::new(
            "structured keys and values",
            format!("every history of {depth} steps over keys that are integers around the encoding's size limits, and values of every shape"),
            0,
            move |ctx: &mut Ctx| history::<i64, Odd, Stand<_, _>>(ctx, depth, true, &[0, 23, 24, -1, -24, -25, 255, 256, i64::MAX, i64::MIN], &odd, 1),
        )
        .in_processes(),
    );
    let depth = tier.of(3, 4);
    v.push(
        Scenario::new(
            "compound keys",
            format!("every history of {depth} steps over keys that are options, tuples and byte strings of similar encodings"),
            0,
            move |ctx: &mut Ctx| {
                let keys: Vec<(Option<Vec<u8>>, String)> =
                    vec![(None, "".into()), (Some(vec![]), "".into()), (Some(vec![0]), "".into()), (Some(vec![]), "\0".into())];
                history::<_, Odd, Stand<_, _>>(ctx, depth, false, &keys, &odd, 4)
            },
        )
        .in_processes(),
    );
    let n = tier.of(300, 999);
    let explored = |n: usize, l: usize| format!("{n} entries under one, 3, 40 or as many keys of 3 sizes, values of 3 sizes up to {l} bytes, in memory or on files, with and without reopenings; all reads of 5 keys at 10 lengths in between and at the end");
    v.push(Scenario::new("many entries", explored(n, 1000), 0, move |ctx: &mut Ctx| many::<Stand<_, _>>(ctx, n, 1000)).in_processes());
    v.push(Scenario::new(format!("many entries, {}", Shipped::<String, String>::NAME), explored(150, 100_000), 0, move |ctx: &mut Ctx| many::<Shipped<_, _>>(ctx, 150, 100_000)));
    v
}

// ---------------------------------------------------------------- crashes and failures

type Entry = (u32, String);
type Text = IndexedLogMap<String, Entry>;

fn open(dir: &Path) -> Result<Text, Violation> {
    IndexedLogMap::new(IndexedLogMapConfig { storage_path: Some(dir.into()), use_key_indexing: true, readonly: false })
        .map_err(|e| violation("open", format!("{e:?}")))
}

const KEYS: [&str; 3] = ["a", "b", "c"];

fn entry(n: usize, k: &str, big: bool) -> Entry {
    (n as u32, format!("{k}{}", if big { "x".repeat(80) } else { String::new() }))
}

/// the map must hold `acked`, then possibly `flying`; returns the log
fn survived(m: &Text, acked: &[(String, Entry)], flying: &[(String, Entry)], when: &str) -> Result<Vec<Entry>, Violation> {
    let rows: Vec<Entry> = m.iter().into_iter().flatten().collect::<Result<_, _>>().map_err(|e| violation("damaged log", format!("{when}: {e:?}")))?;
    // unacknowledged entries are there or not, each
    let mut at = 0;
    for (i, r) in rows.iter().enumerate() {
        if acked.get(at).is_some_and(|a| a.1 == *r) {
            at += 1;
        } else {
            ensure!(flying.iter().any(|f| f.1 == *r) && rows.iter().filter(|x| *x == r).count() == 1, "damaged log", "{when}: entry {i} of the log is {r:?}; acknowledged {acked:?}, under way {flying:?}");
        }
    }
    ensure_eq!(at, acked.len(), "entry lost", "{when}: acknowledged entries found in the log {rows:?}, acknowledged {acked:?}");
    for k in KEYS {
        let got = m.get(&k.to_string()).map_err(|e| violation("damaged lookup", format!("{when}: looking up {k}: {e:?}")))?;
        let last = acked.iter().rev().find(|a| a.0 == k).map(|a| &a.1);
        let least = last.and_then(|l| rows.iter().position(|r| r == l));
        let later = got.as_ref().is_some_and(|g| {
            flying.iter().any(|f| f.0 == k && f.1 == *g) && rows.iter().position(|r| r == g).is_some_and(|p| Some(p) > least)
        });
        ensure!(got.as_ref() == last || later, "lookup", "{when}: looking up {k} yields {got:?}, expected {last:?}; the log is {rows:?}, under way {flying:?}");
    }
    Ok(rows)
}

fn goes_on(m: &Text, before: &[Entry], acked: &[(String, Entry)], flying: &[(String, Entry)], when: &str) -> Result<(), Violation> {
    let mut acked = acked.to_vec();
    let mut before = before.to_vec();
    for (i, k) in ["b", "a"].iter().enumerate() {
        let e = entry(90 + i, k, false);
        m.append(k.to_string(), e.clone()).map_err(|e| violation("append after recovery", format!("{when}: {e:?}")))?;
        acked.push((k.to_string(), e.clone()));
        before.push(e);
        let rows = survived(m, &acked, flying, &format!("{when}, after another append"))?;
        ensure!(rows == before, "damaged log", "{when}: the log is {rows:?} after another append, expected {before:?}");
    }
    Ok(())
}

fn image(dir: &Path) -> BTreeMap<String, Vec<u8>> {
    let mut m = BTreeMap::new();
    for e in std::fs::read_dir(dir).into_iter().flatten().flatten() {
        if let Ok(b) = std::fs::read(e.path()) {
            m.insert(e.file_name().to_string_lossy().into_owned(), b);
        }
    }
    m
}

struct Snapshot {
    files: BTreeMap<String, Vec<u8>>,
    /// the key index as every permitted loss leaves it
    index: Vec<Dir>,
    what: String,
}

fn snapshot(dir: &Path, what: &str) -> Snapshot {
    let disk = dir.join("key_index");
    let index = (0..mc_sled::mc::crash_states(&disk))
        .map(|kept| {
            let to = Dir::new();
            mc_sled::mc::crash(&disk, kept, &to.0.join("key_index"));
            to
        })
        .collect();
    Snapshot { files: image(dir), index, what: what.into() }
}

fn recovered(ctx: &mut Ctx, snaps: Vec<Snapshot>, acked: &[(String, Entry)], flying: &[(String, Entry)], history: &str) -> Result<(), Violation> {
    for s in snaps {
        let n = s.index.len();
        for (kept, d) in s.index.into_iter().enumerate() {
            ctx.beat();
            let when = format!("{history}, stopped {} with {kept} of {} unflushed key-index writes kept", s.what, n - 1);
            std::fs::create_dir_all(&d.0).expect("scratch");
            for (name, bytes) in &s.files {
                std::fs::write(d.0.join(name), bytes).expect("scratch");
            }
            ctx.step();
            ctx.outcome(&(&s.files, kept, n));
            let m = open(&d.0).map_err(|e| violation("open after a crash", format!("{when}: {}", e.msg)))?;
            let rows = survived(&m, acked, flying, &when)?;
            goes_on(&m, &rows, acked, flying, &when)?;
            drop(m);
            let m = open(&d.0).map_err(|e| violation("open after a crash", format!("{when}, reopened once more: {}", e.msg)))?;
            let mut all = acked.to_vec();
            all.push(("b".into(), entry(90, "b", false)));
            all.push(("a".into(), entry(91, "a", false)));
            survived(&m, &all, flying, &format!("{when}, reopened once more"))?;
        }
    }
    Ok(())
}

#[derive(Clone, Copy, Debug)]
enum Step {
    Append(&'static str, bool),
    Reopen,
}

const STEPS: [Step; 5] =
    [Step::Append("a", false), Step::Append("b", false), Step::Append("a", true), Step::Append("b", true), Step::Reopen];

fn crashes(ctx: &mut Ctx, depth: usize) -> RunResult {
    let dir = Dir::new();
    let mut m = Some(open(&dir.0)?);
    let mut acked: Vec<(String, Entry)> = vec![];
    let mut history = vec![];
    let len = 1 + ctx.choose(depth);
    for i in 0..len {
        let s = *ctx.pick(&STEPS);
        history.push(s);
        let last = i + 1 == len;
        let mut snaps = vec![];
        let text = format!("{history:?}");
        let d = dir.0.clone();
        let mut hook = |what: &'static str| {
            if last {
                snaps.push(snapshot(&d, &format!("before {what}")));
            }
            false
        };
        match s {
            Step::Reopen => {
                m = Some(crate::sys::with_hook(&mut hook, || {
                    drop(m.take());
                    open(&d)
                })?);
                if last {
                    snaps.push(snapshot(&dir.0, "after it"));
                    recovered(ctx, snaps, &acked, &[], &text)?;
                }
            }
            Step::Append(k, big) => {
                let e = entry(i, k, big);
                let r = crate::sys::with_hook(&mut hook, || m.as_ref().unwrap().append(k.into(), e.clone()));
                r.map_err(|e| violation("append", format!("{text}: {e:?}")))?;
                let new = (k.to_string(), e);
                if last {
                    recovered(ctx, snaps, &acked, std::slice::from_ref(&new), &text)?;
                }
                acked.push(new);
                if last {
                    recovered(ctx, vec![snapshot(&dir.0, "after it")], &acked, &[], &text)?;
                }
            }
        }
    }
    ctx.note(|| format!("{history:?}"));
    Ok(End::Done)
}

fn faults(ctx: &mut Ctx, depth: usize) -> RunResult {
    let dir = Dir::new();
    let mut m = Some(open(&dir.0)?);
    let (mut acked, mut flying): (Vec<(String, Entry)>, Vec<(String, Entry)>) = (vec![], vec![]);
    let mut history = vec![];
    let mut failed = vec![];
    for i in 0..depth {
        let s = *ctx.pick(&STEPS);
        history.push(s);
        let d = dir.0.clone();
        let mut now = vec![];
        let mut hook = |what: &'static str| {
            let f = ctx.dev(2) == 1;
            if f {
                now.push(what);
            }
            f
        };
        match s {
            Step::Reopen => {
                drop(m.take());
                let r = crate::sys::with_hook(&mut hook, || open(&d));
                match r {
                    Ok(x) => m = Some(x),
                    Err(e) => {
                        ensure!(!now.is_empty(), "open", "{history:?}: {}", e.msg);
                        m = Some(open(&d).map_err(|e| violation("open after a failure", format!("{history:?}, {now:?} failed while opening: {}", e.msg)))?);
                    }
                }
            }
            Step::Append(k, big) => {
                let e = entry(i, k, big);
                let r = crate::sys::with_hook(&mut hook, || m.as_ref().unwrap().append(k.into(), e.clone()));
                match r {
                    Ok(()) => acked.push((k.into(), e)),
                    Err(x) => {
                        ensure!(!now.is_empty() || !failed.is_empty(), "append", "{history:?}: {x:?}");
                        flying.push((k.into(), e));
                    }
                }
            }
        }
        failed.extend(now.iter().map(|w| format!("{w} in step {i}")));
        let when = format!("{history:?}, failed: {failed:?}");
        survived(m.as_ref().unwrap(), &acked, &flying, &when)?;
        ctx.step();
    }
    let when = format!("{history:?}, failed: {failed:?}");
    ctx.note(|| when.clone());
    ctx.outcome(&(format!("{history:?}"), &failed));
    if failed.is_empty() {
        return Ok(End::Done);
    }
    let snap = snapshot(&dir.0, "at the end");
    let rows = survived(m.as_ref().unwrap(), &acked, &flying, &when)?;
    goes_on(m.as_ref().unwrap(), &rows, &acked, &flying, &when)?;
    recovered(ctx, vec![snap], &acked, &flying, &when)?;
    drop(m);
    let m = open(&dir.0)?;
    acked.push(("b".into(), entry(90, "b", false)));
    acked.push(("a".into(), entry(91, "a", false)));
    survived(&m, &acked, &flying, &format!("{when}, reopened"))?;
    Ok(End::Done)
}

pub fn i03(tier: Tier) -> Vec<Scenario> {
    let depth = tier.of(4, 6);
    let faulty = tier.of(4, 5);
    let failures = tier.of(1, 2);
    vec![
        Scenario::new(
            "crashes",
            format!("every history of up to {depth} appends (two keys, small and mapping-filling) and reopenings, stopped before every system call and key-index operation of its last step and after it, with every prefix of the unflushed key-index writes kept"),
            0,
            move |ctx: &mut Ctx| crashes(ctx, depth),
        )
        .in_processes(),
        Scenario::new(
            "failures",
            format!("every history of {faulty} steps with every placement of up to {failures} failing system calls or key-index operations, used on, stopped and reopened"),
            failures,
            move |ctx: &mut Ctx| faults(ctx, faulty),
        )
        .in_processes(),
    ]
}
