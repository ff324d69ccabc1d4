//! The multiverse: M01 to M07.

use mclib::{ensure, violation, with_hash_seed, Ctx, End, RunResult, Scenario, Tier, Violation};
use serde::{Deserialize, Serialize};
use std::{
    collections::{BTreeMap, BTreeSet},
    path::{Path, PathBuf},
};

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
pub struct Key(pub String);

impl AsRef<[u8]> for Key {
    fn as_ref(&self) -> &[u8] {
        self.0.as_bytes()
    }
}
impl std::fmt::Display for Key {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.0.fmt(f)
    }
}

/// A block: `tag` tells variants with one key apart.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Block<N> {
    pub id: Key,
    pub parent: Key,
    pub number: N,
    pub tag: u32,
}

/// What the checks know of a block.
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Node {
    pub id: String,
    pub parent: String,
    pub number: u64,
    pub tag: u32,
}

/// The two builds of the multiverse.
pub trait Mv: Sized {
    const NAME: &'static str;
    type Ref: Clone;
    fn open(path: &Path, domain: &str, from: u64) -> Result<Self, String>;
    fn insert(&mut self, n: &Node) -> Result<(), String>;
    fn remove(&mut self, r: &Self::Ref) -> Result<Node, String>;
    fn clear(&mut self) -> Result<(), String>;
    fn destroy(self) -> Result<(), String>;
    fn reference(key: &str) -> Self::Ref;
    fn key(r: &Self::Ref) -> String;
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool;
    fn contains(&self, key: &str) -> bool;
    fn get(&self, key: &str) -> Option<Node>;
    fn tips(&self) -> Vec<String>;
    fn rows(&self) -> Vec<Node>;
    fn select(&self, depth: usize, gap: usize) -> (Option<Self::Ref>, Vec<Self::Ref>);
    fn prefer(&self) -> Option<Self::Ref>;
}

macro_rules! implement {
    ($name:ident, $mv:ident, $core:ident, $what:literal) => {
        pub struct $name(pub $mv::Multiverse<Key, Block<$core::BlockNumber>>);

        impl $mv::Variant for Block<$core::BlockNumber> {
            type Key = Key;
            fn id(&self) -> &Key {
                &self.id
            }
            fn parent_id(&self) -> &Key {
                &self.parent
            }
            fn block_number(&self) -> $core::BlockNumber {
                self.number
            }
        }

        impl From<&Node> for Block<$core::BlockNumber> {
            fn from(n: &Node) -> Self {
                Block { id: Key(n.id.clone()), parent: Key(n.parent.clone()), number: $core::BlockNumber::new(n.number), tag: n.tag }
            }
        }
        impl From<&Block<$core::BlockNumber>> for Node {
            fn from(b: &Block<$core::BlockNumber>) -> Self {
                Node { id: b.id.0.clone(), parent: b.parent.0.clone(), number: b.number.into_inner(), tag: b.tag }
            }
        }

        impl Mv for $name {
            const NAME: &'static str = $what;
            type Ref = $mv::EntryRef<Key>;
            fn open(path: &Path, domain: &str, from: u64) -> Result<Self, String> {
                // sled releases a database's lock some time after the database was dropped
                let mut patience = 2000;
                loop {
                    match $mv::Multiverse::open(path, domain, $core::BlockNumber::new(from)).map($name).map_err(|e| format!("{e:?}")) {
                        Err(e) if e.contains("acquire lock") && patience > 0 => {
                            patience -= 1;
                            std::thread::sleep(std::time::Duration::from_millis(5));
                        }
                        r => return r,
                    }
                }
            }
            fn insert(&mut self, n: &Node) -> Result<(), String> {
                self.0.insert(n.into()).map_err(|e| format!("{e:?}"))
            }
            fn remove(&mut self, r: &Self::Ref) -> Result<Node, String> {
                self.0.remove(r).map(|b| (&b).into()).map_err(|e| format!("{e:?}"))
            }
            fn clear(&mut self) -> Result<(), String> {
                self.0.clear().map_err(|e| format!("{e:?}"))
            }
            fn destroy(self) -> Result<(), String> {
                self.0.destroy().map_err(|e| format!("{e:?}"))
            }
            fn reference(key: &str) -> Self::Ref {
                $mv::EntryRef::new(Key(key.into()))
            }
            fn key(r: &Self::Ref) -> String {
                r.inner().0.clone()
            }
            fn len(&self) -> usize {
                self.0.len()
            }
            fn is_empty(&self) -> bool {
                self.0.is_empty()
            }
            fn contains(&self, key: &str) -> bool {
                self.0.contains(&Key(key.into()))
            }
            fn get(&self, key: &str) -> Option<Node> {
                self.0.get(&Key(key.into())).map(Node::from)
            }
            fn tips(&self) -> Vec<String> {
                self.0.tips().into_iter().map(|k| k.0.clone()).collect()
            }
            fn rows(&self) -> Vec<Node> {
                self.0.iter().take(10_000).map(Node::from).collect()
            }
            fn select(&self, depth: usize, age_gap: usize) -> (Option<Self::Ref>, Vec<Self::Ref>) {
                let b = self.0.select_best_block($mv::BestBlockSelectionRule::LongestChain { depth, age_gap });
                (b.selected, b.discarded.into_iter().collect())
            }
            fn prefer(&self) -> Option<Self::Ref> {
                self.0.preferred_fork_tip($mv::BestBlockSelectionRule::LongestChain { depth: 0, age_gap: 0 })
            }
        }
    };
}

implement!(Stand, multiverse, dcspark_core, "storage stand-in");
implement!(Shipped, multiverse_shipped, core_shipped, "real sled");

// ---------------------------------------------------------------- the model

pub type Members = BTreeMap<String, Node>;

fn ancestor(m: &Members, of: &Node, depth: usize) -> Option<Node> {
    let mut at = of.clone();
    for _ in 0..depth {
        at = m.get(&at.parent)?.clone();
    }
    Some(at)
}

fn names<'a>(it: impl IntoIterator<Item = &'a String>) -> String {
    it.into_iter().cloned().collect::<Vec<_>>().join(" ")
}

fn show(m: &Members) -> String {
    if m.is_empty() {
        return "no members".into();
    }
    m.values().map(|n| format!("{}({})<-{}", n.parent, n.number, n.id)).collect::<Vec<_>>().join(", ")
}

/// which answers a check compares
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Ask {
    Members,
    Iteration,
    Best,
    Fork,
    All,
}

pub fn compare<M: Mv>(ctx: &mut Ctx, m: &M, want: &Members, universe: &[Node], ask: Ask, when: &str) -> Result<(), Violation> {
    if !ctx.fresh() {
        return Ok(());
    }
    ctx.step();
    let all = ask == Ask::All;
    let now = || format!("{when}, with {}", show(want));
    if all || ask == Ask::Members {
        ensure!(m.len() == want.len(), "size", "{}: the size is {}", now(), m.len());
        ensure!(m.is_empty() == want.is_empty(), "emptiness", "{}: is_empty is {}", now(), m.is_empty());
        for n in universe {
            let w = want.get(&n.id);
            ensure!(m.contains(&n.id) == w.is_some(), "membership", "{}: contains({}) is {}", now(), n.id, m.contains(&n.id));
            let got = m.get(&n.id);
            ensure!(got.as_ref() == w, "lookup", "{}: get({}) is {got:?}", now(), n.id);
        }
        ensure!(!m.contains("never") && m.get("never").is_none(), "membership", "{}: a key never inserted is a member", now());
        let mut tips = m.tips();
        tips.sort();
        let expected: Vec<String> = want.keys().filter(|k| want.values().all(|n| n.parent != **k)).cloned().collect();
        ensure!(tips == expected, "tips", "{}: the tips are {}, expected {}", now(), names(&tips), names(&expected));
    }
    if all || ask == Ask::Iteration {
        let rows = m.rows();
        ensure!(rows.windows(2).all(|w| w[0].number <= w[1].number), "iteration order", "{}: iteration yields {rows:?}", now());
        let mut sorted = rows.clone();
        sorted.sort();
        let mut expected: Vec<Node> = want.values().cloned().collect();
        expected.sort();
        ensure!(sorted == expected, "iteration", "{}: iteration yields {rows:?}", now());
    }
    let longest = want.values().map(|n| n.number).max();
    if all || ask == Ask::Best {
        let n = want.len();
        let long = n > 6;
        let depths: Vec<usize> = if long { (0..n + 2).chain([usize::MAX]).collect() } else { (0..5).collect() };
        let gaps = if long { vec![0, 1, 2, n - 2, n - 1, n, 300, 1 << 32, usize::MAX] } else { vec![0, 1, 2, 5] };
        for &depth in &depths {
            for &gap in &gaps {
                let (selected, discarded) = m.select(depth, gap);
                let selected = selected.map(|r| M::key(&r));
                let may: BTreeSet<Option<String>> =
                    want.values().filter(|n| Some(n.number) == longest).map(|n| ancestor(want, n, depth).map(|a| a.id)).collect();
                ensure!(
                    may.contains(&selected) || (may.is_empty() && selected.is_none()),
                    "selection",
                    "{}: the block selected at depth {depth} is {selected:?}, expected one of {may:?}",
                    now()
                );
                let limit = selected.map_or(0, |s| want[&s].number.saturating_sub(gap as u64));
                let mut discarded: Vec<String> = discarded.iter().map(M::key).collect();
                discarded.sort();
                let expected: Vec<String> = want.values().filter(|n| n.number < limit).map(|n| n.id.clone()).collect();
                ensure!(
                    discarded == expected,
                    "discarded",
                    "{}: with depth {depth} and gap {gap} the discarded blocks are {}, expected {}",
                    now(),
                    names(&discarded),
                    names(&expected)
                );
            }
        }
    }
    if all || ask == Ask::Fork {
        let got = m.prefer().map(|r| M::key(&r));
        let ok = match &got {
            None => want.is_empty(),
            Some(k) => want.get(k).is_some_and(|n| Some(n.number) == longest),
        };
        ensure!(ok, "preferred fork", "{}: the preferred fork ends in {got:?}", now());
        if want.values().filter(|n| Some(n.number) == longest).count() == 1 {
            // the chain reported for it is its chain of parents
            let mut at = got.as_ref().map(|k| want[k].clone());
            for depth in 0..=want.len() {
                let s = m.select(depth, 0).0.map(|r| M::key(&r));
                ensure!(s == at.as_ref().map(|n| n.id.clone()), "preferred chain", "{}: the ancestor {depth} below the preferred tip is {s:?}, expected {at:?}", now());
                at = at.and_then(|n| want.get(&n.parent).cloned());
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- universes

/// every forest of `n` blocks: each hangs off an earlier one or off a block never inserted; `gaps` stretches the numbers
pub fn forest(ctx: &mut Ctx, n: usize, gaps: bool) -> Vec<Node> {
    let gap = gaps && ctx.flag();
    let mut v: Vec<Node> = vec![];
    for i in 0..n {
        let p = ctx.choose(i + 1);
        let (parent, number) = if p == i { ("never".to_string(), 3 + i as u64 % 2) } else { (v[p].id.clone(), v[p].number + 1) };
        v.push(Node { id: ["a", "b", "c", "d", "e", "f"][i].into(), parent, number, tag: 0 });
    }
    if gap {
        for i in 0..n {
            let parent = v.iter().find(|x| x.id == v[i].parent).map(|x| x.number);
            v[i].number = match parent {
                None => [3, 255, 256, 70000][i % 4],
                Some(p) => p + [1, 2, 256, 65536][i % 4],
            };
        }
    }
    v
}

pub struct Disk(pub PathBuf);

impl Disk {
    pub fn new() -> Self {
        Disk(crate::fresh())
    }
}
impl Drop for Disk {
    fn drop(&mut self) {
        mc_sled::mc::forget(&self.0);
        if self.0.exists() {
            let _ = std::fs::remove_dir_all(&self.0);
        }
    }
}

fn open<M: Mv>(d: &Disk, domain: &str, from: u64, when: &str) -> Result<M, Violation> {
    M::open(&d.0, domain, from).map_err(|e| violation("open", format!("{when}: {e}")))
}

/// toggles: inserting what is absent, removing what is present; with the operations that change nothing
fn toggles<M: Mv>(ctx: &mut Ctx, n: usize, depth: usize, ask: Ask, idle: bool) -> RunResult {
    let universe = forest(ctx, n, ask != Ask::Members || n < 5);
    let d = Disk::new();
    let mut m: M = open(&d, "d", 0, "new")?;
    let mut want = Members::new();
    compare(ctx, &m, &want, &universe, ask, "new")?;
    for step in 0..depth {
        let what = ctx.choose(n + 1 + usize::from(idle) * n);
        let when;
        if what == n {
            m.clear().map_err(|e| violation("clear", e))?;
            want.clear();
            when = format!("step {step}: cleared");
        } else if what < n {
            let b = Node { tag: step as u32, ..universe[what].clone() };
            match want.remove(&b.id) {
                None => {
                    when = format!("step {step}: inserted {}", b.id);
                    m.insert(&b).map_err(|e| violation("insert", format!("{when}: {e}")))?;
                    want.insert(b.id.clone(), b);
                }
                Some(was) => {
                    when = format!("step {step}: removed {}", b.id);
                    let got = m.remove(&M::reference(&b.id)).map_err(|e| violation("remove", format!("{when}: {e}")))?;
                    ensure!(got == was, "removed value", "{when}: removing {was:?} yields {got:?}");
                }
            }
        } else {
            let b = Node { tag: 1000 + step as u32, ..universe[what - n - 1].clone() };
            if want.contains_key(&b.id) {
                when = format!("step {step}: inserted {} again", b.id);
                m.insert(&b).map_err(|e| violation("insert", format!("{when}: {e}")))?;
            } else {
                when = format!("step {step}: removed {}, which is absent", b.id);
                let got = m.remove(&M::reference(&b.id));
                ensure!(got.is_err(), "remove", "{when}: it yields {got:?}");
            }
        }
        ctx.note(|| format!("{when}; {}", show(&want)));
        compare(ctx, &m, &want, &universe, ask, &when)?;
        ctx.state(&want);
    }
    Ok(End::Done)
}

fn toggle_scenarios(tier: Tier, ask: Ask, seeds: u64) -> Vec<Scenario> {
    let mut v = vec![];
    for (n, depth, idle) in tier.of(vec![(3, 6, true), (4, 6, false), (5, 5, false)], vec![(3, 7, true), (4, 7, false), (4, 5, true), (5, 6, false), (6, 5, false)]) {
        v.push(
            Scenario::new(
                format!("forests of {n} blocks, {depth} steps{}", if idle { ", idle operations" } else { "" }),
                format!(
                    "every forest of {n} blocks (numbers adjacent, or with gaps across byte boundaries), every sequence of {depth} insertions (parents first or last), removals{} and clears, under {seeds} hash orders",
                    if idle { ", repeated insertions with another value, removals of absent keys" } else { "" }
                ),
                0,
                move |ctx: &mut Ctx| {
                    let seed = ctx.choose(seeds as usize) as u64;
                    with_hash_seed(seed, || toggles::<Stand>(ctx, n, depth, ask, idle))
                },
            )
            .in_processes(),
        );
    }
    v
}

/// instead of all lengths up to one: a few larger ones, and larger numbers
const LONG: usize = 0;
const LONG_CHAINS: &str = "trunks of 20 or 48 blocks, with a fork of one or 24 off the beginning, the middle or the end, or none, numbered from 0, 230, around 2^32 or near 2^64, with identifiers of 64 characters";

/// none, or one of `n`; of a long chain only some
fn block(ctx: &mut Ctx, n: usize, most: usize) -> usize {
    if most == LONG {
        *ctx.pick(&[0, 1, n / 3, n / 2, n])
    } else {
        ctx.choose(n + 1)
    }
}

/// A chain with one fork, and one of three orders to insert it in.
fn chain(ctx: &mut Ctx, most: usize) -> (Vec<Node>, Vec<usize>) {
    let (trunk, forked, fork, base) = if most == LONG {
        let trunk = *ctx.pick(&[20, 48]);
        (trunk, *ctx.pick(&[0, trunk / 2, trunk - 1]), *ctx.pick(&[0, 1, 24]), *ctx.pick(&[0, 230, (1 << 32) - 5, u64::MAX - 99]))
    } else {
        let trunk = 1 + ctx.choose(most);
        let forked = ctx.choose(trunk);
        (trunk, forked, ctx.choose(trunk - forked + 2), *ctx.pick(&[0u64, 3, 250, 65_533]))
    };
    // longer identifiers, which differ in their last characters
    let long = if most == LONG { "0".repeat(61) } else { String::new() };
    let mut v: Vec<Node> = vec![];
    for i in 0..trunk {
        let parent = if i == 0 { "never".into() } else { v[i - 1].id.clone() };
        v.push(Node { id: format!("{long}t{i:02}"), parent, number: base + i as u64, tag: 0 });
    }
    for i in 0..fork {
        let parent = if i == 0 { v[forked].id.clone() } else { v[trunk + i - 1].id.clone() };
        v.push(Node { id: format!("{long}{}{i:02}", if fork % 2 == 0 { "s" } else { "u" }), parent, number: base + (forked + 1 + i) as u64, tag: 0 });
    }
    let n = v.len();
    let mut order: Vec<usize> = (0..n).collect();
    match ctx.choose(3) {
        0 => {}
        1 => order.reverse(),
        _ => {
            order = (0..n).step_by(2).collect();
            order.extend((0..n).skip(1).step_by(2));
        }
    }
    (v, order)
}

/// The chain inserted; then up to `cuts` blocks removed one after another and inserted again.
fn long_chain<M: Mv>(ctx: &mut Ctx, most: usize, cuts: usize, ask: Ask) -> RunResult {
    let (v, order) = chain(ctx, most);
    let n = v.len();
    let d = Disk::new();
    let mut m: M = open(&d, "d", 0, "new")?;
    let mut want = Members::new();
    for i in order {
        m.insert(&v[i]).map_err(|e| violation("insert", e))?;
        want.insert(v[i].id.clone(), v[i].clone());
    }
    compare(ctx, &m, &want, &v, ask, "the chain inserted")?;
    let mut gone = vec![];
    for _ in 0..cuts {
        let i = block(ctx, n - gone.len(), most);
        if i == 0 {
            break;
        }
        let b = want.values().nth(i - 1).unwrap().clone();
        let when = format!("removed {}", b.id);
        let got = m.remove(&M::reference(&b.id)).map_err(|e| violation("remove", format!("{when}: {e}")))?;
        ensure!(got == b, "removed value", "{when}: it yields {got:?}");
        want.remove(&b.id);
        gone.push(b);
        ctx.note(|| format!("{when}; {}", show(&want)));
        compare(ctx, &m, &want, &v, ask, &when)?;
        ctx.state(&want);
    }
    for b in gone {
        let when = format!("inserted {} again", b.id);
        m.insert(&b).map_err(|e| violation("insert", format!("{when}: {e}")))?;
        want.insert(b.id.clone(), b);
        compare(ctx, &m, &want, &v, ask, &when)?;
    }
    Ok(End::Done)
}

fn long_chain_scenario(tier: Tier, ask: Ask) -> Scenario {
    let (most, cuts) = tier.of((8, 2), (11, 2));
    Scenario::new(
        format!("chains of up to {most} blocks with a fork, {cuts} removals"),
        format!(
            "every trunk of 1 to {most} blocks, every fork off it up to one block longer than the trunk, numbered from 0, 3, 250 or 65533, inserted parents first, tips first or alternating; every sequence of up to {cuts} removals, and the removed blocks inserted again; depths beyond the chain, age gaps around its length and larger"
        ),
        0,
        move |ctx: &mut Ctx| with_hash_seed(0, || long_chain::<Stand>(ctx, most, cuts, ask)),
    )
    .in_processes()
}

fn toggling(tier: Tier, ask: Ask, seeds: u64) -> Vec<Scenario> {
    let mut v = vec![long_chain_scenario(tier, ask)];
    v.push(
        Scenario::new("longer chains", format!("{LONG_CHAINS}, in three orders; one of 4 blocks or none removed, and inserted again"), 0, move |ctx: &mut Ctx| {
            with_hash_seed(0, || long_chain::<Stand>(ctx, LONG, 1, ask))
        })
        .in_processes(),
    );
    v.extend(toggle_scenarios(tier, ask, seeds));
    v
}

pub fn m01(tier: Tier) -> Vec<Scenario> {
    toggling(tier, Ask::Members, 1)
}
pub fn m02(tier: Tier) -> Vec<Scenario> {
    toggling(tier, Ask::Iteration, tier.of(1, 2))
}
pub fn m03(tier: Tier) -> Vec<Scenario> {
    toggling(tier, Ask::Best, tier.of(1, 2))
}
pub fn m04(tier: Tier) -> Vec<Scenario> {
    toggling(tier, Ask::Fork, tier.of(1, 3))
}

// ---------------------------------------------------------------- reopening

fn check_reopen<M: Mv>(ctx: &mut Ctx, n: usize, depth: usize, froms: &[u64]) -> RunResult {
    let from = *ctx.pick(froms);
    let universe = forest(ctx, n, true);
    let d = Disk::new();
    let mut m: Option<M> = Some(open(&d, "d", from, "new")?);
    let mut want = Members::new();
    // another domain of the same database stays as it is
    let neighbour = Node { id: "a".into(), parent: "x".into(), number: 4, tag: 77 };
    let apart: Members = [("a".to_string(), neighbour.clone())].into();
    drop(m.take());
    let mut other: M = open(&d, "e", 0, "new")?;
    other.insert(&neighbour).map_err(|e| violation("insert", e))?;
    drop(other);
    m = Some(open(&d, "d", from, "opened again")?);
    for step in 0..depth {
        let what = ctx.choose(n + 3);
        let when;
        if what < n {
            let b = Node { tag: step as u32, ..universe[what].clone() };
            let m = m.as_mut().unwrap();
            if want.contains_key(&b.id) {
                when = format!("step {step}: removed {}", b.id);
                m.remove(&M::reference(&b.id)).map_err(|e| violation("remove", format!("{when}: {e}")))?;
                want.remove(&b.id);
            } else {
                when = format!("step {step}: inserted {}", b.id);
                m.insert(&b).map_err(|e| violation("insert", format!("{when}: {e}")))?;
                want.insert(b.id.clone(), b);
            }
        } else if what == n {
            when = format!("step {step}: cleared");
            m.as_mut().unwrap().clear().map_err(|e| violation("clear", e))?;
            want.clear();
        } else {
            if what == n + 1 {
                when = format!("step {step}: closed and opened");
                drop(m.take());
            } else {
                when = format!("step {step}: destroyed and opened");
                m.take().unwrap().destroy().map_err(|e| violation("destroy", e))?;
                want.clear();
            }
            want.retain(|_, b| b.number >= from);
            m = Some(open(&d, "d", from, &when)?);
        }
        ctx.note(|| format!("{when}; storing from {from}; {}", show(&want)));
        compare(ctx, m.as_ref().unwrap(), &want, &universe, Ask::All, &when)?;
        ctx.state(&(from, &want));
    }
    drop(m.take());
    want.retain(|_, b| b.number >= from);
    let m: M = open(&d, "d", from, "at the end")?;
    compare(ctx, &m, &want, &universe, Ask::All, "opened at the end")?;
    drop(m);
    // what was stored does not depend on how it is opened
    let m: M = open(&d, "d", u64::MAX, "at the end")?;
    compare(ctx, &m, &want, &universe, Ask::All, "opened at the end, storing nothing further")?;
    drop(m);
    let other: M = open(&d, "e", 0, "at the end")?;
    compare(ctx, &other, &apart, &universe, Ask::All, "the other domain, at the end")?;
    Ok(End::Done)
}

/// A chain inserted, storing from any of its numbers; one block removed; opened again, storing from another number;
/// that block, or one above the chain, inserted; and opened again.
fn chain_reopened<M: Mv>(ctx: &mut Ctx, most: usize) -> RunResult {
    let (v, order) = chain(ctx, most);
    let (low, high) = (v[0].number, v.iter().map(|n| n.number).max().unwrap());
    let froms: Vec<u64> = if most == LONG { vec![0, low + 9, high, high + 1] } else { (low.max(1) - 1..=high + 2).chain([u64::MAX]).collect() };
    let d = Disk::new();
    let from = *ctx.pick(&froms);
    let mut m: M = open(&d, "d", from, "new")?;
    let mut want = Members::new();
    for i in order {
        m.insert(&v[i]).map_err(|e| violation("insert", e))?;
        want.insert(v[i].id.clone(), v[i].clone());
    }
    let mut next = Node { id: "x".into(), parent: v[0].id.clone(), number: high + 1, tag: 1 };
    match block(ctx, v.len(), most) {
        0 => {}
        i => {
            next = v[i - 1].clone();
            m.remove(&M::reference(&next.id)).map_err(|e| violation("remove", e))?;
            want.remove(&next.id);
        }
    }
    drop(m);
    want.retain(|_, n| n.number >= from);
    let then = *ctx.pick(&[0, from, high]);
    let when = format!("storing from {from}, opened again, storing from {then}");
    let mut m: M = open(&d, "d", then, &when)?;
    compare(ctx, &m, &want, &v, Ask::All, &when)?;
    m.insert(&next).map_err(|e| violation("insert", e))?;
    want.insert(next.id.clone(), next.clone());
    compare(ctx, &m, &want, &v, Ask::All, &format!("{when}, {} inserted", next.id))?;
    drop(m);
    if next.number < then {
        want.remove(&next.id);
    }
    let m: M = open(&d, "d", 0, "at the end")?;
    compare(ctx, &m, &want, &v, Ask::All, &format!("{when}, {} inserted, opened at the end", next.id))?;
    ctx.state(&want);
    Ok(End::Done)
}

pub fn m05(tier: Tier) -> Vec<Scenario> {
    let most = tier.of(6, 8);
    let mut v = vec![Scenario::new(
        format!("chains of up to {most} blocks with a fork, {}", Stand::NAME),
        format!(
            "every trunk of 1 to {most} blocks, every fork off it up to one block longer than the trunk, numbered from 0, 3, 250 or 65533, in three orders of insertion, storing from every number of the chain, those around it, or nothing; every block or none removed; opened again storing from the beginning, from the same number or from the chain's tip; the removed block or one above the chain inserted; opened again"
        ),
        0,
        move |ctx: &mut Ctx| with_hash_seed(0, || chain_reopened::<Stand>(ctx, most)),
    )
    .in_processes()];
    v.push(
        Scenario::new("longer chains", format!("{LONG_CHAINS}, treated in the same way, with one of 4 blocks or none removed, storing from 4 of the numbers"), 0, move |ctx: &mut Ctx| {
            with_hash_seed(0, || chain_reopened::<Stand>(ctx, LONG))
        })
        .in_processes(),
    );
    for (n, depth) in tier.of(vec![(3, 6), (4, 5)], vec![(3, 7), (4, 6), (5, 5)]) {
        v.push(
            Scenario::new(
                format!("forests of {n} blocks, {depth} steps, {}", Stand::NAME),
                format!(
                    "every forest of {n} blocks, every sequence of {depth} insertions, removals, clears, destructions and reopenings, storing from the beginning or from a later number, next to another domain; every answer compared after every step and after reopenings at the end"
                ),
                0,
                move |ctx: &mut Ctx| with_hash_seed(0, || check_reopen::<Stand>(ctx, n, depth, &[0, 4])),
            )
            .in_processes(),
        );
    }
    let (n, depth) = tier.of((2, 3), (3, 4));
    v.push(Scenario::new(
        format!("forests of {n} blocks, {depth} steps, {}", Shipped::NAME),
        format!("the same with the real sled on files, {depth} steps"),
        0,
        move |ctx: &mut Ctx| with_hash_seed(0, || check_reopen::<Shipped>(ctx, n, depth, &[0, 4])),
    ));
    v.extend(crate::conf::scenarios(tier));
    v
}

// ---------------------------------------------------------------- handles

/// every history in which references obtained from the multiverse are kept and used later
fn handles<M: Mv>(ctx: &mut Ctx, n: usize, depth: usize) -> RunResult {
    let universe = forest(ctx, n, false);
    let d = Disk::new();
    let mut m: M = open(&d, "d", 0, "new")?;
    let mut want = Members::new();
    let mut kept: Vec<(String, M::Ref)> = vec![];
    // which handles are taken: the selected blocks of every depth, the preferred tip and all the discarded ones,
    // or none; one of each block at a time, namely the first or the last one handed out
    let takes = ctx.choose(5);
    for step in 0..depth {
        let what = ctx.choose(n + 1);
        let when;
        if what == n {
            when = format!("step {step}: cleared");
            m.clear().map_err(|e| violation("clear", e))?;
            want.clear();
        } else {
            let b = Node { tag: step as u32, ..universe[what].clone() };
            if let Some(was) = want.get(&b.id) {
                // by the most recent handle, the oldest one, or a key
                // (not cloned: how many handles there are may matter)
                let key = M::reference(&b.id);
                let mut with: Vec<&M::Ref> = vec![&key];
                let mine: Vec<&M::Ref> = kept.iter().filter(|k| k.0 == b.id).map(|k| &k.1).collect();
                with.extend(mine.last());
                if mine.len() > 1 {
                    with.push(mine[0]);
                }
                let by = ctx.choose(with.len());
                when = format!("step {step}: removed {} by {}", b.id, ["its key", "its latest handle", "its oldest handle"][by]);
                let got = m.remove(with[by]).map_err(|e| violation("remove", format!("{when}: {e}")))?;
                ensure!(got == *was, "removed value", "{when}: removing {was:?} yields {got:?}");
                want.remove(&b.id);
            } else {
                when = format!("step {step}: inserted {}", b.id);
                m.insert(&b).map_err(|e| violation("insert", format!("{when}: {e}")))?;
                want.insert(b.id.clone(), b);
            }
        }
        ctx.note(|| format!("{when}; {} handles kept; {}", kept.len(), show(&want)));
        compare(ctx, &m, &want, &universe, Ask::All, &format!("{when}, {} handles kept", kept.len()))?;
        let mut new = vec![];
        if takes == 1 {
            (0..4).for_each(|d| new.extend(m.select(d, 0).0));
        }
        if takes != 2 {
            new.extend(m.prefer());
            new.extend(m.select(0, 0).1);
            new.extend(m.select(1, 0).1);
        }
        for r in new {
            let key = M::key(&r);
            let known = kept.iter().position(|k| k.0 == key);
            match known.filter(|_| takes > 2) {
                Some(_) if takes == 3 => (),
                Some(i) => kept[i].1 = r,
                None => kept.push((key, r)),
            }
        }
        for (k, r) in &kept {
            ensure!(M::key(r) == *k, "handle", "{when}: a handle to {k} now names {}", M::key(r));
        }
        ctx.state(&(&want, kept.len()));
    }
    Ok(End::Done)
}

pub fn m06(tier: Tier) -> Vec<Scenario> {
    let mut v = vec![];
    for (n, depth) in tier.of(vec![(3, 7), (4, 5)], vec![(3, 9), (4, 7), (5, 5)]) {
        v.push(
            Scenario::new(
                format!("forests of {n} blocks, {depth} steps"),
                format!(
                    "every forest of {n} blocks, every sequence of {depth} insertions, removals (by key or by a kept handle) and clears, keeping every handle ever handed out by selections, only those of tips and discarded blocks, of each block one of these (the first or the last handed out), or none"
                ),
                0,
                move |ctx: &mut Ctx| with_hash_seed(0, || handles::<Stand>(ctx, n, depth)),
            )
            .in_processes(),
        );
    }
    v
}

// ---------------------------------------------------------------- storage failures

fn failures(ctx: &mut Ctx, n: usize, depth: usize) -> RunResult {
    let universe = forest(ctx, n, false);
    let d = Disk::new();
    let mut m: Stand = open(&d, "d", 0, "new")?;
    let mut want = Members::new();
    let mut failed = 0;
    for step in 0..depth {
        let what = ctx.choose(2 * n + 1);
        let i = what % n;
        let b = Node { tag: step as u32, ..universe[i].clone() };
        let mut after = want.clone();
        let mut attempt = 0;
        // an operation that fails is repeated until it succeeds
        loop {
            let mut refused = 0;
            let when;
            let r: Result<(), String> = {
                let left = ctx.deviations_left();
                let mut fault = |_: &'static str| {
                    let f = left > refused && ctx.dev(2) == 1;
                    refused += u32::from(f);
                    f
                };
                let (m, want) = (&mut m, &want);
                let after = &mut after;
                let w = &mut String::new();
                let r = mc_sled::mc::with_faults(&mut fault, || {
                    if what == 2 * n {
                        *w = "clearing".into();
                        after.clear();
                        m.clear()
                    } else if what >= n || !want.contains_key(&b.id) {
                        // present keys are inserted again, with another value
                        *w = format!("inserting {}", b.id);
                        after.entry(b.id.clone()).or_insert(b.clone());
                        m.insert(&b)
                    } else {
                        *w = format!("removing {}", b.id);
                        after.remove(&b.id);
                        m.remove(&Stand::reference(&b.id)).map(|_| ())
                    }
                });
                when = format!("step {step}: {w}, attempt {attempt}, {refused} refusals");
                r
            };
            ctx.note(|| format!("{when}: {r:?}"));
            if refused == 0 {
                r.map_err(|e| violation("error without a failure", format!("{when}: {e}")))?;
                want = after.clone();
            } else {
                failed += 1;
                ensure!(r.is_err(), "failure hidden", "{when}: the operation reports success");
            }
            compare(ctx, &m, &want, &universe, Ask::All, &when)?;
            // what a reopening would load
            let stored: Vec<Node> = mc_sled::mc::contents(&d.0, b"d")
                .iter()
                .map(|(_, v)| serde_json::from_slice::<Block<dcspark_core::BlockNumber>>(v).map(|b| Node::from(&b)))
                .collect::<Result<_, _>>()
                .map_err(|e| violation("stored value", format!("{when}: {e}")))?;
            let mut expected: Vec<Node> = want.values().cloned().collect();
            let mut sorted = stored;
            sorted.sort();
            expected.sort();
            ensure!(sorted == expected, "storage differs", "{when}: the storage holds {sorted:?}, the multiverse {expected:?}");
            if refused == 0 {
                break;
            }
            attempt += 1;
        }
        ctx.outcome(&(&want, failed));
        ctx.state(&want);
    }
    drop(m);
    let m: Stand = open(&d, "d", 0, "at the end")?;
    compare(ctx, &m, &want, &universe, Ask::All, "opened at the end")?;
    Ok(End::Done)
}

pub fn m07(tier: Tier) -> Vec<Scenario> {
    let mut v = vec![];
    for (n, depth, faults) in tier.of(vec![(2, 5, 3), (3, 4, 2)], vec![(2, 6, 3), (3, 6, 1), (3, 5, 2), (4, 4, 2)]) {
        v.push(
            Scenario::new(
                format!("forests of {n} blocks, {depth} steps, {faults} failures"),
                format!("every forest of {n} blocks, every sequence of {depth} insertions (also of present keys), removals and clears, with every placement of up to {faults} refused storage operations; failed operations are repeated until they succeed"),
                faults,
                move |ctx: &mut Ctx| with_hash_seed(0, || failures(ctx, n, depth)),
            )
            .in_processes(),
        );
    }
    v
}
