//! The sources built on the multiverse, fed by a model of a node: B01 to B05.

use crate::mv::{Block, Disk, Key, Stand};
use dcspark_blockchain_source::{
    multiverse::{
        rollback::{Event, ForkHandlingSource},
        MultiverseSource,
    },
    EventObject, GetNextFrom, PullFrom, Source,
};
use dcspark_core::BlockNumber;
use mclib::{ensure, violation, with_hash_seed, Ctx, End, RunResult, Scenario, Tier, Violation};
use std::{
    collections::{BTreeSet, VecDeque},
    future::Future,
    sync::{Arc, Mutex, MutexGuard},
    task::{Context, Poll, Waker},
};

type V = Block<BlockNumber>;

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct At(String);

impl PullFrom for At {}
impl PullFrom for Key {}
impl EventObject for V {
    fn is_blockchain_tip(&self) -> bool {
        self.tag == TIP
    }
}
impl GetNextFrom for V {
    type From = At;
    fn next_from(&self) -> Option<At> {
        Some(At(format!("@{}", self.id.0)))
    }
}

const TIP: u32 = 9;

fn ready<T>(f: impl Future<Output = T>) -> T {
    let mut f = std::pin::pin!(f);
    match f.as_mut().poll(&mut Context::from_waker(Waker::noop())) {
        Poll::Ready(t) => t,
        Poll::Pending => panic!("the source waits although the wrapped one does not"),
    }
}

// ---------------------------------------------------------------- the node

/// A node as the Cardano source presents it: a pull serves the blocks of the range under way; when there is none it
/// starts the range from the highest checkpoint on the node's chain to its tip at that time.
#[derive(Default)]
struct World {
    /// parent and number of every block ever made
    blocks: Vec<(Option<usize>, u64)>,
    tip: usize,
    range: VecDeque<V>,
    tips_told: bool,
    /// blocks given out for the first time, in order
    reported: Vec<usize>,
    /// checkpoints of the last pull
    asked: Option<Vec<At>>,
    /// the last pull found nothing further
    dry: bool,
    lost: bool,
}

fn at(i: usize) -> At {
    At(format!("@b{i}"))
}

fn index(id: &str) -> Option<usize> {
    id.trim_start_matches('@').strip_prefix('b').and_then(|n| n.parse().ok())
}

impl World {
    fn add(&mut self, parent: Option<usize>) -> usize {
        let n = parent.map_or(1, |p| self.blocks[p].1 + 1);
        self.blocks.push((parent, n));
        self.blocks.len() - 1
    }
    fn block(&self, i: usize) -> V {
        Block {
            id: Key(format!("b{i}")),
            parent: Key(self.blocks[i].0.map_or("origin".into(), |p| format!("b{p}"))),
            number: BlockNumber::new(self.blocks[i].1),
            tag: 0,
        }
    }
    /// from `i` down to the first block
    fn chain(&self, i: usize) -> Vec<usize> {
        let mut v = vec![i];
        while let Some(p) = self.blocks[*v.last().unwrap()].0 {
            v.push(p);
        }
        v
    }
    fn below(&self, i: usize, depth: usize) -> Option<usize> {
        self.chain(i).get(depth).copied()
    }
    fn highest(&self) -> u64 {
        self.blocks.iter().map(|b| b.1).max().unwrap_or(0)
    }
    fn text(&self) -> String {
        let c = |i: usize| self.chain(i).iter().rev().map(|i| format!("b{i}")).collect::<Vec<_>>().join("-");
        let leaves = (0..self.blocks.len()).filter(|i| self.blocks.iter().all(|b| b.0 != Some(*i)));
        format!("chains {}; the node is at b{}", leaves.map(c).collect::<Vec<_>>().join(", "), self.tip)
    }
    fn pull(&mut self, from: &[At]) -> Option<V> {
        self.asked = Some(from.to_vec());
        if self.range.is_empty() {
            let chain = self.chain(self.tip);
            let to: Vec<usize> = if from.is_empty() {
                chain
            } else {
                match chain.iter().position(|i| from.contains(&at(*i))) {
                    Some(p) => chain[..p].to_vec(),
                    None => {
                        self.lost = true;
                        vec![]
                    }
                }
            };
            if self.tips_told && !to.is_empty() {
                self.range.push_back(Block { tag: TIP, ..self.block(self.tip) });
            }
            let to: Vec<V> = to.iter().rev().map(|i| self.block(*i)).collect();
            self.range.extend(to);
        }
        let b = self.range.pop_front();
        self.dry = b.is_none();
        if let Some(b) = b.as_ref().filter(|b| b.tag != TIP) {
            let i = index(&b.id.0).unwrap();
            if !self.reported.contains(&i) {
                self.reported.push(i);
            }
        }
        b
    }
}

#[derive(Clone)]
struct Net(Arc<Mutex<World>>);

impl Net {
    fn world(&self) -> MutexGuard<'_, World> {
        self.0.lock().unwrap_or_else(|e| e.into_inner())
    }
}

#[async_trait::async_trait]
impl Source for Net {
    type Event = V;
    type From = Vec<At>;
    async fn pull(&mut self, from: &Vec<At>) -> anyhow::Result<Option<V>> {
        Ok(self.world().pull(from))
    }
}

// ---------------------------------------------------------------- moves

#[derive(Clone, Copy, Debug, PartialEq)]
enum Move {
    /// the node's chain grows by a block
    Extend,
    /// the node leaves its last `.0` blocks for `.1` new ones
    Fork(usize, usize),
    /// the node goes over to a chain it has had before
    Switch(usize),
    /// the connection breaks: the rest of the range is lost
    Drop,
    Pull,
    /// pull, and do not take the block
    Peek,
    PullAll,
    Restart,
}

#[derive(Clone, Copy)]
struct Plan {
    property: &'static str,
    depth: usize,
    steps: usize,
    /// blocks the node begins with
    initial: usize,
    /// whether the consumer starts from the first block, rather than from no position
    positioned: bool,
    restarts: bool,
    drops: bool,
    peeks: bool,
    ties: bool,
    tips_told: bool,
    /// forks of a few lengths only, as there are many
    long: bool,
}

/// `peek`: whether a pull whose event is not taken is allowed
fn moves(w: &World, p: &Plan, peek: bool) -> Vec<Move> {
    let mut v = vec![Move::PullAll, Move::Pull, Move::Extend];
    let chain = w.chain(w.tip);
    // a fork leaves no block that was confirmed, nor the first one
    let floor = w.highest().saturating_sub(p.depth as u64).max(1 + p.positioned as u64);
    let lengths: Vec<usize> = if p.long { vec![1, p.depth / 2, p.depth - 1, p.depth] } else { (1..=p.depth).collect() };
    for k in lengths {
        if chain.get(k).is_some_and(|a| w.blocks[*a].1 >= floor) {
            if p.ties {
                v.push(Move::Fork(k, k));
            }
            v.push(Move::Fork(k, k + 1));
        }
    }
    for l in 0..w.blocks.len() {
        let fork = w.chain(l).into_iter().find(|i| chain.contains(i)).unwrap();
        let leaf = w.blocks.iter().all(|b| b.0 != Some(l));
        if leaf && l != w.tip && w.blocks[l].1 >= w.blocks[w.tip].1 && w.blocks[fork].1 >= floor {
            v.push(Move::Switch(l));
        }
    }
    if p.drops && !w.range.is_empty() {
        v.push(Move::Drop);
    }
    if p.peeks && peek {
        v.push(Move::Peek);
    }
    if p.restarts {
        v.push(Move::Restart);
    }
    v
}

/// the moves of the node; the others are left to the caller
fn node_moves(w: &mut World, m: Move) {
    match m {
        Move::Extend => w.tip = w.add(Some(w.tip)),
        Move::Fork(k, len) => {
            let mut a = w.below(w.tip, k).unwrap();
            for _ in 0..len {
                a = w.add(Some(a));
            }
            w.tip = a;
        }
        Move::Switch(l) => w.tip = l,
        Move::Drop => w.range.clear(),
        _ => {}
    }
}

fn retained(d: &Disk) -> Vec<V> {
    mc_sled::mc::contents(&d.0, b"d").iter().filter_map(|(_, v)| serde_json::from_slice(v).ok()).collect()
}

/// B05: what the wrapped source was asked for
fn usable(w: &World, before: &[V], from: &Option<At>, when: &str) -> Result<(), Violation> {
    let Some(asked) = &w.asked else { return Ok(()) };
    let asked: BTreeSet<&At> = asked.iter().collect();
    for b in before.iter().filter(|b| before.iter().all(|c| c.parent != b.id)) {
        ensure!(asked.contains(&b.next_from().unwrap()), "checkpoint", "{when}: the wrapped source is not offered the tip {}, only {asked:?}", b.id);
    }
    if let Some(f) = from {
        ensure!(asked.contains(f), "checkpoint", "{when}: the wrapped source is not offered the consumer's position {f:?}, only {asked:?}");
    }
    ensure!(!w.lost, "lost", "{when}: none of the checkpoints {asked:?} is on the node's chain; {}", w.text());
    Ok(())
}

fn multiverse(d: &Disk) -> Result<multiverse::Multiverse<Key, V>, Violation> {
    <Stand as crate::mv::Mv>::open(&d.0, "d", 0).map(|s| s.0).map_err(|e| violation("open", e))
}

struct Setup {
    net: Net,
    disk: Disk,
    start: Option<At>,
}

fn setup(p: &Plan) -> Setup {
    let mut w = World { tips_told: p.tips_told, ..Default::default() };
    let mut last = None;
    for _ in 0..p.initial {
        last = Some(w.add(last));
    }
    w.tip = last.unwrap();
    Setup { net: Net(Arc::new(Mutex::new(w))), disk: Disk::new(), start: p.positioned.then(|| at(0)) }
}

// ---------------------------------------------------------------- depth-confirming source

fn confirming(ctx: &mut Ctx, p: &Plan) -> RunResult {
    let s = setup(p);
    let b05 = p.property == "B05";
    let mut source = MultiverseSource::new(multiverse(&s.disk)?, p.depth, s.net.clone());
    // the consumer's chain, and the block it has seen but not taken
    let mut chain: Vec<usize> = p.positioned.then_some(0).into_iter().collect();
    let mut seen: Option<usize> = None;
    for step in 0..=p.steps {
        let peek = true;
        let m = if step == p.steps { Move::PullAll } else { *ctx.pick(&moves(&s.net.world(), p, peek)) };
        node_moves(&mut s.net.world(), m);
        ctx.note(|| format!("step {step}: {m:?}; {}", s.net.world().text()));
        if m == Move::Restart {
            drop(source);
            s.net.world().range.clear();
            source = MultiverseSource::new(multiverse(&s.disk)?, p.depth, s.net.clone());
        }
        let pulls = match m {
            Move::Pull | Move::Peek => 1,
            Move::PullAll => 1000,
            _ => 0,
        };
        for _ in 0..pulls {
            let from = chain.last().map(|i| at(*i));
            let before = retained(&s.disk);
            s.net.world().asked = None;
            s.net.world().dry = false;
            let r = ready(source.pull(&from));
            let w = s.net.world();
            let when = format!("step {step}: {m:?} from {from:?}; {}; reported {:?}", w.text(), w.reported);
            ctx.step();
            // a block seen and not taken, the consumer being where it started: its parent was never retained
            let r = r.map_err(|e| {
                let start = seen.is_some() && p.positioned && chain == [0] && e.to_string().contains("non continuous pull");
                violation(if start { "repeated pull at the start position" } else { "error" }, format!("{when}: {e:#}"))
            })?;
            ctx.note(|| format!("    pull from {from:?} yields {:?}", r.as_ref().map(|b| (b.id.0.clone(), b.tag))));
            if b05 {
                usable(&w, &before, &from, &when)?;
            }
            match r {
                Some(b) if b.tag == TIP => ensure!(w.tips_told && b == Block { tag: TIP, ..w.block(index(&b.id.0).unwrap()) }, "tip event", "{when}: a tip event {b:?}"),
                Some(b) => {
                    let i = index(&b.id.0).unwrap();
                    if !b05 {
                        ensure!(b == w.block(i), "block", "{when}: the block {b:?} is not as the wrapped source reported it");
                        ensure!(w.blocks[i].0 == chain.last().copied(), "order", "{when}: b{i} does not continue the consumer's chain {chain:?}");
                        let buried = w.reported.iter().any(|r| w.below(*r, p.depth) == Some(i));
                        ensure!(buried, "unconfirmed", "{when}: b{i} is emitted without {} confirmations", p.depth);
                        ensure!(seen.is_none_or(|s| s == i), "repeated pull", "{when}: pulling again yields b{i}, it was {seen:?}");
                    }
                    seen = Some(i);
                    if m != Move::Peek {
                        chain.push(i);
                        seen = None;
                    }
                }
                None => {
                    ensure!(b05 || seen.is_none(), "repeated pull", "{when}: pulling again yields nothing, it was {seen:?}");
                    if m == Move::PullAll && w.dry {
                        break;
                    }
                }
            }
        }
        let w = s.net.world();
        if m == Move::PullAll && !b05 {
            // everything confirmed has been received
            let to = w.reported.iter().map(|i| w.blocks[*i].1).max().unwrap_or(0).saturating_sub(p.depth as u64);
            let have = chain.last().map_or(0, |i| w.blocks[*i].1);
            ensure!(have == to.max(u64::from(p.positioned)), "stalled", "step {step}: everything pulled, the consumer has {have} blocks, {to} are confirmed; {}; reported {:?}", w.text(), w.reported);
            ensure!(!w.lost && w.reported.contains(&w.tip), "stalled", "step {step}: everything pulled, the node's tip was not reported; asked {:?}; {}", w.asked, w.text());
        }
        ctx.state(&(p.depth, p.positioned, &w.blocks, w.tip, &chain, &w.reported, w.range.len()));
    }
    Ok(End::Done)
}

// ---------------------------------------------------------------- fork-handling source

fn following(ctx: &mut Ctx, p: &Plan) -> RunResult {
    let s = setup(p);
    let b05 = p.property == "B05";
    let mut source = ForkHandlingSource::new(multiverse(&s.disk)?, p.depth, s.net.clone());
    let mut chain: Vec<usize> = p.positioned.then_some(0).into_iter().collect();
    for step in 0..=p.steps {
        // a consumer that falls further behind loses what is no longer retained
        let peek = {
            let w = s.net.world();
            let told = w.reported.iter().map(|i| w.blocks[*i].1).max().unwrap_or(0);
            // where the consumer has to go back to
            let common = w.reported.last().and_then(|r| w.chain(*r).into_iter().find(|i| chain.contains(i)));
            told.saturating_sub(common.map_or(0, |i| w.blocks[i].1)) < p.depth as u64
        };
        let m = if step == p.steps { Move::PullAll } else { *ctx.pick(&moves(&s.net.world(), p, peek)) };
        node_moves(&mut s.net.world(), m);
        ctx.note(|| format!("step {step}: {m:?}; {}", s.net.world().text()));
        if m == Move::Restart {
            drop(source);
            s.net.world().range.clear();
            source = ForkHandlingSource::new(multiverse(&s.disk)?, p.depth, s.net.clone());
        }
        let pulls = match m {
            Move::Pull => 1,
            // an event is lost with the process that was to take it
            Move::Peek => 1,
            Move::PullAll => 1000,
            _ => 0,
        };
        let told = s.net.world().reported.len();
        for _ in 0..pulls {
            let from = chain.last().map(|i| at(*i));
            let before = retained(&s.disk);
            s.net.world().asked = None;
            s.net.world().dry = false;
            let r = ready(source.pull(&from));
            let w = s.net.world();
            let when = format!("step {step}: {m:?} from {from:?}; {}; reported {:?}; consumer {chain:?}", w.text(), w.reported);
            ctx.step();
            let r = r.map_err(|e| violation("error", format!("{when}: {e:#}")))?;
            ctx.note(|| format!("    pull from {from:?} yields {r:?}"));
            if b05 {
                usable(&w, &before, &from, &when)?;
            }
            if m == Move::Peek {
                break;
            }
            match r {
                Some(Event::InnerEvent(b)) if b.tag == TIP => {}
                Some(Event::InnerEvent(b)) => {
                    let i = index(&b.id.0).unwrap();
                    if !b05 {
                        ensure!(b == w.block(i), "block", "{when}: the block {b:?} is not as the wrapped source reported it");
                        ensure!(w.blocks[i].0 == chain.last().copied(), "broken chain", "{when}: b{i} does not continue the consumer's chain");
                    }
                    chain.push(i);
                }
                Some(Event::Rollback(t)) => {
                    let i = index(&t.0).unwrap();
                    let to = chain.iter().position(|c| *c == i);
                    ensure!(b05 || to.is_some(), "rollback", "{when}: rolled back to b{i}, which is not on the consumer's chain");
                    chain.truncate(to.unwrap_or(0) + 1);
                }
                None if m == Move::PullAll && w.dry => break,
                None => {}
            }
        }
        if m == Move::Peek {
            // the event that was not taken is lost with the process
            drop(source);
            s.net.world().range.clear();
            source = ForkHandlingSource::new(multiverse(&s.disk)?, p.depth, s.net.clone());
        }
        let w = s.net.world();
        if m == Move::PullAll && !b05 {
            let head = chain.last().copied();
            ensure!(!w.lost && w.reported.contains(&w.tip), "stalled", "step {step}: everything pulled, the node's tip was not reported; asked {:?}; {}", w.asked, w.text());
            // events lost with a process are made up for when there is something new
            if w.reported.len() > told || !(p.restarts || p.peeks) {
                ensure!(head == w.reported.last().copied().or(p.positioned.then_some(0)), "head", "step {step}: everything pulled, the consumer's chain is {chain:?}, b{:?} was the last block reported; {}", w.reported.last(), w.text());
            }
        }
        ctx.state(&(p.depth, p.positioned, &w.blocks, w.tip, &chain, &w.reported, w.range.len()));
    }
    Ok(End::Done)
}

// ---------------------------------------------------------------- scenarios

fn plan(property: &'static str) -> Plan {
    Plan { property, depth: 0, steps: 0, initial: 1, positioned: false, restarts: false, drops: false, peeks: false, ties: true, tips_told: false, long: false }
}

fn scenario(p: Plan, run: fn(&mut Ctx, &Plan) -> RunResult, tier: Tier) -> Scenario {
    let seeds = tier.of(1, 2);
    Scenario::new(
        format!("{} confirmations, {} blocks at first, {}{}", p.depth, p.initial, if p.positioned { "from a position" } else { "from the beginning" }, if p.tips_told { ", tip events" } else { "" }),
        format!(
            "every sequence of {} moves: the node's chain grows, forks {} deep to a longer{} branch, goes back to an earlier branch; single pulls and pulls until nothing is left{}{}{}",
            p.steps,
            if p.long { format!("1, {}, {} or {}", p.depth / 2, p.depth - 1, p.depth) } else { format!("up to {}", p.depth) },
            if p.ties { " or equal" } else { "" },
            if p.peeks { ", pulls whose event is not taken" } else { "" },
            if p.restarts { ", restarts" } else { "" },
            if p.drops { ", broken connections" } else { "" },
        ),
        0,
        move |ctx: &mut Ctx| {
            let seed = ctx.choose(seeds) as u64;
            with_hash_seed(seed, || run(ctx, &p))
        },
    )
    .in_processes()
}

/// many blocks: some retained and none confirmed, and around where the first one is
fn long(base: Plan, tier: Tier) -> Vec<Plan> {
    let mut v = vec![];
    for positioned in [false, true] {
        let first = usize::from(positioned);
        for (depth, steps) in tier.of(vec![(24, 4)], vec![(24, 5), (48, 4)]) {
            for initial in [depth - 2 + first, depth + 2 + first] {
                v.push(Plan { depth, steps, initial, positioned, long: true, ..base });
            }
        }
    }
    v
}

pub fn b01(tier: Tier) -> Vec<Scenario> {
    let base = Plan { drops: true, peeks: true, ..plan("B01") };
    let mut v = vec![];
    for positioned in [false, true] {
        let first = usize::from(positioned);
        for (depth, steps) in tier.of(vec![(0, 7), (1, 7), (2, 6)], vec![(0, 8), (1, 8), (2, 8), (3, 7)]) {
            v.push(scenario(Plan { depth, steps, initial: 1 + first, positioned, ..base }, confirming, tier));
            if depth > 0 {
                v.push(scenario(Plan { depth, steps: steps - 1, initial: 2 + depth + first, positioned, tips_told: true, ..base }, confirming, tier));
            }
        }
    }
    v.extend(long(base, tier).into_iter().map(|p| scenario(p, confirming, tier)));
    v
}

pub fn b02(tier: Tier) -> Vec<Scenario> {
    let base = Plan { restarts: true, peeks: true, ..plan("B02") };
    let mut v = vec![];
    for positioned in [false, true] {
        let first = usize::from(positioned);
        for (depth, steps) in tier.of(vec![(0, 7), (1, 7), (2, 6)], vec![(0, 8), (1, 8), (2, 8), (3, 7)]) {
            v.push(scenario(Plan { depth, steps, initial: 2 + depth + first, positioned, ..base }, confirming, tier));
        }
    }
    v.extend(long(base, tier).into_iter().map(|p| scenario(p, confirming, tier)));
    v
}

fn fork_handling(tier: Tier, base: Plan) -> Vec<Scenario> {
    let mut v = vec![];
    for positioned in [true, false] {
        let first = usize::from(positioned);
        for (depth, steps) in tier.of(vec![(1, 7), (2, 7), (3, 6)], vec![(1, 8), (2, 8), (3, 7), (4, 7)]) {
            v.push(scenario(Plan { depth, steps, initial: 1 + first, positioned, ..base }, following, tier));
            v.push(scenario(Plan { depth, steps: steps - 1, initial: 1 + depth + first, positioned, tips_told: true, ..base }, following, tier));
        }
    }
    v.extend(long(base, tier).into_iter().map(|p| scenario(p, following, tier)));
    v
}

pub fn b03(tier: Tier) -> Vec<Scenario> {
    fork_handling(tier, Plan { drops: true, ..plan("B03") })
}

pub fn b04(tier: Tier) -> Vec<Scenario> {
    fork_handling(tier, Plan { restarts: true, peeks: true, ..plan("B04") })
}

pub fn b05(tier: Tier) -> Vec<Scenario> {
    let base = Plan { restarts: true, drops: true, ..plan("B05") };
    let mut plans = long(base, tier);
    for positioned in [false, true] {
        let first = usize::from(positioned);
        for (depth, steps) in tier.of(vec![(1, 6), (2, 6)], vec![(1, 8), (2, 7), (3, 7)]) {
            plans.push(Plan { depth, steps, initial: 2 + first, positioned, ..base });
        }
    }
    let mut v = vec![];
    {
        for p in plans {
            for (what, run) in [("confirming: ", confirming as fn(&mut Ctx, &Plan) -> RunResult), ("fork handling: ", following)] {
                let mut s = scenario(p, run, tier);
                s.name = format!("{what}{}", s.name);
                v.push(s);
            }
        }
    }
    v
}
