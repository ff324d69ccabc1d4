//! B09: node, Cardano source, multiverse and consumer together.

use crate::{
    source::runtime,
    world::{poll, serve, settle, Shared, World},
};
use dcspark_blockchain_source::{
    cardano::{BlockEvent, CardanoNetworkEvent, CardanoSource, Point},
    multiverse::{
        rollback::{Event, ForkHandlingSource},
        MultiverseSource,
    },
    Source,
};
use dcspark_core::{BlockId, BlockNumber, StoppableService};
use mclib::{ensure, violation, with_hash_seed, Ctx, End, RunResult, Scenario, Tier, Violation};
use std::{
    future::Future,
    path::PathBuf,
    sync::atomic::{AtomicU64, Ordering},
    time::Duration,
};

type Network = CardanoNetworkEvent<BlockEvent, cardano_sdk::protocol::Tip>;

struct Disk(PathBuf);

impl Drop for Disk {
    fn drop(&mut self) {
        mc_sled::mc::forget(&self.0);
    }
}

#[derive(Clone, Copy)]
struct Plan {
    depth: usize,
    steps: usize,
    initial: usize,
    faults: usize,
    /// chain changes while a pull is under way
    changes: usize,
    restarts: bool,
    every_tip: bool,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Move {
    All,
    Pull,
    Extend,
    Fork(usize),
    Restart,
}

enum Stack {
    Confirming(MultiverseSource<BlockId, Network, CardanoSource>),
    Following(ForkHandlingSource<BlockId, Network, CardanoSource, Event<Network, Point>>),
}

/// forks leave no block that was confirmed, nor the first one
fn forks(w: &World, depth: usize) -> Vec<Move> {
    let chain = w.chain(w.tip);
    let highest = (0..w.blocks.len()).map(|i| w.number(i)).max().unwrap();
    let floor = highest.saturating_sub(depth as u64).max(1);
    (1..=depth).filter(|k| chain.get(*k).is_some_and(|a| w.number(*a) >= floor)).map(Move::Fork).collect()
}

fn change(w: &Shared, m: Move) {
    match m {
        Move::Fork(back) => w.borrow_mut().fork(back, back + 1),
        _ => w.borrow_mut().extend(),
    }
}

struct Budget {
    faults: usize,
    changes: usize,
}

/// runs `f`, deciding at every exchange with the node what happens first
async fn through<T>(ctx: &mut Ctx<'_>, w: &Shared, depth: usize, b: &mut Budget, what: &str, f: impl Future<Output = T>) -> Result<T, Violation> {
    let mut f = std::pin::pin!(f);
    loop {
        if let Some(r) = poll(&mut f).await {
            return Ok(r);
        }
        settle().await;
        if let Some(r) = poll(&mut f).await {
            return Ok(r);
        }
        ensure!(cardano_net::waiting() > 0, "stuck", "{what} waits for nothing");
        let mut v = vec![None];
        if b.changes > 0 {
            v.push(Some(Move::Extend));
            v.extend(forks(&w.borrow(), depth).into_iter().map(Some));
        }
        let n = v.len() + usize::from(b.faults > 0);
        let i = ctx.choose(n);
        ctx.step();
        if i == v.len() {
            b.faults -= 1;
            w.borrow_mut().fault = true;
            ctx.note(|| "an exchange fails".into());
        } else if let Some(m) = v[i] {
            b.changes -= 1;
            change(w, m);
            ctx.note(|| format!("{m:?}: {}", w.borrow().text()));
            continue;
        }
        cardano_net::permit();
        settle().await;
    }
}

async fn start(w: &Shared, d: &Disk, p: &Plan, confirming: bool) -> Result<Stack, Violation> {
    let config = w.borrow().config();
    let pace = if p.every_tip { Duration::ZERO } else { Duration::from_secs(3600) };
    let f = CardanoSource::connect(&config, pace);
    let mut f = std::pin::pin!(f);
    ensure!(poll(&mut f).await.is_none(), "connect", "no connection is made");
    cardano_net::permit();
    let s = poll(&mut f).await.ok_or_else(|| violation("stuck", "connecting"))?.map_err(|e| violation("error", e.to_string()))?;
    let m = multiverse::Multiverse::open(&d.0, "d", BlockNumber::MIN).map_err(|e| violation("open", e.to_string()))?;
    Ok(if confirming { Stack::Confirming(MultiverseSource::new(m, p.depth, s)) } else { Stack::Following(ForkHandlingSource::new(m, p.depth, s)) })
}

async fn run(ctx: &mut Ctx<'_>, p: &Plan, confirming: bool) -> RunResult {
    static NEXT: AtomicU64 = AtomicU64::new(0);
    let d = Disk(PathBuf::from(format!("/dev/shm/mc-cardano/{}", NEXT.fetch_add(1, Ordering::Relaxed))));
    let w = World::new(p.initial + 1);
    w.borrow_mut().every_tip = p.every_tip;
    w.borrow_mut().free = true;
    serve(&w);
    let mut s = start(&w, &d, p, confirming).await?;
    let mut b = Budget { faults: p.faults, changes: p.changes };
    let mut calm = Budget { faults: 0, changes: 0 };
    // the blocks the consumer has; it begins after b0
    let mut chain: Vec<usize> = vec![];
    let mut log = String::new();
    for step in 0..=p.steps {
        let last = step == p.steps;
        let mut v = vec![Move::All, Move::Pull, Move::Extend];
        v.extend(forks(&w.borrow(), p.depth));
        if p.restarts {
            v.push(Move::Restart);
        }
        let m = if last { Move::All } else { *ctx.pick(&v) };
        ctx.step();
        log += &format!(" {m:?}");
        match m {
            Move::Extend | Move::Fork(_) => change(&w, m),
            Move::Restart => {
                match s {
                    Stack::Confirming(s) => through(ctx, &w, p.depth, &mut calm, "stopping", s.stop()).await?.map_err(|e| violation("error", format!("stopping: {e:#}")))?,
                    Stack::Following(s) => through(ctx, &w, p.depth, &mut calm, "stopping", s.into_inner().stop()).await?,
                }
                s = start(&w, &d, p, confirming).await?;
            }
            _ => {}
        }
        ctx.note(|| format!("{m:?}: {}", w.borrow().text()));
        let mut left = match m {
            Move::Pull => 1,
            Move::All => 20 + 6 * w.borrow().blocks.len(),
            _ => 0,
        };
        while left > 0 {
            left -= 1;
            let from = chain.last().map(|i| w.borrow().point(*i));
            let budget = if last { &mut calm } else { &mut b };
            let (quiet, tip) = match &mut s {
                Stack::Confirming(s) => {
                    let r = through(ctx, &w, p.depth, budget, "a pull", s.pull(&from)).await?;
                    let w = w.borrow();
                    let when = format!("{log}; {}; the consumer has {chain:?}", w.text());
                    let r = r.map_err(|e| violation("error", format!("{when}: {e:#}")))?;
                    ctx.note(|| format!("    pulled {:?}", r.as_ref().map(|e| name(&w, e))));
                    match &r {
                        Some(CardanoNetworkEvent::Block(e)) => {
                            let i = block(&w, e, &when)?;
                            ensure!(w.blocks[i].0 == Some(chain.last().copied().unwrap_or(0)), "order", "{when}: b{i} does not continue the consumer's chain");
                            ensure!(w.handed.iter().any(|h| w.chain(*h).get(p.depth) == Some(&i)), "unconfirmed", "{when}: b{i} is emitted without {} confirmations", p.depth);
                            chain.push(i);
                        }
                        _ => {}
                    }
                    (r.is_none(), matches!(r, Some(CardanoNetworkEvent::Tip(_))))
                }
                Stack::Following(s) => {
                    let r = through(ctx, &w, p.depth, budget, "a pull", s.pull(&from)).await?;
                    let w = w.borrow();
                    let when = format!("{log}; {}; the consumer has {chain:?}", w.text());
                    let r = r.map_err(|e| violation("error", format!("{when}: {e:#}")))?;
                    ctx.note(|| match &r {
                        Some(Event::InnerEvent(e)) => format!("    pulled {}", name(&w, e)),
                        r => format!("    pulled {r:?}"),
                    });
                    match &r {
                        Some(Event::InnerEvent(CardanoNetworkEvent::Block(e))) => {
                            let i = block(&w, e, &when)?;
                            ensure!(w.blocks[i].0 == Some(chain.last().copied().unwrap_or(0)), "order", "{when}: b{i} does not continue the consumer's chain");
                            chain.push(i);
                        }
                        Some(Event::Rollback(to)) => {
                            let at = w.index_of(to).and_then(|i| chain.iter().position(|c| *c == i));
                            ensure!(at.is_some(), "rollback", "{when}: a rollback to {to:?}, where the consumer has not been");
                            chain.truncate(at.unwrap() + 1);
                        }
                        _ => {}
                    }
                    (r.is_none(), matches!(r, Some(Event::InnerEvent(CardanoNetworkEvent::Tip(_)))))
                }
            };
            let w = w.borrow();
            ensure!(!tip || w.attempts.iter().any(|a| a.tip_told), "tip event", "{log}; a tip event out of nothing");
            let a = w.attempts.last().unwrap();
            if quiet && m == Move::All && a.up_to_date() {
                break;
            }
            ensure!(left > 0 || m != Move::All, "never up to date", "{log}; {}; the consumer has {chain:?}; the last request: {a:?}", w.text());
        }
        let w = w.borrow();
        ctx.state(&(&w.blocks, w.tip, &chain, b.faults, b.changes));
        if last {
            let mut want = w.chain(w.tip);
            want.reverse();
            want.remove(0);
            if confirming {
                let highest = w.handed.iter().map(|h| w.number(*h)).max().unwrap_or(0) as usize;
                want.truncate(highest.saturating_sub(p.depth));
            }
            ensure!(chain == want, "incomplete", "{log}; {}; everything pulled, the consumer has {chain:?}, not {want:?}", w.text());
            ctx.outcome(&(&chain, w.attempts.len()));
        }
    }
    Ok(End::Done)
}

fn name(w: &World, e: &Network) -> String {
    match e {
        CardanoNetworkEvent::Tip(t) => format!("the tip {t}"),
        CardanoNetworkEvent::Block(e) => (0..w.blocks.len()).find(|i| w.event(*i).id == e.id).map_or("?".into(), |i| format!("b{i}")),
    }
}

fn block(w: &World, e: &BlockEvent, when: &str) -> Result<usize, Violation> {
    let i = (0..w.blocks.len()).find(|i| w.event(*i).id == e.id).ok_or_else(|| violation("block", format!("{when}: an unknown block {e:?}")))?;
    ensure!(format!("{e:?}") == format!("{:?}", w.event(i)), "block", "{when}: b{i} is given as {e:?}");
    Ok(i)
}

pub fn b09(tier: Tier) -> Vec<Scenario> {
    let p = Plan { depth: 2, steps: tier.of(5, 7), initial: 4, faults: 0, changes: 0, restarts: false, every_tip: true };
    let plans = [
        ("chain changes", Plan { restarts: true, ..p }),
        ("changes within a pull", Plan { changes: tier.of(1, 2), steps: tier.of(4, 5), ..p }),
        ("failing exchanges", Plan { faults: tier.of(1, 2), steps: tier.of(4, 5), every_tip: false, ..p }),
        ("changes, faults and restarts", Plan { faults: 1, changes: 1, restarts: true, initial: 3, steps: tier.of(3, 4), ..p }),
        ("depth 3", Plan { depth: 3, initial: 5, restarts: true, steps: tier.of(5, 6), every_tip: false, ..p }),
    ];
    let mut v = vec![];
    for (name, p) in plans {
        for confirming in [true, false] {
            v.push(Scenario::new(
                format!("{}, {name}", if confirming { "confirmed blocks" } else { "followed chain" }),
                format!(
                    "every run of {} steps over a node with {} blocks, depth {}: pulls, pulls until nothing is left, added blocks, forks of up to {} blocks{}, {} of these and {} failures at exchanges within pulls",
                    p.steps, p.initial, p.depth, p.depth, if p.restarts { ", restarts" } else { "" }, p.changes, p.faults
                ),
                0,
                move |c: &mut Ctx| with_hash_seed(7, || runtime(run(c, &p, confirming))),
            ));
        }
    }
    v
}
