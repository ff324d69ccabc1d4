//! B08: the Cardano source between a node and its consumer.

use crate::world::{poll, serve, settle, Shared, World};
use dcspark_blockchain_source::{
    cardano::{CardanoNetworkEvent, CardanoSource, Point},
    Source,
};
use mclib::{ensure, violation, Ctx, End, RunResult, Scenario, Tier, Violation};
use std::time::Duration;

type Event = CardanoNetworkEvent<dcspark_blockchain_source::cardano::BlockEvent, cardano_sdk::protocol::Tip>;

#[derive(Clone, Copy)]
pub struct Plan {
    pub initial: usize,
    pub steps: usize,
    pub faults: usize,
    pub changes: usize,
    pub cancels: usize,
    pub clears: usize,
    pub every_tip: bool,
    pub boundaries: bool,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Move {
    /// pull from the last block
    Next,
    /// pull from the parent of the first block and every block seen, lowest first
    Seen,
    /// pull from the parent of the first block
    Genesis,
    /// pull from a point the node does not know
    Unknown,
    All,
    Exchange,
    Fail,
    Extend,
    Fork(usize, usize),
    Clear,
}

/// what the consumer has been given, against what was due
#[derive(Default)]
struct Consumer {
    /// the attempt being served, and how much of it has been
    at: usize,
    told: bool,
    taken: usize,
    seen: Vec<usize>,
    last: Option<usize>,
    /// results may have been lost to a pull given up
    cancelled: bool,
}

impl Consumer {
    fn take(&mut self, w: &World, e: Option<&Event>, log: &str) -> Result<(), Violation> {
        let show = |e: Option<&Event>| match e {
            None => "nothing".to_string(),
            Some(CardanoNetworkEvent::Tip(t)) => format!("the tip {t}"),
            Some(CardanoNetworkEvent::Block(b)) => match (0..w.blocks.len()).find(|i| w.event(*i).id == b.id) {
                Some(i) => format!("b{i}"),
                None => format!("{b:?}"),
            },
        };
        loop {
            let Some(a) = w.attempts.get(self.at) else {
                return Err(violation("unasked", format!("{log}; pulled {}, which nothing was asked of the node for", show(e))));
            };
            let none_so_far = !self.told && self.taken == 0;
            match e {
                Some(CardanoNetworkEvent::Tip(t)) if a.tip_told && !self.told && self.taken == 0 && *t == w.tip_of(a.tip) => {
                    self.told = true;
                    return Ok(());
                }
                Some(CardanoNetworkEvent::Block(b)) if (self.told || !a.tip_told) && a.due.get(self.taken).is_some_and(|i| w.event(*i).id == b.id) => {
                    let i = a.due[self.taken];
                    let want = w.event(i);
                    ensure!(format!("{want:?}") == format!("{b:?}"), "block", "{log}; b{i} is given as {b:?}, not {want:?}");
                    self.taken += 1;
                    self.last = Some(i);
                    if !self.seen.contains(&i) {
                        self.seen.push(i);
                    }
                    return Ok(());
                }
                None if none_so_far && (a.failed || a.points.is_some() && (a.due.is_empty() || a.gone && !a.tip_told)) => {
                    self.leave();
                    return Ok(());
                }
                _ => {}
            }
            // the attempt may be over, having yielded something
            let over = a.failed || self.told >= a.tip_told && (self.taken == a.due.len() || a.gone);
            if !over || none_so_far && !self.cancelled {
                let due: Vec<String> = a.due.iter().map(|i| format!("b{i}")).collect();
                return Err(violation("not what is due", format!("{log}; pulled {}, but due are {due:?}{}, {} of which were given (tip given: {}); the request: {a:?}", show(e), if a.tip_told { " after the tip" } else { "" }, self.taken, self.told)));
            }
            self.leave();
        }
    }
    fn leave(&mut self) {
        self.at += 1;
        self.told = false;
        self.taken = 0;
    }
    fn from(&self, w: &World, m: Move) -> Vec<Point> {
        match m {
            Move::Genesis => vec![World::before_genesis()],
            Move::Unknown => vec![World::unknown()],
            // of blocks in one slot, the last one: the points do not tell which of them is the higher one
            Move::Seen if w.boundaries => {
                let last = |i: &&usize| self.seen.iter().rev().find(|j| w.blocks[**j].1 == w.blocks[**i].1) == Some(*i);
                std::iter::once(World::before_genesis()).chain(self.seen.iter().filter(last).map(|i| w.point(*i))).collect()
            }
            Move::Seen => std::iter::once(World::before_genesis()).chain(self.seen.iter().map(|i| w.point(*i))).collect(),
            _ => self.last.iter().map(|i| w.point(*i)).collect(),
        }
    }
}

/// what is left to happen
#[derive(Clone, Copy)]
struct Budget {
    faults: usize,
    changes: usize,
    cancels: usize,
    clears: usize,
}

/// lets one exchange happen, or something else before it
fn exchange(ctx: &mut Ctx, w: &Shared, b: &mut Budget, may_cancel: bool) -> bool {
    loop {
        let mut v = vec![Some(Move::Exchange)];
        v.extend((b.faults > 0).then_some(Some(Move::Fail)));
        if b.changes > 0 {
            v.push(Some(Move::Extend));
            v.extend((w.borrow().chain(w.borrow().tip).len() > 2).then_some(Some(Move::Fork(1, 2))));
        }
        v.extend((b.cancels > 0 && may_cancel).then_some(None));
        let m = v[ctx.choose(v.len())];
        ctx.step();
        match m {
            None => {
                b.cancels -= 1;
                return false;
            }
            Some(Move::Extend) => w.borrow_mut().extend(),
            Some(Move::Fork(back, new)) => w.borrow_mut().fork(back, new),
            Some(Move::Fail) => w.borrow_mut().fault = true,
            _ => {}
        }
        match m {
            Some(Move::Exchange | Move::Fail) => {
                b.faults -= usize::from(m == Some(Move::Fail));
                ctx.note(|| format!("an exchange{}", if m == Some(Move::Fail) { " fails" } else { "" }));
                cardano_net::permit();
                return true;
            }
            _ => {
                b.changes -= 1;
                ctx.note(|| format!("{m:?}: {}", w.borrow().text()));
            }
        }
    }
}

/// `None`: given up
async fn pull(ctx: &mut Ctx<'_>, s: &mut CardanoSource, w: &Shared, from: Vec<Point>, b: &mut Budget, log: &str) -> Result<Option<Option<Event>>, Violation> {
    w.borrow_mut().from = from.clone();
    let before = w.borrow().attempts.len();
    let f = s.pull(&from);
    let mut f = std::pin::pin!(f);
    loop {
        let mut r = poll(&mut f).await;
        if r.is_none() {
            settle().await;
            r = poll(&mut f).await;
        }
        if let Some(r) = r {
            let r = r.map_err(|e| violation("error", format!("{log}; {e:#}")))?;
            return Ok(Some(r));
        }
        ensure!(cardano_net::waiting() > 0, "stuck", "{log}; a pull waits for nothing");
        let asked = w.borrow().attempts.len() > before && w.borrow().attempts.last().is_some_and(|a| a.points.is_some());
        if !exchange(ctx, w, b, asked) {
            return Ok(None);
        }
        settle().await;
    }
}

async fn run(ctx: &mut Ctx<'_>, p: &Plan) -> RunResult {
    let w = World::over(p.initial, p.boundaries);
    w.borrow_mut().every_tip = p.every_tip;
    serve(&w);
    let mut b = Budget { faults: p.faults, changes: p.changes, cancels: p.cancels, clears: p.clears };
    let config = w.borrow().config();
    let pace = if p.every_tip { Duration::ZERO } else { Duration::from_secs(3600) };
    let mut s = {
        let f = CardanoSource::connect(&config, pace);
        let mut f = std::pin::pin!(f);
        ensure!(poll(&mut f).await.is_none() && cardano_net::waiting() == 1, "connect", "no connection is made");
        cardano_net::permit();
        poll(&mut f).await.ok_or_else(|| violation("stuck", "connecting"))?.map_err(|e| violation("error", e.to_string()))?
    };
    let mut c = Consumer::default();
    let mut log = String::new();
    for _ in 0..p.steps {
        let mut v = vec![Move::Next, Move::All];
        if c.seen.len() > 1 {
            v.push(Move::Seen);
        }
        if c.seen.is_empty() {
            v.push(Move::Genesis);
        }
        v.push(Move::Unknown);
        if b.changes > 0 {
            v.push(Move::Extend);
            v.extend((w.borrow().chain(w.borrow().tip).len() > 2).then_some(Move::Fork(1, 2)));
        }
        if cardano_net::waiting() > 0 {
            v.push(Move::Exchange);
            if b.faults > 0 {
                v.push(Move::Fail);
            }
        }
        if b.clears > 0 && !c.cancelled && c.at < w.borrow().attempts.len() {
            v.push(Move::Clear);
        }
        let m = *ctx.pick(&v);
        ctx.step();
        ctx.note(|| format!("{m:?}"));
        log += &format!(" {m:?}");
        match m {
            Move::Extend | Move::Fork(..) => {
                b.changes -= 1;
                let mut w = w.borrow_mut();
                match m {
                    Move::Fork(back, new) => w.fork(back, new),
                    _ => w.extend(),
                }
                ctx.note(|| w.text());
            }
            Move::Exchange | Move::Fail => {
                b.faults -= usize::from(m == Move::Fail);
                w.borrow_mut().fault = m == Move::Fail;
                cardano_net::permit();
                settle().await;
            }
            Move::Clear => {
                b.clears -= 1;
                s.clear_buffers();
                c.leave();
                c.at = w.borrow().attempts.len();
            }
            _ => loop {
                let from = c.from(&w.borrow(), m);
                let r = pull(ctx, &mut s, &w, from, &mut b, &log).await?;
                let w = w.borrow();
                check(&w, &log)?;
                let Some(e) = r else {
                    ctx.note(|| "given up".into());
                    log += " (given up)";
                    c.cancelled = true;
                    break;
                };
                ctx.note(|| format!("pulled {e:?}"));
                c.take(&w, e.as_ref(), &log)?;
                if m != Move::All || e.is_none() {
                    break;
                }
            },
        }
        let w = w.borrow();
        ctx.state(&(&w.blocks, w.tip, c.at, c.taken, c.told, c.last, b.faults, b.changes, cardano_net::waiting()));
    }
    // in peace, the consumer comes up to the node
    let mut none = Budget { faults: 0, changes: 0, cancels: 0, clears: 0 };
    let mut left = 4 + w.borrow().attempts.len() + 3 * w.borrow().blocks.len();
    loop {
        let from = c.from(&w.borrow(), Move::Seen);
        let e = pull(ctx, &mut s, &w, from, &mut none, &log).await?.unwrap();
        ctx.note(|| format!("pulled {e:?}"));
        let w = w.borrow();
        check(&w, &log)?;
        c.take(&w, e.as_ref(), &log)?;
        let a = w.attempts.last().unwrap();
        if e.is_none() && a.up_to_date() {
            break;
        }
        left -= 1;
        ensure!(left > 0, "never up to date", "{log}; {}; seen {:?}", w.text(), c.seen);
    }
    {
        let w = w.borrow();
        ensure!(w.tip == 0 || c.seen.contains(&w.tip), "incomplete", "{log}; {}; seen {:?}", w.text(), c.seen);
        ctx.outcome(&(&c.seen, w.attempts.len(), w.faults));
    }
    let f = s.stop();
    let mut f = std::pin::pin!(f);
    for _ in 0..4 {
        if poll(&mut f).await.is_some() {
            return Ok(End::Done);
        }
        settle().await;
        if cardano_net::waiting() > 0 {
            cardano_net::permit();
        }
    }
    Err(violation("stuck", format!("{log}; stopping does not come to an end")))
}

fn check(w: &World, log: &str) -> Result<(), Violation> {
    match &w.wrong {
        Some(wrong) => Err(violation("asked wrongly", format!("{log}; {wrong}"))),
        None => Ok(()),
    }
}

pub fn runtime<T>(f: impl std::future::Future<Output = T>) -> T {
    tokio::runtime::Builder::new_current_thread().build().expect("a runtime").block_on(f)
}

/// more blocks than are ever buffered
async fn long(ctx: &mut Ctx<'_>, blocks: usize) -> RunResult {
    let w = World::new(blocks);
    w.borrow_mut().every_tip = true;
    serve(&w);
    let config = w.borrow().config();
    let connecting = CardanoSource::connect(&config, Duration::ZERO);
    let mut f = std::pin::pin!(connecting);
    poll(&mut f).await;
    cardano_net::permit();
    let mut s = poll(&mut f).await.ok_or_else(|| violation("stuck", "connecting"))?.map_err(|e| violation("error", e.to_string()))?;
    // how far the node is ahead of the consumer, and when the consumer clears its buffers or stops
    let ahead = *ctx.pick(&[1, 2, 500, 2000]);
    let at = *ctx.pick(&[usize::MAX, 0, 1, 600]);
    let stop = at != usize::MAX && ctx.flag();
    let log = format!("{blocks} blocks, the node {ahead} ahead, clear_buffers after {at}, stopped then: {stop}");
    ctx.note(|| log.clone());
    ctx.state(&(ahead, at, stop));
    let mut c = Consumer::default();
    let mut none = Budget { faults: 0, changes: 0, cancels: 0, clears: 0 };
    let mut cleared = false;
    while c.last != Some(blocks - 1) {
        for _ in 0..ahead {
            if cardano_net::waiting() == 0 {
                break;
            }
            cardano_net::permit();
            settle().await;
        }
        ctx.step();
        if c.seen.len() == at && !cleared {
            cleared = true;
            if stop {
                break;
            }
            s.clear_buffers();
            c.leave();
            c.at = w.borrow().attempts.len();
        }
        let from = c.from(&w.borrow(), Move::Next);
        let e = pull(ctx, &mut s, &w, from, &mut none, &log).await?.unwrap();
        let w = w.borrow();
        check(&w, &log)?;
        c.take(&w, e.as_ref(), &log)?;
    }
    let f = s.stop();
    let mut f = std::pin::pin!(f);
    for _ in 0..blocks + 10 {
        if poll(&mut f).await.is_some() {
            return Ok(End::Done);
        }
        settle().await;
        if cardano_net::waiting() > 0 {
            cardano_net::permit();
        }
    }
    Err(violation("stuck", format!("{log}; stopping does not come to an end")))
}

pub fn b08(tier: Tier) -> Vec<Scenario> {
    let p = Plan { initial: 3, steps: 4, faults: 0, changes: 0, cancels: 0, clears: 0, every_tip: false, boundaries: false };
    let plans = [
        ("chain changes", Plan { changes: tier.of(2, 3), steps: tier.of(4, 5), ..p }),
        ("failing exchanges", Plan { faults: tier.of(2, 3), steps: tier.of(4, 5), every_tip: true, ..p }),
        ("changes, faults and clearing", Plan { changes: 1, faults: 1, clears: 1, every_tip: true, steps: tier.of(4, 5), ..p }),
        ("clearing and giving up", Plan { changes: 1, cancels: tier.of(1, 2), clears: tier.of(1, 2), steps: tier.of(4, 5), ..p }),
        ("boundary blocks", Plan { initial: 4, changes: tier.of(2, 3), steps: tier.of(4, 5), boundaries: true, ..p }),
    ];
    let mut v: Vec<Scenario> = plans
        .into_iter()
        .map(|(name, p)| {
            Scenario::new(
                name,
                format!(
                    "every run of {} steps over a node with {} blocks: pulls from the last block, all blocks seen and the first block's parent, this parent, an unknown point; up to {} blocks added or forks, {} failed exchanges, {} pulls given up, {} buffers cleared, each at every exchange; a tip event {}{}",
                    p.steps, p.initial, p.changes, p.faults, p.cancels, p.clears, if p.every_tip { "with every range" } else { "at first" }, if p.boundaries { "; two epochs begin with boundary blocks" } else { "" }
                ),
                0,
                move |c: &mut Ctx| runtime(run(c, &p)),
            )
        })
        .collect();
    v.push(Scenario::new("more blocks than are buffered", "1200 blocks, the node 1, 2, 500 or 2000 exchanges ahead of the consumer, which clears its buffers or stops at three points or not".to_string(), 0, |c: &mut Ctx| runtime(long(c, 1200))));
    v
}
