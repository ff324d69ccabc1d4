//! B06: era arithmetic; B07: points.

use cardano_sdk::protocol::Point as Wire;
use dcspark_blockchain_source::cardano::{
    time::{epoch_slot_to_absolute_byron, Era},
    Point,
};
use dcspark_core::{BlockId, SlotNumber};
use mclib::{ensure, ensure_eq, violation, Ctx, End, RunResult, Scenario, Tier, Violation};

/// (network, first slot, first epoch, unix time of the first slot, seconds per slot, seconds per epoch, byron genesis)
const NETWORKS: [(&str, Era, [u64; 5], Option<u64>); 5] = [
    ("mainnet", Era::SHELLEY_MAINNET, [4492800, 208, 1596059091, 1, 432000], Some(1506203091)),
    ("testnet", Era::SHELLEY_TESTNET, [1598400, 74, 1595967616, 1, 432000], Some(1563999616)),
    ("preprod", Era::SHELLEY_PREPROD, [86400, 4, 1655769600, 1, 432000], Some(1654041600)),
    ("preview", Era::SHELLEY_PREVIEW, [0, 0, 1666656000, 1, 86400], None),
    ("sancho", Era::SHELLEY_SANCHO, [0, 0, 1686789000, 1, 86400], None),
];

fn params(e: &Era) -> [u64; 5] {
    [e.first_slot, e.start_epoch, e.known_time, e.slot_length, e.epoch_length_seconds]
}

/// everything asked about one slot, against exact arithmetic on `[first slot, first epoch, time, slot length, epoch length]`
fn slot(e: &Era, p: [u64; 5], slot: u64) -> Result<Option<(u64, u64, u64)>, Violation> {
    let [first, epoch0, time0, len, epoch_len] = p.map(u128::from);
    let got = (e.absolute_slot_to_epoch(slot), e.absolute_slot_to_relative(slot));
    let Some(n) = u128::from(slot).checked_sub(first) else {
        ensure_eq!(got, (None, None), "before the era", "slot {slot} of {p:?}");
        return Ok(None);
    };
    let per_epoch = epoch_len / len;
    let want = (epoch0 + n / per_epoch, n % per_epoch, time0 + n * len);
    ensure_eq!(got.0.map(u128::from), Some(want.0), "epoch", "slot {slot} of {p:?}");
    ensure_eq!(got.1.map(u128::from), Some(want.1), "slot of epoch", "slot {slot} of {p:?}");
    let time = e.compute_timestamp(slot);
    ensure_eq!(u128::from(time), want.2, "timestamp", "slot {slot} of {p:?}");
    Ok(Some((want.0 as u64, want.1 as u64, time)))
}

/// consecutive slots: the next slot of the epoch or the first of the next epoch, one slot length later
fn walk(ctx: &mut Ctx, e: &Era, from: u64, count: u64) -> RunResult {
    let p = params(e);
    let mut last = slot(e, p, from)?;
    for s in from + 1..=from + (count - 1) {
        let now = slot(e, p, s)?;
        match (last, now) {
            (Some((epoch, rel, time)), Some((epoch2, rel2, time2))) => {
                let next = (epoch, rel + 1) == (epoch2, rel2);
                let over = (epoch + 1, 0) == (epoch2, rel2) && (rel + 1) * p[3] == p[4];
                ensure!(next || over, "gap", "slot {} of {p:?} is {last:?}, slot {s} is {now:?}", s - 1);
                ensure!(time2 == time + p[3], "time gap", "slot {} of {p:?} is {last:?}, slot {s} is {now:?}", s - 1);
            }
            (None, Some(n)) => ensure!(s == p[0] && n == (p[1], 0, p[2]), "first slot", "slot {s} of {p:?} is {n:?}"),
            (None, None) => {}
            (Some(_), None) => return Err(violation("gap", format!("slot {s} of {p:?} has no epoch"))),
        }
        last = now;
        ctx.step();
    }
    ctx.state(&(p, from));
    Ok(End::Done)
}

fn network(ctx: &mut Ctx, epochs: u64) -> RunResult {
    let (name, e, p, byron) = &NETWORKS[ctx.choose(NETWORKS.len())];
    ctx.note(|| name.to_string());
    ensure_eq!(&params(e), p, "parameters", "{name}");
    if let Some(genesis) = byron {
        // the era starts where and when the twenty second slots before it end
        ensure_eq!(epoch_slot_to_absolute_byron(p[1], 0), p[0], "byron boundary", "{name}");
        ensure_eq!(epoch_slot_to_absolute_byron(p[1] - 1, 21599) + 1, p[0], "byron boundary", "{name}");
        ensure_eq!(genesis + p[0] * 20, p[2], "byron boundary", "{name}");
    }
    let epoch = ctx.choose(epochs as usize) as u64;
    let per = p[4] / p[3];
    // each piece overlaps the ones before and after it
    let from = (p[0] + epoch * per).saturating_sub(2);
    walk(ctx, e, from, per + 4)
}

fn synthetic(ctx: &mut Ctx, configs: (&[u64], &[u64])) -> RunResult {
    let first_slot = *ctx.pick(&[0, 1, 7, 4492800, u32::MAX as u64, 1 << 40]);
    let start_epoch = *ctx.pick(&[0u64, 1, 208, 1 << 32]);
    let known_time = *ctx.pick(&[0u64, 1596059091, 1 << 50]);
    let slot_length = *ctx.pick(configs.0);
    let per_epoch = *ctx.pick(configs.1);
    let e = Era { first_slot, start_epoch, known_time, slot_length, epoch_length_seconds: slot_length * per_epoch };
    ctx.note(|| format!("{e:?}"));
    // around the first slots, around far epoch boundaries, and the largest slots whose time can be told
    let most = (u64::MAX - known_time) / slot_length;
    let most = most.min(u64::MAX - first_slot).min(u64::MAX - start_epoch);
    match ctx.choose(4) {
        0 => walk(ctx, &e, first_slot.saturating_sub(3), per_epoch.min(500) * 3 + 6),
        1 => walk(ctx, &e, first_slot + 1_000_000 * per_epoch - 3, 8),
        2 => walk(ctx, &e, first_slot + most / per_epoch * per_epoch - 3, 4),
        _ => walk(ctx, &e, first_slot + most - 3, 4),
    }
}

fn byron(ctx: &mut Ctx, epochs: u64) -> RunResult {
    let epoch = ctx.choose(epochs as usize) as u64;
    for s in 0..21600 {
        let now = epoch_slot_to_absolute_byron(epoch, s);
        ensure_eq!(now, epoch * 21600 + s, "byron slot", "slot {s} of epoch {epoch}");
        ctx.step();
    }
    ensure_eq!(epoch_slot_to_absolute_byron(epoch, 21599) + 1, epoch_slot_to_absolute_byron(epoch + 1, 0), "byron gap", "end of epoch {epoch}");
    ctx.state(&epoch);
    Ok(End::Done)
}

fn configured(ctx: &mut Ctx) -> RunResult {
    let p: [u64; 5] = std::array::from_fn(|_| *ctx.pick(&[0, 1, 432000, u64::MAX]));
    let text = format!(r#"{{"first_slot":{},"start_epoch":{},"known_time":{},"slot_length":{},"epoch_length_seconds":{}}}"#, p[0], p[1], p[2], p[3], p[4]);
    ctx.step();
    let e: Era = serde_json::from_str(&text).map_err(|e| violation("configuration", format!("{text}: {e}")))?;
    ensure_eq!(params(&e), p, "configuration", "{text}");
    ctx.state(&p);
    Ok(End::Done)
}

pub fn b06(tier: Tier) -> Vec<Scenario> {
    let epochs = tier.of(8, 700);
    let lens: &'static [u64] = tier.of(&[1, 2, 20], &[1, 2, 3, 5, 20, 60, 1000]);
    let per: &'static [u64] = tier.of(&[1, 2, 5, 21600], &[1, 2, 3, 5, 7, 100, 21600, 432000]);
    vec![
        Scenario::new("networks", format!("every slot of the first {epochs} epochs of the five built-in networks, in order, against exact arithmetic on independently listed parameters"), 0, move |c: &mut Ctx| network(c, epochs)),
        Scenario::new(
            "synthetic eras",
            format!("6 first slots x 4 first epochs x 3 start times x slot lengths {lens:?} x slots per epoch {per:?}: every slot around the beginning, around a far epoch boundary and the largest ones"),
            0,
            move |c: &mut Ctx| synthetic(c, (lens, per)),
        ),
        Scenario::new("byron slots", format!("every slot of the first {} byron epochs", tier.of(40, 400)), 0, move |c: &mut Ctx| byron(c, tier.of(40, 400))),
        Scenario::new("configured eras", "every era written as a JSON configuration over 4 values per field", 0, configured),
    ]
}

// ---------------------------------------------------------------- points

const SLOTS: [u64; 7] = [0, 1, 4492800, u32::MAX as u64, 1 << 53, u64::MAX - 1, u64::MAX];

fn hashes() -> Vec<String> {
    let mut v = vec!["0".repeat(64), "f".repeat(64), "0123456789abcdef".repeat(4), "a".repeat(64)];
    // one digit different, at every position
    for i in 0..64 {
        for d in ["1", "e"] {
            let mut h = "0".repeat(64);
            h.replace_range(i..i + 1, d);
            v.push(h);
        }
    }
    v
}

fn points() -> Vec<Point> {
    let mut v = vec![Point::Origin];
    for h in hashes() {
        v.extend(SLOTS.map(|s| Point::BlockHeader { slot_nb: SlotNumber::new(s), hash: BlockId::new(h.clone()) }));
    }
    v
}

fn round_trip(ctx: &mut Ctx, all: &[Point]) -> RunResult {
    let p = ctx.pick(all).clone();
    ctx.note(|| format!("{p:?}"));
    ctx.step();
    let wire = Wire::try_from(p.clone()).map_err(|e| violation("conversion", format!("{p:?}: {e}")))?;
    match (&p, &wire) {
        (Point::Origin, Wire::Origin) => {}
        (Point::BlockHeader { slot_nb, hash }, Wire::BlockHeader { slot_nb: s, hash: h }) => {
            ensure!(u64::from(*slot_nb) == *s && hash.as_ref() == h.to_string(), "conversion", "{p:?} became {wire:?}");
        }
        _ => return Err(violation("conversion", format!("{p:?} became {wire:?}"))),
    }
    ensure_eq!(Point::from(wire.clone()), p, "conversion back", "through {wire:?}");
    let text = serde_json::to_string(&p).map_err(|e| violation("serialization", format!("{p:?}: {e}")))?;
    let back: Point = serde_json::from_str(&text).map_err(|e| violation("serialization", format!("{text}: {e}")))?;
    ensure_eq!(back, p, "serialization", "through {text}");
    let value = serde_json::to_value(&p).map_err(|e| violation("serialization", format!("{p:?}: {e}")))?;
    let back: Point = serde_json::from_value(value).map_err(|e| violation("serialization", format!("{p:?}: {e}")))?;
    ensure_eq!(back, p, "serialization", "through a JSON value");
    ctx.state(&text);
    Ok(End::Done)
}

fn distinct(ctx: &mut Ctx, all: &[Point]) -> RunResult {
    let (i, j) = (ctx.choose(all.len()), ctx.choose(all.len()));
    let (p, q) = (&all[i], &all[j]);
    ctx.note(|| format!("{p:?} and {q:?}"));
    ctx.step();
    ensure_eq!(p == q, i == j, "equality", "{p:?} == {q:?}");
    let wire = |p: &Point| Wire::try_from(p.clone()).map_err(|e| violation("conversion", format!("{p:?}: {e}")));
    ensure_eq!(wire(p)? == wire(q)?, i == j, "equality", "{p:?} and {q:?} as network points");
    let set: std::collections::HashSet<&Point> = [p, q].into();
    ensure_eq!(set.len(), 1 + usize::from(i != j), "hash", "{p:?} and {q:?} in a set");
    Ok(End::Done)
}

fn malformed(ctx: &mut Ctx, longest: usize) -> RunResult {
    let mut h = "5a".repeat(ctx.choose(34));
    for _ in 0..longest {
        h.push_str(ctx.pick(&["", "0", "A", "g", " ", "-", "é"]));
    }
    ctx.note(|| h.clone());
    ctx.step();
    let p = Point::BlockHeader { slot_nb: SlotNumber::new(5), hash: BlockId::new(h.clone()) };
    let good = h.len() == 64 && h.bytes().all(|b| b.is_ascii_hexdigit());
    let r = Wire::try_from(p);
    ensure_eq!(r.is_ok(), good, "malformed hash", "{h:?} gives {r:?}");
    if let Ok(w) = r {
        let want = Point::BlockHeader { slot_nb: SlotNumber::new(5), hash: BlockId::new(h.to_lowercase()) };
        ensure_eq!(Point::from(w), want, "upper case hash", "{h:?}");
    }
    ctx.state(&h);
    Ok(End::Done)
}

pub fn b07(tier: Tier) -> Vec<Scenario> {
    let all = points();
    let few: Vec<Point> = all.iter().step_by(tier.of(2, 1)).cloned().collect();
    let n = all.len();
    vec![
        Scenario::new("round trips", format!("{n} points: the origin, and 7 slots x hashes differing in one digit at every position"), 0, move |c: &mut Ctx| round_trip(c, &all)),
        Scenario::new("pairs", format!("all pairs of {} points", few.len()), 0, move |c: &mut Ctx| distinct(c, &few)),
        Scenario::new("malformed hashes", "every even length up to 66 digits followed by every text of up to 3 characters over 6, some of them not digits", 0, |c: &mut Ctx| malformed(c, 3)),
    ]
}
