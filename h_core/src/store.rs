use dcspark_core::tx::{TransactionAsset, TransactionId, UTxODetails, UtxoPointer};
use dcspark_core::*;
use mclib::{ensure, ensure_eq, violation, Ctx, End, RunResult, Scenario, Tier, Violation};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

const TOKENS: [&str; 3] = ["tokenA", "tokenB", "tokenC"];

fn asset(t: usize, q: u64) -> TransactionAsset {
    listed(t, Value::from(q))
}

fn listed(t: usize, quantity: Value<Regulated>) -> TransactionAsset {
    TransactionAsset {
        policy_id: PolicyId::new_static(["polA", "polB", "polC"][t]),
        asset_name: AssetName::new_static(["A", "B", "C"][t]),
        fingerprint: TokenId::new_static(TOKENS[t]),
        quantity,
    }
}

fn utxo(tx: &'static str, ix: u64, value: u64, assets: Vec<TransactionAsset>) -> UTxODetails {
    UTxODetails {
        pointer: UtxoPointer { transaction_id: TransactionId::new_static(tx), output_index: OutputIndex::new(ix) },
        address: Address::new_static("addr"),
        value: Value::from(value),
        assets,
        metadata: Arc::new(Default::default()),
        extra: None,
    }
}

/// The outputs an execution may insert: equal and different values, one or several tokens, a zero
/// value, a second output under an already used pointer, and one output listing a token twice.
fn universe() -> Vec<UTxODetails> {
    vec![
        utxo("t0", 0, 5, vec![]),
        utxo("t0", 1, 5, vec![asset(0, 1)]),
        utxo("t1", 0, 3, vec![asset(0, 1), asset(1, 2)]),
        utxo("t1", 1, 0, vec![asset(0, 3), asset(2, 0)]),
        utxo("t0", 1, 9, vec![asset(1, 7)]),
        utxo("t2", 0, 3, vec![asset(1, 2), asset(0, 2), asset(1, 5), asset(2, 4)]),
    ]
}

fn exact(text: &str) -> Value<Regulated> {
    text.parse().unwrap()
}

/// Numbers beyond 64 bits, with decimals, and one number written in several ways.
fn universe_numbers() -> Vec<UTxODetails> {
    let output = |tx, ix, value: &str, assets| UTxODetails { value: exact(value), ..utxo(tx, ix, 0, assets) };
    vec![
        output("t0", 0, "18446744073709551615", vec![listed(0, exact("18446744073709551615"))]),
        output("t0", 1, "18446744073709551616", vec![listed(0, exact("1")), listed(1, exact("0.5"))]),
        output("t1", 0, "36893488147419103230.5", vec![listed(0, exact("1.0"))]),
        output("t1", 1, "0.5", vec![listed(1, exact("0.50"))]),
        output("t0", 256, "18446744073709551615.0", vec![listed(1, exact("1e0")), listed(0, exact("99999999999999999999"))]),
        output("t10", 0, "10", vec![listed(0, exact("1.5"))]),
    ]
}

fn universe_disjoint() -> Vec<UTxODetails> {
    vec![
        utxo("t0", 0, 5, vec![asset(0, 1)]),
        utxo("t0", 1, 5, vec![asset(0, 1), asset(1, 2)]),
        utxo("t1", 0, 3, vec![asset(1, 2)]),
    ]
}

type Key = (String, u64);

fn key(p: &UtxoPointer) -> Key {
    (p.transaction_id.to_string(), p.output_index.into())
}

/// The reference: the outputs present, by pointer.
#[derive(Clone, Default, PartialEq, Eq, Hash, Debug)]
struct Model {
    present: BTreeMap<Key, usize>,
}

impl Model {
    fn total(&self, u: &[UTxODetails], t: Option<usize>) -> (Value<Regulated>, usize) {
        let mut sum: u128 = 0;
        let mut n = 0;
        for i in self.present.values() {
            if let Some(q) = qty(&u[*i], t) {
                sum += q;
                n += 1;
            }
        }
        (exact(&format!("{}.{}", sum / 10, sum % 10)), n)
    }
}

/// tenths of a value, read from its digits
fn tenths(v: &Value<Regulated>) -> u128 {
    let text = v.to_string();
    let (mantissa, exponent) = text.split_once(['e', 'E']).map_or((text.as_str(), 0i64), |(m, e)| (m, e.parse().unwrap()));
    let (whole, fraction) = mantissa.split_once('.').unwrap_or((mantissa, ""));
    let digits: u128 = format!("{whole}{fraction}").parse().unwrap();
    let shift = exponent - fraction.len() as i64 + 1;
    if shift < 0 { digits / 10u128.pow(-shift as u32) } else { digits * 10u128.pow(shift as u32) }
}

/// tenths of a token (None: main) in an output, if the output carries it
fn qty(u: &UTxODetails, t: Option<usize>) -> Option<u128> {
    match t {
        None => Some(tenths(&u.value)),
        Some(t) => {
            let all: Vec<_> = u.assets.iter().filter(|a| a.fingerprint.as_ref() == TOKENS[t]).collect();
            if all.is_empty() {
                None
            } else {
                Some(all.iter().map(|a| tenths(&a.quantity)).sum())
            }
        }
    }
}

fn token(t: Option<usize>) -> TokenId {
    t.map(|t| TokenId::new_static(TOKENS[t])).unwrap_or(TokenId::MAIN)
}

const ALL: [Option<usize>; 4] = [None, Some(0), Some(1), Some(2)];

fn check_totals(s: &UTxOStore, m: &Model, u: &[UTxODetails], all: &[UTxODetails]) -> Result<(), Violation> {
    ensure_eq!(s.len(), m.present.len(), "len", "number of outputs");
    ensure_eq!(s.is_empty(), m.present.is_empty(), "is_empty", "is_empty");
    for x in all {
        let want = m.present.get(&key(&x.pointer)).map(|i| &u[*i]);
        ensure_eq!(s.contains(&x.pointer), want.is_some(), "contains", "contains {}", x.pointer);
        ensure_eq!(s.get(&x.pointer), want, "get", "get {}", x.pointer);
    }
    let listed: BTreeSet<Key> = s.iter().map(|(p, _)| key(p)).collect();
    ensure_eq!(listed, m.present.keys().cloned().collect::<BTreeSet<_>>(), "iter", "outputs listed");
    ensure_eq!(s.iter().count(), m.present.len(), "iter", "outputs iterated");
    for t in ALL {
        let (sum, n) = m.total(u, t);
        let tok = token(t);
        ensure_eq!(s.number_utxos_for_token(&tok), n, "count", "outputs carrying {tok}");
        let got = s.get_balance_of(&tok);
        ensure_eq!(got.clone().unwrap_or_default(), sum, "balance", "total of {tok}");
        ensure!(got.is_some() || n == 0, "balance", "no total for {tok} although {n} outputs carry it");
        if let Some(ti) = t {
            ensure_eq!(s.contains_token(&tok), n > 0, "contains_token", "contains_token {tok}");
            if n > 0 {
                let a = asset(ti, 0);
                ensure_eq!(s.get_asset_ids(&tok), Some(&(a.policy_id, a.asset_name)), "asset_ids", "ids of {tok}");
            }
        }
    }
    Ok(())
}

fn check_mut(s: &UTxOStoreMut, m: &Model, u: &[UTxODetails]) -> Result<(), Violation> {
    ensure_eq!(s.balance(), m.total(u, None).0, "mut balance", "main total of the mutable store");
    for t in ALL {
        let (sum, _) = m.total(u, t);
        ensure_eq!(s.token_balance(&token(t)).unwrap_or_default(), sum, "mut token balance", "total of {}", token(t));
    }
    Ok(())
}

fn check_order(s: &UTxOStore, m: &Model, u: &[UTxODetails]) -> Result<(), Violation> {
    for t in ALL {
        let tok = token(t);
        let want: BTreeSet<Key> =
            m.present.iter().filter(|(_, i)| qty(&u[**i], t).is_some()).map(|(k, _)| k.clone()).collect();
        let asc: Vec<&UTxODetails> = s.iter_token_ordered_by_value(&tok).collect();
        let desc: Vec<&UTxODetails> = s.iter_token_ordered_by_value_rev(&tok).collect();
        let plain: Vec<&UTxODetails> = s.iter_token(&tok).map(|(_, d)| d.as_ref()).collect();
        for (name, list) in [("ascending", &asc), ("descending", &desc), ("unordered", &plain)] {
            let got: BTreeSet<Key> = list.iter().map(|d| key(&d.pointer)).collect();
            ensure_eq!(got, want, "listed for token", "{name} outputs of {tok}");
            ensure_eq!(list.len(), want.len(), "listed twice", "{name} list of {tok}");
            for d in list.iter() {
                let i = m.present[&key(&d.pointer)];
                ensure!(**d == u[i], "listed content", "{name} list of {tok} shows {:?}", d);
            }
        }
        for (name, list, flip) in [("ascending", &asc, false), ("descending", &desc, true)] {
            for w in list.windows(2) {
                let (a, b) = (qty(w[0], t), qty(w[1], t));
                let ok = if flip { a >= b } else { a <= b };
                ensure!(ok, "order", "{name} list of {tok}: {} ({a:?}) before {} ({b:?})", w[0].pointer, w[1].pointer);
            }
        }
    }
    let main: Vec<u128> = s.iter_ordered_by_wmain().map(|d| qty(d, None).unwrap()).collect();
    ensure_eq!(main.len(), m.present.len(), "wmain", "iter_ordered_by_wmain");
    ensure!(main.windows(2).all(|w| w[0] <= w[1]), "wmain order", "iter_ordered_by_wmain: {main:?}");
    Ok(())
}

enum Op {
    Insert(usize),
    Remove(usize),
}

fn apply(ctx: &mut Ctx, s: &mut UTxOStoreMut, m: &mut Model, u: &[UTxODetails], op: Op) -> Result<(), Violation> {
    ctx.step();
    match op {
        Op::Insert(i) => {
            let r = s.insert(u[i].clone());
            ctx.note(|| format!("insert #{i} {} -> {}", u[i].pointer, if r.is_ok() { "ok" } else { "error" }));
            let k = key(&u[i].pointer);
            let free = !m.present.contains_key(&k);
            ensure_eq!(r.is_ok(), free, "insert result", "insert {}", u[i].pointer);
            if free {
                m.present.insert(k, i);
            }
        }
        Op::Remove(i) => {
            let r = s.remove(&u[i].pointer);
            ctx.note(|| format!("remove {} -> {}", u[i].pointer, if r.is_ok() { "ok" } else { "error" }));
            let was = m.present.remove(&key(&u[i].pointer)).is_some();
            ensure_eq!(r.is_ok(), was, "remove result", "remove {}", u[i].pointer);
        }
    }
    Ok(())
}

#[derive(Clone, Copy, PartialEq)]
enum What {
    Totals,
    Order,
}

fn history(ctx: &mut Ctx, depth: usize, what: What, u: &[UTxODetails]) -> RunResult {
    // one output for every pointer
    let removable: Vec<usize> = (0..u.len()).filter(|i| u[..*i].iter().all(|x| x.pointer != u[*i].pointer)).collect();
    let mut s = UTxOStore::new().thaw();
    let mut m = Model::default();
    for _ in 0..depth {
        let c = ctx.choose(u.len() + removable.len());
        let op = if c < u.len() { Op::Insert(c) } else { Op::Remove(removable[c - u.len()]) };
        apply(ctx, &mut s, &mut m, u, op)?;
        s = check_step(s, &m, u, what)?;
        ctx.state(&m);
    }
    ctx.outcome(&m);
    Ok(End::Done)
}

fn check_step(s: UTxOStoreMut, m: &Model, u: &[UTxODetails], what: What) -> Result<UTxOStoreMut, Violation> {
    if what == What::Totals {
        check_mut(&s, m, u)?;
    }
    let f = s.freeze();
    match what {
        What::Totals => check_totals(&f, m, u, u)?,
        What::Order => check_order(&f, m, u)?,
    }
    Ok(f.thaw())
}

/// Many outputs in and out again, in regular patterns.
fn bulk(ctx: &mut Ctx, sizes: &[usize], what: What) -> RunResult {
    let n = *ctx.pick(sizes);
    let pattern = ctx.choose(5);
    let order = ctx.choose(4);
    let amount = |i: usize| match pattern {
        0 => 7,
        1 => i as u64,
        2 => (n - i) as u64,
        3 => [4, 9][i % 2],
        _ => (i as u64 * 37) % 11,
    };
    let u: Vec<UTxODetails> = (0..n)
        .map(|i| {
            let assets = (0..3).filter(|t| (i >> t) % 2 == 1).map(|t| asset(t, amount(i) + t as u64)).collect();
            utxo(["t0", "t1", "t2", "t3"][i % 4], i as u64 / 4, amount(i), assets)
        })
        .collect();
    let mut s = UTxOStore::new().thaw();
    let mut m = Model::default();
    for i in 0..n {
        apply(ctx, &mut s, &mut m, &u, Op::Insert(i))?;
        s = check_step(s, &m, &u, what)?;
    }
    for j in 0..n {
        let i = match order {
            0 => j,
            1 => n - 1 - j,
            2 => if 2 * j < n { 2 * j } else { 2 * (j - (n + 1) / 2) + 1 },
            _ => if j % 2 == 0 { n / 2 + j / 2 } else { n / 2 - 1 - j / 2 },
        };
        apply(ctx, &mut s, &mut m, &u, Op::Remove(i))?;
        s = check_step(s, &m, &u, what)?;
        ctx.state(&(n, pattern, order, j));
    }
    ensure!(m.present.is_empty(), "machinery", "outputs {:?} are left", m.present);
    ctx.outcome(&(n, pattern, order));
    Ok(End::Done)
}

fn snapshots(ctx: &mut Ctx, depth: usize) -> RunResult {
    let u = universe_disjoint();
    let mut cur = UTxOStore::new().thaw();
    let mut cur_m = Model::default();
    let mut snaps: Vec<(UTxOStore, Model)> = vec![(UTxOStore::new(), Model::default())];
    for _ in 0..depth {
        let n = 2 * u.len() + 1 + snaps.len();
        let c = ctx.choose(n);
        if c < u.len() {
            apply(ctx, &mut cur, &mut cur_m, &u, Op::Insert(c))?;
        } else if c < 2 * u.len() {
            apply(ctx, &mut cur, &mut cur_m, &u, Op::Remove(c - u.len()))?;
        } else if c == 2 * u.len() {
            ctx.step();
            // release the current store as a snapshot and go on from a thawed copy of a clone of it
            let f = cur.freeze();
            ctx.note(|| format!("freeze -> snapshot {}", snaps.len()));
            cur = f.clone().thaw();
            snaps.push((f, cur_m.clone()));
            if snaps.len() > 3 {
                snaps.remove(0);
            }
        } else {
            ctx.step();
            let i = c - 2 * u.len() - 1;
            ctx.note(|| format!("thaw snapshot {i}"));
            cur = snaps[i].0.thaw();
            cur_m = snaps[i].1.clone();
        }
        for (i, (s, m)) in snaps.iter().enumerate() {
            let r = check_totals(s, m, &u, &u).and_then(|()| check_order(s, m, &u));
            if let Err(v) = r {
                return Err(violation(format!("snapshot: {}", v.sig), format!("snapshot {i}: {}", v.msg)));
            }
        }
        check_mut(&cur, &cur_m, &u)?;
        ctx.state(&(&cur_m, snaps.iter().map(|s| &s.1).collect::<Vec<_>>()));
    }
    let f = cur.freeze();
    check_totals(&f, &cur_m, &u, &u)?;
    check_order(&f, &cur_m, &u)?;
    ctx.outcome(&(&cur_m, snaps.iter().map(|s| &s.1).collect::<Vec<_>>()));
    Ok(End::Done)
}

fn histories(t: Tier, what: What, compared: &str) -> Vec<Scenario> {
    let d = t.of(5, 6);
    let few = t.of(vec![1, 2, 3, 5, 16, 31, 32, 33, 34, 70], (1..=80).collect::<Vec<_>>());
    vec![
        Scenario::new(
            "histories",
            format!("all sequences of {d} inserts/removals over 6 outputs on 5 pointers; {compared} after every step"),
            0,
            move |c| history(c, d, what, &universe()),
        ),
        Scenario::new(
            "numbers",
            format!("all sequences of {d} inserts/removals over 6 outputs with numbers beyond 64 bits, with decimals, and of several representations; {compared} after every step"),
            0,
            move |c| history(c, d, what, &universe_numbers()),
        ),
        Scenario::new(
            "many outputs",
            format!("{few:?} outputs with 5 patterns of quantities, inserted and then removed in 4 orders; {compared} after every step"),
            0,
            move |c| bulk(c, &few, what),
        ),
    ]
}

pub fn c01(t: Tier) -> Vec<Scenario> {
    histories(t, What::Totals, "membership, content, totals and counts compared with a map")
}

pub fn c02(t: Tier) -> Vec<Scenario> {
    histories(t, What::Order, "per-token listings compared with a map")
}

pub fn c03(t: Tier) -> Vec<Scenario> {
    let d = t.of(6, 7);
    vec![Scenario::new(
        "snapshots",
        format!("all sequences of {d} inserts/removals/freezes/thaws over 3 outputs and up to 3 live snapshots, all of them re-read after every step"),
        0,
        move |c| snapshots(c, d),
    )]
}
