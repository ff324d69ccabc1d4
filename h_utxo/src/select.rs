//! S01 to S04: largest-first and random-improve selection, and the bookkeeping of every selector.

use crate::common::*;
use dcspark_core::tx::{UTxOBuilder, UTxODetails};
use dcspark_core::{Address, UTxOStore};
use mclib::{ensure, ensure_eq, violation, Ctx, End, RunResult, Scenario, Tier, Violation};
use utxo_selection::algorithms::*;
use utxo_selection::*;

#[derive(Clone, Copy)]
struct Space {
    inputs: &'static [Bag],
    most_inputs: usize,
    outputs: &'static [Bag],
    most_outputs: usize,
    fixed: &'static [Bag],
    /// base fee, fee of an input, more for odd ones
    fees: &'static [(u64, u64, u64)],
    units: &'static [Unit],
}

impl Space {
    fn text(&self) -> String {
        format!(
            "every multiset of up to {} inputs of {}, up to {} outputs of {}, with and without a fixed input of {}, fees (base, per input, more per odd input) {:?}, all amounts in units of {:?}",
            self.most_inputs,
            show(self.inputs),
            self.most_outputs,
            show(self.outputs),
            show(self.fixed),
            self.fees,
            self.units
        )
    }
}

struct Case {
    available: Vec<UTxODetails>,
    fixed: Vec<UTxODetails>,
    outputs: Vec<UTxOBuilder>,
    fees: Fees,
    what: String,
}

fn case(ctx: &mut Ctx, s: &Space) -> Case {
    let unit = *ctx.pick(s.units);
    set_unit(unit);
    let i = bags(ctx, s.inputs, 0, s.most_inputs);
    let o = bags(ctx, s.outputs, 0, s.most_outputs);
    let f = bags(ctx, s.fixed, 0, 1);
    let (base, per, odd) = *ctx.pick(s.fees);
    let what = format!("inputs {}; outputs {}; fixed inputs {}; fees {base} + {per} per input, {odd} more when odd; in units of {unit}", show(&i), show(&o), show(&f));
    ctx.note(|| what.clone());
    ctx.step();
    ctx.state(&(&i, &o, &f, base, per, odd, unit));
    Case { available: inputs(&i, 0), fixed: inputs(&f, 9), outputs: outputs(&o), fees: Fees::new(base, per, odd, 0, 0), what }
}

const MANY: &[Bag] = &[(1, &[]), (3, &[(0, 1)]), (2, &[(0, 2), (1, 1)])];

/// many inputs of few kinds, and one output of any amount
fn many(ctx: &mut Ctx, most: usize) -> Case {
    set_unit(UNITS[0]);
    let mut v: Vec<Bag> = vec![];
    let mut all = (0, 0);
    for b in MANY {
        for _ in 0..ctx.choose(most + 1) {
            v.push(*b);
            all.0 += b.0;
            all.1 += b.1.first().map_or(0, |a| a.1);
        }
    }
    let main = ctx.choose(all.0 as usize + 2) as u64;
    let token = [0, 1, 2, all.1 / 2, all.1, all.1 + 1][ctx.choose(6)];
    let fees = Fees::new(0, 0, ctx.choose(2) as u64, 0, 0);
    let mut to = output((main, &[]));
    if token > 0 {
        to.assets.push(asset(0, token));
    }
    let what = format!("inputs {}; an output of {main} and {token} A; {} per odd input", show(&v), fees.odd);
    ctx.note(|| what.clone());
    ctx.step();
    ctx.state(&(&v, main, token, fees.odd));
    Case { available: inputs(&v, 0), fixed: vec![], outputs: vec![to], fees, what }
}

const SIZES: &[usize] = &[9, 17, 33, 70];
const COUNTS: &[usize] = &[1, 9, 20];
const CROWD: &str = "9, 17, 33 or 70 inputs of 2 sizes and none to 40 tokens, 1, 9 or 20 outputs that ask for none, a third, most or all of the coins, and for none, a third, all or more of the tokens";

fn among_many(ctx: &mut Ctx, kinds: &[usize]) -> Case {
    let c = crowd(ctx, SIZES, kinds, COUNTS);
    let (base, per, odd) = *ctx.pick(&FEES[1..]);
    let what = format!("{}; fees {base} + {per} per input, {odd} more when odd", c.what);
    Case { available: c.inputs, fixed: vec![], outputs: c.outputs, fees: Fees::new(base, per, odd, 0, 0), what }
}

impl Case {
    fn setup(&self) -> Setup {
        Setup::from_fixed_inputs_and_outputs(self.fixed.clone(), self.outputs.clone(), Some(Address::new_static(CHANGE)))
    }
    /// what the available inputs taken together leave over
    fn everything(&self) -> Result<Sum, Violation> {
        let mut s = Sum::inputs(self.fixed.iter().chain(&self.available))?.minus(&Sum::outputs(&self.outputs)?);
        let fee = self.fees.base() + self.available.iter().map(|i| self.fees.of_input(i)).sum::<i128>();
        s.add(&main_token(), -fee);
        Ok(s)
    }
}

/// a selection that succeeded
fn sound(c: &Case, after: &Fees, r: &Selected) -> Result<(), Violation> {
    let what = &c.what;
    from_available(&r.chosen_inputs, &c.available, what)?;
    ensure_eq!(r.fixed_inputs, c.fixed, "fixed inputs", "{what}");
    ensure_eq!(r.fixed_outputs, c.outputs, "fixed outputs", "{what}");
    ensure!(r.changes.is_empty(), "changes", "{what}: {:?}", r.changes);
    let (i, o) = sums(r, what)?;
    let fee = c.fees.base() + r.chosen_inputs.iter().map(|i| c.fees.of_input(i)).sum::<i128>();
    ensure_eq!(num(&r.fee)?, fee, "fee", "{what}: chosen {:?}", r.chosen_inputs.iter().map(pointer).collect::<Vec<_>>());
    let told: std::collections::BTreeSet<String> = after.inputs.iter().map(pointer).collect();
    let chosen: std::collections::BTreeSet<String> = r.chosen_inputs.iter().map(pointer).collect();
    ensure!(told == chosen && after.inputs.len() == told.len(), "estimator", "{what}: the estimator was told of {told:?}, chosen are {chosen:?}");
    let mut left = i.minus(&o);
    left.add(&main_token(), -fee);
    ensure!(left.short().is_none(), "not covered", "{what}: chosen {chosen:?}, left over {left:?}");
    Ok(())
}

// ---------------------------------------------------------------- largest first

fn largest(ctx: &mut Ctx, c: Case, seeds: usize, s02: bool) -> RunResult {
    let seed = ctx.choose(seeds) as u64;
    seeded(seed, || {
        let mut l = LargestFirst::try_from(c.available.clone()).map_err(|e| violation("error", format!("{}: {e}", c.what)))?;
        let mut fees = c.fees.clone();
        let r = l.select_inputs(&mut fees, c.setup());
        ctx.outcome(&r.as_ref().map(|r| r.chosen_inputs.iter().map(pointer).collect::<Vec<_>>()).map_err(|e| e.to_string()));
        if !s02 {
            if let Ok(r) = &r {
                sound(&c, &fees, r)?;
            }
        } else {
            match &r {
                Err(e) => ensure!(c.everything()?.short().is_some(), "needless failure", "{}: {e}, although all inputs taken together leave {:?}", c.what, c.everything()?),
                Ok(r) => greedy(&c, r)?,
            }
        }
        Ok(End::Done)
    })
}

/// the chosen inputs are, for some order of the tokens, in turn the largest left of a token still short
fn greedy(c: &Case, r: &Selected) -> Result<(), Violation> {
    let need = Sum::outputs(&c.outputs)?;
    let orders: &[[usize; 2]] = &[[0, 1], [1, 0]];
    let mut why = String::new();
    for order in orders {
        match follow(c, r, &need, order)? {
            None => return Ok(()),
            Some(w) => why = w,
        }
    }
    let chosen: Vec<String> = r.chosen_inputs.iter().map(pointer).collect();
    Err(violation("not largest first", format!("{}: chosen {chosen:?}: {why}", c.what)))
}

fn follow(c: &Case, r: &Selected, need: &Sum, order: &[usize; 2]) -> Result<Option<String>, Violation> {
    let mut left: Vec<&UTxODetails> = c.available.iter().collect();
    let mut have = Sum::inputs(&c.fixed)?;
    let mut fee = c.fees.base();
    let mut next = r.chosen_inputs.iter();
    let main = main_token();
    for token in order.iter().map(|t| token(*t)).chain([main.clone()]) {
        loop {
            let want = need.of(&token) + if token == main { fee } else { 0 };
            if have.of(&token) >= want {
                break;
            }
            let Some(i) = next.next() else { return Ok(Some(format!("{token} is not covered"))) };
            let amount = |i: &UTxODetails| Ok(Sum::inputs([i])?.of(&token));
            let most = left.iter().map(|i| amount(i)).collect::<Result<Vec<_>, Violation>>()?.into_iter().max();
            if Some(amount(i)?) != most {
                return Ok(Some(format!("{} has {} of {token}, the largest left has {most:?}", pointer(i), amount(i)?)));
            }
            left.retain(|l| l.pointer != i.pointer);
            fee += c.fees.of_input(i);
            for (t, n) in Sum::inputs([i])?.0 {
                have.add(&t, n);
            }
        }
    }
    Ok(next.next().map(|i| format!("{} is taken although everything was covered", pointer(i))))
}

const INPUTS: &[Bag] = &[(1, &[]), (3, &[]), (10, &[]), (1, &[(0, 1)]), (4, &[(0, 3)]), (2, &[(1, 2)]), (3, &[(0, 1), (1, 1)]), (0, &[(0, 2)])];
const MORE_INPUTS: &[Bag] = &[(1, &[]), (3, &[]), (10, &[]), (1, &[(0, 1)]), (4, &[(0, 3)]), (2, &[(1, 2)]), (3, &[(0, 1), (1, 1)]), (0, &[(0, 2)]), (2, &[(0, 1), (0, 2)]), (6, &[(1, 0)])];
const OUTPUTS: &[Bag] = &[(1, &[]), (4, &[]), (9, &[]), (1, &[(0, 2)]), (2, &[(1, 1)]), (0, &[(0, 1), (1, 2)])];
const FIXED: &[Bag] = &[(2, &[(0, 1)])];
const FEES: &[(u64, u64, u64)] = &[(0, 0, 0), (1, 0, 0), (2, 1, 1)];

pub fn largest_first(tier: Tier, s02: bool) -> Vec<Scenario> {
    let mut v = vec![];
    let seeds = tier.of(2, 4);
    let space = |inputs, most_inputs, most_outputs, fixed, fees, units| Space { inputs, most_inputs, outputs: OUTPUTS, most_outputs, fixed, fees, units };
    let big: &[Unit] = &UNITS[1..];
    let spaces = tier.of(
        vec![space(MORE_INPUTS, 3, 2, FIXED, FEES, &UNITS), space(MORE_INPUTS, 4, 1, FIXED, &[(2, 1, 1)], &UNITS[..1]), space(&INPUTS[..6], 5, 1, &[], FEES, big)],
        vec![space(MORE_INPUTS, 4, 3, FIXED, FEES, &UNITS), space(MORE_INPUTS, 6, 2, &[], &[(2, 1, 1)], &UNITS[..1]), space(INPUTS, 7, 1, &[], FEES, big)],
    );
    for (n, s) in spaces.into_iter().enumerate() {
        v.push(Scenario::new(format!("space {n}"), format!("{}; {seeds} hash orders", s.text()), 0, move |c: &mut Ctx| {
            let c1 = case(c, &s);
            largest(c, c1, seeds, s02)
        }));
    }
    let most = tier.of(6, 12);
    v.push(Scenario::new("many", format!("up to {most} of each of {}, an output of any amount up to all of them and of any number of a token; {seeds} hash orders", show(MANY)), 0, move |c: &mut Ctx| {
        let c1 = many(c, most);
        largest(c, c1, seeds, s02)
    }));
    v.push(Scenario::new("crowds", format!("{CROWD}; 2 fee schemes"), 0, move |c: &mut Ctx| {
        let c1 = among_many(c, if s02 { &[0, 1, 2] } else { &[0, 2, 7, 40] });
        largest(c, c1, 1, s02)
    }));
    v
}

pub fn s01(tier: Tier) -> Vec<Scenario> {
    largest_first(tier, false)
}
pub fn s02(tier: Tier) -> Vec<Scenario> {
    largest_first(tier, true)
}

// ---------------------------------------------------------------- random improve

fn draws<T>(ctx: &mut Ctx, body: impl FnOnce() -> T) -> T {
    mc_rand::with(&mut |n| ctx.choose(n), body)
}

/// some sequences of draws, where there are too many for all of them
fn patterns<T>(pattern: usize, body: impl FnOnce() -> T) -> T {
    let mut turn = 0;
    let draw = &mut |n: usize| {
        turn += 1;
        match pattern {
            0 => 0,
            1 => n - 1,
            2 => (turn * 7) % n,
            _ => n / 2,
        }
    };
    mc_rand::with(draw, body)
}

fn random_crowd(ctx: &mut Ctx) -> RunResult {
    let c = among_many(ctx, &[0, 2, 7, 40]);
    let pattern = ctx.choose(4);
    seeded(0, || {
        let mut r = RandomImprove::try_from(c.available.clone()).map_err(|e| violation("error", format!("{}: {e}", c.what)))?;
        let mut fees = c.fees.clone();
        if let Ok(done) = patterns(pattern, || r.select_inputs(&mut fees, c.setup())) {
            sound(&c, &fees, &done)?;
        }
        Ok(End::Done)
    })
}

fn random(ctx: &mut Ctx, s: &Space, seed: u64) -> RunResult {
    let c = case(ctx, s);
    seeded(seed, || {
    let mut r = RandomImprove::try_from(c.available.clone()).map_err(|e| violation("error", format!("{}: {e}", c.what)))?;
    let mut fees = c.fees.clone();
    let done = draws(ctx, || r.select_inputs(&mut fees, c.setup()));
    ctx.outcome(&done.as_ref().map(|r| r.chosen_inputs.iter().map(pointer).collect::<Vec<_>>()).map_err(|e| e.to_string()));
    if let Ok(done) = &done {
        ctx.note(|| format!("chosen {:?}", done.chosen_inputs.iter().map(pointer).collect::<Vec<_>>()));
        sound(&c, &fees, done)?;
    }
    Ok(End::Done)
    })
}

const RANDOM_INPUTS: &[Bag] = &[(1, &[]), (4, &[]), (11, &[]), (1, &[(0, 1)]), (5, &[(0, 3)]), (2, &[(0, 1), (1, 2)])];
const RANDOM_OUTPUTS: &[Bag] = &[(2, &[]), (3, &[]), (1, &[(0, 1)]), (2, &[(0, 2)]), (0, &[(0, 1), (1, 1)]), (0, &[]), (1, &[(0, 1), (0, 1)])];

// in fractions, of which the whole parts tell little
const PARTS: &[Bag] = &[(1, &[(0, 2)]), (1, &[(0, 4)]), (1, &[(0, 11)]), (5, &[])];
const WHOLE: &[Bag] = &[(1, &[(0, 3)]), (2, &[(0, 5)])];

pub fn s03(tier: Tier) -> Vec<Scenario> {
    let space = |most_inputs, most_outputs, fixed, fees, units| Space { inputs: RANDOM_INPUTS, most_inputs, outputs: RANDOM_OUTPUTS, most_outputs, fixed, fees, units };
    let spaces = tier.of(
        vec![space(3, 2, FIXED, FEES, &UNITS), space(4, 2, FIXED, &FEES[2..], &UNITS[..1]), space(5, 1, &[], &FEES[2..], &UNITS[..1])],
        vec![space(4, 2, FIXED, FEES, &UNITS), space(4, 3, &[], &FEES[1..], &UNITS[..1]), space(5, 2, &[], &FEES[2..], &UNITS[..1]), space(6, 1, &[], &FEES[2..], &UNITS[..1])],
    );
    let mut spaces = spaces;
    spaces.push(Space { inputs: PARTS, most_inputs: tier.of(4, 5), outputs: WHOLE, most_outputs: 2, fixed: &[], fees: &FEES[..1], units: &[Unit(6, 1), Unit(37, 2)] });
    spaces.into_iter().enumerate().map(|(n, s)| Scenario::new(format!("space {n}"), format!("{}; every outcome of every draw", s.text()), 0, move |c: &mut Ctx| random(c, &s, 0))).chain([Scenario::new("crowds", format!("{CROWD}; 2 fee schemes, 4 patterns of draws"), 0, random_crowd)]).collect()
}

// ---------------------------------------------------------------- bookkeeping

trait Selector {
    fn set(&mut self, to: Vec<UTxODetails>, store: bool) -> anyhow::Result<()>;
    fn select(&mut self, f: &mut Fees, s: Setup) -> anyhow::Result<Selected>;
    fn available(&mut self) -> anyhow::Result<(Vec<UTxODetails>, Option<Vec<UTxODetails>>)>;
}

fn store(v: Vec<UTxODetails>) -> anyhow::Result<UTxOStore> {
    let mut s = UTxOStore::new().thaw();
    for u in v {
        s.insert(u)?;
    }
    Ok(s.freeze())
}

macro_rules! with_store {
    ($($t:ty)*) => {$(
        impl Selector for $t {
            fn set(&mut self, to: Vec<UTxODetails>, as_store: bool) -> anyhow::Result<()> {
                if as_store { self.set_available_utxos(store(to)?) } else { self.set_available_inputs(to) }
            }
            fn select(&mut self, f: &mut Fees, s: Setup) -> anyhow::Result<Selected> { self.select_inputs(f, s) }
            fn available(&mut self) -> anyhow::Result<(Vec<UTxODetails>, Option<Vec<UTxODetails>>)> {
                let v = self.get_available_utxos()?.iter().map(|(_, u)| u.as_ref().clone()).collect();
                Ok((self.available_inputs(), Some(v)))
            }
        }
    )*};
}
with_store!(LargestFirst Thermostat FeeChangeBalancer SingleOutputChangeBalancer);

impl Selector for RandomImprove {
    fn set(&mut self, to: Vec<UTxODetails>, _: bool) -> anyhow::Result<()> {
        self.set_available_inputs(to)
    }
    fn select(&mut self, f: &mut Fees, s: Setup) -> anyhow::Result<Selected> {
        self.select_inputs(f, s)
    }
    fn available(&mut self) -> anyhow::Result<(Vec<UTxODetails>, Option<Vec<UTxODetails>>)> {
        Ok((self.available_inputs(), None))
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Largest,
    Random,
    Thermostat,
    FeeChange,
    SingleChange,
}

fn selector(k: Kind, v: Vec<UTxODetails>, as_store: bool) -> anyhow::Result<Box<dyn Selector>> {
    Ok(match (k, as_store) {
        (Kind::Largest, true) => Box::new(LargestFirst::try_from(store(v)?)?),
        (Kind::Largest, false) => Box::new(LargestFirst::try_from(v)?),
        (Kind::Random, true) => Box::new(RandomImprove::try_from(store(v)?)?),
        (Kind::Random, false) => Box::new(RandomImprove::try_from(v)?),
        _ => {
            let mut s: Box<dyn Selector> = match k {
                Kind::Thermostat => Box::new(Thermostat::new(crate::balance::thermostat_config(1, 3, 8))),
                Kind::FeeChange => Box::new(FeeChangeBalancer::default()),
                _ => Box::new(SingleOutputChangeBalancer::default()),
            };
            s.set(v, as_store)?;
            s
        }
    })
}

fn set_of(v: &[UTxODetails]) -> Vec<String> {
    let mut v: Vec<String> = v.iter().map(|u| format!("{u:?}")).collect();
    v.sort();
    v
}

const SETS: [&[Bag]; 3] = [&[(3, &[]), (5, &[]), (2, &[(0, 2)])], &[(7, &[]), (2, &[(0, 1)]), (2, &[(1, 1)]), (1, &[])], &[]];
const ASKED: [&[Bag]; 5] = [&[(2, &[])], &[(6, &[])], &[(1, &[(0, 1)])], &[(100, &[])], &[(1, &[]), (1, &[(0, 9)])]];

fn bookkeeping(ctx: &mut Ctx, k: Kind, steps: usize) -> RunResult {
    set_unit(UNITS[0]);
    let mut error = |e: anyhow::Error| violation("error", format!("{e}"));
    // sets differ in their transactions, so that an input of another set is told apart
    let (first, as_store) = (ctx.choose(2), ctx.flag());
    let mut left = inputs(SETS[first], first as u64);
    let mut last = left.clone();
    let mut s = selector(k, left.clone(), as_store).map_err(&mut error)?;
    ctx.note(|| format!("available {} (as a store: {as_store})", show(SETS[first])));
    for step in 0..steps {
        let m = ctx.choose(ASKED.len() + SETS.len() + 2);
        ctx.step();
        let what;
        if m < ASKED.len() {
            let fee = 1;
            let setup = Setup::from_fixed_inputs_and_outputs(vec![], outputs(ASKED[m]), Some(Address::new_static(CHANGE)));
            let mut fees = Fees { max_size: 2, ..Fees::new(fee, fee, 0, 1, 0) };
            let r = draws(ctx, || s.select(&mut fees, setup));
            what = format!("step {step}: asked for {}: {:?}", show(ASKED[m]), r.as_ref().map(|r| r.chosen_inputs.iter().map(pointer).collect::<Vec<_>>()).map_err(|e| e.to_string()));
            if let Ok(r) = &r {
                from_available(&r.chosen_inputs, &left, &what)?;
                left.retain(|l| !r.chosen_inputs.contains(l));
            }
            if k == Kind::Largest {
                let mut all = Sum::inputs(&left)?.minus(&Sum::outputs(&outputs(ASKED[m]))?);
                all.add(&main_token(), -(1 + left.len() as i128));
                ensure!(r.is_ok() || all.short().is_some(), "needless failure", "{what}; available {:?}", left.iter().map(pointer).collect::<Vec<_>>());
            }
        } else if m <= ASKED.len() + SETS.len() {
            // another set, or the last one once more
            let to = SETS.get(m - ASKED.len());
            if let Some(to) = to {
                last = inputs(to, (10 + step) as u64);
            }
            left = last.clone();
            let as_store = ctx.flag();
            what = format!("step {step}: available are now {} (as a store: {as_store})", to.map_or("the same once more".into(), |to| show(to)));
            s.set(left.clone(), as_store).map_err(&mut error)?;
        } else {
            // everything that is available can be had
            let total = Sum::inputs(&left)?.main();
            what = format!("step {step}: asked for all of {total}");
            if matches!(k, Kind::Largest | Kind::Random) && total > 0 {
                let setup = Setup::from_fixed_inputs_and_outputs(vec![], vec![UTxOBuilder::new(Address::new_static("to"), dcspark_core::Value::from(total as u64), vec![])], None);
                let mut fees = Fees::new(0, 0, 0, 0, 0);
                let r = draws(ctx, || s.select(&mut fees, setup)).map_err(|e| violation("not selectable", format!("{what}: {e}")))?;
                ensure_eq!(set_of(&r.chosen_inputs), set_of(&left), "not selectable", "{what}");
                left.clear();
            }
        }
        ctx.note(|| what.clone());
        let (a, b) = s.available().map_err(&mut error)?;
        ensure_eq!(set_of(&a), set_of(&left), "available", "{what}");
        if let Some(b) = b {
            ensure_eq!(set_of(&b), set_of(&left), "available", "{what}");
        }
        ctx.state(&(k as u8, set_of(&left)));
    }
    Ok(End::Done)
}

/// selections from many inputs, one after another until one fails
fn bookkeeping_crowd(ctx: &mut Ctx, k: Kind) -> RunResult {
    let c = crowd(ctx, &[17, 70], &[0, 7, 40], &COUNTS[1..]);
    let (as_store, pattern) = (ctx.flag(), if k == Kind::Random { ctx.choose(4) } else { 0 });
    let parts = *ctx.pick(&[1, 4, 20]);
    seeded(1, || {
        let mut error = |e: anyhow::Error| violation("error", format!("{e}"));
        let mut left = c.inputs.clone();
        let mut s = selector(k, left.clone(), as_store).map_err(&mut error)?;
        for (round, asked) in c.outputs.chunks(c.outputs.len().div_ceil(parts)).enumerate() {
            let setup = Setup::from_fixed_inputs_and_outputs(vec![], asked.to_vec(), Some(Address::new_static(CHANGE)));
            let mut fees = Fees { max_size: 50, ..Fees::new(1, 1, 0, 1, 0) };
            let r = patterns(pattern, || s.select(&mut fees, setup));
            let what = format!("{}; as a store: {as_store}; selection {round}, of {} outputs", c.what, asked.len());
            let done = r.is_ok();
            if let Ok(r) = r {
                from_available(&r.chosen_inputs, &left, &what)?;
                left.retain(|l| !r.chosen_inputs.contains(l));
            }
            let (a, b) = s.available().map_err(&mut error)?;
            ensure_eq!(set_of(&a), set_of(&left), "available", "{what}");
            if let Some(b) = b {
                ensure_eq!(set_of(&b), set_of(&left), "available", "{what}");
            }
            if !done {
                break;
            }
        }
        Ok(End::Done)
    })
}

pub fn s04(tier: Tier) -> Vec<Scenario> {
    let kinds = [("largest first", Kind::Largest, tier.of(4, 5)), ("random improve", Kind::Random, tier.of(3, 4)), ("thermostat", Kind::Thermostat, tier.of(4, 5)), ("fee change", Kind::FeeChange, 3), ("single change", Kind::SingleChange, 3)];
    kinds
        .into_iter()
        .map(|(name, k, steps)| {
            Scenario::new(
                name,
                format!("every history of {steps} steps: 5 selections (some impossible), one of everything, 3 new sets of available inputs or the last one once more (as a list or a store); every outcome of random draws; from 2 first sets"),
                0,
                move |c: &mut Ctx| seeded(1, || bookkeeping(c, k, steps)),
            )
        })
        .chain([("largest first", Kind::Largest), ("random improve", Kind::Random), ("thermostat", Kind::Thermostat)].map(|(name, k)| {
            Scenario::new(format!("{name} from many"), format!("{CROWD} (fewer sizes), asked for at once, in 4 or in 20 parts until one fails"), 0, move |c: &mut Ctx| bookkeeping_crowd(c, k))
        }))
        .collect()
}
