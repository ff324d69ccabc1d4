//! S05 to S08: balancing change, the thermostat, and the helpers.

use crate::common::*;
use dcspark_core::tx::{UTxOBuilder, UTxODetails};
use dcspark_core::{Address, Balance, TokenId, Value};
use mclib::{ensure, ensure_eq, violation, Ctx, End, RunResult, Scenario, Tier, Violation};
use std::collections::HashMap;
use utxo_selection::algorithms::*;
use utxo_selection::*;

const IN: &[Bag] = &[(0, &[]), (1, &[]), (5, &[]), (9, &[(0, 1)]), (4, &[(0, 3)]), (3, &[(0, 1), (1, 2)]), (2, &[(1, 0)]), (6, &[(0, 1), (0, 1)])];
const OUT: &[Bag] = &[(1, &[]), (4, &[]), (0, &[(0, 1)]), (2, &[(0, 2)]), (3, &[(0, 1), (1, 2)]), (1, &[(1, 0)]), (1, &[(0, 1), (0, 1)])];

struct Given {
    inputs: Vec<UTxODetails>,
    outputs: Vec<UTxOBuilder>,
    fees: Fees,
    /// inputs less outputs and least fee
    left: Sum,
    what: String,
}

fn given(ctx: &mut Ctx, most: (usize, usize), fees: &[(u64, u64, u64)]) -> Result<Given, Violation> {
    let i = bags(ctx, IN, 0, most.0);
    let o = bags(ctx, OUT, 0, most.1);
    let (base, output, asset) = *ctx.pick(fees);
    let unit = *ctx.pick(&UNITS);
    set_unit(unit);
    let what = format!("inputs {}; outputs {}; fees {base} + {output} per output + {asset} per asset in it; in units of {unit}", show(&i), show(&o));
    ctx.note(|| what.clone());
    ctx.step();
    ctx.state(&(&i, &o, base, output, asset, unit));
    let (inputs, outputs) = (inputs(&i, 0), outputs(&o));
    let mut left = Sum::inputs(&inputs)?.minus(&Sum::outputs(&outputs)?);
    left.add(&main_token(), -units(base));
    Ok(Given { inputs, outputs, fees: Fees::new(base, 0, 0, output, asset), left, what })
}

const SIZES: &[usize] = &[1, 9, 17, 40];
const COUNTS: &[usize] = &[1, 9, 20];
const CROWD: &str = "1, 9, 17 or 40 inputs of 2 sizes and none to 40 tokens, 1, 9 or 20 outputs of none, a third, most or all of the coins, and of none, a third, all or more of the tokens";

fn many(ctx: &mut Ctx, fees: &[(u64, u64, u64)]) -> Result<Given, Violation> {
    let c = crowd(ctx, SIZES, &[0, 2, 7, 40], COUNTS);
    let (base, output, asset) = *ctx.pick(fees);
    let mut left = Sum::inputs(&c.inputs)?.minus(&Sum::outputs(&c.outputs)?);
    left.add(&main_token(), -units(base));
    let what = format!("{}; fees {base} + {output} per output + {asset} per asset in it", c.what);
    Ok(Given { inputs: c.inputs, outputs: c.outputs, fees: Fees::new(base, 0, 0, output, asset), left, what })
}

impl Given {
    fn setup(&self, change: bool) -> Setup {
        Setup::from_fixed_inputs_and_outputs(self.inputs.clone(), self.outputs.clone(), change.then(|| Address::new_static(CHANGE)))
    }
    fn kept(&self, r: &Selected) -> Result<(), Violation> {
        ensure_eq!(r.fixed_inputs, self.inputs, "fixed inputs", "{}", self.what);
        ensure_eq!(r.fixed_outputs, self.outputs, "fixed outputs", "{}", self.what);
        ensure!(r.chosen_inputs.is_empty(), "chosen inputs", "{}: {:?}", self.what, r.chosen_inputs);
        Ok(())
    }
}

/// inputs equal outputs, change and fee, and the library says so as well
fn conserved(r: &Selected, what: &str) -> Result<(), Violation> {
    let (i, o) = sums(r, what)?;
    let mut left = i.minus(&o);
    left.add(&main_token(), -num(&r.fee)?);
    ensure!(left == Sum::default(), "not conserved", "{what}: inputs less outputs, change {:?} and fee {} are {left:?}", r.changes, r.fee);
    ensure!(r.is_balanced() && r.are_utxos_balanced(), "balanced", "{what}: the result is not reported as balanced");
    Ok(())
}

fn to_change(r: &Selected, what: &str) -> Result<(), Violation> {
    for c in &r.changes {
        ensure!(c.address == Address::new_static(CHANGE), "change address", "{what}: change goes to {}", c.address);
        ensure!(num(&c.value)? >= 0, "negative change", "{what}: {c:?}");
        for a in &c.assets {
            ensure!(num(&a.quantity)? >= 0, "negative change", "{what}: {c:?}");
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- single change output

fn single(ctx: &mut Ctx, most: (usize, usize)) -> RunResult {
    let g = given(ctx, most, &[(0, 0, 0), (1, 0, 0), (1, 2, 0), (2, 1, 1)])?;
    let address = !(ctx.flag());
    let extra = ctx.flag().then(|| "memo".to_string());
    single_run(&g, address, extra)
}

fn single_run(g: &Given, address: bool, extra: Option<String>) -> RunResult {
    let what = format!("{}; change address {address}", g.what);
    let mut b = SingleOutputChangeBalancer::default();
    if let Some(e) = &extra {
        b.set_extra(e.clone());
    }
    let mut fees = g.fees.clone();
    let r = b.select_inputs(&mut fees, g.setup(address));
    // the change carries every token in excess
    let tokens = g.left.0.iter().filter(|(t, n)| **n > 0 && **t != main_token()).count() as u64;
    let for_change = units(g.fees.output + g.fees.asset * tokens);
    let possible = address && g.left.short().is_none() && g.left.main() >= for_change;
    match r {
        Err(e) => ensure!(!possible, "needless failure", "{what}: {e}; left over {:?}", g.left),
        Ok(r) => {
            ensure!(address && g.left.short().is_none(), "impossible", "{what}: succeeded, although {:?} is left over", g.left);
            g.kept(&r)?;
            to_change(&r, &what)?;
            conserved(&r, &what)?;
            ensure_eq!(r.changes.len(), 1, "change outputs", "{what}");
            ensure_eq!(r.changes[0].extra, extra, "extra", "{what}");
            ensure_eq!(fees.outputs, r.changes, "estimator", "{what}");
            ensure!(num(&r.fee)? >= fees.least(), "fee too small", "{what}: {} for at least {}", r.fee, fees.least());
            ensure!(num(&r.fee)? == g.fees.base() + for_change, "fee", "{what}: {}", r.fee);
        }
    }
    Ok(End::Done)
}

/// a selection, balanced
fn pipeline(ctx: &mut Ctx, most: usize) -> RunResult {
    let available = bags(ctx, IN, 1, most);
    let o = bags(ctx, OUT, 0, 1);
    let random = ctx.flag();
    let by_fee = ctx.flag();
    let unit = *ctx.pick(&UNITS);
    set_unit(unit);
    let what = format!("available {}; outputs {}; random {random}; in units of {unit}", show(&available), show(&o));
    ctx.note(|| what.clone());
    ctx.step();
    ctx.state(&(&available, &o, random, by_fee, unit));
    let mut fees = Fees::new(1, 1, 1, 1, 1);
    let setup = Setup::from_fixed_inputs_and_outputs(vec![], outputs(&o), None);
    let available = inputs(&available, 0);
    let r = if random {
        let mut s = RandomImprove::try_from(available.clone()).map_err(|e| violation("error", e.to_string()))?;
        mc_rand::with(&mut |n| ctx.choose(n), || s.select_inputs(&mut fees, setup))
    } else {
        let mut s = LargestFirst::try_from(available.clone()).map_err(|e| violation("error", e.to_string()))?;
        s.select_inputs(&mut fees, setup)
    };
    let Ok(r) = r else { return Ok(End::Done) };
    let setup = InputOutputSetup {
        input_balance: r.input_balance,
        input_asset_balance: r.input_asset_balance,
        output_balance: r.output_balance,
        output_asset_balance: r.output_asset_balance,
        fixed_inputs: r.chosen_inputs,
        fixed_outputs: r.fixed_outputs,
        change_address: Some(Address::new_static(CHANGE)),
    };
    let r = if by_fee { FeeChangeBalancer::default().select_inputs(&mut fees, setup) } else { SingleOutputChangeBalancer::default().select_inputs(&mut fees, setup) };
    if let Ok(r) = r {
        from_available(&r.fixed_inputs, &available, &what)?;
        to_change(&r, &what)?;
        conserved(&r, &what)?;
        ensure!(num(&r.fee)? >= fees.least(), "fee too small", "{what}: {} for at least {}", r.fee, fees.least());
    }
    Ok(End::Done)
}

pub fn s05(tier: Tier) -> Vec<Scenario> {
    let most = tier.of((3, 2), (4, 3));
    let p = tier.of(4, 5);
    vec![
        Scenario::new("balancing", format!("every multiset of up to {} inputs of {} and up to {} outputs of {}, 4 fee schemes, with and without change address and memo", most.0, show(IN), most.1, show(OUT)), 0, move |c: &mut Ctx| seeded(0, || single(c, most))),
        Scenario::new("selecting and balancing", format!("up to {p} available inputs, selected largest first and in every random order, balanced with both balancers"), 0, move |c: &mut Ctx| seeded(0, || pipeline(c, p))),
        Scenario::new("crowds", format!("{CROWD}; 3 fee schemes"), 0, |c: &mut Ctx| {
            let g = many(c, &[(0, 0, 0), (1, 2, 0), (2, 1, 1)])?;
            seeded(0, || single_run(&g, true, None))
        }),
    ]
}

// ---------------------------------------------------------------- fee change

fn by_fee(ctx: &mut Ctx, g: Given) -> RunResult {
    let what = &g.what;
    let mut fees = g.fees.clone();
    let r = FeeChangeBalancer::default().select_inputs(&mut fees, g.setup(ctx.flag()));
    let possible = g.left.0.keys().all(|t| *t == main_token()) && g.left.main() >= 0;
    match r {
        Err(e) => ensure!(!possible, "needless failure", "{what}: {e}; left over {:?}", g.left),
        Ok(r) => {
            ensure!(possible, "impossible", "{what}: succeeded, although {:?} is left over", g.left);
            g.kept(&r)?;
            ensure!(r.changes.is_empty(), "change outputs", "{what}: {:?}", r.changes);
            conserved(&r, what)?;
            ensure!(num(&r.fee)? >= fees.least(), "fee too small", "{what}: {} for at least {}", r.fee, fees.least());
        }
    }
    Ok(End::Done)
}

pub fn s06(tier: Tier) -> Vec<Scenario> {
    let most = tier.of((3, 3), (5, 4));
    vec![Scenario::new("balancing", format!("every multiset of up to {} inputs of {} and up to {} outputs of {}, 3 fee schemes", most.0, show(IN), most.1, show(OUT)), 0, move |c: &mut Ctx| {
            let g = given(c, most, &[(0, 0, 0), (1, 0, 0), (3, 1, 1)])?;
            seeded(0, || by_fee(c, g))
        }),
        Scenario::new("crowds", format!("{CROWD}; 3 fee schemes"), 0, |c: &mut Ctx| {
            let g = many(c, &[(0, 0, 0), (1, 0, 0), (3, 1, 1)])?;
            seeded(0, || by_fee(c, g))
        }),
    ]
}

// ---------------------------------------------------------------- thermostat

pub fn thermostat_config(accumulators: usize, min: u64, max: u64) -> ThermostatAlgoConfig {
    serde_json::from_value(serde_json::json!({
        "num_accumulators": accumulators,
        "num_accumulators_assets": accumulators,
        "native_utxo_thermostat_min": amount(min),
        "native_utxo_thermostat_max": amount(max),
        "main_token": TokenId::MAIN,
    }))
    .unwrap()
}

const STOCK: &[Bag] = &[(3, &[]), (12, &[]), (50, &[]), (4, &[(0, 1)]), (9, &[(0, 6)]), (3, &[(1, 5)]), (7, &[(0, 2), (1, 2)])];
const WANTED: &[Bag] = &[(2, &[]), (11, &[]), (2, &[(0, 2)]), (1, &[(1, 1)])];

fn thermostat(ctx: &mut Ctx, most: (usize, usize), seeds: usize, twice: bool, unit: Unit) -> RunResult {
    set_unit(unit);
    let i = bags(ctx, STOCK, 0, most.0);
    let fixed = bags(ctx, &[(5, &[(0, 4)]), (30, &[])], 0, 1);
    let accumulators = *ctx.pick(&[1, 3]);
    let (min, max) = *ctx.pick(&[(3, 8), (0, 100)]);
    let (base, per_input, output, per_asset) = *ctx.pick(&[(0, 0, 0, 0), (1, 1, 1, 0), (2, 1, 3, 1)]);
    let min_value = *ctx.pick(&[0, 4]);
    let max_size = *ctx.pick(&[3, 20]);
    let seed = ctx.choose(seeds) as u64;
    let head = format!("stock {}; fixed inputs {}; {accumulators} accumulators, thermostat {min} to {max}; fees {base} + {per_input} per input + {output} per output + {per_asset} per asset, least value {min_value}, size {max_size}; in units of {unit}", show(&i), show(&fixed));
    ctx.note(|| head.clone());
    seeded(seed, || {
        let mut left = inputs(&i, 0);
        let mut t = Thermostat::new(thermostat_config(accumulators, min, max));
        t.set_available_inputs(left.clone()).map_err(|e| violation("error", e.to_string()))?;
        for round in 0..1 + usize::from(twice) {
            let o = bags(ctx, WANTED, 0, most.1);
            let what = format!("{head}; outputs {}; round {round}", show(&o));
            ctx.note(|| what.clone());
            ctx.step();
            ctx.state(&(&i, &fixed, accumulators, min, base, output, min_value, max_size, &o, round));
            let mut fees = Fees { min_value, max_size, ..Fees::new(base, per_input, per_asset, output, per_asset) };
            let f = if round == 0 { inputs(&fixed, 9) } else { vec![] };
            let setup = Setup::from_fixed_inputs_and_outputs(f.clone(), outputs(&o), Some(Address::new_static(CHANGE)));
            let r = t.select_inputs(&mut fees, setup);
            ctx.outcome(&(round, r.as_ref().map(|r| (r.chosen_inputs.len(), r.changes.len(), num(&r.fee).ok())).map_err(|e| e.to_string())));
            if let Ok(r) = r {
                kept(&r, &left, &f, &outputs(&o), &fees, &what)?;
                left.retain(|l| !r.chosen_inputs.contains(l));
            }
        }
        Ok(End::Done)
    })
}

fn kept(r: &Selected, available: &[UTxODetails], f: &[UTxODetails], o: &[UTxOBuilder], fees: &Fees, what: &str) -> Result<(), Violation> {
    from_available(&r.chosen_inputs, available, what)?;
    ensure_eq!(r.fixed_inputs, f, "fixed inputs", "{what}");
    ensure_eq!(r.fixed_outputs, o, "fixed outputs", "{what}");
    to_change(r, what)?;
    conserved(r, what)?;
    ensure!(num(&r.fee)? >= fees.least(), "fee too small", "{what}: {} for at least {}; change {:?}", r.fee, fees.least(), r.changes);
    Ok(())
}

fn thermostat_crowd(ctx: &mut Ctx) -> RunResult {
    let g = many(ctx, &[(0, 0, 0), (2, 3, 1)])?;
    let accumulators = *ctx.pick(&[1, 3, 12]);
    let (min, max) = *ctx.pick(&[(3, 8), (0, 100)]);
    let max_size = *ctx.pick(&[30, 200]);
    let fixed = ctx.choose(3) * g.inputs.len() / 3;
    let what = format!("{}, {fixed} inputs fixed; {accumulators} accumulators, thermostat {min} to {max}, size {max_size}", g.what);
    seeded(1, || {
        let (f, available) = g.inputs.split_at(fixed);
        let mut t = Thermostat::new(thermostat_config(accumulators, min, max));
        t.set_available_inputs(available.to_vec()).map_err(|e| violation("error", e.to_string()))?;
        let mut fees = Fees { max_size, min_value: 2, ..Fees::new(g.fees.base, 1, g.fees.asset, g.fees.output, g.fees.asset) };
        let setup = Setup::from_fixed_inputs_and_outputs(f.to_vec(), g.outputs.clone(), Some(Address::new_static(CHANGE)));
        let r = t.select_inputs(&mut fees, setup);
        ctx.outcome(&r.as_ref().map(|r| (r.chosen_inputs.len(), r.changes.len())).map_err(|e| e.to_string()));
        if let Ok(r) = r {
            kept(&r, available, f, &g.outputs, &fees, &what)?;
        }
        Ok(End::Done)
    })
}

pub fn s07(tier: Tier) -> Vec<Scenario> {
    let seeds = tier.of(2, 4);
    let sizes = tier.of(
        vec![((3, 2), false, UNITS[0]), ((2, 1), true, UNITS[0]), ((2, 1), false, UNITS[1]), ((2, 1), false, UNITS[2])],
        vec![((6, 2), false, UNITS[0]), ((4, 2), true, UNITS[0]), ((4, 2), false, UNITS[1]), ((4, 2), false, UNITS[2])],
    );
    sizes
        .into_iter()
        .map(|(most, twice, unit)| {
            Scenario::new(
                format!("{} in units of {unit}", if twice { "two rounds" } else { "one round" }),
                format!("every multiset of up to {} inputs of {} and up to {} outputs of {}, optional fixed input, 2 accumulator counts, 2 thermostats, 3 fee schemes, 2 least values, 2 sizes, {seeds} hash orders", most.0, show(STOCK), most.1, show(WANTED)),
                0,
                move |c: &mut Ctx| thermostat(c, most, seeds, twice, unit),
            )
        })
        .chain([Scenario::new("crowds", format!("{CROWD}; none, a third or two thirds of the inputs fixed, 3 accumulator counts, 2 thermostats, 2 fee schemes, 2 sizes"), 0, thermostat_crowd)])
        .collect()
}

// ---------------------------------------------------------------- helpers

fn signed(b: &Balance<dcspark_core::Regulated>) -> Result<i128, Violation> {
    let n = match b {
        Balance::Debt(d) => -num(d)?,
        Balance::Balanced => 0,
        Balance::Excess(e) => num(e)?,
    };
    ensure!(b.in_debt() == (n < 0) && b.balanced() == (n == 0) && b.in_excess() == (n > 0), "classified", "{b:?} for {n}");
    Ok(n)
}

fn helpers(ctx: &mut Ctx, g: Given) -> RunResult {
    let (i, o, fee, what) = (g.inputs, g.outputs, g.fees.base, g.what);
    let address = ctx.flag().then(|| Address::new_static(CHANGE));
    let s = Setup::from_fixed_inputs_and_outputs(i.clone(), o.clone(), address.clone());
    let (si, so) = (Sum::inputs(&i)?, Sum::outputs(&o)?);
    ensure_eq!(Sum::reported(&s.input_balance, &s.input_asset_balance)?, si, "input balance", "{what}");
    ensure_eq!(Sum::reported(&s.output_balance, &s.output_asset_balance)?, so, "output balance", "{what}");
    ensure_eq!(s.fixed_inputs, i, "fixed inputs", "{what}");
    ensure_eq!(s.fixed_outputs, o, "fixed outputs", "{what}");
    ensure_eq!(s.change_address, address, "change address", "{what}");
    let mut left = si.minus(&so);
    left.add(&main_token(), -units(fee));
    let main = calculate_main_token_balance(&s.input_balance, &s.output_balance, &amount(fee));
    ensure_eq!(signed(&main)?, left.main(), "main balance", "{what}");
    let mut assets = Sum::default();
    let got: HashMap<TokenId, _> = calculate_asset_balance(&s.input_asset_balance, &s.output_asset_balance);
    for (t, b) in &got {
        assets.add(t.as_ref(), signed(b)?);
    }
    let mut want = left.clone();
    want.0.remove(&main_token());
    ensure_eq!(assets, want, "asset balance", "{what}");
    ensure_eq!(are_assets_balanced(&s.input_asset_balance, &s.output_asset_balance), want.0.is_empty(), "assets balanced", "{what}");
    // a result over the same sums, as given and as a selection that chose all but the first input
    let r = Selected {
        input_balance: s.input_balance,
        input_asset_balance: s.input_asset_balance,
        output_balance: s.output_balance,
        output_asset_balance: s.output_asset_balance,
        fixed_inputs: i.iter().take(1).cloned().collect(),
        chosen_inputs: i.iter().skip(1).cloned().collect(),
        fixed_outputs: o.iter().take(1).cloned().collect(),
        changes: o.iter().skip(1).cloned().collect(),
        fee: amount(fee),
    };
    ensure_eq!(r.is_balanced(), left.0.is_empty(), "is balanced", "{what}");
    ensure_eq!(r.are_utxos_balanced(), left.0.is_empty(), "utxos balanced", "{what}");
    // sums that are right over outputs that are not
    if !r.changes.is_empty() {
        let mut wrong = r.clone();
        let dropped = wrong.changes.pop().unwrap();
        let empty = num(&dropped.value)? == 0 && Sum::outputs([&dropped])? == Sum::default();
        ensure_eq!(wrong.are_utxos_balanced(), left.0.is_empty() && empty, "utxos balanced", "{what}, one output left out");
    }
    for (at, also) in [(0u64, (1, 0)), (0, (0, 1)), (1, (1, 0)), (1, (0, 1))] {
        let mut wrong = r.clone();
        let token = [(9, also.1)];
        let bag: (u64, &[(usize, u64)]) = (also.0, &token[..also.1 as usize]);
        match at {
            0 => wrong.changes.push(output(bag)),
            _ => wrong.chosen_inputs.push(input(5, 5, bag)),
        }
        ensure!(!wrong.are_utxos_balanced(), "utxos balanced", "{what}, with one {} more, of {also:?}", ["output", "input"][at as usize]);
        // the sums themselves are as before
        ensure_eq!(wrong.is_balanced(), left.0.is_empty(), "is balanced", "{what}");
    }
    Ok(End::Done)
}

pub fn s08(tier: Tier) -> Vec<Scenario> {
    const FEE: [(u64, u64, u64); 3] = [(0, 0, 0), (1, 0, 0), (5, 0, 0)];
    let most = tier.of((3, 3), (5, 4));
    vec![Scenario::new("sums", format!("every multiset of up to {} inputs of {} and up to {} outputs of {}, 3 fees", most.0, show(IN), most.1, show(OUT)), 0, move |c: &mut Ctx| {
            let g = given(c, most, &FEE)?;
            seeded(0, || helpers(c, g))
        }),
        Scenario::new("crowds", format!("{CROWD}; 3 fees"), 0, move |c: &mut Ctx| {
            let g = many(c, &FEE)?;
            seeded(0, || helpers(c, g))
        }),
    ]
}
