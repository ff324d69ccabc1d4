//! S09: the fee estimators for Cardano transactions, alone and under the selection algorithms.

use crate::convert::{key_address, script_address, script_of};
use crate::costs::{conformance, magic_metadata, network, number, plan, Shape};
use cardano_multiplatform_lib::builders::tx_builder::*;
use cardano_multiplatform_lib::builders::witness_builder::NativeScriptWitnessInfo;
use cardano_multiplatform_lib::ledger::alonzo::fees::LinearFee;
use cardano_multiplatform_lib::ledger::babbage::min_ada::min_pure_ada;
use cardano_multiplatform_lib::ledger::common::value::BigNum;
use cardano_multiplatform_lib::plutus::PlutusData;
use cardano_multiplatform_lib::{Datum, NativeScripts};
use cardano_utils::network_id::NetworkInfo;
use cardano_utils::payment_credentials::CardanoPaymentCredentials;
use cardano_utils::utxo::{utxo_builder_to_cml_output, utxo_details_to_cml_input};
use dcspark_core::tx::{TransactionAsset, TransactionId, UTxOBuilder, UTxODetails, UtxoPointer};
use dcspark_core::{Address, AssetName, OutputIndex, PolicyId, Regulated, TokenId, Value};
use mclib::{ensure, ensure_eq, violation, with_hash_seed, Ctx, End, RunResult, Scenario, Tier, Violation};
use std::str::FromStr;
use std::sync::Arc;
use utxo_selection::algorithms::*;
use utxo_selection::estimators::{CmlFeeEstimator, ThermostatFeeEstimator};
use utxo_selection::{InputOutputSetup, InputSelectionAlgorithm, TransactionFeeEstimator};

const PER_BYTE: u64 = 4310;

fn ok<T>(r: anyhow::Result<T>, what: &str) -> Result<T, Violation> {
    r.map_err(|e| violation("error", format!("{what}: {e}")))
}
fn whole(v: &Value<Regulated>) -> Result<u128, Violation> {
    u128::from_str(&v.to_string()).map_err(|e| violation("amount", format!("{v}: {e}")))
}

fn asset(quantity: u64) -> TransactionAsset {
    let (p, n) = (PolicyId::new("50".repeat(28)), AssetName::new("ab".repeat(32)));
    let f = cardano_utils::fingerprint(&p, &n).unwrap();
    TransactionAsset { quantity: Value::from(quantity), ..TransactionAsset::new(p, n, f) }
}

fn input(index: u64, address: &str, amount: u64, tokens: u64) -> UTxODetails {
    UTxODetails {
        pointer: UtxoPointer { transaction_id: TransactionId::new("7e".repeat(32)), output_index: OutputIndex::new(index) },
        address: Address::new(address.to_string()),
        value: Value::from(amount),
        assets: if tokens > 0 { vec![asset(tokens)] } else { vec![] },
        metadata: Arc::new(Default::default()),
        extra: None,
    }
}
fn output(address: &str, amount: u64, tokens: u64) -> UTxOBuilder {
    UTxOBuilder::new(Address::new(address.to_string()), Value::from(amount), if tokens > 0 { vec![asset(tokens)] } else { vec![] })
}

/// fee and size, as an estimator tells them
fn read<E: TransactionFeeEstimator>(e: &E, what: &str) -> Result<(u128, usize), Violation> {
    Ok((whole(&ok(e.min_required_fee(), what)?)?, ok(e.current_size(), what)?))
}

/// the transaction that was described to an estimator
struct Told {
    shape: Shape,
    creds: CardanoPaymentCredentials,
}
impl Told {
    fn input(&mut self, i: &UTxODetails) {
        self.shape.inputs.push(utxo_details_to_cml_input(i, &self.creds).unwrap().input);
    }
    fn output(&mut self, o: &UTxOBuilder) {
        self.shape.outputs.push(utxo_builder_to_cml_output(o).unwrap());
    }
}

fn from() -> String {
    key_address(1, 7, true).to_bech32(None).unwrap()
}
fn to() -> String {
    key_address(1, 8, true).to_bech32(None).unwrap()
}

/// what an estimator says before an addition is what the addition then costs
fn add<E: TransactionFeeEstimator<InputUtxo = UTxODetails, OutputUtxo = UTxOBuilder>>(
    e: &mut E,
    told: &mut Told,
    kind: usize,
    step: usize,
    from: &str,
    what: &str,
) -> Result<(), Violation> {
    let before = read(e, what)?;
    let announced = if kind < 2 {
        let i = input([0, 24, 255][step % 3], from, 5_000_000, kind as u64 * 9);
        let fee = ok(e.fee_for_input(&i), what)?;
        ok(e.add_input(i.clone()), what)?;
        told.input(&i);
        fee
    } else {
        let o = output(&to(), 3_000_000, (kind as u64 - 2) * u64::MAX);
        let fee = ok(e.fee_for_output(&o), what)?;
        ok(e.add_output(o.clone()), what)?;
        told.output(&o);
        fee
    };
    let after = read(e, what)?;
    ensure!(after.0 == before.0 + whole(&announced)?, "announced fee", "{what}: the fee goes from {} to {}, announced were {announced}", before.0, after.0);
    ensure!(after.1 > before.1, "size", "{what}: the size goes from {} to {}", before.1, after.1);
    Ok(())
}

/// the least value asked for an output is the ledger's, and asking changes nothing
fn least_value<E: TransactionFeeEstimator<InputUtxo = UTxODetails, OutputUtxo = UTxOBuilder>>(e: &mut E, what: &str) -> Result<(), Violation> {
    let before = read(e, what)?;
    for (extra, datum) in [(None, None), (Some(serde_json::json!({"script_ref": null, "datum": {"Data": [1, 2, 3]}}).to_string()), Some(Datum::Data(PlutusData(vec![1, 2, 3]))))] {
        for amount in [0, 1 << 40] {
            let mut o = output(&to(), amount, 5);
            o.extra = extra.clone();
            let least = whole(&ok(e.min_value_for_output(o), what)?)?;
            let want = min_pure_ada(&BigNum::from(PER_BYTE), &key_address(1, 8, true), &datum, &None).unwrap();
            ensure_eq!(least, number(want), "least value", "{what}: for an output of {amount} with datum {datum:?}");
        }
    }
    ensure_eq!(read(e, what)?, before, "asking", "{what}: asking for a least value");
    Ok(())
}

fn thermostat_history(ctx: &mut Ctx, depth: usize) -> RunResult {
    let (net, (_, _, largest)) = network(ctx);
    let (quorum, keys) = *ctx.pick(&[(0, 0), (2, 3), (24, 30)]);
    let plan = plan(quorum, keys);
    let fee = net.linear_fee();
    let mut e = ThermostatFeeEstimator::new(net.clone(), &plan, BigNum::from(PER_BYTE));
    let shape = Shape { signatures: quorum as usize, scripts: Some(plan.to_script()), ..Default::default() };
    let mut told = Told { shape, creds: CardanoPaymentCredentials::PaymentKey };
    let head = format!("{net:?}, {quorum} of {keys}");
    let mut done = vec![];
    for step in 0..=depth {
        let what = format!("{head}: {done:?}");
        ctx.note(|| what.clone());
        ctx.step();
        ensure_eq!(ok(e.max_size(), &what)?, largest as usize, "largest size", "{what}");
        let (said, size) = read(&e, &what)?;
        let least = told.shape.least_fee(&fee, u64::MAX);
        ensure!(said >= least, "fee too small", "{what}: {said} for {least}");
        let real = told.shape.size(u64::MAX);
        ensure!(size >= real, "size too small", "{what}: {size} for {real}");
        ctx.state(&(&head, &done));
        if step == depth {
            break;
        }
        // one text at most
        let kind = ctx.choose(if told.shape.magic.is_none() { 6 } else { 4 });
        done.push(["plain input", "input with a token", "plain output", "output with a token", "short text", "long text"][kind]);
        let what = format!("{head}: {done:?}");
        if kind < 4 {
            add(&mut e, &mut told, kind, step, &from(), &what)?;
        } else {
            let text = ["", "\u{10348}"][kind - 4].repeat(16);
            let before = read(&e, &what)?;
            e.add_protocol_magic(&text);
            let after = read(&e, &what)?;
            let bytes = magic_metadata(&text).to_bytes().len();
            let cost = number(fee.coefficient()) * bytes as u128;
            ensure!(after.0 >= before.0 + cost, "cost of a text", "{what}: the fee goes from {} to {}", before.0, after.0);
            ensure!(after.1 >= before.1 + bytes, "size of a text", "{what}: the size goes from {} to {}", before.1, after.1);
            told.shape.magic = Some(text);
        }
        if step == 1 {
            least_value(&mut e, &what)?;
        }
    }
    Ok(End::Done)
}

fn builder(coefficient: u64, constant: u64) -> TransactionBuilder {
    let c = TransactionBuilderConfigBuilder::new()
        .fee_algo(&LinearFee::new(&BigNum::from(coefficient), &BigNum::from(constant)))
        .coins_per_utxo_byte(&BigNum::from(PER_BYTE))
        .pool_deposit(&BigNum::from(500))
        .key_deposit(&BigNum::from(2))
        .max_value_size(5000)
        .max_tx_size(16_384)
        .build();
    TransactionBuilder::new(&c.unwrap())
}

fn cml_history(ctx: &mut Ctx, depth: usize) -> RunResult {
    let (coefficient, constant) = *ctx.pick(&[(44, 155_381), (0, 7), (1, 0), (1_000_003, 1)]);
    let fee = LinearFee::new(&BigNum::from(coefficient), &BigNum::from(constant));
    let by_script = ctx.flag();
    let (creds, address) = if by_script {
        let native_script = script_of(3);
        let a = script_address(1, &native_script, true);
        (CardanoPaymentCredentials::NativeScript { native_script, witness_info: NativeScriptWitnessInfo::num_signatures(2) }, a)
    } else {
        (CardanoPaymentCredentials::PaymentKey, key_address(1, 7, true))
    };
    let address = address.to_bech32(None).unwrap();
    let head = format!("{coefficient} per byte and {constant}, {}", if by_script { "native script" } else { "payment key" });
    let mut e = ok(CmlFeeEstimator::new(builder(coefficient, constant), creds.clone(), ctx.flag(), BigNum::from(PER_BYTE)), &head)?;
    let mut told = Told { shape: Shape::default(), creds };
    let mut done = vec![];
    for step in 0..=depth {
        let what = format!("{head}: {done:?}");
        ctx.note(|| what.clone());
        ctx.step();
        ensure_eq!(ok(e.max_size(), &what)?, 16_384, "largest size", "{what}");
        if !told.shape.inputs.is_empty() {
            told.shape.signatures = if by_script { 2 } else { 1 };
            if by_script {
                let mut s = NativeScripts::new();
                s.add(&script_of(3));
                told.shape.scripts = Some(s);
            }
        }
        let (said, size) = read(&e, &what)?;
        // the library's own estimate, for a fee written in nine bytes
        ensure_eq!(said, told.shape.least_fee(&fee, 1 << 32), "fee", "{what}");
        ensure!((told.shape.size(0)..=told.shape.size(1 << 32)).contains(&size), "size", "{what}: {size}");
        ctx.state(&(&head, &done));
        if step == depth {
            break;
        }
        let kind = ctx.choose(4);
        done.push(["plain input", "input with a token", "plain output", "output with a token"][kind]);
        let what = format!("{head}: {done:?}");
        add(&mut e, &mut told, kind, step, &address, &what)?;
        if step == 1 {
            least_value(&mut e, &what)?;
        }
    }
    // an output that the library does not take is reported
    let what = format!("{head}: {done:?}, then an output of nothing");
    let before = read(&e, &what)?;
    let o = output(&to(), 0, 0);
    ensure!(e.fee_for_output(&o).is_err() && e.add_output(o).is_err(), "refused output", "{what}: it is accepted");
    ensure_eq!(read(&e, &what)?, before, "refused output", "{what}");
    Ok(End::Done)
}

// ---------------------------------------------------------------- selections

type Setup = InputOutputSetup<UTxODetails, UTxOBuilder>;
type Chosen = utxo_selection::InputSelectionResult<UTxODetails, UTxOBuilder>;

/// inputs minus outputs minus fee, coins and tokens
fn left_over(r: &Chosen) -> Result<(i128, i128), Violation> {
    let mut left = (0, 0);
    let of = |a: &[TransactionAsset]| a.iter().try_fold(0, |n, a| Ok::<_, Violation>(n + whole(&a.quantity)? as i128));
    for i in r.fixed_inputs.iter().chain(&r.chosen_inputs) {
        left = (left.0 + whole(&i.value)? as i128, left.1 + of(&i.assets)?);
    }
    for o in r.fixed_outputs.iter().chain(&r.changes) {
        left = (left.0 - whole(&o.value)? as i128, left.1 - of(&o.assets)?);
    }
    Ok((left.0 - whole(&r.fee)? as i128, left.1))
}

/// the selected transaction balances, and pays at least what the ledger asks for it
fn pays(r: &Chosen, mut told: Told, fee: &LinearFee, largest: usize, what: &str) -> Result<(), Violation> {
    ensure_eq!(left_over(r)?, (0, 0), "unbalanced", "{what}: {r:?}");
    r.fixed_inputs.iter().chain(&r.chosen_inputs).for_each(|i| told.input(i));
    r.fixed_outputs.iter().chain(&r.changes).for_each(|o| told.output(o));
    let paid = whole(&r.fee)?;
    let written = u64::try_from(paid).unwrap();
    let least = told.shape.least_fee(fee, written);
    ensure!(paid >= least, "fee too small", "{what}: {paid} for {least}; {r:?}");
    let size = told.shape.size(written);
    ensure!(size <= largest, "too large", "{what}: {size} bytes; {r:?}");
    Ok(())
}

const ADA: u64 = 1_000_000;
const STOCK: [(u64, u64); 8] = [(5000 * ADA, 0), (2 * ADA, 0), (3 * ADA, 0), (60 * ADA, 0), (400 * ADA, 0), (3 * ADA, 100), (50 * ADA, 7), (4 * ADA, 1 << 33)];
const WANTED: [(u64, u64); 4] = [(2 * ADA, 0), (55 * ADA, 0), (2 * ADA, 50), (30 * ADA, 0)];

fn several<T: Copy>(ctx: &mut Ctx, of: &[T], most: usize) -> Vec<T> {
    let mut v = vec![];
    let mut from = 0;
    while v.len() < most {
        let i = ctx.choose(of.len() - from + 1);
        if i == 0 {
            break;
        }
        from += i - 1;
        v.push(of[from]);
    }
    v
}

fn selection(ctx: &mut Ctx, most: (usize, usize)) -> RunResult {
    let i = several(ctx, &STOCK, most.0);
    let o = several(ctx, &WANTED, most.1);
    let cml = ctx.flag();
    let accumulators = *ctx.pick(&[1, 3, 20]);
    let seed = ctx.choose(2) as u64;
    let what = format!("inputs {i:?}; outputs {o:?}; {accumulators} accumulators; {} estimator", if cml { "CML" } else { "thermostat" });
    ctx.note(|| what.clone());
    ctx.step();
    ctx.state(&(&i, &o, cml, accumulators));
    let inputs: Vec<_> = i.iter().enumerate().map(|(n, (a, t))| input(n as u64, &from(), *a, *t)).collect();
    let outputs: Vec<_> = o.iter().map(|(a, t)| output(&to(), *a, *t)).collect();
    let config: ThermostatAlgoConfig = serde_json::from_value(serde_json::json!({
        "num_accumulators": accumulators, "num_accumulators_assets": accumulators,
        "native_utxo_thermostat_min": Value::<Regulated>::from(50 * ADA), "native_utxo_thermostat_max": Value::<Regulated>::from(200 * ADA), "main_token": TokenId::MAIN,
    }))
    .unwrap();
    with_hash_seed(seed, || {
        let mut t = Thermostat::new(config);
        ok(t.set_available_inputs(inputs), &what)?;
        let setup = Setup::from_fixed_inputs_and_outputs(vec![], outputs.clone(), Some(Address::new(from())));
        over(cml, &outputs, &what, |mut e| match &mut e {
            Estimator::Cml(e) => t.select_inputs(e, setup),
            Estimator::Thermostat(e) => t.select_inputs(e, setup),
        })
        .map(|outcome| ctx.outcome(&outcome))?;
        Ok(End::Done)
    })
}

enum Estimator {
    Cml(CmlFeeEstimator),
    Thermostat(ThermostatFeeEstimator),
}

/// a selection with one of the estimators, which knows of the outputs already
fn over(cml: bool, outputs: &[UTxOBuilder], what: &str, select: impl FnOnce(Estimator) -> anyhow::Result<Chosen>) -> Result<Option<(usize, usize, String)>, Violation> {
    let (estimator, shape, fee) = if cml {
        let mut e = ok(CmlFeeEstimator::new(builder(44, 155_381), CardanoPaymentCredentials::PaymentKey, false, BigNum::from(PER_BYTE)), what)?;
        outputs.iter().try_for_each(|o| ok(e.add_output(o.clone()), what))?;
        (Estimator::Cml(e), Shape { signatures: 1, ..Default::default() }, LinearFee::new(&BigNum::from(44), &BigNum::from(155_381)))
    } else {
        let plan = plan(2, 3);
        let mut e = ThermostatFeeEstimator::new(NetworkInfo::Mainnet, &plan, BigNum::from(PER_BYTE));
        outputs.iter().try_for_each(|o| ok(e.add_output(o.clone()), what))?;
        (Estimator::Thermostat(e), Shape { signatures: 2, scripts: Some(plan.to_script()), ..Default::default() }, NetworkInfo::Mainnet.linear_fee())
    };
    let Ok(r) = select(estimator) else { return Ok(None) };
    pays(&r, Told { shape, creds: CardanoPaymentCredentials::PaymentKey }, &fee, 16_384, what)?;
    Ok(Some((r.chosen_inputs.len(), r.changes.len(), r.fee.to_string())))
}

/// inputs selected by one algorithm, the change made by another
fn in_two_steps(ctx: &mut Ctx, most: (usize, usize)) -> RunResult {
    let i = several(ctx, &STOCK, most.0);
    let o = several(ctx, &WANTED, most.1);
    let (cml, random, by_fee) = (ctx.flag(), ctx.flag(), ctx.flag());
    let what = format!(
        "inputs {i:?}; outputs {o:?}; {} estimator, {}, {}",
        if cml { "CML" } else { "thermostat" },
        if random { "random improve" } else { "largest first" },
        if by_fee { "change to the fee" } else { "change output" }
    );
    ctx.note(|| what.clone());
    ctx.step();
    ctx.state(&(&i, &o, cml, random, by_fee));
    let inputs: Vec<_> = i.iter().enumerate().map(|(n, (a, t))| input(n as u64, &from(), *a, *t)).collect();
    let outputs: Vec<_> = o.iter().map(|(a, t)| output(&to(), *a, *t)).collect();
    with_hash_seed(0, || {
        let setup = Setup::from_fixed_inputs_and_outputs(vec![], outputs.clone(), Some(Address::new(from())));
        let outcome = over(cml, &outputs, &what, |mut e| {
            let r = match &mut e {
                Estimator::Cml(e) => taken(ctx, random, inputs, e, setup),
                Estimator::Thermostat(e) => taken(ctx, random, inputs, e, setup),
            }?;
            let setup = InputOutputSetup {
                input_balance: r.input_balance,
                input_asset_balance: r.input_asset_balance,
                output_balance: r.output_balance,
                output_asset_balance: r.output_asset_balance,
                fixed_inputs: r.chosen_inputs,
                fixed_outputs: r.fixed_outputs,
                change_address: Some(Address::new(from())),
            };
            match (&mut e, by_fee) {
                (Estimator::Cml(e), true) => FeeChangeBalancer::default().select_inputs(e, setup),
                (Estimator::Cml(e), false) => SingleOutputChangeBalancer::default().select_inputs(e, setup),
                (Estimator::Thermostat(e), true) => FeeChangeBalancer::default().select_inputs(e, setup),
                (Estimator::Thermostat(e), false) => SingleOutputChangeBalancer::default().select_inputs(e, setup),
            }
        })?;
        ctx.outcome(&outcome);
        Ok(End::Done)
    })
}

fn taken<E: TransactionFeeEstimator<InputUtxo = UTxODetails, OutputUtxo = UTxOBuilder>>(ctx: &mut Ctx, random: bool, inputs: Vec<UTxODetails>, e: &mut E, setup: Setup) -> anyhow::Result<Chosen> {
    if random {
        let mut s = RandomImprove::try_from(inputs)?;
        mc_rand::with(&mut |n| ctx.choose(n), || s.select_inputs(e, setup))
    } else {
        LargestFirst::try_from(inputs)?.select_inputs(e, setup)
    }
}

pub fn s09(tier: Tier) -> Vec<Scenario> {
    conformance();
    let depth = tier.of((5, 5), (7, 7));
    let most = tier.of((5, 2), (6, 3));
    let two = tier.of((4, 2), (5, 3));
    vec![
        Scenario::new(
            format!("thermostat estimator, {} additions", depth.0),
            "6 networks, 3 plans, every sequence of inputs and outputs with and without a token and of at most one metadata text; fee and size against those of the transaction described so far, announced fees against what the additions cost",
            0,
            move |c: &mut Ctx| thermostat_history(c, depth.0),
        ),
        Scenario::new(
            format!("CML estimator, {} additions", depth.1),
            "4 fee schemes, payment keys and native scripts, every sequence of inputs and outputs with and without a token; fee and size against those of the transaction described so far, announced fees against what the additions cost",
            0,
            move |c: &mut Ctx| cml_history(c, depth.1),
        ),
        Scenario::new(
            "thermostat selections",
            format!("every multiset of up to {} inputs of {STOCK:?} and up to {} outputs of {WANTED:?} (coins, tokens), 3 accumulator counts, both estimators, 2 hash orders: a selection balances and pays at least the ledger's fee for the transaction it describes", most.0, most.1),
            0,
            move |c: &mut Ctx| selection(c, most),
        ),
        Scenario::new(
            "selecting and balancing",
            format!("every multiset of up to {} of these inputs and up to {} of these outputs, selected largest first and in every random order, balanced by a change output and by the fee, both estimators", two.0, two.1),
            0,
            move |c: &mut Ctx| in_two_steps(c, two),
        ),
    ]
}
