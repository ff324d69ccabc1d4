//! Inputs, outputs, fees and exact sums.

use deps::bigdecimal::{BigDecimal, ToPrimitive};
use dcspark_core::tx::{TransactionAsset, TransactionId, UTxOBuilder, UTxODetails, UtxoPointer};
use dcspark_core::*;
use mclib::{ensure, ensure_eq, violation, Ctx, Violation};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::Arc;
use utxo_selection::*;

pub type Val = Value<Regulated>;
pub type Setup = InputOutputSetup<UTxODetails, UTxOBuilder>;
pub type Selected = InputSelectionResult<UTxODetails, UTxOBuilder>;

/// a value and quantities of tokens
pub type Bag = (u64, &'static [(usize, u64)]);

pub fn token(t: usize) -> String {
    format!("asset1{}", (b'a' + (t % 26) as u8) as char).repeat(1 + t / 26)
}
pub const CHANGE: &str = "change";

pub fn asset(t: usize, q: u64) -> TransactionAsset {
    TransactionAsset {
        policy_id: PolicyId::new(format!("50{:02}", t % 3)),
        asset_name: AssetName::new(format!("{t:02x}")),
        fingerprint: TokenId::new(token(t)),
        quantity: amount(q),
    }
}

/// what every amount of an execution is a multiple of: so many, with so many decimals
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Unit(pub i128, pub i64);

impl std::fmt::Display for Unit {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        BigDecimal::new(self.0.into(), self.1).fmt(f)
    }
}

thread_local! {
    static UNIT: std::cell::Cell<Unit> = const { std::cell::Cell::new(Unit(1, 0)) };
}

/// one of these is far beyond what 64 bits can hold, another one is a fraction
pub const UNITS: [Unit; 3] = [Unit(1, 0), Unit(20_000_000_000_000_000_003, 0), Unit(7, 1)];

pub fn set_unit(u: Unit) {
    UNIT.with(|x| x.set(u));
}

/// `with_hash_seed`, with the unit of the caller
pub fn seeded<T: Send>(seed: u64, body: impl FnOnce() -> T + Send) -> T {
    let unit = UNIT.with(|x| x.get());
    mclib::with_hash_seed(seed, || {
        set_unit(unit);
        body()
    })
}

/// in the last decimal of the unit, as all sums here
pub fn units(n: u64) -> i128 {
    i128::from(n) * UNIT.with(|x| x.get()).0
}

pub fn value(units: i128) -> Val {
    Value::new(BigDecimal::new(units.into(), UNIT.with(|x| x.get()).1))
}

pub fn amount(n: u64) -> Val {
    value(units(n))
}

fn assets(b: (u64, &[(usize, u64)])) -> Vec<TransactionAsset> {
    b.1.iter().map(|(t, q)| asset(*t, *q)).collect()
}

pub fn input(tx: u64, ix: u64, b: (u64, &[(usize, u64)])) -> UTxODetails {
    UTxODetails {
        pointer: UtxoPointer { transaction_id: TransactionId::new(format!("t{tx}")), output_index: OutputIndex::new(ix) },
        address: Address::new_static("addr"),
        value: amount(b.0),
        assets: assets(b),
        metadata: Arc::new(Default::default()),
        extra: None,
    }
}

pub fn output(b: (u64, &[(usize, u64)])) -> UTxOBuilder {
    UTxOBuilder::new(Address::new_static("to"), amount(b.0), assets(b))
}

/// every multiset of at most `most` of `of`
pub fn bags(ctx: &mut Ctx, of: &[Bag], least: usize, most: usize) -> Vec<Bag> {
    let mut v: Vec<Bag> = vec![];
    let mut from = 0;
    while v.len() < most {
        let may_stop = usize::from(v.len() >= least);
        let i = ctx.choose(of.len() - from + may_stop);
        if i < may_stop {
            break;
        }
        from += i - may_stop;
        v.push(of[from]);
    }
    v
}

pub fn inputs(bags: &[Bag], tx: u64) -> Vec<UTxODetails> {
    bags.iter().enumerate().map(|(i, b)| input(tx, i as u64, *b)).collect()
}

pub fn outputs(bags: &[Bag]) -> Vec<UTxOBuilder> {
    bags.iter().map(|b| output(*b)).collect()
}

/// many inputs, and outputs that ask for some of what they hold
pub struct Crowd {
    pub inputs: Vec<UTxODetails>,
    pub outputs: Vec<UTxOBuilder>,
    /// different tokens
    pub kinds: usize,
    pub what: String,
}

pub fn crowd(ctx: &mut Ctx, sizes: &[usize], kinds: &[usize], counts: &[usize]) -> Crowd {
    let n = *ctx.pick(sizes);
    let kinds = *ctx.pick(kinds);
    let m = *ctx.pick(counts);
    let step = *ctx.pick(&[1, 40]);
    let (main, tokens) = (*ctx.pick(&["none", "a third", "most", "all"]), *ctx.pick(&["none", "a third", "all", "one more"]));
    let unit = *ctx.pick(&UNITS);
    set_unit(unit);
    let mut held = (0, vec![0; kinds]);
    let mut given = vec![];
    for i in 0..n {
        let b = (step * (1 + i as u64 % 4), (0..kinds.min(1 + i % 2)).map(|k| ((i + k) % kinds, 1 + i as u64 % 3)).collect::<Vec<_>>());
        held.0 += b.0;
        for (t, q) in &b.1 {
            held.1[*t] += q;
        }
        given.push(input(0, i as u64, (b.0, &b.1)));
    }
    let share = |of: u64, part: &str| match part {
        "none" => 0,
        "a third" => of / 3,
        "most" => of - of.min(n as u64 + 2 * m as u64 + 5),
        _ => of,
    };
    let mut asked = vec![(0, vec![]); m];
    for (j, a) in asked.iter_mut().enumerate() {
        let (all, m) = (share(held.0, main), m as u64);
        a.0 = all / m + if j == 0 { all % m } else { 0 };
    }
    for t in 0..kinds {
        let more = u64::from(tokens == "one more" && t == kinds / 2);
        match share(held.1[t], tokens) + more {
            0 => {}
            q => asked[t % m].1.push((t, q)),
        }
    }
    let what = format!("{n} inputs of {step}, {}, {}, {} and {kinds} tokens; {m} outputs of {main} of it, and of the tokens {tokens}; in units of {unit}", 2 * step, 3 * step, 4 * step);
    ctx.note(|| what.clone());
    ctx.step();
    ctx.state(&what);
    Crowd { inputs: given, outputs: asked.iter().map(|(v, a)| output((*v, a))).collect(), kinds, what }
}

// ---------------------------------------------------------------- exact sums

pub fn num(v: &Val) -> Result<i128, Violation> {
    let scale = UNIT.with(|x| x.get()).1;
    let n = v.raw() * BigDecimal::new(1.into(), -scale);
    let n = n.to_i128().filter(|whole| n == BigDecimal::from(*whole));
    n.ok_or_else(|| violation("fraction", format!("{v} is a fraction of what there is")))
}

/// amounts by token, the main one included; nothing is kept at zero
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Sum(pub BTreeMap<String, i128>);

pub fn main_token() -> String {
    TokenId::MAIN.to_string()
}

impl Sum {
    pub fn of(&self, token: &str) -> i128 {
        self.0.get(token).copied().unwrap_or(0)
    }
    pub fn main(&self) -> i128 {
        self.of(&main_token())
    }
    pub fn add(&mut self, token: &str, n: i128) {
        let to = self.0.entry(token.to_string()).or_default();
        *to += n;
        if *to == 0 {
            self.0.remove(token);
        }
    }
    fn all(&mut self, value: &Val, assets: &[TransactionAsset], sign: i128) -> Result<(), Violation> {
        self.add(&main_token(), sign * num(value)?);
        for a in assets {
            self.add(a.fingerprint.as_ref(), sign * num(&a.quantity)?);
        }
        Ok(())
    }
    pub fn inputs<'a>(v: impl IntoIterator<Item = &'a UTxODetails>) -> Result<Sum, Violation> {
        let mut s = Sum::default();
        for i in v {
            s.all(&i.value, &i.assets, 1)?;
        }
        Ok(s)
    }
    pub fn outputs<'a>(v: impl IntoIterator<Item = &'a UTxOBuilder>) -> Result<Sum, Violation> {
        let mut s = Sum::default();
        for o in v {
            s.all(&o.value, &o.assets, 1)?;
        }
        Ok(s)
    }
    /// what a result or setup reports
    pub fn reported(value: &Val, assets: &HashMap<TokenId, TransactionAsset>) -> Result<Sum, Violation> {
        let mut s = Sum::default();
        s.add(&main_token(), num(value)?);
        for (t, a) in assets {
            ensure_eq!(t, &a.fingerprint, "token", "a balance under another token");
            let known = (0..100).find(|n| token(*n) == t.as_ref()).map(|t| asset(t, 0));
            ensure!(known.is_some_and(|k| k.policy_id == a.policy_id && k.asset_name == a.asset_name), "token", "{t} is given as {a:?}");
            s.add(t.as_ref(), num(&a.quantity)?);
        }
        Ok(s)
    }
    pub fn minus(&self, o: &Sum) -> Sum {
        let mut s = self.clone();
        for (t, n) in &o.0 {
            s.add(t, -n);
        }
        s
    }
    pub fn short(&self) -> Option<&String> {
        self.0.iter().find(|(_, n)| **n < 0).map(|(t, _)| t)
    }
}

// ---------------------------------------------------------------- fees

/// `base`, plus a fee per input that depends on the input, plus a fee per output and per asset in it
#[derive(Clone, Debug)]
pub struct Fees {
    pub base: u64,
    pub input: u64,
    /// inputs with an odd index cost this much more
    pub odd: u64,
    pub output: u64,
    pub asset: u64,
    pub min_value: u64,
    pub max_size: usize,
    pub inputs: Vec<UTxODetails>,
    pub outputs: Vec<UTxOBuilder>,
}

impl Fees {
    pub fn new(base: u64, input: u64, odd: u64, output: u64, asset: u64) -> Self {
        Fees { base, input, odd, output, asset, min_value: 0, max_size: 0, inputs: vec![], outputs: vec![] }
    }
    pub fn base(&self) -> i128 {
        units(self.base)
    }
    pub fn of_input(&self, i: &UTxODetails) -> i128 {
        units(self.input + self.odd * (u64::from(i.pointer.output_index) % 2))
    }
    pub fn of_output(&self, o: &UTxOBuilder) -> i128 {
        units(self.output + self.asset * o.assets.len() as u64)
    }
    /// the least fee of what was added
    pub fn least(&self) -> i128 {
        self.base() + self.inputs.iter().map(|i| self.of_input(i)).sum::<i128>() + self.outputs.iter().map(|o| self.of_output(o)).sum::<i128>()
    }
}

impl TransactionFeeEstimator for Fees {
    type InputUtxo = UTxODetails;
    type OutputUtxo = UTxOBuilder;
    fn min_required_fee(&self) -> anyhow::Result<Val> {
        Ok(value(self.least()))
    }
    fn fee_for_input(&self, input: &UTxODetails) -> anyhow::Result<Val> {
        Ok(value(self.of_input(input)))
    }
    fn add_input(&mut self, input: UTxODetails) -> anyhow::Result<()> {
        self.inputs.push(input);
        Ok(())
    }
    fn fee_for_output(&self, output: &UTxOBuilder) -> anyhow::Result<Val> {
        Ok(value(self.of_output(output)))
    }
    fn add_output(&mut self, output: UTxOBuilder) -> anyhow::Result<()> {
        self.outputs.push(output);
        Ok(())
    }
    fn min_value_for_output(&mut self, _: UTxOBuilder) -> anyhow::Result<Val> {
        Ok(amount(self.min_value))
    }
    fn current_size(&self) -> anyhow::Result<usize> {
        Ok(self.inputs.len() + self.outputs.len())
    }
    fn max_size(&self) -> anyhow::Result<usize> {
        Ok(self.max_size)
    }
}

// ---------------------------------------------------------------- what every selection keeps to

pub fn pointer(i: &UTxODetails) -> String {
    format!("{}#{}", i.pointer.transaction_id, i.pointer.output_index)
}

/// distinct members of the available ones, as they were
pub fn from_available(chosen: &[UTxODetails], available: &[UTxODetails], what: &str) -> Result<(), Violation> {
    let mut seen = BTreeSet::new();
    for c in chosen {
        ensure!(seen.insert(pointer(c)), "chosen twice", "{what}: {} is chosen twice", pointer(c));
        ensure!(available.contains(c), "not available", "{what}: {} is not one of the available inputs", pointer(c));
    }
    Ok(())
}

/// the reported balances are the sums over what the result contains
pub fn sums(r: &Selected, what: &str) -> Result<(Sum, Sum), Violation> {
    let i = Sum::inputs(r.fixed_inputs.iter().chain(&r.chosen_inputs))?;
    let o = Sum::outputs(r.fixed_outputs.iter().chain(&r.changes))?;
    ensure_eq!(Sum::reported(&r.input_balance, &r.input_asset_balance)?, i, "input balance", "{what}");
    ensure_eq!(Sum::reported(&r.output_balance, &r.output_asset_balance)?, o, "output balance", "{what}");
    Ok((i, o))
}

pub fn show(bags: &[Bag]) -> String {
    let one = |b: &Bag| {
        let a: String = b.1.iter().map(|(t, q)| format!(" {}{}", ["A", "B"][*t], q)).collect();
        format!("({}{a})", b.0)
    };
    bags.iter().map(one).collect::<Vec<_>>().join(" ")
}
