//! U02: outputs of the Cardano library and of the UTxO representation, converted into one another.

use cardano_multiplatform_lib::address::{Address as CmlAddress, BaseAddress, EnterpriseAddress, StakeCredential};
use cardano_multiplatform_lib::builders::input_builder::Witness;
use cardano_multiplatform_lib::builders::witness_builder::{NativeScriptWitnessInfo, PartialPlutusWitness};
use cardano_multiplatform_lib::crypto::{Ed25519KeyHash, ScriptHash, TransactionHash};
use cardano_multiplatform_lib::ledger::common::value::{BigNum, Value as CmlValue};
use cardano_multiplatform_lib::plutus::{PlutusData, ScriptRef};
use cardano_multiplatform_lib::{Assets, Datum, MultiAsset, NativeScript, PolicyID, RequiredSigners, ScriptPubkey, TransactionInput, TransactionOutput};
use cardano_utils::payment_credentials::CardanoPaymentCredentials;
use cardano_utils::utxo::*;
use dcspark_core::tx::{TransactionAsset, TransactionId, UTxOBuilder, UTxODetails, UtxoPointer};
use dcspark_core::{Address, AssetName, OutputIndex, PolicyId, Regulated, Value};
use deps::bigdecimal::BigDecimal;
use mclib::{ensure, ensure_eq, violation, with_hash_seed, Ctx, End, RunResult, Scenario, Tier, Violation};
use std::collections::BTreeMap;
use std::str::FromStr;
use std::sync::Arc;

pub fn key(n: u8) -> Ed25519KeyHash {
    Ed25519KeyHash::from_bytes(vec![n; 28]).unwrap()
}
pub fn script_of(n: u8) -> NativeScript {
    NativeScript::new_script_pubkey(&ScriptPubkey::new(&key(n)))
}
pub fn key_address(network: u8, n: u8, base: bool) -> CmlAddress {
    let k = StakeCredential::from_keyhash(&key(n));
    if base {
        BaseAddress::new(network, &k, &StakeCredential::from_keyhash(&key(99))).to_address()
    } else {
        EnterpriseAddress::new(network, &k).to_address()
    }
}
pub fn script_address(network: u8, script: &NativeScript, base: bool) -> CmlAddress {
    let s = StakeCredential::from_scripthash(&script.hash());
    if base {
        BaseAddress::new(network, &s, &StakeCredential::from_keyhash(&key(98))).to_address()
    } else {
        EnterpriseAddress::new(network, &s).to_address()
    }
}

const NAMES: [&[u8]; 3] = [b"", b"abcd", &[0xff; 32]];
type Tokens = BTreeMap<(Vec<u8>, Vec<u8>), u128>;

fn policy(n: u8) -> PolicyID {
    ScriptHash::from_bytes(vec![0x50 + n; 28]).unwrap()
}

/// the tokens of a value, those of quantity zero aside
fn tokens(v: &CmlValue) -> Tokens {
    let mut t = Tokens::new();
    if let Some(m) = v.multiasset() {
        let ps = m.keys();
        for p in (0..ps.len()).map(|i| ps.get(i)) {
            let assets = m.get(&p).unwrap();
            let ns = assets.keys();
            for n in (0..ns.len()).map(|i| ns.get(i)) {
                let q = u128::from(u64::from(assets.get(&n).unwrap()));
                if q > 0 {
                    t.insert((p.to_bytes(), n.name()), q);
                }
            }
        }
    }
    t
}

fn whole(v: &Value<Regulated>) -> Result<u128, Violation> {
    u128::from_str(&v.to_string()).map_err(|e| violation("amount", format!("{v}: {e}")))
}

/// the tokens that a list of assets names; each must be named once
fn named(assets: &[TransactionAsset], what: &str) -> Result<Tokens, Violation> {
    let mut t = Tokens::new();
    for a in assets {
        let k = (hex::decode(a.policy_id.as_ref()), hex::decode(a.asset_name.as_ref()));
        let (Ok(p), Ok(n)) = k else { return Err(violation("asset", format!("{what}: {a:?}"))) };
        let f = cardano_utils::fingerprint(&a.policy_id, &a.asset_name).map_err(|e| violation("fingerprint", format!("{what}: {e}")))?;
        ensure_eq!(a.fingerprint, f, "fingerprint", "{what}: of {a:?}");
        let q = whole(&a.quantity)?;
        ensure!(q == 0 || t.insert((p, n), q).is_none(), "asset", "{what}: named twice in {assets:?}");
    }
    Ok(t)
}

fn same(got: &TransactionOutput, want: &TransactionOutput, what: &str) -> Result<(), Violation> {
    ensure_eq!(got.address(), want.address(), "address", "{what}");
    ensure_eq!(got.amount().coin(), want.amount().coin(), "coins", "{what}");
    ensure_eq!(tokens(&got.amount()), tokens(&want.amount()), "tokens", "{what}");
    ensure_eq!(got.datum(), want.datum(), "datum", "{what}");
    ensure_eq!(got.script_ref(), want.script_ref(), "script", "{what}");
    Ok(())
}

/// quantities of up to 3 names under 2 policies
fn multiasset(ctx: &mut Ctx, quantities: &[Option<u64>]) -> Option<MultiAsset> {
    let shape = ctx.choose(3);
    if shape == 0 {
        return None;
    }
    let mut m = MultiAsset::new();
    if shape == 2 {
        for p in 0..2 {
            let mut a = Assets::new();
            for n in NAMES {
                if let Some(q) = ctx.pick(quantities) {
                    a.insert(&cardano_multiplatform_lib::AssetName::new(n.to_vec()).unwrap(), &BigNum::from(*q));
                }
            }
            m.insert(&policy(p), &a);
        }
    }
    Some(m)
}

/// many tokens
fn crowd(ctx: &mut Ctx) -> RunResult {
    let policies = *ctx.pick(&[1usize, 3, 20]);
    let names = *ctx.pick(&[1usize, 9, 40, 130]);
    let longest = *ctx.pick(&[0usize, 4, 30]);
    let coin = *ctx.pick(&[0u64, u64::MAX]);
    let twice = ctx.flag();
    let mut m = MultiAsset::new();
    for p in 0..policies {
        let mut a = Assets::new();
        for n in 0..names {
            let mut name = vec![b'a' + n as u8 % 3; n * longest / names];
            name.extend((n as u16).to_be_bytes());
            a.insert(&cardano_multiplatform_lib::AssetName::new(name).unwrap(), &BigNum::from((1 << (n % 63)) + p as u64));
        }
        m.insert(&policy(p as u8), &a);
    }
    let mut amount = CmlValue::new(&BigNum::from(coin));
    amount.set_multiasset(&m);
    let output = TransactionOutput::new(&key_address(1, 7, true), &amount);
    let what = format!("{policies} policies, {names} names of up to {} bytes under each, {coin} coins, repeated {twice}", longest + 2);
    ctx.note(|| what.clone());
    ctx.step();
    ctx.state(&what);
    let err = |e: anyhow::Error| violation("refused", format!("{what}: {e}"));
    let input = TransactionInput::new(&TransactionHash::from_bytes(vec![3; 32]).unwrap(), &BigNum::from(1));
    let mut details = utxo_details_from_io((input.clone(), output.clone())).map_err(err)?;
    let mut builder = utxo_builder_from_output(output.clone()).map_err(err)?;
    let mut want = tokens(&amount);
    for (assets, value) in [(&mut details.assets, &details.value), (&mut builder.assets, &builder.value)] {
        ensure_eq!(whole(value)?, u128::from(coin), "coins", "{what}");
        ensure!(named(assets, &what)? == want, "tokens", "{what}: became {assets:?}");
        if twice {
            assets.extend(assets.clone());
        }
    }
    if twice {
        want.values_mut().for_each(|q| *q *= 2);
    }
    let back = utxo_details_to_cml_input(&details, &CardanoPaymentCredentials::PaymentKey).map_err(err)?;
    for o in [back.utxo_info, utxo_builder_to_cml_output(&builder).map_err(err)?] {
        ensure_eq!(u64::from(o.amount().coin()), coin, "coins", "{what}");
        ensure!(tokens(&o.amount()) == want, "tokens", "{what}: became {:?}", tokens(&o.amount()));
    }
    Ok(End::Done)
}

/// from the library and back
fn there_and_back(ctx: &mut Ctx, wide: bool) -> RunResult {
    let network = ctx.choose(2) as u8;
    let base = ctx.flag();
    let credentials = ctx.choose(3);
    let (address, creds) = match credentials {
        0 => (key_address(network, 7, base), CardanoPaymentCredentials::PaymentKey),
        1 => {
            let native_script = script_of(3);
            let witness_info = NativeScriptWitnessInfo::num_signatures(1);
            (script_address(network, &native_script, base), CardanoPaymentCredentials::NativeScript { native_script, witness_info })
        }
        _ => (
            script_address(network, &script_of(4), base),
            CardanoPaymentCredentials::PlutusScript { partial_witness: PartialPlutusWitness(vec![1]), required_signers: RequiredSigners(vec![key(5)]), datum: PlutusData(vec![2]) },
        ),
    };
    let coin = *ctx.pick(&[0u64, 1, 1_500_000, (1 << 53) + 1, u64::MAX]);
    let quantities: &[Option<u64>] = if wide { &[None, Some(1), Some(u64::MAX)] } else { &[None, Some(0), Some(1 << 32)] };
    let assets = if wide { multiasset(ctx, quantities) } else { multiasset(ctx, &quantities[..2]) };
    let index = if wide { 1 } else { *ctx.pick(&[0u64, 1, 255, 65_536, u64::MAX]) };
    let id = TransactionHash::from_bytes((0..32).map(|i| if wide { i } else { 255 - i * 7 }).collect()).unwrap();
    let datum = if wide { None } else { ctx.pick(&[None, Some(Datum::Hash(vec![9; 32])), Some(Datum::Data(PlutusData(vec![])))]).clone() };
    let script = if wide { None } else { ctx.pick(&[None, Some(ScriptRef(vec![1, 2]))]).clone() };
    let mut amount = CmlValue::new(&BigNum::from(coin));
    if let Some(m) = &assets {
        amount.set_multiasset(m);
    }
    let mut output = TransactionOutput::new(&address, &amount);
    if let Some(d) = &datum {
        output.set_datum(d);
    }
    if let Some(s) = &script {
        output.set_script_ref(s);
    }
    let input = TransactionInput::new(&id, &BigNum::from(index));
    let what = format!("output {index} of {id} with {coin} coins and {:?}, datum {datum:?}, script {script:?}", tokens(&amount));
    ctx.note(|| what.clone());
    ctx.step();
    ctx.state(&(credentials, network, base, coin, tokens(&amount), index, datum.is_some(), script.is_some()));
    let err = |e: anyhow::Error| violation("refused", format!("{what}: {e}"));

    let details = utxo_details_from_io((input.clone(), output.clone())).map_err(err)?;
    ensure_eq!(details.pointer.transaction_id.to_string(), id.to_hex(), "transaction id", "{what}");
    ensure_eq!(u64::from(details.pointer.output_index), index, "index", "{what}");
    ensure_eq!(details.address.to_string(), address.to_bech32(None).unwrap(), "address", "{what}");
    ensure_eq!(whole(&details.value)?, u128::from(coin), "coins", "{what}");
    ensure_eq!(named(&details.assets, &what)?, tokens(&amount), "tokens", "{what}");
    let back = utxo_details_to_cml_input(&details, &creds).map_err(err)?;
    ensure_eq!(back.input, input, "input", "{what}");
    same(&back.utxo_info, &output, &what)?;
    let witness = match (&creds, &back.witness) {
        (CardanoPaymentCredentials::PaymentKey, Witness::Key(k)) => *k == key(7),
        (CardanoPaymentCredentials::NativeScript { native_script, witness_info }, Witness::Native(s, i)) => s == native_script && i == witness_info,
        (CardanoPaymentCredentials::PlutusScript { partial_witness, required_signers, datum }, Witness::Plutus(w, r, d)) => w == partial_witness && r == required_signers && d == datum,
        _ => false,
    };
    ensure!(witness, "credentials", "{what}: {creds:?} became {:?}", back.witness);
    // credentials of another kind do not fit the address
    let wrong = if credentials == 0 { CardanoPaymentCredentials::NativeScript { native_script: script_of(3), witness_info: NativeScriptWitnessInfo::num_signatures(1) } } else { CardanoPaymentCredentials::PaymentKey };
    ensure!(utxo_details_to_cml_input(&details, &wrong).is_err(), "credentials", "{what}: {wrong:?} is accepted for {creds:?}");

    let builder = utxo_builder_from_output(output.clone()).map_err(err)?;
    ensure_eq!(builder.address, details.address, "address", "{what}");
    ensure_eq!(builder.value, details.value, "coins", "{what}");
    ensure_eq!(named(&builder.assets, &what)?, tokens(&amount), "tokens", "{what}");
    same(&utxo_builder_to_cml_output(&builder).map_err(err)?, &output, &what)?;
    Ok(End::Done)
}

fn value(text: &str) -> Value<Regulated> {
    Value::new(BigDecimal::from_str(text).unwrap())
}

const QUANTITIES: [&str; 4] = ["1", "18446744073709551614", "18446744073709551615", "0.5"];

/// lists of assets, the same ones several times too
fn lists(ctx: &mut Ctx, most: usize) -> RunResult {
    let n = ctx.choose(most + 1);
    let coin = *ctx.pick(&["0", "1", "1.9", "18446744073709551615", "18446744073709551616", "-1"]);
    let mut assets = vec![];
    let mut halves = Tokens::new();
    for _ in 0..n {
        let (p, a) = (ctx.choose(2) as u8, *ctx.pick(&NAMES[..2]));
        let q = *ctx.pick(&QUANTITIES);
        let policy_id = PolicyId::new(policy(p).to_hex());
        let asset_name = AssetName::new(hex::encode(a));
        let fingerprint = cardano_utils::fingerprint(&policy_id, &asset_name).unwrap();
        *halves.entry((policy(p).to_bytes(), a.to_vec())).or_default() += q.parse::<u128>().map_or(1, |q| 2 * q);
        assets.push(TransactionAsset { policy_id, asset_name, fingerprint, quantity: value(q) });
    }
    // a fraction of a unit is dropped
    let sums: Tokens = halves.into_iter().map(|(t, q)| (t, q / 2)).filter(|t| t.1 > 0).collect();
    let coins = coin.split('.').next().unwrap();
    let what = format!("{coin} coins with {:?}", assets.iter().map(|a| format!("{} {}", a.quantity, a.fingerprint)).collect::<Vec<_>>());
    ctx.note(|| what.clone());
    ctx.step();
    let address = Address::new(key_address(1, 7, true).to_bech32(None).unwrap());
    let fits = sums.values().chain(coins.parse::<u128>().iter()).all(|q| *q <= u64::MAX.into()) && coin != "-1";
    let builder = UTxOBuilder::new(address.clone(), value(coin), assets.clone());
    let pointer = UtxoPointer { transaction_id: TransactionId::new("11".repeat(32)), output_index: OutputIndex::new(3) };
    let details = UTxODetails { pointer, address, value: value(coin), assets, metadata: Arc::new(Default::default()), extra: None };
    let got = [
        utxo_builder_to_cml_output(&builder),
        utxo_details_to_cml_input(&details, &CardanoPaymentCredentials::PaymentKey).map(|r| r.utxo_info),
    ];
    for got in got {
        match got {
            Err(e) => ensure!(!fits, "refused", "{what}: {e}"),
            Ok(o) => {
                ensure!(fits, "overflow", "{what}: became {:?} coins and {:?}", o.amount().coin(), tokens(&o.amount()));
                ensure_eq!(u64::from(o.amount().coin()).to_string(), coins.to_string(), "coins", "{what}");
                ensure_eq!(tokens(&o.amount()), sums, "tokens", "{what}");
                ensure!(o.datum().is_none() && o.script_ref().is_none(), "extra", "{what}: a datum or script from nowhere");
            }
        }
    }
    ctx.state(&(coin, &sums));
    Ok(End::Done)
}

/// what no transaction can hold is refused, not altered
fn malformed(ctx: &mut Ctx) -> RunResult {
    let good = utxo_details_from_io({
        let mut v = CmlValue::new(&BigNum::from(5));
        let mut m = MultiAsset::new();
        m.set_asset(&policy(0), &cardano_multiplatform_lib::AssetName::new(b"abcd".to_vec()).unwrap(), &BigNum::from(6));
        v.set_multiasset(&m);
        (TransactionInput::new(&TransactionHash::from_bytes(vec![1; 32]).unwrap(), &BigNum::from(0)), TransactionOutput::new(&key_address(1, 7, false), &v))
    })
    .map_err(|e| violation("refused", e.to_string()))?;
    let mut d = good.clone();
    let cases = ["nothing", "short id", "id not hex", "address", "name too long", "name not hex", "policy too short", "policy not hex", "extra", "negative quantity"];
    let case = ctx.choose(cases.len());
    match case {
        0 => {}
        1 => d.pointer.transaction_id = TransactionId::new("11"),
        2 => d.pointer.transaction_id = TransactionId::new("zz".repeat(32)),
        3 => d.address = Address::new("addr1nothing"),
        4 => d.assets[0].asset_name = AssetName::new("61".repeat(33)),
        5 => d.assets[0].asset_name = AssetName::new("6"),
        6 => d.assets[0].policy_id = PolicyId::new("50".repeat(27)),
        7 => d.assets[0].policy_id = PolicyId::new("xy".repeat(28)),
        8 => d.extra = Some("{".into()),
        _ => d.assets[0].quantity = value("-1"),
    }
    let what = format!("{} of {d:?}", cases[case]);
    ctx.note(|| what.clone());
    ctx.step();
    let r = utxo_details_to_cml_input(&d, &CardanoPaymentCredentials::PaymentKey);
    ensure_eq!(r.is_ok(), case == 0, "malformed", "{what}: as an input");
    if !(1..3).contains(&case) {
        let b = UTxOBuilder { address: d.address, value: d.value, assets: d.assets, extra: d.extra };
        ensure_eq!(utxo_builder_to_cml_output(&b).is_ok(), case == 0, "malformed", "{what}: as an output");
    }
    Ok(End::Done)
}

pub fn u02(tier: Tier) -> Vec<Scenario> {
    let most = tier.of(3, 4);
    vec![
        Scenario::new("tokens", "key, native script and Plutus outputs on base and enterprise addresses of both networks, 5 amounts, no, empty or every choice of 3 quantities of 3 names under 2 policies; converted to the UTxO representation and back", 0, |c: &mut Ctx| with_hash_seed(0, || there_and_back(c, true))),
        Scenario::new("everything else", "the same addresses and amounts, tokens of quantity zero, 5 indices, 3 datums, with and without script", 0, |c: &mut Ctx| with_hash_seed(1, || there_and_back(c, false))),
        Scenario::new("lists of assets", format!("every list of up to {most} of 4 tokens, repeated ones included, in 4 quantities, 6 amounts, fractions included, converted to outputs and inputs"), 0, move |c: &mut Ctx| with_hash_seed(0, || lists(c, most))),
        Scenario::new("many tokens", "1, 3 or 20 policies with 1 to 130 names of up to 2, 6 or 32 bytes, and back, as they are and listed twice", 0, |c: &mut Ctx| with_hash_seed(0, || crowd(c))),
        Scenario::new("malformed", "9 outputs that no transaction can hold, and one that it can", 0, malformed),
    ]
}
