//! U03: the assumed costs and sizes of transactions. U04: multisig plans.

use crate::convert::{key, key_address, script_address};
use cardano_multiplatform_lib::crypto::{AuxiliaryDataHash, Ed25519Signature, PublicKey, TransactionHash, Vkey, Vkeywitness, Vkeywitnesses};
use cardano_multiplatform_lib::ledger::alonzo::fees::{min_no_script_fee, LinearFee};
use cardano_multiplatform_lib::ledger::common::value::{BigNum, Value};
use cardano_multiplatform_lib::metadata::{AuxiliaryData, GeneralTransactionMetadata, TransactionMetadatum};
use cardano_multiplatform_lib::*;
use cardano_utils::multisig_plan::MultisigPlan;
use cardano_utils::network_id::NetworkInfo;
use cryptoxide::digest::Digest;
use mclib::{ensure, ensure_eq, violation, Ctx, End, RunResult, Scenario, Tier, Violation};

pub fn number(n: BigNum) -> u128 {
    u64::from(n).into()
}

pub fn magic_metadata(text: &str) -> AuxiliaryData {
    let mut m = GeneralTransactionMetadata::new();
    m.insert(&BigNum::from(87), &TransactionMetadatum::new_text(text.into()).unwrap());
    let mut a = AuxiliaryData::new();
    a.set_metadata(&m);
    a
}

/// a transaction as the ledger sees it
#[derive(Clone, Default)]
pub struct Shape {
    pub inputs: Vec<TransactionInput>,
    pub outputs: Vec<TransactionOutput>,
    pub signatures: usize,
    pub scripts: Option<NativeScripts>,
    pub magic: Option<String>,
}

impl Shape {
    pub fn transaction(&self, fee: u64) -> Transaction {
        let mut inputs = TransactionInputs::new();
        self.inputs.iter().for_each(|i| inputs.add(i));
        let mut outputs = TransactionOutputs::new();
        self.outputs.iter().for_each(|o| outputs.add(o));
        let mut body = TransactionBody::new(&inputs, &outputs, &BigNum::from(fee), None);
        let mut w = TransactionWitnessSet::new();
        if self.signatures > 0 {
            let mut v = Vkeywitnesses::new();
            let k = Vkey::new(&PublicKey::from_bytes(&[1; 32]).unwrap());
            (0..self.signatures).for_each(|_| v.add(&Vkeywitness::new(&k, &Ed25519Signature::from_bytes(vec![2; 64]).unwrap())));
            w.set_vkeys(&v);
        }
        if let Some(s) = &self.scripts {
            w.set_native_scripts(s);
        }
        let aux = self.magic.as_deref().map(magic_metadata);
        if aux.is_some() {
            body.set_auxiliary_data_hash(&AuxiliaryDataHash::from_bytes(vec![3; 32]).unwrap());
        }
        Transaction::new(&body, &w, aux)
    }
    pub fn size(&self, fee: u64) -> usize {
        self.transaction(fee).to_bytes().len()
    }
    /// the least fee the ledger accepts, written into the transaction in as many bytes as a fee of this network may take
    pub fn least_fee(&self, fee: &LinearFee, written: u64) -> u128 {
        number(min_no_script_fee(&self.transaction(written), fee).unwrap())
    }
}

/// the sizes and fees that the repository's tests record for the real library
pub fn conformance() {
    let mainnet = LinearFee::new(&BigNum::from(44), &BigNum::from(155_381));
    let least = |s: &Shape| s.least_fee(&mainnet, 800_000);
    let empty = Shape::default();
    assert_eq!(least(&empty), 156_041);
    let input = |n: u8, index: u64| TransactionInput::new(&TransactionHash::from_bytes(vec![n; 32]).unwrap(), &BigNum::from(index));
    assert_eq!(least(&Shape { inputs: vec![input(0, 0)], ..empty.clone() }), 157_625);
    assert_eq!(least(&Shape { inputs: vec![input(0, 0), input(1, 200)], ..empty.clone() }), 159_253);
    let n = BigNum::from(45_000_000_000_000_000);
    let mut v = Value::new(&n);
    let mut m = MultiAsset::new();
    m.set_asset(&PolicyID::from_bytes(vec![2; 28]).unwrap(), &AssetName::new(vec![3; 28]).unwrap(), &n);
    v.set_multiasset(&m);
    assert_eq!(least(&Shape { outputs: vec![TransactionOutput::new(&key_address(0, 0, true), &v)], ..empty.clone() }), 162_245);
    assert_eq!(least(&Shape { signatures: 1, ..empty }), 160_573);
    for (text, fee) in [("", 176), ("mainnet.cardano-evm.c1", 1144), ("localnet.cardano-evm.c1", 1188), ("devnet.cardano-evm.c1", 1100)] {
        assert_eq!(magic_metadata(text).to_bytes().len() * 44, fee);
    }
}

/// the script, as the ledger writes it
fn script_bytes(quorum: u32, keys: &[Vec<u8>]) -> Vec<u8> {
    let small = |major: u8, n: usize| match n {
        0..=23 => vec![major << 5 | n as u8],
        24..=255 => vec![major << 5 | 24, n as u8],
        256..=65_535 => vec![major << 5 | 25, (n >> 8) as u8, n as u8],
        _ => vec![major << 5 | 26, (n >> 24) as u8, (n >> 16) as u8, (n >> 8) as u8, n as u8],
    };
    let mut out = vec![0x83, 3];
    out.extend(small(0, quorum as usize));
    out.extend(small(4, keys.len()));
    for k in keys {
        out.extend([0x82, 0, 0x58, 28]);
        out.extend(k);
    }
    out
}

pub fn plan(quorum: u32, keys: usize) -> MultisigPlan {
    let keys: Vec<String> = (0..keys).map(|i| hex::encode(key(i as u8).to_bytes())).collect();
    serde_json::from_value(serde_json::json!({"quorum": quorum, "keys": keys})).unwrap()
}

pub const CUSTOM: [(u64, u64, u32); 4] = [(44, 155_381, 16_384), (0, 7, 100), (1, 0, 1 << 20), (1_000_003, 1, 4_000_000_000)];

/// a network with its fee coefficient and constant and largest transaction size
pub fn network(ctx: &mut Ctx) -> (NetworkInfo, (u64, u64, u32)) {
    let i = ctx.choose(2 + CUSTOM.len());
    if i < 2 {
        let n = serde_json::from_str(["\"mainnet\"", "\"testnet\""][i]).unwrap();
        return (n, (44, 155_381, 16_384));
    }
    let c = CUSTOM[i - 2];
    let n = serde_json::json!({"custom": {
        "protocol_magic": 42 + i, "network_id": i, "linear_fee_coefficient": c.0.to_string(), "linear_fee_constant": c.1.to_string(),
        "coins_per_utxo_word": "34482", "pool_deposit": "500", "key_deposit": "2", "max_value_size": 5000 + i, "max_tx_size": c.2,
    }});
    (serde_json::from_value(n).unwrap(), c)
}

pub fn output(name: Option<usize>, amount: u64) -> TransactionOutput {
    let mut v = Value::new(&BigNum::from(amount));
    if let Some(len) = name {
        let mut m = MultiAsset::new();
        m.set_asset(&PolicyID::from_bytes(vec![2; 28]).unwrap(), &AssetName::new(vec![3; len]).unwrap(), &BigNum::from(amount));
        v.set_multiasset(&m);
    }
    TransactionOutput::new(&key_address(1, 1, true), &v)
}

fn shapes(ctx: &mut Ctx, counts: &'static [usize]) -> RunResult {
    let (net, (coefficient, constant, largest)) = network(ctx);
    let keys = *ctx.pick(&[0usize, 1, 3, 24, 30]);
    let quorum = *ctx.pick(&[0usize, 1, 2, 23, 30]);
    let p = plan(quorum as u32, keys);
    let fee = net.linear_fee();
    ensure_eq!((number(fee.coefficient()), number(fee.constant())), (coefficient.into(), constant.into()), "linear fee", "{net:?}");
    ensure_eq!(net.max_tx_size(), largest as usize, "largest size", "{net:?}");
    let fixed = number(net.assumed_empty_transaction()) + number(net.assumed_cost_native_script(&p));
    let [per_input, per_output, per_witness] = [net.assumed_cost_one_input(), net.assumed_cost_one_output(), net.assumed_cost_one_witness()].map(number);
    let m = *ctx.pick(counts);
    let n = *ctx.pick(counts);
    let magic = *ctx.pick(&[None, Some(("m", 0usize)), Some(("m", 1)), Some(("m", 23)), Some(("m", 24)), Some(("m", 64)), Some((" ", 50)), Some(("\u{e9}", 32)), Some(("\u{10348}", 16))]);
    let magic = magic.map(|(c, n)| c.repeat(n));
    let magic_cost = magic.as_ref().map_or(0, |t| number(net.assumed_cost_metadata_protocol_magic(t)));
    ctx.note(|| format!("{net:?}, {quorum} of {keys}, {n} inputs, {m} outputs, magic {magic:?}"));
    if let Some(t) = &magic {
        let bytes = magic_metadata(t).to_bytes().len() as u128;
        ensure!(magic_cost >= bytes * u128::from(coefficient), "cost of a text too small", "{net:?}: {t:?} of {bytes} bytes: {magic_cost}");
    }
    ctx.state(&(coefficient, constant, quorum, keys, n, m, &magic));
    for index in [0, 23, 255] {
        for (name, amount) in [(None, 0), (Some(0), 1), (Some(32), u64::MAX)] {
            ctx.step();
            let input = TransactionInput::new(&TransactionHash::from_bytes(vec![1; 32]).unwrap(), &BigNum::from(index));
            let shape = Shape { inputs: vec![input; n], outputs: vec![output(name, amount); m], signatures: quorum, scripts: Some(p.to_script()), magic: magic.clone() };
            let what = || format!("{net:?}: {quorum} of {keys}, {n} inputs of index {index}, {m} outputs with {name:?} and {amount}, magic {magic:?}");
            let assumed = fixed + per_input * n as u128 + per_output * m as u128 + per_witness * quorum as u128 + magic_cost;
            let least = shape.least_fee(&fee, u64::MAX);
            ensure!(assumed >= least, "fee assumed too small", "{}: {assumed} for {least}", what());
            if magic.is_none() {
                let size = net.estimated_size_empty() + net.estimated_size_input() * n + net.estimated_size_output() * m + net.estimate_size_overhead(&p);
                let real = shape.size(u64::MAX);
                ensure!(size >= real, "size assumed too small", "{}: {size} for {real}", what());
            }
        }
    }
    Ok(End::Done)
}

/// what is handed to the library is what was configured
fn configuration(ctx: &mut Ctx) -> RunResult {
    let (net, (coefficient, constant, largest)) = network(ctx);
    ctx.note(|| format!("{net:?}"));
    ctx.step();
    let b = net.transaction_builder();
    ensure_eq!(b.fee_algo, LinearFee::new(&BigNum::from(coefficient), &BigNum::from(constant)), "builder fee", "{net:?}");
    ensure_eq!(b.max_tx_size, largest, "builder size", "{net:?}");
    let info = net.network_info();
    let (id, magic, deposits, value_size) = match &net {
        NetworkInfo::Mainnet => (1, 764_824_073, (500_000_000, 2_000_000), 5000),
        NetworkInfo::Testnet => (0, 1_097_911_063, (500_000_000, 2_000_000), 5000),
        NetworkInfo::Custom { network_id, protocol_magic, max_value_size, .. } => (*network_id, *protocol_magic, (500, 2), *max_value_size),
    };
    ensure_eq!((info.network_id(), info.protocol_magic()), (id, magic), "network", "{net:?}");
    ensure_eq!((number(b.pool_deposit), number(b.key_deposit)), deposits, "builder deposits", "{net:?}");
    ensure_eq!(b.max_value_size, value_size, "builder value size", "{net:?}");
    Ok(End::Done)
}

pub fn u03(tier: Tier) -> Vec<Scenario> {
    conformance();
    let counts: &[usize] = tier.of(&[0, 1, 2, 24, 300], &[0, 1, 2, 3, 23, 24, 255, 256, 300]);
    vec![
        Scenario::new("shapes", format!("6 networks, quorums of 0 to 30 out of 0 to 30 keys, {counts:?} inputs of index 0 to 255 and outputs with no or one token, metadata texts of 0 to 64 bytes in characters of 1, 2 and 4; the assumed fee against the least fee, the estimated size against the size"), 0, move |c: &mut Ctx| shapes(c, counts)),
        Scenario::new("configuration", "6 networks", 0, configuration),
    ]
}

// ---------------------------------------------------------------- plans

struct Dir(std::path::PathBuf);
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn scratch() -> Dir {
    use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
    static N: AtomicU64 = AtomicU64::new(0);
    let d = std::env::temp_dir().join(format!("mc-cml-{}-{}", std::process::id(), N.fetch_add(1, Relaxed)));
    std::fs::create_dir_all(&d).unwrap();
    Dir(d)
}

fn plans(ctx: &mut Ctx, most: usize) -> RunResult {
    let keys: Vec<Vec<u8>> = if most == 0 {
        let (n, order) = (*ctx.pick(&[23u16, 24, 60, 255, 256, 300]), ctx.choose(3) as u16);
        let place = |i: u16| [i, n - i, i * 7 % 5][usize::from(order)];
        (0..n).map(|i| place(i).to_be_bytes().repeat(14)).collect()
    } else {
        let n = ctx.choose(most + 1);
        (0..n).map(|_| vec![*ctx.pick(&[0x0a, 0xfe]); 28]).collect()
    };
    let quorum = *ctx.pick(&[0u32, 1, 2, 23, 24, 255, 256, 65_536, u32::MAX]);
    let upper = ctx.flag();
    let text: Vec<String> = keys.iter().map(|k| if upper { hex::encode_upper(k) } else { hex::encode(k) }).collect();
    let json = serde_json::json!({"quorum": quorum, "keys": text}).to_string();
    let what = format!("{quorum} of {text:?}");
    ctx.note(|| what.clone());
    ctx.step();
    ctx.state(&(quorum, &keys));
    let d = scratch();
    let path = d.0.join("plan.json");
    std::fs::write(&path, &json).unwrap();
    let p = MultisigPlan::load(&path).map_err(|e| violation("refused", format!("{what}: {e:?}")))?;
    ensure_eq!(p.quorum, quorum, "quorum", "{what}");
    ensure_eq!(p.keys.iter().map(|k| k.0.to_bytes()).collect::<Vec<_>>(), keys, "keys", "{what}");
    let bytes = script_bytes(quorum, &keys);
    let scripts = p.to_script();
    ensure_eq!(scripts.len(), 1, "script", "{what}");
    ensure_eq!(hex::encode(scripts.get(0).to_bytes()), hex::encode(&bytes), "script", "{what}");
    let mut h = cryptoxide::blake2b::Blake2b::new(28);
    h.input(&[0]);
    h.input(&bytes);
    let mut hash = vec![0; 28];
    h.result(&mut hash);
    ensure_eq!(p.hash().to_bytes(), hash, "hash", "{what}");
    for network in [0, 1, 15] {
        let a = p.address(network);
        let mut want = vec![0x70 | network];
        want.extend(&hash);
        ensure_eq!(a.to_bytes(), want, "address", "{what}, network {network}");
        ensure_eq!(a, script_address(network, &scripts.get(0), false), "address", "{what}, network {network}");
    }
    Ok(End::Done)
}

fn no_plans(ctx: &mut Ctx) -> RunResult {
    let key = "0a".repeat(28);
    let texts = [
        format!(r#"{{"quorum": 1, "keys": ["{key}"]}}"#),
        String::new(),
        "{".into(),
        format!(r#"{{"keys": ["{key}"]}}"#),
        r#"{"quorum": 1}"#.into(),
        format!(r#"{{"quorum": -1, "keys": ["{key}"]}}"#),
        format!(r#"{{"quorum": 4294967296, "keys": ["{key}"]}}"#),
        format!(r#"{{"quorum": 1, "keys": ["{key}", "{key}0a"]}}"#),
        format!(r#"{{"quorum": 1, "keys": ["{}"]}}"#, &key[2..]),
        format!(r#"{{"quorum": 1, "keys": ["{}g"]}}"#, &key[1..]),
        r#"{"quorum": 1, "keys": [""]}"#.into(),
        r#"{"quorum": 1, "keys": [7]}"#.into(),
    ];
    let i = ctx.choose(texts.len() + 1);
    let d = scratch();
    let path = d.0.join("plan.json");
    if i < texts.len() {
        std::fs::write(&path, &texts[i]).unwrap();
    }
    ctx.note(|| texts.get(i).cloned().unwrap_or("no file".into()));
    ctx.step();
    let r: Result<(), Violation> = match MultisigPlan::load(&path) {
        Ok(p) => {
            ensure!(i == 0, "accepted", "{:?} became {p:?}", texts.get(i));
            Ok(())
        }
        Err(e) => {
            ensure!(i != 0, "refused", "{}: {e}", texts[0]);
            Ok(())
        }
    };
    r?;
    Ok(End::Done)
}

pub fn u04(tier: Tier) -> Vec<Scenario> {
    let most = tier.of(6, 9);
    vec![
        Scenario::new("plans", format!("every list of up to {most} keys of 2, 9 quorums, two spellings, written to a file and loaded; 3 networks"), 0, move |c: &mut Ctx| plans(c, most)),
        Scenario::new("large plans", "23 to 300 keys, ascending, descending and repeated, treated in the same way", 0, |c: &mut Ctx| plans(c, 0)),
        Scenario::new("malformed plans", "11 files that hold no plan, a missing one, and one that does", 0, no_plans),
    ]
}
