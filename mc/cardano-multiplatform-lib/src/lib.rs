//! Stand-in for the parts of cardano-multiplatform-lib that the repository uses: the same names and signatures, over
//! plain data with the ledger's CBOR encoding (so that sizes and fees are the ledger's).
//!
//! `h_cml` compares the encoding with the sizes and fees that the repository's own tests record for the real library.

use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

/// CBOR, as far as transactions need it.
pub mod cbor {
    pub fn head(out: &mut Vec<u8>, major: u8, n: u64) {
        let m = major << 5;
        match n {
            0..=23 => out.push(m | n as u8),
            24..=0xff => out.extend([m | 24, n as u8]),
            0x100..=0xffff => {
                out.push(m | 25);
                out.extend((n as u16).to_be_bytes());
            }
            0x1_0000..=0xffff_ffff => {
                out.push(m | 26);
                out.extend((n as u32).to_be_bytes());
            }
            _ => {
                out.push(m | 27);
                out.extend(n.to_be_bytes());
            }
        }
    }
    pub fn uint(out: &mut Vec<u8>, n: u64) {
        head(out, 0, n);
    }
    pub fn bytes(out: &mut Vec<u8>, b: &[u8]) {
        head(out, 2, b.len() as u64);
        out.extend(b);
    }
    pub fn text(out: &mut Vec<u8>, s: &str) {
        head(out, 3, s.len() as u64);
        out.extend(s.as_bytes());
    }
}

pub(crate) fn blake2b224(parts: &[&[u8]]) -> Vec<u8> {
    use cryptoxide::digest::Digest;
    let mut h = cryptoxide::blake2b::Blake2b::new(28);
    parts.iter().for_each(|p| h.input(p));
    let mut out = vec![0; 28];
    h.result(&mut out);
    out
}

pub mod error {
    #[derive(Debug, Clone)]
    pub struct JsError(pub String);
    impl std::fmt::Display for JsError {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            self.0.fmt(f)
        }
    }
    impl std::error::Error for JsError {}
    pub type DeserializeError = JsError;
    pub(crate) fn err<T>(s: impl Into<String>) -> Result<T, JsError> {
        Err(JsError(s.into()))
    }
}
use error::{err, JsError};

macro_rules! hash_type {
    ($name:ident, $len:literal) => {
        #[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, serde::Serialize, serde::Deserialize)]
        pub struct $name(pub(crate) Vec<u8>);
        impl $name {
            pub fn from_bytes(b: Vec<u8>) -> Result<Self, crate::error::DeserializeError> {
                if b.len() == $len {
                    Ok(Self(b))
                } else {
                    crate::error::err(format!("{} bytes for a hash of {}", b.len(), $len))
                }
            }
            pub fn to_bytes(&self) -> Vec<u8> {
                self.0.clone()
            }
            pub fn to_hex(&self) -> String {
                hex::encode(&self.0)
            }
            pub fn from_hex(s: &str) -> Result<Self, crate::error::JsError> {
                let b = hex::decode(s).map_err(|e| crate::error::JsError(e.to_string()))?;
                Self::from_bytes(b)
            }
        }
        impl std::fmt::Display for $name {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.write_str(&self.to_hex())
            }
        }
    };
}

pub mod crypto {
    hash_type!(Ed25519KeyHash, 28);
    hash_type!(ScriptHash, 28);
    hash_type!(TransactionHash, 32);
    hash_type!(AuxiliaryDataHash, 32);

    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct PublicKey(pub(crate) Vec<u8>);
    impl PublicKey {
        pub fn from_bytes(b: &[u8]) -> Result<Self, crate::error::JsError> {
            if b.len() == 32 {
                Ok(Self(b.to_vec()))
            } else {
                crate::error::err("a public key has 32 bytes")
            }
        }
    }
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct Vkey(pub(crate) PublicKey);
    impl Vkey {
        pub fn new(k: &PublicKey) -> Self {
            Self(k.clone())
        }
    }
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct Ed25519Signature(pub(crate) Vec<u8>);
    impl Ed25519Signature {
        pub fn from_bytes(b: Vec<u8>) -> Result<Self, crate::error::JsError> {
            if b.len() == 64 {
                Ok(Self(b))
            } else {
                crate::error::err("a signature has 64 bytes")
            }
        }
    }
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct Vkeywitness(pub(crate) Vkey, pub(crate) Ed25519Signature);
    impl Vkeywitness {
        pub fn new(k: &Vkey, s: &Ed25519Signature) -> Self {
            Self(k.clone(), s.clone())
        }
    }
    #[derive(Clone, Debug, Default, PartialEq, Eq)]
    pub struct Vkeywitnesses(pub(crate) Vec<Vkeywitness>);
    impl Vkeywitnesses {
        pub fn new() -> Self {
            Self::default()
        }
        pub fn add(&mut self, w: &Vkeywitness) {
            self.0.push(w.clone());
        }
    }
}
use crypto::*;

pub type PolicyID = ScriptHash;

pub mod address {
    use crate::{
        crypto::*,
        error::{err, JsError},
    };

    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct NetworkInfo {
        network_id: u8,
        protocol_magic: u32,
    }
    impl NetworkInfo {
        pub fn new(network_id: u8, protocol_magic: u32) -> Self {
            Self { network_id, protocol_magic }
        }
        pub fn mainnet() -> Self {
            Self::new(1, 764824073)
        }
        pub fn testnet() -> Self {
            Self::new(0, 1097911063)
        }
        pub fn network_id(&self) -> u8 {
            self.network_id
        }
        pub fn protocol_magic(&self) -> u32 {
            self.protocol_magic
        }
    }

    #[derive(Clone, Debug, PartialEq, Eq)]
    pub enum StakeCredential {
        Key(Ed25519KeyHash),
        Script(ScriptHash),
    }
    impl StakeCredential {
        pub fn from_keyhash(h: &Ed25519KeyHash) -> Self {
            Self::Key(h.clone())
        }
        pub fn from_scripthash(h: &ScriptHash) -> Self {
            Self::Script(h.clone())
        }
        fn parts(&self) -> (u8, &[u8]) {
            match self {
                Self::Key(h) => (0, &h.0),
                Self::Script(h) => (1, &h.0),
            }
        }
    }

    /// a Shelley address, by its bytes
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct Address(pub(crate) Vec<u8>);
    impl Address {
        pub fn to_bytes(&self) -> Vec<u8> {
            self.0.clone()
        }
        pub fn from_bytes(b: Vec<u8>) -> Result<Self, JsError> {
            let ok = match b.first() {
                Some(h) if h >> 4 < 4 => b.len() == 57,
                Some(h) if h >> 4 == 6 || h >> 4 == 7 => b.len() == 29,
                _ => false,
            };
            if ok {
                Ok(Self(b))
            } else {
                err("not an address")
            }
        }
        pub fn from_bech32(s: &str) -> Result<Self, JsError> {
            let (_, data, _) = bech32::decode(s).map_err(|e| JsError(e.to_string()))?;
            let b = <Vec<u8> as bech32::FromBase32>::from_base32(&data).map_err(|e| JsError(e.to_string()))?;
            Self::from_bytes(b)
        }
        pub fn to_bech32(&self, prefix: Option<String>) -> Result<String, JsError> {
            let p = prefix.unwrap_or_else(|| if self.0[0] & 15 == 0 { "addr_test" } else { "addr" }.into());
            bech32::encode(&p, bech32::ToBase32::to_base32(&self.0), bech32::Variant::Bech32).map_err(|e| JsError(e.to_string()))
        }
        pub(crate) fn payment(&self) -> StakeCredential {
            let h = self.0[1..29].to_vec();
            if self.0[0] & 0x10 == 0 {
                StakeCredential::Key(Ed25519KeyHash(h))
            } else {
                StakeCredential::Script(ScriptHash(h))
            }
        }
    }

    pub struct EnterpriseAddress(Address);
    impl EnterpriseAddress {
        pub fn new(network: u8, payment: &StakeCredential) -> Self {
            let (kind, hash) = payment.parts();
            let mut b = vec![0x60 | kind << 4 | network & 15];
            b.extend(hash);
            Self(Address(b))
        }
        pub fn to_address(&self) -> Address {
            self.0.clone()
        }
    }
    pub struct BaseAddress(Address);
    impl BaseAddress {
        pub fn new(network: u8, payment: &StakeCredential, stake: &StakeCredential) -> Self {
            let ((p, ph), (s, sh)) = (payment.parts(), stake.parts());
            let mut b = vec![p << 4 | s << 5 | network & 15];
            b.extend(ph);
            b.extend(sh);
            Self(Address(b))
        }
        pub fn to_address(&self) -> Address {
            self.0.clone()
        }
    }
}
use address::*;

pub mod ledger {
    pub mod common {
        pub mod value {
            use crate::{
                cbor,
                error::{err, JsError},
                MultiAsset,
            };

            #[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Hash, PartialOrd, Ord, serde::Serialize, serde::Deserialize)]
            pub struct BigNum(u64);
            pub type Coin = BigNum;
            impl BigNum {
                #[allow(clippy::should_implement_trait)]
                pub fn from_str(s: &str) -> Result<Self, JsError> {
                    s.parse().map(Self).map_err(|e: std::num::ParseIntError| JsError(e.to_string()))
                }
                pub fn to_str(&self) -> String {
                    self.0.to_string()
                }
                pub fn zero() -> Self {
                    Self(0)
                }
                pub fn checked_mul(&self, o: &Self) -> Result<Self, JsError> {
                    self.0.checked_mul(o.0).map_or_else(|| err("overflow"), |n| Ok(Self(n)))
                }
                pub fn checked_add(&self, o: &Self) -> Result<Self, JsError> {
                    self.0.checked_add(o.0).map_or_else(|| err("overflow"), |n| Ok(Self(n)))
                }
                pub fn checked_sub(&self, o: &Self) -> Result<Self, JsError> {
                    self.0.checked_sub(o.0).map_or_else(|| err("underflow"), |n| Ok(Self(n)))
                }
                pub fn clamped_sub(&self, o: &Self) -> Self {
                    Self(self.0.saturating_sub(o.0))
                }
            }
            impl From<u64> for BigNum {
                fn from(n: u64) -> Self {
                    Self(n)
                }
            }
            impl From<BigNum> for u64 {
                fn from(n: BigNum) -> u64 {
                    n.0
                }
            }

            #[derive(Clone, Debug, PartialEq, Eq)]
            pub struct Value {
                coin: Coin,
                multiasset: Option<MultiAsset>,
            }
            impl Value {
                pub fn new(coin: &Coin) -> Self {
                    Self { coin: *coin, multiasset: None }
                }
                pub fn coin(&self) -> Coin {
                    self.coin
                }
                pub fn set_coin(&mut self, c: &Coin) {
                    self.coin = *c;
                }
                pub fn multiasset(&self) -> Option<MultiAsset> {
                    self.multiasset.clone()
                }
                pub fn set_multiasset(&mut self, m: &MultiAsset) {
                    self.multiasset = Some(m.clone());
                }
                pub fn to_bytes(&self) -> Vec<u8> {
                    let mut out = vec![];
                    match &self.multiasset {
                        Some(m) if !m.0.is_empty() => {
                            cbor::head(&mut out, 4, 2);
                            cbor::uint(&mut out, self.coin.0);
                            cbor::head(&mut out, 5, m.0.len() as u64);
                            for (p, assets) in &m.0 {
                                cbor::bytes(&mut out, &p.0);
                                cbor::head(&mut out, 5, assets.0.len() as u64);
                                for (n, q) in &assets.0 {
                                    cbor::bytes(&mut out, &n.0);
                                    cbor::uint(&mut out, q.0);
                                }
                            }
                        }
                        _ => cbor::uint(&mut out, self.coin.0),
                    }
                    out
                }
            }
        }
    }
    pub mod alonzo {
        pub mod fees {
            use crate::{
                error::JsError,
                ledger::common::value::{BigNum, Coin},
                Transaction,
            };

            #[derive(Clone, Debug, PartialEq, Eq)]
            pub struct LinearFee {
                coefficient: Coin,
                constant: Coin,
            }
            impl LinearFee {
                pub fn new(coefficient: &Coin, constant: &Coin) -> Self {
                    Self { coefficient: *coefficient, constant: *constant }
                }
                pub fn coefficient(&self) -> Coin {
                    self.coefficient
                }
                pub fn constant(&self) -> Coin {
                    self.constant
                }
            }
            pub fn min_no_script_fee(tx: &Transaction, fee: &LinearFee) -> Result<Coin, JsError> {
                BigNum::from(tx.to_bytes().len() as u64).checked_mul(&fee.coefficient)?.checked_add(&fee.constant)
            }
        }
    }
    pub mod babbage {
        pub mod min_ada {
            use crate::{
                address::Address,
                error::JsError,
                ledger::common::value::{BigNum, Coin, Value},
                plutus::ScriptRef,
                Datum, TransactionOutput,
            };

            /// the least coins an output must hold: it depends on the size of the amount itself
            pub fn min_ada_required(output: &TransactionOutput, per_byte: &Coin) -> Result<Coin, JsError> {
                let mut o = output.clone();
                loop {
                    let need = BigNum::from(o.to_bytes().len() as u64 + 160).checked_mul(per_byte)?;
                    let mut v = o.amount();
                    if v.coin() >= need {
                        return Ok(need);
                    }
                    v.set_coin(&need);
                    o.set_amount(&v);
                }
            }
            pub fn min_pure_ada(per_byte: &Coin, address: &Address, datum: &Option<Datum>, script: &Option<ScriptRef>) -> Result<Coin, JsError> {
                let mut o = TransactionOutput::new(address, &Value::new(&BigNum::zero()));
                if let Some(d) = datum {
                    o.set_datum(d);
                }
                if let Some(s) = script {
                    o.set_script_ref(s);
                }
                min_ada_required(&o, per_byte)
            }
        }
    }
}
use ledger::common::value::{BigNum, Coin, Value};

pub mod plutus {
    use serde::{Deserialize, Serialize};
    #[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
    pub struct PlutusData(pub Vec<u8>);
    #[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
    pub struct ScriptRef(pub Vec<u8>);
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct ExUnitPrices;
    impl ExUnitPrices {
        pub fn new(_: &crate::UnitInterval, _: &crate::UnitInterval) -> Self {
            Self
        }
    }
}
use plutus::*;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct UnitInterval;
impl UnitInterval {
    pub fn new(_: &BigNum, _: &BigNum) -> Self {
        Self
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Datum {
    Hash(Vec<u8>),
    Data(PlutusData),
}

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct RequiredSigners(pub Vec<Ed25519KeyHash>);

/// ordered as the ledger orders names: shorter ones first
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct AssetName(pub(crate) Vec<u8>);
impl AssetName {
    pub fn new(b: Vec<u8>) -> Result<Self, JsError> {
        if b.len() <= 32 {
            Ok(Self(b))
        } else {
            err("an asset name has at most 32 bytes")
        }
    }
    pub fn name(&self) -> Vec<u8> {
        self.0.clone()
    }
    pub fn to_bytes(&self) -> Vec<u8> {
        let mut out = vec![];
        cbor::bytes(&mut out, &self.0);
        out
    }
}
impl PartialOrd for AssetName {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for AssetName {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        (self.0.len(), &self.0).cmp(&(o.0.len(), &o.0))
    }
}

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct AssetNames(Vec<AssetName>);
impl AssetNames {
    #[allow(clippy::len_without_is_empty)]
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn get(&self, i: usize) -> AssetName {
        self.0[i].clone()
    }
}
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct PolicyIDs(Vec<PolicyID>);
impl PolicyIDs {
    #[allow(clippy::len_without_is_empty)]
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn get(&self, i: usize) -> PolicyID {
        self.0[i].clone()
    }
}
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Assets(pub(crate) BTreeMap<AssetName, BigNum>);
impl Assets {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn keys(&self) -> AssetNames {
        AssetNames(self.0.keys().cloned().collect())
    }
    pub fn get(&self, n: &AssetName) -> Option<BigNum> {
        self.0.get(n).copied()
    }
    pub fn insert(&mut self, n: &AssetName, q: &BigNum) -> Option<BigNum> {
        self.0.insert(n.clone(), *q)
    }
    #[allow(clippy::len_without_is_empty)]
    pub fn len(&self) -> usize {
        self.0.len()
    }
}
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct MultiAsset(pub(crate) BTreeMap<PolicyID, Assets>);
impl MultiAsset {
    pub fn new() -> Self {
        Self::default()
    }
    #[allow(clippy::len_without_is_empty)]
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn keys(&self) -> PolicyIDs {
        PolicyIDs(self.0.keys().cloned().collect())
    }
    pub fn get(&self, p: &PolicyID) -> Option<Assets> {
        self.0.get(p).cloned()
    }
    pub fn get_asset(&self, p: &PolicyID, n: &AssetName) -> BigNum {
        self.0.get(p).and_then(|a| a.get(n)).unwrap_or_default()
    }
    pub fn insert(&mut self, p: &PolicyID, a: &Assets) -> Option<Assets> {
        self.0.insert(p.clone(), a.clone())
    }
    pub fn set_asset(&mut self, p: &PolicyID, n: &AssetName, q: &BigNum) -> Option<BigNum> {
        self.0.entry(p.clone()).or_default().0.insert(n.clone(), *q)
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct TransactionInput {
    id: TransactionHash,
    index: BigNum,
}
impl TransactionInput {
    pub fn new(id: &TransactionHash, index: &BigNum) -> Self {
        Self { id: id.clone(), index: *index }
    }
    pub fn transaction_id(&self) -> TransactionHash {
        self.id.clone()
    }
    pub fn index(&self) -> BigNum {
        self.index
    }
    fn write(&self, out: &mut Vec<u8>) {
        cbor::head(out, 4, 2);
        cbor::bytes(out, &self.id.0);
        cbor::uint(out, self.index.into());
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct TransactionOutput {
    address: Address,
    amount: Value,
    datum: Option<Datum>,
    script_ref: Option<ScriptRef>,
}
impl TransactionOutput {
    pub fn new(address: &Address, amount: &Value) -> Self {
        Self { address: address.clone(), amount: amount.clone(), datum: None, script_ref: None }
    }
    pub fn address(&self) -> Address {
        self.address.clone()
    }
    pub fn amount(&self) -> Value {
        self.amount.clone()
    }
    pub fn set_amount(&mut self, v: &Value) {
        self.amount = v.clone();
    }
    pub fn datum(&self) -> Option<Datum> {
        self.datum.clone()
    }
    pub fn set_datum(&mut self, d: &Datum) {
        self.datum = Some(d.clone());
    }
    pub fn script_ref(&self) -> Option<ScriptRef> {
        self.script_ref.clone()
    }
    pub fn set_script_ref(&mut self, s: &ScriptRef) {
        self.script_ref = Some(s.clone());
    }
    /// as before Babbage when that suffices
    pub fn to_bytes(&self) -> Vec<u8> {
        let mut out = vec![];
        if self.script_ref.is_none() && !matches!(self.datum, Some(Datum::Data(_))) {
            cbor::head(&mut out, 4, 2 + u64::from(self.datum.is_some()));
            cbor::bytes(&mut out, &self.address.0);
            out.extend(self.amount.to_bytes());
            if let Some(Datum::Hash(h)) = &self.datum {
                cbor::bytes(&mut out, h);
            }
            return out;
        }
        cbor::head(&mut out, 5, 2 + u64::from(self.datum.is_some()) + u64::from(self.script_ref.is_some()));
        cbor::uint(&mut out, 0);
        cbor::bytes(&mut out, &self.address.0);
        cbor::uint(&mut out, 1);
        out.extend(self.amount.to_bytes());
        if let Some(d) = &self.datum {
            cbor::uint(&mut out, 2);
            cbor::head(&mut out, 4, 2);
            match d {
                Datum::Hash(h) => {
                    cbor::uint(&mut out, 0);
                    cbor::bytes(&mut out, h);
                }
                Datum::Data(d) => {
                    cbor::uint(&mut out, 1);
                    cbor::head(&mut out, 6, 24);
                    cbor::bytes(&mut out, &d.0);
                }
            }
        }
        if let Some(s) = &self.script_ref {
            cbor::uint(&mut out, 3);
            cbor::head(&mut out, 6, 24);
            cbor::bytes(&mut out, &s.0);
        }
        out
    }
}

macro_rules! list_type {
    ($name:ident, $of:ident) => {
        #[derive(Clone, Debug, Default, PartialEq, Eq)]
        pub struct $name(pub(crate) Vec<$of>);
        impl $name {
            pub fn new() -> Self {
                Self::default()
            }
            #[allow(clippy::len_without_is_empty)]
            pub fn len(&self) -> usize {
                self.0.len()
            }
            pub fn get(&self, i: usize) -> $of {
                self.0[i].clone()
            }
            pub fn add(&mut self, x: &$of) {
                self.0.push(x.clone());
            }
        }
    };
}
list_type!(TransactionInputs, TransactionInput);
list_type!(TransactionOutputs, TransactionOutput);
list_type!(NativeScripts, NativeScript);

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct ScriptPubkey(Ed25519KeyHash);
impl ScriptPubkey {
    pub fn new(h: &Ed25519KeyHash) -> Self {
        Self(h.clone())
    }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct ScriptNOfK(u32, NativeScripts);
impl ScriptNOfK {
    pub fn new(n: u32, k: &NativeScripts) -> Self {
        Self(n, k.clone())
    }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum NativeScript {
    Pubkey(ScriptPubkey),
    NOfK(ScriptNOfK),
}
impl NativeScript {
    pub fn new_script_pubkey(s: &ScriptPubkey) -> Self {
        Self::Pubkey(s.clone())
    }
    pub fn new_script_n_of_k(s: &ScriptNOfK) -> Self {
        Self::NOfK(s.clone())
    }
    pub fn to_bytes(&self) -> Vec<u8> {
        let mut out = vec![];
        match self {
            Self::Pubkey(s) => {
                cbor::head(&mut out, 4, 2);
                cbor::uint(&mut out, 0);
                cbor::bytes(&mut out, &s.0 .0);
            }
            Self::NOfK(s) => {
                cbor::head(&mut out, 4, 3);
                cbor::uint(&mut out, 3);
                cbor::uint(&mut out, s.0.into());
                cbor::head(&mut out, 4, s.1.len() as u64);
                s.1 .0.iter().for_each(|x| out.extend(x.to_bytes()));
            }
        }
        out
    }
    pub fn hash(&self) -> ScriptHash {
        ScriptHash(blake2b224(&[&[0], &self.to_bytes()]))
    }
}

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct TransactionWitnessSet {
    vkeys: Option<Vkeywitnesses>,
    scripts: Option<NativeScripts>,
}
impl TransactionWitnessSet {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn set_vkeys(&mut self, v: &Vkeywitnesses) {
        self.vkeys = Some(v.clone());
    }
    pub fn set_native_scripts(&mut self, s: &NativeScripts) {
        self.scripts = Some(s.clone());
    }
    pub fn to_bytes(&self) -> Vec<u8> {
        let mut out = vec![];
        cbor::head(&mut out, 5, u64::from(self.vkeys.is_some()) + u64::from(self.scripts.is_some()));
        if let Some(v) = &self.vkeys {
            cbor::uint(&mut out, 0);
            cbor::head(&mut out, 4, v.0.len() as u64);
            for Vkeywitness(k, s) in &v.0 {
                cbor::head(&mut out, 4, 2);
                cbor::bytes(&mut out, &k.0 .0);
                cbor::bytes(&mut out, &s.0);
            }
        }
        if let Some(s) = &self.scripts {
            cbor::uint(&mut out, 1);
            cbor::head(&mut out, 4, s.len() as u64);
            s.0.iter().for_each(|x| out.extend(x.to_bytes()));
        }
        out
    }
}

pub mod metadata {
    use crate::{
        cbor,
        error::{err, JsError},
        ledger::common::value::BigNum,
    };
    use std::collections::BTreeMap;
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct TransactionMetadatum(String);
    impl TransactionMetadatum {
        pub fn new_text(s: String) -> Result<Self, JsError> {
            if s.len() <= 64 {
                Ok(Self(s))
            } else {
                err("metadata text has at most 64 bytes")
            }
        }
    }
    #[derive(Clone, Debug, Default, PartialEq, Eq)]
    pub struct GeneralTransactionMetadata(BTreeMap<BigNum, TransactionMetadatum>);
    impl GeneralTransactionMetadata {
        pub fn new() -> Self {
            Self::default()
        }
        pub fn insert(&mut self, k: &BigNum, v: &TransactionMetadatum) {
            self.0.insert(*k, v.clone());
        }
    }
    #[derive(Clone, Debug, Default, PartialEq, Eq)]
    pub struct AuxiliaryData(GeneralTransactionMetadata);
    impl AuxiliaryData {
        pub fn new() -> Self {
            Self::default()
        }
        pub fn set_metadata(&mut self, m: &GeneralTransactionMetadata) {
            self.0 = m.clone();
        }
        pub fn to_bytes(&self) -> Vec<u8> {
            let mut out = vec![];
            cbor::head(&mut out, 5, self.0 .0.len() as u64);
            for (k, v) in &self.0 .0 {
                cbor::uint(&mut out, (*k).into());
                cbor::text(&mut out, &v.0);
            }
            out
        }
    }
}
use metadata::AuxiliaryData;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct TransactionBody {
    inputs: TransactionInputs,
    outputs: TransactionOutputs,
    fee: Coin,
    auxiliary_data_hash: Option<AuxiliaryDataHash>,
}
impl TransactionBody {
    pub fn new(inputs: &TransactionInputs, outputs: &TransactionOutputs, fee: &Coin, ttl: Option<BigNum>) -> Self {
        assert!(ttl.is_none(), "the stand-in knows no time to live");
        Self { inputs: inputs.clone(), outputs: outputs.clone(), fee: *fee, auxiliary_data_hash: None }
    }
    pub fn set_auxiliary_data_hash(&mut self, h: &AuxiliaryDataHash) {
        self.auxiliary_data_hash = Some(h.clone());
    }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Transaction {
    body: TransactionBody,
    witnesses: TransactionWitnessSet,
    auxiliary: Option<AuxiliaryData>,
}
impl Transaction {
    pub fn new(body: &TransactionBody, witnesses: &TransactionWitnessSet, auxiliary: Option<AuxiliaryData>) -> Self {
        Self { body: body.clone(), witnesses: witnesses.clone(), auxiliary }
    }
    pub fn to_bytes(&self) -> Vec<u8> {
        let mut out = vec![];
        cbor::head(&mut out, 4, 4);
        let b = &self.body;
        cbor::head(&mut out, 5, 3 + u64::from(b.auxiliary_data_hash.is_some()));
        cbor::uint(&mut out, 0);
        cbor::head(&mut out, 4, b.inputs.len() as u64);
        b.inputs.0.iter().for_each(|i| i.write(&mut out));
        cbor::uint(&mut out, 1);
        cbor::head(&mut out, 4, b.outputs.len() as u64);
        b.outputs.0.iter().for_each(|o| out.extend(o.to_bytes()));
        cbor::uint(&mut out, 2);
        cbor::uint(&mut out, b.fee.into());
        if let Some(h) = &b.auxiliary_data_hash {
            cbor::uint(&mut out, 7);
            cbor::bytes(&mut out, &h.0);
        }
        out.extend(self.witnesses.to_bytes());
        out.push(0xf5);
        match &self.auxiliary {
            Some(a) => out.extend(a.to_bytes()),
            None => out.push(0xf6),
        }
        out
    }
}

pub mod builders {
    pub mod witness_builder {
        use crate::crypto::Ed25519KeyHash;
        /// who signs for a native script: so many, or these
        #[derive(Clone, Debug, PartialEq, Eq)]
        pub enum NativeScriptWitnessInfo {
            Count(usize),
            Vkeys(Vec<Ed25519KeyHash>),
        }
        impl NativeScriptWitnessInfo {
            pub fn num_signatures(n: usize) -> Self {
                Self::Count(n)
            }
            pub fn vkeys(v: Vec<Ed25519KeyHash>) -> Self {
                Self::Vkeys(v)
            }
        }
        #[derive(Clone, Debug, PartialEq, Eq)]
        pub struct PartialPlutusWitness(pub Vec<u8>);
    }
    pub mod input_builder {
        use super::witness_builder::*;
        use crate::{address::StakeCredential, crypto::Ed25519KeyHash, error::*, plutus::PlutusData, *};

        #[derive(Clone, Debug, PartialEq, Eq)]
        pub enum Witness {
            Key(Ed25519KeyHash),
            Native(NativeScript, NativeScriptWitnessInfo),
            Plutus(PartialPlutusWitness, RequiredSigners, PlutusData),
        }
        #[derive(Clone, Debug, PartialEq, Eq)]
        pub struct InputBuilderResult {
            pub input: TransactionInput,
            pub utxo_info: TransactionOutput,
            pub witness: Witness,
        }
        pub struct SingleInputBuilder(TransactionInput, TransactionOutput);
        impl SingleInputBuilder {
            pub fn new(input: &TransactionInput, utxo_info: &TransactionOutput) -> Self {
                Self(input.clone(), utxo_info.clone())
            }
            fn with(&self, witness: Witness) -> Result<InputBuilderResult, JsError> {
                Ok(InputBuilderResult { input: self.0.clone(), utxo_info: self.1.clone(), witness })
            }
            pub fn payment_key(&self) -> Result<InputBuilderResult, JsError> {
                match self.1.address().payment() {
                    StakeCredential::Key(k) => self.with(Witness::Key(k)),
                    StakeCredential::Script(_) => err("the address is not a payment key"),
                }
            }
            pub fn native_script(&self, script: &NativeScript, info: &NativeScriptWitnessInfo) -> Result<InputBuilderResult, JsError> {
                match self.1.address().payment() {
                    StakeCredential::Script(h) if h == script.hash() => self.with(Witness::Native(script.clone(), info.clone())),
                    _ => err("the address is not that of the script"),
                }
            }
            pub fn plutus_script(&self, w: &PartialPlutusWitness, signers: &RequiredSigners, datum: &PlutusData) -> Result<InputBuilderResult, JsError> {
                match self.1.address().payment() {
                    StakeCredential::Script(_) => self.with(Witness::Plutus(w.clone(), signers.clone(), datum.clone())),
                    StakeCredential::Key(_) => err("the address is not that of a script"),
                }
            }
        }
    }
    pub mod output_builder {
        use crate::TransactionOutput;
        #[derive(Clone, Debug, PartialEq, Eq)]
        pub struct SingleOutputBuilderResult(pub TransactionOutput);
        impl SingleOutputBuilderResult {
            pub fn new(o: &TransactionOutput) -> Self {
                Self(o.clone())
            }
        }
    }
    pub mod tx_builder {
        use super::{input_builder::*, output_builder::*, witness_builder::*};
        use crate::{
            error::*,
            ledger::{
                alonzo::fees::{min_no_script_fee, LinearFee},
                babbage::min_ada::min_ada_required,
                common::value::{BigNum, Coin},
            },
            plutus::ExUnitPrices,
            *,
        };
        use std::collections::BTreeSet;

        #[derive(Clone, Debug, PartialEq)]
        pub struct TransactionBuilderConfig {
            pub fee_algo: LinearFee,
            pub coins_per_utxo_byte: Option<Coin>,
            pub coins_per_utxo_word: Option<Coin>,
            pub pool_deposit: Coin,
            pub key_deposit: Coin,
            pub max_value_size: u32,
            pub max_tx_size: u32,
        }
        #[derive(Clone, Debug, Default)]
        pub struct TransactionBuilderConfigBuilder {
            fee_algo: Option<LinearFee>,
            byte: Option<Coin>,
            word: Option<Coin>,
            pool: Option<Coin>,
            key: Option<Coin>,
            value_size: Option<u32>,
            tx_size: Option<u32>,
        }
        macro_rules! set {
            ($($name:ident($field:ident, $t:ty)),*) => {
                $(pub fn $name(&self, x: &$t) -> Self {
                    Self { $field: Some(x.clone()), ..self.clone() }
                })*
            };
        }
        impl TransactionBuilderConfigBuilder {
            pub fn new() -> Self {
                Self::default()
            }
            set!(fee_algo(fee_algo, LinearFee), coins_per_utxo_byte(byte, Coin), coins_per_utxo_word(word, Coin), pool_deposit(pool, Coin), key_deposit(key, Coin));
            pub fn max_value_size(&self, n: u32) -> Self {
                Self { value_size: Some(n), ..self.clone() }
            }
            pub fn max_tx_size(&self, n: u32) -> Self {
                Self { tx_size: Some(n), ..self.clone() }
            }
            pub fn ex_unit_prices(&self, _: &ExUnitPrices) -> Self {
                self.clone()
            }
            pub fn collateral_percentage(&self, _: u32) -> Self {
                self.clone()
            }
            pub fn max_collateral_inputs(&self, _: u32) -> Self {
                self.clone()
            }
            pub fn build(&self) -> Result<TransactionBuilderConfig, JsError> {
                let need = |what: &'static str| JsError(format!("uninitialized field: {what}"));
                Ok(TransactionBuilderConfig {
                    fee_algo: self.fee_algo.clone().ok_or(need("fee_algo"))?,
                    coins_per_utxo_byte: self.byte,
                    coins_per_utxo_word: self.word,
                    pool_deposit: self.pool.ok_or(need("pool_deposit"))?,
                    key_deposit: self.key.ok_or(need("key_deposit"))?,
                    max_value_size: self.value_size.ok_or(need("max_value_size"))?,
                    max_tx_size: self.tx_size.ok_or(need("max_tx_size"))?,
                })
            }
        }

        #[derive(Clone, Debug)]
        pub struct TransactionBuilder {
            config: TransactionBuilderConfig,
            inputs: Vec<InputBuilderResult>,
            outputs: Vec<TransactionOutput>,
            fee: Option<Coin>,
        }
        impl TransactionBuilder {
            pub fn new(config: &TransactionBuilderConfig) -> Self {
                Self { config: config.clone(), inputs: vec![], outputs: vec![], fee: None }
            }
            pub fn set_fee(&mut self, fee: &Coin) {
                self.fee = Some(*fee);
            }
            pub fn add_input(&mut self, r: &InputBuilderResult) -> Result<(), JsError> {
                self.inputs.push(r.clone());
                Ok(())
            }
            pub fn add_output(&mut self, r: &SingleOutputBuilderResult) -> Result<(), JsError> {
                if r.0.amount().to_bytes().len() > self.config.max_value_size as usize {
                    return err("the value is too large");
                }
                let least = min_ada_required(&r.0, &self.config.coins_per_utxo_byte.unwrap_or(BigNum::zero()))?;
                if r.0.amount().coin() < least {
                    return err(format!("an output of {} below the least of {}", r.0.amount().coin().to_str(), least.to_str()));
                }
                self.outputs.push(r.0.clone());
                Ok(())
            }
            /// the transaction with made-up signatures, one for each distinct key
            fn with_fee(&self, fee: &Coin) -> Transaction {
                let mut keys = BTreeSet::new();
                let mut more = 0;
                let mut scripts: Vec<NativeScript> = vec![];
                for i in &self.inputs {
                    match &i.witness {
                        Witness::Key(k) => drop(keys.insert(k.clone())),
                        Witness::Native(s, info) => {
                            if !scripts.contains(s) {
                                scripts.push(s.clone());
                                match info {
                                    NativeScriptWitnessInfo::Count(n) => more += n,
                                    NativeScriptWitnessInfo::Vkeys(v) => keys.extend(v.iter().cloned()),
                                }
                            }
                        }
                        Witness::Plutus(_, signers, _) => keys.extend(signers.0.iter().cloned()),
                    }
                }
                let mut w = TransactionWitnessSet::new();
                if keys.len() + more > 0 {
                    let mut v = Vkeywitnesses::new();
                    for _ in 0..keys.len() + more {
                        let k = Vkey::new(&PublicKey::from_bytes(&[0; 32]).unwrap());
                        v.add(&Vkeywitness::new(&k, &Ed25519Signature::from_bytes(vec![0; 64]).unwrap()));
                    }
                    w.set_vkeys(&v);
                }
                if !scripts.is_empty() {
                    w.set_native_scripts(&NativeScripts(scripts));
                }
                let inputs = TransactionInputs(self.inputs.iter().map(|i| i.input.clone()).collect());
                Transaction::new(&TransactionBody::new(&inputs, &TransactionOutputs(self.outputs.clone()), fee, None), &w, None)
            }
            pub fn min_fee(&self, _scripts: bool) -> Result<Coin, JsError> {
                min_no_script_fee(&self.with_fee(&BigNum::from(0x1_0000_0000)), &self.config.fee_algo)
            }
            pub fn fee_for_input(&self, r: &InputBuilderResult) -> Result<Coin, JsError> {
                let mut with = self.clone();
                with.add_input(r)?;
                with.min_fee(false)?.checked_sub(&self.min_fee(false)?)
            }
            pub fn fee_for_output(&self, r: &SingleOutputBuilderResult) -> Result<Coin, JsError> {
                let mut with = self.clone();
                with.add_output(r)?;
                with.min_fee(false)?.checked_sub(&self.min_fee(false)?)
            }
            pub fn full_size(&self) -> Result<usize, JsError> {
                match &self.fee {
                    Some(f) => Ok(self.with_fee(f).to_bytes().len()),
                    None => err("fee not specified"),
                }
            }
        }
    }
}
