use dcspark_core::tx::{TransactionAsset, TransactionId, UTxOBuilder, UTxODetails, UtxoPointer};
use dcspark_core::*;
use deps::serde_json;
use mclib::{ensure, ensure_eq, Ctx, End, RunResult, Scenario, Tier, Violation};
use std::fmt::Debug;
use std::sync::Arc;

const EDGE: [u64; 13] = [
    0,
    1,
    2,
    9,
    10,
    255,
    u32::MAX as u64,
    1 << 32,
    i64::MAX as u64,
    1 << 63,
    u64::MAX - 2,
    u64::MAX - 1,
    u64::MAX,
];

macro_rules! arith {
    ($ctx:expr, $T:ident, $a:expr, $b:expr) => {{
        let (a, b) = ($a, $b);
        let x = $T::new(a);
        let exact = a as u128 + b as u128;
        let fits = u64::try_from(exact).ok();
        ensure_eq!(x.checked_add(b), fits.map($T::new), "checked_add", "{a} + {b}");
        ensure_eq!(x.saturating_add(b), $T::new(fits.unwrap_or(u64::MAX)), "saturating_add", "{a} + {b}");
        ensure_eq!(x.checked_next(), (a != u64::MAX).then(|| $T::new(a.wrapping_add(1))), "checked_next", "next of {a}");
        ensure_eq!(x.saturating_next(), $T::new(if a == u64::MAX { a } else { a + 1 }), "saturating_next", "next of {a}");
        let y = $T::new(b);
        ensure_eq!(x.cmp(&y), a.cmp(&b), "cmp", "{a} cmp {b}");
        ensure_eq!(x.partial_cmp(&y), Some(a.cmp(&b)), "cmp", "{a} partial_cmp {b}");
        ensure_eq!(x == y, a == b, "eq", "{a} == {b}");
        ensure!(x >= $T::MIN && x <= $T::MAX, "min max", "{a} outside MIN..MAX");
        ensure_eq!(u64::from(x), a, "into u64", "{a}");
        ensure_eq!($T::from(a), x, "from u64", "{a}");
        ensure_eq!(u64::from($T::MIN), 0, "min", "MIN");
        ensure_eq!(u64::from($T::MAX), u64::MAX, "max", "MAX");
        ensure_eq!(u64::from($T::default()), 0, "default", "default");
    }};
}

fn pairs(ctx: &mut Ctx) -> RunResult {
    let a = *ctx.pick(&EDGE);
    let b = *ctx.pick(&EDGE);
    ctx.step();
    ctx.note(|| format!("a = {a}, b = {b}"));
    arith!(ctx, BlockNumber, a, b);
    arith!(ctx, SlotNumber, a, b);
    arith!(ctx, OutputIndex, a, b);
    ensure_eq!(BlockNumber::new(a).saturating_sub(b), BlockNumber::new(if b > a { 0 } else { a - b }), "saturating_sub", "{a} - {b}");
    ensure_eq!(BlockNumber::new(a).into_inner(), a, "into_inner", "{a}");
    ensure_eq!(Timestamp::new(a).cmp(&Timestamp::new(b)), a.cmp(&b), "cmp", "timestamps {a} {b}");
    ensure_eq!(Timestamp::new(a).into_inner(), a, "into_inner", "{a}");
    ensure_eq!(u64::from(Timestamp::from(a)), a, "into_inner", "{a}");
    if a < (1 << 40) {
        let d = Timestamp::new(a).into_unix_time().duration_since(std::time::UNIX_EPOCH).map(|d| (d.as_secs(), d.subsec_nanos()));
        ensure_eq!(d.ok(), Some((a, 0)), "unix time", "{a}");
    }
    ctx.state(&(a, b));
    ctx.outcome(&(a as u128 + b as u128, a.cmp(&b)));
    Ok(End::Done)
}

/// every chain of up to `depth` steps on one number, tracked exactly
fn chains(ctx: &mut Ctx, depth: usize) -> RunResult {
    let start = *ctx.pick(&[0, 1, u64::MAX - 3, u64::MAX]);
    let mut m = start;
    let (mut b, mut s, mut o) = (BlockNumber::new(m), SlotNumber::new(m), OutputIndex::new(m));
    ctx.note(|| format!("start {start}"));
    for _ in 0..depth {
        ctx.step();
        let op = ctx.choose(5);
        let k = [0, 1, 2, u64::MAX][if op == 0 || op == 3 { 0 } else { ctx.choose(4) }];
        match op {
            0 => {
                (b, s, o) = (b.saturating_next(), s.saturating_next(), o.saturating_next());
                m = m.saturating_add(1);
            }
            1 => {
                (b, s, o) = (b.saturating_add(k), s.saturating_add(k), o.saturating_add(k));
                m = if m as u128 + k as u128 > u64::MAX as u128 { u64::MAX } else { m + k };
            }
            2 => {
                let want = m.checked_add(k);
                ensure_eq!(b.checked_add(k).map(u64::from), want, "checked_add", "{m} + {k}");
                ensure_eq!(s.checked_add(k).map(u64::from), want, "checked_add", "{m} + {k}");
                ensure_eq!(o.checked_add(k).map(u64::from), want, "checked_add", "{m} + {k}");
                if let Some(w) = want {
                    (b, s, o) = (b.checked_add(k).unwrap(), s.checked_add(k).unwrap(), o.checked_add(k).unwrap());
                    m = w;
                }
            }
            3 => {
                let want = m.checked_add(1);
                ensure_eq!(b.checked_next().map(u64::from), want, "checked_next", "{m}");
                ensure_eq!(s.checked_next().map(u64::from), want, "checked_next", "{m}");
                ensure_eq!(o.checked_next().map(u64::from), want, "checked_next", "{m}");
            }
            _ => {
                b = b.saturating_sub(k);
                m = if k > m { 0 } else { m - k };
                s = SlotNumber::new(m);
                o = OutputIndex::new(m);
            }
        }
        ctx.note(|| format!("op {op} {k} -> {m}"));
        ensure_eq!((u64::from(b), u64::from(s), u64::from(o)), (m, m, m), "chain", "op {op} with {k}");
        ctx.state(&m);
    }
    ctx.outcome(&m);
    Ok(End::Done)
}

pub fn c08(t: Tier) -> Vec<Scenario> {
    let d = t.of(5, 6);
    vec![
        Scenario::new("pairs", "all pairs of 13 boundary numbers, every operation, against 128-bit arithmetic", 0, pairs),
        Scenario::new("chains", format!("all chains of {d} operations from 4 start values"), 0, move |c| chains(c, d)),
    ]
}

// ---------------------------------------------------------------- C09

fn strict_u64(s: &str) -> Option<u64> {
    if s.is_empty() || !s.bytes().all(|b| b.is_ascii_digit()) {
        return None;
    }
    s.parse().ok()
}

trait Num: Sized + std::str::FromStr + std::fmt::Display + Debug + PartialEq + serde_like::Both {
    fn make(n: u64) -> Self;
    const NAME: &'static str;
    const STRINGS: bool;
}

mod serde_like {
    use super::*;
    pub trait Both {
        fn to_json(&self) -> String;
        fn from_json(s: &str) -> Option<Self>
        where
            Self: Sized;
    }
    macro_rules! both {
        ($($T:ty),*) => { $(
            impl Both for $T {
                fn to_json(&self) -> String { serde_json::to_string(self).unwrap() }
                fn from_json(s: &str) -> Option<Self> { serde_json::from_str(s).ok() }
            }
        )* };
    }
    both!(BlockNumber, SlotNumber, OutputIndex, Timestamp, BlockId, TransactionId, Address, TokenId, PolicyId, AssetName,
          UtxoPointer, TransactionAsset, UTxODetails, UTxOBuilder);
}
use serde_like::Both;

macro_rules! num {
    ($T:ident, $strings:expr) => {
        impl Num for $T {
            fn make(n: u64) -> Self {
                $T::new(n)
            }
            const NAME: &'static str = stringify!($T);
            const STRINGS: bool = $strings;
        }
    };
}
num!(BlockNumber, true);
num!(SlotNumber, true);
num!(Timestamp, true);
num!(OutputIndex, false);

fn text_of<T: Num>(s: &str) -> Result<(), Violation> {
    let n = T::NAME;
    let got = s.parse::<T>().ok();
    match strict_u64(s) {
        Some(v) => ensure_eq!(got, Some(T::make(v)), format!("parse {n}"), "{s:?}"),
        None => {
            // a leading plus sign is tolerated, nothing else is
            let plus = s.strip_prefix('+').and_then(strict_u64);
            ensure!(got.is_none() || got == plus.map(T::make), format!("parse {n}"), "{s:?} read as {got:?}");
        }
    }
    // quoted in JSON
    if !s.contains(['"', '\\']) {
        let got = T::from_json(&format!("\"{s}\""));
        match strict_u64(s) {
            Some(v) if T::STRINGS => ensure_eq!(got, Some(T::make(v)), format!("json string {n}"), "\"{s}\""),
            _ => {
                let plus = strict_u64(s.strip_prefix('+').unwrap_or(s));
                ensure!(got.is_none() || got == plus.map(T::make), format!("json string {n}"), "\"{s}\" read as {got:?}");
            }
        }
    }
    // bare in JSON
    let got = T::from_json(s);
    let canonical = strict_u64(s).filter(|v| v.to_string() == s);
    match canonical {
        Some(v) => ensure_eq!(got, Some(T::make(v)), format!("json number {n}"), "{s}"),
        None => {
            let trimmed = strict_u64(s.trim()).filter(|v| v.to_string() == s.trim());
            ensure!(got.is_none() || got == trimmed.map(T::make), format!("json number {n}"), "{s:?} read as {got:?}");
        }
    }
    Ok(())
}

fn number_of<T: Num + Copy>(v: u64) -> Result<(), Violation> {
    let n = T::NAME;
    let x = T::make(v);
    ensure_eq!(x.to_string(), v.to_string(), format!("display {n}"), "{v}");
    ensure_eq!(x.to_string().parse::<T>().ok(), Some(T::make(v)), format!("display/parse {n}"), "{v}");
    ensure_eq!(x.to_json(), v.to_string(), format!("json {n}"), "{v}");
    ensure_eq!(T::from_json(&x.to_json()), Some(T::make(v)), format!("json round trip {n}"), "{v}");
    Ok(())
}

macro_rules! formats {
    ($T:ident, $v:expr) => {{
        let (v, x) = ($v, $T::new($v));
        ensure_eq!(format!("{x:b} {x:#o} {x:x} {x:#X} {x:e} {x:E} {x:>25} {x:025}"),
                   format!("{v:b} {v:#o} {v:x} {v:#X} {v:e} {v:E} {v:>25} {v:025}"), "formats", "{v}");
    }};
}

fn numbers(ctx: &mut Ctx) -> RunResult {
    let v = *ctx.pick(&EDGE);
    ctx.step();
    ctx.note(|| format!("number {v}"));
    number_of::<BlockNumber>(v)?;
    number_of::<SlotNumber>(v)?;
    number_of::<Timestamp>(v)?;
    number_of::<OutputIndex>(v)?;
    formats!(BlockNumber, v);
    formats!(SlotNumber, v);
    formats!(OutputIndex, v);
    ctx.state(&v);
    ctx.outcome(&v);
    Ok(End::Done)
}

fn all_texts(s: &str) -> Result<(), Violation> {
    text_of::<BlockNumber>(s)?;
    text_of::<SlotNumber>(s)?;
    text_of::<Timestamp>(s)?;
    text_of::<OutputIndex>(s)
}

const CHARS: [char; 11] = ['0', '1', '9', '-', '+', '.', 'e', ' ', 'x', '_', 'f'];

fn texts(ctx: &mut Ctx, len: usize) -> RunResult {
    let n = ctx.choose(len + 1);
    let s: String = (0..n).map(|_| *ctx.pick(&CHARS)).collect();
    ctx.step();
    ctx.note(|| format!("text {s:?}"));
    all_texts(&s)?;
    ctx.state(&s);
    ctx.outcome(&strict_u64(&s));
    Ok(End::Done)
}

fn long_texts(ctx: &mut Ctx) -> RunResult {
    let base = *ctx.pick(&[
        "18446744073709551615",
        "18446744073709551616",
        "18446744073709551614",
        "9223372036854775808",
        "99999999999999999999",
        "184467440737095516150",
        "00000000000000000000000000001",
        "000018446744073709551615",
        "null",
        "true",
        "[]",
        "{}",
        "[1]",
        "1e3",
        "\u{0663}",
        "１",
    ]);
    let deco = *ctx.pick(&["", "-", "+", " "]);
    let tail = *ctx.pick(&["", " ", ".0", "e0", "\n", "u64"]);
    let s = format!("{deco}{base}{tail}");
    ctx.step();
    ctx.note(|| format!("text {s:?}"));
    all_texts(&s)?;
    ctx.state(&s);
    ctx.outcome(&strict_u64(&s));
    Ok(End::Done)
}

const IDS: [&str; 16] = ["", "a", "A", " a ", "00", "0", "a.b", "0xAB", "0xab", "0123456789ABCDEF0123456789abcdef0123456789ABCDEF0123456789abcdef01", "héllo wörld", "\"quoted\"\\", "0123456789abcdef0123456789abcdef", "line\nbreak", "null", "😀\u{0}"];

macro_rules! id {
    ($T:ident, $s:expr) => {{
        let s: &str = $s;
        let x = $T::new(s.to_string());
        let json = serde_json::to_string(s).unwrap();
        ensure_eq!(x.to_string(), s, concat!("display ", stringify!($T)), "{s:?}");
        ensure_eq!(AsRef::<str>::as_ref(&x), s, concat!("as_ref ", stringify!($T)), "{s:?}");
        ensure_eq!(x.to_json(), json, concat!("json ", stringify!($T)), "{s:?}");
        ensure_eq!($T::from_json(&json), Some(x.clone()), concat!("json round trip ", stringify!($T)), "{s:?}");
        ensure!($T::from_json("5").is_none() && $T::from_json("null").is_none(), "junk", "{s:?}");
        for o in IDS {
            let y = $T::new(o.to_string());
            ensure_eq!(x == y, s == o, concat!("eq ", stringify!($T)), "{s:?} {o:?}");
            ensure_eq!(x.cmp(&y), s.cmp(o), concat!("cmp ", stringify!($T)), "{s:?} {o:?}");
        }
    }};
}

fn identifiers(ctx: &mut Ctx) -> RunResult {
    let s = *ctx.pick(&IDS);
    ctx.step();
    ctx.note(|| format!("identifier {s:?}"));
    id!(BlockId, s);
    id!(TransactionId, s);
    id!(Address, s);
    id!(TokenId, s);
    id!(PolicyId, s);
    id!(AssetName, s);
    ensure_eq!(s.parse::<TokenId>().ok(), Some(TokenId::new(s.to_string())), "parse TokenId", "{s:?}");
    ensure_eq!(s.parse::<Address>().ok(), Some(Address::new(s.to_string())), "parse Address", "{s:?}");
    for p in ["", "a", "A", "0", "0X", "hé", "x", "a0", s] {
        ensure_eq!(BlockId::new(s.to_string()).starts_with(p), s.starts_with(p), "starts_with", "{s:?} {p:?}");
        ensure_eq!(TransactionId::new(s.to_string()).starts_with(p), s.starts_with(p), "starts_with", "{s:?} {p:?}");
        ensure_eq!(Address::new(s.to_string()).starts_with(p), s.starts_with(p), "starts_with", "{s:?} {p:?}");
    }
    ctx.state(s);
    ctx.outcome(s);
    Ok(End::Done)
}

fn records(ctx: &mut Ctx) -> RunResult {
    let s = *ctx.pick(&IDS);
    let n = *ctx.pick(&EDGE);
    let assets = ctx.choose(3);
    let extra = ctx.flag();
    let metadata = ctx.pick(&[serde_json::Value::Null, serde_json::json!({"0": ["x", {"B": n}, true], "a": s}), serde_json::json!([]), serde_json::json!(s)]).clone();
    ctx.step();
    let pointer = UtxoPointer { transaction_id: TransactionId::new(s.to_string()), output_index: OutputIndex::new(n) };
    ensure_eq!(UtxoPointer::from_json(&pointer.to_json()), Some(pointer.clone()), "pointer", "{pointer:?}");
    ensure_eq!(pointer.to_string(), format!("{s}@{n}"), "pointer text", "{pointer:?}");
    let assets: Vec<TransactionAsset> = (0..assets)
        .map(|i| TransactionAsset {
            policy_id: PolicyId::new(format!("p{i}{s}")),
            asset_name: AssetName::new(s.to_string()),
            fingerprint: TokenId::new(format!("f{i}")),
            quantity: Value::from(n),
        })
        .collect();
    for a in &assets {
        ensure_eq!(TransactionAsset::from_json(&a.to_json()), Some(a.clone()), "asset", "{a:?}");
    }
    let d = UTxODetails {
        pointer,
        address: Address::new(s.to_string()),
        value: Value::from(n),
        assets: assets.clone(),
        metadata: Arc::new(metadata),
        extra: extra.then(|| s.to_string()),
    };
    ctx.note(|| format!("{d:?}"));
    ensure_eq!(UTxODetails::from_json(&d.to_json()), Some(d.clone()), "utxo details", "{}", d.to_json());
    let mut b = UTxOBuilder::new(d.address.clone(), d.value.clone(), assets);
    b.extra = d.extra.clone();
    ensure_eq!(UTxOBuilder::from_json(&b.to_json()), Some(b.clone()), "utxo builder", "{}", b.to_json());
    ctx.state(&d.to_json());
    ctx.outcome(&d.to_json());
    Ok(End::Done)
}

pub fn c09(t: Tier) -> Vec<Scenario> {
    let len = t.of(5, 6);
    vec![
        Scenario::new("numbers", "13 boundary numbers through text, JSON and every format", 0, numbers),
        Scenario::new("texts", format!("every text of at most {len} characters of \"019-+.e x_f\", bare and quoted"), 0, move |c| texts(c, len)),
        Scenario::new("long-texts", "16 long literals and JSON values x 4 prefixes x 6 suffixes", 0, long_texts),
        Scenario::new("identifiers", "16 awkward strings as every identifier type", 0, identifiers),
        Scenario::new("records", "pointers, assets, outputs with 4 metadata and output builders through JSON", 0, records),
    ]
}
