use crate::num::{grid, Dec};
use dcspark_core::{algo, cardano, evm, Balance, Normalized, Regulated, Rule, TokenId, Value};
use deps::bigdecimal::num_bigint::BigInt;
use deps::bigdecimal::BigDecimal;
use mclib::{ensure, ensure_eq, Ctx, End, RunResult, Scenario, Tier, Violation};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::str::FromStr;

type L = cardano::Lovelace;

fn dec<R>(v: &Value<R>) -> Dec {
    Dec::of(v.raw())
}

// ---------------------------------------------------------------- C04

fn balance(ctx: &mut Ctx, depth: usize, vals: &[&str]) -> RunResult {
    let vals: Vec<Value<L>> = vals.iter().map(|s| Value::new(BigDecimal::from_str(s).unwrap())).collect();
    let mut b: Balance<L> = if ctx.flag() { Balance::zero() } else { Balance::default() };
    let mut m = Dec::new(0, 0);
    for _ in 0..depth {
        ctx.step();
        let op = ctx.choose(12);
        let i = ctx.choose(vals.len());
        let v = vals[i].clone();
        let before = b.clone();
        let d = dec(&v);
        let name;
        match op {
            0 => {
                b = b + v.clone();
                m = m.add(&d);
                name = "b + v";
            }
            1 => {
                b = &b + &v;
                m = m.add(&d);
                name = "&b + &v";
            }
            2 => {
                b += v.clone();
                m = m.add(&d);
                name = "b += v";
            }
            3 => {
                b += &v;
                m = m.add(&d);
                name = "b += &v";
            }
            4 => {
                b = b - v.clone();
                m = m.sub(&d);
                name = "b - v";
            }
            5 => {
                b = &b - &v;
                m = m.sub(&d);
                name = "&b - &v";
            }
            6 => {
                b -= v.clone();
                m = m.sub(&d);
                name = "b -= v";
            }
            7 => {
                b -= &v;
                m = m.sub(&d);
                name = "b -= &v";
            }
            _ => {
                // balance + balance, of either sign, on either side
                let o: Balance<L> = if d.digits == BigInt::from(0) {
                    Balance::zero()
                } else if op % 2 == 0 {
                    m = m.add(&d);
                    Balance::Excess(v.clone())
                } else {
                    m = m.sub(&d);
                    Balance::Debt(v.clone())
                };
                b = if op < 10 { b + o } else { o + b };
                name = "balance + balance";
            }
        }
        ctx.note(|| format!("{before:?}, {name}, v = {v} -> {b:?}"));
        let zero = BigInt::from(0);
        let sign = m.digits.cmp(&zero);
        use std::cmp::Ordering::*;
        ensure_eq!(b.in_debt(), sign == Less, "in_debt", "{name}: in_debt of {b:?}");
        ensure_eq!(b.in_excess(), sign == Greater, "in_excess", "{name}: in_excess of {b:?}");
        ensure_eq!(b.balanced(), sign == Equal, "balanced", "{name}: balanced of {b:?}");
        let (want, text) = match (&b, sign) {
            (Balance::Balanced, _) => (Dec::new(0, 0), "0".to_string()),
            (Balance::Debt(v), _) => (Dec::new(0, 0).sub(&dec(v)), format!("-{v}")),
            (Balance::Excess(v), _) => (dec(v), format!("+{v}")),
        };
        ensure_eq!(want, m, "amount", "{name}: amount of {b:?}");
        ensure_eq!(b.to_string(), text, "text", "{name}: text form");
        let canon: Balance<L> = match sign {
            Less => Balance::Debt(Value::new(BigDecimal::new(m.abs().digits, m.scale))),
            Equal => Balance::Balanced,
            Greater => Balance::Excess(Value::new(BigDecimal::new(m.digits.clone(), m.scale))),
        };
        ensure!(b == canon, "equality", "{name}: {b:?} differs from {canon:?}");
        ensure!(b.clone() == b, "clone", "{name}: clone of {b:?}");
        if sign != Equal {
            ensure!(b != Balance::zero(), "equality", "{b:?} equals zero");
        }
        ctx.state(&m);
    }
    ctx.outcome(&m);
    Ok(End::Done)
}

pub fn c04(t: Tier) -> Vec<Scenario> {
    let d = t.of(3, 4);
    vec![Scenario::new(
        "balance",
        format!("all sequences of {d} additions/subtractions (every operator form) over the values 0, 1, 2, 0.5, 1e20"),
        0,
        move |c| balance(c, d, &["0", "1", "2", "0.5", "100000000000000000000"]),
    )]
}

// ---------------------------------------------------------------- C05

fn same<R>(name: &str, v: &Value<R>, want: &Dec) -> Result<(), Violation> {
    ensure_eq!(dec(v), *want, format!("conversion {name}"), "{name}");
    Ok(())
}

fn unit_name<T>(_: &T) -> &'static str {
    std::any::type_name::<T>()
}

fn conversions(ctx: &mut Ctx, a: &[BigDecimal]) -> RunResult {
    let v = ctx.pick(a).clone();
    let which = ctx.choose(9);
    ctx.step();
    let d = Dec::of(&v);
    ctx.note(|| format!("value {v:?}, conversion group {which}"));
    match which {
        0 => {
            let x: Value<cardano::Ada> = Value::new(v.clone());
            same("ada->lovelace", &x.to_lovelace(), &d.shift(6))?;
            same("ada->lovelace->ada", &x.to_lovelace().to_ada(), &d)?;
            same("ada->normalized", &x.normalize(), &d)?;
            same("normalized->ada", &Value::<cardano::Ada>::from_normalized(&x.normalize()), &d)?;
            same("From ada->lovelace", &Value::<L>::from(x.clone()), &d.shift(6))?;
            same("From ada->normalized", &Value::<Normalized>::from(x.clone()), &d)?;
            let n: Value<Normalized> = Value::new(v.clone());
            same("From normalized->ada", &Value::<cardano::Ada>::from(n), &d)?;
            ensure!(unit_name(&x.to_lovelace()).contains("Lovelace"), "unit", "to_lovelace gives {}", unit_name(&x.to_lovelace()));
        }
        1 => {
            let x: Value<L> = Value::new(v.clone());
            same("lovelace->ada", &x.to_ada(), &d.shift(-6))?;
            same("lovelace->ada->lovelace", &x.to_ada().to_lovelace(), &d)?;
            same("lovelace->normalized", &x.normalize(), &d.shift(-6))?;
            same("lovelace->normalized->lovelace", &Value::<L>::from_normalized(&x.normalize()), &d)?;
            same("From lovelace->normalized", &Value::<Normalized>::from(x.clone()), &d.shift(-6))?;
            same("lovelace->regulated", &x.to_regulated(), &d)?;
            same("regulated->lovelace", &Value::<L>::from_regulated(&x.to_regulated()), &d)?;
            ensure!(unit_name(&x.to_ada()).contains("cardano::Ada"), "unit", "to_ada gives {}", unit_name(&x.to_ada()));
        }
        2 => {
            let n: Value<Normalized> = Value::new(v.clone());
            same("normalized->lovelace", &Value::<L>::from_normalized(&n), &d.shift(6))?;
            same("From normalized->lovelace", &Value::<L>::from(n.clone()), &d.shift(6))?;
            same("normalized->wei", &Value::<evm::Wei>::from_normalized(&n), &d.shift(18))?;
            same("From normalized->wei", &Value::<evm::Wei>::from(n.clone()), &d.shift(18))?;
            same("normalized->ether", &Value::<evm::Ether>::from_normalized(&n), &d)?;
            same("From normalized->ether", &Value::<evm::Ether>::from(n.clone()), &d)?;
            same("normalized->microalgo", &Value::<algo::MicroAlgo>::from_normalized(&n), &d.shift(6))?;
            same("From normalized->microalgo", &Value::<algo::MicroAlgo>::from(n.clone()), &d.shift(6))?;
            same("normalized->algo", &Value::<algo::Algo>::from_normalized(&n), &d)?;
        }
        3 => {
            let x: Value<evm::Ether> = Value::new(v.clone());
            same("ether->wei", &x.to_wei(), &d.shift(18))?;
            same("ether->wei->ether", &x.to_wei().to_ether(), &d)?;
            same("ether->normalized", &x.normalize(), &d)?;
            same("From ether->normalized", &Value::<Normalized>::from(x.clone()), &d)?;
            ensure!(unit_name(&x.to_wei()).contains("Wei"), "unit", "to_wei gives {}", unit_name(&x.to_wei()));
        }
        4 => {
            let x: Value<evm::Wei> = Value::new(v.clone());
            same("wei->ether", &x.to_ether(), &d.shift(-18))?;
            same("wei->ether->wei", &x.to_ether().to_wei(), &d)?;
            same("wei->normalized", &x.normalize(), &d.shift(-18))?;
            same("wei->normalized->wei", &Value::<evm::Wei>::from_normalized(&x.normalize()), &d)?;
            same("From wei->normalized", &Value::<Normalized>::from(x.clone()), &d.shift(-18))?;
            ensure!(unit_name(&x.to_ether()).contains("Ether"), "unit", "to_ether gives {}", unit_name(&x.to_ether()));
        }
        5 => {
            let x: Value<algo::Algo> = Value::new(v.clone());
            same("algo->microalgo", &x.to_microalgo(), &d.shift(6))?;
            same("algo->microalgo->algo", &x.to_microalgo().to_algo(), &d)?;
            same("algo->normalized", &x.normalize(), &d)?;
            same("From algo->normalized", &Value::<Normalized>::from(x.clone()), &d)?;
            ensure!(unit_name(&x.to_microalgo()).contains("MicroAlgo"), "unit", "to_microalgo gives {}", unit_name(&x.to_microalgo()));
        }
        6 => {
            let x: Value<algo::MicroAlgo> = Value::new(v.clone());
            same("microalgo->algo", &x.to_algo(), &d.shift(-6))?;
            same("microalgo->normalized", &x.normalize(), &d.shift(-6))?;
            same("microalgo->normalized->microalgo", &Value::<algo::MicroAlgo>::from_normalized(&x.normalize()), &d)?;
            same("From microalgo->normalized", &Value::<Normalized>::from(x.clone()), &d.shift(-6))?;
            let n = unit_name(&x.to_algo());
            ensure!(n.contains("algo::Algo"), "unit", "to_algo gives {n}");
        }
        7 => {
            let x: Value<Regulated> = Value::new(v.clone());
            for erc20 in [Rule::ERC20, Rule::default()] {
                let n = x.normalize_from_sidechain(&erc20);
                same("erc20->normalized", &n, &d.shift(-18))?;
                same("erc20->mainchain", &Value::from_normalized_to_mainchain(&n, &erc20), &d.shift(-18))?;
                same("mainchain->erc20", &Value::from_normalized_to_sidechain(&x.normalize_from_mainchain(&erc20), &erc20), &d.shift(18))?;
            }
            for m in [0i64, 1, 6, 18] {
                for s in [0i64, 2, 6, 18] {
                    let rule = Rule {
                        asset: TokenId::new_static("t"),
                        mainchain_decimal_precision: m,
                        sidechain_decimal_precision: s,
                    };
                    let n = x.normalize_from_mainchain(&rule);
                    same("regulated->normalized (mainchain)", &n, &d.shift(-m))?;
                    same("mainchain round trip", &Value::from_normalized_to_mainchain(&n, &rule), &d)?;
                    same("mainchain->sidechain", &Value::from_normalized_to_sidechain(&n, &rule), &d.shift(s - m))?;
                    let n = x.normalize_from_sidechain(&rule);
                    same("regulated->normalized (sidechain)", &n, &d.shift(-s))?;
                    same("sidechain round trip", &Value::from_normalized_to_sidechain(&n, &rule), &d)?;
                    same("sidechain->mainchain", &Value::from_normalized_to_mainchain(&n, &rule), &d.shift(m - s))?;
                }
            }
        }
        _ => {
            let x: Value<L> = Value::new(v.clone());
            let y: Value<evm::Wei> = unsafe { x.coerce() };
            same("coerce", &y, &d)?;
            let z: Value<L> = Value::from(v.clone());
            same("from BigDecimal", &z, &d)?;
        }
    }
    ctx.state(&(d.clone(), which));
    ctx.outcome(&(d, which));
    Ok(End::Done)
}

pub fn c05(t: Tier) -> Vec<Scenario> {
    let most = t.of(40, 80);
    let a = grid(-most..=most);
    vec![Scenario::new(
        "conversions",
        format!("every unit conversion on {} numbers (14 digit strings of both signs at every scale from -{most} to {most}, boundaries of each unit's precision, several representations of one number), against exact decimal shifts", a.len()),
        0,
        move |c| conversions(c, &a),
    )]
}

// ---------------------------------------------------------------- C06

/// a plain non-negative decimal literal: (digits, number of decimals)
fn strict(s: &str) -> Option<Dec2> {
    let (i, f) = match s.split_once('.') {
        None => (s, ""),
        Some((i, f)) => {
            if f.is_empty() {
                return None;
            }
            (i, f)
        }
    };
    if i.is_empty() || !i.bytes().chain(f.bytes()).all(|b| b.is_ascii_digit()) {
        return None;
    }
    let digits: BigInt = format!("{i}{f}").parse().ok()?;
    Some((Dec::new(digits, f.len() as i64), f.len() as i64))
}
type Dec2 = (Dec, i64);

/// anything a decimal parser could reasonably accept: sign, missing integer or fraction part, exponent
fn liberal(s: &str) -> Option<Dec> {
    let s: String = s.chars().filter(|c| *c != '_').collect();
    let (m, e) = match s.find(['e', 'E']) {
        Some(p) => (&s[..p], s[p + 1..].parse::<i64>().ok()?),
        None => (&s[..], 0),
    };
    let (neg, m) = if let Some(r) = m.strip_prefix('-') {
        (true, r)
    } else {
        (false, m.strip_prefix('+').unwrap_or(m))
    };
    let (i, f) = m.split_once('.').unwrap_or((m, ""));
    if i.is_empty() && f.is_empty() || !i.bytes().chain(f.bytes()).all(|b| b.is_ascii_digit()) {
        return None;
    }
    let mut digits: BigInt = format!("0{i}{f}").parse().ok()?;
    if neg {
        digits = -digits;
    }
    Some(Dec::new(digits, f.len() as i64 - e))
}

fn parse_one<R>(s: &str, max: i64, unit: &str) -> Result<(), Violation>
where
    Value<R>: FromStr,
    <Value<R> as FromStr>::Err: std::fmt::Display,
{
    let got: Result<Value<R>, _> = s.parse();
    match &got {
        Ok(v) => {
            let d = dec(v);
            let want = liberal(s);
            // the decimal library also reads a sign inside the number (".-00"); what such a text
            // means is nowhere defined, so only the limits below are asked of it
            if !s.get(1..).is_some_and(|r| r.contains(".-") || r.contains(".+")) && !s.starts_with(".-") && !s.starts_with(".+") {
                ensure!(want.is_some(), format!("parse {unit}"), "{s:?} accepted as {v}");
                ensure_eq!(Some(d.clone()), want, format!("parse {unit}"), "value of {s:?}");
            }
            ensure!(d.digits >= BigInt::from(0), format!("parse {unit} negative"), "{s:?} accepted");
            ensure!(d.scale <= max, format!("parse {unit} decimals"), "{s:?} accepted");
            // whatever was accepted prints and parses back
            let again: Result<Value<R>, _> = v.to_string().parse();
            ensure!(
                again.is_ok_and(|x| dec(&x) == d),
                format!("print/parse {unit}"),
                "{s:?} is read as {v} which does not read back"
            );
        }
        Err(e) => {
            if let Some((_, decimals)) = strict(s) {
                ensure!(decimals > max, format!("parse {unit}"), "{s:?} rejected: {e}");
            }
        }
    }
    Ok(())
}

const CHARS: [char; 11] = ['0', '1', '9', '.', '-', 'e', '+', '5', 'E', '_', ' '];

fn texts(ctx: &mut Ctx, len: usize) -> RunResult {
    let n = ctx.choose(len + 1);
    let s: String = (0..n).map(|_| *ctx.pick(&CHARS)).collect();
    ctx.step();
    ctx.note(|| format!("text {s:?}"));
    check_text(&s)?;
    ctx.state(&s);
    ctx.outcome(&liberal(&s));
    Ok(End::Done)
}

fn check_text(s: &str) -> Result<(), Violation> {
    parse_one::<Normalized>(s, 18, "normalized")?;
    parse_one::<Regulated>(s, 18, "regulated")?;
    parse_one::<L>(s, 0, "lovelace")?;
    parse_one::<cardano::Ada>(s, 6, "ada")?;
    parse_one::<evm::Wei>(s, 0, "wei")?;
    parse_one::<evm::Ether>(s, 18, "ether")?;
    parse_one::<algo::MicroAlgo>(s, 0, "microalgo")?;
    parse_one::<algo::Algo>(s, 6, "algo")?;
    Ok(())
}

fn long_texts(ctx: &mut Ctx) -> RunResult {
    let ints = ["0", "1", "00012", "18446744073709551615", "18446744073709551616", "45000000000000000", "1000000000000000000000000000000"];
    let i = *ctx.pick(&ints);
    let dl = ctx.choose(21);
    let kind = ctx.choose(3);
    let mut s = i.to_string();
    if dl > 0 {
        s.push('.');
        for k in 0..dl {
            s.push(match kind {
                0 => '0',
                1 => '9',
                _ => {
                    if k + 1 == dl {
                        '1'
                    } else {
                        '0'
                    }
                }
            });
        }
    }
    ctx.step();
    ctx.note(|| format!("text {s:?}"));
    check_text(&s)?;
    ctx.state(&s);
    ctx.outcome(&s);
    Ok(End::Done)
}

fn round_trip<R>(v: &BigDecimal, max: i64, unit: &str) -> Result<(), Violation>
where
    Value<R>: FromStr,
    <Value<R> as FromStr>::Err: std::error::Error,
{
    let x: Value<R> = Value::new(v.clone());
    let d = Dec::of(v);
    let (_, exponent) = v.clone().into_bigint_and_exponent();
    if exponent <= max && d.digits >= BigInt::from(0) {
        let t = x.to_string();
        match t.parse::<Value<R>>() {
            Ok(y) => ensure_eq!(dec(&y), d, format!("text round trip {unit}"), "{t:?}"),
            Err(e) => return Err(mclib::violation(format!("text round trip {unit}"), format!("{t:?}: {e}"))),
        }
    }
    let j = deps::serde_json::to_string(&x).map_err(|e| mclib::violation("serialize", e.to_string()))?;
    ensure!(j.starts_with('"') && j.ends_with('"'), "serialized form", "{j}");
    match deps::serde_json::from_str::<Value<R>>(&j) {
        Ok(y) => ensure_eq!(dec(&y), d, format!("serde round trip {unit}"), "{j}"),
        Err(e) => return Err(mclib::violation(format!("serde round trip {unit}"), format!("{j}: {e}"))),
    }
    Ok(())
}

fn value_round_trips(ctx: &mut Ctx, a: &[BigDecimal]) -> RunResult {
    let v = ctx.pick(a).clone();
    ctx.step();
    ctx.note(|| format!("value {v:?}"));
    round_trip::<Normalized>(&v, 18, "normalized")?;
    round_trip::<Regulated>(&v, 18, "regulated")?;
    round_trip::<L>(&v, 0, "lovelace")?;
    round_trip::<cardano::Ada>(&v, 6, "ada")?;
    round_trip::<evm::Wei>(&v, 0, "wei")?;
    round_trip::<evm::Ether>(&v, 18, "ether")?;
    round_trip::<algo::MicroAlgo>(&v, 0, "microalgo")?;
    round_trip::<algo::Algo>(&v, 6, "algo")?;
    ctx.state(&Dec::of(&v));
    ctx.outcome(&v.to_string());
    Ok(End::Done)
}

fn json_forms(ctx: &mut Ctx) -> RunResult {
    // bare numbers are accepted too; everything that is not a number is rejected
    let good: [(&str, u64); 6] =
        [("0", 0), ("7", 7), ("18446744073709551615", u64::MAX), ("\"0\"", 0), ("\"42\"", 42), ("\"18446744073709551615\"", u64::MAX)];
    let bad = ["null", "true", "[]", "{}", "\"\"", "\"abc\"", "\"1.2.3\"", "\"--1\"", "\"1 \"", "\"0x10\"", "[1]", "\"∞\"", ""];
    let c = ctx.choose(good.len() + bad.len());
    ctx.step();
    let text = if c < good.len() { good[c].0 } else { bad[c - good.len()] };
    ctx.note(|| format!("json {text}"));
    let r = deps::serde_json::from_str::<Value<Regulated>>(text);
    if c < good.len() {
        ensure!(r.as_ref().is_ok_and(|v| *v == Value::from(good[c].1)), "json number", "{text} gives {r:?}");
    } else {
        ensure!(r.is_err(), "json junk", "{text} gives {r:?}");
    }
    ctx.state(text);
    ctx.outcome(&(text, r.is_ok()));
    Ok(End::Done)
}

pub fn c06(t: Tier) -> Vec<Scenario> {
    let len = t.of(5, 6);
    let most = t.of(40, 80);
    let a = grid(-most..=most);
    vec![
        Scenario::new(
            "texts",
            format!("every text of at most {len} characters of \"019.-e+5E_ \", parsed as every unit, against an independent decimal reader"),
            0,
            move |c| texts(c, len),
        ),
        Scenario::new("long-texts", "7 integer parts x 0..20 decimals x 3 digit patterns, parsed as every unit", 0, long_texts),
        Scenario::new("round-trips", format!("{} numbers (14 digit strings of both signs at every scale from -{most} to {most}, and others) through text and JSON, as every unit", a.len()), 0, move |c| value_round_trips(c, &a)),
        Scenario::new("json", "JSON numbers, strings and junk", 0, json_forms),
    ]
}

// ---------------------------------------------------------------- C07

fn h<T: Hash>(t: &T) -> u64 {
    let mut s = DefaultHasher::new();
    t.hash(&mut s);
    s.finish()
}

fn arithmetic(ctx: &mut Ctx, al: &[BigDecimal]) -> RunResult {
    let (ia, ib) = (ctx.choose(al.len()), ctx.choose(al.len()));
    let (a, b): (Value<Regulated>, Value<Regulated>) = (Value::new(al[ia].clone()), Value::new(al[ib].clone()));
    let (da, db) = (dec(&a), dec(&b));
    ctx.step();
    ctx.note(|| format!("a = {a:?}, b = {b:?}"));
    let sum = da.add(&db);
    let dif = da.sub(&db);
    ensure_eq!(dec(&(a.clone() + b.clone())), sum, "add", "a + b");
    ensure_eq!(dec(&(&a + b.clone())), sum, "add", "&a + b");
    ensure_eq!(dec(&(&a + &b)), sum, "add", "&a + &b");
    ensure_eq!(dec(&(a.clone() + &b)), sum, "add", "a + &b");
    let mut x = a.clone();
    x += b.clone();
    ensure_eq!(dec(&x), sum, "add", "a += b");
    let mut x = a.clone();
    x += &b;
    ensure_eq!(dec(&x), sum, "add", "a += &b");
    ensure_eq!(dec(&(a.clone() - b.clone())), dif, "sub", "a - b");
    ensure_eq!(dec(&(a.clone() - &b)), dif, "sub", "a - &b");
    ensure_eq!(dec(&(&a - &b)), dif, "sub", "&a - &b");
    let mut x = a.clone();
    x -= b.clone();
    ensure_eq!(dec(&x), dif, "sub", "a -= b");
    let mut x = a.clone();
    x -= &b;
    ensure_eq!(dec(&x), dif, "sub", "a -= &b");
    let ord = da.cmp(&db);
    ensure_eq!(a.cmp(&b), ord, "cmp", "a.cmp(b)");
    ensure_eq!(a.partial_cmp(&b), Some(ord), "cmp", "a.partial_cmp(b)");
    ensure_eq!(a == b, ord.is_eq(), "eq", "a == b");
    ensure_eq!(a < b, ord.is_lt(), "lt", "a < b");
    ensure_eq!(a >= b, ord.is_ge(), "ge", "a >= b");
    if ord.is_eq() {
        ensure_eq!(h(&a), h(&b), "hash", "hashes of equal values");
        ensure_eq!(a.truncate(), b.truncate(), "truncate", "truncations of equal values");
    }
    let three = [a.clone(), b.clone(), a.clone()];
    let want = sum.add(&da);
    ensure_eq!(dec(&three.iter().sum::<Value<Regulated>>()), want, "sum", "sum of [&a, &b, &a]");
    ensure_eq!(dec(&three.into_iter().sum::<Value<Regulated>>()), want, "sum", "sum of [a, b, a]");
    ctx.state(&(da, db));
    ctx.outcome(&(sum, dif));
    Ok(End::Done)
}

/// Sums of lists of any length, and folds by addition and subtraction.
fn sums(ctx: &mut Ctx, most: usize) -> RunResult {
    let numbers = [(0, 0), (1, 0), (10, 1), (-1, 0), (5, 1), (1, 18), (u64::MAX as i128, 0), (3, -20)];
    let n = ctx.choose(most + 1);
    let list: Vec<Value<evm::Wei>> =
        (0..n).map(|_| *ctx.pick(&numbers)).map(|(d, s)| Value::new(BigDecimal::new(BigInt::from(d), s))).collect();
    ctx.step();
    ctx.note(|| format!("{list:?}"));
    let want = list.iter().fold(Dec::new(0, 0), |sum, v| sum.add(&dec(v)));
    ensure_eq!(dec(&list.iter().sum::<Value<evm::Wei>>()), want, "sum", "sum of references to {list:?}");
    let back = list.iter().fold(list.iter().cloned().sum::<Value<evm::Wei>>(), |rest, v| rest - v);
    ensure_eq!(dec(&back), Dec::new(0, 0), "sum", "sum of {list:?} less all of them");
    ensure_eq!(back, Value::zero(), "sum", "sum of {list:?} less all of them");
    ensure_eq!(h(&back), h(&Value::<evm::Wei>::zero()), "hash", "hash of nothing");
    ensure_eq!(dec(&list.into_iter().sum::<Value<evm::Wei>>()), want, "sum", "sum of values");
    ctx.state(&want);
    ctx.outcome(&want);
    Ok(End::Done)
}

fn unary(ctx: &mut Ctx, al: &[BigDecimal]) -> RunResult {
    let a: Value<Normalized> = Value::new(ctx.pick(al).clone());
    let n = *ctx.pick(&[0u64, 1, 2, 3, 7, 10, 64, 1_000_000, u32::MAX as u64, u32::MAX as u64 + 1, i64::MAX as u64, i64::MAX as u64 + 1, u64::MAX]);
    let d = dec(&a);
    ctx.step();
    ctx.note(|| format!("a = {a:?}, n = {n}"));
    if let Ok(n32) = u32::try_from(n) {
        ensure_eq!(dec(&(a.clone() * n32)), d.mul_int(n), "mul", "a * u32");
        ensure_eq!(dec(&(&a * n32)), d.mul_int(n), "mul", "&a * u32");
    }
    ensure_eq!(dec(&(a.clone() * n as usize)), d.mul_int(n), "mul", "a * usize");
    ensure_eq!(dec(&(&a * n as usize)), d.mul_int(n), "mul", "&a * usize");
    let t = a.truncate();
    ensure_eq!(dec(&t), d.trunc(), "truncate", "truncate({a})");
    ensure!(!t.to_string().contains('.'), "truncate", "truncate({a}) prints {t}");
    if n > 0 {
        // division is exact when the quotient has few digits, and as good as it gets otherwise
        for q in [a.clone() / n as usize, &a / n as usize] {
            let err = dec(&q).mul_int(n).sub(&d).abs();
            let tiny = d.abs().shift(-60);
            ensure!(
                err.cmp(&tiny).is_le(),
                "div",
                "{a} / {n} = {q}, off by {err:?}"
            );
            if matches!(n, 1 | 2 | 10 | 64 | 1_000_000) && d.digits.to_string().len() < 70 {
                ensure_eq!(dec(&q).mul_int(n), d, "div", "{a} / {n} * {n}");
            }
        }
    }
    ensure_eq!(dec(&Value::<L>::zero()), Dec::new(0, 0), "zero", "zero");
    ensure_eq!(dec(&Value::<L>::one()), Dec::new(1, 0), "one", "one");
    ensure_eq!(dec(&Value::<L>::default()), Dec::new(0, 0), "zero", "default");
    ensure_eq!(dec(&Value::<L>::from(n)), Dec::new(n, 0), "from", "from u64");
    use deps::bigdecimal::ToPrimitive as _;
    let whole = d.trunc();
    if whole.scale <= 0 && d == whole {
        let big = &whole.digits * BigInt::from(10).pow((-whole.scale) as u32);
        ensure_eq!(a.to_u64(), u64::try_from(&big).ok(), "to_u64", "to_u64({a})");
        ensure_eq!(a.to_i64(), i64::try_from(&big).ok(), "to_i64", "to_i64({a})");
    }
    ctx.state(&(d.clone(), n));
    ctx.outcome(&(d, n));
    Ok(End::Done)
}

pub fn c07(t: Tier) -> Vec<Scenario> {
    let some = t.of(vec![-20, -6, -1, 0, 1, 2, 6, 18, 20], (-30..=30).step_by(3).chain([1, 2, 17, 19]).collect::<Vec<i64>>());
    let pairs = grid(some.clone().into_iter());
    let most = t.of(40, 80);
    let all = grid(-most..=most);
    let long = t.of(5, 6);
    vec![
        Scenario::new(
            "pairs",
            format!("every binary operator in every reference form on every pair of {} numbers (14 digit strings of both signs at scales {some:?}, and others, up to 140 digits long), against exact decimals", pairs.len()),
            0,
            move |c| arithmetic(c, &pairs),
        ),
        Scenario::new("sums", format!("every list of at most {long} out of 8 numbers"), 0, move |c| sums(c, long)),
        Scenario::new(
            "unary",
            format!("truncation, multiplication and division by integers, integer conversion on {} numbers", all.len()),
            0,
            move |c| unary(c, &all),
        ),
    ]
}
