use cardano_utils::fingerprint;
use dcspark_core::{AssetName, PolicyId};
use mclib::{ensure_eq, Ctx, End, RunResult, Scenario, Tier, Violation};

/// Blake2b (RFC 7693) with a 20-byte digest, written out here so that the oracle shares no code with
/// the library.
fn blake2b_160(data: &[u8]) -> [u8; 20] {
    const IV: [u64; 8] = [
        0x6a09e667f3bcc908, 0xbb67ae8584caa73b, 0x3c6ef372fe94f82b, 0xa54ff53a5f1d36f1,
        0x510e527fade682d1, 0x9b05688c2b3e6c1f, 0x1f83d9abfb41bd6b, 0x5be0cd19137e2179,
    ];
    const SIGMA: [[usize; 16]; 12] = [
        [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
        [14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
        [11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4],
        [7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8],
        [9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13],
        [2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
        [12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11],
        [13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10],
        [6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5],
        [10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0],
        [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
        [14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
    ];
    let mut h = IV;
    h[0] ^= 0x0101_0000 ^ 20;
    let mut blocks: Vec<[u8; 128]> = data
        .chunks(128)
        .map(|c| {
            let mut b = [0u8; 128];
            b[..c.len()].copy_from_slice(c);
            b
        })
        .collect();
    if blocks.is_empty() {
        blocks.push([0; 128]);
    }
    let n = blocks.len();
    for (bi, b) in blocks.iter().enumerate() {
        let last = bi + 1 == n;
        let t: u128 = if last { data.len() as u128 } else { (bi as u128 + 1) * 128 };
        let m: Vec<u64> = b.chunks(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
        let mut v = [0u64; 16];
        v[..8].copy_from_slice(&h);
        v[8..].copy_from_slice(&IV);
        v[12] ^= t as u64;
        v[13] ^= (t >> 64) as u64;
        if last {
            v[14] = !v[14];
        }
        for s in &SIGMA {
            let mut g = |a: usize, b: usize, c: usize, d: usize, x: u64, y: u64| {
                v[a] = v[a].wrapping_add(v[b]).wrapping_add(x);
                v[d] = (v[d] ^ v[a]).rotate_right(32);
                v[c] = v[c].wrapping_add(v[d]);
                v[b] = (v[b] ^ v[c]).rotate_right(24);
                v[a] = v[a].wrapping_add(v[b]).wrapping_add(y);
                v[d] = (v[d] ^ v[a]).rotate_right(16);
                v[c] = v[c].wrapping_add(v[d]);
                v[b] = (v[b] ^ v[c]).rotate_right(63);
            };
            g(0, 4, 8, 12, m[s[0]], m[s[1]]);
            g(1, 5, 9, 13, m[s[2]], m[s[3]]);
            g(2, 6, 10, 14, m[s[4]], m[s[5]]);
            g(3, 7, 11, 15, m[s[6]], m[s[7]]);
            g(0, 5, 10, 15, m[s[8]], m[s[9]]);
            g(1, 6, 11, 12, m[s[10]], m[s[11]]);
            g(2, 7, 8, 13, m[s[12]], m[s[13]]);
            g(3, 4, 9, 14, m[s[14]], m[s[15]]);
        }
        for i in 0..8 {
            h[i] ^= v[i] ^ v[i + 8];
        }
    }
    let mut out = [0u8; 20];
    for (i, o) in out.iter_mut().enumerate() {
        *o = h[i / 8].to_le_bytes()[i % 8];
    }
    out
}

fn unhex(s: &str) -> Option<Vec<u8>> {
    let b = s.as_bytes();
    if b.len() % 2 != 0 {
        return None;
    }
    b.chunks(2)
        .map(|p| {
            let d = |c: u8| match c {
                b'0'..=b'9' => Some(c - b'0'),
                b'a'..=b'f' => Some(c - b'a' + 10),
                b'A'..=b'F' => Some(c - b'A' + 10),
                _ => None,
            };
            Some(d(p[0])? * 16 + d(p[1])?)
        })
        .collect()
}

fn check(policy: &str, name: &str) -> Result<Option<String>, Violation> {
    let got = fingerprint(&PolicyId::new(policy.to_string()), &AssetName::new(name.to_string())).ok();
    let want = match (unhex(policy), unhex(name)) {
        (Some(p), Some(n)) if p.len() == 28 => {
            let mut all = p;
            all.extend(n);
            let hex: String = blake2b_160(&all).iter().map(|b| format!("{b:02x}")).collect();
            Some(format!("{hex}{}", "0".repeat(24)))
        }
        _ => None,
    };
    let got = got.map(|t| t.as_ref().to_string());
    ensure_eq!(got, want, "fingerprint", "policy {policy:?}, name {name:?}");
    Ok(got)
}

const POLICY: &str = "7eae28af2208be856f7a119668ae52a49b73725e326dc16579dcc373";

fn names(ctx: &mut Ctx, len: usize) -> RunResult {
    let chars = ['0', '1', 'a', 'F', 'f', 'g', ' '];
    let n = ctx.choose(len + 1);
    let s: String = (0..n).map(|_| *ctx.pick(&chars)).collect();
    ctx.step();
    ctx.note(|| format!("name {s:?}"));
    let r = check(POLICY, &s)?;
    ctx.state(&s);
    ctx.outcome(&r);
    Ok(End::Done)
}

/// every single-character change, deletion and insertion of a valid policy id
fn policies(ctx: &mut Ctx) -> RunResult {
    let base: Vec<char> = ctx.pick(&[POLICY, "0000000000000000000000000000000000000000000000000000000A"]).chars().collect();
    let pos = ctx.choose(57);
    let kind = ctx.choose(12);
    let mut p = base.clone();
    match kind {
        0 => {
            if pos < 56 {
                p.remove(pos);
            }
        }
        1 => p.insert(pos, '0'),
        2 => p.truncate(pos),
        3 => {
            if pos < 56 {
                p[pos] = p[pos].to_ascii_uppercase();
            }
        }
        4 => p.extend(std::iter::repeat('0').take(pos)),
        k => {
            if pos < 56 {
                p[pos] = ['g', '0', 'f', 'F', ' ', 'é', '7'][k - 5];
            }
        }
    }
    let p: String = p.into_iter().collect();
    let name = *ctx.pick(&["", "00", "504154415445", "5", "ABCDEF"]);
    ctx.step();
    ctx.note(|| format!("policy {p:?}, name {name:?}"));
    let r = check(&p, name)?;
    ctx.state(&(p, name));
    ctx.outcome(&r);
    Ok(End::Done)
}

fn lengths(ctx: &mut Ctx) -> RunResult {
    // name lengths across the hash's block boundaries (28 policy bytes + name)
    let n = ctx.choose(300);
    let c = *ctx.pick(&['0', 'f', 'A', 'z']);
    let s: String = std::iter::repeat(c).take(n).collect();
    ctx.step();
    ctx.note(|| format!("name of {n} {c:?}"));
    let r = check(POLICY, &s)?;
    ctx.state(&(n, c));
    ctx.outcome(&r);
    Ok(End::Done)
}

pub fn u01(t: Tier) -> Vec<Scenario> {
    let len = t.of(5, 6);
    vec![
        Scenario::new("names", format!("every asset name of at most {len} characters of \"01aFfg \""), 0, move |c| names(c, len)),
        Scenario::new("policies", "every deletion, insertion, truncation, extension and 9 replacements at every position of two policy ids, with 5 names", 0, policies),
        Scenario::new("lengths", "names of 0..299 hexadecimal or other characters", 0, lengths),
    ]
}
