//! Exact reference numbers: integer * 10^-SCALE, independent of BigDecimal's own arithmetic.
use deps::bigdecimal::num_bigint::BigInt;
use deps::bigdecimal::BigDecimal;

/// an exact decimal in canonical form: `digits * 10^-scale`, no trailing zero in `digits`
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Dec {
    pub digits: BigInt,
    pub scale: i64,
}

fn pow10(n: i64) -> BigInt {
    BigInt::from(10).pow(n as u32)
}

impl Dec {
    pub fn new(digits: impl Into<BigInt>, scale: i64) -> Dec {
        let mut digits = digits.into();
        let mut scale = scale;
        let zero = BigInt::from(0);
        if digits == zero {
            return Dec { digits, scale: 0 };
        }
        let ten = BigInt::from(10);
        while (&digits % &ten) == zero {
            digits /= &ten;
            scale -= 1;
        }
        Dec { digits, scale }
    }
    pub fn of(v: &BigDecimal) -> Dec {
        let (d, s) = v.clone().into_bigint_and_exponent();
        Dec::new(d, s)
    }
    fn aligned(&self, o: &Dec) -> (BigInt, BigInt, i64) {
        let s = self.scale.max(o.scale);
        (&self.digits * pow10(s - self.scale), &o.digits * pow10(s - o.scale), s)
    }
    pub fn add(&self, o: &Dec) -> Dec {
        let (a, b, s) = self.aligned(o);
        Dec::new(a + b, s)
    }
    pub fn sub(&self, o: &Dec) -> Dec {
        let (a, b, s) = self.aligned(o);
        Dec::new(a - b, s)
    }
    pub fn mul_int(&self, n: u64) -> Dec {
        Dec::new(&self.digits * BigInt::from(n), self.scale)
    }
    /// times 10^n
    pub fn shift(&self, n: i64) -> Dec {
        Dec::new(self.digits.clone(), self.scale - n)
    }
    pub fn cmp(&self, o: &Dec) -> std::cmp::Ordering {
        let (a, b, _) = self.aligned(o);
        a.cmp(&b)
    }
    pub fn trunc(&self) -> Dec {
        if self.scale <= 0 {
            return self.clone();
        }
        Dec::new(&self.digits / pow10(self.scale), 0)
    }
    pub fn abs(&self) -> Dec {
        Dec { digits: self.digits.magnitude().clone().into(), scale: self.scale }
    }
}

/// One number in several BigDecimal representations.
pub fn alphabet(full: bool) -> Vec<BigDecimal> {
    let mut v: Vec<(i128, i64)> = vec![
        (0, 0),
        (0, 3),
        (0, -4),
        (1, 0),
        (10, 1),
        (1_000_000, 6),
        (1, -6),
        (1_000_000, 0),
        (1, 6),
        (1, 18),
        (5, 1),
        (15, 1),
        (150, 2),
        (999_999, 6),
        (1_000_001, 6),
        (45_000_000_000_000_000, 0),
        (u64::MAX as i128, 0),
        (u64::MAX as i128 + 1, 0),
        (15, -18),
        (1, -30),
        (123_456_654_321, 6),
        (u64::MAX as i128, 18),
        (-1, 0),
        (-15, 1),
        (-25, -1),
    ];
    if full {
        v.extend([
            (2, 0),
            (9, 0),
            (99, 1),
            (19, 1),
            (101, 2),
            (199, 2),
            (7, -15),
            (7, -16),
            (7, -17),
            (i64::MAX as i128, 0),
            (i64::MAX as i128 + 1, 3),
            (123, 30),
            (-999_999, 6),
            (-1, -20),
            (-1, 18),
            (1_234_567_890_123_456_789_012_345_678, 9),
        ]);
    }
    v.into_iter().map(|(d, s)| BigDecimal::new(BigInt::from(d), s)).collect()
}

/// The alphabet and every one of some digit strings, of both signs, at every scale.
pub fn grid(scales: impl Iterator<Item = i64> + Clone) -> Vec<BigDecimal> {
    let digits: [i128; 14] = [
        0, 1, 9, 10, 15, 99, 101, 999_999, 1_000_001, 123_456_789_012_345_678, 10i128.pow(18), u64::MAX as i128, u64::MAX as i128 + 1,
        45_000_000_000_000_000_000_000_001,
    ];
    let mut all = alphabet(true);
    for d in digits {
        for s in scales.clone() {
            all.push(BigDecimal::new(BigInt::from(d), s));
            if d != 0 {
                all.push(BigDecimal::new(BigInt::from(-d), s));
            }
        }
    }
    // longer ones
    for nines in [39, 61, 77, 101, 140] {
        let d = BigInt::from(10).pow(nines) - BigInt::from(2);
        for s in [-18, 0, 6, 18, 30] {
            all.push(BigDecimal::new(d.clone(), s));
            all.push(BigDecimal::new(-d.clone(), s));
        }
    }
    all
}
