//! Stand-in for bigdecimal 0.1.2 (not available offline): an integer and a number of
//! decimal places, compared by value, displayed with the places it was written with.
use num::{
    bigint::{Sign, ToBigInt},
    BigInt, Num, One, Signed, ToPrimitive, Zero,
};
use std::{
    cmp::Ordering,
    fmt,
    hash::{Hash, Hasher},
    ops::{Add, Div, Mul, Neg, Rem, Sub},
    str::FromStr,
};

#[derive(Clone, Debug)]
pub struct BigDecimal {
    int_val: BigInt,
    scale: i64,
}

#[derive(Clone, Debug, PartialEq)]
pub enum ParseBigDecimalError {
    Other(String),
}
impl fmt::Display for ParseBigDecimalError {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "Error parsing decimal")
    }
}
impl std::error::Error for ParseBigDecimalError {}

fn ten(n: i64) -> BigInt {
    num::pow(BigInt::from(10), n as usize)
}

impl BigDecimal {
    pub fn new(digits: BigInt, scale: i64) -> BigDecimal {
        BigDecimal { int_val: digits, scale }
    }
    pub fn as_bigint_and_exponent(&self) -> (BigInt, i64) {
        (self.int_val.clone(), self.scale)
    }
    pub fn into_bigint_and_exponent(self) -> (BigInt, i64) {
        (self.int_val, self.scale)
    }
    pub fn with_scale(&self, s: i64) -> BigDecimal {
        if s >= self.scale {
            BigDecimal::new(&self.int_val * ten(s - self.scale), s)
        }
        else {
            BigDecimal::new(&self.int_val / ten(self.scale - s), s)
        }
    }
    pub fn sign(&self) -> Sign {
        self.int_val.sign()
    }
    pub fn abs(&self) -> BigDecimal {
        BigDecimal::new(self.int_val.abs(), self.scale)
    }
    pub fn digits(&self) -> u64 {
        self.int_val.abs().to_string().len() as u64
    }
    pub fn is_integer(&self) -> bool {
        self.scale <= 0 || (&self.int_val % ten(self.scale)).is_zero()
    }
    pub fn normalized(&self) -> BigDecimal {
        let (mut i, mut s) = (self.int_val.clone(), self.scale);
        while s > 0 && (&i % BigInt::from(10)).is_zero() {
            i = i / BigInt::from(10);
            s -= 1;
        }
        BigDecimal::new(i, s)
    }
    fn align(&self, o: &BigDecimal) -> (BigInt, BigInt, i64) {
        let s = self.scale.max(o.scale);
        (self.with_scale(s).int_val, o.with_scale(s).int_val, s)
    }
}

impl fmt::Display for BigDecimal {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        let digits = self.int_val.abs().to_string();
        let text = if self.scale > 0 {
            let n = self.scale as usize;
            let t = format!("{:0>width$}", digits, width = n + 1);
            let (a, b) = t.split_at(t.len() - n);
            format!("{}.{}", a, b)
        }
        else {
            digits + &"0".repeat((-self.scale) as usize)
        };
        f.pad_integral(!self.int_val.is_negative(), "", &text)
    }
}

impl PartialEq for BigDecimal {
    fn eq(&self, o: &BigDecimal) -> bool {
        let (a, b, _) = self.align(o);
        a == b
    }
}
impl Eq for BigDecimal {}
impl PartialOrd for BigDecimal {
    fn partial_cmp(&self, o: &BigDecimal) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for BigDecimal {
    fn cmp(&self, o: &BigDecimal) -> Ordering {
        let (a, b, _) = self.align(o);
        a.cmp(&b)
    }
}
impl Hash for BigDecimal {
    fn hash<H: Hasher>(&self, h: &mut H) {
        let n = self.normalized();
        n.int_val.hash(h);
        n.scale.hash(h);
    }
}

impl Add for BigDecimal {
    type Output = BigDecimal;
    fn add(self, o: BigDecimal) -> BigDecimal {
        let (a, b, s) = self.align(&o);
        BigDecimal::new(a + b, s)
    }
}
impl Sub for BigDecimal {
    type Output = BigDecimal;
    fn sub(self, o: BigDecimal) -> BigDecimal {
        let (a, b, s) = self.align(&o);
        BigDecimal::new(a - b, s)
    }
}
impl Mul for BigDecimal {
    type Output = BigDecimal;
    fn mul(self, o: BigDecimal) -> BigDecimal {
        BigDecimal::new(self.int_val * o.int_val, self.scale + o.scale)
    }
}
impl Div for BigDecimal {
    type Output = BigDecimal;
    fn div(self, o: BigDecimal) -> BigDecimal {
        let (a, b, _) = self.align(&o);
        BigDecimal::new(a * ten(100) / b, 100).normalized()
    }
}
impl Rem for BigDecimal {
    type Output = BigDecimal;
    fn rem(self, o: BigDecimal) -> BigDecimal {
        let (a, b, s) = self.align(&o);
        BigDecimal::new(a % b, s)
    }
}
impl Neg for BigDecimal {
    type Output = BigDecimal;
    fn neg(self) -> BigDecimal {
        BigDecimal::new(-self.int_val, self.scale)
    }
}
impl Zero for BigDecimal {
    fn zero() -> BigDecimal {
        BigDecimal::new(BigInt::zero(), 0)
    }
    fn is_zero(&self) -> bool {
        self.int_val.is_zero()
    }
}
impl One for BigDecimal {
    fn one() -> BigDecimal {
        BigDecimal::new(BigInt::one(), 0)
    }
}
impl Num for BigDecimal {
    type FromStrRadixErr = ParseBigDecimalError;
    fn from_str_radix(s: &str, radix: u32) -> Result<BigDecimal, ParseBigDecimalError> {
        let bad = |m: &str| ParseBigDecimalError::Other(m.to_string());
        if radix != 10 {
            return Err(bad("the radix for decimal MUST be 10"));
        }
        let (base, exp) = match s.find(|c| c == 'e' || c == 'E') {
            None => (s, 0),
            Some(k) => (&s[..k], s[k + 1..].trim_start_matches('+').parse::<i64>().map_err(|_| bad("exponent"))?),
        };
        if base.is_empty() {
            return Err(bad("Failed to parse empty string"));
        }
        let (digits, places) = match base.find('.') {
            None => (base.to_string(), 0),
            Some(k) => (format!("{}{}", &base[..k], &base[k + 1..]), (base.len() - k - 1) as i64),
        };
        let i = BigInt::from_str_radix(&digits, 10).map_err(|_| bad("digits"))?;
        Ok(BigDecimal::new(i, places - exp))
    }
}
impl FromStr for BigDecimal {
    type Err = ParseBigDecimalError;
    fn from_str(s: &str) -> Result<BigDecimal, ParseBigDecimalError> {
        BigDecimal::from_str_radix(s, 10)
    }
}
impl Signed for BigDecimal {
    fn abs(&self) -> BigDecimal {
        BigDecimal::abs(self)
    }
    fn abs_sub(&self, o: &BigDecimal) -> BigDecimal {
        if self <= o { Zero::zero() } else { self.clone() - o.clone() }
    }
    fn signum(&self) -> BigDecimal {
        BigDecimal::new(self.int_val.signum(), 0)
    }
    fn is_positive(&self) -> bool {
        self.int_val.is_positive()
    }
    fn is_negative(&self) -> bool {
        self.int_val.is_negative()
    }
}
impl ToBigInt for BigDecimal {
    fn to_bigint(&self) -> Option<BigInt> {
        Some(self.with_scale(0).int_val)
    }
}
impl ToPrimitive for BigDecimal {
    fn to_i64(&self) -> Option<i64> {
        self.with_scale(0).int_val.to_i64()
    }
    fn to_u64(&self) -> Option<u64> {
        self.with_scale(0).int_val.to_u64()
    }
    fn to_f64(&self) -> Option<f64> {
        self.to_string().parse().ok()
    }
}
impl From<BigInt> for BigDecimal {
    fn from(i: BigInt) -> BigDecimal {
        BigDecimal::new(i, 0)
    }
}
impl From<(BigInt, i64)> for BigDecimal {
    fn from((i, s): (BigInt, i64)) -> BigDecimal {
        BigDecimal::new(i, s)
    }
}
macro_rules! from_int {
    ($($t:ty)*) => {$(impl From<$t> for BigDecimal {
        fn from(i: $t) -> BigDecimal { BigDecimal::new(BigInt::from(i), 0) }
    })*};
}
from_int!(u8 u16 u32 u64 usize i8 i16 i32 i64 isize);
