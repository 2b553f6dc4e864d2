//! Minimal exact arithmetic used by the oracles: signed big integers and f64 -> scaled integer.
use std::cmp::Ordering;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Big {
    neg: bool,
    mag: Vec<u64>, // little endian, no leading zeros; zero = empty, neg=false
}

fn trim(v: &mut Vec<u64>) {
    while let Some(0) = v.last() {
        v.pop();
    }
}
fn cmp_mag(a: &[u64], b: &[u64]) -> Ordering {
    if a.len() != b.len() {
        return a.len().cmp(&b.len());
    }
    for i in (0..a.len()).rev() {
        if a[i] != b[i] {
            return a[i].cmp(&b[i]);
        }
    }
    Ordering::Equal
}
fn add_mag(a: &[u64], b: &[u64]) -> Vec<u64> {
    let (a, b) = if a.len() >= b.len() { (a, b) } else { (b, a) };
    let mut r = Vec::with_capacity(a.len() + 1);
    let mut c = 0u128;
    for i in 0..a.len() {
        let s = a[i] as u128 + if i < b.len() { b[i] as u128 } else { 0 } + c;
        r.push(s as u64);
        c = s >> 64;
    }
    if c > 0 {
        r.push(c as u64);
    }
    r
}
fn sub_mag(a: &[u64], b: &[u64]) -> Vec<u64> {
    // a >= b
    let mut r = Vec::with_capacity(a.len());
    let mut bor = 0u64;
    for i in 0..a.len() {
        let y = if i < b.len() { b[i] } else { 0 };
        let (d1, o1) = a[i].overflowing_sub(y);
        let (d2, o2) = d1.overflowing_sub(bor);
        bor = (o1 | o2) as u64;
        r.push(d2);
    }
    debug_assert!(bor == 0);
    trim(&mut r);
    r
}

impl Big {
    pub fn zero() -> Big {
        Big { neg: false, mag: vec![] }
    }
    pub fn from_i64(x: i64) -> Big {
        let mut mag = vec![x.unsigned_abs()];
        trim(&mut mag);
        Big { neg: x < 0, mag }
    }
    pub fn is_zero(&self) -> bool {
        self.mag.is_empty()
    }
    pub fn sign(&self) -> i32 {
        if self.mag.is_empty() {
            0
        } else if self.neg {
            -1
        } else {
            1
        }
    }
    pub fn neg(&self) -> Big {
        Big { neg: !self.neg && !self.mag.is_empty(), mag: self.mag.clone() }
    }
    pub fn abs(&self) -> Big {
        Big { neg: false, mag: self.mag.clone() }
    }
    pub fn add(&self, o: &Big) -> Big {
        if self.neg == o.neg {
            return Big { neg: self.neg, mag: add_mag(&self.mag, &o.mag) };
        }
        match cmp_mag(&self.mag, &o.mag) {
            Ordering::Equal => Big::zero(),
            Ordering::Greater => Big { neg: self.neg, mag: sub_mag(&self.mag, &o.mag) },
            Ordering::Less => Big { neg: o.neg, mag: sub_mag(&o.mag, &self.mag) },
        }
    }
    pub fn sub(&self, o: &Big) -> Big {
        self.add(&o.neg())
    }
    pub fn mul(&self, o: &Big) -> Big {
        if self.is_zero() || o.is_zero() {
            return Big::zero();
        }
        let mut r = vec![0u64; self.mag.len() + o.mag.len()];
        for i in 0..self.mag.len() {
            let mut c = 0u128;
            for j in 0..o.mag.len() {
                let t = self.mag[i] as u128 * o.mag[j] as u128 + r[i + j] as u128 + c;
                r[i + j] = t as u64;
                c = t >> 64;
            }
            r[i + o.mag.len()] = c as u64;
        }
        trim(&mut r);
        Big { neg: self.neg != o.neg, mag: r }
    }
    pub fn shl(&self, n: u32) -> Big {
        if self.is_zero() {
            return Big::zero();
        }
        let w = (n / 64) as usize;
        let b = n % 64;
        let mut r = vec![0u64; w];
        if b == 0 {
            r.extend(&self.mag);
        } else {
            let mut c = 0u64;
            for &x in &self.mag {
                r.push((x << b) | c);
                c = x >> (64 - b);
            }
            if c > 0 {
                r.push(c);
            }
        }
        Big { neg: self.neg, mag: r }
    }
    pub fn cmp(&self, o: &Big) -> Ordering {
        match (self.sign(), o.sign()) {
            (a, b) if a != b => a.cmp(&b),
            (1, _) => cmp_mag(&self.mag, &o.mag),
            (-1, _) => cmp_mag(&o.mag, &self.mag),
            _ => Ordering::Equal,
        }
    }
    /// number of bits of the magnitude
    pub fn bits(&self) -> u32 {
        match self.mag.last() {
            None => 0,
            Some(x) => 64 * (self.mag.len() as u32 - 1) + (64 - x.leading_zeros()),
        }
    }
    /// x = m * 2^e with 0.5 <= |m| < 1 (m rounded towards zero from the top 64 bits)
    pub fn frexp(&self) -> (f64, i64) {
        if self.is_zero() {
            return (0.0, 0);
        }
        let n = self.bits();
        // top 64 bits
        let mut top = 0u64;
        for k in 0..64u32 {
            if k >= n {
                break;
            }
            let pos = n - 1 - k;
            let bit = (self.mag[(pos / 64) as usize] >> (pos % 64)) & 1;
            top |= bit << (63 - k);
        }
        let m = (top as f64) / 18446744073709551616.0;
        (if self.neg { -m } else { m }, n as i64)
    }
}

/// decompose a finite f64 into (mantissa, exponent): x = m * 2^e, m odd or zero
pub fn decompose(x: f64) -> (i64, i32) {
    assert!(x.is_finite());
    if x == 0.0 {
        return (0, 0);
    }
    let b = x.to_bits();
    let e = ((b >> 52) & 0x7ff) as i32;
    let frac = (b & ((1u64 << 52) - 1)) as i64;
    let (mut m, mut ex) = if e == 0 { (frac, -1074) } else { (frac | (1 << 52), e - 1075) };
    let tz = m.trailing_zeros();
    m >>= tz;
    ex += tz as i32;
    (if x < 0.0 { -m } else { m }, ex)
}

/// smallest exponent occurring in the values (0 if all are zero)
pub fn min_exp(xs: &[f64]) -> i32 {
    xs.iter().filter(|x| **x != 0.0).map(|&x| decompose(x).1).min().unwrap_or(0)
}

/// x * 2^-e as an integer; e must be <= the exponent of x
pub fn to_big(x: f64, e: i32) -> Big {
    let (m, ex) = decompose(x);
    if m == 0 {
        return Big::zero();
    }
    assert!(ex >= e);
    Big::from_i64(m).shl((ex - e) as u32)
}

impl std::ops::Add for &Big {
    type Output = Big;
    fn add(self, o: &Big) -> Big {
        Big::add(self, o)
    }
}
impl std::ops::Sub for &Big {
    type Output = Big;
    fn sub(self, o: &Big) -> Big {
        Big::sub(self, o)
    }
}
impl std::ops::Mul for &Big {
    type Output = Big;
    fn mul(self, o: &Big) -> Big {
        Big::mul(self, o)
    }
}
macro_rules! own {
    ($tr:ident,$f:ident) => {
        impl std::ops::$tr for Big {
            type Output = Big;
            fn $f(self, o: Big) -> Big {
                Big::$f(&self, &o)
            }
        }
        impl std::ops::$tr<&Big> for Big {
            type Output = Big;
            fn $f(self, o: &Big) -> Big {
                Big::$f(&self, o)
            }
        }
    };
}
own!(Add, add);
own!(Sub, sub);
own!(Mul, mul);

/// Dyadic rational m * 2^e, for exact sums and products of floats.
#[derive(Clone, Debug)]
pub struct Dy {
    pub m: Big,
    pub e: i32,
}
impl Dy {
    pub fn zero() -> Dy {
        Dy { m: Big::zero(), e: 0 }
    }
    pub fn from(x: f64) -> Dy {
        let (m, e) = decompose(x);
        Dy { m: Big::from_i64(m), e }
    }
    fn align(a: &Dy, b: &Dy) -> (Big, Big, i32) {
        if a.m.is_zero() {
            return (Big::zero(), b.m.clone(), b.e);
        }
        if b.m.is_zero() {
            return (a.m.clone(), Big::zero(), a.e);
        }
        let e = a.e.min(b.e);
        (a.m.shl((a.e - e) as u32), b.m.shl((b.e - e) as u32), e)
    }
    pub fn add(&self, o: &Dy) -> Dy {
        let (a, b, e) = Dy::align(self, o);
        Dy { m: a.add(&b), e }
    }
    pub fn sub(&self, o: &Dy) -> Dy {
        let (a, b, e) = Dy::align(self, o);
        Dy { m: a.sub(&b), e }
    }
    pub fn mul(&self, o: &Dy) -> Dy {
        Dy { m: self.m.mul(&o.m), e: self.e + o.e }
    }
    pub fn cmp(&self, o: &Dy) -> Ordering {
        let (a, b, _) = Dy::align(self, o);
        a.cmp(&b)
    }
    pub fn sign(&self) -> i32 {
        self.m.sign()
    }
    pub fn sum(xs: &[f64]) -> Dy {
        let mut r = Dy::zero();
        for &x in xs {
            r = r.add(&Dy::from(x));
        }
        r
    }
    /// approximate value; relative error below 2^-50 unless it over/underflows
    pub fn approx(&self) -> f64 {
        let (m, e) = self.m.frexp();
        ldexp(m, e + self.e as i64)
    }
}

pub fn ldexp(m: f64, e: i64) -> f64 {
    let mut m = m;
    let mut e = e;
    while e > 1000 {
        m *= 2f64.powi(1000);
        e -= 1000;
        if m.is_infinite() {
            return m;
        }
    }
    while e < -1000 {
        m *= 2f64.powi(-1000);
        e += 1000;
        if m == 0.0 {
            return m;
        }
    }
    m * 2f64.powi(e as i32)
}
/// a / b as a float (relative error < 2^-49), b != 0
pub fn big_ratio(a: &Big, b: &Big) -> f64 {
    let (ma, ea) = a.frexp();
    let (mb, eb) = b.frexp();
    ldexp(ma / mb, ea - eb)
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn arith() {
        let mut s = 12345u64;
        let mut rnd = || {
            s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            (s >> 20) as i64 - (1 << 43)
        };
        for _ in 0..20000 {
            let (a, b, c) = (rnd(), rnd(), rnd());
            let (ba, bb, bc) = (Big::from_i64(a), Big::from_i64(b), Big::from_i64(c));
            let r = ba.mul(&bb).sub(&bc.mul(&bc)).add(&ba);
            let e = a as i128 * b as i128 - c as i128 * c as i128 + a as i128;
            assert_eq!(r.sign(), e.signum() as i32);
            let hi = (e.unsigned_abs() >> 64) as u64;
            let mut mag = vec![e.unsigned_abs() as u64, hi];
            trim(&mut mag);
            assert_eq!(r.mag, mag);
            // distributivity on large numbers
            let l = ba.shl(150).add(&bb.shl(77)).add(&bc);
            let m = bb.shl(190).sub(&ba.shl(13));
            assert_eq!(l.mul(&m).add(&l.mul(&ba)), l.mul(&m.add(&ba)));
            assert_eq!(l.sub(&m).add(&m), l);
        }
        assert_eq!(Dy::from(0.1).add(&Dy::from(-0.1)).sign(), 0);
        assert_eq!(Dy::from(0.375).approx(), 0.375);
        assert_eq!(big_ratio(&Big::from_i64(-3), &Big::from_i64(8)), -0.375);
    }
}
