//! Reference integers: sign and magnitude in base 2^32, schoolbook algorithms only.
//! Deliberately slow and simple; shares no code with the library under test.

use std::cmp::Ordering;
use std::fmt;

#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Z {
    pub neg: bool,
    /// little endian, no trailing zero digit; empty = 0 (and then `neg` is false)
    pub mag: Vec<u32>,
}

fn trim(v: &mut Vec<u32>) {
    while v.last() == Some(&0) {
        v.pop();
    }
}

fn cmp_mag(a: &[u32], b: &[u32]) -> Ordering {
    if a.len() != b.len() {
        return a.len().cmp(&b.len());
    }
    for i in (0..a.len()).rev() {
        if a[i] != b[i] {
            return a[i].cmp(&b[i]);
        }
    }
    Ordering::Equal
}

fn add_mag(a: &[u32], b: &[u32]) -> Vec<u32> {
    let mut o = Vec::new();
    let mut c = 0u64;
    for i in 0..a.len().max(b.len()) {
        c += u64::from(*a.get(i).unwrap_or(&0)) + u64::from(*b.get(i).unwrap_or(&0));
        o.push(c as u32);
        c >>= 32;
    }
    if c > 0 {
        o.push(c as u32);
    }
    trim(&mut o);
    o
}

/// a - b, requires a >= b
fn sub_mag(a: &[u32], b: &[u32]) -> Vec<u32> {
    let mut o = Vec::new();
    let mut borrow = 0i64;
    for i in 0..a.len() {
        let mut d = i64::from(a[i]) - i64::from(*b.get(i).unwrap_or(&0)) - borrow;
        borrow = 0;
        if d < 0 {
            d += 1 << 32;
            borrow = 1;
        }
        o.push(d as u32);
    }
    assert_eq!(borrow, 0);
    trim(&mut o);
    o
}

fn mul_mag(a: &[u32], b: &[u32]) -> Vec<u32> {
    let mut o = vec![0u32; a.len() + b.len()];
    for i in 0..a.len() {
        let mut c = 0u64;
        for j in 0..b.len() {
            c += u64::from(o[i + j]) + u64::from(a[i]) * u64::from(b[j]);
            o[i + j] = c as u32;
            c >>= 32;
        }
        o[i + b.len()] = c as u32;
    }
    trim(&mut o);
    o
}

fn divrem_small(a: &[u32], d: u32) -> (Vec<u32>, u32) {
    let mut q = vec![0; a.len()];
    let mut r = 0u64;
    for i in (0..a.len()).rev() {
        r = (r << 32) | u64::from(a[i]);
        q[i] = (r / u64::from(d)) as u32;
        r %= u64::from(d);
    }
    trim(&mut q);
    (q, r as u32)
}

fn shl_mag(a: &[u32], n: usize) -> Vec<u32> {
    if a.is_empty() {
        return Vec::new();
    }
    let mut o = vec![0u32; n / 32];
    let s = (n % 32) as u32;
    let mut c = 0u64;
    for d in a {
        c |= u64::from(*d) << s;
        o.push(c as u32);
        c >>= 32;
    }
    if c > 0 {
        o.push(c as u32);
    }
    o
}

/// Shift right, and whether a set bit was shifted out.
fn shr_mag(a: &[u32], n: usize) -> (Vec<u32>, bool) {
    let (w, s) = (n / 32, n % 32);
    let mut lost = a.iter().take(w).any(|d| *d != 0);
    let mut o = Vec::new();
    for i in w..a.len() {
        let lo = u64::from(a[i]) | (u64::from(*a.get(i + 1).unwrap_or(&0)) << 32);
        o.push((lo >> s) as u32);
    }
    if s > 0 && w < a.len() {
        lost |= a[w] & ((1u32 << s) - 1) != 0;
    }
    trim(&mut o);
    (o, lost)
}

/// Shift-and-subtract long division over base 2^32 digits.
fn divrem_mag(a: &[u32], b: &[u32]) -> (Vec<u32>, Vec<u32>) {
    assert!(!b.is_empty());
    if b.len() == 1 {
        let (q, r) = divrem_small(a, b[0]);
        return (q, if r == 0 { vec![] } else { vec![r] });
    }
    let mut q = vec![0u32; a.len()];
    let mut r: Vec<u32> = Vec::new();
    for i in (0..a.len()).rev() {
        // r = r * 2^32 + a[i]
        r.insert(0, a[i]);
        trim(&mut r);
        // find the digit by binary search
        let (mut lo, mut hi) = (0u64, u64::from(u32::MAX));
        while lo < hi {
            let mid = (lo + hi + 1) / 2;
            if cmp_mag(&mul_mag(b, &[mid as u32]), &r) == Ordering::Greater {
                hi = mid - 1;
            } else {
                lo = mid;
            }
        }
        if lo > 0 {
            r = sub_mag(&r, &mul_mag(b, &[lo as u32]));
        }
        q[i] = lo as u32;
    }
    trim(&mut q);
    (q, r)
}

impl Z {
    pub fn zero() -> Z {
        Z { neg: false, mag: vec![] }
    }
    pub fn one() -> Z {
        Z::from_u128(1)
    }
    pub fn new(neg: bool, mut mag: Vec<u32>) -> Z {
        trim(&mut mag);
        let neg = neg && !mag.is_empty();
        Z { neg, mag }
    }
    pub fn from_u128(mut v: u128) -> Z {
        let mut mag = vec![];
        while v > 0 {
            mag.push(v as u32);
            v >>= 32;
        }
        Z { neg: false, mag }
    }
    pub fn from_i128(v: i128) -> Z {
        let mut z = Z::from_u128(v.unsigned_abs());
        z.neg = v < 0;
        z
    }
    pub fn from_limbs(neg: bool, limbs: &[u64]) -> Z {
        Z::new(
            neg,
            limbs.iter().flat_map(|l| [*l as u32, (*l >> 32) as u32]).collect(),
        )
    }
    pub fn from_bytes_le(neg: bool, b: &[u8]) -> Z {
        let mut mag = vec![0u32; b.len() / 4 + 1];
        for (i, x) in b.iter().enumerate() {
            mag[i / 4] |= u32::from(*x) << (8 * (i % 4));
        }
        Z::new(neg, mag)
    }
    /// Magnitude as little-endian 64-bit limbs, at least one.
    pub fn limbs(&self) -> Vec<u64> {
        let mut o: Vec<u64> = self
            .mag
            .chunks(2)
            .map(|c| u64::from(c[0]) | (u64::from(*c.get(1).unwrap_or(&0)) << 32))
            .collect();
        if o.is_empty() {
            o.push(0);
        }
        o
    }
    pub fn pow2(n: usize) -> Z {
        Z::new(false, shl_mag(&[1], n))
    }
    pub fn neg_is(&self) -> bool {
        self.neg
    }
    pub fn is_zero(&self) -> bool {
        self.mag.is_empty()
    }
    pub fn neg(&self) -> Z {
        Z::new(!self.neg, self.mag.clone())
    }
    pub fn abs(&self) -> Z {
        Z::new(false, self.mag.clone())
    }
    pub fn add(&self, o: &Z) -> Z {
        if self.neg == o.neg {
            return Z::new(self.neg, add_mag(&self.mag, &o.mag));
        }
        match cmp_mag(&self.mag, &o.mag) {
            Ordering::Less => Z::new(o.neg, sub_mag(&o.mag, &self.mag)),
            _ => Z::new(self.neg, sub_mag(&self.mag, &o.mag)),
        }
    }
    pub fn sub(&self, o: &Z) -> Z {
        self.add(&o.neg())
    }
    pub fn mul(&self, o: &Z) -> Z {
        Z::new(self.neg != o.neg, mul_mag(&self.mag, &o.mag))
    }
    /// Truncating division.
    pub fn divrem(&self, o: &Z) -> (Z, Z) {
        let (q, r) = divrem_mag(&self.mag, &o.mag);
        (Z::new(self.neg != o.neg, q), Z::new(self.neg, r))
    }
    /// Remainder in `0..m`, for positive m.
    pub fn rem_euclid(&self, m: &Z) -> Z {
        let r = self.divrem(m).1;
        if r.neg {
            r.add(m)
        } else {
            r
        }
    }
    /// Floor division.
    pub fn div_floor(&self, o: &Z) -> Z {
        let (q, r) = self.divrem(o);
        if !r.is_zero() && (r.neg != o.neg) {
            q.sub(&Z::one())
        } else {
            q
        }
    }
    pub fn pow(&self, n: u32) -> Z {
        let mut o = Z::one();
        for _ in 0..n {
            o = o.mul(self);
        }
        o
    }
    pub fn shl(&self, n: usize) -> Z {
        Z::new(self.neg, shl_mag(&self.mag, n))
    }
    /// Arithmetic (floor) shift right.
    pub fn shr(&self, n: usize) -> Z {
        let (q, lost) = shr_mag(&self.mag, n);
        if self.neg && lost {
            Z::new(true, add_mag(&q, &[1]))
        } else {
            Z::new(self.neg, q)
        }
    }
    pub fn bits(&self) -> usize {
        match self.mag.last() {
            None => 0,
            Some(t) => self.mag.len() * 32 - t.leading_zeros() as usize,
        }
    }
    pub fn bit(&self, i: usize) -> bool {
        // of the magnitude
        self.mag.get(i / 32).is_some_and(|d| d >> (i % 32) & 1 == 1)
    }
    /// Value modulo 2^n, in `0..2^n`.
    pub fn mod2(&self, n: usize) -> Z {
        let mut m: Vec<u32> = self.mag.iter().copied().take(n.div_ceil(32)).collect();
        if n % 32 != 0 && m.len() == n.div_ceil(32) {
            *m.last_mut().unwrap() &= (1u32 << (n % 32)) - 1;
        }
        let low = Z::new(false, m);
        if self.neg && !low.is_zero() {
            Z::pow2(n).sub(&low)
        } else {
            low
        }
    }
    /// Two's-complement value of the low n bits.
    pub fn wrap_signed(&self, n: usize) -> Z {
        let m = self.mod2(n);
        if n > 0 && m.bit(n - 1) {
            m.sub(&Z::pow2(n))
        } else {
            m
        }
    }
    fn bitop(&self, o: &Z, f: fn(u32, u32) -> u32) -> Z {
        let w = (self.mag.len().max(o.mag.len()) + 2) * 32;
        let (a, b) = (self.mod2(w), o.mod2(w));
        let n = w / 32;
        let mag: Vec<u32> = (0..n)
            .map(|i| f(*a.mag.get(i).unwrap_or(&0), *b.mag.get(i).unwrap_or(&0)))
            .collect();
        Z::new(false, mag).wrap_signed(w)
    }
    pub fn and(&self, o: &Z) -> Z {
        self.bitop(o, |a, b| a & b)
    }
    pub fn or(&self, o: &Z) -> Z {
        self.bitop(o, |a, b| a | b)
    }
    pub fn xor(&self, o: &Z) -> Z {
        self.bitop(o, |a, b| a ^ b)
    }
    pub fn not(&self) -> Z {
        self.neg().sub(&Z::one())
    }
    pub fn to_u128(&self) -> Option<u128> {
        if self.neg || self.mag.len() > 4 {
            return None;
        }
        Some(self.low_u128())
    }
    pub fn low_u128(&self) -> u128 {
        let mut v = 0u128;
        for i in (0..self.mag.len().min(4)).rev() {
            v = (v << 32) | u128::from(self.mag[i]);
        }
        v
    }
    pub fn to_i128(&self) -> Option<i128> {
        if self.mag.len() > 4 {
            return None;
        }
        let m = self.low_u128();
        if self.neg {
            if m <= 1u128 << 127 {
                Some((m as i128).wrapping_neg())
            } else {
                None
            }
        } else {
            i128::try_from(m).ok()
        }
    }
    pub fn gcd(&self, o: &Z) -> Z {
        let (mut a, mut b) = (self.abs(), o.abs());
        while !b.is_zero() {
            let r = a.divrem(&b).1;
            a = b;
            b = r;
        }
        a
    }
    pub fn to_radix(&self, radix: u32, upper: bool) -> String {
        let mut m = self.mag.clone();
        let mut s = Vec::new();
        while !m.is_empty() {
            let (q, r) = divrem_small(&m, radix);
            let c = std::char::from_digit(r, radix).unwrap();
            s.push(if upper { c.to_ascii_uppercase() } else { c });
            m = q;
        }
        if s.is_empty() {
            s.push('0');
        }
        if self.neg {
            s.push('-');
        }
        s.iter().rev().collect()
    }
    pub fn parse(s: &str, radix: u32) -> Option<Z> {
        let (neg, d) = match s.strip_prefix('-') {
            Some(r) => (true, r),
            None => (false, s),
        };
        if d.is_empty() {
            return None;
        }
        let mut z = Z::zero();
        for c in d.chars() {
            z = z
                .mul(&Z::from_u128(u128::from(radix)))
                .add(&Z::from_u128(u128::from(c.to_digit(radix)?)));
        }
        Some(Z::new(neg, z.mag))
    }
    /// Little-endian bytes of the value modulo 256^n.
    pub fn to_bytes_le(&self, n: usize) -> Vec<u8> {
        let m = self.mod2(n * 8);
        (0..n)
            .map(|i| (m.mag.get(i / 4).copied().unwrap_or(0) >> (8 * (i % 4))) as u8)
            .collect()
    }
    /// Nearest-below approximation as f64 (relative error < 2^-50); infinite when too large.
    pub fn to_f64(&self) -> f64 {
        let n = self.bits();
        if n == 0 {
            return 0.0;
        }
        let cut = n.saturating_sub(64);
        let top = self.abs().shr(cut).low_u128() as f64;
        let v = if n > 1024 {
            f64::INFINITY
        } else {
            // 2^cut in two steps, cut <= 960
            top * 2f64.powi((cut / 2) as i32) * 2f64.powi((cut - cut / 2) as i32)
        };
        if self.neg {
            -v
        } else {
            v
        }
    }
}

impl PartialOrd for Z {
    fn partial_cmp(&self, o: &Z) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Z {
    fn cmp(&self, o: &Z) -> Ordering {
        match (self.neg, o.neg) {
            (false, true) => Ordering::Greater,
            (true, false) => Ordering::Less,
            (false, false) => cmp_mag(&self.mag, &o.mag),
            (true, true) => cmp_mag(&o.mag, &self.mag),
        }
    }
}
impl fmt::Debug for Z {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}0x", if self.neg { "-" } else { "" })?;
        f.write_str(&self.abs().to_radix(16, false))
    }
}
