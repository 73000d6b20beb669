//! Generators shared by the checks.
use crate::engine::Case;
use crate::refint::Z;

/// A 64-bit limb, heavy on boundaries.
pub fn limb(c: &mut Case) -> u64 {
    match c.weighted(&[6, 6, 3, 3, 3, 3, 4, 10]) {
        0 => 0,
        1 => c.draw(16),
        2 => u64::MAX,
        3 => u64::MAX - c.draw(3),
        4 => 1u64 << c.draw(63),
        5 => (1u64 << c.draw(63)).wrapping_sub(1),
        6 => {
            // around the half-word / sign / tag boundaries
            let b = c.pick(&[62u32, 63, 61, 32, 31, 8, 16]);
            (1u64 << b).wrapping_add(c.draw(4)).wrapping_sub(2)
        }
        _ => c.u64(),
    }
}

/// Little-endian limbs of a magnitude.
pub fn limbs(c: &mut Case, max: usize) -> Vec<u64> {
    let n = match c.weighted(&[10, 8, 6, 4, 2]) {
        0 => 1,
        1 => 2,
        2 => 3,
        3 => c.range(1, 6.min(max)),
        _ => c.range(1, max),
    }
    .min(max);
    (0..n).map(|_| limb(c)).collect()
}

/// `n` limbs in runs of equal ones: carries and borrows that travel far.
fn runs(c: &mut Case, n: usize) -> Vec<u64> {
    let mut l = Vec::with_capacity(n);
    while l.len() < n {
        let v = match c.draw(5) {
            0 => 0,
            1 | 2 => u64::MAX,
            _ => limb(c),
        };
        let k = c.range(1, n - l.len());
        l.resize(l.len() + k, v);
    }
    l
}

/// A few powers of two added and subtracted.
fn sparse(c: &mut Case, max: usize) -> Z {
    let mut z = Z::zero();
    for _ in 0..c.range(1, 4) {
        let p = Z::pow2(c.below(max * 64 - 1));
        z = if c.coin() { z.sub(&p) } else { z.add(&p) };
    }
    z
}

/// An end of a primitive type or a value next to it, or next to zero: where a fast path over
/// primitives is left, entered, or wrong.
pub fn edge(c: &mut Case) -> Z {
    let k = c.pick(&[0usize, 63, 31, 127, 64, 32, 7, 15, 1, 8, 16, 128, 62, 61, 126]);
    let z = Z::pow2(k).add(&Z::from_i128(i128::from(c.draw(2)) - 1));
    if c.coin() {
        z.neg()
    } else {
        z
    }
}

/// Two of these, or one and a small number.
pub fn edges(c: &mut Case) -> (Z, Z) {
    let a = edge(c);
    let b = if c.coin() { Z::from_i128(i128::from(c.draw(4)) - 2) } else { edge(c) };
    (a, b)
}

/// A signed integer of up to `max` limbs.
pub fn int(c: &mut Case, max: usize) -> Z {
    match c.weighted(&[14, 1, 1, if max >= 3 { 2 } else { 0 }]) {
        3 => edge(c),
        0 => {
            let l = limbs(c, max);
            let neg = c.coin();
            Z::from_limbs(neg, &l)
        }
        1 => {
            let n = c.range(1, max);
            let l = runs(c, n);
            let neg = c.coin();
            Z::from_limbs(neg, &l)
        }
        _ => {
            let k = c.range(1, max);
            sparse(c, k)
        }
    }
}

/// Now and then a long one, for what only happens beyond a few limbs.
pub fn int_or_long(c: &mut Case, max: usize, long: usize, chance: u64) -> Z {
    if c.chance(chance) {
        let n = c.range(max, long);
        let l: Vec<u64> = if c.coin() { (0..n).map(|_| limb(c)).collect() } else { runs(c, n) };
        let neg = c.coin();
        Z::from_limbs(neg, &l)
    } else {
        int(c, max)
    }
}

pub fn nat(c: &mut Case, max: usize) -> Z {
    let l = limbs(c, max);
    Z::from_limbs(false, &l)
}

/// A second operand that is often closely related to the first (equal, negated, one off,
/// differing in one limb or bit), because unrelated random operands rarely meet the borrow,
/// comparison and cancellation cases.
pub fn related(c: &mut Case, a: &Z, max: usize) -> Z {
    match c.weighted(&[10, 2, 2, 2, 2, 2, 2, 2, 1, if max >= 3 { 2 } else { 0 }]) {
        9 => edge(c),
        7 => {
            // the same limbs above or below some point
            let k = c.below(a.bits() / 64 + 2) * 64;
            let o = int(c, max).abs();
            let m = a.abs();
            let z = if c.coin() { m.sub(&m.mod2(k)).add(&o.mod2(k)) } else { m.mod2(k).add(&o.sub(&o.mod2(k))) };
            if c.coin() {
                z.neg()
            } else {
                z
            }
        }
        8 => {
            // what is missing to a power of two, or beyond it
            let k = c.below(a.bits() + 66);
            Z::pow2(k).sub(a).add(&Z::from_i128(i128::from(c.draw(2)) - 1))
        }
        0 => int(c, max),
        1 => a.clone(),
        2 => a.neg(),
        3 => a.add(&Z::from_i128(i128::from(c.draw(4)) - 2)),
        4 => {
            let k = c.below(a.bits() + 2);
            a.xor(&Z::pow2(k))
        }
        5 => {
            let k = c.below(a.bits() + 2);
            a.shr(k)
        }
        _ => {
            let k = c.below(70);
            let r = a.shl(k);
            if r.bits() <= max * 64 {
                r
            } else {
                a.clone()
            }
        }
    }
}

/// A value of a `bits`-bit unsigned type.
pub fn ubits(c: &mut Case, bits: usize) -> Z {
    match c.weighted(&[8, 3, 3, 3, 2, 2]) {
        5 => edge(c).mod2(bits),
        0 => {
            let n = bits.div_ceil(64);
            let l: Vec<u64> = if n > 2 && c.chance(80) { runs(c, n) } else { (0..n).map(|_| limb(c)).collect() };
            Z::from_limbs(false, &l).mod2(bits)
        }
        1 => Z::from_u128(u128::from(c.draw(300))).mod2(bits),
        2 => Z::pow2(bits).sub(&Z::from_u128(1 + u128::from(c.draw(300)))).mod2(bits),
        3 => {
            let k = c.below(bits);
            Z::pow2(k)
                .add(&Z::from_i128(i128::from(c.draw(2)) - 1))
                .mod2(bits)
        }
        _ => {
            // one random byte pattern per byte, so that every byte differs
            let b = c.bytes(bits / 8);
            Z::from_bytes_le(false, &b)
        }
    }
}

/// A primitive pattern of up to 128 bits, heavy on boundaries.
pub fn p128(c: &mut Case) -> u128 {
    match c.weighted(&[6, 4, 4, 4]) {
        0 => u128::from(limb(c)) | (u128::from(limb(c)) << 64),
        1 => u128::from(limb(c)),
        2 => (1u128 << c.draw(127)).wrapping_add(u128::from(c.draw(4))).wrapping_sub(2),
        _ => {
            let k = c.draw(127);
            let v = u128::from(c.u64()) << 64 | u128::from(c.u64());
            let v = v >> k;
            if c.coin() {
                v.wrapping_neg()
            } else {
                v
            }
        }
    }
}

/// `n` digits in a radix, in runs: of zeros, of the highest digit, of one digit, or of any.
/// Code that works through a text in chunks has its special cases here.
pub fn digits(c: &mut Case, radix: u32, n: usize) -> String {
    let mut out = String::new();
    while out.len() < n {
        let k = c.range(1, n - out.len());
        let kind = c.draw(4);
        let one = c.below(radix as usize) as u32;
        for _ in 0..k {
            let d = match kind {
                0 => 0,
                1 => radix - 1,
                2 => one,
                _ => c.below(radix as usize) as u32,
            };
            out.push(char::from_digit(d, radix).unwrap());
        }
    }
    out
}
