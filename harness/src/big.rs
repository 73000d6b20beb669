//! Building and reading `BigInt`s.
use crate::engine::Case;
use crate::refint::Z;
use numeric_ints::BigInt;
use numeric_traits::cast::FromStrRadix;

/// How a value is put together: equal numbers must be interchangeable whatever their history.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Route {
    ShiftAdd,
    MulAdd,
    Hex,
    Prim,
    Minus,
}

pub fn route(c: &mut Case) -> Route {
    c.pick(&[Route::ShiftAdd, Route::Prim, Route::MulAdd, Route::Hex, Route::Minus])
}

pub fn build(z: &Z, r: Route) -> BigInt {
    let l = z.limbs();
    let mag = match r {
        Route::Prim if l.len() <= 2 => {
            if let Some(v) = z.to_i128() {
                return BigInt::from(v);
            }
            BigInt::from(z.abs().to_u128().unwrap())
        }
        Route::Hex => BigInt::from_str_radix(&z.abs().to_radix(16, false), 16).expect("hex digits"),
        Route::MulAdd => {
            let base = BigInt::from(1u128 << 64);
            let mut x = BigInt::new();
            for v in l.iter().rev() {
                x = &x * &base + BigInt::from(*v);
            }
            x
        }
        Route::Minus => {
            // a larger number minus the excess
            let x = build(&z.abs().add(&Z::pow2(200)), Route::ShiftAdd);
            x - build(&Z::pow2(200), Route::ShiftAdd)
        }
        _ => {
            let mut x = BigInt::new();
            for v in l.iter().rev() {
                x = (x << 64u32) + *v;
            }
            x
        }
    };
    if z.neg_is() {
        -mag
    } else {
        mag
    }
}

/// The value, read bit by bit from the binary text form.
pub fn read(b: &BigInt) -> Z {
    let s = format!("{b:b}");
    let (neg, t) = match s.strip_prefix('-') {
        Some(t) => (true, t),
        None => (false, s.as_str()),
    };
    let t = t.strip_prefix("0b").unwrap_or(t);
    let mut limbs = Vec::new();
    let bytes = t.as_bytes();
    let mut end = bytes.len();
    while end > 0 {
        let start = end.saturating_sub(64);
        let mut v = 0u64;
        for b in &bytes[start..end] {
            v = (v << 1) | u64::from(*b == b'1');
        }
        limbs.push(v);
        end = start;
    }
    let z = Z::from_limbs(neg, &limbs);
    // a negative zero must not pass for zero
    if neg && z.is_zero() {
        return Z::pow2(9999).neg();
    }
    z
}
