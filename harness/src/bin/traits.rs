//! numeric-traits on the primitive types: casts, operators, identities, bounds, bytes, floats.
use numeric_traits::bytes::ConvertBytes;
use numeric_traits::cast::*;
use numeric_traits::class::{Bounded, BoundedBit, BoundedSigned, Real, Signed};
use numeric_traits::identity::{One, Zero};
use numeric_traits::ops::checked::*;
use numeric_traits::ops::overflowing::*;
use numeric_traits::ops::widening::WideningMul;
use numeric_traits::ops::wrapping::*;
use numeric_traits::ops::{Factorial, Gcd, Pow, TrigOps};
use numeric_verif::refint::Z;
use numeric_verif::{ck, ck_eq, gen, harness_main, may_panic, sub, Case, Prop, R};
use std::fmt::Debug;
use std::num::*;

/// A primitive integer type, seen as a range of reference integers.
trait Prim: Copy + PartialEq + Debug + 'static {
    const BITS: usize;
    const SIGNED: bool;
    const NAME: &'static str;
    fn z(self) -> Z;
    fn pat(v: u128) -> Self;
    fn of(z: &Z) -> Option<Self> {
        (Self::lo() <= *z && *z <= Self::hi()).then(|| Self::wrap(z))
    }
    fn wrap(z: &Z) -> Self {
        Self::pat(z.mod2(128).low_u128())
    }
    fn lo() -> Z {
        if Self::SIGNED {
            Z::pow2(Self::BITS - 1).neg()
        } else {
            Z::zero()
        }
    }
    fn hi() -> Z {
        Z::pow2(Self::BITS - usize::from(Self::SIGNED)).sub(&Z::one())
    }
    fn clamp(z: &Z) -> Self {
        if *z < Self::lo() {
            Self::wrap(&Self::lo())
        } else if *z > Self::hi() {
            Self::wrap(&Self::hi())
        } else {
            Self::wrap(z)
        }
    }
}
macro_rules! prim {
    ($s:literal, $($t:ty),*) => {$(impl Prim for $t {
        const BITS: usize = <$t>::BITS as usize;
        const SIGNED: bool = $s;
        const NAME: &'static str = stringify!($t);
        fn z(self) -> Z { if $s { Z::from_i128(self as i128) } else { Z::from_u128(self as u128) } }
        fn pat(v: u128) -> Self { v as $t }
    })*};
}
prim!(false, u8, u16, u32, u64, u128, usize);
prim!(true, i8, i16, i32, i64, i128, isize);

/// Any value of the type, heavy on its own boundaries and on those of the other types.
fn val<T: Prim>(c: &mut Case) -> T {
    match c.weighted(&[4, 3, 3, 6, 3]) {
        0 => T::wrap(&Z::from_i128(i128::from(c.draw(20)) - 10)),
        1 => T::wrap(&T::hi().sub(&Z::from_u128(u128::from(c.draw(2))))),
        2 => T::wrap(&T::lo().add(&Z::from_u128(u128::from(c.draw(2))))),
        3 => {
            let k = c.pick(&[7usize, 8, 15, 16, 31, 32, 63, 64, 127]);
            let v = Z::pow2(k).add(&Z::from_i128(i128::from(c.draw(4)) - 2));
            T::wrap(&if c.coin() { v.neg() } else { v })
        }
        _ => T::pat(gen::p128(c)),
    }
}
/// Biased towards small magnitudes, for products and powers that fit.
fn small<T: Prim>(c: &mut Case) -> T {
    if c.coin() {
        let v = Z::from_i128(i128::from(c.draw(12)));
        T::wrap(&if T::SIGNED && c.coin() { v.neg() } else { v })
    } else {
        val(c)
    }
}

macro_rules! each_prim {
    ($c:expr, $m:ident) => {
        match $c.below(12) {
            0 => $m!(u8), 1 => $m!(u16), 2 => $m!(u32), 3 => $m!(u64), 4 => $m!(u128), 5 => $m!(usize),
            6 => $m!(i8), 7 => $m!(i16), 8 => $m!(i32), 9 => $m!(i64), 10 => $m!(i128), _ => $m!(isize),
        }
    };
}

// ------------------------------------------------ casts

fn cast_one<F: Prim, T: Prim + FromChecked<F> + FromTruncating<F>>(x: F) -> R {
    let z = x.z();
    ck_eq!(T::from_checked(x), T::of(&z), "{}::from_checked({x:?}: {})", T::NAME, F::NAME);
    ck_eq!(IntoChecked::<T>::into_checked(x), T::of(&z), "{}: into_checked({x:?}: {})", T::NAME, F::NAME);
    ck_eq!(T::truncate_from(x), T::wrap(&z), "{}::truncate_from({x:?}: {})", T::NAME, F::NAME);
    ck_eq!(IntoTruncating::<T>::truncate(x), T::wrap(&z), "{}: truncate({x:?}: {})", T::NAME, F::NAME);
    Ok(())
}
fn sat_one<F: Prim, T: Prim + FromSaturating<F>>(x: F) -> R {
    let z = x.z();
    ck_eq!(T::saturate_from(x), T::clamp(&z), "{}::saturate_from({x:?}: {})", T::NAME, F::NAME);
    ck_eq!(IntoSaturating::<T>::saturate(x), T::clamp(&z), "{}: saturate({x:?}: {})", T::NAME, F::NAME);
    Ok(())
}

fn casts_int(c: &mut Case) -> R {
    macro_rules! to { ($x:ident, $F:ty, $($T:ty),*) => {$(cast_one::<$F, $T>($x)?;)*} }
    macro_rules! sat { ($x:ident, $F:ty, $($T:ty),*) => {$(sat_one::<$F, $T>($x)?;)*} }
    macro_rules! from {
        ($F:ty) => {{
            let x: $F = val(c);
            c.note("value", &(x, <$F>::NAME));
            c.nontrivial(x.z().bits() > 6);
            c.label_if(x.z().neg, "negative");
            to!(x, $F, u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
            sat!(x, $F, u8, u16, u32, u64, u128, usize, i16, i32, i64, i128, isize);
            Ok(())
        }};
    }
    let r: R = each_prim!(c, from);
    r?;
    // i8 lacks only the conversion from isize
    macro_rules! to_i8 { ($($F:ty),*) => {{ let v: i64 = val(c); c.note("to i8", &v); $(sat_one::<$F, i8>(<$F>::pat(v as i128 as u128))?;)* }} }
    to_i8!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128);
    Ok(())
}

fn float_bits(c: &mut Case) -> f64 {
    match c.weighted(&[4, 3, 4, 4, 2, 3]) {
        0 => f64::from(c.irange(-40, 40) as i32) / 4.0,
        1 => f64::from_bits(c.u64()),
        2 => {
            // around powers of two, where integer ranges end
            let k = c.range(0, 140) as i32;
            let b = 2f64.powi(k).to_bits().wrapping_add(c.draw(4)).wrapping_sub(2);
            let f = f64::from_bits(b);
            if c.coin() { -f } else { f }
        }
        3 => {
            let v = gen::p128(c);
            let f = v as f64;
            if c.coin() { -f } else { f }
        }
        4 => c.pick(&[0.0, -0.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, 0.5, -0.5, 0.9999999999999999]),
        _ => f64::from(f32::from_bits(c.draw(u64::from(u32::MAX)) as u32)),
    }
}

/// Exact integer part (towards zero) of a finite float.
fn trunc_z(f: f64) -> Z {
    let b = f.to_bits();
    let e = (b >> 52 & 0x7ff) as i32;
    let m = (b & ((1 << 52) - 1)) | if e > 0 { 1 << 52 } else { 0 };
    let sh = e.max(1) - 1075;
    let z = Z::from_u128(u128::from(m));
    let z = if sh >= 0 { z.shl(sh as usize) } else { z.shr((-sh) as usize) };
    if f < 0.0 { z.neg() } else { z }
}

fn casts_from_float(c: &mut Case) -> R {
    let f = float_bits(c);
    let g = f as f32;
    c.note("f64", &f);
    c.note("f32", &g);
    c.nontrivial(f.abs() > 1.0 || !f.is_finite());
    c.label_if(f.is_nan(), "NaN");
    c.label_if(f.is_infinite(), "infinite");
    fn want<T: Prim>(f: f64) -> T {
        if f.is_nan() {
            T::wrap(&Z::zero())
        } else if f.is_infinite() {
            T::wrap(&if f > 0.0 { T::hi() } else { T::lo() })
        } else {
            T::clamp(&trunc_z(f))
        }
    }
    macro_rules! t { ($($T:ty),*) => {$(
        ck_eq!(<$T>::saturate_from(f), want::<$T>(f), "{}::saturate_from({f:?}f64)", <$T>::NAME);
        ck_eq!(<$T>::saturate_from(g), want::<$T>(f64::from(g)), "{}::saturate_from({g:?}f32)", <$T>::NAME);
    )*}; }
    t!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
    Ok(())
}

/// Round to nearest, ties to even, with `p` significant bits; exact as f64.
fn round_to(z: &Z, p: usize) -> f64 {
    let n = z.bits();
    let a = z.abs();
    let (q, s) = if n <= p {
        (a, 0)
    } else {
        let s = n - p;
        let q = a.shr(s);
        let r = a.sub(&q.shl(s));
        let half = Z::pow2(s - 1);
        let up = r > half || (r == half && q.bit(0));
        (if up { q.add(&Z::one()) } else { q }, s)
    };
    let f = q.low_u128() as f64 * 2f64.powi(s as i32);
    if z.neg { -f } else { f }
}

fn casts_to_float(c: &mut Case) -> R {
    macro_rules! from {
        ($F:ty) => {{
            let x: $F = val(c);
            c.note("value", &(x, <$F>::NAME));
            c.nontrivial(x.z().bits() > 24);
            let z = x.z();
            ck_eq!(f64::saturate_from(x), round_to(&z, 53), "f64::saturate_from({x:?}: {})", <$F>::NAME);
            let w = round_to(&z, 24);
            let got = f32::saturate_from(x);
            // values beyond the largest float may become it or infinity
            if w.abs() <= f64::from(f32::MAX) {
                ck_eq!(f64::from(got), w, "f32::saturate_from({x:?}: {})", <$F>::NAME);
            } else {
                ck!(got.abs() >= f32::MAX, "f32::saturate_from({x:?}) = {got}");
            }
            Ok(())
        }};
    }
    each_prim!(c, from)
}

// ------------------------------------------------ operators

fn int_ops(c: &mut Case) -> R {
    macro_rules! go {
        ($T:ty) => {{
            type T = $T;
            let a: T = small(c);
            let b: T = if c.chance(40) { a } else { small(c) };
            c.note("operands", &(a, b, T::NAME));
            let (za, zb) = (a.z(), b.z());
            c.nontrivial(za.bits() > 3 || zb.bits() > 3);
            let bits = <T as Prim>::BITS;
            let op = c.below(12);
            c.note("op", &op);
            let tri = |e: &Z| (T::wrap(e), T::of(e).is_none());
            match op {
                0 => {
                    let e = za.add(&zb);
                    c.label_if(T::of(&e).is_none(), "overflows");
                    ck_eq!(WrappingAdd::wrapping_add(a, b), tri(&e).0, "wrapping_add");
                    ck_eq!(OverflowingAdd::overflowing_add(a, b), tri(&e), "overflowing_add");
                    ck_eq!(CheckedAdd::checked_add(a, b), T::of(&e), "checked_add");
                }
                1 => {
                    let e = za.sub(&zb);
                    c.label_if(T::of(&e).is_none(), "overflows");
                    ck_eq!(WrappingSub::wrapping_sub(a, b), tri(&e).0, "wrapping_sub");
                    ck_eq!(OverflowingSub::overflowing_sub(a, b), tri(&e), "overflowing_sub");
                    ck_eq!(CheckedSub::checked_sub(a, b), T::of(&e), "checked_sub");
                }
                2 | 3 => {
                    let e = za.mul(&zb);
                    c.label_if(T::of(&e).is_none(), "overflows");
                    ck_eq!(WrappingMul::wrapping_mul(a, b), tri(&e).0, "wrapping_mul");
                    ck_eq!(OverflowingMul::overflowing_mul(a, b), tri(&e), "overflowing_mul");
                    ck_eq!(CheckedMul::checked_mul(a, b), T::of(&e), "checked_mul");
                }
                4 => {
                    let want = if zb.is_zero() { None } else { T::of(&za.divrem(&zb).0) };
                    ck_eq!(CheckedDiv::checked_div(a, b), want, "checked_div");
                }
                5 | 6 => {
                    // shift amounts: small, around the width, and huge ones whose low bits are small
                    let s: T = match c.below(4) {
                        0 => T::wrap(&Z::from_u128(u128::from(c.draw(bits as u64 + 3)))),
                        1 => b,
                        2 => T::wrap(&Z::pow2(32.min(bits - 1)).add(&Z::from_u128(u128::from(c.draw(9))))),
                        _ => T::wrap(&Z::from_i128(-i128::from(c.draw(9)))),
                    };
                    let zs = s.z();
                    c.note("shift", &s);
                    let ok = !zs.neg && zs < Z::from_u128(bits as u128);
                    let n = zs.mod2(bits.trailing_zeros() as usize).low_u128() as usize;
                    let (l, r) = (T::wrap(&za.shl(n)), T::wrap(&za.shr(n)));
                    ck_eq!(WrappingShl::wrapping_shl(a, s), l, "wrapping_shl");
                    ck_eq!(WrappingShr::wrapping_shr(a, s), r, "wrapping_shr");
                    ck_eq!(CheckedShl::<T>::checked_shl(a, s), ok.then_some(l), "checked_shl");
                    ck_eq!(CheckedShr::<T>::checked_shr(a, s), ok.then_some(r), "checked_shr");
                    let us: usize = match c.below(3) {
                        0 => c.range(0, bits + 2),
                        1 => (c.draw(9) << 32) as usize + c.range(0, 9),
                        _ => c.u64() as usize,
                    };
                    c.note("usize shift", &us);
                    let ok = us < bits;
                    let m = us % bits;
                    ck_eq!(CheckedShl::<usize>::checked_shl(a, us), ok.then(|| T::wrap(&za.shl(m))), "checked_shl(usize)");
                    ck_eq!(CheckedShr::<usize>::checked_shr(a, us), ok.then(|| T::wrap(&za.shr(m))), "checked_shr(usize)");
                    c.label_if(!ok, "shift out of range");
                }
                7 => {
                    // only representable powers: overflow is the primitive's own business
                    let e: T = match c.below(3) {
                        0 => T::wrap(&Z::from_u128(u128::from(c.draw(12)))),
                        1 => T::wrap(&T::hi().sub(&Z::from_u128(u128::from(c.draw(2))))),
                        _ => {
                            let v: T = val(c);
                            if v.z().neg { T::wrap(&v.z().not()) } else { v }
                        }
                    };
                    let ze = e.z();
                    c.note("exponent", &e);
                    let unit = za.is_zero() || za.abs() == Z::one();
                    let want = if unit {
                        let n = if ze.is_zero() { 0 } else if ze.bit(0) { 1 } else { 2 };
                        Some(za.pow(n))
                    } else if ze.bits() <= 8 {
                        Some(za.pow(ze.low_u128() as u32)).filter(|p| T::of(p).is_some())
                    } else {
                        None
                    };
                    if let Some(p) = want {
                        c.label_if(ze.bits() > 32, "exponent beyond 32 bits");
                        ck_eq!(Pow::pow(a, e), T::wrap(&p), "pow");
                    }
                }
                8 => {
                    let g = za.gcd(&zb);
                    if let Some(g) = T::of(&g) {
                        ck_eq!(Gcd::gcd(a, b), g, "gcd");
                        c.label_if(za.neg || zb.neg, "negative gcd operand");
                    }
                }
                9 => {
                    let lz = bits - za.mod2(bits).bits();
                    let m = za.mod2(bits);
                    let tz = (0..bits).find(|i| m.bit(*i)).unwrap_or(bits);
                    // the count is returned in the type itself; i8 and u8 hold up to 127
                    ck_eq!(BoundedBit::leading_zeros(a), T::wrap(&Z::from_u128(lz as u128)), "leading_zeros");
                    ck_eq!(BoundedBit::trailing_zeros(a), T::wrap(&Z::from_u128(tz as u128)), "trailing_zeros");
                }
                10 => {
                    ck_eq!((Bounded::min_value(), Bounded::max_value()), (T::wrap(&T::lo()), T::wrap(&T::hi())), "bounds");
                    ck_eq!(Zero::is_zero(&a), za.is_zero(), "is_zero");
                    ck_eq!(One::is_one(&a), za == Z::one(), "is_one");
                    ck_eq!((<T as Zero>::zero(), <T as One>::one()), (T::pat(0), T::pat(1)), "identities");
                }
                _ => {
                    let n = bits / 8;
                    let le = za.to_bytes_le(n);
                    let be: Vec<u8> = le.iter().rev().copied().collect();
                    ck_eq!(ConvertBytes::to_le_bytes(a).to_vec(), le, "to_le_bytes");
                    ck_eq!(ConvertBytes::to_be_bytes(a).to_vec(), be, "to_be_bytes");
                    ck_eq!(ConvertBytes::to_ne_bytes(a).to_vec(), le, "to_ne_bytes (little-endian host)");
                    ck_eq!(<T as ConvertBytes<{ std::mem::size_of::<T>() }>>::from_le_bytes(le[..].try_into().unwrap()), a, "from_le_bytes");
                    ck_eq!(<T as ConvertBytes<{ std::mem::size_of::<T>() }>>::from_be_bytes(be[..].try_into().unwrap()), a, "from_be_bytes");
                    ck_eq!(<T as ConvertBytes<{ std::mem::size_of::<T>() }>>::from_ne_bytes(le[..].try_into().unwrap()), a, "from_ne_bytes");
                }
            }
            Ok(())
        }};
    }
    each_prim!(c, go)
}

fn unsigned_ops(c: &mut Case) -> R {
    macro_rules! go {
        ($T:ty) => {{
            let (a, b, d): ($T, $T, $T) = (val(c), val(c), val(c));
            c.note("widening", &(a, b, d));
            c.nontrivial(true);
            let e = a.z().mul(&b.z()).add(&d.z());
            let (lo, hi) = WideningMul::widening_mul(a, b, d);
            ck_eq!((lo.z(), hi.z()), (e.mod2(<$T as Prim>::BITS), e.shr(<$T as Prim>::BITS)), "{} widening_mul (low, high)", <$T>::NAME);
            // factorials that fit
            let mut f = Z::one();
            let mut n = 0u128;
            loop {
                ck_eq!(Factorial::factorial(n as $T).z(), f, "{n}! as {}", <$T>::NAME);
                n += 1;
                f = f.mul(&Z::from_u128(n));
                if <$T as Prim>::of(&f).is_none() { break; }
            }
            Ok(())
        }};
    }
    match c.below(6) { 0 => go!(u8), 1 => go!(u16), 2 => go!(u32), 3 => go!(u64), 4 => go!(u128), _ => go!(usize) }
}

fn signed_ops(c: &mut Case) -> R {
    macro_rules! go {
        ($T:ty) => {{
            let a: $T = val(c);
            c.note("value", &(a, <$T>::NAME));
            let z = a.z();
            c.nontrivial(z.neg || z.is_zero());
            ck_eq!(Signed::is_positive(&a), !z.neg, "is_positive({a})");
            ck_eq!(Signed::is_negative(&a), z.neg, "is_negative({a})");
            if let Some(w) = <$T as Prim>::of(&z.abs()) {
                ck_eq!(Signed::abs(a), w, "abs({a})");
            }
            Ok(())
        }};
    }
    match c.below(6) { 0 => go!(i8), 1 => go!(i16), 2 => go!(i32), 3 => go!(i64), 4 => go!(i128), _ => go!(isize) }
}

fn nonzero(c: &mut Case) -> R {
    macro_rules! common {
        ($N:ty, $T:ty) => {{
            let v: $T = val(c);
            let v: $T = if v == 0 { 1 } else { v };
            c.note("value", &(v, stringify!($N)));
            c.nontrivial(v != 1);
            let n = <$N>::new(v).unwrap();
            ck_eq!(One::is_one(&n), v == 1, "is_one({v})");
            ck_eq!(<$N as One>::one().get(), 1, "one");
            ck_eq!((<$N as Bounded>::min_value(), <$N as Bounded>::max_value()), (<$N>::MIN, <$N>::MAX), "bounds");
            (n, v)
        }};
    }
    macro_rules! u { ($N:ty, $T:ty) => {{ let _ = common!($N, $T); Ok(()) }}; }
    macro_rules! s { ($N:ty, $T:ty) => {{
        let (n, v) = common!($N, $T);
        ck_eq!(Signed::is_positive(&n), v > 0, "is_positive({v})");
        ck_eq!(Signed::is_negative(&n), v < 0, "is_negative({v})");
        if v != <$T>::MIN { ck_eq!(Signed::abs(n).get(), v.abs(), "abs({v})"); }
        ck_eq!((<$N as BoundedSigned>::min_positive().get(), <$N as BoundedSigned>::max_negative().get()), (1, -1), "smallest magnitudes");
        Ok(())
    }}; }
    match c.below(12) {
        0 => u!(NonZeroU8, u8), 1 => u!(NonZeroU16, u16), 2 => u!(NonZeroU32, u32), 3 => u!(NonZeroU64, u64),
        4 => u!(NonZeroU128, u128), 5 => u!(NonZeroUsize, usize),
        6 => s!(NonZeroI8, i8), 7 => s!(NonZeroI16, i16), 8 => s!(NonZeroI32, i32), 9 => s!(NonZeroI64, i64),
        10 => s!(NonZeroI128, i128), _ => s!(NonZeroIsize, isize),
    }
}

// ------------------------------------------------ floats

fn floats(c: &mut Case) -> R {
    let x = float_bits(c);
    c.note("x", &x);
    c.nontrivial(x.is_finite() && x.fract() != 0.0);
    macro_rules! go {
        ($T:ident, $x:expr, $tol:expr) => {{
            let x: $T = $x;
            let same = |a: $T, b: $T| a == b || (a.is_nan() && b.is_nan());
            if x.is_finite() {
                // integer part by exact integer arithmetic, where it matters
                let (fl, ce, tr, ro) = (Real::floor(x), Real::ceil(x), Real::trunc(x), Real::round(x));
                let t = trunc_z(f64::from(x));
                let whole = f64::from(x) == t.to_f64() || t.bits() > 60;
                if whole {
                    ck!(fl == x && ce == x && tr == x && ro == x, "rounding changed the whole number {x}: {fl} {ce} {tr} {ro}");
                    ck!(Real::fract(x) == 0.0, "fract of whole {x} is {}", Real::fract(x));
                } else {
                    let t = t.to_i128().unwrap() as $T;
                    let (lo, hi) = if x < 0.0 { (t - 1.0, t) } else { (t, t + 1.0) };
                    ck_eq!(fl, lo, "floor({x})");
                    ck_eq!(ce, hi, "ceil({x})");
                    ck_eq!(tr, t, "trunc({x})");
                    let (dl, dh) = (x - lo, hi - x);
                    let near = if dl < dh { lo } else if dh < dl { hi } else if x < 0.0 { lo } else { hi };
                    ck_eq!(ro, near, "round({x})");
                    ck_eq!(Real::fract(x), x - t, "fract({x})");
                }
            }
            ck!(same(Signed::abs(x), if x < 0.0 { -x } else if x == 0.0 { 0.0 } else { x }), "abs({x}) = {}", Signed::abs(x));
            ck_eq!(Signed::is_negative(&x), x < 0.0, "is_negative({x})");
            ck_eq!(Signed::is_positive(&x), x >= 0.0, "is_positive({x})");
            ck_eq!((Zero::is_zero(&x), One::is_one(&x)), (x == 0.0, x == 1.0), "identity tests of {x}");
            ck_eq!((<$T as Zero>::zero(), <$T as One>::one()), (0.0, 1.0), "identities");
            ck_eq!((<$T as Bounded>::min_value(), <$T as Bounded>::max_value()), ($T::MIN, $T::MAX), "bounds");
            // the least positive number: either the least normal one (the namesake in std) or the least one
            let least = |v: $T| v == $T::MIN_POSITIVE || v == $T::from_bits(1);
            ck!(least(<$T as BoundedSigned>::min_positive()) && least(-<$T as BoundedSigned>::max_negative()), "smallest magnitudes: {:?} {:?}", <$T as BoundedSigned>::min_positive(), <$T as BoundedSigned>::max_negative());
            // bytes
            let n = std::mem::size_of::<$T>();
            let le = Z::from_u128(u128::from(x.to_bits())).to_bytes_le(n);
            let be: Vec<u8> = le.iter().rev().copied().collect();
            ck_eq!(ConvertBytes::to_le_bytes(x).to_vec(), le, "to_le_bytes");
            ck_eq!(ConvertBytes::to_be_bytes(x).to_vec(), be, "to_be_bytes");
            ck_eq!(ConvertBytes::to_ne_bytes(x).to_vec(), le, "to_ne_bytes");
            ck_eq!(<$T as ConvertBytes<{ std::mem::size_of::<$T>() }>>::from_le_bytes(le[..].try_into().unwrap()).to_bits(), x.to_bits(), "from_le_bytes");
            ck_eq!(<$T as ConvertBytes<{ std::mem::size_of::<$T>() }>>::from_be_bytes(be[..].try_into().unwrap()).to_bits(), x.to_bits(), "from_be_bytes");
            ck_eq!(<$T as ConvertBytes<{ std::mem::size_of::<$T>() }>>::from_ne_bytes(le[..].try_into().unwrap()).to_bits(), x.to_bits(), "from_ne_bytes");
            // everything that has a namesake in std agrees with it everywhere: NaN, infinities, signed
            // zeros and subnormals included
            let y = if c.coin() { float_bits(c) } else { f64::from(c.irange(-12, 12) as i32) / 2.0 } as $T;
            c.note("y", &y);
            c.label_if(x.is_nan() || y.is_nan(), "NaN");
            c.label_if(x.is_infinite() || y.is_infinite(), "infinite");
            c.label_if(x.is_subnormal() || y.is_subnormal(), "subnormal");
            let std = [
                ("floor", Real::floor(x), $T::floor(x)),
                ("ceil", Real::ceil(x), $T::ceil(x)),
                ("round", Real::round(x), $T::round(x)),
                ("trunc", Real::trunc(x), $T::trunc(x)),
                ("fract", Real::fract(x), $T::fract(x)),
                ("abs", Signed::abs(x), $T::abs(x)),
                ("sqrt", Real::sqrt(x), $T::sqrt(x)),
                ("cbrt", Real::cbrt(x), $T::cbrt(x)),
                ("log", Real::log(x, y), $T::log(x, y)),
                ("pow", Pow::pow(x, y), $T::powf(x, y)),
                ("sin", TrigOps::sin(x), $T::sin(x)),
                ("cos", TrigOps::cos(x), $T::cos(x)),
                ("tan", TrigOps::tan(x), $T::tan(x)),
                ("csc", TrigOps::csc(x), 1.0 / $T::sin(x)),
                ("sec", TrigOps::sec(x), 1.0 / $T::cos(x)),
                ("cot", TrigOps::cot(x), 1.0 / $T::tan(x)),
            ];
            for (name, got, want) in std {
                ck!(alike(f64::from(got), f64::from(want), f64::from($T::EPSILON)), "{name} of {x:?}, {y:?} is {got:?}, std has {want:?}");
            }
            // powers, roots and logarithms, on arguments where they are well conditioned
            let close = |a: $T, b: $T| (a - b).abs() <= $tol * (1.0 + b.abs());
            let p = (c.range(1, 4000) as $T) / 16.0;
            let n = c.range(2, 6);
            c.note("p, n", &(p, n));
            let mut want = 1.0;
            for _ in 0..n { want *= p; }
            ck!(close(Pow::pow(p, n as $T), want), "pow({p}, {n}) = {}", Pow::pow(p, n as $T));
            ck!(close(Real::root(want, n as $T), p), "root({want}, {n}) = {}", Real::root(want, n as $T));
            ck!(close(Real::sqrt(p * p), p), "sqrt({}) = {}", p * p, Real::sqrt(p * p));
            ck!(close(Real::cbrt(p * p * p), p), "cbrt({}) = {}", p * p * p, Real::cbrt(p * p * p));
            let base = 1.5 + c.range(0, 100) as $T / 8.0;
            let k = c.range(1, 6);
            let mut want = 1.0;
            for _ in 0..k { want *= base; }
            ck!(close(Real::log(want, base), k as $T), "log({want}, {base}) = {}", Real::log(want, base));
            // trigonometry: definitions and an independent quarter-turn relation
            let t = (c.irange(-60, 60) as $T) / 10.0 + 0.05;
            c.note("angle", &t);
            let (s, co, ta) = (TrigOps::sin(t), TrigOps::cos(t), TrigOps::tan(t));
            ck!(close(s * s + co * co, 1.0), "sin^2+cos^2 at {t}");
            ck!(close(s, series_sin(f64::from(t)) as $T), "sin({t}) = {s}");
            ck!(close(co, series_cos(f64::from(t)) as $T), "cos({t}) = {co}");
            if co.abs() > 1e-2 {
                ck!(close(ta * co, s), "tan*cos at {t}");
                ck!(close(TrigOps::sec(t) * co, 1.0), "sec*cos at {t}");
            }
            if s.abs() > 1e-2 {
                ck!(close(TrigOps::csc(t) * s, 1.0), "csc*sin at {t}");
                ck!(close(TrigOps::cot(t) * s, co), "cot*sin at {t}");
            }
        }};
    }
    if c.coin() {
        go!(f32, x as f32, 2e-4);
    } else {
        go!(f64, x, 1e-10);
    }
    Ok(())
}
/// The same value, up to the last few bits; zeros keep their sign.
fn alike(a: f64, b: f64, eps: f64) -> bool {
    if a.is_nan() || b.is_nan() {
        return a.is_nan() && b.is_nan();
    }
    if a == b {
        return a != 0.0 || a.is_sign_negative() == b.is_sign_negative();
    }
    // a subnormal result has no relative precision to speak of
    a.is_finite() && b.is_finite() && ((a - b).abs() <= 4.0 * eps * b.abs() || (a - b).abs() <= 4.0 * f64::MIN_POSITIVE * eps)
}
fn series_sin(x: f64) -> f64 {
    let (mut t, mut s) = (x, x);
    for k in 1..40 {
        t *= -x * x / f64::from((2 * k) * (2 * k + 1));
        s += t;
    }
    s
}
fn series_cos(x: f64) -> f64 {
    let (mut t, mut s) = (1.0, 1.0);
    for k in 1..40 {
        t *= -x * x / f64::from((2 * k) * (2 * k - 1));
        s += t;
    }
    s
}

fn div_zero(c: &mut Case) -> R {
    // kept separate: checked_div never panics
    macro_rules! go { ($T:ty) => {{
        let a: $T = val(c);
        c.nontrivial(true);
        ck_eq!(may_panic(|| CheckedDiv::checked_div(a, 0)), Some(None), "checked_div({a}, 0)");
        Ok(())
    }}; }
    each_prim!(c, go)
}

// ------------------------------------------------ provided methods, on types of our own

/// Implements only what `ConvertBytes` requires, in a way that tells its two forms apart.
#[derive(Clone, Copy, PartialEq, Debug)]
struct Bytes<const N: usize> {
    le: [u8; N],
}
impl<const N: usize> ConvertBytes<N> for Bytes<N> {
    fn from_le_bytes(le: [u8; N]) -> Self {
        Bytes { le }
    }
    // not only the other way round: also inverted, so that a single byte tells them apart
    fn from_be_bytes(mut le: [u8; N]) -> Self {
        le.reverse();
        Bytes { le: le.map(|b| !b) }
    }
    fn to_le_bytes(self) -> [u8; N] {
        self.le
    }
    fn to_be_bytes(self) -> [u8; N] {
        let mut b = self.le.map(|b| !b);
        b.reverse();
        b
    }
}
fn provided_bytes(c: &mut Case) -> R {
    fn go<const N: usize>(c: &mut Case) -> R {
        let b: [u8; N] = std::array::from_fn(|_| c.u64() as u8);
        c.note("bytes", &b.to_vec());
        c.nontrivial(b.iter().rev().ne(b.iter()));
        let (v, native) = if cfg!(target_endian = "little") {
            (Bytes::<N>::from_le_bytes(b), ConvertBytes::to_le_bytes as fn(Bytes<N>) -> [u8; N])
        } else {
            (Bytes::<N>::from_be_bytes(b), ConvertBytes::to_be_bytes as fn(Bytes<N>) -> [u8; N])
        };
        ck_eq!(Bytes::<N>::from_ne_bytes(b), v, "from_ne_bytes of an own type");
        ck_eq!(ConvertBytes::to_ne_bytes(v), native(v), "to_ne_bytes of an own type");
        Ok(())
    }
    let fs: &[fn(&mut Case) -> R] = &[
        go::<0>, go::<1>, go::<2>, go::<3>, go::<4>, go::<5>, go::<6>, go::<7>, go::<8>, go::<9>, go::<12>, go::<15>, go::<16>, go::<17>,
        go::<24>, go::<31>, go::<32>, go::<33>, go::<64>, go::<65>,
    ];
    let k = c.below(fs.len());
    fs[k](c)
}

/// A positive real held as its logarithm to base 2 in units of 1/360360 (0 is held as None): powers
/// are exact, so that roots can be compared exactly. Only what `Real` requires is implemented. The
/// sums the provided methods may need (small whole numbers) are represented beside it.
#[derive(Clone, PartialEq, PartialOrd, Debug)]
enum L {
    /// an ordinary fraction p/q, as used for exponents
    Q(i128, i128),
    /// 2^(n / 360360)
    P(i128),
}
const UNIT: i128 = 360_360;
fn q(p: i128, d: i128) -> L {
    let g = gcd(p.abs(), d.abs()).max(1);
    let s = if d < 0 { -1 } else { 1 };
    L::Q(s * p / g, s * d / g)
}
fn gcd(a: i128, b: i128) -> i128 {
    if b == 0 { a } else { gcd(b, a % b) }
}
impl L {
    fn frac(&self) -> (i128, i128) {
        match self {
            L::Q(p, d) => (*p, *d),
            L::P(_) => panic!("a power of two where a fraction was expected"),
        }
    }
}
macro_rules! l_op {
    ($($Tr:ident $f:ident |$a:ident $b:ident $x:ident $y:ident| $e:expr),*) => {$(
        impl std::ops::$Tr for L {
            type Output = L;
            fn $f(self, o: L) -> L {
                let (($a, $b), ($x, $y)) = (self.frac(), o.frac());
                $e
            }
        }
    )*};
}
l_op!(Add add |a b x y| q(a * y + x * b, b * y), Sub sub |a b x y| q(a * y - x * b, b * y), Mul mul |a b x y| q(a * x, b * y),
      Div div |a b x y| { assert!(x != 0, "division by zero"); q(a * y, b * x) }, Rem rem |a b x y| { let _ = (a, b, x, y); unimplemented!() });
impl Zero for L {
    fn zero() -> L {
        q(0, 1)
    }
    fn is_zero(&self) -> bool {
        *self == q(0, 1)
    }
}
impl One for L {
    fn one() -> L {
        q(1, 1)
    }
    fn is_one(&self) -> bool {
        *self == q(1, 1)
    }
}
impl Pow for L {
    type Output = L;
    fn pow(self, e: L) -> L {
        let (p, d) = e.frac();
        match self {
            L::P(n) => {
                assert!(n * p % d == 0, "exponent {p}/{d} of 2^({n}/{UNIT})");
                L::P(n * p / d)
            }
            L::Q(..) => panic!("a power of the exponent {self:?}"),
        }
    }
}
impl numeric_traits::class::Numeric for L {}
impl Real for L {
    fn floor(self) -> L { unimplemented!() }
    fn ceil(self) -> L { unimplemented!() }
    fn round(self) -> L { unimplemented!() }
    fn trunc(self) -> L { unimplemented!() }
    fn fract(self) -> L { unimplemented!() }
    fn log(self, _: L) -> L { unimplemented!() }
}

/// A float of our own that implements only what is required; everything else is passed on.
#[derive(Clone, Copy, PartialEq, PartialOrd, Debug)]
struct W(f64);
macro_rules! w_op { ($($Tr:ident $f:ident),*) => {$(impl std::ops::$Tr for W { type Output = W; fn $f(self, o: W) -> W { W(std::ops::$Tr::$f(self.0, o.0)) } })*}; }
w_op!(Add add, Sub sub, Mul mul, Div div, Rem rem);
impl Zero for W {
    fn zero() -> W { W(0.0) }
    fn is_zero(&self) -> bool { self.0 == 0.0 }
}
impl One for W {
    fn one() -> W { W(1.0) }
    fn is_one(&self) -> bool { self.0 == 1.0 }
}
impl Pow for W {
    type Output = W;
    fn pow(self, e: W) -> W { W(self.0.powf(e.0)) }
}
impl numeric_traits::class::Numeric for W {}
impl Real for W {
    fn floor(self) -> W { W(self.0.floor()) }
    fn ceil(self) -> W { W(self.0.ceil()) }
    fn round(self) -> W { W(self.0.round()) }
    fn trunc(self) -> W { W(self.0.trunc()) }
    fn fract(self) -> W { W(self.0.fract()) }
    fn log(self, b: W) -> W { W(self.0.log(b.0)) }
}

/// A decimal whose division rounds down to hundredths. Its power keeps the exponent it was given.
#[derive(Clone, Copy, PartialEq, PartialOrd, Debug)]
struct Cents(i64, Option<i64>);
macro_rules! cents_op { ($($Tr:ident $f:ident |$a:ident $b:ident| $e:expr),*) => {$(impl std::ops::$Tr for Cents { type Output = Cents; fn $f(self, o: Cents) -> Cents { let ($a, $b) = (self.0, o.0); Cents($e, None) } })*}; }
cents_op!(Add add |a b| a + b, Sub sub |a b| a - b, Mul mul |a b| (a * b).div_euclid(100), Div div |a b| (a * 100).div_euclid(b), Rem rem |a b| a.rem_euclid(b));
impl Zero for Cents {
    fn zero() -> Cents { Cents(0, None) }
    fn is_zero(&self) -> bool { self.0 == 0 }
}
impl One for Cents {
    fn one() -> Cents { Cents(100, None) }
    fn is_one(&self) -> bool { self.0 == 100 }
}
impl Pow for Cents {
    type Output = Cents;
    fn pow(self, e: Cents) -> Cents { Cents(self.0, Some(e.0)) }
}
impl numeric_traits::class::Numeric for Cents {}
impl Real for Cents {
    fn floor(self) -> Cents { unimplemented!() }
    fn ceil(self) -> Cents { unimplemented!() }
    fn round(self) -> Cents { unimplemented!() }
    fn trunc(self) -> Cents { unimplemented!() }
    fn fract(self) -> Cents { unimplemented!() }
    fn log(self, _: Cents) -> Cents { unimplemented!() }
}

fn provided_roots(c: &mut Case) -> R {
    // roots of floats that only have a power: within a few bits of the root
    let x = if c.coin() { c.u64() as f64 / 65536.0 } else { c.range(0, 5000) as f64 / 8.0 };
    c.note("x", &x);
    c.nontrivial(x > 1.0);
    let close = |got: W, want: f64| (got.0 - want).abs() <= 1e-12 * (1.0 + want.abs());
    ck!(close(Real::sqrt(W(x)), x.sqrt()), "provided sqrt({x}) = {:?}", Real::sqrt(W(x)));
    ck!(close(Real::cbrt(W(x)), x.cbrt()), "provided cbrt({x}) = {:?}", Real::cbrt(W(x)));
    let k = c.range(1, 9) as f64;
    c.note("k", &k);
    ck!(close(Real::root(W(x), W(k)), x.powf(1.0 / k)), "provided root({x}, {k}) = {:?}", Real::root(W(x), W(k)));
    // roots in a type whose powers are exact
    let n = c.irange(-50, 50) as i128 * UNIT;
    let k = i128::from(c.draw(14)) + 1;
    c.note("2^n, k", &(n / UNIT, k));
    for (name, got, k) in [
        ("sqrt", may_panic(|| Real::sqrt(L::P(n))), 2),
        ("cbrt", may_panic(|| Real::cbrt(L::P(n))), 3),
        ("root", may_panic(|| Real::root(L::P(n), q(k, 1))), k),
    ] {
        // None: computed in a way this type does not have
        if let Some(L::P(got)) = got {
            ck_eq!(got, n / k, "provided {name} (k = {k}) of 2^{}: exponent in units of 1/{UNIT}", n / UNIT);
        }
    }
    // the exponent is what the type itself makes of one divided by k
    let x = Cents(c.irange(-100_000, 100_000), None);
    let k = if c.coin() { c.irange(1, 50) * 100 } else { c.irange(1, 20_000) };
    c.note("decimal x, k (hundredths)", &(x.0, k));
    for (name, got, k) in [
        ("sqrt", may_panic(|| Real::sqrt(x)), 200),
        ("cbrt", may_panic(|| Real::cbrt(x)), 300),
        ("root", may_panic(|| Real::root(x, Cents(k, None))), k),
    ] {
        // None: computed in a way this type does not have
        if let Some(Cents(b, Some(e))) = got {
            ck_eq!((b, e), (x.0, 10_000 / k), "provided {name} (k = {k}/100) of {}/100: base and exponent of the power, in hundredths", x.0);
        }
    }
    Ok(())
}

/// Counts what it is asked for.
#[derive(Clone, PartialEq, Debug)]
struct Src(i128, u32);
#[derive(Clone, PartialEq, Debug)]
struct Dst(&'static str, i128, u32);
impl FromChecked<Src> for Dst {
    fn from_checked(s: Src) -> Option<Dst> {
        (s.0 % 2 == 0).then(|| Dst("checked", s.0, s.1))
    }
}
impl FromSaturating<Src> for Dst {
    fn saturate_from(s: Src) -> Dst {
        Dst("saturating", s.0, s.1)
    }
}
impl FromTruncating<Src> for Dst {
    fn truncate_from(s: Src) -> Dst {
        Dst("truncating", s.0, s.1)
    }
}
fn provided_casts(c: &mut Case) -> R {
    fn all<T: FromAll<Src> + PartialEq + Debug>(s: &Src) -> (Option<T>, T, T) {
        (s.clone().into_checked(), s.clone().saturate(), s.clone().truncate())
    }
    let s = Src(gen::p128(c) as i128, c.draw(9) as u32);
    c.note("source", &s);
    c.nontrivial(s.0 > 1);
    let (a, b, t) = all::<Dst>(&s);
    ck_eq!(a, (s.0 % 2 == 0).then(|| Dst("checked", s.0, s.1)), "into_checked of an own type");
    ck_eq!(b, Dst("saturating", s.0, s.1), "saturate of an own type");
    ck_eq!(t, Dst("truncating", s.0, s.1), "truncate of an own type");
    Ok(())
}

fn main() {
    harness_main(vec![
        Prop {
            id: "C19",
            subs: vec![
                sub("integers", 360_000, casts_int),
                sub("from-floats", 1_000_000, casts_from_float),
                sub("to-floats", 6_000_000, casts_to_float),
            ],
        },
        Prop {
            id: "C20",
            subs: vec![
                sub("integers", 3_200_000, int_ops),
                sub("unsigned", 680_000, unsigned_ops),
                sub("signed", 2_000_000, signed_ops),
                sub("nonzero", 2_000_000, nonzero),
                sub("division-by-zero", 400_000, div_zero),
            ],
        },
        Prop {
            id: "C21",
            subs: vec![sub("floats", 6_000_000, floats)],
        },
        Prop {
            id: "C34",
            subs: vec![
                sub("bytes", 4_000_000, provided_bytes),
                sub("roots", 4_000_000, provided_roots),
                sub("casts", 4_000_000, provided_casts),
            ],
        },
    ])
}
