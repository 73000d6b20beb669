//! Fixed-width integers U<N> and I<N> against reference integers.
use numeric_ints::{I, U};
use numeric_traits::cast::{FromChecked, FromSaturating, FromTruncating, IntoChecked, IntoSaturating, IntoTruncating};
use numeric_traits::class::{Bounded, BoundedSigned, Signed};
use numeric_traits::identity::{One, Zero};
use numeric_traits::ops::checked::*;
use numeric_traits::ops::saturating::*;
use numeric_traits::ops::wrapping::*;
use numeric_traits::ops::Pow;
use numeric_verif::refint::Z;
use numeric_verif::{ck, ck_eq, gen, harness_main, may_panic, must, sub, Case, Prop, R};
use rand::distr::{Distribution, StandardUniform};
use rand::{Fill, RngCore};
use std::cmp::Ordering;

const DEBUG: bool = cfg!(debug_assertions);

macro_rules! by_n {
    ($c:expr, $f:ident) => {
        match $c.weighted(&[6, 8, 10, 6, 6, 4, 6, 8, 8, 3, 3, 3, 2, 2, 3, 6, 6, 2, 3, 2, 3, 2, 2, 2]) {
            0 => $f::<1>($c),
            1 => $f::<2>($c),
            2 => $f::<3>($c),
            3 => $f::<4>($c),
            4 => $f::<5>($c),
            5 => $f::<6>($c),
            6 => $f::<7>($c),
            7 => $f::<8>($c),
            8 => $f::<9>($c),
            9 => $f::<10>($c),
            10 => $f::<11>($c),
            11 => $f::<12>($c),
            12 => $f::<13>($c),
            13 => $f::<14>($c),
            14 => $f::<15>($c),
            15 => $f::<16>($c),
            16 => $f::<17>($c),
            17 => $f::<20>($c),
            18 => $f::<24>($c),
            19 => $f::<31>($c),
            20 => $f::<32>($c),
            21 => $f::<33>($c),
            22 => $f::<48>($c),
            _ => $f::<65>($c),
        }
    };
}

/// For what is slow on long numbers.
macro_rules! by_n_short {
    ($c:expr, $f:ident) => {
        match $c.weighted(&[6, 8, 8, 8, 6, 6, 6, 8, 8, 4, 3, 3, 3, 2, 1, 1]) {
            0 => $f::<1>($c),
            1 => $f::<2>($c),
            2 => $f::<3>($c),
            3 => $f::<4>($c),
            4 => $f::<5>($c),
            5 => $f::<6>($c),
            6 => $f::<7>($c),
            7 => $f::<8>($c),
            8 => $f::<9>($c),
            9 => $f::<10>($c),
            10 => $f::<12>($c),
            11 => $f::<15>($c),
            12 => $f::<16>($c),
            13 => $f::<17>($c),
            14 => $f::<25>($c),
            _ => $f::<33>($c),
        }
    };
}

/// Widths beyond the usual ones, in sub-checks of their own: one case costs as much as many short ones.
macro_rules! by_n_wide {
    ($c:expr, $f:ident) => {
        match $c.weighted(&[4, 4, 4, 5, 3, 8, 3, 6, 3, 3, 3, 3, 3, 3, 3, 1, 2, 3, 3, 3]) {
            0 => $f::<19>($c),
            1 => $f::<23>($c),
            2 => $f::<28>($c),
            3 => $f::<40>($c),
            4 => $f::<50>($c),
            5 => $f::<64>($c),
            6 => $f::<100>($c),
            7 => $f::<128>($c),
            8 => $f::<18>($c),
            9 => $f::<21>($c),
            10 => $f::<22>($c),
            11 => $f::<27>($c),
            12 => $f::<30>($c),
            13 => $f::<37>($c),
            14 => $f::<62>($c),
            15 => $f::<256>($c),
            16 => $f::<257>($c),
            17 => $f::<25>($c),
            18 => $f::<26>($c),
            _ => $f::<29>($c),
        }
    };
}

fn u<const N: usize>(z: &Z) -> U<N> {
    let b = z.to_bytes_le(N);
    U::from_le_bytes(b.try_into().unwrap())
}
fn uz<const N: usize>(v: U<N>) -> Z {
    Z::from_bytes_le(false, &v.to_le_bytes())
}

fn upair<const N: usize>(c: &mut Case) -> (Z, Z) {
    let bits = 8 * N;
    if c.chance(24) {
        let (a, b) = gen::edges(c);
        return (a.mod2(bits), b.mod2(bits));
    }
    let a = gen::ubits(c, bits);
    let b = match c.weighted(&[6, 2, 4, 2, 2, 2]) {
        0 => gen::ubits(c, bits),
        1 => a.clone(),
        2 => gen::related(c, &a, N.div_ceil(8)).mod2(bits),
        3 => {
            // the product or the sum lands near the limit
            let top = Z::pow2(bits);
            if a.is_zero() {
                a.clone()
            } else {
                let q = top.divrem(&a).0;
                q.add(&Z::from_i128(i128::from(c.draw(2)) - 1)).mod2(bits)
            }
        }
        4 => Z::pow2(bits).sub(&a).add(&Z::from_i128(i128::from(c.draw(2)) - 1)).mod2(bits),
        _ => {
            // a narrow divisor
            let k = c.range(1, N);
            gen::ubits(c, 8 * k)
        }
    };
    if c.chance(40) {
        (b, a)
    } else {
        (a, b)
    }
}

fn u_arith<const N: usize>(c: &mut Case) -> R {
    let bits = 8 * N;
    let (a, b) = upair::<N>(c);
    let op = c.below(16);
    c.note("N", &N);
    c.note("a", &a);
    c.note("b", &b);
    c.note("op", &op);
    c.nontrivial(a.bits() > 1 && b.bits() > 1);
    let (x, y) = (u::<N>(&a), u::<N>(&b));
    let max = Z::pow2(bits).sub(&Z::one());
    let fits = |r: &Z| !r.neg_is() && *r <= max;
    let operator = |c: &mut Case, name: &str, r: Z, got: &dyn Fn() -> U<N>| -> R {
        if fits(&r) {
            let g = must(name, got)?;
            ck_eq!(uz(g), r, "{name} on U<{N}>");
        } else {
            c.label("operator-overflow");
            match may_panic(got) {
                None => ck!(DEBUG, "{name} on U<{N}> panicked on overflow without debug assertions"),
                Some(g) => {
                    ck!(!DEBUG, "{name} on U<{N}> returned {g:?} on overflow with debug assertions on");
                    ck_eq!(uz(g), r.mod2(bits), "wrapping {name} on U<{N}>");
                }
            }
        }
        Ok(())
    };
    let checked = |name: &str, r: Option<Z>, got: Option<U<N>>| -> R {
        ck_eq!(got.map(uz), r, "checked {name} on U<{N}>");
        Ok(())
    };
    let clamp = |r: &Z| {
        if r.neg_is() {
            Z::zero()
        } else if *r > max {
            max.clone()
        } else {
            r.clone()
        }
    };
    let some = |r: Z| if fits(&r) { Some(r) } else { None };
    let (s, d, m) = (a.add(&b), a.sub(&b), a.mul(&b));
    c.label_if(!fits(&s), "sum-overflows");
    c.label_if(!fits(&d), "difference-negative");
    c.label_if(!fits(&m), "product-overflows");
    match op {
        0 => operator(c, "+", s, &|| x + y)?,
        1 => operator(c, "-", d, &|| x - y)?,
        2 => operator(c, "*", m, &|| x * y)?,
        3 | 4 => {
            if b.is_zero() {
                c.label("division-by-zero");
                ck!(may_panic(|| x / y).is_none(), "U<{N}> / 0 returned a value");
                ck!(may_panic(|| x % y).is_none(), "U<{N}> % 0 returned a value");
            } else {
                let (q, r) = a.divrem(&b);
                ck_eq!(uz(must("/", || x / y)?), q, "/ on U<{N}>");
                ck_eq!(uz(must("%", || x % y)?), r, "% on U<{N}>");
            }
        }
        5 => checked("add", some(s), must("checked_add", || CheckedAdd::checked_add(x, y))?)?,
        6 => checked("sub", some(d), must("checked_sub", || CheckedSub::checked_sub(x, y))?)?,
        7 => checked("mul", some(m), must("checked_mul", || CheckedMul::checked_mul(x, y))?)?,
        8 => checked(
            "div",
            if b.is_zero() { None } else { Some(a.divrem(&b).0) },
            must("checked_div", || CheckedDiv::checked_div(x, y))?,
        )?,
        9 => ck_eq!(uz(must("wrapping_add", || WrappingAdd::wrapping_add(x, y))?), s.mod2(bits), "wrapping_add on U<{N}>"),
        10 => ck_eq!(uz(must("wrapping_sub", || WrappingSub::wrapping_sub(x, y))?), d.mod2(bits), "wrapping_sub on U<{N}>"),
        11 => ck_eq!(uz(must("saturating_add", || SaturatingAdd::saturating_add(x, y))?), clamp(&s), "saturating_add on U<{N}>"),
        12 => ck_eq!(uz(must("saturating_sub", || SaturatingSub::saturating_sub(x, y))?), clamp(&d), "saturating_sub on U<{N}>"),
        13 => ck_eq!(uz(must("saturating_mul", || SaturatingMul::saturating_mul(x, y))?), clamp(&m), "saturating_mul on U<{N}>"),
        14 => {
            // power: the base from a narrow or full range, the exponent small
            let base = match c.draw(3) {
                0 => a.clone(),
                1 => a.mod2(8),
                2 => a.mod2(2),
                _ => {
                    let k = c.below(bits.min(40));
                    a.mod2(k + 1)
                }
            };
            let e = match c.draw(3) {
                0 => c.draw(3),
                1 => c.draw(12),
                2 => (bits / base.bits().max(1)) as u64,
                _ => c.draw((2 * bits as u64).min(255)),
            }
            .min(if N == 1 { 255 } else { 300 });
            // also exponents of any size, where only 0 and 1 have a power that fits
            let ze = if c.chance(60) { b.clone() } else { Z::from_u128(u128::from(e)) };
            let base = if c.chance(16) { Z::from_u128(c.below(2) as u128) } else { base };
            c.note("base", &base);
            c.note("exponent", &ze);
            let r = if ze.bits() <= 9 {
                base.pow(ze.low_u128() as u32)
            } else if base.bits() <= 1 {
                base.clone()
            } else {
                // by squaring, modulo a power of two well past the width: the result is too large
                c.label("huge-exponent");
                let mut r = Z::one();
                for k in (0..ze.bits()).rev() {
                    r = r.mul(&r).mod2(bits);
                    if ze.bit(k) {
                        r = r.mul(&base).mod2(bits);
                    }
                }
                r.add(&Z::pow2(bits))
            };
            let (xb, xe) = (u::<N>(&base), u::<N>(&ze));
            c.label("power");
            operator(c, "pow", r, &|| Pow::pow(xb, xe))?;
        }
        _ => {
            // product of a list
            let n = c.range(0, 5);
            let mut vs = vec![];
            for _ in 0..n {
                let k = c.range(1, bits.max(8) / 2);
                vs.push(gen::ubits(c, bits).mod2(k));
            }
            c.note("factors", &vs);
            let mut ok = true;
            let r = vs.iter().fold(Z::one(), |p, v| {
                let q = p.mul(v);
                ok &= fits(&q);
                q
            });
            // like the operator, a product may only be relied on while no step overflows
            if ok {
                c.label("list-product");
                let g: U<N> = must("product", || vs.iter().map(|v| u::<N>(v)).product())?;
                ck_eq!(uz(g), r, "product of U<{N}>");
            }
        }
    }
    Ok(())
}

fn u_basics<const N: usize>(c: &mut Case) -> R {
    let bits = 8 * N;
    let (a, b) = upair::<N>(c);
    c.note("N", &N);
    c.note("a", &a);
    c.note("b", &b);
    c.nontrivial(a.bits() > 1 && a != b);
    let (x, y) = (u::<N>(&a), u::<N>(&b));
    // order and equality
    let want = a.cmp(&b);
    c.label_if(want == Ordering::Less, "less");
    c.label_if(want == Ordering::Equal, "equal");
    c.label_if(a.bits() == b.bits() && want != Ordering::Equal, "same-length");
    ck_eq!(x.cmp(&y), want, "cmp on U<{N}>");
    ck_eq!(x.partial_cmp(&y), Some(want), "partial_cmp on U<{N}>");
    ck_eq!(x == y, want == Ordering::Equal, "== on U<{N}>");
    ck_eq!(x != y, want != Ordering::Equal, "!= on U<{N}>");
    ck_eq!(x < y, want == Ordering::Less, "< on U<{N}>");
    ck_eq!(x >= y, want != Ordering::Less, ">= on U<{N}>");
    ck_eq!(uz(x.max(y)), a.clone().max(b.clone()), "max on U<{N}>");
    ck_eq!(uz(x.min(y)), a.clone().min(b.clone()), "min on U<{N}>");
    // bytes
    let le: [u8; N] = a.to_bytes_le(N).try_into().unwrap();
    let mut be = le;
    be.reverse();
    ck_eq!(x.to_le_bytes(), le, "to_le_bytes");
    ck_eq!(x.to_be_bytes(), be, "to_be_bytes of U<{N}>");
    ck_eq!(x.to_ne_bytes(), if cfg!(target_endian = "little") { le } else { be }, "to_ne_bytes of U<{N}>");
    ck!(U::from_be_bytes(be) == x, "from_be_bytes of U<{N}>");
    ck!(U::from_ne_bytes(x.to_ne_bytes()) == x, "ne bytes round trip of U<{N}>");
    // identities and bounds
    ck_eq!(x.is_zero(), a.is_zero(), "is_zero of U<{N}>");
    ck_eq!(x.is_one(), a == Z::one(), "is_one of U<{N}>");
    ck_eq!(uz(U::<N>::zero()), Z::zero(), "zero");
    ck_eq!(uz(U::<N>::one()), Z::one(), "one");
    ck_eq!(uz(U::<N>::new()), Z::zero(), "new");
    ck_eq!(uz(U::<N>::default()), Z::zero(), "default");
    ck!(x <= U::max_value() && x >= U::min_value(), "bounds of U<{N}>");
    ck_eq!(uz(U::<N>::max_value()), Z::pow2(bits).sub(&Z::one()), "max_value of U<{N}>");
    Ok(())
}

fn u_text<const N: usize>(c: &mut Case) -> R {
    let a = if c.chance(80) {
        let n = c.range(1, 8 * N * 3 / 10 + 1);
        Z::parse(&gen::digits(c, 10, n), 10).unwrap().mod2(8 * N)
    } else {
        gen::ubits(c, 8 * N)
    };
    c.note("N", &N);
    c.note("a", &a);
    c.nontrivial(a.bits() > 4);
    c.label_if(a.bits() > 64, "wider-than-u64");
    let x = u::<N>(&a);
    let want = a.to_radix(10, false);
    ck_eq!(must("Display", || format!("{x}"))?, want, "Display of U<{N}>");
    ck_eq!(must("Debug", || format!("{x:?}"))?, want, "Debug of U<{N}>");
    Ok(())
}

macro_rules! prim_cast {
    ($c:expr, $t:ty, $n:ident) => {{
        let pb = <$t>::BITS as usize;
        // into the primitive
        let a = if $c.coin() { gen::ubits($c, 8 * $n) } else { let k = $c.range(0, (8 * $n).min(pb + 2)); gen::ubits($c, 8 * $n).mod2(k) };
        let x = u::<$n>(&a);
        $c.note("a", &a);
        let tn = stringify!($t);
        let fits = a.bits() <= pb;
        $c.label_if(!fits, "too-wide-for-primitive");
        $c.nontrivial(a.bits() > 1);
        let low = a.mod2(pb).low_u128() as $t;
        let want = if fits { Some(low) } else { None };
        ck_eq!(must("from_checked", || <$t>::from_checked(x))?, want, "{tn}::from_checked(U<{}>)", $n);
        ck_eq!(must("into_checked", || -> Option<$t> { x.into_checked() })?, want, "into_checked U<{}> -> {tn}", $n);
        ck_eq!(must("saturate_from", || <$t>::saturate_from(x))?, want.unwrap_or(<$t>::MAX), "{tn}::saturate_from(U<{}>)", $n);
        ck_eq!(must("saturate", || -> $t { x.saturate() })?, want.unwrap_or(<$t>::MAX), "into_saturating U<{}> -> {tn}", $n);
        ck_eq!(must("truncate_from", || <$t>::truncate_from(x))?, low, "{tn}::truncate_from(U<{}>)", $n);
        ck_eq!(must("truncate", || -> $t { x.truncate() })?, low, "into_truncating U<{}> -> {tn}", $n);
        // from the primitive
        let p = gen::p128($c) as $t;
        let p = if $c.coin() { p } else { let k = $c.below(pb); p >> k };
        $c.note("primitive", &p);
        let pz = Z::from_u128(p as u128);
        let ok = pz.bits() <= 8 * $n;
        $c.label_if(!ok, "too-wide-for-U");
        let got = must("U::from_checked", || U::<$n>::from_checked(p))?;
        ck_eq!(got.map(uz), if ok { Some(pz) } else { None }, "U<{}>::from_checked({tn})", $n);
        Ok(())
    }};
}

fn u_cast<const N: usize>(c: &mut Case) -> R {
    c.note("N", &N);
    match c.draw(5) {
        0 => prim_cast!(c, u8, N),
        1 => prim_cast!(c, u16, N),
        2 => prim_cast!(c, u32, N),
        3 => prim_cast!(c, u64, N),
        4 => prim_cast!(c, u128, N),
        _ => prim_cast!(c, usize, N),
    }
}

fn u_same_width(c: &mut Case) -> R {
    let p = gen::p128(c);
    c.note("pattern", &p);
    c.nontrivial(p > 1);
    macro_rules! one {
        ($n:literal, $t:ty, $from:ident, $to:ident) => {{
            let v = p as $t;
            let x = U::<$n>::$from(v);
            ck_eq!(x.$to(), v, "{} round trip", stringify!($to));
            ck_eq!(uz(x), Z::from_u128(v as u128), "{}", stringify!($from));
        }};
    }
    one!(1, u8, from_u8, as_u8);
    one!(2, u16, from_u16, as_u16);
    one!(4, u32, from_u32, as_u32);
    one!(8, u64, from_u64, as_u64);
    one!(16, u128, from_u128, as_u128);
    #[cfg(target_pointer_width = "64")]
    one!(8, usize, from_usize, as_usize);
    Ok(())
}

fn u_bits<const N: usize>(c: &mut Case) -> R {
    let bits = 8 * N;
    let (a, b) = upair::<N>(c);
    let (x, y) = (u::<N>(&a), u::<N>(&b));
    c.note("N", &N);
    c.note("a", &a);
    c.note("b", &b);
    c.nontrivial(a.bits() > 1 && b.bits() > 1);
    ck_eq!(uz(x & y), a.and(&b), "& on U<{N}>");
    ck_eq!(uz(x | y), a.or(&b), "| on U<{N}>");
    ck_eq!(uz(x ^ y), a.xor(&b), "^ on U<{N}>");
    ck_eq!(uz(!x), a.not().mod2(bits), "! on U<{N}>");
    let n = match c.weighted(&[4, 3, 2]) {
        0 => c.below(bits),
        1 => 8 * c.below(N),
        _ => bits - 1 - c.below(bits.min(10)),
    };
    c.note("shift", &n);
    c.label_if(n % 8 == 0 && n > 0, "whole-byte-shift");
    c.label_if(n % 8 != 0, "partial-byte-shift");
    ck_eq!(uz(must("<<", || x << n)?), a.shl(n).mod2(bits), "<< {n} on U<{N}>");
    ck_eq!(uz(must(">>", || x >> n)?), a.shr(n), ">> {n} on U<{N}>");
    let un = u::<N>(&Z::from_u128(n as u128));
    if n < 256 || N > 1 {
        ck_eq!(uz(must("<<", || x << un)?), a.shl(n).mod2(bits), "<< U({n}) on U<{N}>");
        ck_eq!(uz(must(">>", || x >> un)?), a.shr(n), ">> U({n}) on U<{N}>");
    }
    if c.chance(40) {
        // past the width: rejected with debug assertions, otherwise reduced modulo the width
        let over = match c.below(6) {
            0 => usize::MAX - c.below(2 * bits),
            1 => n.wrapping_add(c.range(1, 3) << c.range(8, 63)).max(bits + 1),
            _ => bits + 1 + c.below(3 * bits),
        };
        // as a number of the width: any one beyond it, or agreeing with a small one in its low bits
        let zover = match c.below(3) {
            0 => b.clone(),
            1 => Z::from_u128(n as u128).add(&Z::one().shl(c.below(bits))),
            _ => Z::from_u128(over as u128),
        };
        let mut todo = vec![(Z::from_u128(over as u128), false)];
        if zover > Z::from_u128(bits as u128) && zover.bits() <= bits {
            todo.push((zover, true));
        }
        c.label("shift-past-width");
        for (over, wide) in todo {
            c.note("over-shift", &(&over, wide));
            c.label_if(over.bits() > 64, "shift amount above 64 bits");
            let k = over.divrem(&Z::from_u128(bits as u128)).1.to_u128().unwrap() as usize;
            for left in [true, false] {
                let got = may_panic(|| match (left, wide) {
                    (true, false) => x << over.to_u128().unwrap() as usize,
                    (false, false) => x >> over.to_u128().unwrap() as usize,
                    (true, true) => x << u::<N>(&over),
                    (false, true) => x >> u::<N>(&over),
                });
                match got {
                    None => ck!(DEBUG, "shift of U<{N}> by {over:?} panicked without debug assertions"),
                    Some(g) => {
                        ck!(!DEBUG, "shift of U<{N}> by {over:?} returned {g:?} with debug assertions on");
                        let want = if left { a.shl(k).mod2(bits) } else { a.shr(k) };
                        ck_eq!(uz(g), want, "shift of U<{N}> by {over:?} (left {left})");
                    }
                }
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- I<N>

/// Two's complement value of `N` bytes, built by doubling.
fn i<const N: usize>(v: &Z) -> I<N> {
    let pat = v.mod2(8 * N);
    let one = I::<N>::one();
    let mut r = I::<N>::zero();
    for k in (0..8 * N).rev() {
        r = r + r;
        if pat.bit(k) {
            r = r | one;
        }
    }
    r
}
fn iz<const N: usize>(v: I<N>) -> Z {
    let mut mask = I::<N>::one();
    let mut bytes = vec![0u8; N];
    let zero = I::<N>::zero();
    for k in 0..8 * N {
        if v & mask != zero {
            bytes[k / 8] |= 1 << (k % 8);
        }
        mask = mask + mask;
    }
    Z::from_bytes_le(false, &bytes).wrap_signed(8 * N)
}
fn iv<const N: usize>(c: &mut Case) -> (Z, Z) {
    let (a, b) = upair::<N>(c);
    let (mut a, mut b) = (a.wrap_signed(8 * N), b.wrap_signed(8 * N));
    // more pairs of negatives than the bit patterns give by themselves, and the extremes
    match c.weighted(&[20, 8, 1, 1, 1]) {
        0 => {}
        1 => {
            a = a.abs().neg();
            b = b.abs().neg();
        }
        2 => a = Z::pow2(8 * N - 1).neg(),
        3 => b = Z::pow2(8 * N - 1).neg(),
        _ => {
            a = Z::pow2(8 * N - 1).neg();
            b = Z::from_i128(i128::from(c.draw(2)) - 1);
        }
    }
    (a, b)
}
fn isize_note<const N: usize>(c: &mut Case, a: &Z, b: &Z) {
    c.note("N", &N);
    c.note("a", a);
    c.note("b", b);
    c.nontrivial(a.bits() > 1 && b.bits() > 1);
    c.label_if(a.neg_is() && b.neg_is(), "both-negative");
    c.label_if(a.neg_is() != b.neg_is(), "signs-differ");
}

fn i_arith<const N: usize>(c: &mut Case) -> R {
    let bits = 8 * N;
    let (a, b) = iv::<N>(c);
    isize_note::<N>(c, &a, &b);
    let (x, y) = (i::<N>(&a), i::<N>(&b));
    ck_eq!(iz(x), a, "building I<{N}>");
    ck_eq!(iz(x + y), a.add(&b).wrap_signed(bits), "+ on I<{N}>");
    ck_eq!(iz(x - y), a.sub(&b).wrap_signed(bits), "- on I<{N}>");
    ck_eq!(iz(x * y), a.mul(&b).wrap_signed(bits), "* on I<{N}>");
    ck_eq!(iz(-x), a.neg().wrap_signed(bits), "neg on I<{N}>");
    if b.is_zero() {
        c.label("division-by-zero");
        ck!(may_panic(|| x / y).is_none(), "I<{N}> / 0 returned a value");
        ck!(may_panic(|| x % y).is_none(), "I<{N}> % 0 returned a value");
    } else {
        let (q, r) = a.divrem(&b);
        let overflow = q.wrap_signed(bits) != q;
        c.label_if(overflow, "min-over-minus-one");
        let gq = may_panic(|| x / y);
        let gr = may_panic(|| x % y);
        if overflow {
            // like the primitives this may panic, or wrap
            if let Some(g) = gq {
                ck_eq!(iz(g), q.wrap_signed(bits), "/ overflow on I<{N}>");
            }
            if let Some(g) = gr {
                ck_eq!(iz(g), r, "% overflow on I<{N}>");
            }
        } else {
            ck_eq!(gq.map(iz), Some(q), "/ on I<{N}>");
            ck_eq!(gr.map(iz), Some(r), "% on I<{N}>");
        }
    }
    Ok(())
}

fn i_order<const N: usize>(c: &mut Case) -> R {
    let bits = 8 * N;
    let (a, b) = iv::<N>(c);
    isize_note::<N>(c, &a, &b);
    let (x, y) = (i::<N>(&a), i::<N>(&b));
    let want = a.cmp(&b);
    ck_eq!(x.cmp(&y), want, "cmp on I<{N}>");
    ck_eq!(x.partial_cmp(&y), Some(want), "partial_cmp on I<{N}>");
    ck_eq!(x == y, want == Ordering::Equal, "== on I<{N}>");
    ck_eq!(x < y, want == Ordering::Less, "< on I<{N}>");
    ck_eq!(x >= y, want != Ordering::Less, ">= on I<{N}>");
    ck_eq!(x.is_negative(), a.neg_is(), "is_negative on I<{N}>");
    ck_eq!(x.is_positive(), !a.neg_is(), "is_positive on I<{N}>");
    ck_eq!(x.is_zero(), a.is_zero(), "is_zero on I<{N}>");
    ck_eq!(x.is_one(), a == Z::one(), "is_one on I<{N}>");
    // the most negative value has no positive counterpart
    let min = Z::pow2(bits - 1).neg();
    if a != min {
        ck_eq!(iz(must("abs", || x.abs())?), a.abs(), "abs on I<{N}>");
    } else if let Some(g) = may_panic(|| x.abs()) {
        c.label("abs-of-min");
        ck_eq!(iz(g), min, "abs of the minimum of I<{N}>");
    }
    ck_eq!(iz(I::<N>::min_value()), min, "min_value of I<{N}>");
    ck_eq!(iz(I::<N>::max_value()), Z::pow2(bits - 1).sub(&Z::one()), "max_value of I<{N}>");
    ck_eq!(iz(I::<N>::min_positive()), Z::one(), "min_positive of I<{N}>");
    ck_eq!(iz(I::<N>::max_negative()), Z::one().neg(), "max_negative of I<{N}>");
    ck!(x >= I::min_value() && x <= I::max_value(), "I<{N}> value outside its own bounds");
    Ok(())
}

fn i_bits<const N: usize>(c: &mut Case) -> R {
    let (a, b) = iv::<N>(c);
    isize_note::<N>(c, &a, &b);
    let (x, y) = (i::<N>(&a), i::<N>(&b));
    ck_eq!(iz(x & y), a.and(&b), "& on I<{N}>");
    ck_eq!(iz(x | y), a.or(&b), "| on I<{N}>");
    ck_eq!(iz(x ^ y), a.xor(&b), "^ on I<{N}>");
    ck_eq!(iz(!x), a.not(), "! on I<{N}>");
    Ok(())
}

// ---------------------------------------------------------------- rand

struct Stream(u64);
impl RngCore for Stream {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    fn fill_bytes(&mut self, dst: &mut [u8]) {
        for b in dst {
            *b = (self.next_u64() >> 24) as u8;
        }
    }
}

fn draw<const N: usize>(rng: &mut Stream, how: usize) -> Z {
    match how {
        0 => uz::<N>(StandardUniform.sample(rng)),
        1 => {
            let mut v = U::<N>::new();
            v.fill(rng);
            uz(v)
        }
        2 => iz::<N>(StandardUniform.sample(rng)).mod2(8 * N),
        _ => {
            let mut v = I::<N>::zero();
            v.fill(rng);
            iz(v).mod2(8 * N)
        }
    }
}

/// Every byte takes every one of its 256 values as often as any other
fn byte_values<const N: usize>(c: &mut Case) -> R {
    const SAMPLES: usize = 30_000;
    let seed = c.u64();
    let how = c.below(4);
    c.note("N", &N);
    c.note("seed", &seed);
    c.note("how", &how);
    c.nontrivial(true);
    c.label(["sample U", "fill U", "sample I", "fill I"][how]);
    let mut rng = Stream(seed);
    let mut seen = vec![[0usize; 256]; N];
    for _ in 0..SAMPLES {
        let z = draw::<N>(&mut rng, how);
        for (b, byte) in seen.iter_mut().enumerate() {
            let v = (0..8).fold(0, |v, k| v | usize::from(z.bit(8 * b + k)) << k);
            byte[v] += 1;
        }
    }
    // mean 117, sigma 10.8: the odds of one count leaving this range are below 1e-21
    for (b, byte) in seen.iter().enumerate() {
        for (v, &n) in byte.iter().enumerate() {
            ck!((10..=240).contains(&n), "byte {b} is {v:#x} in {n} of {SAMPLES} samples of {N} bytes");
        }
    }
    Ok(())
}

fn sampling<const N: usize>(c: &mut Case) -> R {
    const SAMPLES: usize = 400;
    let seed = c.u64();
    let how = c.below(4);
    c.note("N", &N);
    c.note("seed", &seed);
    c.note("how", &how);
    c.nontrivial(true);
    c.label(["sample U", "fill U", "sample I", "fill I"][how]);
    let mut rng = Stream(seed);
    // bits[k] holds bit k of every sample
    const WORDS: usize = SAMPLES.div_ceil(64);
    let mut bits = vec![[0u64; WORDS]; 8 * N];
    let mut iseen = Vec::new();
    for s in 0..SAMPLES {
        let z = draw::<N>(&mut rng, how);
        for (k, row) in bits.iter_mut().enumerate() {
            row[s / 64] |= u64::from(z.bit(k)) << (s % 64);
        }
        iseen.push(z);
    }
    // 400 fair coins: mean 200, sigma 10; nine sigma either side
    let fair = |n: u32| (110..=290).contains(&n);
    for k in 0..8 * N {
        let ones: u32 = bits[k].iter().map(|w| w.count_ones()).sum();
        ck!(fair(ones), "bit {k} set in {ones} of {SAMPLES} samples of {N} bytes");
        for j in 0..k {
            let differ: u32 = bits[k].iter().zip(&bits[j]).map(|(a, b)| (a ^ b).count_ones()).sum();
            ck!(fair(differ), "bit {k} differs from bit {j} in {differ} of {SAMPLES} samples of {N} bytes");
        }
        // from one sample to the next; 399 fair coins
        let changes = (1..SAMPLES).filter(|s| (bits[k][s / 64] >> (s % 64) ^ bits[k][(s - 1) / 64] >> ((s - 1) % 64)) & 1 == 1).count();
        ck!(fair(changes as u32), "bit {k} changes {changes} times over {SAMPLES} samples of {N} bytes");
    }
    if N >= 9 {
        iseen.sort();
        iseen.dedup();
        ck_eq!(iseen.len(), SAMPLES, "repeated values among {SAMPLES} samples of {N} bytes");
    }
    Ok(())
}

fn main() {
    harness_main(vec![
        Prop {
            id: "C10",
            subs: vec![sub("arithmetic", 3_500_000, |c| by_n!(c, u_arith)), sub("wide", 12_000, |c| by_n_wide!(c, u_arith))],
        },
        Prop {
            id: "C11",
            subs: vec![
                sub("order-bytes-bounds", 2_400_000, |c| by_n!(c, u_basics)),
                sub("wide", 20_000, |c| by_n_wide!(c, u_basics)),
                sub("wide-casts", 20_000, |c| by_n_wide!(c, u_cast)),
                sub("text", 60_000, |c| by_n_short!(c, u_text)),
                sub("wide-text", 1_500, |c| match c.below(7) {
                    0 => u_text::<19>(c),
                    1 => u_text::<20>(c),
                    2 => u_text::<24>(c),
                    3 => u_text::<28>(c),
                    4 => u_text::<40>(c),
                    5 => u_text::<64>(c),
                    _ => u_text::<65>(c),
                }),
                sub("casts", 6_300_000, |c| by_n!(c, u_cast)),
                sub("same-width", 1_200_000, u_same_width),
            ],
        },
        Prop {
            id: "C12",
            subs: vec![
                sub("unsigned", 3_100_000, |c| by_n!(c, u_bits)),
                sub("unsigned-wide", 20_000, |c| by_n_wide!(c, u_bits)),
                sub("signed-wide", 2_000, |c| by_n_wide!(c, i_bits)),
                sub("signed", 350_000, |c| by_n!(c, i_bits)),
            ],
        },
        Prop { id: "C13", subs: vec![sub("arithmetic", 270_000, |c| by_n!(c, i_arith)), sub("wide", 3_000, |c| by_n_wide!(c, i_arith))] },
        Prop {
            id: "C14",
            subs: vec![sub("order-sign-bounds", 450_000, |c| by_n!(c, i_order)), sub("wide", 3_000, |c| by_n_wide!(c, i_order))],
        },
        Prop { id: "C33", subs: vec![sub("sampling", 13_000, |c| by_n!(c, sampling)), sub("byte-values", 300, |c| by_n!(c, byte_values))] },
    ])
}
