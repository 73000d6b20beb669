//! BigInt against reference integers.
use numeric_ints::BigInt;
use numeric_traits::cast::{FromChecked, FromSaturating, FromStrRadix, FromTruncating};
use numeric_traits::class::Signed;
use numeric_traits::identity::{One, Zero};
use numeric_traits::ops::Pow;
use numeric_verif::big::{build, read, route};
use numeric_verif::refint::Z;
use numeric_verif::{ck, ck_eq, gen, harness_main, may_panic, must, sub, Case, Prop, R};
use std::cmp::Ordering;

const MAX: usize = 12;

fn pair(c: &mut Case) -> (Z, Z, BigInt, BigInt) {
    let (a, b) = if c.chance(16) {
        gen::edges(c)
    } else {
        let a = gen::int_or_long(c, MAX, 70, 5);
        let b = if a.bits() > 64 * MAX && c.chance(100) { gen::int_or_long(c, MAX, 70, 256) } else { gen::related(c, &a, MAX) };
        (a, b)
    };
    let (ra, rb) = (route(c), route(c));
    c.note("a", &a);
    c.note("b", &b);
    c.note("routes", &(ra, rb));
    c.nontrivial(a.bits() > 1 && b.bits() > 1 && (a.bits() > 62 || b.bits() > 62));
    c.label_if(a.neg_is() != b.neg_is(), "signs-differ");
    c.label_if(a.bits() > 64 || b.bits() > 64, "multi-limb");
    c.label_if(a.bits().max(b.bits()) <= 62, "inline-only");
    let (x, y) = (build(&a, ra), build(&b, rb));
    (a, b, x, y)
}

fn built(z: &Z, b: &BigInt) -> R {
    ck_eq!(read(b), *z, "building a BigInt");
    Ok(())
}

/// A primitive of a random type: applies a macro body with `$p` bound to the value and `$pz` to
/// its reference.
macro_rules! with_prim {
    ($c:expr, $p:ident, $pz:ident, $t:ident, $body:block) => {{
        let pat = gen::p128($c);
        macro_rules! arm {
            ($ty:ty, s) => {{
                type $t = $ty;
                let $p = pat as $t;
                let $pz = Z::from_i128($p as i128);
                $body
            }};
            ($ty:ty, u) => {{
                type $t = $ty;
                let $p = pat as $t;
                let $pz = Z::from_u128($p as u128);
                $body
            }};
        }
        match $c.draw(11) {
            0 => arm!(i32, s),
            1 => arm!(u8, u),
            2 => arm!(i8, s),
            3 => arm!(u16, u),
            4 => arm!(i16, s),
            5 => arm!(u32, u),
            6 => arm!(i64, s),
            7 => arm!(u64, u),
            8 => arm!(i128, s),
            9 => arm!(u128, u),
            10 => arm!(isize, s),
            _ => arm!(usize, u),
        }
    }};
}

macro_rules! forms {
    ($x:ident, $y:ident, $op:tt, $want:expr, $name:expr) => {{
        let want = $want;
        ck_eq!(read(&must($name, || &$x $op &$y)?), want, "{} (&,&)", $name);
        ck_eq!(read(&must($name, || $x.clone() $op &$y)?), want, "{} (v,&)", $name);
        ck_eq!(read(&must($name, || &$x $op $y.clone())?), want, "{} (&,v)", $name);
        ck_eq!(read(&must($name, || $x.clone() $op $y.clone())?), want, "{} (v,v)", $name);
    }};
}
macro_rules! assigns {
    ($x:ident, $y:ident, $op:tt, $want:expr, $name:expr) => {{
        let want = $want;
        let mut t = $x.clone();
        must($name, || t $op &$y)?;
        ck_eq!(read(&t), want, "{} (&)", $name);
        let mut t = $x.clone();
        must($name, || t $op $y.clone())?;
        ck_eq!(read(&t), want, "{} (v)", $name);
    }};
}

/// Numbers of hundreds of limbs, for what only happens to them
fn vast(c: &mut Case, max: usize) -> (Z, Z, BigInt, BigInt) {
    let a = gen::int_or_long(c, 40, max, 256);
    let b = match c.draw(5) {
        0 => gen::int(c, 3),
        1 | 2 => gen::int_or_long(c, 40, max, 256),
        _ => gen::related(c, &a, max),
    };
    let (a, b) = if c.chance(60) { (b, a) } else { (a, b) };
    let (ra, rb) = (c.pick(&[numeric_verif::big::Route::ShiftAdd, numeric_verif::big::Route::MulAdd, numeric_verif::big::Route::Minus]), numeric_verif::big::Route::ShiftAdd);
    c.note("a", &a);
    c.note("b", &b);
    c.nontrivial(a.bits() > 64 * 20 || b.bits() > 64 * 20);
    let (x, y) = (build(&a, ra), build(&b, rb));
    (a, b, x, y)
}

fn ring_vast(c: &mut Case) -> R {
    let (a, b, x, y) = vast(c, 300);
    match c.draw(2) {
        0 => {
            ck_eq!(read(&must("+", || &x + &y)?), a.add(&b), "+");
            let mut t = x.clone();
            must("+=", || t += &y)?;
            ck_eq!(read(&t), a.add(&b), "+=");
        }
        1 => {
            ck_eq!(read(&must("-", || &x - &y)?), a.sub(&b), "-");
            let mut t = x.clone();
            must("-=", || t -= &y)?;
            ck_eq!(read(&t), a.sub(&b), "-=");
        }
        _ => {
            ck_eq!(read(&must("*", || &x * &y)?), a.mul(&b), "*");
            ck_eq!(read(&must("*", || y.clone() * x.clone())?), a.mul(&b), "* the other way round");
        }
    }
    ck_eq!(read(&-&x), a.neg(), "-&x");
    ck_eq!(read(&x.clone().abs()), a.abs(), "abs");
    ck_eq!(read(&x), a, "left operand changed");
    ck_eq!(read(&y), b, "right operand changed");
    Ok(())
}

fn divide_vast(c: &mut Case) -> R {
    let (a, b, x, y) = vast(c, 90);
    if b.is_zero() {
        return Ok(());
    }
    let (q, r) = a.divrem(&b);
    ck_eq!(read(&must("/", || &x / &y)?), q, "/");
    ck_eq!(read(&must("%", || &x % &y)?), r, "%");
    Ok(())
}

fn order_vast(c: &mut Case) -> R {
    let (a, b, x, y) = vast(c, 300);
    let want = a.cmp(&b);
    ck_eq!(x.cmp(&y), want, "cmp");
    ck_eq!(y.cmp(&x), want.reverse(), "cmp the other way round");
    ck_eq!(x == y, want == Ordering::Equal, "==");
    ck_eq!(x < y, want == Ordering::Less, "<");
    ck_eq!(x.is_negative(), a.neg_is(), "is_negative");
    ck!(x == x.clone(), "a clone differs");
    Ok(())
}

fn bits_vast(c: &mut Case) -> R {
    let (a, b, x, y) = vast(c, 300);
    ck_eq!(read(&must("&", || &x & &y)?), a.and(&b), "&");
    ck_eq!(read(&must("|", || &x | &y)?), a.or(&b), "|");
    ck_eq!(read(&must("^", || &x ^ &y)?), a.xor(&b), "^");
    ck_eq!(read(&must("!", || !x.clone())?), a.not(), "!");
    let n = if c.coin() { c.below(a.bits() + 80) } else { c.below(a.bits() / 64 + 3) * 64 };
    c.note("by", &n);
    ck_eq!(read(&must(">>", || x.clone() >> n)?), a.shr(n), ">> {n}");
    ck_eq!(read(&must("<<", || x.clone() << n)?), a.shl(n), "<< {n}");
    Ok(())
}

fn ring(c: &mut Case) -> R {
    let (a, b, x, y) = pair(c);
    built(&a, &x)?;
    built(&b, &y)?;
    match c.draw(3) {
        0 => {
            forms!(x, y, +, a.add(&b), "+");
            assigns!(x, y, +=, a.add(&b), "+=");
        }
        1 => {
            forms!(x, y, -, a.sub(&b), "-");
            assigns!(x, y, -=, a.sub(&b), "-=");
        }
        2 => {
            forms!(x, y, *, a.mul(&b), "*");
            assigns!(x, y, *=, a.mul(&b), "*=");
        }
        _ => {
            ck_eq!(read(&-&x), a.neg(), "-&x");
            ck_eq!(read(&-x.clone()), a.neg(), "-x");
            ck_eq!(read(&x.clone().abs()), a.abs(), "abs");
            ck_eq!(read(&(-(-x.clone()))), a, "-(-x)");
            // algebra, on the library's own equality
            ck!(&x + &y == &y + &x, "x + y != y + x");
            ck!(&x * &y == &y * &x, "x * y != y * x");
            ck!((&x - &y) + &y == x, "(x - y) + y != x");
            ck!((&x - &x).is_zero(), "x - x is not zero");
            ck!((&x + &BigInt::zero()) == x && (&x * &BigInt::one()) == x, "identity elements");
            ck!((&x * &BigInt::zero()).is_zero(), "x * 0 is not zero");
        }
    }
    ck_eq!(read(&x), a, "left operand changed");
    ck_eq!(read(&y), b, "right operand changed");
    Ok(())
}

fn ring_prim(c: &mut Case) -> R {
    let a = gen::int_or_long(c, 4, 70, 6);
    let r = route(c);
    let op = c.draw(2);
    c.note("a", &a);
    c.note("op", &op);
    c.nontrivial(a.bits() > 1);
    let x = build(&a, r);
    with_prim!(c, p, pz, T, {
        c.note("primitive", &format!("{p}{}", stringify!(T)));
        c.note("type", &std::any::type_name::<T>());
        let (want, got, asg) = match op {
            0 => {
                let mut t = x.clone();
                t += p;
                (a.add(&pz), x.clone() + p, t)
            }
            1 => {
                let mut t = x.clone();
                t -= p;
                (a.sub(&pz), x.clone() - p, t)
            }
            _ => {
                let mut t = x.clone();
                t *= p;
                (a.mul(&pz), x.clone() * p, t)
            }
        };
        ck_eq!(read(&got), want, "BigInt op primitive");
        ck_eq!(read(&asg), want, "BigInt op= primitive");
    });
    Ok(())
}

fn pow(c: &mut Case) -> R {
    let a = gen::int(c, 2);
    let top = match a.bits() {
        0..=3 if c.chance(40) => 2000,
        0..=40 => 60,
        _ => 12,
    };
    let e = c.draw(top);
    c.note("base", &a);
    c.note("exponent", &e);
    c.nontrivial(a.bits() > 1 && e > 1);
    c.label_if(a.neg_is() && e % 2 == 1, "negative-odd");
    let r = route(c);
    let got = must("pow", || build(&a, r).pow(BigInt::from(e)))?;
    ck_eq!(read(&got), a.pow(e as u32), "pow");
    if a.bits() <= 1 || c.chance(4) {
        // 0, 1 and -1 have powers of any exponent
        let a = if a.bits() <= 1 { a.clone() } else { Z::from_i128(i128::from(c.draw(2)) - 1) };
        let e = gen::int_or_long(c, 3, 12, 10).abs();
        c.note("unit", &(&a, &e));
        c.label("any-exponent");
        let want = if e.is_zero() || a.neg_is() && !e.bit(0) { Z::one() } else { a.clone() };
        let got = must("pow", || build(&a, r).pow(build(&e, r)))?;
        ck_eq!(read(&got), want, "pow");
    }
    if c.chance(8) {
        let ne = 1 + c.draw(5) as i64;
        // not an integer in general: must not pass for a number
        let got = may_panic(|| build(&a, r).pow(BigInt::from(-ne)));
        let power = a.bits() == 1 && got.as_ref().is_some_and(|g| read(g).mul(&a.pow(ne as u32)) == Z::one());
        ck!(got.is_none() || power, "negative power returned {:?}", got.map(|g| read(&g)));
    }
    Ok(())
}

fn divide(c: &mut Case) -> R {
    let a = gen::int_or_long(c, 8, 24, 3);
    let b = match c.weighted(&[4, 2, 2, 1]) {
        0 => gen::int_or_long(c, 6, 14, 10),
        1 => gen::related(c, &a, 8),
        2 => {
            // exact multiple or one off
            let q = gen::int(c, 2);
            if q.is_zero() {
                q
            } else {
                a.divrem(&q).0
            }
        }
        _ => Z::from_i128(i128::from(c.draw(20)) - 10),
    };
    let (ra, rb) = (route(c), route(c));
    c.note("a", &a);
    c.note("b", &b);
    c.nontrivial(a.bits() > 1 && b.bits() > 1 && a.bits() > 62);
    let (x, y) = (build(&a, ra), build(&b, rb));
    if b.is_zero() {
        c.label("division-by-zero");
        ck!(may_panic(|| &x / &y).is_none(), "BigInt / 0 returned a value");
        ck!(may_panic(|| &x % &y).is_none(), "BigInt % 0 returned a value");
        return Ok(());
    }
    c.label_if(a.neg_is() != b.neg_is(), "signs-differ");
    c.label_if(a.neg_is() && b.neg_is(), "both-negative");
    let (q, r) = a.divrem(&b);
    c.label_if(r.is_zero(), "exact");
    c.label_if(b.bits() > 64, "multi-limb-divisor");
    forms!(x, y, /, q.clone(), "/");
    forms!(x, y, %, r.clone(), "%");
    assigns!(x, y, /=, q.clone(), "/=");
    assigns!(x, y, %=, r.clone(), "%=");
    ck!((&x / &y) * &y + (&x % &y) == x, "(x / y) * y + x % y != x");
    Ok(())
}

fn divide_prim(c: &mut Case) -> R {
    let a = gen::int_or_long(c, 4, 40, 3);
    let r = route(c);
    c.note("a", &a);
    let x = build(&a, r);
    with_prim!(c, p, pz, T, {
        c.note("primitive", &p);
        c.note("type", &std::any::type_name::<T>());
        c.nontrivial(a.bits() > 1 && pz.bits() > 1);
        if pz.is_zero() {
            ck!(may_panic(|| x.clone() / p).is_none(), "BigInt / 0 returned a value");
            ck!(may_panic(|| x.clone() % p).is_none(), "BigInt % 0 returned a value");
        } else {
            let (q, rm) = a.divrem(&pz);
            ck_eq!(read(&must("/", || x.clone() / p)?), q, "BigInt / primitive");
            ck_eq!(read(&must("%", || x.clone() % p)?), rm, "BigInt % primitive");
            let mut t = x.clone();
            t /= p;
            ck_eq!(read(&t), q, "BigInt /= primitive");
            let mut t = x.clone();
            t %= p;
            ck_eq!(read(&t), rm, "BigInt %= primitive");
        }
    });
    Ok(())
}

fn order(c: &mut Case) -> R {
    let (a, b, x, y) = pair(c);
    let want = a.cmp(&b);
    c.label_if(want == Ordering::Equal, "equal");
    c.label_if(want != Ordering::Equal && a.limbs().len() == b.limbs().len(), "same-length");
    ck_eq!(x.cmp(&y), want, "cmp");
    ck_eq!(x.partial_cmp(&y), Some(want), "partial_cmp");
    ck_eq!(y.cmp(&x), want.reverse(), "cmp, swapped");
    ck_eq!(x == y, want == Ordering::Equal, "==");
    ck_eq!(x != y, want != Ordering::Equal, "!=");
    ck_eq!(x < y, want == Ordering::Less, "<");
    ck_eq!(x <= y, want != Ordering::Greater, "<=");
    ck_eq!(x > y, want == Ordering::Greater, ">");
    ck_eq!(x >= y, want != Ordering::Less, ">=");
    let one = Z::one();
    for (z, v) in [(&a, &x), (&b, &y)] {
        ck_eq!(v.is_zero(), z.is_zero(), "is_zero");
        ck_eq!(v.is_one(), *z == one, "is_one");
        ck_eq!(v.is_negative(), z.neg_is(), "is_negative");
        ck_eq!(v.is_positive(), !z.neg_is(), "is_positive");
        ck!(v.is_inline() != v.is_interned(), "inline and interned at once");
        ck!(*v == *v, "a value differs from itself");
        ck!(v.clone() == *v, "a clone differs from its original");
    }
    // the same number reached another way is the same number
    let d = &x - &y;
    let again = &y + &d;
    ck!(again == x && again.cmp(&x) == Ordering::Equal, "y + (x - y) is not equal to x");
    ck!(BigInt::default().is_zero() && BigInt::new() == BigInt::default() && BigInt::new() == BigInt::zero(), "one zero");
    ck_eq!(d.is_zero(), want == Ordering::Equal, "x - y is zero exactly when x == y");
    let neg = -&x;
    ck!(-&neg == x, "-(-x) != x");
    ck_eq!(neg.is_zero(), a.is_zero(), "is_zero of -x");
    ck_eq!(neg == x, a.is_zero(), "-x == x");
    Ok(())
}

fn order_prim(c: &mut Case) -> R {
    let pick = c.draw(3);
    let free = gen::int_or_long(c, 3, 70, 4);
    let delta = i128::from(c.draw(2)) - 1;
    let r = route(c);
    with_prim!(c, p, pz, T, {
        let bits = T::BITS as usize;
        let a = match pick {
            0 => free,
            1 => pz.add(&Z::from_i128(delta)),
            2 => pz.neg().add(&Z::from_i128(delta)),
            // agrees in the low bits only
            _ => pz.add(&Z::pow2(bits)),
        };
        c.note("a", &a);
        c.note("primitive", &p);
        c.note("type", &std::any::type_name::<T>());
        let x = build(&a, r);
        let want = a.cmp(&pz);
        c.nontrivial(a.bits() > 1 && pz.bits() > 1);
        c.label_if(want == Ordering::Equal, "equal");
        c.label_if(a.abs() == pz.abs() && want != Ordering::Equal, "opposite");
        ck_eq!(x == p, want == Ordering::Equal, "BigInt == primitive");
        ck_eq!(x != p, want != Ordering::Equal, "BigInt != primitive");
        ck_eq!(x.partial_cmp(&p), Some(want), "BigInt cmp primitive");
        ck_eq!(x < p, want == Ordering::Less, "BigInt < primitive");
        ck_eq!(x >= p, want != Ordering::Less, "BigInt >= primitive");
        ck_eq!(BigInt::from(p) == x, want == Ordering::Equal, "BigInt::from(primitive) == BigInt");
    });
    Ok(())
}

fn order_sort(c: &mut Case) -> R {
    let n = if c.chance(4) { c.range(12, 120) } else { c.range(2, 12) };
    let mut zs: Vec<Z> = Vec::new();
    for k in 0..n {
        let z = if k > 0 && c.coin() {
            let i = c.below(k);
            gen::related(c, &zs[i], 4)
        } else {
            gen::int(c, 4)
        };
        zs.push(z);
    }
    c.note("values", &zs);
    c.nontrivial(zs.iter().any(|z| z.bits() > 62));
    let mut bs: Vec<BigInt> = zs
        .iter()
        .map(|z| {
            let r = route(c);
            build(z, r)
        })
        .collect();
    bs.sort();
    zs.sort();
    let got: Vec<Z> = bs.iter().map(read).collect();
    ck_eq!(got, zs, "sorted order");
    ck_eq!(bs.iter().max().map(read), zs.last().cloned(), "max");
    Ok(())
}

fn convert(c: &mut Case) -> R {
    let pick = c.draw(4);
    let free = gen::int_or_long(c, 4, 70, 6);
    let delta = i128::from(c.draw(4)) - 2;
    let rt = route(c);
    with_prim!(c, p, pz, T, {
        let bits = T::BITS as usize;
        let (min, max) = if T::MIN == 0 {
            (Z::zero(), Z::pow2(bits).sub(&Z::one()))
        } else {
            (Z::pow2(bits - 1).neg(), Z::pow2(bits - 1).sub(&Z::one()))
        };
        let d = Z::from_i128(delta);
        let a = match pick {
            0 => free,
            1 => pz.clone(),
            2 => min.add(&d),
            3 => max.add(&d),
            _ => pz.add(&Z::pow2(bits)).add(&d),
        };
        c.note("a", &a);
        c.note("primitive", &p);
        let tn = std::any::type_name::<T>();
        c.note("type", &tn);
        c.nontrivial(a.bits() > 1);
        // into BigInt and back
        let fp = BigInt::from(p);
        ck_eq!(read(&fp), pz, "BigInt::from({tn})");
        ck_eq!(T::try_from(&fp).ok(), Some(p), "{tn} round trip");
        // out of BigInt
        let x = build(&a, rt);
        let fits = a >= min && a <= max;
        c.label_if(fits, "fits");
        c.label_if(!fits && a.neg_is(), "below");
        c.label_if(!fits && !a.neg_is(), "above");
        let low = a.mod2(bits).low_u128() as T;
        let want = fits.then_some(low);
        ck_eq!(must("try_from", || T::try_from(&x).ok())?, want, "{tn}::try_from(&BigInt)");
        ck_eq!(must("try_from", || T::try_from(x.clone()).ok())?, want, "{tn}::try_from(BigInt)");
        ck_eq!(must("from_checked", || T::from_checked(x.clone()))?, want, "{tn}::from_checked(BigInt)");
        let sat = if fits {
            low
        } else if a.neg_is() {
            T::MIN
        } else {
            T::MAX
        };
        ck_eq!(must("saturate_from", || T::saturate_from(x.clone()))?, sat, "{tn}::saturate_from(BigInt)");
        ck_eq!(must("truncate_from", || T::truncate_from(x.clone()))?, low, "{tn}::truncate_from(BigInt)");
    });
    Ok(())
}

fn float(c: &mut Case) -> R {
    let a = match c.draw(3) {
        0 => gen::int(c, 3),
        1 => gen::int_or_long(c, 18, 70, 8),
        2 => {
            let k = c.range(1015, 1030);
            let m = gen::int(c, 2);
            m.shl(k.saturating_sub(m.bits()))
        }
        _ => {
            let k = c.below(1100);
            let s = c.coin();
            let p = Z::pow2(k);
            if s {
                p.neg()
            } else {
                p
            }
        }
    };
    c.note("a", &a);
    c.nontrivial(a.bits() > 53);
    c.label_if(a.neg_is(), "negative");
    c.label_if(a.bits() > 1024, "beyond-f64");
    let r = route(c);
    let got = must("approx_float", || build(&a, r).approx_float())?;
    let want = a.to_f64();
    ck!(!got.is_nan(), "approx_float is NaN, expected about {want}");
    if a.is_zero() {
        ck!(got == 0.0, "approx_float(0) = {got}");
        return Ok(());
    }
    ck!(got.is_sign_negative() == a.neg_is(), "sign of approx_float: {got}, expected about {want}");
    // within a few units of the 48th bit, or infinite beyond the range
    if want.is_infinite() || want.abs() > f64::MAX * (1.0 - 1e-12) {
        ck!(got.is_infinite() || got.abs() > f64::MAX * (1.0 - 1e-12), "approx_float = {got}, expected about {want}");
    } else {
        ck!(((got - want) / want).abs() <= 4e-15, "approx_float = {got:e}, expected about {want:e}");
    }
    Ok(())
}

fn text(c: &mut Case) -> R {
    let a = if c.chance(80) {
        let n = c.range(1, 80);
        let (d, neg) = (gen::digits(c, 10, n), c.coin());
        let z = Z::parse(&d, 10).unwrap();
        if neg { z.neg() } else { z }
    } else {
        gen::int_or_long(c, 4, 14, 3)
    };
    c.note("a", &a);
    c.nontrivial(a.bits() > 8);
    c.label_if(a.neg_is(), "negative");
    c.label_if(a.bits() > 64, "multi-limb");
    let r = route(c);
    let x = build(&a, r);
    let dec = a.to_radix(10, false);
    ck_eq!(must("Display", || format!("{x}"))?, dec, "Display");
    ck_eq!(must("Debug", || format!("{x:?}"))?, dec, "Debug");
    let sign = if a.neg_is() { "-" } else { "" };
    let mag = a.abs();
    ck_eq!(must("LowerHex", || format!("{x:x}"))?, format!("{sign}0x{}", mag.to_radix(16, false)), "LowerHex");
    ck_eq!(must("UpperHex", || format!("{x:X}"))?, format!("{sign}0x{}", mag.to_radix(16, true)), "UpperHex");
    // the binary form writes whole words: leading zeros are its business, the value is not
    let b = must("Binary", || format!("{x:b}"))?;
    let body = b.strip_prefix(sign).and_then(|t| t.strip_prefix("0b"));
    ck!(body.is_some(), "Binary: no sign and 0b prefix in {b}");
    ck_eq!(Z::parse(body.unwrap(), 2), Some(mag), "Binary {b}");
    ck!(!sign.is_empty() || !b.starts_with('-'), "Binary of a non-negative number starts with a minus");
    // and back
    let y = BigInt::from_str_radix(&dec, 10);
    ck!(y.as_ref().is_ok_and(|y| *y == x), "parsing {dec} back gives {y:?}");
    Ok(())
}

/// Up to about 1300 decimal digits, out and back in.
fn text_long(c: &mut Case) -> R {
    let n = if c.chance(10) { c.range(40, 70) } else { c.range(8, 40) };
    let neg = c.coin();
    let a = if c.chance(80) {
        let d = gen::digits(c, 10, n * 19);
        let z = Z::parse(&d, 10).unwrap();
        if neg { z.neg() } else { z }
    } else {
        Z::from_limbs(neg, &(0..n).map(|_| gen::limb(c)).collect::<Vec<_>>())
    };
    c.note("a", &a);
    c.nontrivial(a.bits() > 256);
    c.label_if(a.neg_is(), "negative");
    c.label_if(a.bits() > 2048, "over-2048-bits");
    let r = route(c);
    let x = build(&a, r);
    let (sign, mag) = (if a.neg_is() { "-" } else { "" }, a.abs());
    let radix = match c.below(3) {
        0 => 10,
        1 => 16,
        _ => c.range(2, 36) as u32,
    };
    c.note("radix", &radix);
    let want = a.to_radix(radix, false);
    match radix {
        10 => ck_eq!(must("Display", || format!("{x}"))?, want, "Display"),
        16 => ck_eq!(must("LowerHex", || format!("{x:x}"))?, format!("{sign}0x{}", mag.to_radix(16, false)), "LowerHex"),
        _ => {}
    }
    let y = must("from_str_radix", || BigInt::from_str_radix(&want, radix))?;
    ck!(y.as_ref().is_ok_and(|y| *y == x), "parsing {want} in radix {radix} gives {y:?}");
    ck_eq!(y.ok().map(|y| read(&y)), Some(a), "parsing in radix {radix}");
    // and not as a number when one digit is none
    let at = c.range(1, want.len());
    let mut bad = want.clone();
    bad.insert(at, c.pick(&['_', '.', ' ', '-']));
    ck!(must("from_str_radix", || BigInt::from_str_radix(&bad, radix))?.is_err(), "{bad} accepted in radix {radix}");
    Ok(())
}

fn parse(c: &mut Case) -> R {
    let radix = match c.weighted(&[3, 3, 2, 2, 1, 8]) {
        0 => 10,
        1 => 16,
        2 => 2,
        3 => 36,
        4 => 8,
        _ => c.range(2, 36) as u32,
    };
    let n = if c.chance(4) { c.range(40, 400) } else { c.range(1, 40) };
    let mut s = String::new();
    let neg = c.chance(90);
    if neg {
        s.push('-');
    }
    const D: &[u8] = b"0123456789abcdefghijklmnopqrstuvwxyz";
    if c.chance(64) {
        s += &gen::digits(c, radix, n);
    } else {
        for _ in 0..n {
            let d = D[c.below(radix as usize)] as char;
            s.push(if c.coin() { d.to_ascii_uppercase() } else { d });
        }
    }
    // sometimes one character that is no digit of this radix
    let mut valid = true;
    if c.chance(64) {
        let bad: char = match c.draw(4) {
            0 if radix < 36 => D[c.range(radix as usize, 35)] as char,
            1 => c.pick(&[
                '_', ' ', '.', ',', '#', 'x', '\u{0}', '/', ':', '@', '[', '`', '{', '+', '+', '\n', '\t', '\r',
            ]),
            2 => c.pick(&['\u{661}', '\u{ff11}', 'é', 'ı', '\u{212a}', '\u{130}']),
            3 => '-',
            _ => ' ',
        };
        // in front too, where a plus, a space or a second minus would go
        let first = (bad == '-' && !neg) as usize;
        let at = if c.chance(64) { first } else { c.range(first, s.len()) };
        if !bad.is_digit(radix) {
            s.insert(at, bad);
            valid = false;
        }
    }
    c.note("text", &s);
    c.note("radix", &radix);
    c.nontrivial(n > 1);
    c.label(if valid { "valid" } else { "invalid" });
    let got = must("from_str_radix", || BigInt::from_str_radix(&s, radix))?;
    if valid {
        let want = Z::parse(&s, radix);
        ck!(want.is_some(), "reference parser rejects {s}");
        ck_eq!(got.ok().map(|g| read(&g)), want, "from_str_radix({s:?}, {radix})");
    } else {
        ck!(got.is_err(), "from_str_radix({s:?}, {radix}) accepted: {:?}", got.ok().map(|g| read(&g)));
    }
    if c.chance(16) {
        let big = if c.chance(64) { c.pick(&[37, 62, 64, 255, 256, 1 << 16, u32::MAX]) } else { c.range(37, 100) as u32 };
        ck!(BigInt::from_str_radix("1", big).is_err(), "radix {big} accepted");
        ck!(BigInt::from_str_radix("-", radix).is_err(), "a lone minus accepted");
    }
    Ok(())
}

fn bitops(c: &mut Case) -> R {
    let (a, b, x, y) = pair(c);
    c.label_if(a.neg_is() && b.neg_is(), "both-negative");
    forms!(x, y, &, a.and(&b), "&");
    forms!(x, y, |, a.or(&b), "|");
    forms!(x, y, ^, a.xor(&b), "^");
    ck_eq!(read(&!x.clone()), a.not(), "!");
    ck!(!!x.clone() == x, "!!x != x");
    Ok(())
}

fn shifts(c: &mut Case) -> R {
    let a = gen::int_or_long(c, 6, 40, 5);
    let n = match c.weighted(&[4, 3, 3, 1]) {
        0 => c.below(130),
        1 => 64 * c.below(6),
        2 => (a.bits() + 4).saturating_sub(c.below(9)),
        _ => c.below(2000),
    };
    let r = route(c);
    c.note("a", &a);
    c.note("n", &n);
    c.nontrivial(a.bits() > 1 && n > 0);
    c.label_if(a.neg_is(), "negative");
    c.label_if(n >= a.bits(), "shift-past-end");
    c.label_if(n % 64 == 0 && n > 0, "whole-limb");
    let x = build(&a, r);
    let s = BigInt::from(n);
    let (l, g) = (a.shl(n), a.shr(n));
    forms!(x, s, <<, l.clone(), "<<");
    forms!(x, s, >>, g.clone(), ">>");
    macro_rules! prim {
        ($($t:ty),*) => {{$(
            if let Ok(k) = <$t>::try_from(n) {
                ck_eq!(read(&must("<<", || x.clone() << k)?), l, "<< {}{}", k, stringify!($t));
                ck_eq!(read(&must(">>", || x.clone() >> k)?), g, ">> {}{}", k, stringify!($t));
            }
        )*}};
    }
    match c.draw(3) {
        0 => prim!(usize, i32, u8),
        1 => prim!(u64, i64, i16),
        2 => prim!(u32, u16, isize),
        _ => prim!(i8, u128, i128),
    }
    if c.chance(60) {
        // amounts of any size: everything goes, or there was nothing to begin with
        let far = match c.below(5) {
            0 => Z::from_u128(usize::MAX as u128 - c.below(130) as u128),
            1 => Z::from_u128(u128::MAX >> c.below(70)),
            2 => Z::from_u128(n as u128).add(&Z::pow2(c.range(16, 140))),
            3 => Z::pow2(c.range(16, 260)),
            _ => gen::nat(c, 4).add(&Z::from_u128(a.bits() as u128 + n as u128)),
        };
        c.note("far", &far);
        c.label("shift-far");
        c.label_if(far.bits() > 64, "shift amount above 64 bits");
        let gone = if a.neg_is() { Z::one().neg() } else { Z::zero() };
        let s = build(&far, r);
        forms!(x, s, >>, gone.clone(), ">> far");
        let zero = BigInt::from(0);
        forms!(zero, s, <<, Z::zero(), "0 << far");
        macro_rules! far {
            ($($t:ty),*) => {{$(
                if let Some(k) = far.to_u128().and_then(|k| <$t>::try_from(k).ok()) {
                    ck_eq!(read(&must(">>", || x.clone() >> k)?), gone, ">> {}{}", k, stringify!($t));
                    ck_eq!(read(&must("<<", || BigInt::from(0) << k)?), Z::zero(), "0 << {}{}", k, stringify!($t));
                }
            )*}};
        }
        far!(usize, u128, i128, u64, i64, u32, i32, isize);
    }
    if c.chance(10) {
        let k = -1 - (c.draw(100) as i64);
        let big = build(&gen::nat(c, 3).add(&Z::one()).neg(), r);
        ck!(may_panic(|| x.clone() << big.clone()).is_none(), "shift left by a negative amount returned a value");
        ck!(may_panic(|| x.clone() >> big.clone()).is_none(), "shift right by a negative amount returned a value");
        ck!(may_panic(|| x.clone() << k).is_none(), "shift left by {k} returned a value");
        ck!(may_panic(|| x.clone() >> k).is_none(), "shift right by {k} returned a value");
    }
    Ok(())
}

/// A pool of values that are created, cloned, combined, replaced and dropped while the others
/// must keep their value.
fn history(c: &mut Case) -> R {
    // a growing pool fills more than one chunk of the shared store
    let grow = c.chance(40);
    let vast = grow && c.chance(24);
    let steps = if vast { c.range(200, 420) } else if grow { c.range(60, 140) } else { c.range(4, 60) };
    let cap = if vast { 300 } else if grow { 100 } else { c.pick(&[4usize, 10, 40]) };
    let mut pool: Vec<(BigInt, Z)> = Vec::new();
    let mut made = 0usize;
    let mut dropped = 0usize;
    for step in 0..steps {
        let what = if pool.is_empty() { 0 } else { c.weighted(if grow { &[48, 6, 8, 16, 6, 4, 4, 1, 0] } else { &[16, 10, 10, 10, 6, 4, 4, 1, 2] }) };
        match what {
            0 => {
                // often one of few values, so that equal numbers meet in the pool
                let z = if grow {
                    Z::pow2(70).add(&Z::from_u128(u128::from(c.draw(if vast { 1000 } else { 200 }))))
                } else if c.coin() {
                    Z::pow2(62).add(&Z::from_u128(u128::from(c.draw(5))))
                } else {
                    gen::int(c, 4)
                };
                let r = route(c);
                if c.noting() {
                    c.note("create", &z);
                }
                pool.push((must("create", || build(&z, r))?, z));
                made += 1;
            }
            1 => {
                let i = c.below(pool.len());
                c.note("clone", &i);
                let v = pool[i].clone();
                pool.push(v);
            }
            2 => {
                let i = c.below(pool.len());
                c.note("drop", &i);
                pool.swap_remove(i);
                dropped += 1;
            }
            3 => {
                let (i, j) = (c.below(pool.len()), c.below(pool.len()));
                let op = c.below(4);
                c.note("combine", &(i, j, op));
                let (v, z) = {
                    let ((x, a), (y, b)) = (&pool[i], &pool[j]);
                    match op {
                        0 => (must("+", || x + y)?, a.add(b)),
                        1 => (must("-", || x - y)?, a.sub(b)),
                        2 if a.bits() + b.bits() < 1200 => (must("*", || x * y)?, a.mul(b)),
                        _ => (must("^", || x ^ y)?, a.xor(b)),
                    }
                };
                pool.push((v, z));
                made += 1;
            }
            4 => {
                let (i, j) = (c.below(pool.len()), c.below(pool.len()));
                c.note("replace-in-place", &(i, j));
                let (y, b) = pool[j].clone();
                let (x, a) = &mut pool[i];
                match c.draw(1) {
                    0 => {
                        must("+=", || *x += &y)?;
                        *a = a.add(&b);
                    }
                    _ => {
                        must("-=", || *x -= y)?;
                        *a = a.sub(&b);
                    }
                }
                made += 1;
            }
            5 => {
                let (i, j) = (c.below(pool.len()), c.below(pool.len()));
                c.note("assign", &(i, j));
                let v = pool[j].clone();
                pool[i] = v;
                dropped += 1;
            }
            6 => {
                // negation shares the stored magnitude
                let i = c.below(pool.len());
                c.note("negate", &i);
                let v = (-&pool[i].0, pool[i].1.neg());
                pool.push(v);
                made += 1;
            }
            7 => {
                // many handles to one value for a while, with all but a few gone afterwards
                let i = c.below(pool.len());
                let n = c.pick(&[3usize, 17, 64, 130, 258, 520]);
                c.note("clone many", &(i, n));
                let mut many: Vec<(BigInt, Z)> = (0..n).map(|_| pool[i].clone()).collect();
                if c.coin() {
                    pool.swap_remove(i);
                }
                let kept = many.pop().unwrap();
                if c.coin() {
                    many.reverse();
                }
                drop(many);
                pool.push(kept);
                dropped += n;
            }
            _ => {
                let k = c.below(pool.len() + 1);
                c.note("truncate", &k);
                dropped += pool.len() - k;
                pool.truncate(k);
            }
        }
        while pool.len() > cap {
            pool.swap_remove(0);
            dropped += 1;
        }
        for (i, (x, z)) in pool.iter().enumerate() {
            if grow && step + 1 < steps && (i + step) % 8 != 0 {
                continue;
            }
            let got = must("read", || read(x))?;
            ck_eq!(got, *z, "value {i} after step {step}");
        }
    }
    // equality between any two live values is equality of the numbers
    for i in 0..pool.len().min(12) {
        for j in 0..pool.len().min(12) {
            ck_eq!(pool[i].0 == pool[j].0, pool[i].1 == pool[j].1, "== of values {i} and {j}");
        }
    }
    c.nontrivial(made > 2 && dropped > 0);
    c.label_if(dropped > 2 && made > 4, "churn");
    c.label_if(pool.len() > 32, "more-than-one-chunk");
    c.label_if(pool.len() > 128, "more-than-four-chunks");
    Ok(())
}

/// Thousands of stored numbers alive at once; some go and others take their place.
fn many(c: &mut Case) -> R {
    let n = if c.chance(3) {
        c.range(4000, 9000)
    } else if c.chance(30) {
        c.range(1000, 4000)
    } else {
        c.range(80, 1200)
    };
    let stride = c.range(1, 40);
    let rounds = c.below(3);
    many_of(c, n, stride, rounds)
}

/// So many numbers that their slots do not fit 14 bits
fn huge(c: &mut Case) -> R {
    let n = c.range(16_400, 16_600);
    let stride = c.range(100, 1000);
    let rounds = c.below(2);
    many_of(c, n, stride, rounds)
}

/// Very many copies of one number
fn clones(c: &mut Case) -> R {
    let n = match c.weighted(&[10, 4, 3, 3]) {
        0 => c.range(2, 1200),
        1 => c.range(1200, 5000),
        2 => c.range(32_700, 32_800),
        _ => c.range(65_500, 66_000),
    };
    let k = c.range(1, 3);
    let base: Vec<Z> = (0..k).map(|i| Z::pow2(64 + i).add(&Z::from_u128(u128::from(c.draw(1 << 40))))).collect();
    c.note("copies, of", &(n, &base));
    c.nontrivial(n > 200);
    c.label_if(n > 4096, "over-4096");
    c.label_if(n > 65536, "over-65536");
    let first: Vec<BigInt> = base.iter().map(|z| build(z, route(c))).collect();
    // the k-th copy is of base[which(k)], negated when neg(k)
    let per = c.range(1, 4);
    let neg = |i: usize| per > 1 && i % per == 0;
    let mut pool: Vec<(usize, BigInt)> = Vec::with_capacity(n);
    for i in 0..n {
        let b = &first[i % 97 % k];
        let v = must("clone", || if neg(i) { -b.clone() } else { b.clone() })?;
        pool.push((i, v));
    }
    let want = |i: usize| if neg(i) { base[i % 97 % k].neg() } else { base[i % 97 % k].clone() };
    let check = |c: &mut Case, pool: &[(usize, BigInt)], what: &str| -> R {
        let mut at: Vec<usize> = vec![0, pool.len() - 1, pool.len() / 2];
        at.extend((0..20).map(|_| c.below(pool.len())));
        for a in at {
            let (i, x) = &pool[a];
            let got = must("read", || read(x))?;
            ck_eq!(got, want(*i), "{what}: copy {i} of {n}");
        }
        for (z, x) in base.iter().zip(&first) {
            ck_eq!(must("read", || read(x))?, z.clone(), "{what}: the number the copies are of");
        }
        Ok(())
    };
    check(c, &pool, "all copies alive")?;
    // numbers that would take a place wrongly given up
    let others: Vec<BigInt> = (0..6u32).map(|i| BigInt::from(u128::MAX - u128::from(i))).collect();
    check(c, &pool, "after making others")?;
    while pool.len() > 1 {
        let drop = c.range(1, pool.len() - 1).max(pool.len() / 3).min(pool.len() - 1);
        if c.coin() {
            pool.truncate(pool.len() - drop);
        } else {
            pool.drain(..drop);
        }
        let more: Vec<BigInt> = (6..12u32).map(|i| BigInt::from(u128::MAX - u128::from(i))).collect();
        check(c, &pool, "after dropping copies")?;
        for (i, m) in others.iter().enumerate().chain(more.iter().enumerate().map(|(i, m)| (i + 6, m))) {
            ck_eq!(must("read", || read(m))?, Z::from_u128(u128::MAX - i as u128), "a number made meanwhile");
        }
    }
    Ok(())
}

fn many_of(c: &mut Case, n: usize, stride: usize, rounds: usize) -> R {
    let start = u128::from(c.draw(1 << 40)) << 64;
    c.note("numbers, every how many replaced, rounds, first", &(n, stride, rounds, start));
    c.nontrivial(rounds > 0);
    c.label_if(n > 1024, "over-1024");
    c.label_if(n > 4096, "over-4096");
    let number = |k: usize| Z::from_u128(start + (1 << 100) + k as u128 * 3);
    let make = |k: usize| BigInt::from(start + (1 << 100) + k as u128 * 3);
    let mut pool: Vec<(BigInt, Z)> = Vec::new();
    for k in 0..n {
        numeric_verif::engine::step();
        pool.push((must("from", || make(k))?, number(k)));
    }
    let mut next = n;
    for round in 0..=rounds {
        for (i, (x, z)) in pool.iter().enumerate() {
            numeric_verif::engine::step();
            let got = must("read", || read(x))?;
            ck_eq!(got, *z, "round {round}: number {i} of {n}");
        }
        if round < rounds {
            let kind = c.below(4);
            c.note("replace by", &kind);
            for i in (c.below(stride)..pool.len()).step_by(stride) {
                numeric_verif::engine::step();
                let v = match kind {
                    0 => (must("from", || make(next))?, number(next)),
                    1 => (must("neg", || -pool[i].0.clone())?, pool[i].1.neg()),
                    2 => {
                        let j = (i + 1) % pool.len();
                        (must("+", || &pool[i].0 + &pool[j].0)?, pool[i].1.add(&pool[j].1))
                    }
                    _ => {
                        let mut v = (pool[i].0.clone(), pool[i].1.clone());
                        must("-=", || v.0 -= 3u8)?;
                        v.1 = v.1.sub(&Z::from_u128(3));
                        v
                    }
                };
                next += 1;
                pool[i] = v;
            }
        }
    }
    Ok(())
}

use numeric_verif::heap::HELD;

/// Numbers that come and go give their storage back: what is held follows how many are alive, not
/// how many there have been.
fn storage(c: &mut Case) -> R {
    let k = c.range(1, 6);
    let limbs = c.range(500, 1200);
    let total = c.range(60, 160) + 40 * k;
    c.note("alive at a time, limbs, numbers over time", &(k, limbs, total));
    c.nontrivial(true);
    let before = HELD.load(std::sync::atomic::Ordering::Relaxed);
    // room for the numbers, for what the operations need meanwhile, and for what a released
    // number may keep until its place is taken
    let room = (limbs as isize * 8 + 64) * (16 + 4 * k as isize) + (1 << 17);
    let mut pool: Vec<BigInt> = Vec::new();
    let mut ops = Vec::new();
    // what one operation in many keeps goes unnoticed, so mostly there are only one or two
    let few: Vec<usize> = (0..c.pick(&[1usize, 1, 2, 0])).map(|_| c.below(28)).collect();
    for n in 0..total {
        while pool.len() >= k {
            let i = c.below(pool.len());
            pool.swap_remove(i);
        }
        let op = if few.is_empty() { c.below(28) } else { few[n % few.len()] };
        ops.push(op);
        let x = (BigInt::from((n as u128 * 4 + 1) | (1 << 70)) << (limbs * 64)) + n * 8;
        let v = match op {
            0 => x,
            1 => -x,
            2 => -&x,
            3 => x.clone(),
            4 => &x + &x,
            5 => {
                let mut y = x.clone();
                y += 1u8;
                y
            }
            6 => {
                let mut y = x;
                y -= BigInt::from(1u8);
                y
            }
            7 => x >> 64u8,
            8 => x * 3u8,
            9 => &x & &(-&x),
            10 => x | BigInt::from(5u8),
            11 => &x ^ &BigInt::from(u128::MAX),
            12 => !x,
            13 => (-x).abs(),
            14 => {
                let mut y = x;
                y *= 2u8;
                y
            }
            15 => {
                let mut y = -x;
                let w = std::mem::take(&mut y);
                w
            }
            16 => {
                let mut y = x;
                if let Some(o) = pool.first() {
                    y.clone_from(o);
                }
                y
            }
            17 => {
                // looked at, compared, converted
                let _ = pool.iter().any(|o| *o == x || *o < x || *o == 3u8);
                let _ = u64::try_from(&x);
                let _ = x.is_zero();
                x
            }
            18 => pool.iter().fold(x, |s, o| s + o),
            19..=23 => {
                // with itself
                let mut y = x.clone();
                match op {
                    19 => y -= &x,
                    20 => y += &x,
                    21 => y = &y ^ &x,
                    22 => y = &y & &x,
                    _ => {
                        y = &y - &x;
                        y = y + &x;
                    }
                }
                // small numbers take no room, this one does
                y + x
            }
            24 => x << 65u8,
            25 => (x >> 3u8) << 3u8,
            26 => {
                // made, and found to be too small to be kept
                let y = &x - &(&x - &BigInt::from(9u8));
                y + x
            }
            _ => {
                let y = -x;
                let w = y.clone();
                drop(y);
                w
            }
        };
        pool.push(v);
        let held = HELD.load(std::sync::atomic::Ordering::Relaxed) - before;
        ck!(held <= room, "{held} bytes held after {n} numbers of {limbs} limbs, at most {k} of them alive at a time (operations {:?})", &ops[ops.len().saturating_sub(8)..]);
    }
    Ok(())
}

fn main() {
    harness_main(vec![
        Prop {
            id: "C01",
            subs: vec![
                sub("ring", 250_000, ring),
                sub("primitive-operands", 450_000, ring_prim),
                sub("power", 370_000, pow),
                sub("vast", 4_400, ring_vast),
            ],
        },
        Prop {
            id: "C02",
            subs: vec![sub("division", 100_000, divide), sub("primitive-operands", 290_000, divide_prim), sub("vast", 2_900, divide_vast)],
        },
        Prop {
            id: "C03",
            subs: vec![
                sub("order", 550_000, order),
                sub("primitive-operands", 1_800_000, order_prim),
                sub("sorting", 110_000, order_sort),
                sub("vast", 20_000, order_vast),
            ],
        },
        Prop { id: "C04", subs: vec![sub("primitives", 3_500_000, convert), sub("float", 1_200_000, float)] },
        Prop { id: "C05", subs: vec![sub("format", 25_000, text), sub("parse", 1_200_000, parse), sub("long", 600, text_long)] },
        Prop { id: "C06", subs: vec![sub("bit-operations", 150_000, bitops), sub("shifts", 150_000, shifts), sub("vast", 7_100, bits_vast)] },
        Prop { id: "C07", subs: vec![sub("histories", 30_000, history), sub("many", 680, many), sub("huge", 2, huge), sub("clones", 1_500, clones), sub("storage", 13_000, storage)] },
    ])
}
