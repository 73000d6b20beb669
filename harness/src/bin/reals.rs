//! Fixed<T, N>, Rat<T> and F<N> against exact integers.
use numeric_ints::{BigInt, I, U};
use numeric_reals::p::P;
use numeric_reals::{Fixed, Rat, F};
use numeric_traits::class::{Bounded, BoundedSigned, Integral, Numeric, Real, Signed};
use numeric_traits::identity::{One, Zero};
use numeric_traits::ops::{Gcd, Pow};
use numeric_verif::refint::Z;
use numeric_verif::{big, ck, ck_eq, gen, harness_main, may_panic, must, sub, Case, Prop, R};
use std::cmp::Ordering;
use std::fmt::Debug;

// ---------------------------------------------------------------- backing integers

trait Raw: Integral + Clone + Ord + Debug {
    const NAME: &'static str;
    /// None: unbounded
    fn limits() -> Option<(Z, Z)>;
    fn of(z: &Z) -> Self;
}
macro_rules! raw_prim {
    ($($t:ty),*) => {$(
        impl Raw for $t {
            const NAME: &'static str = stringify!($t);
            fn limits() -> Option<(Z, Z)> {
                let b = <$t>::BITS as usize;
                Some(if <$t>::MIN == 0 {
                    (Z::zero(), Z::pow2(b).sub(&Z::one()))
                } else {
                    (Z::pow2(b - 1).neg(), Z::pow2(b - 1).sub(&Z::one()))
                })
            }
            fn of(z: &Z) -> $t {
                z.mod2(128).low_u128() as $t
            }
        }
    )*};
}
raw_prim!(i8, u8, i16, u16, i32, u32, i64, u64, i128, u128, isize, usize);
impl Raw for BigInt {
    const NAME: &'static str = "BigInt";
    fn limits() -> Option<(Z, Z)> {
        None
    }
    fn of(z: &Z) -> BigInt {
        big::build(z, big::Route::ShiftAdd)
    }
}
impl<const N: usize> Raw for I<N> {
    const NAME: &'static str = "I<_>";
    fn limits() -> Option<(Z, Z)> {
        Some((Z::pow2(8 * N - 1).neg(), Z::pow2(8 * N - 1).sub(&Z::one())))
    }
    fn of(z: &Z) -> I<N> {
        let mut v = I::<N>::zero();
        let m = z.mod2(8 * N);
        for k in (0..8 * N).rev() {
            v = v + v;
            if m.bit(k) {
                v = v + I::one();
            }
        }
        v
    }
}
impl<const N: usize> Raw for U<N> {
    const NAME: &'static str = "U<_>";
    fn limits() -> Option<(Z, Z)> {
        Some((Z::zero(), Z::pow2(8 * N).sub(&Z::one())))
    }
    fn of(z: &Z) -> U<N> {
        U::from_le_bytes(z.to_bytes_le(N).try_into().unwrap())
    }
}

fn fits<T: Raw>(z: &Z) -> bool {
    T::limits().is_none_or(|(lo, hi)| *z >= lo && *z <= hi)
}

/// Calls `$f::<T, N>` for a drawn backing type and precision. One is always representable.
macro_rules! by_fixed {
    ($c:expr, $f:ident) => {
        by_fixed!(@ $c, $f, (i8, 0) (i8, 1) (i8, 3) (i8, 4) (i8, 6) (u8, 0) (u8, 4) (u8, 7) (i16, 8) (i16, 14)
            (u16, 8) (u16, 3) (i32, 1) (i32, 2) (i32, 8) (i32, 16) (i32, 30) (u32, 16) (u32, 31) (i64, 16)
            (i64, 32) (i64, 60) (u64, 32) (u64, 63) (i128, 64) (i128, 100) (u128, 64) (isize, 8) (usize, 8))
    };
    (wide $c:expr, $f:ident) => {
        by_fixed!(@ $c, $f, (BigInt, 0) (BigInt, 4) (BigInt, 64) (BigInt, 70) (U<5>, 16) (U<3>, 7) (U<9>, 33) (U<17>, 64))
    };
    (@ $c:expr, $f:ident, $(($t:ty, $n:literal))*) => {{
        let fs: &[fn(&mut Case) -> R] = &[$($f::<$t, $n>),*];
        let k = $c.below(fs.len());
        fs[k]($c)
    }};
}

/// A raw value: anything the type holds, with whole values, halves and their neighbours common.
fn raw<T: Raw, const N: usize>(c: &mut Case) -> Z {
    let signed = T::limits().is_none_or(|(lo, _)| !lo.is_zero());
    let bits = T::limits().map_or(200, |(_, hi)| hi.bits());
    let mag = match c.weighted(&[6, 5, 2, 3]) {
        0 => {
            // a narrow to full range of bits
            let k = c.range(1, bits);
            gen::ubits(c, bits.next_multiple_of(8)).mod2(k)
        }
        1 => {
            let room = bits.saturating_sub(N).max(1);
            let k = c.range(1, room);
            let w = gen::ubits(c, bits.next_multiple_of(8)).mod2(k);
            let half = if N == 0 { Z::zero() } else { Z::pow2(N - 1) };
            let f = match c.draw(5) {
                0 => Z::zero(),
                1 => half,
                2 => half.add(&Z::one()),
                3 => half.sub(&Z::one()),
                4 => Z::one(),
                _ => Z::pow2(N).sub(&Z::one()),
            };
            w.shl(N).add(&f).abs()
        }
        2 => Z::pow2(bits).sub(&Z::one()).sub(&Z::from_u128(u128::from(c.draw(4)))).abs(),
        _ => Z::from_u128(u128::from(c.draw(40))),
    };
    let mag = if fits::<T>(&mag) { mag } else { mag.mod2(bits) };
    if signed && c.coin() {
        mag.neg()
    } else {
        mag
    }
}

/// The raw value of a number, by search: for messages only.
fn seek<T: Raw, const N: usize>(x: &Fixed<T, N>) -> Z {
    let (mut lo, mut hi) = T::limits().unwrap_or((Z::pow2(900).neg(), Z::pow2(900)));
    while lo < hi {
        let mid = lo.add(&hi).add(&Z::one()).div_floor(&Z::from_i128(2));
        if Fixed::<T, N>::from_raw(T::of(&mid)) <= *x {
            lo = mid;
        } else {
            hi = mid.sub(&Z::one());
        }
    }
    lo
}

fn fx<T: Raw, const N: usize>(z: &Z) -> Fixed<T, N> {
    Fixed::from_raw(T::of(z))
}

fn is<T: Raw, const N: usize>(what: &str, got: &Fixed<T, N>, want: &Z) -> R {
    let w = fx::<T, N>(want);
    ck!(*got == w, "{what} on Fixed<{}, {N}>: raw {:?}, expected raw {want:?}", T::NAME, seek(got));
    Ok(())
}

/// `num / den` in raw units, to less than one unit, exactly when it is whole.
fn near<T: Raw, const N: usize>(what: &str, got: &Fixed<T, N>, num: &Z, den: &Z) -> R {
    let lo = num.div_floor(den);
    let exact = lo.mul(den) == *num;
    let hi = if exact { lo.clone() } else { lo.add(&Z::one()) };
    // the next value up may lie beyond the type
    let hi = if fits::<T>(&hi) { hi } else { lo.clone() };
    let lo = if fits::<T>(&lo) { lo } else { hi.clone() };
    ck!(
        *got >= fx(&lo) && *got <= fx(&hi),
        "{what} on Fixed<{}, {N}>: raw {:?}, expected raw in {lo:?} ..= {hi:?}",
        T::NAME,
        seek(got)
    );
    Ok(())
}

fn head<T: Raw, const N: usize>(c: &mut Case, a: &Z, b: &Z) {
    c.note("type", &format!("Fixed<{}, {N}>", T::NAME));
    c.note("raw a", a);
    c.note("raw b", b);
    c.label_if(a.neg_is() || b.neg_is(), "negative");
}

fn fixed_arith<T: Raw, const N: usize>(c: &mut Case) -> R {
    let a = raw::<T, N>(c);
    let mut b = raw::<T, N>(c);
    let op = c.below(6);
    // keep the raw product or the shifted dividend within the type, most of the time
    let room = T::limits().map_or(usize::MAX, |(_, hi)| hi.bits());
    let (mut a, mut k) = (a, 0);
    if op == 2 {
        let half = room / 2;
        if a.bits() + b.bits() > room && c.chance(230) {
            let cut = c.range(1, room - 1);
            let x = a.bits().saturating_sub(cut.max(half / 4));
            a = a.shr(x);
            k = room.saturating_sub(a.bits());
            b = b.shr(b.bits().saturating_sub(k));
        }
    } else if op == 3 && a.bits() + N > room && room > N {
        a = a.shr(a.bits() + N - room);
    }
    let _ = k;
    c.note("op", &["+", "-", "*", "/", "%", "order"][op]);
    head::<T, N>(c, &a, &b);
    let (x, y) = (fx::<T, N>(&a), fx::<T, N>(&b));
    let one = Z::pow2(N);
    let nt = a.bits() > 1 && b.bits() > 1;
    match op {
        0 => {
            let w = a.add(&b);
            if fits::<T>(&w) {
                c.nontrivial(nt);
                is("+", &must("+", || x + y)?, &w)?;
            }
        }
        1 => {
            let w = a.sub(&b);
            if fits::<T>(&w) {
                c.nontrivial(nt);
                is("-", &must("-", || x - y)?, &w)?;
            }
        }
        2 => {
            let p = a.mul(&b);
            if fits::<T>(&p) {
                c.nontrivial(nt);
                c.label("product");
                near("*", &must("*", || x.clone() * y)?, &p, &one)?;
            }
            // by one and by zero, where one is in range of the intermediate product
            if fits::<T>(&a.shl(N)) {
                is("* 1", &must("* 1", || x.clone() * Fixed::one())?, &a)?;
                is("1 *", &must("1 *", || Fixed::one() * x.clone())?, &a)?;
            }
            is("* 0", &must("* 0", || x * Fixed::zero())?, &Z::zero())?;
        }
        3 => {
            if b.is_zero() {
                c.label("division-by-zero");
                ck!(may_panic(|| x / y).is_none(), "Fixed<{}, {N}> / 0 returned a value", T::NAME);
            } else if fits::<T>(&a.shl(N)) {
                let w = a.shl(N).divrem(&b).0;
                if fits::<T>(&w) && fits::<T>(&a.shl(N).div_floor(&b)) {
                    c.nontrivial(nt);
                    c.label("quotient");
                    near("/", &must("/", || x.clone() / y)?, &a.shl(N), &b)?;
                }
                is("/ 1", &must("/ 1", || x / Fixed::one())?, &a)?;
            }
        }
        4 => {
            if b.is_zero() {
                c.label("division-by-zero");
                ck!(may_panic(|| x % y).is_none(), "Fixed<{}, {N}> % 0 returned a value", T::NAME);
            } else if !(b == Z::one().neg() && T::limits().is_some_and(|(lo, _)| lo == a)) {
                c.nontrivial(nt);
                is("%", &must("%", || x % y)?, &a.divrem(&b).1)?;
            }
        }
        _ => {
            c.nontrivial(nt);
            let w = a.cmp(&b);
            ck_eq!(x.cmp(&y), w, "cmp on Fixed<{}, {N}>", T::NAME);
            ck_eq!(x.partial_cmp(&y), Some(w), "partial_cmp on Fixed<{}, {N}>", T::NAME);
            ck_eq!(x == y, w == Ordering::Equal, "== on Fixed<{}, {N}>", T::NAME);
            ck_eq!(x < y, w == Ordering::Less, "< on Fixed<{}, {N}>", T::NAME);
            ck_eq!(x.is_zero(), a.is_zero(), "is_zero on Fixed<{}, {N}>", T::NAME);
            ck_eq!(x.is_one(), a == one, "is_one on Fixed<{}, {N}>", T::NAME);
            is("zero", &Fixed::<T, N>::zero(), &Z::zero())?;
            is("new", &Fixed::<T, N>::new(), &Z::zero())?;
            is("default", &Fixed::<T, N>::default(), &Z::zero())?;
            is("one", &Fixed::<T, N>::one(), &one)?;
            let v = a.shr(N);
            if fits::<T>(&v.shl(N)) {
                is("from_val", &must("from_val", || Fixed::<T, N>::from_val(T::of(&v)))?, &v.shl(N))?;
            }
        }
    }
    Ok(())
}

fn fixed_signed<T: Raw + Signed + Bounded, const N: usize>(c: &mut Case) -> R
where
    Fixed<T, N>: Signed + BoundedSigned,
{
    let a = raw::<T, N>(c);
    head::<T, N>(c, &a, &Z::zero());
    c.nontrivial(a.bits() > 1);
    let x = fx::<T, N>(&a);
    ck_eq!(x.is_negative(), a.neg_is(), "is_negative on Fixed<{}, {N}>", T::NAME);
    ck_eq!(x.is_positive(), !a.neg_is(), "is_positive on Fixed<{}, {N}>", T::NAME);
    if fits::<T>(&a.neg()) {
        is("neg", &must("neg", || -x.clone())?, &a.neg())?;
        is("abs", &must("abs", || x.clone().abs())?, &a.abs())?;
    }
    let (lo, hi) = T::limits().unwrap();
    is("min_value", &Fixed::<T, N>::min_value(), &lo)?;
    is("max_value", &Fixed::<T, N>::max_value(), &hi)?;
    is("min_positive", &Fixed::<T, N>::min_positive(), &Z::one())?;
    is("max_negative", &Fixed::<T, N>::max_negative(), &Z::one().neg())?;
    Ok(())
}

fn fixed_round<T: Raw, const N: usize>(c: &mut Case) -> R {
    let a = raw::<T, N>(c);
    head::<T, N>(c, &a, &Z::zero());
    let x = fx::<T, N>(&a);
    let one = Z::pow2(N);
    let fl = a.div_floor(&one).mul(&one);
    let ce = if fl == a { fl.clone() } else { fl.add(&one) };
    let (tr, fr) = {
        let (q, r) = a.divrem(&one);
        (q.mul(&one), r)
    };
    let part = a.sub(&fl);
    c.nontrivial(!part.is_zero());
    c.label_if(part.is_zero(), "whole");
    c.label_if(part.shl(1) == one, "tie");
    if fits::<T>(&fl) {
        is("floor", &must("floor", || x.clone().floor())?, &fl)?;
    }
    if fits::<T>(&ce) && fits::<T>(&fl) {
        is("ceil", &must("ceil", || x.clone().ceil())?, &ce)?;
        let got = must("round", || x.clone().round())?;
        match part.shl(1).cmp(&one) {
            Ordering::Less => is("round", &got, &fl)?,
            Ordering::Greater => is("round", &got, &ce)?,
            // either neighbour is nearest
            Ordering::Equal => ck!(
                got == fx(&fl) || got == fx(&ce),
                "round of a tie on Fixed<{}, {N}>: raw {:?}, expected {fl:?} or {ce:?}",
                T::NAME,
                seek(&got)
            ),
        }
    }
    is("trunc", &must("trunc", || x.clone().trunc())?, &tr)?;
    is("fract", &must("fract", || x.clone().fract())?, &fr)?;
    Ok(())
}

/// `text` as a decimal: digits and the number of them behind the point.
fn decimal(text: &str) -> Option<(Z, usize)> {
    let (neg, body) = match text.strip_prefix('-') {
        Some(b) => (true, b),
        None => (false, text),
    };
    let (w, f) = body.split_once('.').unwrap_or((body, ""));
    let digits = format!("0{w}{f}");
    if !digits.chars().all(|d| d.is_ascii_digit()) {
        return None;
    }
    let z = Z::parse(&digits, 10)?;
    Some((if neg { z.neg() } else { z }, f.len()))
}

fn fixed_text<T: Raw + numeric_traits::cast::FromTruncating<usize> + std::fmt::Binary, const N: usize>(
    c: &mut Case,
) -> R {
    let a = raw::<T, N>(c);
    head::<T, N>(c, &a, &Z::zero());
    c.nontrivial(a.bits() > 1);
    let x = fx::<T, N>(&a);
    let text = must("Debug", || format!("{x:?}"))?;
    let d = decimal(&text);
    ck!(d.is_some(), "Debug of Fixed<{}, {N}> raw {a:?} is {text:?}", T::NAME);
    let (digits, places) = d.unwrap();
    // digits / 10^places == a / 2^N
    let (l, r) = (digits.shl(N), a.mul(&Z::from_i128(10).pow(places as u32)));
    ck!(l == r, "Debug of Fixed<{}, {N}> raw {a:?} is {text:?}, a different number", T::NAME);
    if !a.neg_is() {
        let text = must("Binary", || format!("{x:b}"))?;
        let ok = text.split_once('.').and_then(|(w, f)| {
            let z = Z::parse(&format!("{w}{f}"), 2)?;
            Some(z.shl(N) == a.shl(f.len()))
        });
        ck!(ok == Some(true), "Binary of Fixed<{}, {N}> raw {a:?} is {text:?}", T::NAME);
    }
    Ok(())
}

// ---------------------------------------------------------------- Rat

type Q = (Z, Z);

fn qnorm(n: &Z, d: &Z) -> Q {
    let g = n.gcd(d);
    let (n, d) = (n.divrem(&g).0, d.divrem(&g).0);
    if d.neg_is() {
        (n.neg(), d.neg())
    } else {
        (n, d)
    }
}

trait RatRaw: Raw + Gcd<Output = Self> + Copy {
    fn z(self) -> Z;
}
macro_rules! rat_raw {
    ($($t:ty),*) => {$(
        impl RatRaw for $t {
            #[allow(unused_comparisons)]
            fn z(self) -> Z {
                if self < 0 { Z::from_i128(self as i128) } else { Z::from_u128(self as u128) }
            }
        }
    )*};
}
rat_raw!(i8, u8, i16, u16, i32, u32, i64, u64, i128, u128, isize, usize);

macro_rules! by_rat {
    ($c:expr, $f:ident) => {{
        let fs: &[fn(&mut Case) -> R] = &[
            $f::<i32>, $f::<i8>, $f::<u8>, $f::<i16>, $f::<u16>, $f::<u32>, $f::<i64>, $f::<u64>, $f::<i128>,
            $f::<u128>, $f::<isize>, $f::<usize>,
        ];
        let k = $c.below(fs.len());
        fs[k]($c)
    }};
}

/// A numerator or denominator of at most `bits` bits.
fn part<T: Raw>(c: &mut Case, bits: usize) -> Z {
    let signed = !T::limits().unwrap().0.is_zero();
    let m = match c.weighted(&[5, 4, 4]) {
        0 => Z::from_u128(u128::from(c.draw(12))),
        1 => {
            // smooth numbers have common factors
            let mut p = Z::one();
            for _ in 0..c.draw(8) {
                let q = p.mul(&Z::from_i128(c.pick(&[2, 3, 2, 5, 7, 4])));
                if q.bits() <= bits {
                    p = q;
                }
            }
            p
        }
        _ => gen::ubits(c, 128).mod2(bits),
    };
    let m = m.mod2(bits);
    if signed && c.coin() {
        m.neg()
    } else {
        m
    }
}

fn rat_is<T: RatRaw>(what: &str, r: &Rat<T>, n: &Z, d: &Z) -> R {
    let (wn, wd) = qnorm(n, d);
    ck!(
        r.numerator().z() == wn && r.denominator().z() == wd,
        "{what} on Rat<{}>: {:?} / {:?}, expected {wn:?} / {wd:?}",
        T::NAME,
        r.numerator(),
        r.denominator()
    );
    Ok(())
}

/// Negating or reducing the most negative value overflows the backing type.
fn usable<T: Raw>(n: &Z, d: &Z) -> bool {
    let (lo, hi) = T::limits().unwrap();
    let nonmin = |z: &Z| lo.is_zero() || *z > lo;
    *n >= lo && *n <= hi && *d >= lo && *d <= hi && nonmin(n) && nonmin(d)
}

fn rat_new<T: RatRaw>(c: &mut Case) -> R {
    let bits = T::limits().unwrap().1.bits();
    let k = c.range(1, bits);
    let (n, d) = (part::<T>(c, k), part::<T>(c, bits));
    let f = part::<T>(c, 4).abs();
    // a common factor, often
    let (n, d) = if c.coin() && usable::<T>(&n.mul(&f), &d.mul(&f)) { (n.mul(&f), d.mul(&f)) } else { (n, d) };
    c.note("type", &format!("Rat<{}>", T::NAME));
    c.note("n", &n);
    c.note("d", &d);
    c.label_if(d.neg_is(), "negative-denominator");
    c.nontrivial(n.bits() > 1 && d.bits() > 1);
    let r = must("new", || Rat::new(T::of(&n), T::of(&d)))?;
    if d.is_zero() {
        c.label("zero-denominator");
        ck!(r.is_none(), "Rat::<{}>::new({n:?}, 0) is {r:?}", T::NAME);
        return Ok(());
    }
    ck!(r.is_some(), "Rat::<{}>::new({n:?}, {d:?}) is None", T::NAME);
    let r = r.unwrap();
    rat_is("new", &r, &n, &d)?;
    ck_eq!(r.into_pair().0.z(), qnorm(&n, &d).0, "into_pair");
    ck_eq!(r.into_pair().1.z(), qnorm(&n, &d).1, "into_pair");
    ck_eq!(r.is_zero(), n.is_zero(), "is_zero on Rat<{}>", T::NAME);
    ck_eq!(r.is_one(), n == d, "is_one on Rat<{}>", T::NAME);
    ck_eq!(format!("{r:?}"), format!("{:?} / {:?}", r.numerator(), r.denominator()), "Debug");
    ck!(Rat::<T>::zero().is_zero() && Rat::<T>::one().is_one() && Rat::<T>::default().is_zero(), "identities");
    // any other fraction of the same value is the same Rat
    let k = part::<T>(c, 5);
    if !k.is_zero() && usable::<T>(&n.mul(&k), &d.mul(&k)) {
        c.label("scaled");
        let s = must("new", || Rat::new(T::of(&n.mul(&k)), T::of(&d.mul(&k))))?.unwrap();
        ck!(s == r, "{n:?}/{d:?} and the same times {k:?} differ as Rat<{}>: {r:?} and {s:?}", T::NAME);
    }
    Ok(())
}

fn rat_arith<T: RatRaw>(c: &mut Case) -> R {
    let bits = T::limits().unwrap().1.bits();
    // sums and products of two fractions fit with about a third of the bits each
    let k = c.range(1, bits.div_ceil(2));
    let (n1, d1) = (part::<T>(c, k), part::<T>(c, k));
    let (n2, d2) = if c.chance(40) { (n1.clone(), d1.clone()) } else { (part::<T>(c, k), part::<T>(c, k)) };
    c.note("type", &format!("Rat<{}>", T::NAME));
    c.note("a", &(&n1, &d1));
    c.note("b", &(&n2, &d2));
    if d1.is_zero() || d2.is_zero() {
        return Ok(());
    }
    let (x, y) = (Rat::new(T::of(&n1), T::of(&d1)).unwrap(), Rat::new(T::of(&n2), T::of(&d2)).unwrap());
    let ((n1, d1), (n2, d2)) = (qnorm(&n1, &d1), qnorm(&n2, &d2));
    c.label_if(n1.neg_is() != n2.neg_is(), "signs-differ");
    ck_eq!(x == y, n1 == n2 && d1 == d2, "== on Rat<{}>", T::NAME);
    let (p, q, dd) = (n1.mul(&d2), n2.mul(&d1), d1.mul(&d2));
    let terms = usable::<T>(&p, &q);
    let mut ran = 0;
    if terms && usable::<T>(&p.add(&q), &dd) {
        rat_is("+", &must("+", || x + y)?, &p.add(&q), &dd)?;
        ran += 1;
    }
    if terms && usable::<T>(&p.sub(&q), &dd) {
        rat_is("-", &must("-", || x - y)?, &p.sub(&q), &dd)?;
        ran += 1;
    }
    if usable::<T>(&n1.mul(&n2), &dd) {
        rat_is("*", &must("*", || x * y)?, &n1.mul(&n2), &dd)?;
        ran += 1;
    }
    if n2.is_zero() {
        c.label("division-by-zero");
        ck!(may_panic(|| x / y).is_none(), "Rat<{}> / 0 returned a value", T::NAME);
    } else if usable::<T>(&n1.mul(&d2), &d1.mul(&n2)) {
        rat_is("/", &must("/", || x / y)?, &n1.mul(&d2), &d1.mul(&n2))?;
        ran += 1;
    }
    c.nontrivial(ran > 1 && n1.bits() > 0 && n2.bits() > 0 && (d1.bits() > 1 || d2.bits() > 1));
    c.label_if(ran == 4, "all-four");
    Ok(())
}

fn rat_round<T: RatRaw>(c: &mut Case) -> R {
    let bits = T::limits().unwrap().1.bits();
    let k = c.range(1, bits);
    let (n, d) = (part::<T>(c, bits), part::<T>(c, k));
    c.note("type", &format!("Rat<{}>", T::NAME));
    c.note("n", &n);
    c.note("d", &d);
    if d.is_zero() {
        return Ok(());
    }
    let x = Rat::new(T::of(&n), T::of(&d)).unwrap();
    let (n, d) = qnorm(&n, &d);
    let one = Z::one();
    let fl = n.div_floor(&d);
    let part = n.sub(&fl.mul(&d));
    let ce = if part.is_zero() { fl.clone() } else { fl.add(&one) };
    c.nontrivial(!part.is_zero());
    c.label_if(part.is_zero(), "whole");
    c.label_if(n.neg_is() && !part.is_zero(), "negative-fraction");
    rat_is("floor", &must("floor", || x.floor())?, &fl, &one)?;
    rat_is("ceil", &must("ceil", || x.ceil())?, &ce, &one)?;
    let got = must("round", || x.round())?;
    match part.shl(1).cmp(&d) {
        Ordering::Less => rat_is("round", &got, &fl, &one)?,
        Ordering::Greater => rat_is("round", &got, &ce, &one)?,
        Ordering::Equal => {
            c.label("tie");
            ck!(
                rat_is("", &got, &fl, &one).is_ok() || rat_is("", &got, &ce, &one).is_ok(),
                "round of the tie {n:?}/{d:?} on Rat<{}>: {got:?}",
                T::NAME
            );
        }
    }
    Ok(())
}

fn rat_signed<T: RatRaw + Signed + Bounded>(c: &mut Case) -> R {
    let bits = T::limits().unwrap().1.bits();
    let k = c.range(1, bits);
    let (n, d) = (part::<T>(c, bits), part::<T>(c, k));
    c.note("type", &format!("Rat<{}>", T::NAME));
    c.note("n", &n);
    c.note("d", &d);
    if d.is_zero() {
        return Ok(());
    }
    let x = Rat::new(T::of(&n), T::of(&d)).unwrap();
    let (n, d) = qnorm(&n, &d);
    c.nontrivial(n.bits() > 1);
    ck_eq!(x.is_negative(), n.neg_is(), "is_negative of {n:?}/{d:?} as Rat<{}>", T::NAME);
    ck_eq!(x.is_positive(), !n.neg_is(), "is_positive of {n:?}/{d:?} as Rat<{}>", T::NAME);
    rat_is("neg", &must("neg", || -x)?, &n.neg(), &d)?;
    rat_is("abs", &must("abs", || x.abs())?, &n.abs(), &d)?;
    let (lo, hi) = T::limits().unwrap();
    let pair = |r: Rat<T>| (r.numerator().z(), r.denominator().z());
    ck_eq!(pair(Rat::<T>::min_value()), (lo, Z::one()), "min_value of Rat<{}>", T::NAME);
    ck_eq!(pair(Rat::<T>::max_value()), (hi, Z::one()), "max_value of Rat<{}>", T::NAME);
    Ok(())
}

/// What a Rat of the library's own integers offers (they have no gcd, so no construction or
/// arithmetic): sign, negation, bounds, identities and equality of fractions in lowest terms.
fn rat_lib<T: Raw + Signed>(c: &mut Case) -> R {
    let bits = T::limits().map_or(100, |l| l.1.bits());
    let k = c.range(1, bits);
    let (mut n, mut d) = (gen::ubits(c, k), gen::ubits(c, bits));
    if d.is_zero() {
        d = Z::one();
    }
    (n, d) = qnorm(&n, &d);
    if c.coin() {
        n = n.neg();
    }
    c.note("type", &format!("Rat<{}>", T::NAME));
    c.note("n", &n);
    c.note("d", &d);
    c.nontrivial(n.bits() > 1 && d.bits() > 1);
    // SAFETY: in lowest terms, denominator positive
    let r = |n: &Z, d: &Z| unsafe { Rat::new_unchecked(T::of(n), T::of(d)) };
    let is = |what: &str, x: &Rat<T>, n: &Z, d: &Z| -> R {
        ck!(*x.numerator() == T::of(n) && *x.denominator() == T::of(d), "{what} on Rat<{}>: {x:?}, expected {n:?} / {d:?}", T::NAME);
        Ok(())
    };
    let x = r(&n, &d);
    is("parts", &x, &n, &d)?;
    ck!(x.clone().into_pair() == (T::of(&n), T::of(&d)), "into_pair");
    ck_eq!(x.is_negative(), n.neg_is(), "is_negative of {n:?}/{d:?} as Rat<{}>", T::NAME);
    ck_eq!(x.is_positive(), !n.neg_is(), "is_positive of {n:?}/{d:?} as Rat<{}>", T::NAME);
    ck_eq!(x.is_zero(), n.is_zero(), "is_zero of {n:?}/{d:?} as Rat<{}>", T::NAME);
    ck_eq!(x.is_one(), n == d, "is_one of {n:?}/{d:?} as Rat<{}>", T::NAME);
    is("neg", &must("neg", || -x.clone())?, &n.neg(), &d)?;
    is("abs", &must("abs", || x.clone().abs())?, &n.abs(), &d)?;
    is("zero", &Rat::zero(), &Z::zero(), &Z::one())?;
    is("default", &Rat::default(), &Z::zero(), &Z::one())?;
    is("one", &Rat::one(), &Z::one(), &Z::one())?;
    ck!(x == r(&n, &d), "== with itself");
    ck_eq!(x == Rat::one(), n == d, "== one");
    ck_eq!(x == r(&n, &Z::one()), d == Z::one(), "== the same numerator over one");
    Ok(())
}

fn rat_bounds<T: Raw + BoundedSigned>(c: &mut Case) -> R {
    c.note("type", &format!("Rat<{}>", T::NAME));
    c.nontrivial(true);
    let (lo, hi) = T::limits().unwrap();
    let one = Z::one();
    for (what, x, n, d) in [
        ("min_value", Rat::<T>::min_value(), &lo, &one),
        ("max_value", Rat::<T>::max_value(), &hi, &one),
        ("min_positive", Rat::<T>::min_positive(), &one, &hi),
        ("max_negative", Rat::<T>::max_negative(), &one.neg(), &hi),
    ] {
        ck!(*x.numerator() == T::of(n) && *x.denominator() == T::of(d), "{what} of Rat<{}>: {x:?}, expected {n:?} / {d:?}", T::NAME);
        ck_eq!(x.is_negative(), n.neg_is(), "is_negative of {what} of Rat<{}>", T::NAME);
        ck_eq!(x.is_positive(), !n.neg_is(), "is_positive of {what} of Rat<{}>", T::NAME);
    }
    rat_lib::<T>(c)
}

/// The library's unbounded integer with the gcd it lacks: fractions of any size.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct G(BigInt);
macro_rules! g_ops {
    ($($tr:ident $f:ident),*) => {$(
        impl std::ops::$tr for G {
            type Output = G;
            fn $f(self, o: G) -> G {
                G(std::ops::$tr::$f(self.0, o.0))
            }
        }
    )*};
}
g_ops!(Add add, Sub sub, Mul mul, Div div, Rem rem, BitAnd bitand, BitOr bitor, BitXor bitxor, Shl shl, Shr shr);
impl std::ops::Shl<usize> for G {
    type Output = G;
    fn shl(self, o: usize) -> G {
        G(self.0 << o)
    }
}
impl std::ops::Shr<usize> for G {
    type Output = G;
    fn shr(self, o: usize) -> G {
        G(self.0 >> o)
    }
}
impl std::ops::Not for G {
    type Output = G;
    fn not(self) -> G {
        G(!self.0)
    }
}
impl std::ops::Neg for G {
    type Output = G;
    fn neg(self) -> G {
        G(-self.0)
    }
}
impl Zero for G {
    fn zero() -> G {
        G(BigInt::zero())
    }
    fn is_zero(&self) -> bool {
        self.0.is_zero()
    }
}
impl One for G {
    fn one() -> G {
        G(BigInt::one())
    }
    fn is_one(&self) -> bool {
        self.0.is_one()
    }
}
impl Pow for G {
    type Output = G;
    fn pow(self, e: G) -> G {
        G(Pow::pow(self.0, e.0))
    }
}
impl Gcd for G {
    type Output = G;
    fn gcd(self, o: G) -> G {
        // by the reference integers, so that it is right whatever the library does
        G(big::build(&big::read(&self.0).gcd(&big::read(&o.0)), big::Route::ShiftAdd))
    }
}
impl Numeric for G {}
impl Integral for G {}
impl Signed for G {
    fn abs(self) -> G {
        if self.0 < BigInt::zero() {
            -self
        } else {
            self
        }
    }
    fn is_positive(&self) -> bool {
        self.0 >= BigInt::zero()
    }
    fn is_negative(&self) -> bool {
        self.0 < BigInt::zero()
    }
}

fn rat_big(c: &mut Case) -> R {
    let g = |z: &Z| G(big::build(z, big::Route::ShiftAdd));
    let mut part = || {
        let n = gen::int(c, 2);
        if c.coin() {
            n
        } else {
            // common factors
            n.mul(&Z::from_i128(c.pick(&[6, 4, 30, 1 << 40])))
        }
    };
    let (n1, d1, n2, d2) = (part(), part(), part(), part());
    c.note("a", &(&n1, &d1));
    c.note("b", &(&n2, &d2));
    let (x, y) = (must("new", || Rat::new(g(&n1), g(&d1)))?, must("new", || Rat::new(g(&n2), g(&d2)))?);
    ck_eq!((x.is_none(), y.is_none()), (d1.is_zero(), d2.is_zero()), "absence of a fraction over zero");
    let (Some(x), Some(y)) = (x, y) else {
        return Ok(());
    };
    let is = |what: &str, r: &Rat<G>, n: &Z, d: &Z| -> R {
        let (wn, wd) = qnorm(n, d);
        let got = (big::read(&r.numerator().0), big::read(&r.denominator().0));
        ck!(got == (wn.clone(), wd.clone()), "{what} on fractions of unbounded integers: {got:?}, expected {:?}", (wn, wd));
        Ok(())
    };
    is("new", &x, &n1, &d1)?;
    is("new", &y, &n2, &d2)?;
    c.nontrivial(n1.bits() > 1 && d1.bits() > 1 && n2.bits() > 1 && d2.bits() > 1);
    c.label_if(d1.neg_is() || d2.neg_is(), "negative-denominator");
    let (p, q, dd) = (n1.mul(&d2), n2.mul(&d1), d1.mul(&d2));
    is("+", &must("+", || x.clone() + y.clone())?, &p.add(&q), &dd)?;
    is("-", &must("-", || x.clone() - y.clone())?, &p.sub(&q), &dd)?;
    is("*", &must("*", || x.clone() * y.clone())?, &n1.mul(&n2), &dd)?;
    if n2.is_zero() {
        ck!(may_panic(|| x.clone() / y.clone()).is_none(), "division of a fraction by zero returned a value");
    } else {
        is("/", &must("/", || x.clone() / y.clone())?, &p, &d1.mul(&n2))?;
    }
    is("neg", &must("neg", || -x.clone())?, &n1.neg(), &d1)?;
    is("abs", &must("abs", || x.clone().abs())?, &n1.abs(), &d1.abs())?;
    let (n, d) = qnorm(&n1, &d1);
    let (one, fl) = (Z::one(), n.div_floor(&d));
    let part = n.sub(&fl.mul(&d));
    let ce = if part.is_zero() { fl.clone() } else { fl.add(&one) };
    is("floor", &must("floor", || x.clone().floor())?, &fl, &one)?;
    is("ceil", &must("ceil", || x.clone().ceil())?, &ce, &one)?;
    let got = must("round", || x.clone().round())?;
    match part.shl(1).cmp(&d) {
        Ordering::Less => is("round", &got, &fl, &one)?,
        Ordering::Greater => is("round", &got, &ce, &one)?,
        Ordering::Equal => ck!(is("", &got, &fl, &one).is_ok() || is("", &got, &ce, &one).is_ok(), "round of a tie: {got:?}"),
    }
    Ok(())
}

// ---------------------------------------------------------------- F<N>

fn float_bytes<const N: usize>(c: &mut Case) -> R {
    let b: [u8; N] = c.bytes(N).try_into().unwrap();
    c.note("bytes", &b);
    c.nontrivial(N > 1 && b[0] != b[N - 1]);
    let mut r = b;
    r.reverse();
    ck_eq!(F::from_le_bytes(b).to_le_bytes(), b, "le -> le of F<{N}>");
    ck_eq!(F::from_be_bytes(b).to_be_bytes(), b, "be -> be of F<{N}>");
    ck_eq!(F::from_le_bytes(b).to_be_bytes(), r, "le -> be of F<{N}>");
    ck_eq!(F::from_be_bytes(b).to_le_bytes(), r, "be -> le of F<{N}>");
    ck_eq!(F::from_ne_bytes(b).to_ne_bytes(), b, "ne -> ne of F<{N}>");
    let ne = if cfg!(target_endian = "little") { b } else { r };
    ck_eq!(F::from_ne_bytes(b).to_le_bytes(), ne, "ne -> le of F<{N}>");
    ck_eq!(F::from_le_bytes(ne).to_ne_bytes(), b, "le -> ne of F<{N}>");
    ck_eq!(F::from_le_bytes(b).to_bits().to_le_bytes(), b, "to_bits of F<{N}>");
    ck_eq!(F::from_bits(U::from_le_bytes(b)).to_le_bytes(), b, "from_bits of F<{N}>");
    Ok(())
}

/// Every width up to 17 bytes and some beyond
macro_rules! by_width {
    ($c:expr, $f:ident) => {{
        let fs: &[fn(&mut Case) -> R] = &[
            $f::<1>, $f::<2>, $f::<3>, $f::<4>, $f::<5>, $f::<6>, $f::<7>, $f::<8>, $f::<9>, $f::<10>, $f::<11>, $f::<12>,
            $f::<13>, $f::<14>, $f::<15>, $f::<16>, $f::<17>, $f::<20>, $f::<24>, $f::<31>, $f::<32>, $f::<33>, $f::<40>,
            $f::<48>, $f::<64>, $f::<65>, $f::<128>,
        ];
        let k = $c.below(fs.len());
        fs[k]($c)
    }};
}

// ---------------------------------------------------------------- P<N>

/// Histories over posits reachable from zero: whatever the route, the value is zero
fn posit_zero<const N: usize>(c: &mut Case) -> R {
    let mut pool: Vec<P<N>> = vec![P::new()];
    let steps = c.below(40);
    let mut negations = 0;
    for _ in 0..steps {
        let k = c.below(pool.len());
        let p = pool[k];
        let q = match c.below(5) {
            0 => P::default(),
            1 => P::new(),
            #[allow(clippy::clone_on_copy)]
            2 => p.clone(),
            _ => {
                negations += 1;
                -p
            }
        };
        ck_eq!(q.is_nar(), false, "is_nar of a zero P<{N}> after {negations} negations");
        ck_eq!(q.is_negative(), false, "is_negative of a zero P<{N}> after {negations} negations");
        for (i, &o) in pool.iter().enumerate() {
            ck_eq!(o == q && q == o, true, "two zeros of P<{N}> equal (value {i})");
            ck_eq!(o != q, false, "two zeros of P<{N}> differ (value {i})");
        }
        pool.push(q);
    }
    c.note("steps", &(N, steps, negations));
    c.nontrivial(negations > 1);
    Ok(())
}

fn main() {
    harness_main(vec![
        Prop {
            id: "C30",
            subs: vec![sub("zero", 1_000_000, |c| by_width!(c, posit_zero))],
        },
        Prop {
            id: "C22",
            subs: vec![
                sub("primitive-backed", 1_800_000, |c| by_fixed!(c, fixed_arith)),
                sub("library-backed", 770_000, |c| by_fixed!(wide c, fixed_arith)),
                sub("sign-and-bounds", 2_300_000, |c| {
                    by_fixed!(@ c, fixed_signed, (i8, 0) (i8, 4) (i16, 8) (i32, 16) (i32, 1) (i64, 32) (i128, 64) (isize, 8))
                }),
            ],
        },
        Prop {
            id: "C23",
            subs: vec![
                sub("rounding", 1_600_000, |c| by_fixed!(c, fixed_round)),
                sub("rounding-library-backed", 510_000, |c| by_fixed!(wide c, fixed_round)),
                sub("text", 810_000, |c| by_fixed!(c, fixed_text)),
            ],
        },
        Prop {
            id: "C24",
            subs: vec![
                sub("construction", 600_000, |c| by_rat!(c, rat_new)),
                sub("arithmetic", 600_000, |c| by_rat!(c, rat_arith)),
                sub("rounding", 800_000, |c| by_rat!(c, rat_round)),
                sub("sign-and-bounds", 580_000, |c| {
                    let fs: &[fn(&mut Case) -> R] =
                        &[rat_signed::<i32>, rat_signed::<i8>, rat_signed::<i16>, rat_signed::<i64>, rat_signed::<i128>, rat_signed::<isize>];
                    let k = c.below(fs.len());
                    fs[k](c)
                }),
                sub("unbounded", 3_000, rat_big),
                sub("library-backed", 62_000, |c| {
                    let fs: &[fn(&mut Case) -> R] =
                        &[rat_bounds::<I<2>>, rat_bounds::<I<1>>, rat_bounds::<I<3>>, rat_bounds::<I<4>>, rat_bounds::<I<8>>, rat_bounds::<I<9>>, rat_bounds::<I<17>>, rat_lib::<BigInt>];
                    let k = c.below(fs.len());
                    fs[k](c)
                }),
            ],
        },
        Prop {
            id: "C32",
            subs: vec![sub("bytes", 3_000_000, |c| by_width!(c, float_bytes))],
        },
    ])
}
