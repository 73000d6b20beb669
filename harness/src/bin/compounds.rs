//! Vectors, matrices and complex numbers against plain arrays of exact numbers.
use numeric_compounds::complex::Complex;
use numeric_compounds::matrix::{DynMatrix, Matrix, MatrixMut, MatrixRef};
use numeric_compounds::vector::Vector;
use numeric_ints::BigInt;
use numeric_traits::class::{Numeric, Real, RealSigned, Signed};
use numeric_traits::identity::{One, Zero};
use numeric_traits::ops::checked::{CheckedAdd, CheckedSub};
use numeric_traits::ops::Pow;
use numeric_verif::{ck, ck_eq, harness_main, may_panic, must, sub, Case, Prop, R};
use std::cmp::Ordering;
use std::fmt;
use std::ops::{Add, Div, Mul, Neg, Rem, Sub};

// ---------------------------------------------------------------- exact scalar

/// An exact rational, so that every algebraic identity holds with equality.
#[derive(Clone, Copy, PartialEq, Eq, Hash)]
struct Q {
    n: i128,
    d: i128,
}
fn gcd(a: i128, b: i128) -> i128 {
    let (mut a, mut b) = (a.abs(), b.abs());
    while b != 0 {
        (a, b) = (b, a % b);
    }
    a
}
fn m(a: i128, b: i128) -> i128 {
    a.checked_mul(b).expect("harness scalar overflow")
}
impl Q {
    fn new(n: i128, d: i128) -> Q {
        assert!(d != 0, "division by zero");
        let g = gcd(n, d).max(1) * d.signum();
        Q { n: n / g, d: d / g }
    }
    fn int(n: i64) -> Q {
        Q { n: n.into(), d: 1 }
    }
}
impl fmt::Debug for Q {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if self.d == 1 {
            write!(f, "{}", self.n)
        } else {
            write!(f, "{}/{}", self.n, self.d)
        }
    }
}
impl PartialOrd for Q {
    fn partial_cmp(&self, o: &Q) -> Option<Ordering> {
        Some(m(self.n, o.d).cmp(&m(o.n, self.d)))
    }
}
impl Add for Q {
    type Output = Q;
    fn add(self, o: Q) -> Q {
        Q::new(m(self.n, o.d).checked_add(m(o.n, self.d)).expect("harness scalar overflow"), m(self.d, o.d))
    }
}
impl Sub for Q {
    type Output = Q;
    fn sub(self, o: Q) -> Q {
        self + -o
    }
}
impl Mul for Q {
    type Output = Q;
    fn mul(self, o: Q) -> Q {
        let (a, b) = (gcd(self.n, o.d).max(1), gcd(o.n, self.d).max(1));
        Q::new(m(self.n / a, o.n / b), m(self.d / b, o.d / a))
    }
}
impl Div for Q {
    type Output = Q;
    fn div(self, o: Q) -> Q {
        self * Q::new(o.d, o.n)
    }
}
impl Rem for Q {
    type Output = Q;
    fn rem(self, o: Q) -> Q {
        let q = self / o;
        self - o * Q::new(q.n / q.d, 1)
    }
}
impl Neg for Q {
    type Output = Q;
    fn neg(self) -> Q {
        Q { n: -self.n, d: self.d }
    }
}
impl Zero for Q {
    fn zero() -> Q {
        Q::int(0)
    }
    fn is_zero(&self) -> bool {
        self.n == 0
    }
}
impl One for Q {
    fn one() -> Q {
        Q::int(1)
    }
    fn is_one(&self) -> bool {
        *self == Q::int(1)
    }
}
impl Pow for Q {
    type Output = Q;
    fn pow(self, e: Q) -> Q {
        assert!(e.d == 1 && e.n >= 0, "only whole powers");
        (0..e.n).fold(Q::int(1), |p, _| p * self)
    }
}
impl Numeric for Q {}
impl Real for Q {
    fn floor(self) -> Q {
        Q::new(self.n.div_euclid(self.d), 1)
    }
    fn ceil(self) -> Q {
        -(-self).floor()
    }
    fn round(self) -> Q {
        (self + Q::new(1, 2)).floor()
    }
    fn trunc(self) -> Q {
        Q::new(self.n / self.d, 1)
    }
    fn fract(self) -> Q {
        self - self.trunc()
    }
    fn log(self, _: Q) -> Q {
        unreachable!()
    }
    fn sqrt(self) -> Q {
        unreachable!()
    }
}
impl Signed for Q {
    fn abs(self) -> Q {
        Q { n: self.n.abs(), d: self.d }
    }
    fn is_positive(&self) -> bool {
        self.n >= 0
    }
    fn is_negative(&self) -> bool {
        self.n < 0
    }
}
impl RealSigned for Q {}

/// The integers modulo a prime, represented around zero: an exact field whose numbers never grow, for
/// larger matrices.
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd)]
struct Fp(i64);
const P: i64 = 2_147_483_647;
impl Fp {
    fn of(v: i64) -> Fp {
        let v = v.rem_euclid(P);
        Fp(if v > P / 2 { v - P } else { v })
    }
    fn inv(self) -> Fp {
        assert!(self.0 != 0, "division by zero");
        let (mut r, mut b, mut e) = (Fp(1), self, P - 2);
        while e > 0 {
            if e & 1 == 1 {
                r = r * b;
            }
            b = b * b;
            e >>= 1;
        }
        r
    }
}
impl fmt::Debug for Fp {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl Add for Fp {
    type Output = Fp;
    fn add(self, o: Fp) -> Fp {
        Fp::of(self.0 + o.0)
    }
}
impl Sub for Fp {
    type Output = Fp;
    fn sub(self, o: Fp) -> Fp {
        Fp::of(self.0 - o.0)
    }
}
impl Mul for Fp {
    type Output = Fp;
    fn mul(self, o: Fp) -> Fp {
        Fp::of(self.0 * o.0)
    }
}
impl Div for Fp {
    type Output = Fp;
    fn div(self, o: Fp) -> Fp {
        self * o.inv()
    }
}
impl Rem for Fp {
    type Output = Fp;
    fn rem(self, o: Fp) -> Fp {
        assert!(o.0 != 0, "division by zero");
        Fp(0)
    }
}
impl Neg for Fp {
    type Output = Fp;
    fn neg(self) -> Fp {
        Fp(-self.0)
    }
}
impl Zero for Fp {
    fn zero() -> Fp {
        Fp(0)
    }
    fn is_zero(&self) -> bool {
        self.0 == 0
    }
}
impl One for Fp {
    fn one() -> Fp {
        Fp(1)
    }
    fn is_one(&self) -> bool {
        self.0 == 1
    }
}
impl Pow for Fp {
    type Output = Fp;
    fn pow(self, e: Fp) -> Fp {
        (0..e.0).fold(Fp(1), |p, _| p * self)
    }
}
impl Numeric for Fp {}
impl Real for Fp {
    fn floor(self) -> Fp {
        self
    }
    fn ceil(self) -> Fp {
        self
    }
    fn round(self) -> Fp {
        self
    }
    fn trunc(self) -> Fp {
        self
    }
    fn fract(self) -> Fp {
        Fp(0)
    }
    fn log(self, _: Fp) -> Fp {
        unreachable!()
    }
}
impl Signed for Fp {
    fn abs(self) -> Fp {
        Fp(self.0.abs())
    }
    fn is_positive(&self) -> bool {
        self.0 >= 0
    }
    fn is_negative(&self) -> bool {
        self.0 < 0
    }
}
impl RealSigned for Fp {}

fn small(c: &mut Case) -> i64 {
    match c.weighted(&[3, 6, 2]) {
        0 => 0,
        1 => c.irange(-4, 4),
        _ => c.irange(-60, 60),
    }
}
fn q(c: &mut Case) -> Q {
    let n = small(c);
    let d = if c.chance(60) { c.range(1, 6) as i128 } else { 1 };
    Q::new(n.into(), d)
}

fn arr<T, const N: usize>(c: &mut Case, f: fn(&mut Case) -> T) -> [T; N] {
    std::array::from_fn(|_| f(c))
}

macro_rules! by {
    ($c:expr, $($f:expr),* $(,)?) => {{
        let fs: &[fn(&mut Case) -> R] = &[$($f),*];
        let k = $c.below(fs.len());
        fs[k]($c)
    }};
}

/// The same function for many dimensions; small ones are as likely as all the others together.
macro_rules! dims {
    ($c:expr, $f:ident) => {
        if $c.coin() {
            by!($c, $f::<1>, $f::<2>, $f::<3>, $f::<4>, $f::<5>, $f::<0>)
        } else {
            by!($c, $f::<6>, $f::<7>, $f::<8>, $f::<9>, $f::<10>, $f::<11>, $f::<12>, $f::<13>, $f::<14>, $f::<15>, $f::<16>, $f::<17>,
                $f::<18>, $f::<19>, $f::<20>, $f::<21>, $f::<22>, $f::<23>, $f::<24>, $f::<25>, $f::<26>, $f::<27>, $f::<28>, $f::<29>, $f::<30>, $f::<31>, $f::<32>, $f::<33>, $f::<65>)
        }
    };
}

// ---------------------------------------------------------------- Vector

/// Element-wise operations with every operand form, on a `Copy` type.
fn vec_ops_int<const N: usize>(c: &mut Case) -> R {
    let a: [i64; N] = arr(c, |c| c.irange(-1000, 1000));
    let b: [i64; N] = arr(c, |c| c.irange(-50, 50));
    let s = c.irange(-20, 20);
    let op = c.below(5);
    c.note("a", &a);
    c.note("b", &b);
    c.note("scalar", &s);
    c.note("op", &["+", "-", "*", "/", "%"][op]);
    c.nontrivial(N > 1 && a != [a.first().copied().unwrap_or(0); N]);
    macro_rules! one {
        ($o:tt, $oa:tt) => {{
            let (x, y) = (Vector::new(a), Vector::new(b));
            if !(op > 2 && b.contains(&0)) {
                let want: [i64; N] = std::array::from_fn(|i| a[i] $o b[i]);
                ck_eq!(<[i64; N]>::from(x $o y), want, "vector {} vector", stringify!($o));
                ck_eq!(<[i64; N]>::from(x $o &y), want, "vector {} &vector", stringify!($o));
                let mut t = x;
                t $oa y;
                ck_eq!(<[i64; N]>::from(t), want, "vector {} vector", stringify!($oa));
                let mut t = x;
                t $oa &y;
                ck_eq!(<[i64; N]>::from(t), want, "vector {} &vector", stringify!($oa));
            } else if N > 0 {
                c.label("division-by-zero");
                ck!(may_panic(|| x $o y).is_none(), "vector {} a vector with a zero returned", stringify!($o));
            }
            if !(op > 2 && s == 0) {
                let want: [i64; N] = std::array::from_fn(|i| a[i] $o s);
                ck_eq!(<[i64; N]>::from(x $o s), want, "vector {} scalar", stringify!($o));
                ck_eq!(<[i64; N]>::from(x $o &s), want, "vector {} &scalar", stringify!($o));
                let mut t = x;
                t $oa s;
                ck_eq!(<[i64; N]>::from(t), want, "vector {} scalar", stringify!($oa));
                let mut t = x;
                t $oa &s;
                ck_eq!(<[i64; N]>::from(t), want, "vector {} &scalar", stringify!($oa));
            }
            ck_eq!(<[i64; N]>::from(x), a, "left operand changed");
            ck_eq!(<[i64; N]>::from(y), b, "right operand changed");
        }};
    }
    match op {
        0 => one!(+, +=),
        1 => one!(-, -=),
        2 => one!(*, *=),
        3 => one!(/, /=),
        _ => one!(%, %=),
    }
    Ok(())
}

/// The same on values that own storage.
fn vec_ops_big<const N: usize>(c: &mut Case) -> R {
    fn wide(c: &mut Case) -> i128 {
        let v = i128::from(c.u64() as i64);
        if c.coin() {
            v << 30
        } else {
            v
        }
    }
    let a: [i128; N] = arr(c, wide);
    let b: [i128; N] = arr(c, wide);
    c.note("a", &a);
    c.note("b", &b);
    c.nontrivial(N > 1);
    let x = Vector::new(a.map(BigInt::from));
    let y = Vector::new(b.map(BigInt::from));
    let is = |v: Vector<BigInt, N>, w: [i128; N]| -> bool { <[BigInt; N]>::from(v) == w.map(BigInt::from) };
    ck!(is(x.clone() + y.clone(), std::array::from_fn(|i| a[i] + b[i])), "vector of BigInt + vector");
    ck!(is(x.clone() - y.clone(), std::array::from_fn(|i| a[i] - b[i])), "vector of BigInt - vector");
    ck!(is(x.clone() + &y, std::array::from_fn(|i| a[i] + b[i])), "vector of BigInt + &vector");
    let mut t = x.clone();
    t -= &y;
    ck!(is(t, std::array::from_fn(|i| a[i] - b[i])), "vector of BigInt -= &vector");
    let mut t = x.clone();
    t += y.clone();
    ck!(is(t, std::array::from_fn(|i| a[i] + b[i])), "vector of BigInt += vector");
    ck!(is(x.clone() * BigInt::from(3), a.map(|v| v * 3)), "vector of BigInt * scalar");
    ck!(is(x, a) && is(y, b), "operands changed");
    Ok(())
}

fn vec_checked<const N: usize>(c: &mut Case) -> R {
    fn edge(c: &mut Case) -> i8 {
        match c.draw(3) {
            0 => c.draw(255) as u8 as i8,
            1 => i8::MAX - c.draw(3) as i8,
            2 => i8::MIN + c.draw(3) as i8,
            _ => c.irange(-2, 2) as i8,
        }
    }
    let a: [i8; N] = arr(c, |c| c.irange(-60, 60) as i8);
    let b: [i8; N] = arr(c, |c| c.irange(-60, 60) as i8);
    let (mut a, mut b) = (a, b);
    // at most a few positions can overflow
    for _ in 0..c.draw(2) {
        if N > 0 {
            let i = c.below(N);
            a[i] = edge(c);
            b[i] = edge(c);
        }
    }
    c.note("a", &a);
    c.note("b", &b);
    let add: Option<Vec<i8>> = (0..N).map(|i| a[i].checked_add(b[i])).collect();
    let sub: Option<Vec<i8>> = (0..N).map(|i| a[i].checked_sub(b[i])).collect();
    c.nontrivial(N > 1);
    c.label_if(add.is_none(), "sum-overflows");
    c.label_if(sub.is_none(), "difference-overflows");
    let (x, y) = (Vector::new(a), Vector::new(b));
    let got = CheckedAdd::checked_add(x, y).map(|v| <[i8; N]>::from(v).to_vec());
    ck_eq!(got, add, "checked_add");
    let got = CheckedSub::checked_sub(x, y).map(|v| <[i8; N]>::from(v).to_vec());
    ck_eq!(got, sub, "checked_sub");
    Ok(())
}

fn vec_reduce<const N: usize>(c: &mut Case) -> R {
    let a: [Q; N] = arr(c, q);
    let b: [Q; N] = arr(c, q);
    c.note("a", &a);
    c.note("b", &b);
    c.nontrivial(N > 1 && a.iter().any(|v| !v.is_zero()) && b.iter().any(|v| !v.is_zero()));
    let (x, y) = (Vector::new(a), Vector::new(b));
    let zero = Q::int(0);
    ck_eq!(x.sum(), a.iter().fold(zero, |s, v| s + *v), "sum");
    ck_eq!(x.product(), a.iter().fold(Q::int(1), |s, v| s * *v), "product");
    ck_eq!(Vector::dot_product(x, y), (0..N).fold(zero, |s, i| s + a[i] * b[i]), "dot_product");
    ck_eq!(Vector::dot_product(y, x), Vector::dot_product(x, y), "dot_product swapped");
    let d2 = (0..N).fold(zero, |s, i| s + (a[i] - b[i]) * (a[i] - b[i]));
    ck_eq!(Vector::distance_squared(x, y), d2, "distance_squared");
    ck_eq!(Vector::distance_squared(y, x), d2, "distance_squared swapped");
    ck_eq!(x.is_zero(), a.iter().all(|v| v.is_zero()), "is_zero");
    must("wedge", || Vector::wedge(x, y))?;
    // row and column matrices hold the same elements
    let (r, k) = (x.into_row(), x.into_column());
    for i in 0..N {
        ck_eq!(r[(0, i)], a[i], "into_row");
        ck_eq!(k[(i, 0)], a[i], "into_column");
    }
    // and on floats, where the square root exists: whole coordinates square exactly
    let fa: [f64; N] = arr(c, |c| small(c) as f64);
    let fb: [f64; N] = arr(c, |c| small(c) as f64);
    let want = (0..N).map(|i| (fa[i] - fb[i]) * (fa[i] - fb[i])).sum::<f64>().sqrt();
    let got = Vector::distance(Vector::new(fa), Vector::new(fb));
    ck!((got - want).abs() <= 1e-9 * want.max(1.0), "distance {got}, expected {want}");
    Ok(())
}

/// Reductions of long vectors of small integers.
fn vec_reduce_int<const N: usize>(c: &mut Case) -> R {
    let a: [i64; N] = arr(c, |c| c.irange(-99, 99));
    let b: [i64; N] = arr(c, |c| c.irange(-99, 99));
    // a product that is neither zero nor out of range
    let mut p: [i64; N] = arr(c, |c| if c.coin() { 1 } else { -1 });
    for _ in 0..c.draw(12) {
        if N > 0 {
            let i = c.below(N);
            p[i] = c.irange(-9, 9);
        }
    }
    c.note("a", &a);
    c.note("b", &b);
    c.nontrivial(N > 1);
    let (a, b, p) = (a.map(|v| v as f64), b.map(|v| v as f64), p.map(|v| v as f64)); // all exact
    let (x, y) = (Vector::new(a), Vector::new(b));
    ck_eq!(x.sum(), a.iter().sum::<f64>(), "sum of {N}");
    ck_eq!(Vector::new(p).product(), p.iter().product::<f64>(), "product of {N}");
    ck_eq!(Vector::dot_product(x, y), (0..N).map(|i| a[i] * b[i]).sum::<f64>(), "dot_product of {N}");
    let d2 = (0..N).map(|i| (a[i] - b[i]) * (a[i] - b[i])).sum::<f64>();
    ck_eq!(Vector::distance_squared(x, y), d2, "distance_squared of {N}");
    let (r, k) = (x.into_row(), x.into_column());
    for i in 0..N {
        ck_eq!(r[(0, i)], a[i], "into_row");
        ck_eq!(k[(i, 0)], a[i], "into_column");
    }
    let mut z = [0f64; N];
    ck!(Vector::new(z).is_zero(), "is_zero of {N} zeroes");
    if N > 0 {
        z[c.below(N)] = 1.0;
        ck!(!Vector::new(z).is_zero(), "is_zero with one component of {N} set");
    }
    let mut o = a;
    if N > 0 {
        o[c.below(N)] += 1.0;
        ck!(x != Vector::new(o), "== of {N} components that differ in one");
    }
    Ok(())
}

fn vec_access<const N: usize>(c: &mut Case) -> R {
    let mut model: [i64; N] = arr(c, |c| c.irange(-99, 99));
    let mut v = Vector::new(model);
    c.note("start", &model);
    c.nontrivial(N > 1);
    ck_eq!(<[i64; N]>::from(Vector::<i64, N>::from(model)), model, "from array and back");
    for _ in 0..c.range(1, 8) {
        let i = match c.below(16) {
            // far out, also where the lower bits alone are in range
            15 => c.below(N + 1).wrapping_add(c.range(1, 3) << c.range(8, 63)).max(N),
            14 => usize::MAX - c.below(N + 2),
            _ => c.below(N + 2),
        };
        let val = c.irange(-99, 99);
        if i < N {
            c.note("set", &(i, val));
            v[i] = val;
            model[i] = val;
        } else {
            c.label("out-of-range");
            c.note("out of range", &i);
            ck!(may_panic(|| v[i]).is_none(), "index {i} of {N} returned");
            ck!(may_panic(|| v[i] = val).is_none(), "a write at index {i} of {N} returned");
        }
        for k in 0..N {
            ck_eq!(v[k], model[k], "element {k}");
        }
    }
    let s = c.irange(-9, 9);
    ck_eq!(<[i64; N]>::from(Vector::<i64, N>::from_scalar(s)), [s; N], "from_scalar");
    ck_eq!(<[i64; N]>::from(Vector::<i64, N>::zeroed()), [0; N], "zeroed");
    ck_eq!(<[i64; N]>::from(<Vector<i64, N> as Zero>::zero()), [0; N], "zero");
    ck_eq!(<[i64; N]>::from(Vector::<i64, N>::default()), [0; N], "default");
    let mut other = model;
    if N > 0 && c.coin() {
        let k = c.below(N);
        other[k] += c.irange(0, 1);
    }
    ck_eq!(v == Vector::new(other), model == other, "==");
    Ok(())
}

fn vec_named(c: &mut Case) -> R {
    let a: [Q; 4] = arr(c, q);
    let b: [Q; 4] = arr(c, q);
    let n: [Q; 4] = arr(c, q);
    c.note("a", &a);
    c.note("b", &b);
    c.nontrivial(a != b);
    macro_rules! axes {
        ($n:literal, $from:ident($($arg:expr),*), $(($i:literal, $get:ident, $mut:ident, $set:ident)),*) => {{
            let v = Vector::<Q, $n>::$from($($arg),*);
            let base: [Q; $n] = v.into();
            ck_eq!(base[..], a[..$n], "{}", stringify!($from));
            $(
                ck_eq!(*v.$get(), a[$i], "{}", stringify!($get));
                let mut w = v;
                w.$set(n[$i]);
                let mut e = base;
                e[$i] = n[$i];
                ck_eq!(<[Q; $n]>::from(w), e, "{}", stringify!($set));
                let mut w = v;
                *w.$mut() = n[$i];
                ck_eq!(<[Q; $n]>::from(w), e, "{}", stringify!($mut));
            )*
        }};
    }
    axes!(2, from_xy(a[0], a[1]), (0, x, x_mut, set_x), (1, y, y_mut, set_y));
    axes!(3, from_xyz(a[0], a[1], a[2]), (0, x, x_mut, set_x), (1, y, y_mut, set_y), (2, z, z_mut, set_z));
    axes!(4, from_xyzw(a[0], a[1], a[2], a[3]), (0, x, x_mut, set_x), (1, y, y_mut, set_y), (2, z, z_mut, set_z), (3, w, w_mut, set_w));
    let (x, y) = (Vector::from_xyz(a[0], a[1], a[2]), Vector::from_xyz(b[0], b[1], b[2]));
    let k: [Q; 3] = x.cross(y).into();
    let want = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]];
    ck_eq!(k, want, "cross");
    let kv = x.cross(y);
    ck!(Vector::dot_product(kv, x).is_zero() && Vector::dot_product(kv, y).is_zero(), "cross is not orthogonal");
    Ok(())
}

// ---------------------------------------------------------------- Matrix

type V2 = Vec<Vec<Q>>;

fn mat<const R_: usize, const C: usize>(c: &mut Case) -> [[Q; C]; R_] {
    std::array::from_fn(|_| arr(c, q))
}
fn grid<const R_: usize, const C: usize>(x: &Matrix<Q, R_, C>) -> V2 {
    (0..R_).map(|i| (0..C).map(|j| x[(i, j)]).collect()).collect()
}
fn vv<const R_: usize, const C: usize>(x: &[[Q; C]; R_]) -> V2 {
    x.iter().map(|r| r.to_vec()).collect()
}
fn vmul(a: &V2, b: &V2, cols: usize) -> V2 {
    a.iter()
        .map(|r| {
            (0..cols)
                .map(|j| r.iter().enumerate().fold(Q::int(0), |s, (k, v)| s + *v * b[k][j]))
                .collect()
        })
        .collect()
}

fn mat_algebra<const A: usize, const B: usize, const C: usize>(c: &mut Case) -> R {
    let a = mat::<A, B>(c);
    let b = mat::<B, C>(c);
    let d = mat::<A, B>(c);
    c.note("a", &a);
    c.note("b", &b);
    c.note("d", &d);
    c.nontrivial(A * B * C > 1);
    c.label_if(A != B || B != C, "non-square");
    let (ma, mb, md) = (Matrix::new(a), Matrix::new(b), Matrix::new(d));
    ck_eq!(grid(&ma), vv(&a), "indexing");
    let sum: V2 = (0..A).map(|i| (0..B).map(|j| a[i][j] + d[i][j]).collect()).collect();
    let dif: V2 = (0..A).map(|i| (0..B).map(|j| a[i][j] - d[i][j]).collect()).collect();
    ck_eq!(grid(&(ma.clone() + md.clone())), sum, "matrix + matrix");
    ck_eq!(grid(&(ma.clone() - md.clone())), dif, "matrix - matrix");
    let prod = ma.clone() * mb.clone();
    ck_eq!(grid(&prod), vmul(&vv(&a), &vv(&b), C), "matrix * matrix");
    // transposition
    let t = ma.clone().transpose();
    for i in 0..A {
        for j in 0..B {
            ck_eq!(t[(j, i)], a[i][j], "transpose at ({j}, {i})");
        }
    }
    ck!(t.clone().transpose() == ma, "transposing twice changed the matrix");
    ck!(prod.transpose() == mb.clone().transpose() * t, "(a b)^T != b^T a^T");
    ck!((ma.clone() + md.clone()) * mb.clone() == ma.clone() * mb.clone() + md.clone() * mb.clone(), "distributivity");
    // identities
    ck!(ma.clone() * Matrix::<Q, B, B>::one() == ma, "a * 1 != a");
    ck!(Matrix::<Q, A, A>::one() * ma.clone() == ma, "1 * a != a");
    ck!(ma.clone() + Matrix::zero() == ma, "a + 0 != a");
    ck_eq!(ma.is_zero(), a.iter().flatten().all(|v| v.is_zero()), "is_zero");
    ck_eq!(ma.is_one(), (0..A).all(|i| (0..B).all(|j| a[i][j] == Q::int(i64::from(i == j)))), "is_one");
    ck!(Matrix::<Q, A, B>::one().is_one() && Matrix::<Q, A, B>::zero().is_zero(), "identities");
    // a near identity is not the identity
    let mut near = Matrix::<Q, A, B>::one();
    let (i, j) = (c.below(A), c.below(B));
    near[(i, j)] = q(c);
    ck_eq!(near.is_one(), near[(i, j)] == Q::int(i64::from(i == j)), "is_one of the identity with one element replaced");
    ck_eq!(ma == md, vv(&a) == vv(&d), "==");
    // rows and columns
    let rows = Matrix::from_rows(a.map(Vector::new));
    ck!(rows == ma, "from_rows");
    let cols = Matrix::from_columns(a.map(Vector::new));
    ck!(cols == ma.clone().transpose(), "from_columns");
    Ok(())
}

/// Larger shapes, over machine integers.
fn mat_wide<const A: usize, const B: usize, const C: usize>(c: &mut Case) -> R {
    let mut el = || if c.chance(40) { 0 } else { c.irange(-999, 999) };
    let a: [[i64; B]; A] = std::array::from_fn(|_| std::array::from_fn(|_| el()));
    let b: [[i64; C]; B] = std::array::from_fn(|_| std::array::from_fn(|_| el()));
    let d: [[i64; B]; A] = std::array::from_fn(|_| std::array::from_fn(|_| el()));
    c.note("a", &a);
    c.note("b", &b);
    c.note("d", &d);
    c.nontrivial(true);
    let (ma, mb, md) = (Matrix::new(a), Matrix::new(b), Matrix::new(d));
    let prod = ma.clone() * mb.clone();
    for i in 0..A {
        for j in 0..C {
            let want: i64 = (0..B).map(|k| a[i][k] * b[k][j]).sum();
            ck_eq!(prod[(i, j)], want, "{A}x{B} matrix * {B}x{C} matrix at ({i}, {j})");
        }
    }
    let (sum, dif, t) = (ma.clone() + md.clone(), ma.clone() - md.clone(), ma.clone().transpose());
    let (rows, cols) = (Matrix::from_rows(a.map(Vector::new)), Matrix::from_columns(a.map(Vector::new)));
    let (zero, one, def) = (Matrix::<i64, A, B>::zero(), Matrix::<i64, A, B>::one(), Matrix::<i64, A, B>::default());
    for i in 0..A {
        for j in 0..B {
            ck_eq!((sum[(i, j)], dif[(i, j)], t[(j, i)]), (a[i][j] + d[i][j], a[i][j] - d[i][j], a[i][j]), "sum, difference, transpose at ({i}, {j}) of {A}x{B}");
            ck_eq!((rows[(i, j)], cols[(j, i)]), (a[i][j], a[i][j]), "from_rows, from_columns at ({i}, {j}) of {A}x{B}");
            ck_eq!((zero[(i, j)], one[(i, j)], def[(i, j)]), (0, i64::from(i == j), 0), "zero, one, default at ({i}, {j}) of {A}x{B}");
        }
    }
    ck!(ma == Matrix::new(a), "a matrix differs from itself");
    ck!(zero.is_zero() && one.is_one(), "is_zero of zero, is_one of one of {A}x{B}");
    if A * B == 0 {
        return Ok(());
    }
    // one element off
    let (i, j) = (c.below(A), c.below(B));
    let mut e = ma.clone();
    e[(i, j)] += 1;
    ck!(e != ma, "matrices that differ at ({i}, {j}) are equal");
    let mut e = zero;
    e[(i, j)] = 1;
    ck!(!e.is_zero(), "is_zero with a one at ({i}, {j})");
    let mut e = one;
    ck!(e.is_one(), "is_one of one");
    e[(i, j)] += 1;
    ck!(!e.is_one(), "is_one with another element at ({i}, {j})");
    Ok(())
}

/// Shapes too large to draw every element: they are mixed from a few, small enough not to overflow.
fn mat_huge<const A: usize, const B: usize>(c: &mut Case) -> R {
    let mut x = c.draw(u64::MAX - 1) | 1;
    let mut el = || {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        (x % 101) as i8 - 50
    };
    let a: [[i8; B]; A] = std::array::from_fn(|_| std::array::from_fn(|_| el()));
    let d: [[i8; B]; A] = std::array::from_fn(|_| std::array::from_fn(|_| el()));
    let (i, j) = (c.below(A), c.below(B));
    c.note("corner", &(a[0][0], d[0][0]));
    c.note("at", &(i, j));
    c.nontrivial(true);
    let (ma, md) = (Matrix::new(a), Matrix::new(d));
    let (sum, dif, t) = (ma.clone() + md.clone(), ma.clone() - md.clone(), ma.clone().transpose());
    let rows = Matrix::from_rows(a.map(Vector::new));
    let cols = Matrix::from_columns(a.map(Vector::new));
    let (zero, one, def) = (Matrix::<i8, A, B>::zero(), Matrix::<i8, A, B>::one(), Matrix::<i8, A, B>::default());
    for i in 0..A {
        for j in 0..B {
            let (v, w) = (a[i][j], d[i][j]);
            ck!((sum[(i, j)], dif[(i, j)], t[(j, i)]) == (v + w, v - w, v), "sum, difference, transpose at ({i}, {j}) of {A}x{B}");
            ck!((rows[(i, j)], cols[(j, i)]) == (v, v), "from_rows, from_columns at ({i}, {j}) of {A}x{B}");
            ck!((zero[(i, j)], one[(i, j)], def[(i, j)]) == (0, i8::from(i == j), 0), "zero, one, default at ({i}, {j}) of {A}x{B}");
        }
    }
    ck!(ma == rows && zero.is_zero() && one.is_one(), "equality, is_zero of zero, is_one of one of {A}x{B}");
    let mut e = ma.clone();
    e[(i, j)] += 1;
    ck!(e != ma, "matrices that differ at ({i}, {j}) are equal");
    let mut e = zero;
    e[(i, j)] = 1;
    ck!(!e.is_zero(), "is_zero with a one at ({i}, {j})");
    let mut e = one;
    e[(i, j)] += 1;
    ck!(!e.is_one(), "is_one with another element at ({i}, {j})");
    Ok(())
}

fn diag_huge<const N: usize>(c: &mut Case) -> R {
    let from = c.range(0, 1 << 30) as u32;
    c.note("from", &from);
    c.nontrivial(true);
    let at = |i: usize, j: usize| from.wrapping_add((i * N + j) as u32);
    let m = Matrix::<u32, N, N>::new(std::array::from_fn(|i| std::array::from_fn(|j| at(i, j))));
    let d: [u32; N] = m.diag().into();
    for (i, v) in d.into_iter().enumerate() {
        ck_eq!(v, at(i, i), "diag at {i} of {N}x{N}");
    }
    Ok(())
}

/// Entries that do not commute: the factors keep their order.
fn mat_blocks(c: &mut Case) -> R {
    type B = Matrix<Q, 2, 2>;
    let a: [[[[Q; 2]; 2]; 2]; 2] = std::array::from_fn(|_| std::array::from_fn(|_| mat::<2, 2>(c)));
    let b: [[[[Q; 2]; 2]; 2]; 2] = std::array::from_fn(|_| std::array::from_fn(|_| mat::<2, 2>(c)));
    c.note("a", &a);
    c.note("b", &b);
    c.nontrivial(true);
    let (x, y): (Matrix<B, 2, 2>, Matrix<B, 2, 2>) = (Matrix::new(a.map(|r| r.map(Matrix::new))), Matrix::new(b.map(|r| r.map(Matrix::new))));
    let flat = |v: &[[[[Q; 2]; 2]; 2]; 2]| -> V2 { (0..4).map(|i| (0..4).map(|j| v[i / 2][j / 2][i % 2][j % 2]).collect()).collect() };
    let got = x * y;
    let want = vmul(&flat(&a), &flat(&b), 4);
    for i in 0..4 {
        for j in 0..4 {
            ck_eq!(got[(i / 2, j / 2)][(i % 2, j % 2)], want[i][j], "block product at ({i}, {j})");
        }
    }
    Ok(())
}

fn det(a: &V2) -> Q {
    match a.len() {
        0 => Q::int(1),
        n => (0..n).fold(Q::int(0), |s, j| {
            let minor: V2 = a[1..]
                .iter()
                .map(|r| r.iter().enumerate().filter(|(k, _)| *k != j).map(|(_, v)| *v).collect())
                .collect();
            let t = a[0][j] * det(&minor);
            if j % 2 == 0 {
                s + t
            } else {
                s - t
            }
        }),
    }
}

/// The unique reduced row echelon form.
fn rref<T: Copy + Zero + Sub<Output = T> + Mul<Output = T> + Div<Output = T>>(a: &[Vec<T>], cols: usize) -> Vec<Vec<T>> {
    let mut a = a.to_vec();
    let mut row = 0;
    for col in 0..cols {
        let Some(p) = (row..a.len()).find(|r| !a[*r][col].is_zero()) else { continue };
        a.swap(row, p);
        let piv = a[row][col];
        for v in &mut a[row] {
            *v = *v / piv;
        }
        for r in 0..a.len() {
            if r != row && !a[r][col].is_zero() {
                let f = a[r][col];
                for k in 0..cols {
                    let x = a[row][k];
                    a[r][k] = a[r][k] - f * x;
                }
            }
        }
        row += 1;
    }
    a
}

fn echelon<T: Zero + fmt::Debug>(what: &str, a: &[Vec<T>]) -> R {
    let lead: Vec<usize> = a.iter().map(|r| r.iter().position(|v| !v.is_zero()).unwrap_or(usize::MAX)).collect();
    for w in lead.windows(2) {
        ck!(w[1] > w[0] || w[1] == usize::MAX, "{what}: not in row echelon form: {a:?}");
    }
    Ok(())
}

/// Often singular: repeated, zero or combined rows and zero columns.
fn shaped<const A: usize, const B: usize>(c: &mut Case) -> [[Q; B]; A] {
    let mut a: [[Q; B]; A] = std::array::from_fn(|_| std::array::from_fn(|_| Q::int(if c.chance(90) { 0 } else { c.irange(-6, 6) })));
    if c.chance(60) && A > 1 {
        let (i, j) = (c.below(A), c.below(A));
        let f = Q::int(c.irange(-2, 2));
        a[i] = std::array::from_fn(|k| a[j][k] * f);
    }
    if c.chance(40) && B > 0 {
        let k = c.below(B);
        for r in &mut a {
            r[k] = Q::int(0);
        }
    }
    a
}

fn mat_reduce<const A: usize, const B: usize>(c: &mut Case) -> R {
    let a = shaped::<A, B>(c);
    c.note("matrix", &a);
    let g = vv(&a);
    let want = rref(&g, B);
    let rank = want.iter().filter(|r| r.iter().any(|v| !v.is_zero())).count();
    c.nontrivial(A > 1 && rank > 0);
    c.label_if(A != B, "non-square");
    c.label_if(rank < A.min(B), "rank-deficient");
    let s = must("row_reduce", || Matrix::new(a).row_reduce())?;
    let s = grid(&s);
    echelon("row_reduce", &s)?;
    ck!(rref(&s, B) == want, "row_reduce changed the row space: {s:?}");
    let d = must("row_reduce", || DynMatrix::from(a).row_reduce())?;
    ck_eq!((d.rows(), d.cols()), (A, B), "shape of the reduced DynMatrix");
    let d: V2 = (0..A).map(|i| (0..B).map(|j| d[(i, j)]).collect()).collect();
    echelon("row_reduce of DynMatrix", &d)?;
    ck!(rref(&d, B) == want, "row_reduce of DynMatrix changed the row space: {d:?}");
    Ok(())
}

fn mat_det<const N: usize>(c: &mut Case) -> R {
    let a = shaped::<N, N>(c);
    c.note("matrix", &a);
    let want = det(&vv(&a));
    c.nontrivial(N > 1 && vv(&a).iter().flatten().any(|v| !v.is_zero()));
    c.label_if(want.is_zero(), "singular");
    c.label_if(!want.is_zero(), "regular");
    let x = Matrix::new(a);
    ck_eq!(must("determinant", || x.determinant())?, want, "determinant");
    ck_eq!(x.clone().transpose().determinant(), want, "determinant of the transpose");
    let dg: [Q; N] = x.diag().into();
    ck_eq!(dg, std::array::from_fn(|i| a[i][i]), "diag");
    ck_eq!(Matrix::<Q, N, N>::one().determinant(), Q::int(1), "determinant of one");
    if N > 1 && N < 6 {
        let (i, j) = (c.below(N), c.below(N));
        let mut y = x.clone();
        y.swap_rows(i, j);
        for k in 0..N {
            ck!(y[(i, k)] == a[j][k] && y[(j, k)] == a[i][k], "swap_rows({i}, {j})");
        }
        ck_eq!(y.determinant(), if i == j { want } else { -want }, "determinant after swapping rows {i} and {j}");
        let b = shaped::<N, N>(c);
        c.note("factor", &b);
        ck_eq!((x * Matrix::new(b)).determinant(), want * det(&vv(&b)), "determinant of a product");
    }
    Ok(())
}

/// Matrices of a chosen rank over the prime field: dense ones, sparse ones, triangles, permutations, and
/// some with rows or columns in common.
fn shaped_fp<const A: usize, const B: usize>(c: &mut Case) -> [[Fp; B]; A] {
    let kind = c.below(6);
    let mut el = |c: &mut Case| match c.below(4) {
        0 => Fp(0),
        1 => Fp(1),
        2 => Fp(c.irange(-9, 9)),
        _ => Fp::of(c.irange(-P / 2, P / 2)),
    };
    let mut a: [[Fp; B]; A] = match kind {
        // a product through a narrow middle
        0 | 1 => {
            let k = c.range(0, A.min(B));
            let l: Vec<Vec<Fp>> = (0..A).map(|_| (0..k).map(|_| el(c)).collect()).collect();
            let r: Vec<Vec<Fp>> = (0..k).map(|_| (0..B).map(|_| el(c)).collect()).collect();
            std::array::from_fn(|i| std::array::from_fn(|j| (0..k).fold(Fp(0), |s, t| s + l[i][t] * r[t][j])))
        }
        // a few elements only
        2 => {
            let mut a = [[Fp(0); B]; A];
            for _ in 0..c.range(0, A + B) {
                if A * B > 0 {
                    a[c.below(A.max(1))][c.below(B.max(1))] = el(c);
                }
            }
            a
        }
        // below or above a diagonal
        3 => {
            let d = c.irange(-2, 2);
            let low = c.coin();
            std::array::from_fn(|i| std::array::from_fn(|j| if (i as i64 + d >= j as i64) == low { el(c) } else { Fp(0) }))
        }
        _ => std::array::from_fn(|_| std::array::from_fn(|_| el(c))),
    };
    if A > 0 && B > 0 {
        for _ in 0..c.below(4) {
            let (i, j) = (c.below(A), c.below(A));
            match c.below(4) {
                0 => a.swap(i, j),
                1 => a[i] = a[j],
                2 => {
                    let (k, l) = (c.below(B), c.below(B));
                    for r in &mut a {
                        r.swap(k, l);
                    }
                }
                _ => {
                    let k = c.below(B);
                    for r in &mut a {
                        r[k] = Fp(0);
                    }
                }
            }
        }
    }
    a
}

/// The determinant by elimination, with the bookkeeping of our own.
fn det_fp(a: &[Vec<Fp>]) -> Fp {
    let mut a = a.to_vec();
    let n = a.len();
    let mut d = Fp(1);
    for k in 0..n {
        let Some(p) = (k..n).find(|r| a[*r][k].0 != 0) else { return Fp(0) };
        if p != k {
            a.swap(p, k);
            d = -d;
        }
        d = d * a[k][k];
        let inv = a[k][k].inv();
        for r in k + 1..n {
            let f = a[r][k] * inv;
            for j in k..n {
                let x = a[k][j];
                a[r][j] = a[r][j] - f * x;
            }
        }
    }
    d
}

fn large_reduce<const A: usize, const B: usize>(c: &mut Case) -> R {
    let a = shaped_fp::<A, B>(c);
    c.note("matrix", &a);
    let g: Vec<Vec<Fp>> = a.iter().map(|r| r.to_vec()).collect();
    let want = rref(&g, B);
    let rank = want.iter().filter(|r| r.iter().any(|v| v.0 != 0)).count();
    c.nontrivial(rank > 1);
    c.label_if(rank < A.min(B), "rank-deficient");
    let s = must("row_reduce", || Matrix::new(a).row_reduce())?;
    let s: Vec<Vec<Fp>> = (0..A).map(|i| (0..B).map(|j| s[(i, j)]).collect()).collect();
    echelon("row_reduce", &s)?;
    ck!(rref(&s, B) == want, "row_reduce changed the row space: {s:?}");
    let d = must("row_reduce", || DynMatrix::from(a).row_reduce())?;
    ck_eq!((d.rows(), d.cols()), (A, B), "shape of the reduced DynMatrix");
    let d: Vec<Vec<Fp>> = (0..A).map(|i| (0..B).map(|j| d[(i, j)]).collect()).collect();
    echelon("row_reduce of DynMatrix", &d)?;
    ck!(rref(&d, B) == want, "row_reduce of DynMatrix changed the row space: {d:?}");
    Ok(())
}

fn large_det<const N: usize>(c: &mut Case) -> R {
    let a = shaped_fp::<N, N>(c);
    c.note("matrix", &a);
    let g: Vec<Vec<Fp>> = a.iter().map(|r| r.to_vec()).collect();
    let want = det_fp(&g);
    c.nontrivial(g.iter().flatten().filter(|v| v.0 != 0).count() > 1);
    c.label_if(want.0 == 0, "singular");
    c.label_if(want.0 != 0, "regular");
    let x = Matrix::new(a);
    ck_eq!(must("determinant", || x.determinant())?, want, "determinant of {N}x{N}");
    ck_eq!(x.clone().transpose().determinant(), want, "determinant of the transpose, {N}x{N}");
    let dg: [Fp; N] = x.diag().into();
    ck_eq!(dg, std::array::from_fn(|i| a[i][i]), "diag of {N}x{N}");
    if N > 1 {
        let (i, j) = (c.below(N), c.below(N));
        let mut y = x.clone();
        y.swap_rows(i, j);
        ck_eq!(y.determinant(), if i == j { want } else { -want }, "determinant after swapping rows {i} and {j}");
        let b = shaped_fp::<N, N>(c);
        let gb: Vec<Vec<Fp>> = b.iter().map(|r| r.to_vec()).collect();
        c.note("factor", &b);
        ck_eq!((x * Matrix::new(b)).determinant(), want * det_fp(&gb), "determinant of a product, {N}x{N}");
    }
    Ok(())
}

/// Dynamic matrices of any shape, with up to tens of thousands of elements
fn dyn_large(c: &mut Case) -> R {
    let (rows, cols) = match c.below(5) {
        0 => (c.range(0, 12), c.range(0, 12)),
        1 => (c.range(250, 262), c.range(250, 262)),
        2 => (c.range(1, 3), c.range(0, 40_000)),
        3 => (c.range(0, 40_000), c.range(1, 3)),
        _ => (c.range(0, 300), c.range(0, 300)),
    };
    c.note("shape", &(rows, cols));
    c.nontrivial(rows > 1 && cols > 1);
    c.label_if(rows * cols > 65_536, "more than 65536 elements");
    let mut model: Vec<u32> = (0..rows * cols).map(|k| (k as u32).wrapping_mul(0x9e37_79b1)).collect();
    let mut d = DynMatrix::new(model.clone(), rows, cols);
    ck_eq!((d.rows(), d.cols()), (rows, cols), "shape");
    if rows * cols == 0 {
        return Ok(());
    }
    let at = |c: &mut Case, n: usize| match c.below(4) {
        0 => n - 1 - c.below(n.min(3)),
        1 => c.below(n.min(3)),
        _ => c.below(n),
    };
    for step in 0..c.range(1, 12) {
        let (i, j, k) = (at(c, rows), at(c, cols), at(c, rows));
        c.note("at", &(i, j, k));
        let v = c.draw(u64::from(u32::MAX)) as u32;
        match c.below(6) {
            0 => {
                d[(i, j)] = v;
                model[i * cols + j] = v;
            }
            1 => {
                MatrixMut::from(&mut d)[(i, j)] = v;
                model[i * cols + j] = v;
            }
            2 => {
                d.swap_rows(i, k);
                for t in 0..cols {
                    model.swap(i * cols + t, k * cols + t);
                }
            }
            3 => ck_eq!(d[(i, j)], model[i * cols + j], "element ({i}, {j}) after step {step}"),
            4 => ck_eq!(MatrixRef::from(&d)[(i, j)], model[i * cols + j], "element ({i}, {j}) through a view after step {step}"),
            _ => ck_eq!(MatrixMut::from(&mut d)[(i, j)], model[i * cols + j], "element ({i}, {j}) through a mutable view after step {step}"),
        }
    }
    let view = MatrixRef::from(&d);
    for i in 0..rows {
        for j in 0..cols {
            ck!(d[(i, j)] == model[i * cols + j] && view[(i, j)] == model[i * cols + j], "element ({i}, {j}) at the end");
        }
    }
    ck!(d == DynMatrix::new(model, rows, cols), "== at the end");
    Ok(())
}

// ---------------------------------------------------------------- views and dynamic matrices

/// Elements of different sizes and alignments, with and without owned memory.
trait El: Clone + PartialEq + std::fmt::Debug {
    fn of(v: i64) -> Self;
}
impl El for i64 {
    fn of(v: i64) -> i64 {
        v
    }
}
impl El for [u8; 3] {
    fn of(v: i64) -> [u8; 3] {
        [v as u8, (v >> 8) as u8, !v as u8]
    }
}
impl El for String {
    fn of(v: i64) -> String {
        v.to_string()
    }
}
impl El for (u8, u64) {
    fn of(v: i64) -> (u8, u64) {
        (v as u8, !v as u64)
    }
}

fn views<const A: usize, const B: usize>(c: &mut Case) -> R {
    match c.weighted(&[6, 2, 2, 2]) {
        0 => views_of::<i64, A, B>(c),
        1 => views_of::<[u8; 3], A, B>(c),
        2 => views_of::<String, A, B>(c),
        _ => views_of::<(u8, u64), A, B>(c),
    }
}

fn views_of<T: El, const A: usize, const B: usize>(c: &mut Case) -> R {
    let base: [[T; B]; A] = std::array::from_fn(|i| std::array::from_fn(|j| T::of((100 * i + j) as i64)));
    let mut model: Vec<Vec<T>> = base.iter().map(|r| r.to_vec()).collect();
    let mut s = Matrix::new(base.clone());
    let mut d = if c.coin() {
        DynMatrix::from(base)
    } else {
        DynMatrix::new(base.into_iter().flatten().collect(), A, B)
    };
    // anywhere, past the end included
    let far = |c: &mut Case, n: usize, other: usize| match c.weighted(&[12, 3, 2]) {
        0 => c.below(n.max(1)),
        1 => n + c.below(3),
        _ => {
            // multiples that come back into range if the arithmetic wraps
            let wrap = (usize::MAX / other.max(1)).saturating_add(1);
            let low = c.below(n + 1).wrapping_add(c.range(1, 3) << c.range(8, 63)).max(n);
            c.pick(&[usize::MAX, usize::MAX / 2 + 1, usize::MAX - 1, wrap, wrap.saturating_add(1), usize::MAX / 2 + 2, low, low])
        }
    };
    c.note("shape", &(A, B));
    ck_eq!((d.rows(), d.cols()), (A, B), "shape of DynMatrix");
    let mut writes = 0;
    for step in 0..c.range(1, 12) {
        match c.draw(3) {
            0 | 1 => {
                let (i, j) = (far(c, A, B), far(c, B, A));
                if i < A && j < B {
                    let v = T::of(c.irange(-99, 99));
                    c.note("write", &(i, j, &v));
                    model[i][j] = v.clone();
                    writes += 1;
                    if c.coin() {
                        s[(i, j)] = v.clone();
                        d[(i, j)] = v;
                    } else {
                        c.label("write-through-view");
                        MatrixMut::from(&mut s)[(i, j)] = v.clone();
                        MatrixMut::from(&mut d)[(i, j)] = v;
                    }
                } else {
                    c.note("out of range", &(i, j));
                    c.label("out-of-range");
                    ck!(may_panic(|| s[(i, j)].clone()).is_none(), "Matrix[({i}, {j})] of {A} by {B} returned");
                    ck!(may_panic(|| d[(i, j)].clone()).is_none(), "DynMatrix[({i}, {j})] of {A} by {B} returned");
                    ck!(may_panic(|| (&mut s[(i, j)]).clone()).is_none(), "Matrix[({i}, {j})] (mut) of {A} by {B} returned");
                    ck!(may_panic(|| (&mut d[(i, j)]).clone()).is_none(), "DynMatrix[({i}, {j})] (mut) of {A} by {B} returned");
                    ck!(may_panic(|| { let _ = &MatrixRef::from(&s)[(i, j)]; }).is_none(), "MatrixRef[({i}, {j})] of {A} by {B} returned");
                    ck!(may_panic(|| { let _ = &MatrixRef::from(&d)[(i, j)]; }).is_none(), "MatrixRef[({i}, {j})] of a DynMatrix of {A} by {B} returned");
                    ck!(may_panic(|| { let _ = &MatrixMut::from(&mut s)[(i, j)]; }).is_none(), "MatrixMut[({i}, {j})] of {A} by {B} returned");
                    ck!(may_panic(|| { let _ = &MatrixMut::from(&mut d)[(i, j)]; }).is_none(), "MatrixMut[({i}, {j})] of a DynMatrix of {A} by {B} returned");
                    ck!(may_panic(|| { let _ = &mut MatrixMut::from(&mut s)[(i, j)]; }).is_none(), "MatrixMut[({i}, {j})] (mut) of {A} by {B} returned");
                    ck!(may_panic(|| { let _ = &mut MatrixMut::from(&mut d)[(i, j)]; }).is_none(), "MatrixMut[({i}, {j})] (mut) of a DynMatrix of {A} by {B} returned");
                }
            }
            _ => {
                let i = far(c, A, B);
                let j = match c.draw(3) {
                    0 => i,
                    1 => i.saturating_add(1),
                    _ => far(c, A, B),
                };
                c.note("swap rows", &(i, j));
                if i < A && j < A {
                    model.swap(i, j);
                    s.swap_rows(i, j);
                    d.swap_rows(i, j);
                    writes += 1;
                } else {
                    // a row that does not exist
                    c.label("swap-out-of-range");
                    ck!(may_panic(|| s.clone().swap_rows(i, j)).is_none(), "Matrix::swap_rows({i}, {j}) of {A} by {B} returned");
                    ck!(may_panic(|| d.clone().swap_rows(i, j)).is_none(), "DynMatrix::swap_rows({i}, {j}) of {A} by {B} returned");
                }
            }
        }
        let (rs, rd) = (MatrixRef::from(&s), MatrixRef::from(&d));
        let copy = rs;
        for i in 0..A {
            for j in 0..B {
                let w = model[i][j].clone();
                ck!(s[(i, j)] == w, "Matrix at ({i}, {j}) after step {step}");
                ck!(d[(i, j)] == w, "DynMatrix at ({i}, {j}) after step {step}");
                ck!(rs[(i, j)] == w, "MatrixRef at ({i}, {j}) after step {step}");
                ck!(copy[(i, j)] == w, "copy of MatrixRef at ({i}, {j}) after step {step}");
                ck!(rd[(i, j)] == w, "MatrixRef of DynMatrix at ({i}, {j}) after step {step}");
            }
        }
        let (ms, md) = (MatrixMut::from(&mut s), MatrixMut::from(&mut d));
        for i in 0..A {
            for j in 0..B {
                ck!(ms[(i, j)] == model[i][j], "MatrixMut at ({i}, {j})");
                ck!(md[(i, j)] == model[i][j], "MatrixMut of DynMatrix at ({i}, {j})");
            }
        }
    }
    c.nontrivial(writes > 1 && A * B > 1);
    ck!(d.clone() == d && d == DynMatrix::new(model.iter().flatten().cloned().collect(), A, B), "== of DynMatrix");
    ck_eq!(d == DynMatrix::new(model.iter().flatten().cloned().collect(), B, A), A == B, "== of DynMatrix and its reshaping");
    if A * B > 0 {
        let at = (c.below(A), c.below(B));
        let (mut s2, mut d2) = (s.clone(), d.clone());
        let v = T::of(c.range(1_000, 9_000) as i64);
        s2[at] = v.clone();
        d2[at] = v;
        let same = s2[at] == model[at.0][at.1];
        ck_eq!((s == s2, d == d2), (same, same), "== with the element at {at:?} replaced");
        ck!(d[at] == model[at.0][at.1] && s[at] == model[at.0][at.1], "writing to a copy changed the original");
    }
    Ok(())
}

fn dyn_new(c: &mut Case) -> R {
    let n = c.below(30);
    let (r, k) = match c.draw(3) {
        0 => {
            let r = c.range(1, 6);
            (r, n / r)
        }
        1 => (c.below(8), c.below(8)),
        2 => (1usize << c.range(32, 63), 1usize << c.range(32, 63)),
        _ => (usize::MAX, c.below(3)),
    };
    c.note("length", &n);
    c.note("shape", &(r, k));
    let fits = r.checked_mul(k) == Some(n);
    c.nontrivial(n > 0);
    c.label_if(fits, "matching");
    c.label_if(r.checked_mul(k).is_none(), "product-overflows");
    let got = may_panic(|| DynMatrix::new((0..n).collect::<Vec<_>>(), r, k));
    match got {
        Some(d) => {
            ck!(fits, "DynMatrix::new accepted {n} elements as {r} by {k}");
            for i in 0..r.min(n) {
                for j in 0..k {
                    ck_eq!(d[(i, j)], i * k + j, "element ({i}, {j})");
                }
            }
        }
        None => ck!(!fits, "DynMatrix::new rejected {n} elements as {r} by {k}"),
    }
    Ok(())
}

// ---------------------------------------------------------------- Complex

fn cx(c: &mut Case) -> (Q, Q) {
    // zero parts are special enough to be rarer than in matrices
    let mut part = || if c.chance(200) { Q::new(c.irange(-40, 40).into(), c.range(1, 5) as i128) } else { q(c) };
    (part(), part())
}

fn complex_exact(c: &mut Case) -> R {
    let (a, b, d) = (cx(c), cx(c), cx(c));
    let s = q(c);
    c.note("a", &a);
    c.note("b", &b);
    c.note("s", &s);
    c.nontrivial(!a.0.is_zero() && !a.1.is_zero() && !b.0.is_zero() && !b.1.is_zero());
    let z = |p: (Q, Q)| Complex::new(p.0, p.1);
    let is = |what: &str, g: Complex<Q>, re: Q, im: Q| -> R {
        ck!(*g.real() == re && *g.imag() == im, "{what}: {:?} + {:?}i, expected {re:?} + {im:?}i", g.real(), g.imag());
        Ok(())
    };
    is("+", z(a) + z(b), a.0 + b.0, a.1 + b.1)?;
    is("-", z(a) - z(b), a.0 - b.0, a.1 - b.1)?;
    is("*", z(a) * z(b), a.0 * b.0 - a.1 * b.1, a.0 * b.1 + a.1 * b.0)?;
    is("+ real", z(a) + s, a.0 + s, a.1)?;
    is("- real", z(a) - s, a.0 - s, a.1)?;
    is("* real", z(a) * s, a.0 * s, a.1 * s)?;
    if !s.is_zero() {
        is("/ real", z(a) / s, a.0 / s, a.1 / s)?;
    }
    let nb = b.0 * b.0 + b.1 * b.1;
    if !nb.is_zero() {
        let g = must("/", || z(a) / z(b))?;
        is("/", g.clone(), (a.0 * b.0 + a.1 * b.1) / nb, (a.1 * b.0 - a.0 * b.1) / nb)?;
        ck!(g * z(b) == z(a), "(a / b) * b != a");
    }
    ck_eq!(z(a).abs_squared(), a.0 * a.0 + a.1 * a.1, "abs_squared");
    is("from_real", Complex::from_real(s), s, Q::int(0))?;
    is("from_imag", Complex::from_imag(s), Q::int(0), s)?;
    is("zero", Complex::zero(), Q::int(0), Q::int(0))?;
    is("one", Complex::one(), Q::int(1), Q::int(0))?;
    ck_eq!(z(a).is_zero(), a.0.is_zero() && a.1.is_zero(), "is_zero");
    ck_eq!(z(a).is_one(), a.0.is_one() && a.1.is_zero(), "is_one");
    ck_eq!(z(a) == z(b), a == b, "==");
    ck!(z(a) * (z(b) + z(d)) == z(a) * z(b) + z(a) * z(d), "distributivity");
    ck!(z(a) * z(b) == z(b) * z(a), "commutativity");
    ck!((z(a) * z(b)) * z(d) == z(a) * (z(b) * z(d)), "associativity");
    let i = Complex::from_imag(Q::int(1));
    ck!(i.clone() * i == Complex::from_real(Q::int(-1)), "i * i != -1");
    Ok(())
}

/// Integer parts: the quotient's parts are the whole quotients of the exact numerators.
fn complex_int(c: &mut Case) -> R {
    let m = c.pick(&[3i64, 12, 1000]);
    let mut p = || (i128::from(c.irange(-m, m)), i128::from(c.irange(-m, m)));
    let (q, b, a) = (p(), p(), p());
    let nb = b.0 * b.0 + b.1 * b.1;
    c.note("a", &a);
    c.note("b", &b);
    c.note("q", &q);
    if nb == 0 {
        c.label("division-by-zero");
        ck!(may_panic(|| Complex::new(a.0, a.1) / Complex::new(0, 0)).is_none(), "dividing integers by 0 + 0i returned");
        ck!(may_panic(|| Complex::new(a.0, a.1) / 0).is_none(), "dividing integers by 0 returned");
        return Ok(());
    }
    c.nontrivial(q.0 != 0 && q.1 != 0 && b.0 != 0 && b.1 != 0);
    let is = |what: &str, g: Complex<i128>, w: (i128, i128)| -> R {
        ck!((*g.real(), *g.imag()) == w, "{what} of integers: {:?}, expected {w:?}", (g.real(), g.imag()));
        Ok(())
    };
    let z = |p: (i128, i128)| Complex::new(p.0, p.1);
    is("/", must("/", || z(a) / z(b))?, ((a.0 * b.0 + a.1 * b.1) / nb, (a.1 * b.0 - a.0 * b.1) / nb))?;
    let prod = (q.0 * b.0 - q.1 * b.1, q.0 * b.1 + q.1 * b.0);
    is("*", z(q) * z(b), prod)?;
    is("(q * b) / b", must("/", || z(prod) / z(b))?, q)?;
    if b.0 != 0 {
        is("/ real", must("/", || z(a) / b.0)?, (a.0 / b.0, a.1 / b.0))?;
    }
    // and with parts that own storage
    let big = |p: (i128, i128)| Complex::new(BigInt::from(p.0), BigInt::from(p.1));
    let g = must("/", || big(prod) / big(b))?;
    ck!(*g.real() == BigInt::from(q.0) && *g.imag() == BigInt::from(q.1), "(q * b) / b of BigInts: {:?} {:?}", g.real(), g.imag());
    Ok(())
}

fn complex_float(c: &mut Case) -> R {
    fn f(c: &mut Case) -> f64 {
        let m = 1.0 + c.draw(1 << 20) as f64 / (1u64 << 20) as f64;
        let s = if c.coin() { -1.0 } else { 1.0 };
        m * s
    }
    let big = c.coin();
    let e = if big { c.irange(-900, 900) } else { c.irange(-40, 40) };
    let k = (e as f64).exp2();
    let (re, im, s) = (f(c) * k, f(c) * k, f(c) * k);
    c.note("a", &(re, im));
    c.note("s", &s);
    c.nontrivial(true);
    c.label_if(big, "wide-exponents");
    let near = |g: f64, w: f64| (g - w).abs() <= 1e-12 * w.abs();
    let g = Complex::new(re, im) / s;
    ck!(near(*g.real(), re / s) && near(*g.imag(), im / s), "({re:e} + {im:e}i) / {s:e} = {:e} + {:e}i", g.real(), g.imag());
    let g = Complex::new(re, im) * s.signum();
    ck!(*g.real() == re * s.signum() && *g.imag() == im * s.signum(), "times a unit");
    if e.abs() <= 100 {
        let a = Complex::new(re, im).abs();
        ck!(near(a, re.hypot(im)), "abs of {re:e} + {im:e}i is {a:e}");
        let (x, y) = (f(c), f(c));
        c.note("b", &(x, y));
        let g = (Complex::new(re, im) / Complex::new(x, y)) * Complex::new(x, y);
        let scale = re.abs().max(im.abs());
        ck!((g.real() - re).abs() <= 1e-9 * scale && (g.imag() - im).abs() <= 1e-9 * scale, "(a / b) * b = {:e} + {:e}i", g.real(), g.imag());
    }
    Ok(())
}

fn main() {
    harness_main(vec![
        Prop {
            id: "C25",
            subs: vec![
                sub("elementwise", 2_700_000, |c| dims!(c, vec_ops_int)),
                sub("elementwise-owned", 180_000, |c| by!(c, vec_ops_big::<1>, vec_ops_big::<2>, vec_ops_big::<3>, vec_ops_big::<5>, vec_ops_big::<7>, vec_ops_big::<14>)),
                sub("checked", 2_800_000, |c| dims!(c, vec_checked)),
                sub("reductions", 370_000, |c| by!(c, vec_reduce::<1>, vec_reduce::<2>, vec_reduce::<3>, vec_reduce::<4>, vec_reduce::<6>, vec_reduce::<11>, vec_reduce::<0>)),
                sub("reductions-long", 2_900_000, |c| dims!(c, vec_reduce_int)),
                sub("access", 570_000, |c| dims!(c, vec_access)),
                sub("axes-and-cross", 1_000_000, vec_named),
                sub("long", 60_000, |c| {
                    by!(c, vec_ops_int::<64>, vec_ops_int::<100>, vec_ops_int::<128>, vec_ops_int::<256>, vec_ops_int::<257>, vec_ops_int::<300>,
                        vec_checked::<64>, vec_checked::<128>, vec_checked::<255>, vec_checked::<257>,
                        vec_reduce_int::<64>, vec_reduce_int::<128>, vec_reduce_int::<256>, vec_reduce_int::<300>, vec_access::<128>, vec_access::<256>, vec_access::<257>)
                }),
            ],
        },
        Prop {
            id: "C26",
            subs: vec![
                sub("algebra", 210_000, |c| {
                    by!(c, mat_algebra::<1, 1, 1>, mat_algebra::<2, 2, 2>, mat_algebra::<3, 3, 3>, mat_algebra::<1, 3, 2>, mat_algebra::<2, 3, 1>,
                        mat_algebra::<3, 1, 3>, mat_algebra::<4, 2, 3>, mat_algebra::<2, 5, 4>, mat_algebra::<1, 4, 1>, mat_algebra::<4, 4, 4>, mat_algebra::<3, 7, 2>, mat_algebra::<6, 2, 6>)
                }),
                sub("block-matrices", 270_000, mat_blocks),
                sub("larger", 1_000_000, |c| {
                    by!(c, mat_wide::<8, 8, 8>, mat_wide::<9, 2, 9>, mat_wide::<1, 17, 1>, mat_wide::<17, 1, 16>, mat_wide::<5, 33, 2>, mat_wide::<12, 5, 3>, mat_wide::<2, 3, 65>,
                        mat_wide::<3, 4, 5>, mat_wide::<7, 6, 5>, mat_wide::<1, 2, 1>, mat_wide::<0, 2, 3>, mat_wide::<3, 2, 0>)
                }),
                sub("long", 20_000, |c| {
                    by!(c, mat_wide::<1, 300, 1>, mat_wide::<260, 1, 2>, mat_wide::<2, 1, 257>, mat_wide::<2, 256, 3>, mat_wide::<16, 16, 16>, mat_wide::<3, 100, 17>, mat_wide::<32, 32, 5>, mat_wide::<64, 3, 64>, mat_wide::<128, 2, 1>)
                }),
                sub("huge", 10_000, |c| {
                    by!(c, mat_huge::<66, 66>, mat_huge::<65, 129>, mat_huge::<130, 70>, mat_huge::<101, 101>, mat_huge::<200, 34>, mat_huge::<260, 257>)
                }),
                sub("shapes", 1_000_000, |c| {
                    by!(c,
                        mat_wide::<1, 1, 1>, mat_wide::<1, 2, 4>, mat_wide::<1, 3, 2>, mat_wide::<1, 4, 5>, mat_wide::<1, 5, 3>, mat_wide::<1, 6, 1>, mat_wide::<1, 7, 4>,
                        mat_wide::<2, 1, 3>, mat_wide::<2, 2, 1>, mat_wide::<2, 3, 4>, mat_wide::<2, 4, 2>, mat_wide::<2, 5, 5>, mat_wide::<2, 6, 3>, mat_wide::<2, 7, 1>,
                        mat_wide::<3, 1, 5>, mat_wide::<3, 2, 3>, mat_wide::<3, 3, 1>, mat_wide::<3, 4, 4>, mat_wide::<3, 5, 2>, mat_wide::<3, 6, 5>, mat_wide::<3, 7, 3>,
                        mat_wide::<4, 1, 2>, mat_wide::<4, 2, 5>, mat_wide::<4, 3, 3>, mat_wide::<4, 4, 1>, mat_wide::<4, 5, 4>, mat_wide::<4, 6, 2>, mat_wide::<4, 7, 5>,
                        mat_wide::<5, 1, 4>, mat_wide::<5, 2, 2>, mat_wide::<5, 3, 5>, mat_wide::<5, 4, 3>, mat_wide::<5, 5, 1>, mat_wide::<5, 6, 4>, mat_wide::<5, 7, 2>,
                        mat_wide::<6, 1, 1>, mat_wide::<6, 2, 4>, mat_wide::<6, 3, 2>, mat_wide::<6, 4, 5>, mat_wide::<6, 5, 3>, mat_wide::<6, 6, 1>, mat_wide::<6, 7, 4>)
                }),
            ],
        },
        Prop {
            id: "C27",
            subs: vec![
                sub("row-reduction", 310_000, |c| {
                    by!(c, mat_reduce::<1, 1>, mat_reduce::<2, 2>, mat_reduce::<3, 3>, mat_reduce::<4, 4>, mat_reduce::<2, 3>, mat_reduce::<3, 2>,
                        mat_reduce::<4, 2>, mat_reduce::<2, 5>, mat_reduce::<5, 3>, mat_reduce::<1, 4>, mat_reduce::<4, 1>, mat_reduce::<3, 5>, mat_reduce::<5, 5>, mat_reduce::<6, 6>, mat_reduce::<7, 3>, mat_reduce::<3, 8>, mat_reduce::<1, 1>, mat_reduce::<0, 3>, mat_reduce::<3, 0>, mat_reduce::<0, 0>)
                }),
                sub("determinant", 150_000, |c| by!(c, mat_det::<0>, mat_det::<1>, mat_det::<2>, mat_det::<3>, mat_det::<4>, mat_det::<5>, mat_det::<6>)),
                sub("diagonal", 2_000, |c| by!(c, diag_huge::<1>, diag_huge::<18>, diag_huge::<33>, diag_huge::<66>, diag_huge::<130>, diag_huge::<258>)),
                sub("large-reduction", 150_000, |c| {
                    by!(c, large_reduce::<3, 3>, large_reduce::<8, 8>, large_reduce::<9, 4>, large_reduce::<4, 11>, large_reduce::<12, 12>, large_reduce::<7, 17>, large_reduce::<20, 6>, large_reduce::<16, 16>, large_reduce::<2, 33>, large_reduce::<33, 2>)
                }),
                sub("large-determinant", 150_000, |c| by!(c, large_det::<3>, large_det::<4>, large_det::<7>, large_det::<8>, large_det::<9>, large_det::<10>, large_det::<12>, large_det::<17>)),
            ],
        },
        Prop {
            id: "C28",
            subs: vec![
                sub("views", 170_000, |c| {
                    by!(c, views::<1, 1>, views::<2, 2>, views::<3, 3>, views::<2, 3>, views::<3, 2>, views::<1, 5>, views::<5, 1>, views::<4, 6>, views::<0, 3>, views::<3, 0>, views::<7, 2>, views::<2, 9>)
                }),
                sub("construction", 2_800_000, dyn_new),
                sub("large", 12_000, dyn_large),
            ],
        },
        Prop { id: "C29", subs: vec![sub("exact", 940_000, complex_exact), sub("integers", 3_600_000, complex_int), sub("float", 6_000_000, complex_float)] },
    ])
}
