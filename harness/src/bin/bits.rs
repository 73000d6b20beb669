//! Bit-slice arithmetic of numeric-bits against reference naturals and a bit-vector model.
use numeric_bits::algos::*;
use numeric_bits::bit_slice::{BitLike, BitSliceExt, BitVecExt};
use numeric_bits::utils::{arr_to_int, const_reverse, int_to_arr, IntSlice};
use numeric_verif::refint::Z;
use numeric_verif::{ck, ck_eq, gen, harness_main, may_panic, must, sub, Case, Prop, R};
use std::fmt::Debug;

trait Limb: BitLike + Debug + 'static {
    fn w() -> usize {
        Self::BIT_LEN
    }
    fn to(self) -> u128;
    fn of(v: u128) -> Self;
}
macro_rules! limb { ($($t:ty),*) => {$(impl Limb for $t {
    fn to(self) -> u128 { self as u128 }
    fn of(v: u128) -> Self { v as $t }
})*} }
limb!(u8, u16, u32, u64, usize, u128);

fn z<L: Limb>(v: &[L]) -> Z {
    let mut o = Z::zero();
    for (i, x) in v.iter().enumerate() {
        o = o.add(&Z::from_u128(x.to()).shl(i * L::w()));
    }
    o
}
fn from_z<L: Limb>(v: &Z, n: usize) -> Vec<L> {
    (0..n)
        .map(|i| L::of(v.shr(i * L::w()).mod2(L::w()).low_u128()))
        .collect()
}
fn canonical<L: Limb>(v: &[L]) -> bool {
    v.len() <= 1 || v.last().is_some_and(|l| l.to() != 0)
}

fn elem<L: Limb>(c: &mut Case) -> L {
    let m = if L::w() == 128 { u128::MAX } else { (1u128 << L::w()) - 1 };
    match c.weighted(&[4, 4, 3, 3, 2, 8]) {
        0 => L::of(0),
        1 => L::of(u128::from(c.draw(9))),
        2 => L::of(m),
        3 => L::of(m - u128::from(c.draw(4))),
        4 => {
            let b = c.below(L::w());
            L::of((1u128 << b).wrapping_sub(u128::from(c.draw(1))))
        }
        _ => {
            let v = gen::p128(c);
            L::of(v & m)
        }
    }
}
fn slice<L: Limb>(c: &mut Case) -> Vec<L> {
    // a slice without elements is a way of writing zero
    let n = match c.weighted(&[12, 16, 12, 8, 2, 1]) {
        5 => 0,
        0 => 1,
        1 => 2,
        2 => 3,
        3 => c.range(4, 7),
        _ => {
            if c.chance(30) {
                match c.below(40) {
                    39 => c.range(500, 1100),
                    38 | 37 => c.range(240, 300),
                    _ => c.range(25, 70),
                }
            } else {
                c.range(8, 24)
            }
        }
    };
    if n > 2 && c.chance(60) {
        // runs of equal elements, with edges anywhere
        let mut v = Vec::new();
        while v.len() < n {
            let e: L = elem(c);
            for _ in 0..c.range(1, n) {
                v.push(e);
            }
        }
        v.truncate(n);
        return v;
    }
    (0..n).map(|_| elem(c)).collect()
}
fn slice_near<L: Limb>(c: &mut Case, a: &[L]) -> Vec<L> {
    if a.is_empty() {
        return slice(c);
    }
    match c.weighted(&[10, 2, 3, 2, 2]) {
        0 => slice(c),
        1 => a.to_vec(),
        2 => {
            let mut v = a.to_vec();
            let i = c.below(v.len());
            v[i] = elem(c);
            v
        }
        3 => {
            let mut v = a.to_vec();
            for _ in 0..c.range(1, 3) {
                v.push(L::of(0));
            }
            v
        }
        _ => {
            let n = c.range(1, a.len());
            a[..n].to_vec()
        }
    }
}
fn shift<L: Limb>(c: &mut Case, len: usize) -> usize {
    let bl = len * L::w();
    match c.weighted(&[5, 4, 3, 2, 2, 2]) {
        0 => c.below(bl.max(1)),
        1 => c.below(L::w()),
        2 => c.below(len + 1) * L::w(),
        3 => bl,
        4 => bl.saturating_sub(1),
        _ => c.range(bl, bl + 3 * L::w()),
    }
}

/// A container of our own: it implements only what the interface requires.
#[derive(Debug)]
struct Own<L: Limb> {
    before: L,
    data: Box<[L]>,
    after: L,
}
impl<L: Limb> Own<L> {
    fn new(v: &[L]) -> Self {
        Own { before: L::of(0x55), data: v.into(), after: L::of(0xaa) }
    }
}
impl<L: Limb> BitSliceExt for Own<L> {
    type Bit = L;
    fn slice(&self) -> &[L] {
        &self.data
    }
    fn slice_mut(&mut self) -> &mut [L] {
        &mut self.data
    }
}
impl<L: Limb> Drop for Own<L> {
    fn drop(&mut self) {
        assert!(self.before.to() == 0x55 && self.after.to() == 0xaa, "write outside the slice");
    }
}

/// Run `$body` with the slice as a `Vec`, as a plain slice, as an array or as a container of our
/// own, so that every implementor of the bit-slice interface is used.
macro_rules! as_form {
    ($c:expr, $v:expr, $s:ident => $body:expr) => {{
        let v = &$v;
        match ($c.below(4), v.len()) {
            (3, _) => { let own = Own::new(&v[..]); let $s = &own; $body }
            (1, _) => { let $s: &[_] = &v[..]; $body }
            (2, 1) => { let $s: &[_; 1] = v[..].try_into().unwrap(); $body }
            (2, 2) => { let $s: &[_; 2] = v[..].try_into().unwrap(); $body }
            (2, 3) => { let $s: &[_; 3] = v[..].try_into().unwrap(); $body }
            (2, 4) => { let $s: &[_; 4] = v[..].try_into().unwrap(); $body }
            _ => { let $s = v; $body }
        }
    }};
}
macro_rules! as_form_mut {
    ($c:expr, $v:expr, $s:ident => $body:expr) => {{
        let v = &mut $v;
        match ($c.below(4), v.len()) {
            (3, _) => {
                let mut own = Own::new(&v[..]);
                let out = { let $s = &mut own; $body };
                v.copy_from_slice(&own.data);
                out
            }
            (1, _) => { let $s: &mut [_] = &mut v[..]; $body }
            (2, 1) => { let $s: &mut [_; 1] = (&mut v[..]).try_into().unwrap(); $body }
            (2, 2) => { let $s: &mut [_; 2] = (&mut v[..]).try_into().unwrap(); $body }
            (2, 3) => { let $s: &mut [_; 3] = (&mut v[..]).try_into().unwrap(); $body }
            (2, 4) => { let $s: &mut [_; 4] = (&mut v[..]).try_into().unwrap(); $body }
            _ => { let $s = v; $body }
        }
    }};
}
macro_rules! by_width {
    ($c:expr, $f:ident) => {
        match $c.below(6) {
            0 => $f::<u8>($c),
            1 => $f::<u64>($c),
            2 => $f::<usize>($c),
            3 => $f::<u16>($c),
            4 => $f::<u32>($c),
            _ => $f::<u128>($c),
        }
    };
}

fn classify<L: Limb>(c: &mut Case, a: &[L], b: &[L]) {
    c.nontrivial(a.len() > 1 || b.len() > 1);
    c.label_if(a.len() < b.len(), "right longer");
    c.label_if(a.len() > b.len(), "left longer");
    c.label_if(z(a) < z(b), "left smaller");
    c.label_if(z(a) == z(b), "equal values");
}

// ------------------------------------------------ growing forms

fn grow_arith<L: Limb>(c: &mut Case) -> R {
    let a: Vec<L> = slice(c);
    let b = slice_near(c, &a);
    c.note("a", &a);
    c.note("b", &b);
    classify(c, &a, &b);
    let (za, zb) = (z(&a), z(&b));
    match c.below(8) {
        0 => {
            let r = as_form!(c, a, a => ElementAdd::add(a, &b));
            ck_eq!(z(&r), za.add(&zb), "element add");
            ck!(canonical(&r), "element add leaves high zero elements: {r:?}");
        }
        1 => {
            let (r, neg) = as_form!(c, a, a => ElementSub::sub(a, &b));
            ck_eq!((z(&r), neg), (za.sub(&zb).abs(), za < zb), "element sub (magnitude, negative)");
            ck!(canonical(&r), "element sub leaves high zero elements: {r:?}");
        }
        2 => {
            let r = as_form!(c, a, a => ElementMul::mul(a, &b));
            ck_eq!(z(&r), za.mul(&zb), "element mul");
            ck!(canonical(&r), "element mul leaves high zero elements: {r:?}");
        }
        3 => {
            let r = as_form!(c, a, a => BitwiseAdd::add(a, &b));
            ck_eq!(z(&r), za.add(&zb), "bitwise add");
        }
        4 => {
            let (r, neg) = as_form!(c, a, a => BitwiseSub::sub(a, &b));
            ck_eq!((z(&r), neg), (za.sub(&zb).abs(), za < zb), "bitwise sub (magnitude, negative)");
        }
        5 => {
            let most = if c.chance(3) { 2800 / L::w() } else if c.chance(40) { 640 / L::w() } else { 4 };
            let n = a.len().min(most);
            let m = b.len().min(most);
            let (a, b) = (a[..n].to_vec(), b[..m].to_vec());
            let r = as_form!(c, a, a => BitwiseMul::mul(a, &b));
            ck_eq!(z(&r), z(&a).mul(&z(&b)), "bitwise mul");
        }
        6 => {
            let o = as_form!(c, a, a => ElementCmp::cmp(a, &b));
            ck_eq!(o, za.cmp(&zb), "cmp");
            let o = as_form!(c, b, b => ElementCmp::cmp(&a, b));
            ck_eq!(o, za.cmp(&zb), "cmp");
        }
        _ => {
            let r = as_form!(c, a, a => ElementBitand::bitand(a, &b));
            ck_eq!(z(&r), za.and(&zb), "and");
            let r = as_form!(c, a, a => ElementBitor::bitor(a, &b));
            ck_eq!(z(&r), za.or(&zb), "or");
            let r = as_form!(c, a, a => ElementBitxor::bitxor(a, &b));
            ck_eq!(z(&r), za.xor(&zb), "xor");
        }
    }
    Ok(())
}

/// Both operands lie in the same storage: the same slice twice, or parts that overlap or touch.
fn grow_aliased<L: Limb>(c: &mut Case) -> R {
    let s: Vec<L> = slice(c);
    let n = s.len();
    let part = |c: &mut Case| {
        let from = c.range(0, n);
        (from, c.range(from, n))
    };
    let (p, q) = match c.weighted(&[6, 2, 2, 2, 4]) {
        0 => ((0, n), (0, n)),
        1 => ((0, n), (0, c.range(0, n))),
        2 => ((0, c.range(0, n)), (0, n)),
        3 => {
            let p = part(c);
            (p, p)
        }
        _ => (part(c), part(c)),
    };
    let (a, b): (&[L], &[L]) = (&s[p.0..p.1], &s[q.0..q.1]);
    c.note("storage", &s);
    c.note("parts", &(p, q));
    classify(c, a, b);
    c.label_if(p == q, "the same slice twice");
    let (za, zb) = (z(a), z(b));
    match c.below(9) {
        0 => {
            ck_eq!(z(&ElementAdd::add(a, b)), za.add(&zb), "element add");
            ck_eq!(z(&BitwiseAdd::add(a, b)), za.add(&zb), "bitwise add");
        }
        1 => {
            let (r, neg) = ElementSub::sub(a, b);
            ck_eq!((z(&r), neg), (za.sub(&zb).abs(), za < zb), "element sub (magnitude, negative)");
            let (r, neg) = BitwiseSub::sub(a, b);
            ck_eq!((z(&r), neg), (za.sub(&zb).abs(), za < zb), "bitwise sub (magnitude, negative)");
        }
        2..=5 => {
            ck_eq!(z(&ElementMul::mul(a, b)), za.mul(&zb), "element mul");
            if q == (0, n) && (a.len() + n) * L::w() <= 512 {
                ck_eq!(z(&BitwiseMul::mul(a, &s)), za.mul(&zb), "bitwise mul");
            }
        }
        6 => {
            if zb.is_zero() {
                ck!(may_panic(|| BitwiseDiv::div_long(a, b)).is_none(), "dividing by zero returned a value");
            } else if a.len() * L::w() <= 1024 {
                let (d, r) = BitwiseDiv::div_long(a, b);
                ck_eq!((z(&d), z(&r)), za.divrem(&zb), "long division (quotient, remainder)");
            }
        }
        7 => ck_eq!(ElementCmp::cmp(a, b), za.cmp(&zb), "cmp"),
        _ => {
            ck_eq!(z(&ElementBitand::bitand(a, b)), za.and(&zb), "and");
            ck_eq!(z(&ElementBitor::bitor(a, b)), za.or(&zb), "or");
            ck_eq!(z(&ElementBitxor::bitxor(a, b)), za.xor(&zb), "xor");
        }
    }
    Ok(())
}

fn grow_shift<L: Limb>(c: &mut Case) -> R {
    let a: Vec<L> = slice(c);
    let s = shift::<L>(c, a.len());
    c.note("a", &a);
    c.note("shift", &s);
    c.nontrivial(z(&a) != Z::zero() && s > 0);
    c.label_if(s >= a.len() * L::w(), "shift >= bit length");
    c.label_if(s % L::w() == 0, "whole elements");
    let za = z(&a);
    match c.below(4) {
        0 => {
            let r = as_form!(c, a, a => ElementShl::shl(a, s));
            ck_eq!(z(&r), za.shl(s), "element shl");
            ck!(canonical(&r), "element shl leaves high zero elements: {r:?}");
        }
        1 => {
            let r = as_form!(c, a, a => ElementShr::shr(a, s));
            ck_eq!(z(&r), za.shr(s), "element shr");
            ck!(canonical(&r), "element shr leaves high zero elements: {r:?}");
        }
        2 => {
            let r = as_form!(c, a, a => BitwiseShl::shl(a, s));
            ck_eq!(z(&r), za.shl(s), "bitwise shl");
        }
        _ => {
            let r = as_form!(c, a, a => BitwiseShr::shr(a, s));
            ck_eq!(z(&r), za.shr(s), "bitwise shr");
        }
    }
    Ok(())
}

fn div_operands<L: Limb>(c: &mut Case, max: usize) -> (Vec<L>, Vec<L>) {
    let mut a: Vec<L> = slice(c);
    a.truncate(max);
    let mut b = slice_near(c, &a);
    b.truncate(max);
    if c.chance(80) {
        // dividend constructed as q*b + r with r around 0 and b
        let q: Vec<L> = slice(c);
        let r = Z::from_i128(i128::from(c.draw(2)) - 1);
        let few = c.range(1, 4);
        let v = z(&q[..q.len().min(few)]).mul(&z(&b)).add(&r);
        if !v.neg {
            a = from_z(&v, max.min(v.bits() / L::w() + 1));
        }
    }
    (a, b)
}

fn grow_div<L: Limb>(c: &mut Case) -> R {
    let (a, b) = {
        let max = if c.chance(50) { 26 } else { 8 };
        div_operands::<L>(c, max)
    };
    c.note("a", &a);
    c.note("b", &b);
    classify(c, &a, &b);
    let (za, zb) = (z(&a), z(&b));
    if zb.is_zero() {
        c.label("zero divisor");
        ck!(
            may_panic(|| BitwiseDiv::div_long(&a, &b)).is_none(),
            "dividing by zero returned a value"
        );
        return Ok(());
    }
    let (q, r) = as_form!(c, a, a => BitwiseDiv::div_long(a, &b));
    let (wq, wr) = za.divrem(&zb);
    ck_eq!((z(&q), z(&r)), (wq, wr), "long division (quotient, remainder)");
    Ok(())
}

fn grow_div_element(c: &mut Case) -> R {
    fn go<L: Limb>(c: &mut Case, qmax: u64) -> R {
        let b: Vec<L> = {
            let mut v = slice(c);
            v.truncate(4);
            v
        };
        let q = Z::from_u128(u128::from(c.draw(qmax)));
        let rem = z(&b).sub(&Z::one());
        let r = match c.below(4) {
            0 => Z::zero(),
            1 => Z::one(),
            2 => rem.clone(),
            _ => rem.shr(c.below(9)),
        };
        let r = if r.neg || r > rem { Z::zero() } else { r };
        let v = z(&b).mul(&q).add(&r);
        let extra = c.below(3);
        let a: Vec<L> = from_z(&v, v.bits().div_ceil(L::w()).max(1) + extra);
        c.note("a", &a);
        c.note("b", &b);
        classify(c, &a, &b);
        if z(&b).is_zero() {
            ck!(
                may_panic(|| ElementDiv::div_long(&a, &b)).is_none(),
                "dividing by zero returned a value"
            );
            return Ok(());
        }
        let (gq, gr) = as_form!(c, a, a => ElementDiv::div_long(a, &b));
        ck_eq!((z(&gq), z(&gr)), v.divrem(&z(&b)), "element long division");
        ck!(canonical(&gq) && canonical(&gr), "high zero elements: {gq:?} {gr:?}");
        Ok(())
    }
    match c.below(3) {
        0 => go::<u8>(c, 1 << 20),
        1 => go::<u16>(c, 2000),
        _ => go::<u64>(c, 40),
    }
}

// ------------------------------------------------ in-place forms

fn inplace_arith<L: Limb>(c: &mut Case) -> R {
    let a: Vec<L> = slice(c);
    let b = slice_near(c, &a);
    c.note("a", &a);
    c.note("b", &b);
    classify(c, &a, &b);
    let (za, zb) = (z(&a), z(&b));
    let bits = a.len() * L::w();
    let op = c.below(4);
    let (name, exact) = match op {
        0 => ("add", za.add(&zb)),
        1 => ("sub", za.sub(&zb)),
        2 => ("mul", za.mul(&zb)),
        _ => ("bitwise add in place", za.add(&zb)),
    };
    c.note("op", name);
    let wrapped = exact.mod2(bits);
    let over = exact.neg || exact.bits() > bits;
    c.label_if(over, "overflows");
    c.label_if(!over, "fits");
    if op == 3 {
        let mut l = a.clone();
        as_form_mut!(c, l, l => { BitwiseAdd::add_in_place(l, &b); });
        ck_eq!(z(&l), wrapped, "bitwise add in place");
        return Ok(());
    }
    // overflowing
    let mut l = a.clone();
    let flag = match op {
        0 => as_form_mut!(c, l, l => ElementAdd::add_overflowing(l, &b).1),
        1 => as_form_mut!(c, l, l => ElementSub::sub_overflowing(l, &b).1),
        _ => as_form_mut!(c, l, l => ElementMul::mul_overflowing(l, &b).1),
    };
    ck_eq!((z(&l), flag), (wrapped.clone(), over), "{name}_overflowing (value, overflowed)");
    ck_eq!(l.len(), a.len(), "{name}_overflowing changed the length");
    // wrapping
    let mut l = a.clone();
    match op {
        0 => as_form_mut!(c, l, l => { ElementAdd::add_wrapping(l, &b); }),
        1 => as_form_mut!(c, l, l => { ElementSub::sub_wrapping(l, &b); }),
        _ => as_form_mut!(c, l, l => { ElementMul::mul_wrapping(l, &b); }),
    };
    ck_eq!(z(&l), wrapped, "{name}_wrapping");
    // checked
    let mut l = a.clone();
    let some = match op {
        0 => as_form_mut!(c, l, l => ElementAdd::add_checked(l, &b).is_some()),
        1 => as_form_mut!(c, l, l => ElementSub::sub_checked(l, &b).is_some()),
        _ => as_form_mut!(c, l, l => ElementMul::mul_checked(l, &b).is_some()),
    };
    ck_eq!(some, !over, "{name}_checked returned a value");
    if some {
        ck_eq!(z(&l), exact, "{name}_checked");
    }
    Ok(())
}

fn inplace_shift<L: Limb>(c: &mut Case) -> R {
    let a: Vec<L> = slice(c);
    let s = shift::<L>(c, a.len());
    let s = if c.chance(30) { far(c, s) } else { s };
    c.note("a", &a);
    c.note("shift", &s);
    let bits = a.len() * L::w();
    c.nontrivial(z(&a) != Z::zero() && s > 0);
    c.label_if(!bits.is_power_of_two(), "bit length not a power of two");
    c.label_if(s >= bits, "shift >= bit length");
    let za = z(&a);
    let mut l = a.clone();
    let left = c.coin();
    let some = if left {
        as_form_mut!(c, l, l => ElementShl::shl_checked(l, s).is_some())
    } else {
        as_form_mut!(c, l, l => ElementShr::shr_checked(l, s).is_some())
    };
    ck_eq!(some, s <= bits, "checked shift by {s} of {bits} bits returned a value");
    if some {
        let want = if left { za.shl(s).mod2(bits) } else { za.shr(s) };
        ck_eq!(z(&l), want, "checked shift (left: {left})");
    }
    {
        let eff = s % bits.max(1);
        let mut l = a.clone();
        if left {
            as_form_mut!(c, l, l => { ElementShl::shl_wrapping(l, s); });
        } else {
            as_form_mut!(c, l, l => { ElementShr::shr_wrapping(l, s); });
        }
        let want = if left { za.shl(eff).mod2(bits) } else { za.shr(eff) };
        ck_eq!(z(&l), want, "wrapping shift (left: {left})");
    }
    let mut l = a.clone();
    as_form_mut!(c, l, l => ElementNot::not(l));
    ck_eq!(z(&l), Z::pow2(bits).sub(&Z::one()).sub(&za), "not");
    Ok(())
}

fn inplace_div<L: Limb>(c: &mut Case) -> R {
    let (mut a, b) = {
        let max = if c.chance(50) { 26 } else { 6 };
        div_operands::<L>(c, max)
    };
    if a.is_empty() {
        // the scratch buffer is as long as the dividend and needs room for a bit
        a.push(L::of(0));
    }
    c.note("a", &a);
    c.note("b", &b);
    classify(c, &a, &b);
    let (za, zb) = (z(&a), z(&b));
    let zero = vec![L::of(0); a.len()];
    if zb.is_zero() {
        c.label("zero divisor");
        let (mut l, mut s) = (a.clone(), zero.clone());
        ck!(BitwiseDiv::div_long_checked(&mut l, &b, &mut s).is_none(), "checked division by zero returned a value");
        let (mut l, mut s) = (a.clone(), zero.clone());
        ck!(BitwiseDiv::rem_long_checked(&mut l, &b, &mut s).is_none(), "checked remainder by zero returned a value");
        let (mut l, mut s) = (a.clone(), zero.clone());
        ck!(may_panic(|| { BitwiseDiv::div_long_wrapping(&mut l, &b, &mut s); }).is_none(), "division by zero returned a value");
        let (mut l, mut s) = (a, zero);
        ck!(may_panic(|| { BitwiseDiv::rem_long_overflowing(&mut l, &b, &mut s); }).is_none(), "remainder by zero returned a value");
        return Ok(());
    }
    let (wq, wr) = za.divrem(&zb);
    let (mut l, mut s) = (a.clone(), zero.clone());
    match c.below(3) {
        0 => {
            let f = as_form_mut!(c, l, l => BitwiseDiv::div_long_overflowing(l, &b, &mut s).1);
            ck!(!f, "division overflowed");
        }
        1 => {
            let f = as_form_mut!(c, l, l => BitwiseDiv::div_long_checked(l, &b, &mut s).is_some());
            ck!(f, "checked division gave None");
        }
        _ => as_form_mut!(c, l, l => { BitwiseDiv::div_long_wrapping(l, &b, &mut s); }),
    }
    ck_eq!((z(&l), z(&s)), (wq, wr.clone()), "in-place division (quotient, scratch remainder)");
    let (mut l, mut s) = (a.clone(), zero);
    match c.below(3) {
        0 => {
            let f = as_form_mut!(c, l, l => BitwiseDiv::rem_long_overflowing(l, &b, &mut s).1);
            ck!(!f, "remainder overflowed");
        }
        1 => {
            let f = as_form_mut!(c, l, l => BitwiseDiv::rem_long_checked(l, &b, &mut s).is_some());
            ck!(f, "checked remainder gave None");
        }
        _ => as_form_mut!(c, l, l => { BitwiseDiv::rem_long_wrapping(l, &b, &mut s); }),
    }
    ck_eq!(z(&l), wr, "in-place remainder");
    Ok(())
}

// ------------------------------------------------ access model

/// An index that agrees with `at` in its lower bits only
fn far(c: &mut Case, at: usize) -> usize {
    match c.below(8) {
        0 => usize::MAX - at,
        1 => usize::MAX,
        _ => at.wrapping_add(c.range(1, 3) << c.range(10, 63)).max(1 << 20),
    }
}

fn access<L: Limb>(c: &mut Case) -> R {
    // model: one bool per bit
    let w = L::w();
    let start: Vec<L> = {
        let n = if c.chance(60) { c.range(5, 40) } else { c.range(0, 4) };
        (0..n).map(|_| elem(c)).collect()
    };
    c.note("start", &start);
    let mut v = start.clone();
    let mut m: Vec<bool> = bits_of(&start);
    let steps = c.range(1, 12);
    c.nontrivial(steps >= 3);
    for _ in 0..steps {
        let len = v.len();
        let idx = match c.weighted(&[6, 2, 2, 2]) {
            0 => c.below(len.max(1)),
            1 => len,
            3 => len.saturating_sub(1),
            _ if c.chance(40) => c.range(0, len + 70),
            _ => c.range(0, len + 4),
        };
        let bidx = match c.weighted(&[6, 2, 2, 2]) {
            0 => c.below((len * w).max(1)),
            1 => len * w,
            2 => (len * w).saturating_sub(1),
            _ if c.chance(40) => c.range(0, (len + 70) * w),
            _ => c.range(0, len * w + 3 * w),
        };
        let val: L = if len > 0 && c.chance(50) { v[c.below(len)] } else { elem(c) };
        let b = c.coin();
        let vb = bits_of(&[val]);
        let op = c.below(15);
        // accesses that cannot grow anything may be far out of range
        let (idx, bidx) = if op > 2 && c.chance(30) {
            c.label("far out of range");
            (far(c, idx), far(c, bidx))
        } else {
            (idx, bidx)
        };
        if c.noting() {
            c.note("op", &(op, idx, bidx, val, b));
        }
        let set_elem = |m: &mut Vec<bool>| m[idx * w..(idx + 1) * w].copy_from_slice(&vb);
        match op {
            0 => {
                BitVecExt::extend(&mut v, idx, val);
                while m.len() < idx * w {
                    m.extend(&vb);
                }
            }
            1 => {
                v.set_push(idx, val);
                if m.len() < (idx + 1) * w {
                    m.resize((idx + 1) * w, false);
                }
                set_elem(&mut m);
                c.label_if(idx >= len, "set_push grows");
            }
            2 => {
                v.set_bit_push(bidx, b);
                let need = (bidx / w + 1) * w;
                if m.len() < need {
                    m.resize(need, false);
                }
                m[bidx] = b;
                c.label_if(bidx >= len * w, "set_bit_push grows");
            }
            3 => {
                let r = may_panic(|| as_form_mut!(c, v, v => BitSliceExt::set(v, idx, val)));
                ck_eq!(r.is_some(), idx < len, "set({idx}) on {len} elements returned");
                if idx < len {
                    set_elem(&mut m);
                }
            }
            4 => {
                let r = as_form_mut!(c, v, v => BitSliceExt::set_opt(v, idx, val));
                ck_eq!(r.is_some(), idx < len, "set_opt");
                if idx < len {
                    set_elem(&mut m);
                }
            }
            5 => {
                as_form_mut!(c, v, v => BitSliceExt::set_ignore(v, idx, val));
                if idx < len {
                    set_elem(&mut m);
                }
            }
            6 => {
                let r = may_panic(|| as_form_mut!(c, v, v => BitSliceExt::set_bit(v, bidx, b)));
                ck_eq!(r.is_some(), bidx < len * w, "set_bit({bidx}) returned");
                if bidx < len * w {
                    m[bidx] = b;
                }
            }
            7 => {
                let r = as_form_mut!(c, v, v => BitSliceExt::set_bit_opt(v, bidx, b));
                ck_eq!(r.is_some(), bidx < len * w, "set_bit_opt");
                if bidx < len * w {
                    m[bidx] = b;
                }
            }
            8 => {
                as_form_mut!(c, v, v => BitSliceExt::set_bit_ignore(v, bidx, b));
                if bidx < len * w {
                    m[bidx] = b;
                }
            }
            9 => {
                let r = may_panic(|| as_form!(c, v, v => BitSliceExt::get(v, idx)));
                ck_eq!(r.map(|r| bits_of(&[r])), (idx < len).then(|| m[idx * w..(idx + 1) * w].to_vec()), "get");
            }
            10 => {
                let r = as_form!(c, v, v => BitSliceExt::get_opt(v, idx));
                ck_eq!(r.map(|r| bits_of(&[r])), (idx < len).then(|| m[idx * w..(idx + 1) * w].to_vec()), "get_opt");
            }
            11 => {
                let r = may_panic(|| as_form!(c, v, v => BitSliceExt::get_bit(v, bidx)));
                ck_eq!(r, m.get(bidx).copied(), "get_bit");
            }
            12 => {
                let r = as_form!(c, v, v => BitSliceExt::get_bit_opt(v, bidx));
                ck_eq!(r, m.get(bidx).copied(), "get_bit_opt");
            }
            13 => {
                let (l, bl, e) = as_form!(c, v, v => (BitSliceExt::len(v), BitSliceExt::bit_len(v), BitSliceExt::is_empty(v)));
                ck_eq!((l, bl, e), (m.len() / w, m.len(), m.is_empty()), "(len, bit_len, is_empty)");
            }
            _ => {
                // walk an iterator part of the way, looking at its length at every step
                let mut it = v.iter_bits();
                let stop = c.range(0, m.len() + 2);
                for k in 0..stop {
                    let left = m.len().saturating_sub(k);
                    let len = must("len of a bit iterator", || it.len())?;
                    ck_eq!(len, left, "length of the bit iterator after {k} steps");
                    ck_eq!(it.size_hint(), (left, Some(left)), "size hint after {k} steps");
                    ck_eq!(it.next(), m.get(k).copied(), "bit {k} of the iterator");
                }
                let rest = m.get(stop..).map(<[bool]>::to_vec).unwrap_or_default();
                match c.below(8) {
                    0 => ck_eq!(it.count(), rest.len(), "count of the rest"),
                    1 => ck_eq!(it.last(), rest.last().copied(), "last of the rest"),
                    2 => {
                        let mut at = 0;
                        for _ in 0..c.range(1, 5) {
                            let k = c.range(0, rest.len() + 2);
                            ck_eq!(it.nth(k), rest.get(at + k).copied(), "nth({k}) of the bit iterator, {at} bits on");
                            at = (at + k + 1).min(rest.len());
                            ck_eq!(it.len(), rest.len() - at, "length after nth");
                        }
                        ck_eq!(it.collect::<Vec<_>>(), rest[at..].to_vec(), "what nth left");
                    }
                    3 => {
                        let k = c.range(1, 3 * w);
                        ck_eq!(it.step_by(k).collect::<Vec<_>>(), rest.iter().copied().step_by(k).collect::<Vec<_>>(), "every {k}th bit");
                    }
                    4 => {
                        ck_eq!(it.by_ref().position(|b| b), rest.iter().position(|b| *b), "position of the first one");
                        let at = rest.iter().position(|b| *b).map_or(rest.len(), |k| k + 1);
                        ck_eq!(it.collect::<Vec<_>>(), rest[at..].to_vec(), "what position left");
                    }
                    5 => {
                        let mut seen = Vec::new();
                        it.for_each(|b| seen.push(b));
                        ck_eq!(seen, rest, "for_each over the rest");
                    }
                    _ => ck_eq!(it.collect::<Vec<_>>(), rest, "rest of the iterator"),
                }
                c.label("iterates");
            }
        }
        ck_eq!(bits_of(&v), m, "contents after the operation");
    }
    Ok(())
}

/// Vectors of thousands of elements, where a count kept in a narrower type no longer fits
fn long_access<L: Limb>(c: &mut Case) -> R {
    let w = L::w();
    let n = match c.below(3) {
        0 => ((1usize << c.range(8, 17)) + c.range(0, 8)).saturating_sub(4),
        1 => ((1usize << c.range(12, 20)) / w + c.range(0, 8)).saturating_sub(4),
        _ => c.range(100, 70_000),
    };
    let seed = c.range(0, 255) as u128;
    let mut v: Vec<L> = (0..n).map(|k| L::of((k as u128).wrapping_mul(0x9e37_79b9_7f4a_7c15).wrapping_add(seed) >> 7)).collect();
    c.note("elements", &n);
    c.nontrivial(true);
    c.label_if(n * w > 65_536, "more than 65536 bits");
    let mut m = v.clone();
    let steps = c.range(1, 8);
    for _ in 0..steps {
        let len = m.len();
        let idx = match c.below(4) {
            0 => len - 1,
            1 => len + c.range(0, 300),
            2 => c.below(300),
            _ => c.below(len),
        };
        let bidx = idx * w + c.below(w);
        let val: L = elem(c);
        let b = c.coin();
        let op = c.below(9);
        if c.noting() {
            c.note("op", &(op, idx, bidx, val, b));
        }
        let bit = |m: &[L], k: usize| m.get(k / w).map(|x| x.to() >> (k % w) & 1 == 1);
        let put = |m: &mut [L], k: usize| {
            if let Some(x) = m.get_mut(k / w) {
                *x = L::of(x.to() & !(1 << (k % w)) | u128::from(b) << (k % w));
            }
        };
        match op {
            0 => {
                BitVecExt::extend(&mut v, idx, val);
                m.resize(len.max(idx), val);
            }
            1 => {
                v.set_push(idx, val);
                m.resize(len.max(idx + 1), L::of(0));
                m[idx] = val;
            }
            2 => {
                v.set_bit_push(bidx, b);
                m.resize(len.max(idx + 1), L::of(0));
                put(&mut m, bidx);
            }
            3 => {
                v.set_ignore(idx, val);
                if idx < len {
                    m[idx] = val;
                }
            }
            4 => {
                v.set_bit_ignore(bidx, b);
                put(&mut m, bidx);
            }
            5 => {
                ck_eq!(v.get_bit_opt(bidx), bit(&m, bidx), "get_bit_opt({bidx}) on {len} elements");
                ck!(BitSliceExt::get_opt(&v[..], idx) == m[..].iter().nth(idx).copied(), "get_opt({idx}) on {len} elements");
            }
            6 => {
                let got = (BitSliceExt::len(&v[..]), v.bit_len(), BitSliceExt::is_empty(&v[..]));
                ck_eq!(got, (len, len * w, false), "(len, bit_len, is_empty)");
            }
            7 => {
                let mut it = v.iter_bits();
                ck_eq!(it.len(), len * w, "length of the bit iterator");
                ck_eq!(it.nth(bidx), bit(&m, bidx), "bit {bidx} of the iterator");
                ck_eq!(it.next(), bit(&m, bidx + 1), "bit {} of the iterator", bidx + 1);
                let left = (len * w).saturating_sub(bidx + 2);
                ck_eq!(it.len(), left, "length of the bit iterator near its end");
            }
            _ => {
                let k = v.iter_bits().filter(|b| *b).count();
                let want: usize = m.iter().map(|x| x.to().count_ones() as usize).sum();
                ck_eq!(k, want, "set bits the iterator goes over");
            }
        }
        ck_eq!(v.len(), m.len(), "elements after the operation");
        let bad = v.iter().zip(&m).position(|(a, b)| a.to() != b.to());
        ck_eq!(bad, None, "first element that is wrong after the operation");
    }
    Ok(())
}

fn bits_of<L: Limb>(v: &[L]) -> Vec<bool> {
    v.iter()
        .flat_map(|x| {
            let x = x.to();
            (0..L::w()).map(move |i| x >> i & 1 == 1)
        })
        .collect()
}

// ------------------------------------------------ limb utilities

fn util_shrink<L: Limb>(c: &mut Case) -> R {
    let mut v: Vec<L> = slice(c);
    let zeros = if c.chance(40) { c.range(4, 40) } else { c.below(4) };
    for _ in 0..zeros {
        v.push(L::of(0));
    }
    if c.chance(8) {
        v.fill(L::of(0));
    }
    c.note("v", &v);
    c.nontrivial(v.len() > 1);
    let mut want = v.clone();
    while want.len() > 1 && want.last().unwrap().to() == 0 {
        want.pop();
    }
    ck_eq!(IntSlice::shrink(v.clone()), want, "shrink of a vector");
    ck_eq!(IntSlice::shrink(&v[..]), &want[..], "shrink of a slice");
    Ok(())
}

fn util_int_to_arr(c: &mut Case) -> R {
    let x = gen::p128(c);
    c.note("x", &x);
    c.nontrivial(x > 0xff);
    macro_rules! t {
        ($T:ty, $U:ty, $($N:literal),*) => {$({
            let got = int_to_arr::<$T, $U, $N>(x as $T);
            let zx = Z::from_u128((x as $T) as u128);
            let want: Vec<$U> = from_z(&zx, $N);
            ck_eq!(got.to_vec(), want, "int_to_arr::<{}, {}, {}>", stringify!($T), stringify!($U), $N);
        })*};
    }
    macro_rules! from { ($T:ty) => {
        t!($T, u8, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 33);
        t!($T, u16, 1, 2, 3, 4, 7, 8, 9, 20);
        t!($T, u32, 1, 2, 3, 4, 5, 10);
        t!($T, u64, 1, 2, 3);
        t!($T, usize, 1, 2, 3);
        t!($T, u128, 1, 2);
    }; }
    match c.below(6) {
        0 => { from!(u8); }
        1 => { from!(u16); }
        2 => { from!(u32); }
        3 => { from!(u64); }
        4 => { from!(usize); }
        _ => { from!(u128); }
    }
    Ok(())
}

fn util_arr_to_int(c: &mut Case) -> R {
    fn one<L: Limb>(c: &mut Case, v: &[L]) -> R
    where
        u8: numeric_traits::cast::FromChecked<L>, u16: numeric_traits::cast::FromChecked<L>,
        u32: numeric_traits::cast::FromChecked<L>, u64: numeric_traits::cast::FromChecked<L>,
        u128: numeric_traits::cast::FromChecked<L>, usize: numeric_traits::cast::FromChecked<L>,
        i8: numeric_traits::cast::FromChecked<L>, i16: numeric_traits::cast::FromChecked<L>,
        i32: numeric_traits::cast::FromChecked<L>, i64: numeric_traits::cast::FromChecked<L>,
        i128: numeric_traits::cast::FromChecked<L>, isize: numeric_traits::cast::FromChecked<L>,
    {
        let x = z(v);
        macro_rules! to { ($($U:ty),*) => {$({
            let got = arr_to_int::<L, $U>(v);
            let want = x.to_u128().and_then(|x| <$U>::try_from(x).ok());
            ck_eq!(got, want, "arr_to_int::<_, {}>", stringify!($U));
        })*}; }
        to!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
        c.nontrivial(v.len() > 1);
        Ok(())
    }
    fn go<L: Limb>(c: &mut Case) -> Vec<L> {
        let v = match c.below(3) {
            0 => slice(c),
            1 => {
                let x = gen::p128(c);
                let n = 128 / L::w() + c.below(3);
                from_z(&Z::from_u128(x), n)
            }
            _ => {
                let k = c.pick(&[7usize, 8, 15, 16, 31, 32, 63, 64, 127, 128]);
                let x = Z::pow2(k).add(&Z::from_i128(i128::from(c.draw(2)) - 1));
                let n = x.bits().div_ceil(L::w()).max(1) + c.below(3);
                from_z(&x, n)
            }
        };
        c.note("v", &v);
        v
    }
    match c.below(6) {
        0 => { let v = go::<u8>(c); one(c, &v) }
        1 => { let v = go::<u16>(c); one(c, &v) }
        2 => { let v = go::<u32>(c); one(c, &v) }
        3 => { let v = go::<u64>(c); one(c, &v) }
        4 => { let v = go::<usize>(c); one(c, &v) }
        _ => { let v = go::<u128>(c); one(c, &v) }
    }
}

fn util_reverse(c: &mut Case) -> R {
    let v = c.bytes(130);
    c.note("v", &v);
    c.nontrivial(true);
    macro_rules! t { ($($N:literal),*) => {$({
        let a: [u8; $N] = v[..$N].try_into().unwrap();
        let mut w = a.to_vec();
        w.reverse();
        ck_eq!(const_reverse(a).to_vec(), w, "const_reverse");
    })*}; }
    t!(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 20, 21, 24, 31, 32, 33, 47, 63, 64, 65, 100, 127, 128, 129, 130);
    Ok(())
}

fn main() {
    harness_main(vec![
        Prop {
            id: "C15",
            subs: vec![
                sub("arithmetic", 1_000_000, |c| by_width!(c, grow_arith)),
                sub("aliased", 400_000, |c| by_width!(c, grow_aliased)),
                sub("shifts", 2_400_000, |c| by_width!(c, grow_shift)),
                sub("division", 300_000, |c| by_width!(c, grow_div)),
                sub("element-division", 300_000, grow_div_element),
            ],
        },
        Prop {
            id: "C16",
            subs: vec![
                sub("arithmetic", 1_300_000, |c| by_width!(c, inplace_arith)),
                sub("shifts", 2_200_000, |c| by_width!(c, inplace_shift)),
                sub("division", 410_000, |c| by_width!(c, inplace_div)),
            ],
        },
        Prop {
            id: "C17",
            subs: vec![
                sub("histories", 1_900_000, |c| by_width!(c, access)),
                sub("long", 4_000, |c| by_width!(c, long_access)),
            ],
        },
        Prop {
            id: "C18",
            subs: vec![
                sub("shrink", 2_000_000, |c| by_width!(c, util_shrink)),
                sub("int-to-limbs", 560_000, util_int_to_arr),
                sub("limbs-to-int", 3_000_000, util_arr_to_int),
                sub("reverse", 400_000, util_reverse),
            ],
        },
    ])
}
