//! Fixed-length iterators against the standard library's iterators over the same data.
//!
//! Every closure records its calls, and owned elements count their drops, so a wrong order, a
//! skipped, repeated or extra visit, a lost early exit or a double drop shows up even when the
//! final value happens to be right.
use numeric_static_iter::{codegen, zip_all, FromStaticIter, IntoStaticIter, StaticIter, StaticRangeTo};
use numeric_traits::identity::{One, Zero};
use numeric_verif::{ck, ck_eq, harness_main, may_panic, must, sub, Case, Prop, R};
use std::cell::RefCell;
use std::ops::{Add, ControlFlow, Mul};

// ---------------------------------------------------------------- tracked elements

thread_local! {
    /// Per token: how often it was dropped.
    static DROPS: RefCell<Vec<u32>> = const { RefCell::new(Vec::new()) };
}

/// An element that owns heap memory and counts its drops.
#[derive(Debug)]
struct Tok {
    id: usize,
    val: Box<i64>,
}

fn reset() {
    DROPS.with(|d| d.borrow_mut().clear());
}

fn tok(v: i64) -> Tok {
    DROPS.with(|d| {
        let mut d = d.borrow_mut();
        d.push(0);
        Tok { id: d.len() - 1, val: Box::new(v) }
    })
}

impl Drop for Tok {
    fn drop(&mut self) {
        let _ = DROPS.try_with(|d| d.borrow_mut()[self.id] += 1);
    }
}

/// Every token so far was dropped exactly once (`all`) or at most once.
fn drops(all: bool, what: &str) -> R {
    DROPS.with(|d| {
        let d = d.borrow();
        for (id, n) in d.iter().enumerate() {
            if *n > 1 || all && *n == 0 {
                return Err(format!("{what}: element {id} of {} was dropped {n} times", d.len()));
            }
        }
        Ok(())
    })
}

fn vals(c: &mut Case, n: usize) -> Vec<i64> {
    let wide = c.coin();
    (0..n)
        .map(|_| if wide { c.irange(-1_000_000, 1_000_000) } else { c.irange(-3, 3) })
        .collect()
}

fn arr<const N: usize>(v: &[i64]) -> [i64; N] {
    std::array::from_fn(|i| v[i])
}

fn toks<const N: usize>(v: &[i64]) -> [Tok; N] {
    std::array::from_fn(|i| tok(v[i]))
}

/// Either one of the elements' positions or none (`n`), for early exits.
fn stop(c: &mut Case, n: usize) -> usize {
    c.range(0, n)
}

// ---------------------------------------------------------------- adapters

fn adapters<const N: usize>(c: &mut Case) -> R {
    reset();
    let (a, b) = (vals(c, N), vals(c, N));
    let k = c.irange(-5, 5);
    c.note("a", &a);
    c.note("b", &b);
    let kind = c.below(11);
    c.note("pipeline", &kind);
    c.nontrivial(N > 1);
    let mut log: Vec<(usize, i64)> = Vec::new();
    let mut want_log: Vec<(usize, i64)> = Vec::new();
    // an order-sensitive closure with state
    let f = |x: i64, log: &mut Vec<(usize, i64)>| {
        log.push((log.len(), x));
        x.wrapping_mul(31).wrapping_add(k).wrapping_add(log.len() as i64)
    };
    let (got, want): (Vec<i64>, Vec<i64>) = match kind {
        0 => {
            let want = a.iter().map(|x| f(*x, &mut want_log)).collect();
            let got: [i64; N] = arr::<N>(&a).into_static_iter().map(|x| f(x, &mut log)).collect();
            (got.to_vec(), want)
        }
        1 => {
            let want = a.iter().map(|x| f(*x, &mut want_log)).collect();
            let src = arr::<N>(&a);
            let got: [i64; N] = (&src).into_static_iter().map(|x| f(*x, &mut log)).collect();
            ck_eq!(src.to_vec(), a, "borrowed array changed");
            (got.to_vec(), want)
        }
        2 => {
            let want = a.iter().zip(&b).map(|(x, y)| f(x - 7 * y, &mut want_log)).collect();
            let other = arr::<N>(&b);
            let got: [i64; N] = arr::<N>(&a)
                .into_static_iter()
                .zip(&other)
                .map(|(x, y)| f(x - 7 * y, &mut log))
                .collect();
            (got.to_vec(), want)
        }
        3 => {
            let want = a.iter().enumerate().map(|(i, x)| f(x * 100 + i as i64, &mut want_log)).collect();
            let got: [i64; N] = arr::<N>(&a)
                .into_static_iter()
                .enumerate()
                .map(|(i, x)| f(x * 100 + i as i64, &mut log))
                .collect();
            (got.to_vec(), want)
        }
        4 => {
            // map, zip, enumerate, map: with owned elements on both sides
            let want = a.iter().zip(&b).enumerate().map(|(i, (x, y))| f(x * 3 + y * 5 + i as i64, &mut want_log)).collect();
            let got: [i64; N] = toks::<N>(&a)
                .into_static_iter()
                .map(|t| *t.val * 3)
                .zip(toks::<N>(&b))
                .enumerate()
                .map(|(i, (x, y))| f(x + *y.val * 5 + i as i64, &mut log))
                .collect();
            drops(true, "map/zip/enumerate over owned elements")?;
            (got.to_vec(), want)
        }
        5 => {
            let want = (0..N).map(|i| f(i as i64, &mut want_log)).collect();
            let got: [i64; N] = StaticRangeTo::<N>.into_static_iter().map(|i| f(i as i64, &mut log)).collect();
            (got.to_vec(), want)
        }
        6 => {
            // the elements themselves come through unchanged
            let got: [Tok; N] = toks::<N>(&a).into_static_iter().collect();
            let ids: Vec<usize> = got.iter().map(|t| t.id).collect();
            ck_eq!(ids, (0..N).collect::<Vec<_>>(), "order of collected elements");
            let v: Vec<i64> = got.iter().map(|t| *t.val).collect();
            DROPS.with(|d| d.borrow().iter().all(|n| *n == 0)).then_some(()).ok_or("an element was dropped while it is still held")?;
            drop(got);
            drops(true, "collect of owned elements")?;
            (v, a.clone())
        }
        7 => {
            let cc = vals(c, N);
            let want = (0..N).map(|i| f(a[i] - 2 * b[i] + 4 * cc[i], &mut want_log)).collect();
            let got: [i64; N] = zip_all([toks::<N>(&a), toks::<N>(&b), toks::<N>(&cc)])
                .map(|[x, y, z]| f(*x.val - 2 * *y.val + 4 * *z.val, &mut log))
                .collect();
            drops(true, "zip_all of owned arrays")?;
            (got.to_vec(), want)
        }
        8 => {
            let want = (0..N).map(|i| f(a[i] - 2 * b[i], &mut want_log)).collect();
            let other = arr::<N>(&b);
            let got: [i64; N] = zip_all((toks::<N>(&a), &other)).map(|(x, y)| f(*x.val - 2 * y, &mut log)).collect();
            drops(true, "zip_all of a pair")?;
            (got.to_vec(), want)
        }
        9 => {
            // zip_all of nothing, of one, and nested
            let empty: [[(); 0]; N] = zip_all([[(); N]; 0]).map(|_: [(); 0]| []).collect();
            ck_eq!(empty.len(), N, "zip_all of no arrays");
            let one: [i64; N] = zip_all([arr::<N>(&a)]).map(|[x]| f(x, &mut log)).collect();
            let want = a.iter().map(|x| f(*x, &mut want_log)).collect();
            (one.to_vec(), want)
        }
        _ => {
            let want = (0..N).map(|i| f(a[i] * 2 + b[i] * 3 + i as i64, &mut want_log)).collect();
            let got: [i64; N] = zip_all((
                zip_all([arr::<N>(&a), arr::<N>(&b)]).map(|[x, y]| x * 2 + y * 3),
                StaticRangeTo::<N>.into_static_iter(),
            ))
            .map(|(x, i)| f(x + i as i64, &mut log))
            .collect();
            (got.to_vec(), want)
        }
    };
    ck_eq!(got, want, "result of pipeline {kind}");
    ck_eq!(log, want_log, "calls made by pipeline {kind}");
    Ok(())
}

// ---------------------------------------------------------------- consumers

/// A non-commutative monoid in disguise, so the order of a sum or product is visible.
#[derive(Clone, Debug, PartialEq)]
struct Word(String);
impl Zero for Word {
    fn zero() -> Word {
        Word(String::new())
    }
    fn is_zero(&self) -> bool {
        self.0.is_empty()
    }
}
impl One for Word {
    fn one() -> Word {
        Word(String::new())
    }
    fn is_one(&self) -> bool {
        self.0.is_empty()
    }
}
impl Add for Word {
    type Output = Word;
    fn add(self, o: Word) -> Word {
        Word(self.0 + "+" + &o.0)
    }
}
impl Mul for Word {
    type Output = Word;
    fn mul(self, o: Word) -> Word {
        Word(self.0 + "*" + &o.0)
    }
}

fn consumers<const N: usize>(c: &mut Case) -> R {
    reset();
    let a = vals(c, N);
    c.note("a", &a);
    let at = stop(c, N);
    let kind = c.below(8);
    c.note("consumer", &kind);
    c.note("exit at", &at);
    c.nontrivial(N > 1);
    let mut seen: Vec<i64> = Vec::new();
    match kind {
        0 => {
            let got = arr::<N>(&a).into_static_iter().fold(String::new(), |s, x| {
                seen.push(x);
                format!("{s},{x}")
            });
            ck_eq!(got, a.iter().fold(String::new(), |s, x| format!("{s},{x}")), "fold");
            ck_eq!(seen, a, "elements visited by fold");
            // an owned fold drops every element once
            let got = toks::<N>(&a).into_static_iter().fold(0i64, |s, t| s.wrapping_mul(3).wrapping_add(*t.val));
            ck_eq!(got, a.iter().fold(0i64, |s, t| s.wrapping_mul(3).wrapping_add(*t)), "fold of owned elements");
            drops(true, "fold of owned elements")?;
        }
        1 => {
            let mut i = 0;
            let got: Result<String, (usize, i64)> = arr::<N>(&a).into_static_iter().try_fold(String::new(), |s, x| {
                seen.push(x);
                i += 1;
                if i - 1 == at {
                    Err((i - 1, x))
                } else {
                    Ok(format!("{s},{x}"))
                }
            });
            if at < N {
                c.label("early-exit");
                ck_eq!(got, Err((at, a[at])), "try_fold");
                ck_eq!(seen, a[..=at].to_vec(), "elements visited by try_fold");
            } else {
                ck_eq!(got, Ok(a.iter().fold(String::new(), |s, x| format!("{s},{x}"))), "try_fold");
                ck_eq!(seen, a, "elements visited by try_fold");
            }
        }
        2 | 3 => {
            let t = c.irange(-3, 3);
            c.note("threshold", &t);
            let want_any = a.iter().any(|x| *x > t);
            let want_all = a.iter().all(|x| *x > t);
            let got = if kind == 2 {
                arr::<N>(&a).into_static_iter().any(|x| {
                    seen.push(x);
                    x > t
                })
            } else {
                arr::<N>(&a).into_static_iter().all(|x| {
                    seen.push(x);
                    x > t
                })
            };
            ck_eq!(got, if kind == 2 { want_any } else { want_all }, "{}", if kind == 2 { "any" } else { "all" });
            let n = a.iter().position(|x| (*x > t) == (kind == 2)).map_or(N, |p| p + 1);
            c.label_if(n < N, "early-exit");
            ck_eq!(seen, a[..n].to_vec(), "elements visited by any/all");
        }
        4 => {
            ck_eq!(must("sum", || arr::<N>(&a).into_static_iter().sum())?, a.iter().sum::<i64>(), "sum");
            let small: Vec<i64> = a.iter().map(|x| x % 4).collect();
            ck_eq!(must("product", || arr::<N>(&small).into_static_iter().product())?, small.iter().product::<i64>(), "product");
        }
        5 => {
            let w: [Word; N] = std::array::from_fn(|i| Word(a[i].to_string()));
            let sum = a.iter().fold(String::new(), |s, x| format!("{s}+{x}"));
            ck_eq!(w.clone().into_static_iter().sum().0, sum, "order of sum");
            let prod = a.iter().fold(String::new(), |s, x| format!("{s}*{x}"));
            ck_eq!(w.into_static_iter().product().0, prod, "order of product");
        }
        6 => {
            // a panic in the middle of a collect: what was handed out is dropped, nothing twice
            c.label("panic");
            let got = may_panic(|| {
                let r: [Tok; N] = toks::<N>(&a)
                    .into_static_iter()
                    .enumerate()
                    .map(|(i, t)| {
                        if i == at {
                            panic!("requested");
                        }
                        t
                    })
                    .collect();
                r.iter().map(|t| *t.val).collect::<Vec<_>>()
            });
            if at < N {
                ck!(got.is_none(), "collect went on after a panic: {got:?}");
            } else {
                ck_eq!(got, Some(a.clone()), "collect");
            }
            drops(at >= N, "collect with a panicking closure")?;
        }
        _ => {
            let n = arr::<N>(&a).into_static_iter().zip(StaticRangeTo::<N>.into_static_iter()).fold(0usize, |k, (x, i)| {
                seen.push(x);
                k + usize::from(i == k)
            });
            ck_eq!(n, N, "zip with StaticRangeTo");
            ck_eq!(seen, a, "elements visited");
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- fallible collections

fn fallible<const N: usize>(c: &mut Case) -> R {
    reset();
    let a = vals(c, N);
    // a kind per element: 0 value, 1 inner failure, 2 outer failure; mostly values
    let quiet = c.coin();
    let kinds: Vec<usize> = (0..N).map(|_| if quiet { 0 } else { c.weighted(&[6, 1, 1]) }).collect();
    let first = kinds.iter().position(|k| *k != 0).unwrap_or(N);
    let kind = c.below(6);
    c.note("a", &a);
    c.note("kinds", &kinds);
    c.note("collection", &kind);
    c.nontrivial(N > 1);
    c.label_if(first < N, "early-exit");
    let mut seen = Vec::new();
    let upto = |n: usize| -> Vec<usize> { (0..n).collect() };
    match kind {
        0 => {
            let got: Option<[i64; N]> = arr::<N>(&a)
                .into_static_iter()
                .enumerate()
                .map(|(i, x)| {
                    seen.push(i);
                    (kinds[i] == 0).then_some(x)
                })
                .collect();
            ck_eq!(got.map(|g| g.to_vec()), (first == N).then(|| a.clone()), "collect into Option");
            ck_eq!(seen, upto((first + 1).min(N)), "elements visited");
        }
        1 => {
            let got: Result<[i64; N], (usize, i64)> = arr::<N>(&a)
                .into_static_iter()
                .enumerate()
                .map(|(i, x)| {
                    seen.push(i);
                    if kinds[i] == 0 {
                        Ok(x)
                    } else {
                        Err((i, x))
                    }
                })
                .collect();
            let want = if first == N { Ok(a.clone()) } else { Err((first, a[first])) };
            ck_eq!(got.map(|g| g.to_vec()), want, "collect into Result");
            ck_eq!(seen, upto((first + 1).min(N)), "elements visited");
        }
        2 => {
            let got: Option<Option<[i64; N]>> = arr::<N>(&a)
                .into_static_iter()
                .enumerate()
                .map(|(i, x)| {
                    seen.push(i);
                    match kinds[i] {
                        0 => Some(Some(x)),
                        1 => Some(None),
                        _ => None,
                    }
                })
                .collect();
            let want = if first == N {
                Some(Some(a.clone()))
            } else if kinds[first] == 1 {
                Some(None)
            } else {
                None
            };
            ck_eq!(got.map(|o| o.map(|g| g.to_vec())), want, "collect into Option<Option>");
            ck_eq!(seen, upto((first + 1).min(N)), "elements visited");
        }
        3 => {
            let got: Result<Option<[i64; N]>, usize> = arr::<N>(&a)
                .into_static_iter()
                .enumerate()
                .map(|(i, x)| {
                    seen.push(i);
                    match kinds[i] {
                        0 => Ok(Some(x)),
                        1 => Ok(None),
                        _ => Err(i),
                    }
                })
                .collect();
            let want = if first == N {
                Ok(Some(a.clone()))
            } else if kinds[first] == 1 {
                Ok(None)
            } else {
                Err(first)
            };
            ck_eq!(got.map(|o| o.map(|g| g.to_vec())), want, "collect into Result<Option>");
            ck_eq!(seen, upto((first + 1).min(N)), "elements visited");
        }
        4 => {
            let got: Option<Result<[i64; N], usize>> = arr::<N>(&a)
                .into_static_iter()
                .enumerate()
                .map(|(i, x)| {
                    seen.push(i);
                    match kinds[i] {
                        0 => Some(Ok(x)),
                        1 => Some(Err(i)),
                        _ => None,
                    }
                })
                .collect();
            let want = if first == N {
                Some(Ok(a.clone()))
            } else if kinds[first] == 1 {
                Some(Err(first))
            } else {
                None
            };
            ck_eq!(got.map(|o| o.map(|g| g.to_vec())), want, "collect into Option<Result>");
            ck_eq!(seen, upto((first + 1).min(N)), "elements visited");
        }
        _ => {
            // owned elements: nothing dropped twice, everything dropped once when nothing fails
            let got: Result<[Tok; N], Tok> = toks::<N>(&a)
                .into_static_iter()
                .enumerate()
                .map(|(i, t)| if kinds[i] == 0 { Ok(t) } else { Err(t) })
                .collect();
            match &got {
                Ok(g) => {
                    ck_eq!(g.iter().map(|t| (t.id, *t.val)).collect::<Vec<_>>(), a.iter().copied().enumerate().collect::<Vec<_>>(), "owned collect into Result");
                    ck!(first == N, "collect into Result ignored a failure");
                }
                Err(t) => ck_eq!((t.id, *t.val), (first, a[first]), "error of owned collect into Result"),
            }
            DROPS.with(|d| d.borrow().iter().take(first + 1).all(|n| *n == 0)).then_some(()).ok_or("an element was dropped while it is still held")?;
            drop(got);
            drops(first == N, "owned collect into Result")?;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- elements of every layout

thread_local! {
    static ZST: std::cell::Cell<(u32, u32)> = const { std::cell::Cell::new((0, 0)) };
}
/// No bytes, but a destructor: (made, dropped).
struct Nil;
fn nil() -> Nil {
    ZST.with(|z| z.set((z.get().0 + 1, z.get().1)));
    Nil
}
impl Drop for Nil {
    fn drop(&mut self) {
        let _ = ZST.try_with(|z| z.set((z.get().0, z.get().1 + 1)));
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
#[repr(align(32))]
struct Aligned(u8);

fn layouts<const N: usize>(c: &mut Case) -> R {
    reset();
    ZST.with(|z| z.set((0, 0)));
    let a = vals(c, N);
    let at = stop(c, N);
    let kind = c.below(7);
    c.note("a", &a);
    c.note("layout", &kind);
    c.note("exit at", &at);
    c.nontrivial(N > 1);
    let nils = || -> [Nil; N] { std::array::from_fn(|_| nil()) };
    let n = N as u32;
    let count = || ZST.with(std::cell::Cell::get);
    match kind {
        0 => {
            let got: [Nil; N] = nils().into_static_iter().map(|x| x).collect();
            ck_eq!(count(), (n, 0), "zero-sized elements (made, dropped) while the collected array is held");
            drop(got);
            ck_eq!(count(), (n, n), "zero-sized elements (made, dropped) after the array was dropped");
        }
        1 => {
            let k = nils().into_static_iter().zip(nils()).enumerate().fold(0, |s, (i, (x, y))| {
                drop((x, y));
                s + usize::from(s == i)
            });
            ck_eq!(k, N, "indices of zero-sized elements");
            ck_eq!(count(), (2 * n, 2 * n), "zero-sized elements (made, dropped) after fold");
        }
        2 => {
            let got: Result<[Nil; N], usize> = nils().into_static_iter().enumerate().map(|(i, x)| if i == at { Err(i) } else { Ok(x) }).collect();
            ck_eq!(got.is_ok(), at == N, "collect of zero-sized elements into Result");
            ck!(count().1 <= n, "zero-sized elements: {} made, {} dropped", count().0, count().1);
            drop(got);
            ck!(count().1 <= n && (at < N || count().1 == n), "zero-sized elements: {} made, {} dropped", count().0, count().1);
        }
        3 => {
            let x: [Aligned; N] = std::array::from_fn(|i| Aligned(a[i] as u8));
            let got: [(usize, Aligned, u8); N] = x.into_static_iter().enumerate().zip(&x).map(|((i, v), w)| (i, v, w.0)).collect();
            let want: Vec<_> = (0..N).map(|i| (i, Aligned(a[i] as u8), a[i] as u8)).collect();
            ck_eq!(got.to_vec(), want, "elements with a large alignment");
            ck!(got.iter().all(|g| std::ptr::from_ref(&g.1) as usize % 32 == 0), "alignment");
        }
        4 => {
            // the results are of a different size than the sources, both ways
            let up: [[i64; 5]; N] = arr::<N>(&a).into_static_iter().map(|x| [x, x + 1, x + 2, x + 3, x + 4]).collect();
            ck_eq!(up.to_vec(), a.iter().map(|x| [*x, x + 1, x + 2, x + 3, x + 4]).collect::<Vec<_>>(), "widening map");
            let down: [u8; N] = up.into_static_iter().map(|x| x[4] as u8).collect();
            ck_eq!(down.to_vec(), a.iter().map(|x| (x + 4) as u8).collect::<Vec<_>>(), "narrowing map");
        }
        5 => {
            // a mutable borrow of each element in turn
            let got: [String; N] = (&toks::<N>(&a)).into_static_iter().map(|t| t.val.to_string()).collect();
            ck_eq!(got.to_vec(), a.iter().map(|x| x.to_string()).collect::<Vec<_>>(), "owned results from borrowed elements");
            drops(true, "borrowed array")?;
        }
        _ => {
            // try_fold that stops: every element at most once; what the closure got is dropped by it
            let got = toks::<N>(&a).into_static_iter().try_fold(0i64, |s, t| if t.id == at { Err(s) } else { Ok(s.wrapping_mul(5).wrapping_add(*t.val)) });
            let want = a[..at].iter().fold(0i64, |s, t| s.wrapping_mul(5).wrapping_add(*t));
            ck_eq!(got, if at < N { Err(want) } else { Ok(want) }, "try_fold of owned elements");
            drops(at == N, "try_fold of owned elements")?;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- sources and collections of our own

/// A source that checks the contract of `idx`: every index at most once, in order, from zero.
struct Source<'a> {
    data: &'a [i64],
    calls: &'a RefCell<Vec<usize>>,
}
impl<const N: usize> StaticIter<N> for Source<'_> {
    type Item = i64;
    unsafe fn idx(&mut self, idx: usize) -> i64 {
        self.calls.borrow_mut().push(idx);
        // out of range is reported by the log, not by a crash
        self.data.get(idx).copied().unwrap_or(i64::MIN)
    }
}

thread_local! {
    static STEPS: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
}
fn step(s: String) {
    STEPS.with(|l| l.borrow_mut().push(s));
}
/// A collection that records how it is driven and stops at a value of -1000.
#[derive(Debug, PartialEq)]
struct Sink(Vec<i64>, Option<i64>);
impl<const N: usize> FromStaticIter<i64, N> for Sink {
    type Uninit = Vec<i64>;
    type Break = (Vec<i64>, i64);
    fn uninit() -> Vec<i64> {
        step("start".into());
        Vec::new()
    }
    fn write(mut this: Vec<i64>, idx: usize, val: i64) -> ControlFlow<(Vec<i64>, i64), Vec<i64>> {
        step(format!("write {idx} {val}"));
        if val == -1000 {
            return ControlFlow::Break((this, idx as i64));
        }
        this.push(val);
        ControlFlow::Continue(this)
    }
    unsafe fn finish(this: ControlFlow<(Vec<i64>, i64), Vec<i64>>) -> Sink {
        step("finish".into());
        match this {
            ControlFlow::Continue(v) => Sink(v, None),
            ControlFlow::Break((v, b)) => Sink(v, Some(b)),
        }
    }
}

fn foreign<const N: usize>(c: &mut Case) -> R {
    STEPS.with(|l| l.borrow_mut().clear());
    let mut a = vals(c, N);
    let at = stop(c, N);
    if at < N && c.coin() {
        a[at] = -1000;
    }
    let first = a.iter().position(|x| *x == -1000);
    let kind = c.below(9);
    c.note("a", &a);
    c.note("consumer", &kind);
    c.nontrivial(N > 1);
    c.label_if(first.is_some(), "early-exit");
    let calls = RefCell::new(Vec::new());
    let src = || Source { data: &a, calls: &calls };
    let sum = a.iter().fold(0i64, |s, x| s.wrapping_mul(7).wrapping_add(*x));
    let next = |s: i64, x: i64| s.wrapping_mul(7).wrapping_add(x);
    // how many elements may be asked for
    let upto = first.map_or(N, |p| p + 1);
    let steps = |collected: bool| -> Vec<String> {
        if !collected {
            return Vec::new();
        }
        let mut v = vec!["start".to_string()];
        v.extend((0..upto).map(|i| format!("write {i} {}", a[i])));
        v.push("finish".into());
        v
    };
    let sink = || Sink(a[..first.unwrap_or(N)].to_vec(), first.map(|p| p as i64));
    let (mut collected, mut visited) = (false, upto);
    match kind {
        0 => {
            ck_eq!(StaticIter::<N>::fold(src(), 0, next), sum, "fold over a source of our own");
            visited = N;
        }
        1 => {
            let got = StaticIter::<N>::try_fold(src(), 0, |s, x| if x == -1000 { Err(s) } else { Ok(next(s, x)) });
            let want = a[..first.unwrap_or(N)].iter().fold(0, |s, x| next(s, *x));
            ck_eq!(got, if first.is_some() { Err(want) } else { Ok(want) }, "try_fold over a source of our own");
        }
        2 => ck_eq!(StaticIter::<N>::any(src(), |x| x == -1000), first.is_some(), "any over a source of our own"),
        3 => ck_eq!(StaticIter::<N>::all(src(), |x| x != -1000), first.is_none(), "all over a source of our own"),
        4 => {
            collected = true;
            ck_eq!(StaticIter::<N>::collect::<Sink>(src()), sink(), "collect into a collection of our own");
        }
        5 => {
            // an outer failure before the inner collection has seen everything
            let got: Option<Sink> = <Option<Sink> as FromStaticIter<Option<i64>, N>>::from_static_iter(StaticIter::<N>::map(src(), Some));
            collected = true;
            ck_eq!(got, Some(sink()), "collect through Option into a collection of our own");
        }
        6 => {
            let got: Result<Sink, i64> = <Result<Sink, i64> as FromStaticIter<Result<i64, i64>, N>>::from_static_iter(StaticIter::<N>::map(src(), Ok));
            collected = true;
            ck_eq!(got, Ok(sink()), "collect through Result into a collection of our own");
        }
        7 => {
            let got: [i64; N] = zip_all((src(), StaticRangeTo::<N>.into_static_iter())).map(|(x, i)| x.wrapping_add(i as i64)).collect();
            ck_eq!(got.to_vec(), (0..N).map(|i| a[i] + i as i64).collect::<Vec<_>>(), "zip_all with a source of our own");
            visited = N;
        }
        _ => {
            let got: [(usize, (i64, i64)); N] = StaticIter::<N>::enumerate(StaticIter::<N>::zip(src(), arr::<N>(&a))).collect();
            ck_eq!(got.to_vec(), (0..N).map(|i| (i, (a[i], a[i]))).collect::<Vec<_>>(), "zip and enumerate over a source of our own");
            visited = N;
        }
    }
    ck_eq!(*calls.borrow(), (0..visited).collect::<Vec<_>>(), "indices asked of the source");
    let got = STEPS.with(|l| l.borrow().clone());
    if kind == 5 || kind == 6 {
        // `start` and `finish` may also be those of the wrapper
        ck_eq!(got.iter().filter(|s| s.starts_with("write")).cloned().collect::<Vec<_>>(), steps(true)[1..=upto].to_vec(), "writes to the collection");
    } else {
        ck_eq!(got, steps(collected), "calls made to the collection");
    }
    Ok(())
}

// ---------------------------------------------------------------- ready-made functions

fn ready<const N: usize>(c: &mut Case) -> R {
    let mut v = || -> [i32; N] { std::array::from_fn(|_| c.irange(-150, 150) as i32) };
    let (a, b, d, e) = (v(), v(), v(), v());
    c.note("a", &a);
    c.note("b", &b);
    c.nontrivial(N > 1);
    let w = |f: &dyn Fn(usize) -> i32| -> Vec<i32> { (0..N).map(f).collect() };
    ck_eq!(must("zip_add", || codegen::zip_add(a, b))?.to_vec(), w(&|i| a[i] + b[i]), "zip_add");
    ck_eq!(must("zip_mul", || codegen::zip_mul(a, b))?.to_vec(), w(&|i| a[i] * b[i]), "zip_mul");
    ck_eq!(must("map_neg", || codegen::map_neg(a))?.to_vec(), w(&|i| -a[i]), "map_neg");
    ck_eq!(must("zip_many", || codegen::zip_many(a, b, d, e))?.to_vec(), w(&|i| a[i] * b[i] * d[i] * e[i]), "zip_many");
    Ok(())
}

macro_rules! by {
    ($c:expr, $f:ident) => {{
        let fs: &[fn(&mut Case) -> R] = &[
            $f::<3>, $f::<2>, $f::<1>, $f::<0>, $f::<4>, $f::<5>, $f::<6>, $f::<7>, $f::<8>, $f::<9>, $f::<10>, $f::<11>, $f::<12>,
            $f::<13>, $f::<14>, $f::<15>, $f::<16>, $f::<17>, $f::<18>, $f::<19>, $f::<20>, $f::<21>, $f::<22>, $f::<23>, $f::<24>, $f::<25>,
            $f::<26>, $f::<27>, $f::<28>, $f::<29>, $f::<30>, $f::<31>, $f::<32>, $f::<33>, $f::<65>,
        ];
        let k = $c.below(fs.len());
        fs[k]($c)
    }};
}

/// Lengths beyond the usual, in a sub-check of their own: one such case costs as much as many short ones.
macro_rules! long {
    ($c:expr, $($f:ident),*) => {{
        let fs: &[fn(&mut Case) -> R] = &[$($f::<64>, $f::<100>, $f::<128>, $f::<129>, $f::<255>, $f::<256>, $f::<257>, $f::<300>),*];
        let k = $c.below(fs.len());
        fs[k]($c)
    }};
}

fn main() {
    harness_main(vec![Prop {
        id: "C31",
        subs: vec![
            sub("adapters", 2_500_000, |c| by!(c, adapters)),
            sub("consumers", 1_300_000, |c| by!(c, consumers)),
            sub("fallible-collect", 2_900_000, |c| by!(c, fallible)),
            sub("layouts", 2_600_000, |c| by!(c, layouts)),
            sub("own-sources-and-collections", 1_600_000, |c| by!(c, foreign)),
            sub("ready-made", 2_600_000, |c| by!(c, ready)),
            sub("long", 60_000, |c| long!(c, adapters, consumers, fallible, layouts, foreign)),
        ],
    }]);
}
