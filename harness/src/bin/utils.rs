//! The interner as a reference-counted map, and BigInt shared between real threads.
use numeric_ints::BigInt;
use numeric_utils::intern::InternId;
use numeric_utils::Interner;
use numeric_verif::big::{build, read, route};
use numeric_verif::refint::Z;
use numeric_verif::{ck, ck_eq, gen, harness_main, may_panic, must, sub, Case, Prop, R};
use std::borrow::Borrow;
use std::cell::Cell;
use std::collections::BTreeMap;
use std::sync::Barrier;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static DOUBLE: Cell<bool> = const { Cell::new(false) };
}
const GOOD: u64 = 0x5eed_5eed_5eed_5eed;

/// A stored value that counts its instances and notices being dropped twice.
#[derive(Debug)]
struct Tracked {
    v: Vec<u32>,
    mark: Cell<u64>,
}
impl Tracked {
    fn new(v: Vec<u32>) -> Self {
        LIVE.with(|l| l.set(l.get() + 1));
        Tracked { v, mark: Cell::new(GOOD) }
    }
}
impl Clone for Tracked {
    fn clone(&self) -> Self {
        Tracked::new(self.v.clone())
    }
}
impl Drop for Tracked {
    fn drop(&mut self) {
        if self.mark.replace(0xdead) != GOOD {
            DOUBLE.with(|d| d.set(true));
        }
        LIVE.with(|l| l.set(l.get() - 1));
    }
}
impl PartialEq for Tracked {
    fn eq(&self, o: &Self) -> bool {
        self.v == o.v
    }
}
impl Borrow<[u32]> for Tracked {
    fn borrow(&self) -> &[u32] {
        &self.v
    }
}
struct Key(Vec<u32>);
impl Borrow<[u32]> for Key {
    fn borrow(&self) -> &[u32] {
        &self.0
    }
}
impl From<Key> for Tracked {
    fn from(k: Key) -> Self {
        Tracked::new(k.0)
    }
}

/// A key whose conversion into a stored value panics.
struct Bad(Vec<u32>);
impl Borrow<[u32]> for Bad {
    fn borrow(&self) -> &[u32] {
        &self.0
    }
}
impl From<Bad> for Tracked {
    fn from(_: Bad) -> Self {
        panic!("conversion refused")
    }
}

fn id(n: usize) -> InternId {
    InternId::from_usize(n)
}

fn sequential(c: &mut Case) -> R {
    LIVE.with(|l| l.set(0));
    DOUBLE.with(|d| d.set(false));
    let cap = c.pick(&[0usize, 0, 1, 31, 32, 33, 65]);
    let wide = c.chance(60);
    let vast = wide && c.chance(20);
    let kinds = if vast { 600 } else if wide { 150 } else { c.pick(&[2u64, 5, 12, 40]) };
    let steps = if vast { c.range(250, 600) } else if wide { c.range(60, 200) } else { c.range(3, 60) };
    c.note("capacity", &cap);
    let it: Interner<Tracked> = match (cap, c.coin()) {
        (0, false) => Interner::new(),
        (0, true) => Interner::default(),
        _ => Interner::with_capacity(cap),
    };
    // slot -> (value, references)
    let mut model: BTreeMap<usize, (Vec<u32>, usize)> = BTreeMap::new();
    let mut pinned: Vec<(usize, &Tracked)> = Vec::new();
    let mut seen: Vec<usize> = Vec::new();
    let mut reused = false;
    let value = |k: u64| -> Vec<u32> { (0..1 + k % 3).map(|i| (k * 7 + i) as u32).collect() };
    for step in 0..steps {
        let live: Vec<usize> = model.iter().filter(|(_, m)| m.1 > 0).map(|(k, _)| *k).collect();
        let what = if live.is_empty() {
            0
        } else if wide {
            c.weighted(&[14, 1, 4, 2, 1, 1, 1, 1])
        } else {
            c.weighted(&[16, 6, 14, 4, 2, 2, 1, 1])
        };
        match what {
            0 => {
                let k = c.draw(kinds - 1);
                let v = value(k);
                c.note("add", &v);
                let got = must("add", || it.add::<Key, [u32]>(Key(v.clone())))?.into_usize();
                let same = live.iter().find(|s| model[*s].0 == v);
                match same {
                    Some(s) => {
                        ck_eq!(got, *s, "step {step}: adding {v:?} again while slot {s} holds it");
                        model.get_mut(s).unwrap().1 += 1;
                    }
                    None => {
                        ck!(!live.contains(&got), "step {step}: {v:?} was given slot {got}, which holds {:?}", model[&got].0);
                        reused |= seen.contains(&got);
                        // a reused slot no longer holds what was pinned there
                        pinned.retain(|p| p.0 != got);
                        model.insert(got, (v, 1));
                    }
                }
                if !seen.contains(&got) {
                    seen.push(got);
                }
            }
            1 => {
                let s = c.pick(&live);
                c.note("incr", &s);
                // often once, now and then past the widths a count might be kept in
                let n = if c.chance(6) { c.pick(&[127usize, 255, 256, 65_535, 65_537]) } else { 1 };
                c.note("times", &n);
                for _ in 0..n {
                    it.incr(id(s));
                }
                model.get_mut(&s).unwrap().1 += n;
            }
            2 => {
                let s = c.pick(&live);
                c.note("decr", &s);
                it.decr(id(s));
                model.get_mut(&s).unwrap().1 -= 1;
                if model[&s].1 == 0 {
                    pinned.retain(|p| p.0 != s);
                }
            }
            3 => {
                // a reference that stays borrowed while others come and go
                let s = c.pick(&live);
                c.note("borrow", &s);
                pinned.push((s, must("get", || it.get(id(s)))?));
            }
            4 => {
                // releasing a dead slot once more changes nothing
                if let Some(s) = model.iter().find(|(_, m)| m.1 == 0).map(|(k, _)| *k) {
                    c.note("decr dead", &s);
                    it.decr(id(s));
                    ck!(may_panic(|| it.get(id(s)).v.clone()).is_none(), "get of the dead slot {s} returned a value");
                }
            }
            6 => {
                // a value that cannot be made: nothing is stored, and the interner goes on working
                let v = value(c.draw(kinds - 1));
                c.note("add, failing", &v);
                match may_panic(|| it.add::<Bad, [u32]>(Bad(v.clone()))) {
                    None => c.label("conversion-panics"),
                    Some(got) => {
                        // it was not needed: the value was there, alive or not
                        let got = got.into_usize();
                        ck!(model.get(&got).is_some_and(|m| m.0 == v), "step {step}: adding {v:?} gave slot {got}, which did not hold it");
                        ck!(live.iter().all(|s| model[s].0 != v || *s == got), "step {step}: {v:?} given slot {got} while another holds it");
                        model.get_mut(&got).unwrap().1 += 1;
                    }
                }
            }
            7 => {
                // a slot that was never handed out holds nothing
                let s = c.range(0, 200);
                if !model.contains_key(&s) {
                    c.note("read unissued", &s);
                    ck!(may_panic(|| it.try_get(id(s)).is_some()) != Some(true), "step {step}: the unissued slot {s} holds a value");
                }
            }
            _ => {
                // everything goes
                let s = c.pick(&live);
                c.note("release all", &s);
                for _ in 0..model[&s].1 {
                    it.decr(id(s));
                }
                model.get_mut(&s).unwrap().1 = 0;
                pinned.retain(|p| p.0 != s);
            }
        }
        for (s, (v, n)) in &model {
            if wide && step + 1 < steps && (s + step) % 8 != 0 {
                continue;
            }
            ck_eq!(it.refcount(id(*s)), *n, "step {step}: references of slot {s}");
            let got = must("try_get", || it.try_get(id(*s)).map(|t| t.v.clone()))?;
            ck_eq!(got, (*n > 0).then(|| v.clone()), "step {step}: value of slot {s}");
        }
        for (s, t) in &pinned {
            ck!(t.mark.get() == GOOD && t.v == model[s].0, "step {step}: borrowed value of slot {s} changed");
        }
    }
    c.nontrivial(model.len() > 1 && model.values().any(|m| m.1 == 0 || m.1 > 1));
    c.label_if(reused, "slot-reused");
    c.label_if(model.len() > 32, "second-chunk");
    c.label_if(model.len() > 64, "third-chunk");
    c.label_if(model.len() > 160, "sixth-chunk");
    pinned.clear();
    drop(it);
    ck!(!DOUBLE.with(Cell::get), "a stored value was dropped twice");
    ck_eq!(LIVE.with(Cell::get), 0, "stored values left over after the interner was dropped");
    Ok(())
}

/// Thousands of values alive at once, some released and others put in their place.
fn many(c: &mut Case) -> R {
    LIVE.with(|l| l.set(0));
    DOUBLE.with(|d| d.set(false));
    let n = if c.chance(40) { c.range(1000, 5000) } else { c.range(100, 1300) };
    let stride = c.range(1, 40);
    let rounds = c.below(3);
    c.note("values, every how many released, rounds", &(n, stride, rounds));
    c.nontrivial(rounds > 0);
    c.label_if(n > 1024, "over-1024");
    c.label_if(n > 4096, "over-4096");
    let it: Interner<Tracked> = if c.coin() { Interner::new() } else { Interner::with_capacity(c.range(0, 3000)) };
    let value = |k: usize| -> Vec<u32> { vec![k as u32, (k >> 3) as u32] };
    // slot -> number of the value there
    let mut model: BTreeMap<usize, usize> = BTreeMap::new();
    let mut next = 0;
    let mut put = |model: &mut BTreeMap<usize, usize>| -> R {
        let v = value(next);
        let s = must("add", || it.add::<Key, [u32]>(Key(v)))?.into_usize();
        ck!(model.insert(s, next).is_none(), "value {next} was given slot {s}, which is taken");
        next += 1;
        Ok(())
    };
    for _ in 0..n {
        put(&mut model)?;
    }
    for round in 0..=rounds {
        for (s, k) in &model {
            let got = must("try_get", || it.try_get(id(*s)).map(|t| t.v.clone()))?;
            ck_eq!(got, Some(value(*k)), "round {round}: value of slot {s} of {n}");
            ck_eq!(it.refcount(id(*s)), 1, "round {round}: references of slot {s} of {n}");
        }
        // adding a value again finds it
        for _ in 0..20 {
            let i = c.below(model.len());
            let (s, k) = model.iter().nth(i).map(|(s, k)| (*s, *k)).unwrap();
            let got = must("add", || it.add::<Key, [u32]>(Key(value(k))))?.into_usize();
            ck_eq!(got, s, "round {round}: slot of value {k}, added again");
            ck_eq!(it.refcount(id(s)), 2, "round {round}: references of slot {s} of {n} after adding its value again");
            it.decr(id(s));
        }
        if round < rounds {
            let gone: Vec<usize> = model.keys().copied().skip(c.below(stride)).step_by(stride).collect();
            for s in &gone {
                it.decr(id(*s));
                model.remove(s);
            }
            for s in &gone {
                ck!(must("try_get", || it.try_get(id(*s)).is_none())?, "round {round}: released slot {s} still holds a value");
            }
            // slots of released values may or may not be given out again
            for _ in 0..gone.len() + c.below(40) {
                put(&mut model)?;
            }
        }
    }
    drop(it);
    ck!(!DOUBLE.with(Cell::get), "a stored value was dropped twice");
    ck_eq!(LIVE.with(Cell::get), 0, "stored values left over after the interner was dropped");
    Ok(())
}

/// Very many handles of one value.
fn clones(c: &mut Case) -> R {
    LIVE.with(|l| l.set(0));
    DOUBLE.with(|d| d.set(false));
    let it: Interner<Tracked> = Interner::new();
    let before = c.below(70);
    let others: Vec<usize> = (0..before).map(|k| it.add::<Key, [u32]>(Key(vec![7, k as u32])).into_usize()).collect();
    let n = match c.weighted(&[10, 4, 3, 3]) {
        0 => c.range(2, 1200),
        1 => c.range(1200, 5000),
        2 => c.range(32_700, 32_800),
        _ => c.range(65_500, 66_000),
    };
    let by_add = c.pick(&[0, 1, 3, 50]);
    c.note("values before, handles, every how many by add", &(before, n, by_add));
    c.nontrivial(n > 200);
    c.label_if(n > 4096, "over-4096");
    c.label_if(n > 65536, "over-65536");
    let s = must("add", || it.add::<Key, [u32]>(Key(vec![1])))?.into_usize();
    let again = |what: &str, left: usize| -> R {
        ck_eq!(it.refcount(id(s)), left, "references {what}");
        ck_eq!(must("try_get", || it.try_get(id(s)).map(|t| t.v.clone()))?, (left > 0).then(|| vec![1]), "the value {what}");
        Ok(())
    };
    for i in 1..n {
        if by_add > 0 && i % by_add == 0 {
            let t = must("add", || it.add::<Key, [u32]>(Key(vec![1])))?.into_usize();
            ck_eq!(t, s, "slot of the value, added again as handle {i}");
        } else {
            must("incr", || it.incr(id(s)))?;
        }
        if i % 4096 < 2 || i == n - 1 {
            again("with every handle so far alive", i + 1)?;
        }
    }
    let mut left = n;
    let mut made = 0;
    while left > 0 {
        let drop = if left == 1 || c.chance(10) { left } else { c.range(left / 3, left - 1).max(1) };
        for _ in 0..drop {
            must("decr", || it.decr(id(s)))?;
        }
        left -= drop;
        again("after dropping handles", left)?;
        let t = must("add", || it.add::<Key, [u32]>(Key(vec![2, made])))?.into_usize();
        made += 1;
        ck!(left == 0 || t != s, "a new value was given the slot of one with {left} handles");
        if left > 0 {
            again("after adding another value", left)?;
        }
    }
    for (k, o) in others.iter().enumerate() {
        ck_eq!(must("try_get", || it.try_get(id(*o)).map(|t| t.v.clone()))?, Some(vec![7, k as u32]), "a value added before");
    }
    drop(it);
    ck!(!DOUBLE.with(Cell::get), "a stored value was dropped twice");
    ck_eq!(LIVE.with(Cell::get), 0, "stored values left over after the interner was dropped");
    Ok(())
}

/// Few values alive at a time, thousands over time: what is held stays in proportion to the few.
fn reuse(c: &mut Case) -> R {
    LIVE.with(|l| l.set(0));
    DOUBLE.with(|d| d.set(false));
    let k = c.range(1, 60);
    let total = 4 * k + c.range(600, 2500);
    let kinds = c.pick(&[total, total / 2, 8 * k]);
    c.note("alive at a time, values over time, different values", &(k, total, kinds));
    c.nontrivial(true);
    let it: Interner<Tracked> = Interner::new();
    let mut alive: Vec<(usize, u32)> = Vec::new();
    let room = 4 * k + 256;
    for n in 0..total {
        if alive.len() == k {
            let i = match n % 3 {
                0 => 0,
                1 => k - 1,
                _ => c.below(k),
            };
            let (s, _) = alive.swap_remove(i);
            it.decr(id(s));
        }
        let v = (n % kinds) as u32;
        let s = must("add", || it.add::<Key, [u32]>(Key(vec![v])))?.into_usize();
        ck!(s < room, "value {n} of {total} was given slot {s} with at most {k} alive at a time");
        alive.push((s, v));
        // sometimes a second handle for a while
        if n % 7 == 0 {
            it.incr(id(s));
            it.decr(id(s));
        }
        let held = LIVE.with(Cell::get);
        ck!(held <= room as i64, "{held} values held after {n} with at most {k} alive at a time");
    }
    for (s, v) in &alive {
        ck_eq!(must("try_get", || it.try_get(id(*s)).map(|t| t.v.clone()))?, Some(vec![*v]), "value of slot {s}");
    }
    drop(it);
    ck!(!DOUBLE.with(Cell::get), "a stored value was dropped twice");
    ck_eq!(LIVE.with(Cell::get), 0, "stored values left over after the interner was dropped");
    Ok(())
}

#[derive(Clone, Copy, Debug)]
enum Op {
    Make(usize),
    Clone(usize),
    Drop(usize),
    Add(usize, usize),
    Sub(usize, usize),
    Check(usize),
}

/// Real threads computing with shared and private BigInts; every result has one right value.
fn threads(c: &mut Case) -> R {
    let n = c.range(2, 4);
    let base: Vec<Z> = (0..c.range(1, 4))
        .map(|_| {
            let k = c.pick(&[0u64, 1, 2]);
            Z::pow2(64).add(&Z::from_u128(u128::from(k))).shl(c.below(3) * 64)
        })
        .collect();
    let fresh: Vec<Z> = (0..6).map(|_| if c.coin() { gen::int(c, 3) } else { Z::pow2(70).add(&Z::from_u128(u128::from(c.draw(3)))) }).collect();
    let progs: Vec<Vec<Op>> = (0..n)
        .map(|_| {
            (0..c.range(5, 30))
                .map(|_| {
                    let (i, j) = (c.below(8), c.below(8));
                    match c.weighted(&[6, 3, 6, 4, 4, 3]) {
                        0 => Op::Make(i),
                        1 => Op::Clone(i),
                        2 => Op::Drop(i),
                        3 => Op::Add(i, j),
                        4 => Op::Sub(i, j),
                        _ => Op::Check(i),
                    }
                })
                .collect()
        })
        .collect();
    let rt = route(c);
    c.note("shared", &base);
    c.note("fresh", &fresh);
    c.note("programs", &progs);
    c.nontrivial(progs.iter().all(|p| p.iter().any(|o| matches!(o, Op::Make(_) | Op::Add(..) | Op::Sub(..)))));
    let shared: Vec<BigInt> = base.iter().map(|z| build(z, rt)).collect();
    let start = Barrier::new(n);
    let rounds = 6;
    let results: Vec<R> = std::thread::scope(|s| {
        let hs: Vec<_> = progs
            .iter()
            .map(|p| {
                let (shared, base, fresh, start) = (&shared, &base, &fresh, &start);
                s.spawn(move || -> R {
                    start.wait();
                    for _ in 0..rounds {
                        let mut pool: Vec<(BigInt, Z)> = shared.iter().cloned().zip(base.iter().cloned()).collect();
                        for op in p {
                            let l = pool.len().max(1);
                            match *op {
                                Op::Make(i) => {
                                    let z = &fresh[i % fresh.len()];
                                    pool.push((build(z, rt), z.clone()));
                                }
                                Op::Clone(i) if !pool.is_empty() => {
                                    let v = pool[i % l].clone();
                                    pool.push(v);
                                }
                                Op::Drop(i) if !pool.is_empty() => {
                                    pool.swap_remove(i % l);
                                }
                                Op::Add(i, j) if !pool.is_empty() => {
                                    let ((x, a), (y, b)) = (&pool[i % l], &pool[j % l]);
                                    let v = (x + y, a.add(b));
                                    pool.push(v);
                                }
                                Op::Sub(i, j) if !pool.is_empty() => {
                                    let ((x, a), (y, b)) = (&pool[i % l], &pool[j % l]);
                                    let v = (x - y, a.sub(b));
                                    pool.push(v);
                                }
                                Op::Check(i) if !pool.is_empty() => {
                                    let (x, a) = &pool[i % l];
                                    ck_eq!(read(x), *a, "a value held by one thread");
                                }
                                _ => {}
                            }
                        }
                        for (x, a) in &pool {
                            ck_eq!(read(x), *a, "a value held by one thread at the end of its program");
                        }
                    }
                    Ok(())
                })
            })
            .collect();
        hs.into_iter()
            .map(|h| h.join().unwrap_or_else(|_| Err("a thread panicked while computing with BigInts".into())))
            .collect()
    });
    for r in results {
        r?;
    }
    for (x, z) in shared.iter().zip(&base) {
        ck_eq!(read(x), *z, "a shared value after the threads finished");
    }
    Ok(())
}

/// More handles of one value than 32 bits can count.
fn endless(c: &mut Case) -> R {
    let it: Interner<u64> = Interner::new();
    let before = c.below(30) as u64;
    for k in 0..before {
        it.add::<u64, u64>(k + 10);
    }
    let s = must("add", || it.add::<u64, u64>(1))?.into_usize();
    let extra = c.range(0, 3);
    c.note("values before, handles beyond 2^32", &(before, extra));
    // with overflow checks counting is several times slower
    let blocks: usize = if cfg!(debug_assertions) { 1 << 6 } else { 1 << 12 };
    let mut count = 1usize;
    let start = std::time::Instant::now();
    for b in 0..blocks {
        must("incr", || {
            for _ in 0..1 << 20 {
                it.incr(id(s));
            }
        })?;
        count += 1 << 20;
        numeric_verif::step();
        // a slow machine has better things to do
        if start.elapsed().as_secs() > 90 && b < blocks {
            c.label("cut short");
            break;
        }
    }
    for _ in 0..extra {
        it.incr(id(s));
        count += 1;
    }
    c.nontrivial(count > 1 << 16);
    c.label_if(count > u32::MAX as usize, "over-2^32");
    ck_eq!(it.refcount(id(s)), count, "references");
    for k in 0..8 {
        if count == 1 {
            break;
        }
        must("decr", || it.decr(id(s)))?;
        count -= 1;
        ck_eq!(it.refcount(id(s)), count, "references after {} were dropped", k + 1);
        ck_eq!(must("try_get", || it.try_get(id(s)).copied())?, Some(1), "the value, with {count} handles alive");
        let t = must("add", || it.add::<u64, u64>(100 + k))?.into_usize();
        ck!(t != s, "a new value was given the slot of one with {count} handles");
    }
    Ok(())
}

fn main() {
    harness_main(vec![
        Prop { id: "C08", subs: vec![sub("real-threads", 6_200, threads)] },
        Prop { id: "C09", subs: vec![sub("histories", 150_000, sequential), sub("many", 1_400, many), sub("clones", 2_000, clones), sub("reuse", 23_000, reuse), sub("endless", 1, endless)] },
    ])
}
