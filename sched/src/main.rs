//! The interner of numeric-utils under generated programs and generated schedules.
//!
//! The repository's sources are compiled against shuttle's atomics, so every atomic access is a
//! point where the scheduler below may switch threads; which switches happen is part of the
//! generated (and shrunk) case.
//!
//! The scheduler makes atomics sequentially consistent. That the orderings chosen are strong
//! enough is decided by vector clocks (see the shim's `hb`): every stored value remembers when it
//! was written and when it was read, a read must happen after the write, and the value may only be
//! dropped after every read.
use core_shim::hb;
use numeric_verif::{ck, ck_eq, harness_main, sub, Case, Prop, R};
use shadow_utils::intern::InternId;
use shadow_utils::Interner;
use shuttle::scheduler::{Schedule, Scheduler, Task, TaskId};
use shuttle::{Config, FailurePersistence, MaxSteps, Runner};
use std::borrow::Borrow;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};

/// Switch after `gap` more steps to the task picked by `to`; otherwise keep running.
struct Script {
    plan: Vec<(u64, u64)>,
    at: usize,
    left: u64,
    same: u32,
    started: bool,
    switches: Arc<Mutex<usize>>,
}

impl Scheduler for Script {
    fn new_execution(&mut self) -> Option<Schedule> {
        if self.started {
            return None;
        }
        self.started = true;
        Some(Schedule::new(0))
    }
    fn next_task(&mut self, runnable: &[&Task], current: Option<TaskId>, yielding: bool) -> Option<TaskId> {
        let cur = current.filter(|c| runnable.iter().any(|t| t.id() == *c));
        let mut pick = None;
        if self.at < self.plan.len() {
            if self.left == 0 {
                let to = self.plan[self.at].1;
                pick = Some(runnable[(to as usize) % runnable.len()].id());
                self.at += 1;
                self.left = self.plan.get(self.at).map_or(0, |p| p.0);
            } else {
                self.left -= 1;
            }
        }
        let next_after = |c: TaskId| {
            runnable
                .iter()
                .find(|t| t.id() > c)
                .unwrap_or(&runnable[0])
                .id()
        };
        // a task that yields, or that has had the processor for long, gives way to the next one,
        // so no schedule starves anyone
        let id = match (pick, cur) {
            (Some(p), _) => p,
            (None, Some(c)) if yielding || self.same > 400 => next_after(c),
            (None, Some(c)) => c,
            (None, None) => current.map_or(runnable[0].id(), next_after),
        };
        if current == Some(id) {
            self.same += 1;
        } else {
            self.same = 0;
            *self.switches.lock().unwrap() += 1;
        }
        Some(id)
    }
    fn next_u64(&mut self) -> u64 {
        0
    }
}

/// What is stored. Converting a key into it takes a while.
#[derive(Debug)]
struct Val {
    num: u64,
    check: u64,
    serial: u64,
    written: (usize, u32),
    /// the last read of each task
    reads: RefCell<BTreeMap<usize, u32>>,
}

thread_local! {
    static SERIAL: Cell<u64> = const { Cell::new(0) };
    static LIVE: RefCell<BTreeSet<u64>> = const { RefCell::new(BTreeSet::new()) };
}

impl Val {
    fn new(num: u64) -> Val {
        let serial = SERIAL.get();
        SERIAL.set(serial + 1);
        LIVE.with(|l| l.borrow_mut().insert(serial));
        Val { num, check: !num, serial, written: hb::epoch(), reads: RefCell::default() }
    }
    fn touch(&self) {
        if !hb::before_now(self.written) {
            hb::complain(format!("data race: the value {} is read by a thread for which its being written has not happened yet (missing acquire or release)", self.num));
        }
        let (t, e) = hb::epoch();
        self.reads.borrow_mut().insert(t, e);
    }
}
impl Clone for Val {
    fn clone(&self) -> Val {
        self.touch();
        Val::new(self.num)
    }
}
impl Drop for Val {
    fn drop(&mut self) {
        if !LIVE.with(|l| l.borrow_mut().remove(&self.serial)) {
            hb::complain(format!("the value {} is dropped twice", self.num));
        }
        if !hb::before_now(self.written) || self.reads.borrow().iter().any(|(t, e)| !hb::before_now((*t, *e))) {
            hb::complain(format!("data race: the value {} is dropped or overwritten while another thread may still be reading it (missing acquire or release)", self.num));
        }
        self.check = 0x00dead;
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
struct Key(u64);
impl From<Key> for Val {
    fn from(k: Key) -> Val {
        shuttle::thread::yield_now();
        Val::new(k.0)
    }
}
impl PartialEq for Val {
    fn eq(&self, o: &Val) -> bool {
        self.touch();
        o.touch();
        self.num == o.num
    }
}
// the interner looks values up by a borrowed form
#[derive(PartialEq)]
#[repr(transparent)]
struct Num(u64);
impl Borrow<Num> for Val {
    fn borrow(&self) -> &Num {
        self.touch();
        // SAFETY: Num is a transparent wrapper of u64
        unsafe { &*(&raw const self.num).cast::<Num>() }
    }
}
impl Borrow<Num> for Key {
    fn borrow(&self) -> &Num {
        // SAFETY: Num is a transparent wrapper of u64
        unsafe { &*(&raw const self.0).cast::<Num>() }
    }
}

#[derive(Clone, Copy, Debug)]
enum Op {
    Add(u64),
    Get(usize),
    Clone(usize),
    Drop(usize),
    /// Drop every handle but one, and read it
    DropMost,
}

fn id(n: usize) -> InternId {
    InternId::from_usize(n)
}

struct Held {
    id: usize,
    val: u64,
}

fn read(i: &Interner<Val>, h: &Held, when: &str) -> R {
    match i.try_get(id(h.id)) {
        None => Err(format!("{when}: slot {} of the held value {} is dead", h.id, h.val)),
        Some(v) => {
            v.touch();
            ck!(
                v.num == h.val && v.check == !h.val,
                "{when}: slot {} holds {} (check {}), the handle was given out for {}",
                h.id,
                v.num,
                !v.check,
                h.val
            );
            Ok(())
        }
    }
}

fn run_ops(i: &Interner<Val>, mut held: Vec<Held>, ops: &[Op]) -> Result<Vec<Held>, String> {
    for op in ops {
        match *op {
            Op::Add(v) => {
                let got = i.add::<Key, Num>(Key(v)).into_usize();
                let h = Held { id: got, val: v };
                read(i, &h, "right after add")?;
                ck!(i.refcount(id(got)) >= 1, "refcount 0 right after add of {v}");
                held.push(h);
            }
            Op::Get(k) if !held.is_empty() => {
                let k = k % held.len();
                read(i, &held[k], "get")?;
            }
            Op::Clone(k) if !held.is_empty() => {
                let h = &held[k % held.len()];
                i.incr(id(h.id));
                read(i, h, "after clone")?;
                let h = Held { id: h.id, val: h.val };
                held.push(h);
            }
            Op::Drop(k) if !held.is_empty() => {
                let k = k % held.len();
                let h = held.swap_remove(k);
                read(i, &h, "before drop")?;
                i.decr(id(h.id));
            }
            Op::DropMost if !held.is_empty() => {
                while held.len() > 1 {
                    let h = held.pop().unwrap();
                    i.decr(id(h.id));
                }
                read(i, &held[0], "last handle")?;
            }
            _ => {}
        }
    }
    Ok(held)
}

fn op(c: &mut Case, vals: u64) -> Op {
    match c.weighted(&[8, 3, 3, 6, 1]) {
        0 => Op::Add(c.draw(vals)),
        1 => Op::Get(c.below(6)),
        2 => Op::Clone(c.below(6)),
        3 => Op::Drop(c.below(6)),
        _ => Op::DropMost,
    }
}

fn interner(c: &mut Case) -> R {
    let vals = c.pick(&[1u64, 2, 4, 12]);
    // slots taken before the threads start: none, some, or a (nearly) full chunk
    let filler = match c.weighted(&[6, 2, 3]) {
        0 => 0,
        1 => c.range(1, 6),
        _ => c.range(30, 33),
    };
    let capacity = c.pick(&[0usize, 0, 1, 33]);
    let before: Vec<Op> = {
        let n = c.below(5);
        (0..n).map(|_| op(c, vals)).collect()
    };
    let threads = c.range(2, 4);
    let progs: Vec<Vec<Op>> = (0..threads)
        .map(|_| {
            let n = c.range(1, 5);
            (0..n).map(|_| op(c, vals)).collect()
        })
        .collect();
    let share = c.coin();
    let long = c.pick(&[3u64, 12, 60]);
    let n = match c.weighted(&[3, 4, 2]) {
        0 => c.range(0, 4),
        1 => c.range(4, 16),
        _ => c.range(16, 60),
    };
    // how old a store the successive loads with a choice see
    let n2 = c.pick(&[0usize, 0, 10, 40]);
    let stale: Vec<u64> = (0..n2).map(|_| c.weighted(&[5, 2, 1, 1]) as u64).collect();
    let plan: Vec<(u64, u64)> = (0..n).map(|_| (c.draw(long), c.draw(threads as u64))).collect();
    c.note("filler slots", &filler);
    c.note("capacity", &capacity);
    c.note("before", &before);
    c.note("threads", &progs);
    c.note("handles shared with threads", &share);
    c.note("switches (after steps, to)", &plan);
    c.note("age of the stores seen", &stale);
    let adds = progs.iter().flatten().filter(|o| matches!(o, Op::Add(_))).count();
    let drops = progs.iter().flatten().filter(|o| matches!(o, Op::Drop(_) | Op::DropMost)).count();
    c.label_if(drops > 0, "drops");
    c.label_if(filler >= 30, "chunk-boundary");
    c.label_if(adds > 1, "several-adds");

    let (before, progs) = (Arc::new(before), Arc::new(progs));
    let (sw, r) = scheduled(c, plan, stale, move || body(filler, capacity, &before, &progs, share));
    c.nontrivial(adds > 0 && sw > threads + 1);
    r
}

/// Run under the given schedule; the number of switches, and the outcome.
fn scheduled(c: &mut Case, plan: Vec<(u64, u64)>, stale: Vec<u64>, f: impl Fn() -> R + Send + Sync + 'static) -> (usize, R) {
    let switches = Arc::new(Mutex::new(0));
    let script = Script { left: plan.first().map_or(0, |p| p.0), plan, at: 0, same: 0, started: false, switches: switches.clone() };
    let mut config = Config::new();
    config.max_steps = MaxSteps::FailAfter(300_000);
    config.failure_persistence = FailurePersistence::None;
    config.silence_warnings = true;
    let out: Arc<Mutex<R>> = Arc::new(Mutex::new(Ok(())));
    let sink = out.clone();
    let old = Arc::new(Mutex::new(0));
    let olds = old.clone();
    Runner::new(script, config).run(move || {
        hb::reset(stale.clone());
        LIVE.with(|l| l.borrow_mut().clear());
        let mut r = f();
        let left = LIVE.with(|l| l.borrow().len());
        if r.is_ok() && left != 0 {
            r = Err(format!("{left} stored values were never dropped"));
        }
        *olds.lock().unwrap() = hb::stale_reads();
        if let Some(m) = hb::complaints().into_iter().next() {
            r = Err(m);
        }
        *sink.lock().unwrap() = r;
    });
    let sw = *switches.lock().unwrap();
    c.label_if(sw > 12, "many-switches");
    c.label_if(*old.lock().unwrap() > 0, "old-stores-seen");
    let r = out.lock().unwrap().clone();
    (sw, r)
}

/// Handles released before the threads start; some threads add values, others look at the slots
/// of the released handles, which hold nothing or what was stored there since.
fn released(c: &mut Case) -> R {
    let kept = c.pick(&[0usize, 1, 3, 30, 31]);
    let gone = c.range(1, 3);
    let threads = c.range(2, 4);
    // Ok: add this value. Err: look at a released slot.
    let progs: Vec<Vec<Result<u64, usize>>> = (0..threads)
        .map(|_| {
            let n = c.range(1, 4);
            (0..n).map(|_| if c.coin() { Err(c.below(gone)) } else { Ok(c.draw(5)) }).collect()
        })
        .collect();
    let long = c.pick(&[3u64, 12, 60]);
    let n = c.range(0, 30);
    let n2 = c.pick(&[0usize, 0, 10, 40]);
    let stale: Vec<u64> = (0..n2).map(|_| c.weighted(&[5, 2, 1, 1]) as u64).collect();
    let plan: Vec<(u64, u64)> = (0..n).map(|_| (c.draw(long), c.draw(threads as u64))).collect();
    c.note("values kept, released", &(kept, gone));
    c.note("threads (Ok: add, Err: look at)", &progs);
    c.note("switches (after steps, to)", &plan);
    c.note("age of the stores seen", &stale);
    let adds = progs.iter().flatten().filter(|o| o.is_ok()).count();
    let looks = progs.iter().flatten().count() - adds;
    let progs = Arc::new(progs);
    let (sw, r) = scheduled(c, plan, stale, move || {
        let i: Arc<Interner<Val>> = Arc::new(Interner::new());
        let mut keep = Vec::new();
        for k in 0..kept {
            let v = 1000 + k as u64;
            keep.push(Held { id: i.add::<Key, Num>(Key(v)).into_usize(), val: v });
        }
        // the values 0.. of the released handles may be added again, 100.. may not
        let slots: Vec<usize> = (0..gone).map(|k| i.add::<Key, Num>(Key(if k == 0 { 0 } else { 99 + k as u64 })).into_usize()).collect();
        for s in &slots {
            i.decr(id(*s));
        }
        let slots = Arc::new(slots);
        let mut joins = Vec::new();
        for t in 0..progs.len() {
            let (i, progs, slots) = (i.clone(), progs.clone(), slots.clone());
            let known = hb::snapshot();
            joins.push(shuttle::thread::spawn(move || {
                hb::absorb(&known);
                let mut held = Vec::new();
                let mut r = Ok(());
                for o in &progs[t] {
                    r = match *o {
                        Ok(v) => {
                            let h = Held { id: i.add::<Key, Num>(Key(v)).into_usize(), val: v };
                            let r = read(&i, &h, "right after add");
                            held.push(h);
                            r
                        }
                        Err(k) => match i.try_get(id(slots[k])) {
                            None => Ok(()),
                            Some(v) => {
                                v.touch();
                                if progs.iter().flatten().any(|o| *o == Ok(v.num)) && v.check == !v.num {
                                    Ok(())
                                } else {
                                    Err(format!("slot {} of a released handle reads {}, which nobody has added since", slots[k], v.num))
                                }
                            }
                        },
                    };
                    if r.is_err() {
                        break;
                    }
                }
                drop(i);
                (r.map(|()| held), hb::snapshot())
            }));
        }
        for j in joins {
            match j.join() {
                Ok((r, known)) => {
                    hb::absorb(&known);
                    keep.extend(r?);
                }
                Err(_) => return Err("a thread panicked".into()),
            }
        }
        for h in &keep {
            read(&i, h, "at the end")?;
        }
        Ok(())
    });
    c.nontrivial(adds > 0 && looks > 0 && sw > threads + 1);
    r
}

fn body(filler: usize, capacity: usize, before: &[Op], progs: &Arc<Vec<Vec<Op>>>, share: bool) -> R {
    let i: Arc<Interner<Val>> = Arc::new(if capacity == 0 { Interner::new() } else { Interner::with_capacity(capacity) });
    let mut keep: Vec<Held> = Vec::new();
    for k in 0..filler {
        let v = 1000 + k as u64;
        keep.push(Held { id: i.add::<Key, Num>(Key(v)).into_usize(), val: v });
    }
    let mine = run_ops(&i, Vec::new(), before)?;
    let mut joins = Vec::new();
    for t in 0..progs.len() {
        let given: Vec<Held> = if share {
            mine.iter()
                .map(|h| {
                    i.incr(id(h.id));
                    Held { id: h.id, val: h.val }
                })
                .collect()
        } else {
            Vec::new()
        };
        let (i, progs) = (i.clone(), progs.clone());
        let known = hb::snapshot();
        joins.push(shuttle::thread::spawn(move || {
            hb::absorb(&known);
            let r = run_ops(&i, given, &progs[t]);
            drop(i);
            (r, hb::snapshot())
        }));
    }
    keep.extend(mine);
    for j in joins {
        match j.join() {
            Ok((r, known)) => {
                hb::absorb(&known);
                keep.extend(r?)
            }
            Err(_) => return Err("a thread panicked".into()),
        }
    }
    // at rest: every handle reads its value, counts are exact, slots and values correspond
    let mut count: BTreeMap<usize, usize> = BTreeMap::new();
    let mut slot: BTreeMap<u64, usize> = BTreeMap::new();
    for h in &keep {
        read(&i, h, "at the end")?;
        *count.entry(h.id).or_default() += 1;
        if let Some(other) = slot.insert(h.val, h.id) {
            ck_eq!(other, h.id, "the live value {} sits in two slots", h.val);
        }
    }
    for (s, n) in &count {
        ck_eq!(i.refcount(id(*s)), *n, "references to slot {s}");
    }
    for h in &keep {
        i.decr(id(h.id));
    }
    for s in count.keys() {
        ck!(i.try_get(id(*s)).is_none(), "slot {s} is alive after its last reference was dropped");
    }
    Ok(())
}

fn main() {
    // shuttle prints a report for every panic it sees; the cases are reported by the engine
    harness_main(vec![Prop { id: "C08", subs: vec![sub("schedules", 40_000, interner), sub("released", 15_000, released)] }])
}
