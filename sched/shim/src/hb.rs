//! Vector clocks.
//!
//! The scheduler only interleaves. What orderings weaker than that permit is modelled here: `hb`
//! follows the C++11 happens-before rules (release/acquire, release sequences through
//! read-modify-writes, fences), a load may return any store that coherence lets it see (which one is
//! a generated decision), and a harness asks whether an access to plain memory it observes is
//! ordered after the write it depends on. Where the model simplifies it allows less than the
//! language does, never more: modification order is execution order, a failed compare-exchange and
//! a SeqCst load see the latest store, and a SeqCst fence synchronises with every earlier one.
//!
//! All tasks of an execution are coroutines of one OS thread, hence the thread-local state.
use ::std::cell::RefCell;

pub type Clock = Vec<u32>;

fn join(a: &mut Clock, b: &Clock) {
    if a.len() < b.len() {
        a.resize(b.len(), 0);
    }
    for (x, y) in a.iter_mut().zip(b) {
        *x = (*x).max(*y);
    }
}

#[derive(Default)]
struct Task {
    now: Clock,
    /// clocks seen by relaxed loads, which an acquire fence would take in
    seen: Clock,
    /// the clock at the last release fence
    fenced: Clock,
}

#[derive(Default)]
struct State {
    tasks: Vec<Task>,
    /// which of the visible stores the next loads see, counted back from the latest
    stale: Vec<u64>,
    at: usize,
    stale_reads: usize,
    sc: Clock,
    complaints: Vec<String>,
}

thread_local! {
    static STATE: RefCell<State> = RefCell::new(State::default());
}

fn me() -> usize {
    usize::from(shuttle::current::me())
}

fn with<R>(f: impl FnOnce(&mut Task, usize) -> R) -> R {
    let id = me();
    STATE.with(|s| {
        let mut s = s.borrow_mut();
        while s.tasks.len() <= id {
            s.tasks.push(Task::default());
        }
        let t = &mut s.tasks[id];
        if t.now.len() <= id {
            t.now.resize(id + 1, 0);
        }
        if t.now[id] == 0 {
            t.now[id] = 1;
        }
        f(t, id)
    })
}

/// Forget everything; call at the start of an execution.
pub fn reset(stale: Vec<u64>) {
    STATE.with(|s| *s.borrow_mut() = State { stale, ..State::default() });
}

/// Of `n` visible stores, how far back from the latest to look
fn back(n: usize) -> usize {
    if n < 2 {
        return 0;
    }
    STATE.with(|s| {
        let mut s = s.borrow_mut();
        let d = s.stale.get(s.at).copied().unwrap_or(0) as usize;
        s.at += 1;
        let d = d.min(n - 1);
        if d > 0 {
            s.stale_reads += 1;
        }
        d
    })
}

/// How many loads returned something else than the latest store
pub fn stale_reads() -> usize {
    STATE.with(|s| s.borrow().stale_reads)
}

/// The point in time the current task is at: (task, its component).
pub fn epoch() -> (usize, u32) {
    with(|t, id| (id, t.now[id]))
}

/// Whether that point happens before (or is) now.
pub fn before_now(e: (usize, u32)) -> bool {
    with(|t, _| t.now.get(e.0).copied().unwrap_or(0) >= e.1)
}

/// What a task that is about to be started, or that has finished, knows.
pub fn snapshot() -> Clock {
    with(|t, id| {
        let c = t.now.clone();
        t.now[id] += 1;
        c
    })
}

/// Take in what another task knew (at its start: the parent; after a join: the child).
pub fn absorb(c: &Clock) {
    with(|t, _| join(&mut t.now, c))
}

pub fn complain(m: String) {
    STATE.with(|s| s.borrow_mut().complaints.push(m));
}

pub fn complaints() -> Vec<String> {
    STATE.with(|s| s.borrow().complaints.clone())
}

pub mod atomic {
    use super::{back, before_now, join, with, Clock};
    use ::std::sync::atomic::Ordering as O;
    use ::std::sync::Mutex;
    use shuttle::sync::atomic as sh;

    pub use ::std::sync::atomic::{compiler_fence, Ordering};

    fn acq(o: O) -> bool {
        matches!(o, O::Acquire | O::AcqRel | O::SeqCst)
    }
    fn rel(o: O) -> bool {
        matches!(o, O::Release | O::AcqRel | O::SeqCst)
    }

    pub fn fence(o: Ordering) {
        assert!(o != O::Relaxed, "there is no such thing as a relaxed fence");
        SWITCH.load(O::SeqCst);
        with(|t, id| {
            if acq(o) {
                let s = t.seen.clone();
                join(&mut t.now, &s);
            }
            if rel(o) {
                t.fenced = t.now.clone();
                t.now[id] += 1;
            }
        });
        if o == O::SeqCst {
            let now = with(|t, _| t.now.clone());
            let sc = super::STATE.with(|s| {
                let mut s = s.borrow_mut();
                join(&mut s.sc, &now);
                s.sc.clone()
            });
            with(|t, _| {
                join(&mut t.now, &sc);
                t.fenced = t.now.clone();
            });
        }
    }

    struct Entry<V> {
        val: V,
        /// the clock handed to those that acquire this store
        rel: Clock,
        by: (usize, u32),
    }

    struct Inner<V> {
        /// the stores, in modification order, after the initial value
        hist: Vec<Entry<V>>,
        /// loads: who, when, and which store they saw (0 is the initial value)
        reads: Vec<((usize, u32), usize)>,
    }

    struct Loc<V> {
        init: V,
        inner: Mutex<Inner<V>>,
    }

    // a point where the scheduler may switch
    static SWITCH: sh::AtomicU8 = sh::AtomicU8::new(0);

    impl<V: Copy + PartialEq> Loc<V> {
        const fn new(init: V) -> Loc<V> {
            Loc { init, inner: Mutex::new(Inner { hist: Vec::new(), reads: Vec::new() }) }
        }
        fn latest(&self) -> V {
            let i = self.inner.lock().unwrap();
            i.hist.last().map_or(self.init, |e| e.val)
        }
        fn seen(i: &mut Inner<V>, idx: usize, o: O) {
            if idx > 0 {
                let c = i.hist[idx - 1].rel.clone();
                with(|t, _| {
                    if acq(o) {
                        join(&mut t.now, &c);
                    } else {
                        join(&mut t.seen, &c);
                    }
                });
            }
            let e = super::epoch();
            // a task's reads at one point in time never go backwards, so the last one is enough
            match i.reads.last_mut() {
                Some(l) if l.0 == e => l.1 = l.1.max(idx),
                _ => i.reads.push((e, idx)),
            }
        }
        fn load(&self, o: O) -> V {
            SWITCH.load(O::SeqCst);
            let mut i = self.inner.lock().unwrap();
            let last = i.hist.len();
            let idx = if o == O::SeqCst {
                last
            } else {
                let stores = (1..=last).rev().find(|k| before_now(i.hist[k - 1].by)).unwrap_or(0);
                let reads = i.reads.iter().filter(|(e, _)| before_now(*e)).map(|r| r.1).max().unwrap_or(0);
                let floor = stores.max(reads);
                last - back(last - floor + 1)
            };
            Self::seen(&mut i, idx, o);
            if idx == 0 {
                self.init
            } else {
                i.hist[idx - 1].val
            }
        }
        fn push(i: &mut Inner<V>, val: V, mut rel_clock: Clock, o: O) {
            let by = super::epoch();
            with(|t, id| {
                if rel(o) {
                    join(&mut rel_clock, &t.now);
                    t.now[id] += 1;
                } else {
                    join(&mut rel_clock, &t.fenced);
                }
            });
            i.hist.push(Entry { val, rel: rel_clock, by });
        }
        fn store(&self, val: V, o: O) {
            SWITCH.load(O::SeqCst);
            let mut i = self.inner.lock().unwrap();
            Self::push(&mut i, val, Vec::new(), o);
        }
        /// A read-modify-write always works on the latest store
        fn rmw(&self, s: O, f: O, g: impl FnOnce(V) -> Option<V>) -> Result<V, V> {
            SWITCH.load(O::SeqCst);
            let mut i = self.inner.lock().unwrap();
            let last = i.hist.len();
            let cur = i.hist.last().map_or(self.init, |e| e.val);
            match g(cur) {
                Some(v) => {
                    Self::seen(&mut i, last, s);
                    let c = i.hist.last().map_or(Vec::new(), |e| e.rel.clone());
                    Self::push(&mut i, v, c, s);
                    Ok(cur)
                }
                None => {
                    Self::seen(&mut i, last, f);
                    Err(cur)
                }
            }
        }
    }

    macro_rules! common {
        ([$($g:tt)*] $name:ident $(<$p:ident>)?, $val:ty) => {
            pub struct $name $(<$p>)? {
                loc: Loc<$val>,
            }
            impl $($g)* $name $(<$p>)? {
                pub const fn new(v: $val) -> Self {
                    Self { loc: Loc::new(v) }
                }
                pub fn get_mut(&mut self) -> &mut $val {
                    let v = self.loc.latest();
                    self.loc = Loc::new(v);
                    &mut self.loc.init
                }
                pub fn into_inner(self) -> $val {
                    self.loc.latest()
                }
                pub fn load(&self, o: Ordering) -> $val {
                    self.loc.load(o)
                }
                pub fn store(&self, v: $val, o: Ordering) {
                    self.loc.store(v, o)
                }
                pub fn swap(&self, v: $val, o: Ordering) -> $val {
                    self.loc.rmw(o, o, |_| Some(v)).unwrap()
                }
                pub fn compare_exchange(&self, a: $val, b: $val, s: Ordering, f: Ordering) -> Result<$val, $val> {
                    self.loc.rmw(s, f, |v| (v == a).then_some(b))
                }
                pub fn compare_exchange_weak(&self, a: $val, b: $val, s: Ordering, f: Ordering) -> Result<$val, $val> {
                    self.compare_exchange(a, b, s, f)
                }
                pub fn fetch_update(&self, s: Ordering, f: Ordering, mut g: impl FnMut($val) -> Option<$val>) -> Result<$val, $val> {
                    let mut cur = self.load(f);
                    while let Some(next) = g(cur) {
                        match self.compare_exchange_weak(cur, next, s, f) {
                            x @ Ok(_) => return x,
                            Err(v) => cur = v,
                        }
                    }
                    Err(cur)
                }
                pub fn try_update(&self, s: Ordering, f: Ordering, g: impl FnMut($val) -> Option<$val>) -> Result<$val, $val> {
                    self.fetch_update(s, f, g)
                }
                pub fn update(&self, s: Ordering, f: Ordering, mut g: impl FnMut($val) -> $val) -> $val {
                    self.fetch_update(s, f, |v| Some(g(v))).unwrap()
                }
            }
            impl $($g)* ::std::convert::From<$val> for $name $(<$p>)? {
                fn from(v: $val) -> Self {
                    Self::new(v)
                }
            }
            impl $($g)* ::std::fmt::Debug for $name $(<$p>)? {
                fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
                    f.write_str(stringify!($name))
                }
            }
        };
    }

    macro_rules! rmws {
        ($name:ident, $val:ty; $($m:ident $f:expr,)*) => {
            impl $name {
                $(pub fn $m(&self, v: $val, o: Ordering) -> $val {
                    let f: fn($val, $val) -> $val = $f;
                    self.loc.rmw(o, o, |c| Some(f(c, v))).unwrap()
                })*
            }
            impl Default for $name {
                fn default() -> Self {
                    Self::new(Default::default())
                }
            }
        };
    }

    macro_rules! ints {
        ($($name:ident $val:ty,)*) => {$(
            common!([] $name, $val);
            rmws!($name, $val; fetch_add <$val>::wrapping_add, fetch_sub <$val>::wrapping_sub, fetch_and |a, b| a & b,
                fetch_nand |a, b| !(a & b), fetch_or |a, b| a | b, fetch_xor |a, b| a ^ b, fetch_max |a, b| a.max(b),
                fetch_min |a, b| a.min(b),);
        )*};
    }

    ints!(AtomicUsize usize, AtomicIsize isize, AtomicU8 u8, AtomicU16 u16, AtomicU32 u32, AtomicU64 u64,
          AtomicI8 i8, AtomicI16 i16, AtomicI32 i32, AtomicI64 i64,);
    common!([] AtomicBool, bool);
    rmws!(AtomicBool, bool; fetch_and |a, b| a & b, fetch_nand |a, b| !(a & b), fetch_or |a, b| a | b, fetch_xor |a, b| a ^ b,);
    impl AtomicBool {
        pub fn fetch_not(&self, o: Ordering) -> bool {
            self.fetch_xor(true, o)
        }
    }
    common!([<T>] AtomicPtr<T>, *mut T);
    impl<T> Default for AtomicPtr<T> {
        fn default() -> Self {
            Self::new(::std::ptr::null_mut())
        }
    }
    // SAFETY: as the standard library's
    unsafe impl<T> Send for AtomicPtr<T> {}
    // SAFETY: as the standard library's
    unsafe impl<T> Sync for AtomicPtr<T> {}
}
