//! A small property-based testing engine.
//!
//! Every case is generated from a *tape* of bounded integer choices.  In search mode the
//! choices come from a seeded PRNG and are recorded; in replay mode they come from a saved
//! tape.  Shrinking works on the tape (delete, zero, minimise), so any structured input or
//! operation sequence shrinks without writing a shrinker for it.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};

pub type R = Result<(), String>;
pub type CheckFn = fn(&mut Case) -> R;

#[derive(Clone)]
pub struct Sub {
    pub name: &'static str,
    pub f: CheckFn,
    /// Cases in the quick tier (total over all shards of one profile).
    pub quick: u64,
}

pub struct Prop {
    pub id: &'static str,
    pub subs: Vec<Sub>,
}

pub fn sub(name: &'static str, quick: u64, f: CheckFn) -> Sub {
    Sub { name, f, quick }
}

// ---------------------------------------------------------------- PRNG

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

fn fnv(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h ^= u64::from(b);
        h = h.wrapping_mul(0x0100_0000_01b3);
    }
    h
}

/// Values the code under test mentions (see tools/literals.py).  A draw from a wide range takes one
/// of them, or a near relative, now and then.
fn dictionary() -> &'static [u64] {
    static DICT: std::sync::OnceLock<Vec<u64>> = std::sync::OnceLock::new();
    DICT.get_or_init(|| {
        std::env::var_os("VERIF_DICT")
            .and_then(|p| std::fs::read_to_string(p).ok())
            .map(|t| t.lines().filter_map(|l| l.trim().parse().ok()).collect())
            .unwrap_or_default()
    })
}

fn from_dictionary(s: &mut u64) -> Option<u64> {
    let r = splitmix(s);
    if r % 24 != 0 {
        return None;
    }
    let dict = dictionary();
    if dict.is_empty() {
        return None;
    }
    let d = dict[(r >> 8) as usize % dict.len()];
    let v = match (r >> 32) % 16 {
        0..=5 => d,
        6 | 7 => d.wrapping_add(1),
        8 | 9 => d.wrapping_sub(1),
        10 => d.wrapping_neg(),
        11 => d.wrapping_mul(2),
        12 => d.wrapping_mul(8),
        13 => d.wrapping_mul(64),
        14 if d < 64 => 1 << d,
        14 => d.wrapping_sub(2),
        _ => d.wrapping_mul(1 + (r >> 40) % 40).wrapping_add((r >> 50) % 3),
    };
    Some(v)
}

enum Source {
    Rng(u64),
    Tape(Vec<u64>, usize),
}

pub struct Case {
    src: Source,
    pub tape: Vec<u64>,
    notes: Option<Vec<(String, String)>>,
    nontrivial: bool,
    labels: Vec<&'static str>,
    spill: Option<std::fs::File>,
}

impl Case {
    fn rng(seed: u64) -> Case {
        Case {
            src: Source::Rng(seed),
            tape: Vec::new(),
            notes: None,
            nontrivial: false,
            labels: Vec::new(),
            spill: None,
        }
    }

    fn from_tape(t: &[u64]) -> Case {
        Case {
            src: Source::Tape(t.to_vec(), 0),
            tape: Vec::new(),
            notes: None,
            nontrivial: false,
            labels: Vec::new(),
            spill: None,
        }
    }

    /// One choice in `0..=max`.
    pub fn draw(&mut self, max: u64) -> u64 {
        self.choose(0, max, max >= 40)
    }

    /// One choice in `0..=max`, standing for a value that much above `lo`.
    fn choose(&mut self, lo: u64, max: u64, lean: bool) -> u64 {
        let v = match &mut self.src {
            Source::Rng(s) => {
                let known = if lean {
                    from_dictionary(s).map(|v| v.wrapping_sub(lo)).filter(|v| *v <= max)
                } else {
                    None
                };
                let r = splitmix(s);
                if let Some(v) = known {
                    v
                } else if max == u64::MAX {
                    r
                } else {
                    ((u128::from(r) * (u128::from(max) + 1)) >> 64) as u64
                }
            }
            Source::Tape(t, p) => {
                let v = t.get(*p).copied().unwrap_or(0);
                *p += 1;
                if v > max {
                    v % (max + 1)
                } else {
                    v
                }
            }
        };
        self.tape.push(v);
        if let Some(f) = &mut self.spill {
            let _ = f.write_all(&v.to_le_bytes());
        }
        v
    }

    pub fn below(&mut self, n: usize) -> usize {
        assert!(n > 0);
        self.draw(n as u64 - 1) as usize
    }

    /// `lo..=hi`
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.choose(lo as u64, (hi - lo) as u64, hi - lo >= 40) as usize
    }

    pub fn irange(&mut self, lo: i64, hi: i64) -> i64 {
        let span = hi.wrapping_sub(lo) as u64;
        lo.wrapping_add(self.choose(lo as u64, span, span >= 40) as i64)
    }

    /// True with probability `p`/256.
    pub fn chance(&mut self, p: u64) -> bool {
        // large draw -> true, so that shrinking goes to false
        self.choose(0, 255, false) >= 256 - p.min(256)
    }

    pub fn coin(&mut self) -> bool {
        self.draw(1) == 1
    }

    pub fn pick<T: Clone>(&mut self, xs: &[T]) -> T {
        let i = self.choose(0, xs.len() as u64 - 1, false) as usize;
        xs[i].clone()
    }

    pub fn weighted(&mut self, ws: &[u32]) -> usize {
        let tot: u64 = ws.iter().map(|w| u64::from(*w)).sum();
        let mut r = self.choose(0, tot - 1, false);
        for (i, w) in ws.iter().enumerate() {
            if r < u64::from(*w) {
                return i;
            }
            r -= u64::from(*w);
        }
        unreachable!()
    }

    pub fn u64(&mut self) -> u64 {
        self.draw(u64::MAX)
    }

    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.draw(255) as u8).collect()
    }

    /// Record a part of the generated input (only kept for samples and failures).
    pub fn note<T: Debug + ?Sized>(&mut self, name: &str, v: &T) {
        if let Some(n) = &mut self.notes {
            n.push((name.to_string(), format!("{v:?}")));
        }
    }

    pub fn noting(&self) -> bool {
        self.notes.is_some()
    }

    pub fn nontrivial(&mut self, yes: bool) {
        self.nontrivial |= yes;
    }

    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }

    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.label(l);
        }
    }
}

// ---------------------------------------------------------------- failing

#[macro_export]
macro_rules! ck {
    ($c:expr, $($a:tt)*) => {
        if !$c { return Err(format!($($a)*)); }
    };
}

#[macro_export]
macro_rules! ck_eq {
    ($a:expr, $b:expr, $($m:tt)*) => {{
        let (got, want) = (&$a, &$b);
        if !(got == want) {
            return Err(format!("{}: got {:?}, expected {:?}", format!($($m)*), got, want));
        }
    }};
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = format!("panicked at {loc}: {msg}"));
    }));
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

/// `None` if the closure panicked.
pub fn may_panic<T>(f: impl FnOnce() -> T) -> Option<T> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}

/// Run an operation that has to return normally.
pub fn must<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| format!("{what}: {}", last_panic()))
}

/// The harness's own exact numbers ran out of room: the case says nothing.
pub const OUT_OF_ROOM: &str = "harness scalar overflow";

fn run_one(f: CheckFn, c: &mut Case) -> R {
    PROGRESS.fetch_add(1, Ordering::Relaxed);
    crate::heap::keep_back();
    let r = match catch_unwind(AssertUnwindSafe(|| f(c))) {
        Ok(r) => r,
        Err(_) => Err(last_panic()),
    };
    let r = match crate::heap::trouble() {
        Some(m) => Err(m),
        None => r,
    };
    match r {
        Err(m) if m.contains(OUT_OF_ROOM) => {
            c.label("discarded");
            Ok(())
        }
        r => r,
    }
}

// ---------------------------------------------------------------- cases that do not return

/// Counts cases; stands still while one runs.
static PROGRESS: AtomicU64 = AtomicU64::new(0);
/// Moves on within a case that is long on purpose
static STEPS: AtomicU64 = AtomicU64::new(0);
/// Called by a long case for each of its steps: the time limit is then one for each step
pub fn step() {
    STEPS.fetch_add(1, Ordering::Relaxed);
}
/// Cases take milliseconds.  One that used this much processor time does not return.
const HANG_CPU_S: u64 = 20;
/// Exit code for that
const HANG: i32 = 3;

/// Processor time of this process, in seconds
fn cpu_seconds() -> u64 {
    let stat = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let after = stat.rsplit(')').next().unwrap_or("");
    let f: Vec<&str> = after.split_whitespace().collect();
    // fields 14 and 15 of the line, in ticks of 10 ms
    let tick = |i: usize| f.get(i).and_then(|v| v.parse::<u64>().ok()).unwrap_or(0);
    (tick(11) + tick(12)) / 100
}

fn watchdog() {
    std::thread::spawn(|| {
        let (mut seen, mut since) = ((u64::MAX, 0), 0);
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let (at, cpu) = ((PROGRESS.load(Ordering::Relaxed), STEPS.load(Ordering::Relaxed)), cpu_seconds());
            let now = at.0;
            if at != seen {
                (seen, since) = (at, cpu);
            } else if cpu.saturating_sub(since) >= HANG_CPU_S {
                eprintln!("case {} of this process used {HANG_CPU_S} s of processor time", now.wrapping_sub(1));
                std::process::exit(HANG);
            }
        }
    });
}

// ---------------------------------------------------------------- shrinking

/// Minimise a failing tape under `fails`.
pub fn shrink(start: Vec<u64>, budget: usize, mut fails: impl FnMut(&[u64]) -> Option<Vec<u64>>) -> Vec<u64> {
    // `fails` returns the tape actually consumed when the candidate still fails.
    let mut best = start;
    let mut left = budget;
    let end = std::time::Instant::now() + std::time::Duration::from_secs(60);
    let key = |t: &[u64]| {
        (
            t.len(),
            t.iter().map(|v| u128::from(*v)).sum::<u128>(),
            t.to_vec(),
        )
    };
    macro_rules! attempt {
        ($cand:expr) => {{
            let cand: Vec<u64> = $cand;
            if left == 0 || std::time::Instant::now() > end {
                left = 0;
                false
            } else {
                left -= 1;
                match fails(&cand) {
                    Some(used) if key(&used) < key(&best) => {
                        best = used;
                        true
                    }
                    _ => false,
                }
            }
        }};
    }
    loop {
        let before = key(&best);
        // delete chunks
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.len() {
                let end = (i + size).min(best.len());
                let mut c = best.clone();
                c.drain(i..end);
                if !attempt!(c) {
                    i += size;
                }
                if left == 0 {
                    return best;
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // zero chunks
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.len() {
                let end = (i + size).min(best.len());
                if best[i..end].iter().any(|v| *v != 0) {
                    let mut c = best.clone();
                    c[i..end].iter_mut().for_each(|v| *v = 0);
                    attempt!(c);
                }
                i += size;
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // minimise single values
        let mut i = 0;
        while i < best.len() {
            let (mut lo, mut hi) = (0u64, best[i]);
            // find the smallest failing value assuming rough monotonicity
            while lo < hi && left > 0 {
                let mid = lo + (hi - lo) / 2;
                let mut c = best.clone();
                c[i] = mid;
                if attempt!(c) {
                    if i >= best.len() {
                        break;
                    }
                    hi = best[i].min(mid);
                } else {
                    lo = mid + 1;
                }
            }
            if i < best.len() && best[i] > 0 {
                let mut c = best.clone();
                c[i] -= 1;
                attempt!(c);
            }
            i += 1;
        }
        if key(&best) >= before || left == 0 {
            return best;
        }
    }
}

// ---------------------------------------------------------------- JSON

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn jtape(t: &[u64]) -> String {
    // strings, because JSON numbers lose 64-bit integers in some readers
    let v: Vec<String> = t.iter().map(|x| format!("\"{x}\"")).collect();
    format!("[{}]", v.join(","))
}

fn jnotes(n: &[(String, String)]) -> String {
    let v: Vec<String> = n
        .iter()
        .map(|(k, v)| {
            let v: String = if v.len() > 1500 {
                let cut: String = v.chars().take(1500).collect();
                format!("{cut}...")
            } else {
                v.clone()
            };
            format!("[{},{}]", jstr(k), jstr(&v))
        })
        .collect();
    format!("[{}]", v.join(","))
}

fn annotate(f: CheckFn, tape: &[u64]) -> (R, Vec<(String, String)>, Vec<u64>) {
    let mut c = Case::from_tape(tape);
    c.notes = Some(Vec::new());
    let r = run_one(f, &mut c);
    (r, c.notes.unwrap_or_default(), c.tape)
}

fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter()
        .position(|a| a == name)
        .and_then(|i| args.get(i + 1).cloned())
}

/// Command line of every harness binary:
/// `list` | `run --prop P --sub S --seed N --shard K --shards M --cases N --out F --hashes F`
/// `prefix …same… --upto I` | `replay --prop P --sub S --tape a,b,c` | `merge F...`
pub fn harness_main(props: Vec<Prop>) -> ! {
    install_hook();
    // Deep recursion in generated code must not hit the small default main stack.
    let h = std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || real_main(props))
        .unwrap();
    let code = h.join().unwrap_or(2);
    std::process::exit(code)
}

fn real_main(props: Vec<Prop>) -> i32 {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let cmd = args.first().cloned().unwrap_or_default();
    if cmd == "list" {
        let mut out = Vec::new();
        for p in &props {
            for s in &p.subs {
                out.push(format!(
                    "{{\"prop\":{},\"sub\":{},\"quick\":{}}}",
                    jstr(p.id),
                    jstr(s.name),
                    s.quick
                ));
            }
        }
        println!("[{}]", out.join(","));
        return 0;
    }
    if cmd == "merge" {
        let mut all: Vec<u64> = Vec::new();
        for f in &args[1..] {
            let b = std::fs::read(f).unwrap_or_default();
            all.extend(b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
        }
        all.sort_unstable();
        all.dedup();
        println!("{}", all.len());
        return 0;
    }
    let pid = arg(&args, "--prop").expect("--prop");
    let sname = arg(&args, "--sub").expect("--sub");
    let s = props
        .iter()
        .find(|p| p.id == pid)
        .and_then(|p| p.subs.iter().find(|s| s.name == sname))
        .expect("unknown prop/sub")
        .clone();
    if cmd == "replay" || cmd == "shrink" {
        let tape: Vec<u64> = arg(&args, "--tape")
            .unwrap_or_default()
            .split(',')
            .filter(|s| !s.is_empty())
            .map(|s| s.parse().unwrap())
            .collect();
        if cmd == "shrink" {
            // The case kills the process: every candidate runs in a child.
            let exe = std::env::current_exe().unwrap();
            let best = shrink(tape, 400, |t| {
                let ts: Vec<String> = t.iter().map(u64::to_string).collect();
                let st = std::process::Command::new(&exe)
                    .args(["replay", "--prop", &pid, "--sub", &sname, "--tape", &ts.join(",")])
                    .stdout(std::process::Stdio::null())
                    .stderr(std::process::Stdio::null())
                    .status();
                match st {
                    Ok(st) if st.code() == Some(0) || st.code() == Some(2) => None,
                    Ok(_) => Some(t.to_vec()),
                    Err(_) => None,
                }
            });
            println!("{}", jtape(&best));
            return 0;
        }
        watchdog();
        let (r, notes, _) = annotate(s.f, &tape);
        return match r {
            Ok(()) => {
                println!("{{\"ok\":true,\"notes\":{}}}", jnotes(&notes));
                0
            }
            Err(e) => {
                println!(
                    "{{\"ok\":false,\"message\":{},\"notes\":{}}}",
                    jstr(&e),
                    jnotes(&notes)
                );
                1
            }
        };
    }
    // run
    watchdog();
    let num = |n: &str, d: u64| arg(&args, n).map_or(d, |v| v.parse().unwrap());
    let seed = num("--seed", 1);
    let shard = num("--shard", 0);
    let cases = num("--cases", s.quick);
    let upto = num("--upto", u64::MAX);
    let from = num("--from", 0);
    let crumb = arg(&args, "--crumb");
    let base = {
        let mut x = seed
            .wrapping_mul(0x1000_0000_01b3)
            .wrapping_add(fnv(&format!("{pid}/{sname}/{shard}")));
        splitmix(&mut x)
    };
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut labels: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut samples: Vec<Vec<u64>> = Vec::new();
    let mut evals = 0u64;
    let mut nontriv = 0u64;
    let mut failure: Option<(u64, Vec<u64>, String)> = None;
    // seconds since 1970; a slow machine looks at fewer cases rather than giving no answer
    let until = num("--until", u64::MAX);
    let late = || std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map_or(0, |d| d.as_secs()) >= until;
    for i in from..cases {
        if i > upto || (until != u64::MAX && i > from && (i - from) % 8 == 0 && late()) {
            break;
        }
        let mut cs = base ^ i.wrapping_mul(0xD6E8_FEB8_6659_FD93);
        let cs = splitmix(&mut cs);
        let mut c = Case::rng(cs);
        if let Some(cr) = &crumb {
            let _ = std::fs::write(format!("{cr}.idx"), i.to_string());
            c.spill = std::fs::File::create(format!("{cr}.tape")).ok();
        }
        let r = run_one(s.f, &mut c);
        evals += 1;
        for l in &c.labels {
            *labels.entry(l).or_default() += 1;
        }
        if c.nontrivial {
            nontriv += 1;
            let mut h = fnv(&sname);
            for v in &c.tape {
                h ^= *v;
                h = h.wrapping_mul(0x9E37_79B9_7F4A_7C15);
                h ^= h >> 29;
            }
            if hashes.insert(h) && (samples.len() < 2 || (i.is_power_of_two() && samples.len() < 4)) {
                samples.push(c.tape.clone());
            }
        }
        if let Err(e) = r {
            failure = Some((i, c.tape.clone(), e));
            break;
        }
    }
    // Samples are written out by re-running them with notes on.
    let mut sample_json = Vec::new();
    if failure.is_none() && upto == u64::MAX {
        for t in &samples {
            let (_, notes, _) = annotate(s.f, t);
            sample_json.push(jnotes(&notes));
        }
    }
    let lj: Vec<String> = labels.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect();
    let emit = |fail_json: &str, last: bool| {
        let out = format!(
            "{{\"evaluations\":{evals},\"nontrivial\":{nontriv},\"distinct\":{},\"labels\":{{{}}},\"samples\":[{}],\"failure\":{}}}",
            hashes.len(),
            lj.join(","),
            sample_json.join(","),
            fail_json
        );
        match arg(&args, "--out") {
            Some(f) => {
                std::fs::write(format!("{f}.tmp"), out).unwrap();
                std::fs::rename(format!("{f}.tmp"), f).unwrap();
            }
            None if last => println!("{out}"),
            None => {}
        }
    };
    let mut fail_json = "null".to_string();
    if let Some((i, tape, msg)) = &failure {
        let render = |best: &[u64], message: &str, notes: &[(String, String)]| {
            format!(
                "{{\"index\":{},\"tape\":{},\"original\":{},\"message\":{},\"first_message\":{},\"notes\":{}}}",
                i,
                jtape(best),
                jtape(tape),
                jstr(message),
                jstr(msg),
                jnotes(notes)
            )
        };
        // What was found stays found if making it smaller kills or blocks this process.
        fail_json = render(tape, msg, &[]);
        emit(&fail_json, false);
        if upto == u64::MAX {
            let best = shrink(tape.clone(), 3000, |t| {
                let mut c = Case::from_tape(t);
                let r = run_one(s.f, &mut c);
                r.is_err().then(|| c.tape.clone())
            });
            let (r, notes, _) = annotate(s.f, &best);
            fail_json = render(&best, r.as_ref().err().unwrap_or(msg), &notes);
        }
    }
    if let Some(h) = arg(&args, "--hashes") {
        let mut b = Vec::with_capacity(hashes.len() * 8);
        for x in &hashes {
            b.extend_from_slice(&x.to_le_bytes());
        }
        let _ = std::fs::write(h, b);
    }
    emit(&fail_json, true);
    i32::from(failure.is_some())
}
