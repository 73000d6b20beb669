//! An allocator that makes misuse of the heap visible: fresh memory is filled with one pattern and
//! freed memory with another (so that reading what was never written, or no longer belongs to the
//! reader, gives wrong numbers instead of plausible ones), the bytes after a block are checked when it is freed, freeing twice
//! is noticed, and small blocks are kept back for a while to see whether anything still writes to them.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, UnsafeCell};
use std::sync::atomic::{AtomicIsize, AtomicUsize, Ordering};

const PRE: usize = 32;
const POST: usize = 16;
const LIVE: u64 = 0x11fe_11fe_5afe_0001;
const DEAD: u64 = 0xdead_dead_dead_0002;
const FRESH: u8 = 0xa5;
const FREED: u8 = 0xdd;
const CANARY: u8 = 0xfd;
/// Of large blocks only the ends are filled
const FILL: usize = 512;
const KEPT: usize = 64;
const KEPT_SIZE: usize = 1024;

/// Bytes allocated and not yet given back
pub static HELD: AtomicIsize = AtomicIsize::new(0);
static BAD: AtomicUsize = AtomicUsize::new(0);
const WHAT: [&str; 6] = [
    "",
    "memory was freed twice",
    "memory was freed that was not allocated",
    "memory was freed with another size than it was allocated with",
    "bytes after the end of an allocation were written",
    "memory was written after it was freed",
];

/// What went wrong on the heap since the last call, if anything
pub fn trouble() -> Option<String> {
    match BAD.swap(0, Ordering::Relaxed) {
        0 => None,
        k => Some(format!("heap: {}", WHAT[k])),
    }
}

struct Ring {
    at: usize,
    kept: [(*mut u8, usize, usize); KEPT],
}

thread_local! {
    static KEEP: Cell<bool> = const { Cell::new(false) };
    static RING: UnsafeCell<Ring> = const { UnsafeCell::new(Ring { at: 0, kept: [(std::ptr::null_mut(), 0, 0); KEPT] }) };
}

/// From now on keep blocks back that this thread frees.  (For a thread that lives as long as the process.)
pub fn keep_back() {
    KEEP.with(|k| k.set(true));
}

pub struct Heap;

unsafe fn fill(p: *mut u8, size: usize, with: u8) {
    if size <= 2 * FILL {
        p.write_bytes(with, size);
    } else {
        p.write_bytes(with, FILL);
        p.add(size - FILL).write_bytes(with, FILL);
    }
}

fn whole(l: Layout) -> (usize, Layout) {
    let pre = PRE.max(l.align());
    // SAFETY: the alignment is one already, and a size that wraps around is refused by the system's allocator
    (pre, unsafe { Layout::from_size_align_unchecked(l.size() + pre + POST, l.align().max(16)) })
}

unsafe fn mark(base: *mut u8, pre: usize, size: usize) -> *mut u8 {
    let p = base.add(pre);
    (p.sub(16) as *mut u64).write(LIVE);
    (p.sub(8) as *mut u64).write(size as u64);
    p.add(size).write_bytes(CANARY, POST);
    p
}

unsafe fn release(p: *mut u8, size: usize, align: usize) {
    let (pre, w) = whole(Layout::from_size_align_unchecked(size, align));
    System.dealloc(p.sub(pre), w);
}

/// Whether a freed block is as it was left
unsafe fn still(p: *const u8, size: usize) -> bool {
    let words = size / 8;
    (0..words).all(|i| p.add(i * 8).cast::<u64>().read() == u64::from_ne_bytes([FREED; 8])) && (words * 8..size).all(|i| p.add(i).read() == FREED)
}

// SAFETY: hands out blocks of the system's allocator, from `pre` bytes after their start
unsafe impl GlobalAlloc for Heap {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > isize::MAX as usize / 2 {
            return std::ptr::null_mut();
        }
        let (pre, w) = whole(l);
        let base = System.alloc(w);
        if base.is_null() {
            return base;
        }
        HELD.fetch_add(l.size() as isize, Ordering::Relaxed);
        fill(base.add(pre), l.size(), FRESH);
        mark(base, pre, l.size())
    }

    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() > isize::MAX as usize / 2 {
            return std::ptr::null_mut();
        }
        let (pre, w) = whole(l);
        let base = System.alloc_zeroed(w);
        if base.is_null() {
            return base;
        }
        HELD.fetch_add(l.size() as isize, Ordering::Relaxed);
        mark(base, pre, l.size())
    }

    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let head = p.sub(16) as *mut u64;
        match head.read() {
            LIVE => {}
            DEAD => return BAD.store(1, Ordering::Relaxed),
            _ => return BAD.store(2, Ordering::Relaxed),
        }
        if p.sub(8).cast::<u64>().read() != l.size() as u64 {
            return BAD.store(3, Ordering::Relaxed);
        }
        HELD.fetch_sub(l.size() as isize, Ordering::Relaxed);
        if p.add(l.size()).cast::<u128>().read_unaligned() != u128::from_ne_bytes([CANARY; POST]) {
            BAD.store(4, Ordering::Relaxed);
        }
        head.write(DEAD);
        fill(p, l.size(), FREED);
        if l.size() > KEPT_SIZE || !KEEP.try_with(Cell::get).unwrap_or(false) {
            return release(p, l.size(), l.align());
        }
        let (p, size, align) = RING.with(|r| {
            let r = &mut *r.get();
            r.at = (r.at + 1) % KEPT;
            std::mem::replace(&mut r.kept[r.at], (p, l.size(), l.align()))
        });
        if !p.is_null() {
            if p.sub(16).cast::<u64>().read() != DEAD || !still(p, size) {
                BAD.store(5, Ordering::Relaxed);
            }
            release(p, size, align);
        }
    }
}
