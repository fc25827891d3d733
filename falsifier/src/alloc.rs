//! Counting allocator: what is live, the peak, and (when asked) every live block, to see double frees and leaks.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicUsize, Ordering::*};

pub struct Track;

thread_local! {
    static LIVE: std::cell::Cell<i64> = const { std::cell::Cell::new(0) };
    static PEAK: std::cell::Cell<i64> = const { std::cell::Cell::new(0) };
    static BLOCKS: std::cell::Cell<i64> = const { std::cell::Cell::new(0) };
}

/// Blocks being watched (for C16): address and size.
const SLOTS: usize = 1 << 16;
static WATCH: AtomicBool = AtomicBool::new(false);
static TABLE: [AtomicUsize; SLOTS] = [const { AtomicUsize::new(0) }; SLOTS];
static SIZES: [AtomicUsize; SLOTS] = [const { AtomicUsize::new(0) }; SLOTS];
pub static BAD_FREE: AtomicI64 = AtomicI64::new(0);

fn note(d: i64, b: i64) {
    let _ = LIVE.try_with(|l| {
        let x = l.get() + d;
        l.set(x);
        let _ = PEAK.try_with(|p| {
            if x > p.get() {
                p.set(x)
            }
        });
        let _ = BLOCKS.try_with(|k| k.set(k.get() + b));
    });
}

fn slot(p: usize) -> usize {
    (p >> 4).wrapping_mul(0x9e3779b97f4a7c15) >> 48
}

fn watch_add(p: usize, n: usize) {
    let mut i = slot(p);
    for _ in 0..SLOTS {
        let v = TABLE[i].load(Relaxed);
        if v == 0 || v == 1 {
            TABLE[i].store(p, Relaxed);
            SIZES[i].store(n, Relaxed);
            return;
        }
        i = (i + 1) % SLOTS;
    }
}

/// Whether a watched block of this address and size was removed.
fn watch_del(p: usize, n: usize) -> bool {
    let mut i = slot(p);
    for _ in 0..SLOTS {
        let v = TABLE[i].load(Relaxed);
        if v == p {
            TABLE[i].store(1, Relaxed);
            return SIZES[i].load(Relaxed) == n;
        }
        if v == 0 {
            return false;
        }
        i = (i + 1) % SLOTS;
    }
    false
}

unsafe impl GlobalAlloc for Track {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            note(l.size() as i64, 1);
            if WATCH.load(Relaxed) {
                watch_add(p as usize, l.size());
            }
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            note(l.size() as i64, 1);
            if WATCH.load(Relaxed) {
                watch_add(p as usize, l.size());
            }
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note(-(l.size() as i64), -1);
        if WATCH.load(Relaxed) && !watch_del(p as usize, l.size()) {
            // while watching, only blocks made while watching may be freed
            BAD_FREE.fetch_add(1, Relaxed);
            return;
        }
        // poison, so that a use after free does not go unnoticed
        std::ptr::write_bytes(p, 0xdb, l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if WATCH.load(Relaxed) && !watch_del(p as usize, l.size()) {
            BAD_FREE.fetch_add(1, Relaxed);
            let q = System.alloc(Layout::from_size_align_unchecked(n, l.align()));
            watch_add(q as usize, n);
            return q;
        }
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            // old and new may both exist for a moment
            note(n as i64, 0);
            note(-(l.size() as i64), 0);
            if WATCH.load(Relaxed) {
                watch_add(q as usize, n);
            }
        } else if WATCH.load(Relaxed) {
            watch_add(p as usize, l.size());
        }
        q
    }
}

pub fn live() -> i64 {
    LIVE.with(|l| l.get())
}
pub fn reset_peak() -> i64 {
    let x = live();
    PEAK.with(|p| p.set(x));
    x
}
pub fn peak() -> i64 {
    PEAK.with(|p| p.get())
}

/// Run `f` with every allocation watched: the number of bad frees, and the blocks left live.
pub fn watched<R>(f: impl FnOnce() -> R) -> (R, i64, usize) {
    BAD_FREE.store(0, SeqCst);
    for t in TABLE.iter() {
        t.store(0, Relaxed);
    }
    WATCH.store(true, SeqCst);
    let r = f();
    WATCH.store(false, SeqCst);
    let left = TABLE.iter().filter(|t| t.load(Relaxed) > 1).count();
    (r, BAD_FREE.load(SeqCst), left)
}
