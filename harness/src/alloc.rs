//! Allocator with fault injection: the n-th allocation of one of the armed sizes on this thread fails.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicUsize, Ordering::Relaxed};

pub struct Inj;
#[derive(Copy, Clone)]
struct Arm { sizes: [usize; 4], countdown: u32, seen: u32, failed: u32 }
thread_local! { static ARM: Cell<Arm> = const { Cell::new(Arm { sizes: [0; 4], countdown: 0, seen: 0, failed: 0 }) }; }

impl Inj {
    #[inline(always)]
    fn fails(&self, size: usize) -> bool {
        if size < 64 { return false; }
        if GLOBAL.load(Relaxed) && (G_SIZES[0].load(Relaxed) == size || G_SIZES[1].load(Relaxed) == size) && !NOT_ME.try_with(|c| c.get()).unwrap_or(true) {
            let i = 1 + G_SEEN.fetch_add(1, Relaxed);
            let from = G_FROM.load(Relaxed);
            if from > 0 && i >= from && i < from + G_LEN.load(Relaxed) { G_FAILED.fetch_add(1, Relaxed); return true; }
        }
        ARM.try_with(|c| {
            let mut a = c.get();
            if a.sizes[0] == 0 || !a.sizes.contains(&size) { return false; }
            a.seen += 1;
            let f = a.countdown > 0 && a.seen == a.countdown;
            if f { a.failed += 1; }
            c.set(a);
            f
        }).unwrap_or(false)
    }
}
unsafe impl GlobalAlloc for Inj {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { if self.fails(l.size()) { return std::ptr::null_mut(); } bal(1, l.size() as i64); System.alloc(l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { if self.fails(l.size()) { return std::ptr::null_mut(); } bal(1, l.size() as i64); System.alloc_zeroed(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { bal(-1, -(l.size() as i64)); System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { if self.fails(n) { return std::ptr::null_mut(); } bal(0, n as i64 - l.size() as i64); System.realloc(p, l, n) }
}

// allocations minus deallocations of this thread: (blocks, bytes, highest bytes)
thread_local! { static BAL: Cell<(i64, i64, i64)> = const { Cell::new((0, 0, 0)) }; }
#[inline(always)]
fn bal(n: i64, bytes: i64) { let _ = BAL.try_with(|c| { let (a, b, m) = c.get(); let b = b + bytes; c.set((a + n, b, m.max(b))); }); }
/// blocks and bytes allocated by this thread and not yet freed by it
pub fn balance() -> (i64, i64) { BAL.with(|c| { let b = c.get(); (b.0, b.1) }) }
/// runs f and returns its highest number of bytes allocated above the start
pub fn peak<T>(f: impl FnOnce() -> T) -> (T, i64) {
    let start = BAL.with(|c| { let (a, b, _) = c.get(); c.set((a, b, b)); b });
    let r = f();
    (r, BAL.with(|c| c.get().2) - start)
}

// faults on every thread but the one that arms
static GLOBAL: AtomicBool = AtomicBool::new(false);
static G_SIZES: [AtomicUsize; 2] = [AtomicUsize::new(0), AtomicUsize::new(0)];
static G_SEEN: AtomicU32 = AtomicU32::new(0);
static G_FROM: AtomicU32 = AtomicU32::new(0);
static G_LEN: AtomicU32 = AtomicU32::new(0);
static G_FAILED: AtomicU32 = AtomicU32::new(0);
thread_local! { static NOT_ME: Cell<bool> = const { Cell::new(false) }; }
/// the `from`-th to `from + len - 1`-th allocation of these sizes on other threads fails; 0 only counts
pub fn arm_others(sizes: [usize; 2], from: u32, len: u32) {
    NOT_ME.with(|c| c.set(true));
    for (s, v) in G_SIZES.iter().zip(sizes) { s.store(v, Relaxed); }
    G_SEEN.store(0, Relaxed); G_FAILED.store(0, Relaxed); G_FROM.store(from, Relaxed); G_LEN.store(len, Relaxed);
    GLOBAL.store(true, Relaxed);
}
pub fn disarm_others() -> (u32, u32) {
    GLOBAL.store(false, Relaxed);
    NOT_ME.with(|c| c.set(false));
    (G_SEEN.load(Relaxed), G_FAILED.load(Relaxed))
}

/// nth = 0 only counts
pub fn arm(sizes: [usize; 4], nth: u32) { ARM.with(|c| c.set(Arm { sizes, countdown: nth, seen: 0, failed: 0 })); }
/// allocations seen, and made to fail, since armed
pub fn disarm() -> (u32, u32) { ARM.with(|c| { let a = c.get(); c.set(Arm { sizes: [0; 4], countdown: 0, seen: 0, failed: 0 }); (a.seen, a.failed) }) }
