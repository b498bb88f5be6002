//! Counting allocator: what the parser asks for on the current thread.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static BYTES: Cell<u64> = const { Cell::new(0) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}

/// More than this held by one thread is treated as running away
const LIMIT: i64 = 1 << 30;

fn add(n: usize) -> bool {
    LIVE.try_with(|l| {
        let v = l.get() + n as i64;
        if v > LIMIT {
            return false;
        }
        l.set(v);
        let _ = PEAK.try_with(|p| p.set(p.get().max(v)));
        let _ = BYTES.try_with(|b| b.set(b.get() + n as u64));
        let _ = CALLS.try_with(|c| c.set(c.get() + 1));
        true
    })
    .unwrap_or(true)
}
fn sub(n: usize) {
    let _ = LIVE.try_with(|l| l.set(l.get() - n as i64));
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !add(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        sub(l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        sub(l.size());
        if !add(n) {
            return std::ptr::null_mut();
        }
        System.realloc(p, l, n)
    }
}

pub struct Use {
    pub bytes: u64,
    pub calls: u64,
    pub peak: u64,
}

/// What `f` allocates
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, Use) {
    let b = BYTES.with(|b| b.get());
    let c = CALLS.with(|b| b.get());
    let l = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(l));
    let r = f();
    let u = Use { bytes: BYTES.with(|x| x.get()) - b, calls: CALLS.with(|x| x.get()) - c, peak: (PEAK.with(|p| p.get()) - l).max(0) as u64 };
    (r, u)
}
