//! A global allocator that counts, per thread, what the code under observation asks for.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;
thread_local! {
    static N: Cell<u64> = const { Cell::new(0) };
    static BYTES: Cell<u64> = const { Cell::new(0) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}
fn add(n: usize) {
    let _ = N.try_with(|c| c.set(c.get() + 1));
    let _ = BYTES.try_with(|c| c.set(c.get() + n as u64));
    let _ = LIVE.try_with(|c| {
        c.set(c.get() + n as i64);
        let _ = PEAK.try_with(|p| p.set(p.get().max(c.get())));
    });
}
fn sub(n: usize) {
    let _ = LIVE.try_with(|c| c.set(c.get() - n as i64));
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        sub(l.size());
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n);
        sub(l.size());
        System.realloc(p, l, n)
    }
}
#[derive(Clone, Copy, Debug)]
pub struct Usage {
    /// number of allocations
    pub n: u64,
    pub bytes: u64,
    /// highest live amount above the level at the start
    pub peak: u64,
}
/// what `f` allocates on this thread
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, Usage) {
    let (n, b, l) = (N.get(), BYTES.get(), LIVE.get());
    PEAK.set(l);
    let r = f();
    let u = Usage { n: N.get() - n, bytes: BYTES.get() - b, peak: (PEAK.get() - l).max(0) as u64 };
    (r, u)
}
