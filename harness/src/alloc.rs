//! Counting allocator: per-thread net live bytes, peak and number of allocations.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
}

/// Live bytes of one thread that no case comes close to; what needs more never ends
const LIMIT: i64 = 3 << 30;

/// Lets allocations over the limit fail, which is reported as a violation by the handler of SIGABRT
fn over(n: usize) -> bool {
    LIVE.try_with(|l| l.get().saturating_add(i64::try_from(n).unwrap_or(i64::MAX)) > LIMIT && l.replace(i64::MIN / 2) > i64::MIN / 4)
        .unwrap_or(false)
}

/// Lets this thread have that much more than the limit, until dropped
pub struct Allowance(i64);

impl Allowance {
    pub fn new(n: i64) -> Allowance {
        LIVE.with(|l| l.set(l.get() - n));
        Allowance(n)
    }
}

impl Drop for Allowance {
    fn drop(&mut self) {
        LIVE.with(|l| l.set(l.get() + self.0));
    }
}

fn add(n: i64) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n;
        l.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v);
            }
        });
    });
    if n > 0 {
        let _ = COUNT.try_with(|c| c.set(c.get() + 1));
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if over(l.size()) {
            return std::ptr::null_mut();
        }
        let p = unsafe { System.alloc(l) };
        if !p.is_null() {
            add(l.size() as i64);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unsafe { System.dealloc(p, l) };
        add(-(l.size() as i64));
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if over(l.size()) {
            return std::ptr::null_mut();
        }
        let p = unsafe { System.alloc_zeroed(l) };
        if !p.is_null() {
            add(l.size() as i64);
        }
        p
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if over(n) {
            return std::ptr::null_mut();
        }
        let q = unsafe { System.realloc(p, l, n) };
        if !q.is_null() {
            // A moving realloc holds both for a moment; count the new one first
            add(n as i64);
            add(-(l.size() as i64));
        }
        q
    }
}

/// Measures the peak of net allocations (relative to the start) and the number of allocations of this thread during `f`.
pub struct Meter {
    start_live: i64,
    start_count: u64,
}

impl Meter {
    pub fn start() -> Meter {
        let live = LIVE.with(Cell::get);
        PEAK.with(|p| p.set(live));
        Meter {
            start_live: live,
            start_count: COUNT.with(Cell::get),
        }
    }
    pub fn peak(&self) -> i64 {
        PEAK.with(Cell::get) - self.start_live
    }
    pub fn live(&self) -> i64 {
        LIVE.with(Cell::get) - self.start_live
    }
    pub fn count(&self) -> u64 {
        COUNT.with(Cell::get) - self.start_count
    }
}
