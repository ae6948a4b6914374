//! Counting global allocator: live bytes, peak and total, per thread of interest.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static TOTAL: Cell<i64> = const { Cell::new(0) };
    static LARGEST: Cell<i64> = const { Cell::new(0) };
}

fn add(n: i64) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n;
        l.set(v);
        if n > 0 {
            let _ = TOTAL.try_with(|t| t.set(t.get() + n));
            let _ = PEAK.try_with(|p| {
                if v > p.get() {
                    p.set(v);
                }
            });
            let _ = LARGEST.try_with(|p| {
                if n > p.get() {
                    p.set(n);
                }
            });
        }
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}

#[derive(Debug, Clone, Copy)]
pub struct Usage {
    pub peak: i64,
    pub total: i64,
    pub largest: i64,
}

/// Heap use of `f` on this thread, relative to the level at its start.
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, Usage) {
    let base = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(base));
    TOTAL.with(|p| p.set(0));
    LARGEST.with(|p| p.set(0));
    let r = f();
    let u = Usage {
        peak: PEAK.with(|p| p.get()) - base,
        total: TOTAL.with(|p| p.get()),
        largest: LARGEST.with(|p| p.get()),
    };
    (r, u)
}
