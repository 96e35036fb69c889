//! Counts the bytes each thread holds.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static CUR: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
}

fn add(n: isize) {
    let _ = CUR.try_with(|c| {
        let v = c.get() + n;
        c.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as isize);
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as isize));
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as isize);
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        // Both blocks may exist while the data moves.
        add(n as isize);
        add(-(l.size() as isize));
        unsafe { System.realloc(p, l, n) }
    }
}

/// Peak of what `f` holds on top of what was held before.
pub fn peak<R>(f: impl FnOnce() -> R) -> (R, u64) {
    let base = CUR.with(|c| c.get());
    PEAK.with(|p| p.set(base));
    let r = f();
    let p = PEAK.with(|p| p.get());
    (r, (p - base).max(0) as u64)
}

/// What `f` leaves allocated.
pub fn net<R>(f: impl FnOnce() -> R) -> (R, i64) {
    let base = CUR.with(|c| c.get());
    let r = f();
    (r, (CUR.with(|c| c.get()) - base) as i64)
}
