//! An allocator that counts what the current thread holds.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static BYTES: Cell<i64> = const { Cell::new(0) };
    static BLOCKS: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static TAKEN: Cell<(u64, u64)> = const { Cell::new((0, 0)) };
}

fn add(bytes: i64, blocks: i64) {
    let _ = BYTES.try_with(|c| {
        c.set(c.get() + bytes);
        let _ = PEAK.try_with(|p| p.set(p.get().max(c.get())));
    });
    let _ = BLOCKS.try_with(|c| c.set(c.get() + blocks));
}

fn taken(bytes: usize) {
    let _ = TAKEN.try_with(|c| c.set((c.get().0 + bytes as u64, c.get().1 + 1)));
}

/// Bytes and blocks `f` allocates, whether it frees them or not.
pub fn allocated<T>(f: impl FnOnce() -> T) -> (T, (u64, u64)) {
    let was = TAKEN.with(Cell::get);
    let r = f();
    let is = TAKEN.with(Cell::get);
    (r, (is.0 - was.0, is.1 - was.1))
}

/// The most bytes `f` holds at one time beyond those held before it.
pub fn peak<T>(f: impl FnOnce() -> T) -> (T, i64) {
    let held = live().0;
    PEAK.with(|p| p.set(held));
    let r = f();
    (r, PEAK.with(Cell::get) - held)
}

/// Bytes and blocks allocated on this thread and not yet freed on it.
pub fn live() -> (i64, i64) {
    (BYTES.with(Cell::get), BLOCKS.with(Cell::get))
}

// SAFETY: everything is passed on to the system's allocator
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            add(l.size() as i64, 1);
            taken(l.size());
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            add(l.size() as i64, 1);
            taken(l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64), -1);
        System.dealloc(p, l);
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            add(n as i64 - l.size() as i64, 0);
            taken(n);
        }
        q
    }
}
