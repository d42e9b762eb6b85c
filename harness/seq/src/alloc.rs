//! Counts the bytes held by the current thread's allocations.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
thread_local! {
    static BYTES: Cell<isize> = const { Cell::new(0) };
}
pub struct Counting;
fn add(n: isize) {
    let _ = BYTES.try_with(|b| b.set(b.get() + n));
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as isize);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as isize);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n as isize - l.size() as isize);
        System.realloc(p, l, n)
    }
}
/// Bytes allocated minus bytes freed by this thread so far.
pub fn held() -> isize {
    BYTES.with(|b| b.get())
}
