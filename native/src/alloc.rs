//! Global allocator which remembers the largest single request of the thread.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! { static BIG: Cell<u64> = const { Cell::new(0) }; }
pub struct Counting;
fn note(n: usize) { let _ = BIG.try_with(|b| if n as u64 > b.get() { b.set(n as u64) }); }
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size());
        // an allocation of this size is already the failure; do not try it
        if l.size() > 64 << 30 { return std::ptr::null_mut(); }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { note(l.size()); System.alloc_zeroed(l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { note(n); System.realloc(p, l, n) }
}
pub fn reset() { BIG.with(|b| b.set(0)) }
pub fn largest() -> u64 { BIG.with(|b| b.get()) }
