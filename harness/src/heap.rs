//! Global allocator that keeps, per thread, the number of live bytes and blocks allocated by it.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static BYTES: Cell<i64> = const { Cell::new(0) };
    static BLOCKS: Cell<i64> = const { Cell::new(0) };
}
fn add(b: i64, n: i64) {
    let _ = BYTES.try_with(|c| c.set(c.get() + b));
    let _ = BLOCKS.try_with(|c| c.set(c.get() + n));
}
/// (bytes, blocks) allocated minus freed by this thread
pub fn live() -> (i64, i64) {
    (BYTES.with(|c| c.get()), BLOCKS.with(|c| c.get()))
}
pub struct Counting;
// SAFETY: delegates to the system allocator
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64, 1);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64), -1);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n as i64 - l.size() as i64, 0);
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static A: Counting = Counting;
