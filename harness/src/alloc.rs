//! A global allocator which counts what each thread allocates.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static BYTES: Cell<u64> = const { Cell::new(0) };
}

fn add(n: usize) {
    let _ = BYTES.try_with(|b| b.set(b.get() + n as u64));
}

/// Bytes allocated by this thread so far. Each allocation counts for 32 more.
pub fn allocated() -> u64 {
    BYTES.with(|b| b.get())
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        add(layout.size() + 32);
        System.alloc(layout)
    }
    unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
        System.dealloc(ptr, layout)
    }
    unsafe fn realloc(&self, ptr: *mut u8, layout: Layout, new_size: usize) -> *mut u8 {
        add(new_size.saturating_sub(layout.size()));
        System.realloc(ptr, layout, new_size)
    }
}
