//! Counting allocator. Every execution runs on one thread, so the counters are per thread.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;
thread_local! {
    static BLOCKS: Cell<i64> = const { Cell::new(0) };
    static BYTES: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static LARGEST: Cell<usize> = const { Cell::new(0) };
    static OFF: Cell<u32> = const { Cell::new(0) };
}
#[inline]
fn add(n: usize) {
    let _ = OFF.try_with(|o| {
        if o.get() == 0 {
            BLOCKS.with(|b| b.set(b.get() + 1));
            BYTES.with(|b| {
                b.set(b.get() + n as i64);
                PEAK.with(|p| {
                    if b.get() > p.get() {
                        p.set(b.get())
                    }
                });
            });
            LARGEST.with(|l| {
                if n > l.get() {
                    l.set(n)
                }
            });
        }
    });
}
#[inline]
fn sub(n: usize) {
    let _ = OFF.try_with(|o| {
        if o.get() == 0 {
            BLOCKS.with(|b| b.set(b.get() - 1));
            BYTES.with(|b| b.set(b.get() - n as i64));
        }
    });
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        sub(l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        sub(l.size());
        add(n);
        System.realloc(p, l, n)
    }
}
/// live (blocks, bytes) of this thread
pub fn live() -> (i64, i64) {
    (BLOCKS.with(|b| b.get()), BYTES.with(|b| b.get()))
}
/// Starts measuring: afterwards `peak()` is the growth of the live bytes above this point and
/// `largest()` the largest single request.
pub fn mark() -> i64 {
    let b = BYTES.with(|b| b.get());
    PEAK.with(|p| p.set(b));
    LARGEST.with(|l| l.set(0));
    b
}
pub fn peak_since(mark: i64) -> i64 {
    PEAK.with(|p| p.get()) - mark
}
pub fn largest() -> usize {
    LARGEST.with(|l| l.get())
}
/// The harness's own bookkeeping is not counted.
pub struct Pause;
impl Pause {
    #[inline]
    pub fn new() -> Pause {
        let _ = OFF.try_with(|o| o.set(o.get() + 1));
        Pause
    }
}
impl Drop for Pause {
    #[inline]
    fn drop(&mut self) {
        let _ = OFF.try_with(|o| o.set(o.get() - 1));
    }
}
