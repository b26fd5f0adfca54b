//! Counting allocator: live bytes, peak, total bytes and calls, and a cap on live bytes.

use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

pub struct Counting;

pub static LIVE: AtomicUsize = AtomicUsize::new(0);
pub static LIVE_BLOCKS: AtomicUsize = AtomicUsize::new(0);
pub static PEAK: AtomicUsize = AtomicUsize::new(0);
pub static TOTAL: AtomicUsize = AtomicUsize::new(0);
pub static CALLS: AtomicUsize = AtomicUsize::new(0);
pub static CAP: AtomicUsize = AtomicUsize::new(usize::MAX);

/// Exit status of a process that went over the cap.
pub const OOM_STATUS: i32 = 77;

extern "C" {
    fn _exit(code: i32) -> !;
}

fn up(n: usize) {
    let live = LIVE.fetch_add(n, Relaxed) + n;
    TOTAL.fetch_add(n, Relaxed);
    CALLS.fetch_add(1, Relaxed);
    if live > PEAK.load(Relaxed) {
        PEAK.store(live, Relaxed);
    }
    if live > CAP.load(Relaxed) {
        unsafe { _exit(OOM_STATUS) }
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        up(layout.size());
        LIVE_BLOCKS.fetch_add(1, Relaxed);
        System.alloc(layout)
    }
    unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
        LIVE.fetch_sub(layout.size(), Relaxed);
        LIVE_BLOCKS.fetch_sub(1, Relaxed);
        System.dealloc(ptr, layout)
    }
    unsafe fn realloc(&self, ptr: *mut u8, layout: Layout, new: usize) -> *mut u8 {
        if new > layout.size() {
            up(new - layout.size());
        } else {
            LIVE.fetch_sub(layout.size() - new, Relaxed);
        }
        System.realloc(ptr, layout, new)
    }
}

pub fn live() -> (usize, usize) {
    (LIVE.load(Relaxed), LIVE_BLOCKS.load(Relaxed))
}
