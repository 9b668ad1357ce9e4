//! Global allocator that counts live bytes and ends the run when a case exceeds its memory limit
//! (an unbounded allocation is a property violation, not a reason to exhaust the machine).

use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering};

pub struct Counting;

pub static LIVE: AtomicUsize = AtomicUsize::new(0);
pub static PEAK: AtomicUsize = AtomicUsize::new(0);
pub static LIMIT: AtomicUsize = AtomicUsize::new(usize::MAX);

fn add(n: usize) {
    let v = LIVE.fetch_add(n, Ordering::Relaxed).wrapping_add(n);
    if v > PEAK.load(Ordering::Relaxed) {
        PEAK.store(v, Ordering::Relaxed);
    }
    if v > LIMIT.load(Ordering::Relaxed) && v < (1 << 62) {
        LIMIT.store(usize::MAX, Ordering::Relaxed);
        if std::env::var_os("KSIM_BT").is_some() {
            eprintln!("{n} more bytes\n{}", std::backtrace::Backtrace::force_capture());
        }
        crate::runner::fatal(crate::runner::FATAL_ALLOC);
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size());
        unsafe { System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size());
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), Ordering::Relaxed);
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > l.size() {
            add(n - l.size());
        } else {
            LIVE.fetch_sub(l.size() - n, Ordering::Relaxed);
        }
        unsafe { System.realloc(p, l, n) }
    }
}
