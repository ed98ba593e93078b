//! Counting allocator: live and peak bytes of the process, and a per-thread trace of large
//! allocations. All counters are relaxed, so that they order nothing for the code under test.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, UnsafeCell};
use std::sync::atomic::{AtomicI64, Ordering::Relaxed};

pub struct Counting;
static LIVE: AtomicI64 = AtomicI64::new(0);
static PEAK: AtomicI64 = AtomicI64::new(0);

thread_local! {
    static TRACING: Cell<usize> = const { Cell::new(0) };
    static TRACE: UnsafeCell<Vec<u64>> = const { UnsafeCell::new(Vec::new()) };
}

fn add(n: i64) {
    let now = LIVE.fetch_add(n, Relaxed) + n;
    if n > 0 {
        PEAK.fetch_max(now, Relaxed);
    }
}

fn trace(ev: u64, size: usize) {
    let _ = TRACING.try_with(|t| {
        let min = t.get();
        if min > 0 && size >= min {
            t.set(0); // no recursion while the trace grows
            let _ = TRACE.try_with(|v| unsafe { (*v.get()).push(ev << 60 | size as u64) });
            t.set(min);
        }
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        trace(1, l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        trace(1, l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64));
        trace(2, l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n as i64 - l.size() as i64);
        trace(3, n);
        System.realloc(p, l, n)
    }
}

pub fn live() -> i64 {
    LIVE.load(Relaxed)
}
pub fn reset_peak() {
    PEAK.store(LIVE.load(Relaxed), Relaxed);
}
pub fn peak() -> i64 {
    PEAK.load(Relaxed)
}
/// Trace allocations of at least `min` bytes made by this thread until `trace_end`.
pub fn trace_begin(min: usize) {
    TRACE.with(|v| unsafe { (*v.get()).clear() });
    TRACING.with(|t| t.set(min));
}
/// Add an event of the monitored code to the trace of this thread.
pub fn trace_event(id: u64) {
    let _ = TRACING.try_with(|t| {
        let min = t.get();
        if min > 0 {
            t.set(0);
            let _ = TRACE.try_with(|v| unsafe { (*v.get()).push(9 << 60 | id) });
            t.set(min);
        }
    });
}
pub fn trace_end() -> Vec<u64> {
    TRACING.with(|t| t.set(0));
    TRACE.with(|v| unsafe { (*v.get()).clone() })
}
