//! Counting allocator: the monitors read how much memory the code under test holds.
//! In sanitizer and interpreter builds (`--cfg lcmon_plain`) the system allocator is used as it is.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::Relaxed};

pub struct Counting;

pub static LIVE: AtomicI64 = AtomicI64::new(0);
pub static PEAK: AtomicI64 = AtomicI64::new(0);
pub static COUNT: AtomicU64 = AtomicU64::new(0);
pub static TOTAL: AtomicU64 = AtomicU64::new(0);
pub static CAP: AtomicI64 = AtomicI64::new(i64::MAX);
pub static ON: AtomicBool = AtomicBool::new(true);

/// How much more a worker's call into the library may hold before allocations fail: enough to tell a
/// result that grows without end, without taking the machine's memory
pub static ROOM: AtomicI64 = AtomicI64::new(i64::MAX);

/// What the monitors hold themselves does not count
pub fn limited(on: bool) {
    let cap = if on { LIVE.load(Relaxed).max(0).saturating_add(ROOM.load(Relaxed)) } else { i64::MAX };
    CAP.store(cap, Relaxed);
}

fn add(n: usize) -> bool {
    let live = LIVE.fetch_add(n as i64, Relaxed) + n as i64;
    COUNT.fetch_add(1, Relaxed);
    TOTAL.fetch_add(n as u64, Relaxed);
    if live > PEAK.load(Relaxed) {
        PEAK.store(live, Relaxed);
    }
    live <= CAP.load(Relaxed)
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !add(l.size()) {
            LIVE.fetch_sub(l.size() as i64, Relaxed);
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as i64, Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if new > l.size() {
            if !add(new - l.size()) {
                LIVE.fetch_sub((new - l.size()) as i64, Relaxed);
                return std::ptr::null_mut();
            }
        } else {
            LIVE.fetch_sub((l.size() - new) as i64, Relaxed);
        }
        System.realloc(p, l, new)
    }
}

/// What one stretch of code did to the heap
pub struct Heap {
    pub peak: i64,
    pub live: i64,
    pub count: u64,
    pub total: u64,
}

/// Single-threaded use only
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, Heap) {
    let live0 = LIVE.load(Relaxed);
    let count0 = COUNT.load(Relaxed);
    let total0 = TOTAL.load(Relaxed);
    PEAK.store(live0, Relaxed);
    let v = f();
    let h = Heap {
        peak: PEAK.load(Relaxed) - live0,
        live: LIVE.load(Relaxed) - live0,
        count: COUNT.load(Relaxed) - count0,
        total: TOTAL.load(Relaxed) - total0,
    };
    (v, h)
}
