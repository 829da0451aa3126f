//! Counts the bytes allocated by this process (only once enabled: C23).
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicI64, Ordering};

pub struct Counting;
#[repr(align(128))]
struct Shard(AtomicI64);
static ON: AtomicBool = AtomicBool::new(false);
static SHARDS: [Shard; 16] = [const { Shard(AtomicI64::new(0)) }; 16];

#[inline]
fn add(n: i64) {
    if ON.load(Ordering::Relaxed) {
        // threads have their stacks far apart
        let x = 0u8;
        let k = ((&x as *const u8 as usize) >> 21) & 15;
        SHARDS[k].0.fetch_add(n, Ordering::Relaxed);
    }
}
pub fn enable() {
    ON.store(true, Ordering::SeqCst);
}
pub fn live() -> i64 {
    SHARDS.iter().map(|s| s.0.load(Ordering::Relaxed)).sum()
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}
