//! The allocator of every monitor binary: counts heap events per thread, and fills fresh memory so that code which
//! reads it before writing it gets NaN (or, by choice, other things) rather than the zeros the system happens to give.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, Ordering};

pub struct Counting;

static FILLING: AtomicBool = AtomicBool::new(false);
/// NaN as two f32 and as one f64
pub const NANS: u64 = 0x7ff8_dead_7fc0_beef;
thread_local! {
    static PATTERN: Cell<u64> = const { Cell::new(NANS) };
}
/// from now on fresh memory holds this thread's pattern (not under Miri and MemorySanitizer, which would take it for
/// initialized)
pub fn fill_fresh_memory() {
    if !cfg!(miri) && std::env::var_os("DCTMON_NOFILL").is_none() {
        FILLING.store(true, Ordering::Relaxed)
    }
}
pub fn filling() -> bool {
    FILLING.load(Ordering::Relaxed)
}
pub fn set_pattern(p: u64) {
    PATTERN.with(|c| c.set(p))
}
unsafe fn fill(p: *mut u8, from: usize, to: usize) {
    if p.is_null() || !FILLING.load(Ordering::Relaxed) {
        return;
    }
    let pat = PATTERN.try_with(|c| c.get()).unwrap_or(NANS).to_ne_bytes();
    let mut i = from;
    while i < to && i % 8 != 0 {
        p.add(i).write(pat[i % 8]);
        i += 1;
    }
    while i + 8 <= to {
        (p.add(i) as *mut [u8; 8]).write(pat);
        i += 8;
    }
    while i < to {
        p.add(i).write(pat[i % 8]);
        i += 1;
    }
}

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct Heap {
    pub allocs: u64,
    pub frees: u64,
    pub reallocs: u64,
    /// sum of requested bytes still held
    pub live_bytes: i64,
    pub live_blocks: i64,
    pub peak_bytes: i64,
    /// sum of all requested bytes
    pub requested: u64,
}

thread_local! {
    static H: Cell<Heap> = const { Cell::new(Heap { allocs: 0, frees: 0, reallocs: 0, live_bytes: 0, live_blocks: 0, peak_bytes: 0, requested: 0 }) };
}
fn upd(f: impl FnOnce(&mut Heap)) {
    let _ = H.try_with(|c| {
        let mut h = c.get();
        f(&mut h);
        if h.live_bytes > h.peak_bytes {
            h.peak_bytes = h.live_bytes
        }
        c.set(h);
    });
}
// SAFETY: forwards everything to the system allocator
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        upd(|h| {
            h.allocs += 1;
            h.live_blocks += 1;
            h.live_bytes += l.size() as i64;
            h.requested += l.size() as u64;
        });
        let p = System.alloc(l);
        fill(p, 0, l.size());
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        upd(|h| {
            h.allocs += 1;
            h.live_blocks += 1;
            h.live_bytes += l.size() as i64;
            h.requested += l.size() as u64;
        });
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        upd(|h| {
            h.frees += 1;
            h.live_blocks -= 1;
            h.live_bytes -= l.size() as i64;
        });
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        upd(|h| {
            h.reallocs += 1;
            h.live_bytes += n as i64 - l.size() as i64;
            h.requested += n as u64;
        });
        let p = System.realloc(p, l, n);
        fill(p, l.size(), n);
        p
    }
}
/// this thread's counters
pub fn heap() -> Heap {
    H.with(|c| c.get())
}
/// restart the peak from the current level
pub fn reset_peak() {
    H.with(|c| {
        let mut h = c.get();
        h.peak_bytes = h.live_bytes;
        c.set(h)
    })
}
/// the counters work (the binary installed the allocator)
pub fn self_test() {
    let a = heap();
    let v = std::hint::black_box(vec![1u8; 777]);
    let b = heap();
    drop(v);
    let c = heap();
    assert!(
        b.allocs == a.allocs + 1 && b.live_bytes == a.live_bytes + 777 && c.live_bytes == a.live_bytes && c.frees == b.frees + 1,
        "HARNESS: counting allocator not installed"
    );
}
