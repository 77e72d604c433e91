//! Counts what each thread obtains from the allocator and gives back.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

struct Counting;
#[derive(Clone, Copy, Default)]
pub struct Tally {
    /// bytes held now
    pub live: i64,
    /// the most that was held since `begin`
    pub peak: i64,
    /// all bytes ever asked for
    pub total: i64,
}
thread_local! {
    static T: Cell<Tally> = const { Cell::new(Tally { live: 0, peak: 0, total: 0 }) };
}
fn add(n: i64) {
    let _ = T.try_with(|t| {
        let mut x = t.get();
        x.live += n;
        x.total += n.max(0);
        x.peak = x.peak.max(x.live);
        t.set(x);
    });
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(-(l.size() as i64));
        add(n as i64);
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static A: Counting = Counting;

/// What `f` did: bytes not given back, the most held at a time, all that was asked for.
pub fn tally<R>(f: impl FnOnce() -> R) -> (R, Tally) {
    let t0 = T.with(|t| {
        let mut x = t.get();
        x.peak = x.live;
        t.set(x);
        x
    });
    let r = f();
    let t1 = T.with(|t| t.get());
    (r, Tally { live: t1.live - t0.live, peak: t1.peak - t0.live, total: t1.total - t0.total })
}
