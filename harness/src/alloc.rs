//! Global allocator that can be told, per thread, to look for a byte pattern in released blocks.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Watch;

const MAXPAT: usize = 32;

const NPAT: usize = 4;

#[derive(Clone, Copy)]
struct Pats {
    n: usize,
    len: [usize; NPAT],
    pat: [[u8; MAXPAT]; NPAT],
}

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static PATS: Cell<Pats> = const { Cell::new(Pats { n: 0, len: [0; NPAT], pat: [[0; MAXPAT]; NPAT] }) };
    static HITS: Cell<usize> = const { Cell::new(0) };
    static HIT_SIZE: Cell<usize> = const { Cell::new(0) };
    static SCANNED: Cell<usize> = const { Cell::new(0) };
    // Live-block accounting.
    static COUNT: Cell<bool> = const { Cell::new(false) };
    static LIVE: Cell<isize> = const { Cell::new(0) };
}

/// Starts looking for any of `pats` in every block this thread releases.
pub fn watch(pats: &[&[u8]]) {
    assert!(!pats.is_empty() && pats.len() <= NPAT);
    let mut p = Pats { n: pats.len(), len: [0; NPAT], pat: [[0; MAXPAT]; NPAT] };
    for (i, x) in pats.iter().enumerate() {
        assert!(!x.is_empty() && x.len() <= MAXPAT);
        p.len[i] = x.len();
        p.pat[i][..x.len()].copy_from_slice(x);
    }
    PATS.with(|c| c.set(p));
    HITS.with(|c| c.set(0));
    SCANNED.with(|c| c.set(0));
    ON.with(|c| c.set(!cfg!(miri)));
}
pub fn pause() -> bool {
    ON.with(|c| c.replace(false))
}
pub fn resume(v: bool) {
    ON.with(|c| c.set(v));
}
/// Stops, returning (hits, size of a hit block, blocks scanned).
pub fn stop() -> (usize, usize, usize) {
    ON.with(|c| c.set(false));
    (HITS.with(|c| c.get()), HIT_SIZE.with(|c| c.get()), SCANNED.with(|c| c.get()))
}
pub fn hits() -> usize {
    HITS.with(|c| c.get())
}
pub fn reset() {
    ON.with(|c| c.set(false));
    COUNT.with(|c| c.set(false));
}
/// Counts blocks allocated minus released by this thread while `f` runs.
pub fn live_delta<T>(f: impl FnOnce() -> T) -> (T, isize) {
    LIVE.with(|c| c.set(0));
    COUNT.with(|c| c.set(true));
    let r = f();
    COUNT.with(|c| c.set(false));
    (r, LIVE.with(|c| c.get()))
}

#[inline]
unsafe fn scan(ptr: *mut u8, size: usize) {
    if ON.try_with(|c| c.get()).unwrap_or(false) {
        SCANNED.with(|c| c.set(c.get() + 1));
        if size <= 1 << 20 {
            let p = PATS.with(|c| c.get());
            for k in 0..p.n {
                let (n, pat) = (p.len[k], &p.pat[k]);
                // Volatile reads: the block may contain uninitialised bytes.
                let mut i = 0;
                while i + n <= size {
                    let mut j = 0;
                    while j < n && ptr.add(i + j).read_volatile() == pat[j] {
                        j += 1;
                    }
                    if j == n {
                        HITS.with(|c| c.set(c.get() + 1));
                        HIT_SIZE.with(|c| c.set(size));
                        return;
                    }
                    i += 1;
                }
            }
        }
    }
}
#[inline]
fn count(d: isize) {
    if COUNT.try_with(|c| c.get()).unwrap_or(false) {
        LIVE.with(|c| c.set(c.get() + d));
    }
}

unsafe impl GlobalAlloc for Watch {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        count(1);
        if ON.try_with(|c| c.get()).unwrap_or(false) {
            // Stale heap contents must not look like a leaked secret.
            System.alloc_zeroed(l)
        } else {
            System.alloc(l)
        }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        count(1);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        count(-1);
        scan(p, l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if ON.try_with(|c| c.get()).unwrap_or(false) {
            // Model the worst case: every reallocation moves.
            let n = self.alloc(Layout::from_size_align_unchecked(new, l.align()));
            if !n.is_null() {
                std::ptr::copy_nonoverlapping(p, n, l.size().min(new));
                self.dealloc(p, l);
            }
            n
        } else {
            System.realloc(p, l, new)
        }
    }
}
