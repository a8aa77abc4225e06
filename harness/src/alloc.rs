//! Global allocator with guard bytes around every block and per-thread counters.
//!
//! Writes before or after a heap block are seen when the block is freed (or reallocated); reads past a block
//! see the guard pattern, which no generator produces as an element value.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

const RZ: usize = 64;
const PAT: u8 = 0xFB;
static PATS: [u8; 1024] = [PAT; 1024];

/// Guard behind a block: wide enough for a matrix that got too little memory by a factor
fn back(size: usize) -> usize {
    (size & !63).clamp(RZ, PATS.len())
}

thread_local! {
    static CORRUPT: Cell<u64> = const { Cell::new(0) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static BYTES: Cell<u64> = const { Cell::new(0) };
    static TRACK: Cell<bool> = const { Cell::new(false) };
    /// blocks and bytes acquired and not released by this thread
    static LIVE: Cell<(i64, i64)> = const { Cell::new((0, 0)) };
}

pub struct Guarded;

/// Notes an acquired block; its size is kept in the guard before it.
unsafe fn born(base: *mut u8, size: usize) {
    (base as *mut u64).write(stamp(size));
    let _ = LIVE.try_with(|l| l.set((l.get().0 + 1, l.get().1 + size as i64)));
}
fn stamp(size: usize) -> u64 {
    (size as u64).wrapping_mul(0x9E3779B97F4A7C15) ^ 0xFBFBFBFBFBFBFBFB
}

unsafe fn check(base: *const u8, front: usize, size: usize) -> bool {
    let f = std::slice::from_raw_parts(base.add(8), front - 8);
    let b = std::slice::from_raw_parts(base.add(front + size), back(size));
    (base as *const u64).read() == stamp(size) && f.iter().all(|x| *x == PAT) && *b == PATS[..b.len()]
}

unsafe impl GlobalAlloc for Guarded {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let front = RZ.max(l.align());
        let Some(total) = l.size().checked_add(front + back(l.size())) else { return std::ptr::null_mut() };
        let Ok(l2) = Layout::from_size_align(total, l.align()) else { return std::ptr::null_mut() };
        let p = System.alloc(l2);
        if p.is_null() {
            return p;
        }
        // fresh memory is never zero by accident
        if l.size() <= 1 << 25 {
            std::ptr::write_bytes(p, PAT, total);
        } else {
            std::ptr::write_bytes(p, PAT, front);
            std::ptr::write_bytes(p.add(front + l.size()), PAT, back(l.size()));
        }
        born(p, l.size());
        let _ = TRACK.try_with(|t| {
            if t.get() {
                let _ = COUNT.try_with(|c| c.set(c.get() + 1));
                let _ = BYTES.try_with(|c| c.set(c.get() + l.size() as u64));
            }
        });
        p.add(front)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let front = RZ.max(l.align());
        let Some(total) = l.size().checked_add(front + back(l.size())) else { return std::ptr::null_mut() };
        let Ok(l2) = Layout::from_size_align(total, l.align()) else { return std::ptr::null_mut() };
        let p = System.alloc_zeroed(l2);
        if p.is_null() {
            return p;
        }
        std::ptr::write_bytes(p, PAT, front);
        std::ptr::write_bytes(p.add(front + l.size()), PAT, back(l.size()));
        born(p, l.size());
        let _ = TRACK.try_with(|t| {
            if t.get() {
                let _ = COUNT.try_with(|c| c.set(c.get() + 1));
                let _ = BYTES.try_with(|c| c.set(c.get() + l.size() as u64));
            }
        });
        p.add(front)
    }
    unsafe fn dealloc(&self, q: *mut u8, l: Layout) {
        let front = RZ.max(l.align());
        let p = q.sub(front);
        if !check(p, front, l.size()) {
            let _ = CORRUPT.try_with(|c| c.set(c.get() + 1));
        }
        // a second release finds neither
        std::ptr::write_bytes(p, !PAT, front);
        let _ = LIVE.try_with(|v| v.set((v.get().0 - 1, v.get().1 - l.size() as i64)));
        System.dealloc(p, Layout::from_size_align_unchecked(l.size() + front + back(l.size()), l.align()))
    }
    unsafe fn realloc(&self, q: *mut u8, l: Layout, new: usize) -> *mut u8 {
        let Ok(l2) = Layout::from_size_align(new, l.align()) else { return std::ptr::null_mut() };
        let n = self.alloc(l2);
        if !n.is_null() {
            std::ptr::copy_nonoverlapping(q, n, l.size().min(new));
            self.dealloc(q, l);
        }
        n
    }
}

/// Number of blocks found damaged on this thread since the last call.
pub fn take_corrupt() -> u64 {
    CORRUPT.with(|c| c.replace(0))
}

/// Run `f` counting this thread's allocations: (result, number of allocations, bytes).
pub fn counted<R>(f: impl FnOnce() -> R) -> (R, u64, u64) {
    COUNT.with(|c| c.set(0));
    BYTES.with(|c| c.set(0));
    TRACK.with(|t| t.set(true));
    let r = f();
    TRACK.with(|t| t.set(false));
    (r, COUNT.with(|c| c.get()), BYTES.with(|c| c.get()))
}

pub fn stop_counting() {
    TRACK.with(|t| t.set(false));
}

/// (blocks, bytes) this thread holds.
pub fn live() -> (i64, i64) {
    LIVE.with(|l| l.get())
}
