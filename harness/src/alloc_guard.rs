//! Global allocator used by the checks: it fills fresh memory with a pattern
//! that a property can change between two runs of one case (so results that
//! depend on uninitialised memory differ), records the largest request, refuses
//! absurd ones, and checks canaries around every block on release.

use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicU64, AtomicU8, AtomicUsize, Ordering::Relaxed};

pub struct Guard;

static FILL: AtomicU8 = AtomicU8::new(0xA5);
static MAX_REQUEST: AtomicUsize = AtomicUsize::new(0);
static CORRUPT: AtomicU64 = AtomicU64::new(0);
static EMPTY: AtomicU64 = AtomicU64::new(0);
const LIMIT: usize = 2 << 30;
const CANARY: u64 = 0xC0DE_FACE_5AFE_B10C;

/// Sets the byte fresh memory is filled with.
pub fn set_fill(b: u8) {
    FILL.store(b, Relaxed);
}
/// Resets and returns the largest single request since the last call.
pub fn take_max_request() -> usize {
    MAX_REQUEST.swap(0, Relaxed)
}
/// Number of zero-sized requests (which the allocator contract forbids).
pub fn take_empty() -> u64 {
    EMPTY.swap(0, Relaxed)
}
/// Number of blocks released with damaged canaries since the last call.
pub fn take_corrupt() -> u64 {
    CORRUPT.swap(0, Relaxed)
}

const fn asan() -> bool {
    cfg!(sanitize = "address")
}

#[inline]
fn pad(layout: &Layout) -> usize {
    layout.align().max(16)
}

unsafe impl GlobalAlloc for Guard {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        let size = layout.size();
        MAX_REQUEST.fetch_max(size, Relaxed);
        if size == 0 {
            EMPTY.fetch_add(1, Relaxed);
        }
        if size > LIMIT {
            return std::ptr::null_mut();
        }
        if asan() {
            let p = System.alloc(layout);
            if !p.is_null() { std::ptr::write_bytes(p, FILL.load(Relaxed), size); }
            return p;
        }
        let pad = pad(&layout);
        let base = System.alloc(Layout::from_size_align_unchecked(size + pad + 16, layout.align()));
        if base.is_null() {
            return base;
        }
        let p = base.add(pad);
        (p.sub(8) as *mut u64).write_unaligned(CANARY);
        (p.add(size) as *mut u64).write_unaligned(CANARY);
        (p.add(size + 8) as *mut u64).write_unaligned(CANARY);
        std::ptr::write_bytes(p, FILL.load(Relaxed), size);
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, layout: Layout) {
        let size = layout.size();
        if asan() {
            System.dealloc(p, layout);
            return;
        }
        let pad = pad(&layout);
        if (p.sub(8) as *mut u64).read_unaligned() != CANARY
            || (p.add(size) as *mut u64).read_unaligned() != CANARY
            || (p.add(size + 8) as *mut u64).read_unaligned() != CANARY
        {
            CORRUPT.fetch_add(1, Relaxed);
        }
        (p.sub(8) as *mut u64).write_unaligned(0);
        std::ptr::write_bytes(p, 0xDD, size.min(4096));
        System.dealloc(p.sub(pad), Layout::from_size_align_unchecked(size + pad + 16, layout.align()));
    }
}
