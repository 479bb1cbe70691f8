//! The allocator of the harness. Fresh memory is filled with a pattern that depends on the case,
//! so that results which depend on memory nobody wrote show up as wrong or changing results. For
//! some cases ("fenced") every allocation lies right before (or right behind) an inaccessible
//! page and becomes inaccessible when it is freed, so that access out of bounds or after the
//! release, which otherwise would go unnoticed, ends the process.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicU32, AtomicUsize, Ordering::Relaxed};

pub struct Alloc;

const PAGE: usize = 4096;
const ARENA: usize = 1 << 38;

/// 0: no fences, 1: fence behind each allocation, 2: before
static MODE: AtomicU32 = AtomicU32::new(0);
/// 256 + the byte that fresh memory is filled with, or 0
static FILL: AtomicU32 = AtomicU32::new(0);
static BASE: AtomicUsize = AtomicUsize::new(0);
static NEXT: AtomicUsize = AtomicUsize::new(0);
static FENCED: AtomicUsize = AtomicUsize::new(0);

const PATTERNS: [u32; 5] = [0xff, 0x00, 0xa5, 0x7f, 0x3f];

/// Reserves the address space of fenced allocations. Called once, before any thread starts.
pub fn init() {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            ARENA,
            libc::PROT_NONE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        );
        if p as isize != -1 {
            NEXT.store(p as usize + PAGE, Relaxed);
            BASE.store(p as usize, Relaxed);
        }
    }
}

/// Fences and fill pattern for what follows.
pub fn begin(mode: u32, fill: u64) {
    set_fill(fill);
    MODE.store(if BASE.load(Relaxed) == 0 { 0 } else { mode }, Relaxed);
}

pub fn set_fill(fill: u64) {
    FILL.store(256 | PATTERNS[(fill % PATTERNS.len() as u64) as usize], Relaxed);
}

pub fn end() {
    MODE.store(0, Relaxed);
}

/// Number of allocations that were fenced.
pub fn fenced() -> usize {
    FENCED.load(Relaxed)
}

#[inline]
fn ours(p: *mut u8) -> bool {
    let b = BASE.load(Relaxed);
    b != 0 && (p as usize).wrapping_sub(b) < ARENA
}

#[inline]
fn pages(size: usize) -> usize {
    size.div_ceil(PAGE).max(1) * PAGE
}

unsafe fn fence(l: Layout, mode: u32) -> *mut u8 {
    if l.align() > PAGE || l.size() > 1 << 30 {
        return std::ptr::null_mut();
    }
    let n = pages(l.size());
    let a = NEXT.fetch_add(n + PAGE, Relaxed);
    if a + n + PAGE > BASE.load(Relaxed) + ARENA {
        NEXT.fetch_sub(n + PAGE, Relaxed);
        return std::ptr::null_mut();
    }
    if libc::mprotect(a as *mut _, n, libc::PROT_READ | libc::PROT_WRITE) != 0 {
        return std::ptr::null_mut();
    }
    FENCED.fetch_add(1, Relaxed);
    if mode == 2 {
        a as *mut u8
    } else {
        ((a + n - l.size()) & !(l.align() - 1)) as *mut u8
    }
}

#[inline]
unsafe fn fill(p: *mut u8, n: usize) {
    let f = FILL.load(Relaxed);
    if f != 0 && !p.is_null() {
        std::ptr::write_bytes(p, f as u8, n);
    }
}

unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let mode = MODE.load(Relaxed);
        let mut p = std::ptr::null_mut();
        if mode != 0 {
            p = fence(l, mode);
        }
        if p.is_null() {
            p = System.alloc(l);
        }
        fill(p, l.size());
        p
    }

    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let mode = MODE.load(Relaxed);
        if mode != 0 {
            // the arena is never used twice: fresh pages
            let p = fence(l, mode);
            if !p.is_null() {
                return p;
            }
        }
        System.alloc_zeroed(l)
    }

    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if !ours(p) {
            return System.dealloc(p, l);
        }
        let (a, n) = (p as usize & !(PAGE - 1), pages(l.size()));
        // a mapping split too often stays accessible, which only means that less is noticed
        libc::madvise(a as *mut _, n, libc::MADV_DONTNEED);
        libc::mprotect(a as *mut _, n, libc::PROT_NONE);
    }

    unsafe fn realloc(&self, p: *mut u8, l: Layout, size: usize) -> *mut u8 {
        if !ours(p) && MODE.load(Relaxed) == 0 {
            let q = System.realloc(p, l, size);
            if size > l.size() && !q.is_null() {
                fill(q.add(l.size()), size - l.size());
            }
            return q;
        }
        let q = self.alloc(Layout::from_size_align_unchecked(size, l.align()));
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(size));
            self.dealloc(p, l);
        }
        q
    }
}
