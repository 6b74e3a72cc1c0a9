//! Guard-page memory: caller slices flush against inaccessible pages, and an allocator that does the same for the
//! library's own allocations (poisoned when uninitialised, inaccessible when freed).
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};

extern "C" {
    fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn mprotect(a: *mut u8, len: usize, prot: i32) -> i32;
    fn madvise(a: *mut u8, len: usize, adv: i32) -> i32;
}
const PAGE: usize = 4096;
const ARENA: usize = 6 << 30;
static ON: AtomicBool = AtomicBool::new(false);
static BASE: AtomicUsize = AtomicUsize::new(0);
static NEXT: AtomicUsize = AtomicUsize::new(0);
static LIVE: AtomicUsize = AtomicUsize::new(0);
static LEFT: AtomicBool = AtomicBool::new(false);

pub struct Ef;
// what the code under observation allocates (single-threaded use)
static WATCH: AtomicBool = AtomicBool::new(false);
static ALLOCS: AtomicUsize = AtomicUsize::new(0);
static BYTES: AtomicUsize = AtomicUsize::new(0);
static IN_USE: std::sync::atomic::AtomicIsize = std::sync::atomic::AtomicIsize::new(0);
fn note(grow: usize, shrink: usize, new: bool) {
    if WATCH.load(SeqCst) {
        if new {
            ALLOCS.fetch_add(1, SeqCst);
            BYTES.fetch_add(grow, SeqCst);
        }
        IN_USE.fetch_add(grow as isize - shrink as isize, SeqCst);
    }
}
/// number of allocations, bytes allocated, bytes still in use at the end (relative)
pub fn watch<R>(f: impl FnOnce() -> R) -> (R, usize, usize, isize) {
    ALLOCS.store(0, SeqCst);
    BYTES.store(0, SeqCst);
    IN_USE.store(0, SeqCst);
    WATCH.store(true, SeqCst);
    let r = f();
    WATCH.store(false, SeqCst);
    (r, ALLOCS.load(SeqCst), BYTES.load(SeqCst), IN_USE.load(SeqCst))
}
fn inside(p: *mut u8) -> bool {
    let b = BASE.load(SeqCst);
    b != 0 && (p as usize) >= b && (p as usize) < b + ARENA
}
unsafe impl GlobalAlloc for Ef {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size(), 0, true);
        if ON.load(SeqCst) {
            ef_alloc(l, 0xff)
        } else {
            System.alloc(l)
        }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size(), 0, true);
        if ON.load(SeqCst) {
            ef_alloc(l, 0)
        } else {
            System.alloc_zeroed(l)
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note(0, l.size(), false);
        if inside(p) {
            let a = p as usize & !(PAGE - 1);
            let pages = (p as usize + l.size() + PAGE - 1) & !(PAGE - 1);
            madvise(a as *mut u8, pages - a, 4);
            mprotect(a as *mut u8, pages - a, 0);
            LIVE.fetch_sub(1, SeqCst);
        } else {
            System.dealloc(p, l)
        }
    }
}
unsafe fn ef_alloc(l: Layout, fill: u8) -> *mut u8 {
    let size = l.size().max(1);
    let span = (size + l.align() + PAGE - 1) / PAGE * PAGE;
    let off = NEXT.fetch_add(span + PAGE, SeqCst);
    if off + span + 2 * PAGE > ARENA {
        // exhausted: fall back (never in the bounds used)
        return System.alloc(l);
    }
    let b = BASE.load(SeqCst) + PAGE + off;
    if mprotect(b as *mut u8, span, 3) != 0 {
        return std::ptr::null_mut();
    }
    LIVE.fetch_add(1, SeqCst);
    // flush right against the following guard page (as far as alignment allows), or flush left
    let p = if LEFT.load(SeqCst) { b } else { (b + span - size) & !(l.align() - 1) };
    if fill != 0 {
        std::ptr::write_bytes(p as *mut u8, fill, size);
    }
    p as *mut u8
}
/// library code under the guard-page allocator
pub fn with<R>(left: bool, f: impl FnOnce() -> R) -> R {
    if BASE.load(SeqCst) == 0 {
        unsafe {
            let p = mmap(std::ptr::null_mut(), ARENA, 0, 0x4022, -1, 0);
            assert!(p as isize != -1, "HARNESS: arena");
            BASE.store(p as usize, SeqCst);
        }
    }
    if LIVE.load(SeqCst) == 0 && NEXT.load(SeqCst) > 1 << 28 {
        NEXT.store(0, SeqCst);
    }
    LEFT.store(left, SeqCst);
    ON.store(true, SeqCst);
    let r = f();
    ON.store(false, SeqCst);
    r
}
pub fn off() {
    ON.store(false, SeqCst);
}

/// a data region between two inaccessible regions
pub struct Region {
    data: usize,
    bytes: usize,
}
const GUARD: usize = 1 << 24;
impl Region {
    pub fn new(max_bytes: usize) -> Region {
        let bytes = (max_bytes + PAGE - 1) / PAGE * PAGE + PAGE;
        unsafe {
            let p = mmap(std::ptr::null_mut(), bytes + 2 * GUARD, 0, 0x4022, -1, 0);
            assert!(p as isize != -1, "HARNESS: region");
            assert!(mprotect(p.add(GUARD), bytes, 3) == 0, "HARNESS: mprotect");
            Region { data: p as usize + GUARD, bytes }
        }
    }
    /// slice of `len` elements touching the guard at its start or its end
    pub fn slice<T: Copy>(&mut self, len: usize, left: bool, f: impl Fn(usize) -> T) -> &mut [T] {
        let sz = len * std::mem::size_of::<T>();
        assert!(sz <= self.bytes, "HARNESS: region too small");
        let p = if left { self.data } else { self.data + self.bytes - sz } as *mut T;
        unsafe {
            for i in 0..len {
                p.add(i).write(f(i));
            }
            std::slice::from_raw_parts_mut(p, len)
        }
    }
}
impl Drop for Region {
    fn drop(&mut self) {
        extern "C" {
            fn munmap(a: *mut u8, len: usize) -> i32;
        }
        unsafe {
            munmap((self.data - GUARD) as *mut u8, self.bytes + 2 * GUARD);
        }
    }
}
