//! A global allocator that counts, and that can place every allocation of the current thread
//! directly in front of an inaccessible page ("fence").
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicUsize, Ordering::*};

pub struct Meter;
thread_local! {
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static BYTES: Cell<u64> = const { Cell::new(0) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static FENCE: Cell<bool> = const { Cell::new(false) };
}
pub const PAGE: usize = 4096;
pub mod sys {
    use std::ffi::c_void;
    extern "C" {
        pub fn mmap(a: *mut c_void, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut c_void;
        pub fn mprotect(a: *mut c_void, len: usize, prot: i32) -> i32;
        pub fn munmap(a: *mut c_void, len: usize) -> i32;
        pub fn sigaction(sig: i32, act: *const SigAction, old: *mut SigAction) -> i32;
        pub fn sigaltstack(ss: *const StackT, old: *mut StackT) -> i32;
        pub fn write(fd: i32, b: *const c_void, n: usize) -> isize;
        pub fn _exit(c: i32) -> !;
    }
    #[repr(C)]
    pub struct SigAction {
        pub handler: usize,
        pub mask: [u64; 16],
        pub flags: i32,
        pub restorer: usize,
    }
    #[repr(C)]
    pub struct StackT {
        pub sp: *mut c_void,
        pub flags: i32,
        pub size: usize,
    }
    pub const NONE: i32 = 0;
    pub const RW: i32 = 3;
    pub const PRIVATE_ANON_NORESERVE: i32 = 0x2 | 0x20 | 0x4000;
}
const ARENA: usize = 1 << 38;
static BASE: AtomicUsize = AtomicUsize::new(0);
static NEXT: AtomicUsize = AtomicUsize::new(0);

pub fn init_arena() {
    unsafe {
        let p = sys::mmap(std::ptr::null_mut(), ARENA, sys::NONE, sys::PRIVATE_ANON_NORESERVE, -1, 0) as usize;
        if p as isize == -1 {
            crate::tool_error("cannot reserve the arena");
        }
        BASE.store(p, SeqCst);
        NEXT.store(p + PAGE, SeqCst);
    }
}
fn in_arena(p: usize) -> bool {
    let b = BASE.load(Relaxed);
    b != 0 && p >= b && p < b + ARENA
}
/// `bytes` bytes of zeroes; at_end: they end where an inaccessible page begins, otherwise they
/// begin where one ends. Never reused.
pub fn fenced(bytes: usize, align: usize, at_end: bool) -> *mut u8 {
    let pages = (bytes + PAGE - 1) / PAGE;
    let p = NEXT.fetch_add((pages + 1) * PAGE, SeqCst);
    if p + (pages + 1) * PAGE > BASE.load(SeqCst) + ARENA {
        return std::ptr::null_mut();
    }
    unsafe {
        if pages > 0 && sys::mprotect(p as *mut _, pages * PAGE, sys::RW) != 0 {
            return std::ptr::null_mut();
        }
    }
    let at = if at_end { (p + pages * PAGE - bytes) & !(align - 1) } else { p };
    at as *mut u8
}
pub fn release(p: *mut u8, bytes: usize) {
    let a = p as usize & !(PAGE - 1);
    let e = (p as usize + bytes + PAGE - 1) & !(PAGE - 1);
    if e > a {
        // gives the memory back and makes every later access a fault
        unsafe {
            sys::mmap(a as *mut _, e - a, sys::NONE, sys::PRIVATE_ANON_NORESERVE | 0x10, -1, 0);
        }
    }
}
unsafe impl GlobalAlloc for Meter {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let _ = COUNT.try_with(|c| c.set(c.get() + 1));
        let _ = BYTES.try_with(|c| c.set(c.get() + l.size() as u64));
        let _ = LIVE.try_with(|c| c.set(c.get() + l.size() as i64));
        if FENCE.try_with(|f| f.get()).unwrap_or(false) && l.align() <= PAGE {
            return fenced(l.size(), l.align(), true);
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _ = LIVE.try_with(|c| c.set(c.get() - l.size() as i64));
        if in_arena(p as usize) {
            release(p, l.size());
        } else {
            System.dealloc(p, l)
        }
    }
}
/// allocations and bytes requested by this thread while f runs
pub fn metered<R>(f: impl FnOnce() -> R) -> (R, u64, u64) {
    let (c0, b0) = (COUNT.with(|c| c.get()), BYTES.with(|c| c.get()));
    let r = f();
    (r, COUNT.with(|c| c.get()) - c0, BYTES.with(|c| c.get()) - b0)
}
/// bytes this thread has requested, and those it has not given back
pub fn balance() -> (u64, i64) {
    (BYTES.with(|c| c.get()), LIVE.with(|c| c.get()))
}
/// every allocation made while f runs is fenced
pub fn with_fence<R>(f: impl FnOnce() -> R) -> R {
    FENCE.with(|c| c.set(true));
    let r = f();
    FENCE.with(|c| c.set(false));
    r
}
