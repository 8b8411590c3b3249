//! What a call takes (feature `work`): stack, allocations, and, where the library is compiled with
//! reports of its edges, the number of edges plus one per 16 bytes copied, set or compared.
#![allow(clippy::missing_safety_doc)]
use std::alloc::{GlobalAlloc, Layout, System};
use std::arch::asm;
use std::cell::Cell;
use std::ffi::c_void;
use std::sync::atomic::{AtomicBool, Ordering};

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static WORK: Cell<u64> = const { Cell::new(0) };
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
}
static COUNTING: AtomicBool = AtomicBool::new(false);

/// Whether the library reports its edges.
pub fn counting() -> bool {
    COUNTING.load(Ordering::Relaxed)
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Taken {
    pub work: u64,
    pub allocs: u64,
    pub stack: usize,
}

#[inline]
pub fn tick(n: u64) {
    if ON.with(|o| o.get()) {
        WORK.with(|w| w.set(w.get() + n));
    }
}

/// stack that is looked at
const WINDOW: usize = 1 << 20;
const PAINT: u8 = 0xa7;

#[inline(never)]
fn paint(lo: usize) {
    let here = 0u8;
    let hi = (&here as *const u8 as usize) - 512;
    unsafe { set(lo as *mut u8, PAINT, hi - lo) }
}

#[inline(never)]
fn lowest(lo: usize, hi: usize) -> usize {
    let mut p = lo;
    while p < hi && unsafe { (p as *const u64).read_volatile() } == u64::from_le_bytes([PAINT; 8]) {
        p += 8;
    }
    p
}

/// Runs `f`; nothing else that it does than calls of the library may allocate.
#[inline(never)]
pub fn measure(f: &mut dyn FnMut()) -> Taken {
    let here = 0u64;
    let hi = std::hint::black_box(&here) as *const u64 as usize & !7;
    let lo = hi - WINDOW;
    paint(lo);
    WORK.with(|w| w.set(0));
    ALLOCS.with(|w| w.set(0));
    ON.with(|o| o.set(true));
    f();
    ON.with(|o| o.set(false));
    Taken { work: WORK.with(|w| w.get()), allocs: ALLOCS.with(|a| a.get()), stack: hi - lowest(lo, hi) }
}

/// Keeps what the observer itself does out of the measurement.
pub struct Pause(bool);
impl Pause {
    #[inline]
    pub fn new() -> Pause {
        Pause(ON.with(|o| o.replace(false)))
    }
}
impl Default for Pause {
    fn default() -> Pause {
        Pause::new()
    }
}
impl Drop for Pause {
    fn drop(&mut self) {
        ON.with(|o| o.set(self.0))
    }
}

/// After a panic inside `measure`.
pub fn stop() {
    ON.with(|o| o.set(false));
}

pub struct Alloc;
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if ON.with(|o| o.get()) {
            ALLOCS.with(|a| a.set(a.get() + 1));
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
}

#[global_allocator]
static GLOBAL: Alloc = Alloc;

#[cfg(not(feature = "cov"))]
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard(_: *mut u32) {
    tick(1)
}
#[cfg(not(feature = "cov"))]
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard_init(_: *mut u32, _: *mut u32) {
    started()
}
pub fn started() {
    COUNTING.store(true, Ordering::Relaxed)
}

unsafe fn set(d: *mut u8, b: u8, n: usize) {
    asm!("rep stosb", inout("rcx") n => _, inout("rdi") d => _, in("al") b, options(nostack, preserves_flags));
}
unsafe fn copy(d: *mut u8, s: *const u8, n: usize) {
    asm!("rep movsb", inout("rcx") n => _, inout("rdi") d => _, inout("rsi") s => _, options(nostack, preserves_flags));
}

#[no_mangle]
pub unsafe extern "C" fn memset(d: *mut c_void, b: i32, n: usize) -> *mut c_void {
    tick(n as u64 / 16);
    set(d.cast(), b as u8, n);
    d
}
#[no_mangle]
pub unsafe extern "C" fn memcpy(d: *mut c_void, s: *const c_void, n: usize) -> *mut c_void {
    tick(n as u64 / 16);
    copy(d.cast(), s.cast(), n);
    d
}
#[no_mangle]
pub unsafe extern "C" fn memmove(d: *mut c_void, s: *const c_void, n: usize) -> *mut c_void {
    tick(n as u64 / 16);
    let (a, b) = (d as usize, s as usize);
    if a <= b || a >= b + n {
        copy(d.cast(), s.cast(), n);
    } else {
        asm!("std", "rep movsb", "cld", inout("rcx") n => _, inout("rdi") a + n - 1 => _, inout("rsi") b + n - 1 => _, options(nostack));
    }
    d
}
unsafe fn cmp(a: *const u8, b: *const u8, n: usize) -> i32 {
    let mut i = 0;
    while i < n {
        let (x, y) = (a.add(i).read_volatile(), b.add(i).read_volatile());
        if x != y {
            tick(i as u64 / 16);
            return x as i32 - y as i32;
        }
        i += 1;
    }
    tick(n as u64 / 16);
    0
}
#[no_mangle]
pub unsafe extern "C" fn memcmp(a: *const c_void, b: *const c_void, n: usize) -> i32 {
    cmp(a.cast(), b.cast(), n)
}
#[no_mangle]
pub unsafe extern "C" fn bcmp(a: *const c_void, b: *const c_void, n: usize) -> i32 {
    cmp(a.cast(), b.cast(), n)
}
