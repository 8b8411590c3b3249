//! Traces of the instrumented library (feature `trace`): edges, addresses of loads and stores,
//! variable indices, and byte comparisons, recorded once and compared in later runs.
#![allow(clippy::missing_safety_doc)]
use crate::engine::mmap;
use std::alloc::{GlobalAlloc, Layout, System};
use std::ffi::c_void;
use std::cell::{Cell, RefCell};

thread_local! {
    /// 0 off, 1 recording, 2 comparing
    static MODE: Cell<u8> = const { Cell::new(0) };
    static POS: Cell<usize> = const { Cell::new(0) };
    static BUF: Cell<*mut u64> = const { Cell::new(std::ptr::null_mut()) };
    static LEN: Cell<usize> = const { Cell::new(0) };
    static ARENA: Cell<usize> = const { Cell::new(0) };
    static BUMP: Cell<usize> = const { Cell::new(0) };
    static USE_ARENA: Cell<bool> = const { Cell::new(false) };
    static DIFF: RefCell<Option<String>> = const { RefCell::new(None) };
}

const MAX: usize = 1 << 24;
const ARENA_SIZE: usize = 1 << 26;

const EDGE: u64 = 1 << 60;
const LOAD: u64 = 2 << 60;
const STORE: u64 = 3 << 60;
const INDEX: u64 = 4 << 60;
const COMPARE: u64 = 5 << 60;

fn kind(e: u64) -> &'static str {
    match e >> 60 {
        1 => "edge",
        2 => "load",
        3 => "store",
        4 => "index",
        5 => "comparison",
        _ => "nothing",
    }
}

#[inline]
fn event(e: u64) {
    let m = MODE.with(|m| m.get());
    if m == 0 {
        return;
    }
    let i = POS.with(|p| p.get());
    POS.with(|p| p.set(i + 1));
    let b = BUF.with(|b| b.get());
    if i >= MAX {
        return;
    }
    if m == 1 {
        unsafe { *b.add(i) = e };
        return;
    }
    let want = if i < LEN.with(|l| l.get()) { unsafe { *b.add(i) } } else { 0 };
    if want != e {
        differ(i, want, e);
    }
}

#[cold]
fn differ(i: usize, want: u64, got: u64) {
    MODE.with(|m| m.set(0));
    USE_ARENA.with(|u| u.set(false));
    let bt = std::backtrace::Backtrace::force_capture().to_string();
    let mut at: Vec<&str> = vec![];
    for l in bt.lines() {
        let l = l.trim();
        if let Some((_, f)) = l.split_once(": ") {
            if (f.contains("crypto_pure") || f.contains("facade::")) && at.last() != Some(&f) {
                at.push(f);
            }
        }
    }
    let what = if kind(want) == kind(got) { format!("another {}", kind(got)) } else { format!("{} instead of {}", kind(got), kind(want)) };
    DIFF.with(|d| *d.borrow_mut() = Some(format!("event {i} is {what}, in {}", at.join(" < "))));
}

/// Runs `f` in the given mode, with all its allocations at the same addresses each time.
fn run(mode: u8, f: &dyn Fn()) -> usize {
    if BUF.with(|b| b.get()).is_null() {
        let map = |n| unsafe { mmap(std::ptr::null_mut(), n, 3, 0x4022, -1, 0) };
        BUF.with(|b| b.set(map(MAX * 8).cast()));
        ARENA.with(|a| a.set(map(ARENA_SIZE) as usize));
    }
    BUMP.with(|b| b.set(0));
    POS.with(|p| p.set(0));
    DIFF.with(|d| *d.borrow_mut() = None);
    USE_ARENA.with(|u| u.set(true));
    MODE.with(|m| m.set(mode));
    f();
    MODE.with(|m| m.set(0));
    USE_ARENA.with(|u| u.set(false));
    POS.with(|p| p.get())
}

/// Records the trace of `f(0)` and compares those of `f(1)`, ... with it. Ok: number of events.
pub fn compare(n: usize, f: &dyn Fn(usize)) -> Result<u64, (usize, String)> {
    let len = run(1, &|| f(0));
    LEN.with(|l| l.set(len));
    assert!(len < MAX, "trace buffer");
    for k in 1..n {
        let got = run(2, &|| f(k));
        if let Some(d) = DIFF.with(|d| d.borrow_mut().take()) {
            return Err((k, d));
        }
        if got != len {
            return Err((k, format!("{got} events instead of {len}")));
        }
    }
    Ok((len * n) as u64)
}

pub struct Alloc;
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !USE_ARENA.with(|u| u.get()) {
            return System.alloc(l);
        }
        let at = BUMP.with(|b| b.get()).next_multiple_of(l.align().max(16));
        assert!(at + l.size() <= ARENA_SIZE);
        BUMP.with(|b| b.set(at + l.size()));
        (ARENA.with(|a| a.get()) + at) as *mut u8
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let a = ARENA.with(|a| a.get());
        if (p as usize).wrapping_sub(a) >= ARENA_SIZE || a == 0 {
            System.dealloc(p, l)
        }
    }
}

#[global_allocator]
static GLOBAL: Alloc = Alloc;

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    event(EDGE | g as u64)
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard_init(_a: *mut u32, _b: *mut u32) {}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_gep(i: usize) {
    event(INDEX | i as u64 & (1 << 60) - 1)
}

macro_rules! access {
    ($($l:ident $s:ident),*) => { $(
        #[no_mangle]
        pub extern "C" fn $l(a: *const u8) { event(LOAD | a as u64) }
        #[no_mangle]
        pub extern "C" fn $s(a: *const u8) { event(STORE | a as u64) }
    )* };
}
access!(
    __sanitizer_cov_load1 __sanitizer_cov_store1,
    __sanitizer_cov_load2 __sanitizer_cov_store2,
    __sanitizer_cov_load4 __sanitizer_cov_store4,
    __sanitizer_cov_load8 __sanitizer_cov_store8,
    __sanitizer_cov_load16 __sanitizer_cov_store16
);

/// Comparison routines stop at the first difference, so its place is part of the trace.
#[inline]
unsafe fn cmp(a: *const u8, b: *const u8, n: usize) -> i32 {
    let mut i = 0;
    let mut r = 0;
    while i < n {
        let (x, y) = (a.add(i).read_volatile(), b.add(i).read_volatile());
        if x != y {
            r = x as i32 - y as i32;
            break;
        }
        i += 1;
    }
    event(COMPARE | i as u64);
    r
}
#[no_mangle]
pub unsafe extern "C" fn memcmp(a: *const c_void, b: *const c_void, n: usize) -> i32 {
    cmp(a.cast(), b.cast(), n)
}
#[no_mangle]
pub unsafe extern "C" fn bcmp(a: *const c_void, b: *const c_void, n: usize) -> i32 {
    cmp(a.cast(), b.cast(), n)
}
