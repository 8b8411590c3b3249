//! What one execution of the instrumented library (feature `cov`) reaches: edges with counts, and
//! for each comparison how close its operands came. Everything is per thread.
use std::cell::{Cell, RefCell};
use std::sync::atomic::{AtomicU32, Ordering};

const EDGES: usize = 1 << 16;
/// features: 8 per edge, then the closeness of comparisons
pub const FEATURES: usize = 1 << 21;

struct State {
    hits: Vec<u32>,
    touched: Vec<u32>,
    near: Vec<u32>,
    seen: Vec<u8>,
    pairs: Vec<(u64, u64, u8)>,
    consts: Vec<u64>,
    last: u32,
    cost: u64,
}

thread_local! {
    static ON: Cell<*mut State> = const { Cell::new(std::ptr::null_mut()) };
    static KEEP: RefCell<Option<Box<State>>> = const { RefCell::new(None) };
}
static GUARDS: AtomicU32 = AtomicU32::new(0);

pub struct Seen {
    pub features: Vec<u32>,
    /// operands of comparisons that came out different
    pub pairs: Vec<(u64, u64, u8)>,
    /// constants that the library compares with
    pub consts: Vec<u64>,
    /// events
    pub cost: u64,
}

/// Observes `f` on this thread.
pub fn observe<T>(f: impl FnOnce() -> T) -> (T, Seen) {
    let mut st = KEEP.with(|k| k.borrow_mut().take()).unwrap_or_else(|| {
        Box::new(State { hits: vec![0; EDGES], touched: vec![], near: vec![], seen: vec![0; FEATURES / 8], pairs: vec![], consts: vec![], last: 0, cost: 0 })
    });
    st.cost = 0;
    st.last = 0;
    ON.with(|o| o.set(&mut *st));
    let r = f();
    ON.with(|o| o.set(std::ptr::null_mut()));
    let mut features = std::mem::take(&mut st.near);
    for &n in &features {
        st.seen[n as usize / 8] = 0;
    }
    for e in std::mem::take(&mut st.touched) {
        let n = std::mem::take(&mut st.hits[e as usize]);
        let bucket = match n {
            1..=3 => n - 1,
            4..=7 => 3,
            8..=15 => 4,
            16..=31 => 5,
            32..=127 => 6,
            _ => 7,
        };
        features.push(e * 8 + bucket);
    }
    let s = Seen { features, pairs: std::mem::take(&mut st.pairs), consts: std::mem::take(&mut st.consts), cost: st.cost };
    KEEP.with(|k| *k.borrow_mut() = Some(st));
    (r, s)
}

pub fn edges() -> u32 {
    GUARDS.load(Ordering::Relaxed)
}

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    #[cfg(feature = "work")]
    crate::work::tick(1);
    #[cfg(feature = "work")]
    let _pause = crate::work::Pause::new();
    let p = ON.with(|o| o.get());
    if p.is_null() {
        return;
    }
    let (s, g) = unsafe { (&mut *p, *g) };
    s.cost += 1;
    s.last = g;
    let h = &mut s.hits[g as usize];
    if *h == 0 {
        s.touched.push(g);
    }
    *h = h.saturating_add(1);
}

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard_init(a: *mut u32, b: *mut u32) {
    #[cfg(feature = "work")]
    crate::work::started();
    let mut p = a;
    while p < b {
        unsafe {
            if *p == 0 {
                *p = (1 + GUARDS.fetch_add(1, Ordering::Relaxed)) % EDGES as u32;
            }
            p = p.add(1);
        }
    }
}

#[inline]
fn compared(a: u64, b: u64, width: u8, constant: bool) {
    #[cfg(feature = "work")]
    let _pause = crate::work::Pause::new();
    let p = ON.with(|o| o.get());
    if p.is_null() {
        return;
    }
    let s = unsafe { &mut *p };
    s.cost += 1;
    // place of the comparison: the edge before it, and the constant
    let h = crate::src::mix(s.last as u64 ^ if constant { a.rotate_left(24) | 1 } else { 0 } ^ (width as u64) << 60);
    let base = (FEATURES / 4) as u64;
    let x = a ^ b;
    let d = a.wrapping_sub(b);
    let d = d.min(d.wrapping_neg());
    for k in [x.count_ones(), 65 + 64 - d.leading_zeros()] {
        let f = (base + h.wrapping_add(k as u64 * 0x9e37_79b9) % (3 * base)) as u32;
        let (i, m) = (f as usize / 8, 1u8 << (f % 8));
        if s.seen[i] & m == 0 {
            s.seen[i] |= m;
            s.near.push(f);
            if constant && s.consts.last() != Some(&a) {
                s.consts.push(a);
            }
        }
    }
    if x != 0 && s.pairs.len() < 4096 {
        s.pairs.push((a, b, width));
    }
}

macro_rules! cmps {
    ($($c:ident $k:ident $t:ty, $w:expr);*) => { $(
        #[no_mangle]
        pub extern "C" fn $c(a: $t, b: $t) { compared(a as u64, b as u64, $w, false) }
        #[no_mangle]
        pub extern "C" fn $k(a: $t, b: $t) { compared(a as u64, b as u64, $w, true) }
    )* };
}
cmps!(
    __sanitizer_cov_trace_cmp1 __sanitizer_cov_trace_const_cmp1 u8, 1;
    __sanitizer_cov_trace_cmp2 __sanitizer_cov_trace_const_cmp2 u16, 2;
    __sanitizer_cov_trace_cmp4 __sanitizer_cov_trace_const_cmp4 u32, 4;
    __sanitizer_cov_trace_cmp8 __sanitizer_cov_trace_const_cmp8 u64, 8
);

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_switch(v: u64, cases: *const u64) {
    for i in 0..*cases as usize {
        compared(*cases.add(2 + i), v, (*cases.add(1) / 8) as u8, true);
    }
}
