//! The harness on WebAssembly: `call` takes a message and gives an answer, as pointer and length
//! in one 64-bit number.
#[no_mangle]
pub extern "C" fn room(n: usize) -> *mut u8 {
    Box::leak(vec![0u8; n].into_boxed_slice()).as_mut_ptr()
}

/// # Safety
/// `p` is what `room(n)` gave, or an answer of length `n`.
#[no_mangle]
pub unsafe extern "C" fn drop_room(p: *mut u8, n: usize) {
    drop(unsafe { Box::from_raw(std::slice::from_raw_parts_mut(p, n)) })
}

fn give(v: Vec<u8>) -> u64 {
    let v = Box::leak(v.into_boxed_slice());
    (v.as_ptr() as u64) << 32 | v.len() as u64
}

fn hook() {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(harness::engine::install_hook);
}

/// A message of harness::props::config::ask.
/// # Safety
/// `p` and `n` are a piece of memory.
#[no_mangle]
pub unsafe extern "C" fn peer(p: *const u8, n: usize) -> u64 {
    hook();
    give(harness::props::config::answer(unsafe { std::slice::from_raw_parts(p, n) }))
}

/// A line of harness::ops.
/// # Safety
/// `p` and `n` are a piece of memory.
#[no_mangle]
pub unsafe extern "C" fn op(p: *const u8, n: usize) -> u64 {
    hook();
    let line = std::str::from_utf8(unsafe { std::slice::from_raw_parts(p, n) }).expect("text");
    give(harness::ops::run(line).into_bytes())
}

#[no_mangle]
pub extern "C" fn machine() -> u64 {
    give(harness::ops::machine().into_bytes())
}
