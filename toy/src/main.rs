//! toy <message length> <nonce in hex> <key byte> <seconds> [panics]
//!
//! GCM over a block cipher of one xor, for the longest messages: AES would need hours for them.
//! The message is zeros. The output buffer is one piece of memory mapped again and again, so at
//! the end it holds the last pass. The result is looked at as soon as the last block is there,
//! without waiting for the tag.
//! With `panics`, only that the call gets through the whole message matters.
//! Exit 0: right; 1: wrong, with the reason; 3: not decided within the time.
use crypto_pure::aes::BlockCipher;
use crypto_pure::gcm::{AeadCipher, Gcm};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

static CALLS: AtomicU64 = AtomicU64::new(0);

struct Toy(u8);

impl BlockCipher for Toy {
    fn new(key: &[u8]) -> Self {
        Toy(key[0])
    }
    fn permute(&self, input: &[u8; 16]) -> [u8; 16] {
        CALLS.store(CALLS.load(Ordering::Relaxed) + 1, Ordering::Relaxed);
        (u128::from_ne_bytes(*input) ^ u128::from_ne_bytes([self.0; 16])).to_ne_bytes()
    }
}

extern "C" {
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn memfd_create(name: *const u8, flags: u32) -> i32;
    fn ftruncate(fd: i32, n: i64) -> i32;
}

const WINDOW: usize = 1 << 26;

fn undecided(why: &str) -> ! {
    println!("not decided: {why}");
    std::process::exit(3)
}

fn wrong(why: &str) -> ! {
    println!("{why}");
    std::process::exit(1)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let len: usize = a[1].parse().expect("length");
    let nonce: Vec<u8> = (0..12).map(|i| u8::from_str_radix(&a[2][2 * i..2 * i + 2], 16).expect("nonce")).collect();
    let key: u8 = a[3].parse().expect("key");
    let limit = Duration::from_secs(a[4].parse().expect("seconds"));
    let only_panics = a.get(5).is_some_and(|x| x == "panics");
    let start = Instant::now();
    let size = len.next_multiple_of(WINDOW);
    let (input, output) = unsafe {
        // PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE
        let i = mmap(std::ptr::null_mut(), size, 1, 0x4022, -1, 0);
        let o = mmap(std::ptr::null_mut(), size, 0, 0x4022, -1, 0);
        if i as isize == -1 || o as isize == -1 {
            undecided("no address space");
        }
        let fd = memfd_create(b"out\0".as_ptr(), 0);
        if fd < 0 || ftruncate(fd, WINDOW as i64) != 0 {
            undecided("no memory file");
        }
        for k in (0..size).step_by(WINDOW) {
            // PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED
            if mmap(o.add(k), WINDOW, 3, 0x11, fd, 0) as isize == -1 {
                undecided("no mapping");
            }
        }
        (i as usize, o as usize)
    };
    let nonce2 = nonce.clone();
    let worker = std::thread::spawn(move || {
        std::panic::set_hook(Box::new(|i| wrong(&format!("encrypting {} bytes: {i}", std::env::args().nth(1).unwrap()))));
        let (i, o) = unsafe { (std::slice::from_raw_parts(input as *const u8, len), std::slice::from_raw_parts_mut(output as *mut u8, len)) };
        Gcm::<Toy>::new(&[key]).encrypt(i, &nonce2, b"", o)
    });
    let blocks = len.div_ceil(16);
    let expected = |k: usize| {
        // block k of the keystream
        let mut b = [0; 16];
        b[..12].copy_from_slice(&nonce);
        b[12..].copy_from_slice(&(k as u32 + 2).to_be_bytes());
        b.map(|x| x ^ key)
    };
    let bad = || {
        (blocks.saturating_sub(WINDOW / 16)..blocks).find_map(|k| {
            let n = (len - 16 * k).min(16);
            let got: Vec<u8> = (0..n).map(|j| unsafe { ((output + 16 * k + j) as *const u8).read_volatile() }).collect();
            let want = &expected(k)[..n];
            (got != want).then(|| format!("block {k} of {blocks} is {got:02x?} instead of {want:02x?}"))
        })
    };
    let (mut calls, mut since) = (0, Instant::now());
    loop {
        std::thread::sleep(Duration::from_millis(100));
        let now = CALLS.load(Ordering::Relaxed);
        if now != calls {
            (calls, since) = (now, Instant::now());
        }
        let done = worker.is_finished();
        let n = len - 16 * (blocks - 1);
        let last = (0..n).all(|j| unsafe { ((output + 16 * (blocks - 1) + j) as *const u8).read_volatile() } == expected(blocks - 1)[j]);
        // anything unexpected is believed only once nothing happens any more
        let over = done || since.elapsed() > Duration::from_secs(60);
        if last || over {
            match bad() {
                None => {
                    println!("{len} bytes, {calls} calls of the block cipher, {:.1} s", start.elapsed().as_secs_f64());
                    return;
                }
                Some(_) if over && only_panics => {
                    println!("{len} bytes, no panic, {:.1} s", start.elapsed().as_secs_f64());
                    return;
                }
                Some(b) if over => wrong(&format!("encrypting {len} bytes: {b} ({calls} calls of the block cipher)")),
                _ => {}
            }
        }
        if start.elapsed() > limit {
            undecided("too slow");
        }
    }
}
