//! C21 isolation: results depend on arguments and the object's own history only.
use super::*;
use crate::engine::*;
use crate::ensure;
use crate::src::*;
use facade::{AesSize, A, H};

pub struct C21;

/// Index into a pool of related byte strings.
type Ix = u8;

#[derive(Clone, Debug)]
pub enum Op {
    NewHash(H),
    Update(u8, Ix),
    Finish(u8),
    NewMac(H, Ix),
    MacUpdate(u8, Ix),
    MacFinish(u8),
    NewStream(Ix, Ix),
    Stream(u8, Ix, bool),
    StreamNext(u8, u8),
    NewAead(A, Ix),
    Enc(u8, Ix, Ix, Ix),
    /// decrypt what an encryption of the same arguments gives; .4 damages it
    Dec(u8, Ix, Ix, Ix, u8),
    /// same call twice in a row
    EncTwice(u8, Ix, Ix, Ix),
    Sha(H, Ix),
    Hmac(H, Ix, Ix),
    HmacVerify(H, Ix, Ix, u8),
    Extract(H, Ix, Ix),
    Expand(H, Ix, Ix, u16),
    NewAes(AesSize, Ix),
    Permute(u8, Ix),
    XPk(Ix),
    Dh(Ix, Ix),
    EdPk(Ix),
    Sign(Ix, Ix),
    Verify(Ix, Ix, u8),
    Drop(u8),
}

#[derive(Clone, Debug)]
pub enum C21Case {
    History { pool: u64, layout: u64, ops: Vec<Op> },
    /// the same and other histories at the same time
    Threads { pool: u64, layout: u64, ops: Vec<Op>, n: usize },
    /// one cipher object used from several threads
    Shared { a: A, seed: u64, n: usize, calls: usize },
    /// one cipher object used `calls` times
    Reuse { a: A, seed: u64, calls: usize },
}

/// Related strings: small differences at the start, in the middle and at the end.
fn keys(seed: u64) -> Vec<Vec<u8>> {
    let base = Blob::Rng(seed, 64).bytes();
    let mut v = vec![base.clone()];
    for i in [0usize, 1, 7, 8, 11, 12, 15, 16, 23, 24, 31, 32, 47, 63] {
        let mut k = base.clone();
        k[i] ^= 1 << (seed as usize + i) % 8;
        v.push(k);
    }
    v.push([&base[32..], &base[..32]].concat());
    v.push(vec![0; 64]);
    v.push(base.iter().map(|b| !b).collect());
    v
}

fn texts(seed: u64) -> Vec<Vec<u8>> {
    let base = Blob::Rng(seed ^ 0x1234, 700).bytes();
    let mut v: Vec<Vec<u8>> = [0, 1, 15, 16, 17, 32, 55, 56, 63, 64, 65, 100, 111, 112, 128, 129, 200, 256, 320, 700].iter().map(|n| base[..*n].to_vec()).collect();
    for n in [16usize, 64, 128, 200] {
        for i in [0, n / 2, n - 1] {
            let mut m = base[..n].to_vec();
            m[i] ^= 0x40;
            v.push(m);
        }
    }
    v
}

/// Runs `f` on copies of `ins` and an output region placed in one arena with random gaps, and
/// checks that afterwards only the output region has changed, and that it holds `want`.
struct Place<'a> {
    rng: &'a mut Rng,
}

/// Buffers whose ends nothing is mapped beyond, the inputs in memory that cannot be written: a
/// call that reads or writes outside its arguments, or writes to an input, ends the process, and
/// the journal says in which case.
#[cfg(unix)]
mod edge {
    use crate::engine::mmap;
    use std::sync::Mutex;

    pub const SLOTS: usize = 6;
    pub const SIZE: usize = 4096;
    extern "C" {
        fn memfd_create(name: *const std::ffi::c_char, flags: u32) -> i32;
        fn ftruncate(fd: i32, n: i64) -> i32;
        fn close(fd: i32) -> i32;
    }

    /// per slot: where it is written, and the same memory as the library gets it
    pub struct Slots([(*mut u8, *mut u8); SLOTS]);
    unsafe impl Send for Slots {}

    static FREE: Mutex<Vec<Slots>> = Mutex::new(vec![]);

    impl Slots {
        pub fn get() -> Slots {
            if let Some(s) = FREE.lock().unwrap().pop() {
                return s;
            }
            Slots(std::array::from_fn(|k| unsafe {
                let none = std::ptr::null_mut();
                let fd = memfd_create(c"edge".as_ptr(), 0);
                assert!(fd >= 0 && ftruncate(fd, SIZE as i64) == 0, "memfd");
                // PROT_READ | PROT_WRITE, MAP_SHARED
                let rw = mmap(none, SIZE, 3, 1, fd, 0);
                // room with nothing in it, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE
                let room = mmap(none, 3 * SIZE, 0, 0x4022, -1, 0);
                // the last slot is for the output; MAP_SHARED | MAP_FIXED
                let at = mmap(room.add(SIZE), SIZE, if k == SLOTS - 1 { 3 } else { 1 }, 0x11, fd, 0);
                assert!(rw as isize != -1 && room as isize != -1 && at == room.add(SIZE), "mmap");
                close(fd);
                (rw, at)
            }))
        }
        pub fn put(self) {
            FREE.lock().unwrap().push(self);
        }
        fn start(n: usize, last: bool) -> usize {
            if last {
                SIZE - n
            } else {
                0
            }
        }
        /// The bytes as an input, against the end of the slot or against its start.
        pub fn input(&mut self, k: usize, b: &[u8], last: bool) -> &'static [u8] {
            let o = Self::start(b.len(), last);
            unsafe {
                std::ptr::write_bytes(self.0[k].0, 0xee, SIZE);
                std::ptr::copy_nonoverlapping(b.as_ptr(), self.0[k].0.add(o), b.len());
                std::slice::from_raw_parts(self.0[k].1.add(o), b.len())
            }
        }
        pub fn output(&mut self, b: &[u8], last: bool) -> &'static mut [u8] {
            let o = Self::start(b.len(), last);
            let q = self.0[SLOTS - 1].1;
            unsafe {
                std::ptr::write_bytes(q, 0xee, SIZE);
                std::ptr::copy_nonoverlapping(b.as_ptr(), q.add(o), b.len());
                std::slice::from_raw_parts_mut(q.add(o), b.len())
            }
        }
        /// What the library sees of the output slot.
        pub fn all(&self) -> &[u8] {
            unsafe { std::slice::from_raw_parts(self.0[SLOTS - 1].1, SIZE) }
        }
    }
}

impl Place<'_> {
    #[cfg(unix)]
    fn at_edges<T>(&mut self, what: &str, ins: &[&[u8]], want: Option<&[u8]>, out_len: usize, run: impl FnOnce(&[&[u8]], &mut [u8]) -> T) -> Result<T, Fail> {
        let r = &mut *self.rng;
        let last = mix(r.next());
        let mut stale = vec![0; out_len];
        r.fill(&mut stale);
        let mut s = edge::Slots::get();
        let mut v: Vec<&[u8]> = ins.iter().enumerate().map(|(k, b)| s.input(k, b, last >> k & 1 == 0)).collect();
        if last >> 24 & 1 == 0 {
            // inputs that begin with the same bytes share them
            for k in 1..v.len() {
                if let Some(w) = v[..k].iter().find(|w| w.starts_with(v[k])) {
                    v[k] = &w[..v[k].len()];
                }
            }
        }
        let end = last >> 20 & 1 == 0;
        let o = s.output(&stale, end);
        let res = lib(what, || run(&v, o));
        let mut expect = vec![0xee; edge::SIZE];
        let at = if end { edge::SIZE - out_len } else { 0 };
        expect[at..at + out_len].copy_from_slice(want.unwrap_or(&stale));
        let got = s.all().to_vec();
        s.put();
        let res = res?;
        if got != expect {
            let p = (0..got.len()).find(|k| got[*k] != expect[*k]).unwrap();
            ensure!((at..at + out_len).contains(&p), "{what} changed memory outside its output, {} bytes from its start", p as isize - at as isize);
            return Err(Fail(format!("{what}: output at the edge of its page: {}", diff(&got[at..at + out_len], &expect[at..at + out_len]))));
        }
        Ok(res)
    }

    fn call<T>(&mut self, what: &str, ins: &[&[u8]], want: Option<&[u8]>, out_len: usize, run: impl FnOnce(&[&[u8]], &mut [u8]) -> T) -> Result<T, Fail> {
        #[cfg(unix)]
        if ins.len() < edge::SLOTS && ins.iter().all(|b| b.len() <= edge::SIZE) && out_len <= edge::SIZE && mix(self.rng.next()) % 3 == 0 {
            return self.at_edges(what, ins, want, out_len, run);
        }
        let r = &mut *self.rng;
        let mut arena: Vec<u8> = vec![];
        let slot = (mix(r.next()) % (ins.len() as u64 + 1)) as usize;
        let fill = mix(r.next());
        let gap = |a: &mut Vec<u8>, x: u64| {
            let n = match x % 4 {
                0 => 0,
                1 => (x / 4 % 16) as usize,
                2 => 16 * ((x / 4 % 3) as usize),
                _ => (x / 4 % 80) as usize,
            };
            a.resize(a.len() + n, 0xee)
        };
        let mut at = vec![0..0; ins.len()];
        let mut o = 0..0;
        for j in 0..=ins.len() {
            gap(&mut arena, mix(r.next()));
            if j == slot {
                o = arena.len()..arena.len() + out_len;
                // stale contents: zeros, ones, noise, or an input
                match fill % 5 {
                    0 => arena.resize(o.end, 0),
                    1 => arena.resize(o.end, 0xff),
                    2 => {
                        let mut v = vec![0; out_len];
                        r.fill(&mut v);
                        arena.extend(v);
                    }
                    3 => {
                        let mut v = ins.first().map_or(vec![], |x| x.to_vec());
                        v.resize(out_len, 0x33);
                        arena.extend(v);
                    }
                    _ => {
                        // the right answer, already there
                        let v = want.map_or(vec![0x44; out_len], |w| w.to_vec());
                        arena.extend(v);
                    }
                }
                gap(&mut arena, mix(r.next()));
            }
            if j < ins.len() {
                at[j] = arena.len()..arena.len() + ins[j].len();
                arena.extend_from_slice(ins[j]);
            }
        }
        gap(&mut arena, mix(r.next()));
        let mut expect = arena.clone();
        if let Some(w) = want {
            expect[o.clone()].copy_from_slice(w);
        }
        let res = {
            let (left, rest) = arena.split_at_mut(o.start);
            let (out, right) = rest.split_at_mut(out_len);
            let (left, right) = (&*left, &*right);
            let v: Vec<&[u8]> = at.iter().map(|x| if x.end <= o.start { &left[x.clone()] } else { &right[x.start - o.end..x.end - o.end] }).collect();
            lib(what, || run(&v, out))?
        };
        if arena != expect {
            let p = (0..arena.len()).find(|k| arena[*k] != expect[*k]).unwrap();
            ensure!(o.contains(&p), "{what} changed memory outside its output, {} bytes from its start", p as isize - o.start as isize);
            ensure!(want.is_some(), "{what} wrote to its output: {}", diff(&arena[o.clone()], &expect[o.clone()]));
            return Err(Fail(format!("{what}: {}", diff(&arena[o.clone()], &expect[o]))));
        }
        Ok(res)
    }
}

fn key_len(a: A) -> usize {
    match a {
        A::Gcm128 => 16,
        A::Gcm192 => 24,
        _ => 32,
    }
}

fn gen_ops(s: &mut Src) -> Vec<Op> {
    let n = if s.one_in(16) { s.range(40, 160) } else { s.range(4, 40) };
    // the first few operations make objects
    let makers = s.range(0, 4);
    let ix = |s: &mut Src| s.byte();
    // a history uses few different values, so that they meet again
    let pool: Vec<u8> = (0..5).map(|_| s.byte()).collect();
    let v = |s: &mut Src| if s.one_in(4) { s.byte() } else { s.pick(&pool) };
    (0..n)
        .map(|j| match if j < makers { s.pick(&[0, 3, 6, 9, 9, 18]) } else { s.weighted(&[3, 6, 3, 2, 4, 2, 2, 5, 2, 3, 6, 6, 2, 2, 2, 2, 1, 2, 1, 3, 1, 1, 1, 1, 1, 1]) } {
            0 => Op::NewHash(s.pick(&HS)),
            1 => Op::Update(ix(s), v(s)),
            2 => Op::Finish(ix(s)),
            3 => Op::NewMac(s.pick(&HS), v(s)),
            4 => Op::MacUpdate(ix(s), v(s)),
            5 => Op::MacFinish(ix(s)),
            6 => Op::NewStream(v(s), v(s)),
            7 => Op::Stream(ix(s), v(s), s.bool()),
            8 => Op::StreamNext(ix(s), s.byte() % 70),
            9 => Op::NewAead(s.pick(&AS), v(s)),
            10 => Op::Enc(ix(s), v(s), v(s), v(s)),
            11 => Op::Dec(ix(s), v(s), v(s), v(s), if s.bool() { 0 } else { s.byte() }),
            12 => Op::EncTwice(ix(s), v(s), v(s), v(s)),
            13 => Op::Sha(s.pick(&HS), v(s)),
            14 => Op::Hmac(s.pick(&HS), v(s), v(s)),
            15 => Op::HmacVerify(s.pick(&HS), v(s), v(s), if s.bool() { 0 } else { s.byte() }),
            16 => Op::Extract(s.pick(&HS), v(s), v(s)),
            17 => Op::Expand(s.pick(&HS), v(s), v(s), s.range(0, 400) as u16),
            18 => Op::NewAes(s.pick(&[AesSize::Aes128, AesSize::Aes192, AesSize::Aes256]), v(s)),
            19 => Op::Permute(ix(s), v(s)),
            20 => Op::XPk(v(s)),
            21 => Op::Dh(v(s), v(s)),
            22 => Op::EdPk(v(s)),
            23 => Op::Sign(v(s), v(s)),
            24 => Op::Verify(v(s), v(s), if s.bool() { 0 } else { s.byte() }),
            _ => Op::Drop(ix(s)),
        })
        .collect()
}

impl Prop for C21 {
    type Case = C21Case;
    const ID: &'static str = "C21";
    const RULE: &'static str = "case: a history of 4 to 160 operations of all modules on interleaved objects, with keys, nonces and texts from a pool of closely related values, every buffer placed at random offsets in an arena with stale contents, or (one call in three) against unmapped memory with the inputs in read-only pages; run alone, or at the same time as rotated copies on other threads; one cipher object shared by threads, or called tens of thousands of times. Oracle: reference result of each operation from its own object's inputs, and byte comparison of the whole arena. Non-trivial: at least two objects alive and at least six operations checked, or threads; distinct by full case.";
    const CASES: (u64, u64) = (60_000, 1_000_000);

    fn gen(s: &mut Src) -> C21Case {
        match s.weighted(&[80, 6, 2, 1]) {
            0 => C21Case::History { pool: s.u64(), layout: s.u64(), ops: gen_ops(s) },
            1 => C21Case::Threads { pool: s.u64(), layout: s.u64(), ops: gen_ops(s), n: s.range(2, 4) },
            2 => C21Case::Shared { a: s.pick(&AS), seed: s.u64(), n: s.range(2, 5), calls: s.range(1, 12) },
            _ => C21Case::Reuse { a: s.pick(&AS), seed: s.u64(), calls: s.range(20, 300) },
        }
    }

    fn fixed(t: Tier) -> Vec<C21Case> {
        let calls = if t == Tier::Quick { 70_000 } else { 2_000_000 };
        AS.iter().map(|&a| C21Case::Reuse { a, seed: 1, calls }).collect()
    }

    fn check(c: &C21Case, i: &mut Info) -> Res {
        match c {
            C21Case::History { pool, layout, ops } => history(*pool, *layout, ops, i),
            // there are no threads
            C21Case::Threads { .. } | C21Case::Shared { .. } if cfg!(target_family = "wasm") => Ok(()),
            C21Case::Threads { pool, layout, ops, n } => {
                i.hit("concurrent histories");
                let rs: Vec<Res> = std::thread::scope(|sc| {
                    let hs: Vec<_> = (0..*n)
                        .map(|t| {
                            sc.spawn(move || {
                                let mut o = ops.clone();
                                let k = t * o.len() / n;
                                o.rotate_left(k);
                                history(*pool, layout + t as u64, &o, &mut Info::default())
                            })
                        })
                        .collect();
                    hs.into_iter().map(|h| h.join().expect("thread")).collect()
                });
                i.extra += *n as u64 - 1;
                rs.into_iter().collect()
            }
            C21Case::Reuse { a, seed, calls } => {
                i.hit("object used many times");
                let key = Blob::Rng(*seed, 32).bytes();
                let x = lib("AEAD construction", || f::Aead::new(*a, &key[..key_len(*a)]))?;
                let mut r = Rng::new(*seed);
                let mut ctx = Place { rng: &mut Rng::new(seed ^ 77) };
                let text = Blob::Rng(seed + 1, 40).bytes();
                // mostly short; the last call is an ordinary one
                for j in 0..*calls {
                    let z = mix(r.next());
                    let m = &text[..if j % 8 == 0 { (z % 40) as usize } else { (z % 3) as usize }];
                    let aad = &text[40 - ((z >> 8) % 3) as usize..];
                    let nonce = &key[((z >> 16) % 20) as usize..][..12];
                    enc_dec(&x, *a, &key, m, nonce, aad, if z >> 32 & 3 == 0 { (z >> 40) as u8 } else { 0 }, &mut ctx)?;
                    i.extra += 1;
                }
                Ok(())
            }
            C21Case::Shared { a, seed, n, calls } => {
                struct Anyway<T>(T);
                // only shared when the library's type is Sync
                unsafe impl<T> Sync for Anyway<T> {}
                if !f::aead_is_sync() {
                    i.label("cipher objects are not Sync");
                    return Ok(());
                }
                i.hit("object shared by threads");
                let ks = keys(*seed);
                let ts = texts(*seed);
                let x = Anyway(lib("AEAD construction", || f::Aead::new(*a, &ks[0][..key_len(*a)]))?);
                let rs: Vec<Res> = std::thread::scope(|sc| {
                    let hs: Vec<_> = (0..*n)
                        .map(|t| {
                            let (x, ks, ts) = (&x, &ks, &ts);
                            sc.spawn(move || {
                                let x = &x;
                                let mut r = Rng::new(seed + t as u64);
                                let mut ctx = Place { rng: &mut Rng::new(seed ^ t as u64) };
                                for _ in 0..*calls {
                                    let mut p = |v: &Vec<Vec<u8>>| v[(mix(r.next()) % v.len() as u64) as usize].clone();
                                    let (m, aad, nonce) = (p(ts), p(ts), p(ks)[..12].to_vec());
                                    enc_dec(&x.0, *a, &ks[0], &m, &nonce, &aad, mix(r.next()) as u8 & 1, &mut ctx)?;
                                }
                                Ok(())
                            })
                        })
                        .collect();
                    hs.into_iter().map(|h| h.join().expect("thread")).collect()
                });
                i.extra += (*n * *calls) as u64;
                rs.into_iter().collect()
            }
        }
    }
}

#[allow(clippy::too_many_arguments)]
fn enc_dec(x: &f::Aead, a: A, key: &[u8], m: &[u8], nonce: &[u8], aad: &[u8], bad: u8, pl: &mut Place) -> Res {
    let (c, tag) = refs::aead::seal(ra(a), &key[..key_len(a)], nonce, aad, m);
    let got = pl.call(&format!("{a:?} encryption of {} bytes", m.len()), &[m, nonce, aad], Some(&c), c.len(), |i, o| x.encrypt(i[0], i[1], i[2], o))?;
    ensure!(got == tag, "{a:?} tag of {} bytes is {}, reference {}", m.len(), hex(&got), hex(&tag));
    let mut t2 = tag.to_vec();
    if bad != 0 {
        t2[bad as usize % 16] ^= 1 << (bad / 16 % 8);
    }
    let ok = pl.call(&format!("{a:?} decryption of {} bytes", m.len()), &[&c, nonce, aad, &t2], (bad == 0).then_some(m), m.len(), |i, o| x.decrypt(i[0], i[1], i[2], i[3], o))?;
    ensure!(ok == (bad == 0), "{a:?} decryption of {} bytes is {ok} with a {} tag", m.len(), if bad == 0 { "right" } else { "wrong" });
    Ok(())
}

fn history(pool: u64, layout: u64, ops: &[Op], i: &mut Info) -> Res {
    let (ks, ts) = (keys(pool), texts(pool));
    let k = |x: &Ix| &ks[*x as usize % ks.len()];
    let t = |x: &Ix| &ts[*x as usize % ts.len()];
    let mut rng = Rng::new(layout);
    let mut pl = Place { rng: &mut rng };
    let mut hashers: Vec<(f::Hasher, H, Vec<u8>)> = vec![];
    let mut macs: Vec<(f::Mac, H, Vec<u8>, Vec<u8>)> = vec![];
    let mut streams: Vec<(f::Stream, Vec<u8>, Vec<u8>, u64)> = vec![];
    let mut aeads: Vec<(f::Aead, A, Vec<u8>)> = vec![];
    let mut aess: Vec<(f::Aes, AesSize, Vec<u8>)> = vec![];
    let mut done = 0;
    let mut alive = 0;
    macro_rules! at {
        ($v:expr, $i:expr) => {
            if $v.is_empty() {
                continue;
            } else {
                *$i as usize % $v.len()
            }
        };
    }
    let rk = |a: &AesSize| match a {
        AesSize::Aes128 => 16,
        AesSize::Aes192 => 24,
        AesSize::Aes256 => 32,
    };
    for (j, op) in ops.iter().enumerate() {
        let what = format!("operation {j} ({op:?})");
        let w = what.as_str();
        match op {
            Op::NewHash(h) => hashers.push((lib(w, || f::Hasher::new(*h))?, *h, vec![])),
            Op::Update(n, m) => {
                let n = at!(hashers, n);
                let x = &mut hashers[n];
                pl.call(w, &[t(m)], None, 0, |i, _| x.0.update(i[0]))?;
                x.2.extend(t(m));
            }
            Op::Finish(n) => {
                let n = at!(hashers, n);
                let (x, h, m) = hashers.swap_remove(n);
                pl.call(w, &[], Some(&refs::sha2::sha(rh(h), &m)), dig(h), |_, o| x.write_digest(o))?;
            }
            Op::NewMac(h, key) => {
                let x = pl.call(w, &[k(key)], None, 0, |i, _| f::Mac::new(*h, i[0]))?;
                macs.push((x, *h, k(key).clone(), vec![]));
            }
            Op::MacUpdate(n, m) => {
                let n = at!(macs, n);
                let x = &mut macs[n];
                pl.call(w, &[t(m)], None, 0, |i, _| x.0.update(i[0]))?;
                x.3.extend(t(m));
            }
            Op::MacFinish(n) => {
                let n = at!(macs, n);
                let (x, h, key, m) = macs.swap_remove(n);
                let got = lib(w, || x.tag())?.0;
                let want = refs::kdf::hmac(rh(h), &key, &m);
                ensure!(got == want, "{w}: {}", diff(&got, &want));
            }
            Op::NewStream(key, n) => {
                let (key, n) = (&k(key)[..32], &k(n)[..12]);
                let x = pl.call(w, &[key, n], None, 0, |i, _| f::stream_new(i[0], i[1]))?;
                streams.push((x, key.to_vec(), n.to_vec(), 0));
            }
            Op::Stream(n, m, dec) => {
                let n = at!(streams, n);
                let x = &mut streams[n];
                let m = t(m);
                let ks = refs::chacha::ChaCha::new(&x.1, &x.2).keystream(0, x.3, m.len());
                let want: Vec<u8> = m.iter().zip(&ks).map(|(a, b)| a ^ b).collect();
                pl.call(w, &[m], Some(&want), m.len(), |i, o| if *dec { f::stream_decrypt(&mut x.0, i[0], o) } else { f::stream_encrypt(&mut x.0, i[0], o) })?;
                x.3 += m.len() as u64;
            }
            Op::StreamNext(n, c) => {
                let n = at!(streams, n);
                let x = &mut streams[n];
                let want = refs::chacha::ChaCha::new(&x.1, &x.2).keystream(0, x.3, *c as usize);
                let got = lib(w, || f::stream_take(&mut x.0, *c as usize))?;
                ensure!(got == want, "{w}: {}", diff(&got, &want));
                x.3 += *c as u64;
            }
            Op::NewAead(a, key) => {
                let key = &k(key)[..key_len(*a)];
                let x = pl.call(w, &[key], None, 0, |i, _| f::Aead::new(*a, i[0]))?;
                aeads.push((x, *a, key.to_vec()));
            }
            Op::Enc(n, m, no, aad) | Op::EncTwice(n, m, no, aad) => {
                let n = at!(aeads, n);
                let (x, a, key) = &aeads[n];
                let (m, no, aad) = (t(m), &k(no)[..12], t(aad));
                let (c, tag) = refs::aead::seal(ra(*a), key, no, aad, m);
                for _ in 0..if matches!(op, Op::EncTwice(..)) { 2 } else { 1 } {
                    let got = pl.call(w, &[m, no, aad], Some(&c), c.len(), |i, o| x.encrypt(i[0], i[1], i[2], o))?;
                    ensure!(got == tag, "{w}: tag: {}", diff(&got, &tag));
                }
            }
            Op::Dec(n, m, no, aad, bad) => {
                let n = at!(aeads, n);
                let (x, a, key) = &aeads[n];
                let (m, no, aad) = (t(m), &k(no)[..12], t(aad));
                let (mut c, mut tag) = refs::aead::seal(ra(*a), key, no, aad, m);
                let ok = *bad == 0;
                if !ok {
                    match bad % 2 {
                        0 if !c.is_empty() => {
                            let p = *bad as usize * 7 % c.len();
                            c[p] ^= 1 << (bad % 8);
                        }
                        _ => tag[*bad as usize / 2 % 16] ^= 1 << (bad % 8),
                    }
                }
                let got = pl.call(w, &[&c, no, aad, &tag], ok.then_some(m), m.len(), |i, o| x.decrypt(i[0], i[1], i[2], i[3], o))?;
                ensure!(got == ok, "{w}: decryption is {got} instead of {ok}");
            }
            Op::Sha(h, m) => {
                let want = refs::sha2::sha(rh(*h), t(m));
                let got = pl.call(w, &[t(m)], None, 0, |i, _| f::sha(*h, i[0]))?;
                ensure!(got == want, "{w}: {}", diff(&got, &want));
            }
            Op::Hmac(h, key, m) => {
                let want = refs::kdf::hmac(rh(*h), k(key), t(m));
                let got = pl.call(w, &[k(key), t(m)], None, 0, |i, _| f::hmac(*h, i[0], i[1]))?;
                ensure!(got == want, "{w}: {}", diff(&got, &want));
            }
            Op::HmacVerify(h, key, m, bad) => {
                let mut tag = refs::kdf::hmac(rh(*h), k(key), t(m));
                let n = tag.len();
                if *bad != 0 {
                    tag[*bad as usize % n] ^= 1 << (bad / 32);
                }
                let got = pl.call(w, &[k(key), t(m), &tag], None, 0, |i, _| f::hmac_verify(*h, i[0], i[1], i[2]))?;
                ensure!(got == (*bad == 0), "{w}: verification is {got}");
            }
            Op::Extract(h, salt, ikm) => {
                let want = refs::kdf::extract(rh(*h), t(salt), k(ikm));
                pl.call(w, &[t(salt), k(ikm)], Some(&want), dig(*h), |i, o| f::extract(*h, i[0], i[1], o))?;
            }
            Op::Expand(h, prk, info, n) => {
                let want = refs::kdf::expand(rh(*h), k(prk), t(info), *n as usize).unwrap();
                pl.call(w, &[k(prk), t(info)], Some(&want), *n as usize, |i, o| f::expand(*h, i[0], i[1], o))?;
            }
            Op::NewAes(a, key) => {
                let key = &k(key)[..rk(a)];
                let x = pl.call(w, &[key], None, 0, |i, _| f::Aes::new(*a, i[0]))?;
                aess.push((x, *a, key.to_vec()));
            }
            Op::Permute(n, b) => {
                let n = at!(aess, n);
                let (x, _, key) = &aess[n];
                let b: [u8; 16] = k(b)[..16].try_into().unwrap();
                let want = refs::aes::Aes::new(key).encrypt(&b);
                let got = lib(w, || x.permute(&b))?;
                ensure!(got == want, "{w}: {}", diff(&got, &want));
            }
            Op::XPk(key) => {
                let key: [u8; 32] = k(key)[..32].try_into().unwrap();
                let got = pl.call(w, &[&key], None, 0, |i, _| f::x_gen_pk(i[0]))?;
                let want = refs::x::base(&key);
                ensure!(got == want, "{w}: {}", diff(&got, &want));
            }
            Op::Dh(p, key) => {
                let (p, key): ([u8; 32], [u8; 32]) = (k(p)[..32].try_into().unwrap(), k(key)[..32].try_into().unwrap());
                let got = pl.call(w, &[&p, &key], None, 0, |i, _| f::x_dh(i[0], i[1]))?;
                let want = refs::x::x25519(&key, &p);
                ensure!(got == want, "{w}: {}", diff(&got, &want));
            }
            Op::EdPk(key) => {
                let key: [u8; 32] = k(key)[..32].try_into().unwrap();
                let got = pl.call(w, &[&key], None, 0, |i, _| f::ed_gen_pk(i[0]))?;
                let want = refs::ed::public_key(&key);
                ensure!(got == want, "{w}: {}", diff(&got, &want));
            }
            Op::Sign(m, key) => {
                let key: [u8; 32] = k(key)[..32].try_into().unwrap();
                let got = pl.call(w, &[t(m), &key], None, 0, |i, _| f::ed_sign(i[0], i[1]))?;
                let want = refs::ed::sign(t(m), &key);
                ensure!(got == want, "{w}: {}", diff(&got, &want));
            }
            Op::Verify(m, key, bad) => {
                let key: [u8; 32] = k(key)[..32].try_into().unwrap();
                let mut sig = refs::ed::sign(t(m), &key);
                let pk = refs::ed::public_key(&key);
                if *bad != 0 {
                    sig[*bad as usize % 64] ^= 1 << (bad / 64);
                }
                let got = pl.call(w, &[t(m), &sig, &pk], None, 0, |i, _| f::ed_verify(i[0], i[1], i[2]))?;
                ensure!(got == (*bad == 0), "{w}: verification is {got}");
            }
            Op::Drop(n) => match n % 4 {
                0 if !hashers.is_empty() => drop(hashers.remove(0)),
                1 if !streams.is_empty() => drop(streams.remove(0)),
                2 if !aeads.is_empty() => drop(aeads.remove(0)),
                3 if !macs.is_empty() => drop(macs.remove(0)),
                _ => continue,
            },
        }
        done += 1;
        alive = alive.max(hashers.len() + macs.len() + streams.len() + aeads.len() + aess.len());
    }
    // whatever is left gives the right result in the end
    for (x, h, m) in hashers {
        pl.call("final digest", &[], Some(&refs::sha2::sha(rh(h), &m)), dig(h), |_, o| x.write_digest(o))?;
        done += 1;
    }
    for (x, h, key, m) in macs {
        let got = lib("final tag", || x.tag())?.0;
        let want = refs::kdf::hmac(rh(h), &key, &m);
        ensure!(got == want, "final tag: {}", diff(&got, &want));
        done += 1;
    }
    for (mut x, key, n, pos) in streams {
        let want = refs::chacha::ChaCha::new(&key, &n).keystream(0, pos, 70);
        let got = lib("final bytes of a stream", || f::stream_take(&mut x, 70))?;
        ensure!(got == want, "final bytes of a stream: {}", diff(&got, &want));
        done += 1;
    }
    for (x, a, key) in &aeads {
        enc_dec(x, *a, key, t(&17), &k(&3)[..12], t(&5), 0, &mut pl)?;
        done += 1;
    }
    i.extra += done as u64;
    i.hit_if(alive >= 2 && done >= 6, "several objects");
    i.hit_if(alive >= 8, "eight or more objects");
    Ok(())
}
