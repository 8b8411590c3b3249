//! C24: what a call takes. Metamorphic: the same operation with one of its lengths multiplied, with
//! other contents, and on an object with a past.
use super::aead::{aes_key_len, key_len};
use super::*;
use crate::engine::*;
use crate::ensure;
use crate::src::*;
use crate::work::{self, Taken};
use f::{AesSize, A, H};

pub struct C24;

/// Operations; what their lengths are is in `dims`.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    Sha(H),
    Pieces(H),
    Hmac(H),
    Mac(H),
    HmacVerify(H),
    Extract(H),
    Expand(H),
    Aes(AesSize),
    Seal(A),
    /// with the right tag or a wrong one
    Open(A, bool),
    /// encrypt and decrypt in turns
    Stream,
    Next,
    Nth,
    Dh,
    XPk,
    EdPk,
    Sign,
    /// a right signature or another string
    Verify(bool),
}

/// How long a dimension of an operation may get.
#[derive(Clone, Copy, PartialEq)]
enum Dim {
    Bytes,
    /// calls on one object, or with the same arguments
    Calls,
    /// not multiplied
    Fixed(usize),
    /// bytes, up to this many
    Most(usize),
}
use Dim::*;

fn dims(op: Op) -> Vec<Dim> {
    match op {
        Op::Sha(_) | Op::Sign | Op::Verify(_) => vec![Bytes],
        // size and number of the pieces
        Op::Pieces(_) | Op::Stream => vec![Bytes, Calls],
        // key, message
        Op::Hmac(_) => vec![Bytes, Bytes],
        Op::Mac(_) => vec![Bytes, Bytes, Calls],
        // key, message, tag
        Op::HmacVerify(_) => vec![Bytes, Bytes, Bytes],
        // salt, input
        Op::Extract(_) => vec![Bytes, Bytes],
        // pseudorandom key, info, output
        Op::Expand(h) => vec![Bytes, Bytes, Most(255 * dig(h))],
        Op::Aes(_) | Op::Next | Op::Dh | Op::XPk | Op::EdPk => vec![Calls],
        // message, associated data, calls
        Op::Seal(_) => vec![Bytes, Bytes, Calls],
        // also the tag
        Op::Open(..) => vec![Bytes, Bytes, Calls, Fixed(16)],
        // distance, calls
        Op::Nth => vec![Bytes, Calls],
    }
}

/// Work grows with the product of two lengths only in these.
fn product(op: Op, lens: &[usize]) -> usize {
    let one = |n: usize| n.max(1);
    match op {
        Op::Expand(h) => (lens[0] + lens[1] + 200) * one(lens[2].div_ceil(dig(h))),
        Op::Pieces(_) | Op::Stream | Op::Nth => (lens[0] + 16) * one(lens[1]),
        Op::Mac(_) => lens[0] + (lens[1] + 16) * one(lens[2]),
        Op::Seal(_) | Op::Open(..) => (lens[0] + lens[1] + 100) * one(lens[2]) * 8,
        Op::Dh | Op::XPk | Op::EdPk => 60_000 * lens[0],
        Op::Aes(_) => 160 * lens[0],
        Op::Sign | Op::Verify(_) => 120_000 + lens[0],
        _ => lens.iter().sum(),
    }
}

#[derive(Clone, Debug)]
pub struct Case {
    pub op: Op,
    pub lens: Vec<usize>,
    /// the dimension that is multiplied, and by how much
    pub dim: usize,
    pub by: usize,
    /// bytes that the object has processed before
    pub past: usize,
    /// key and the like, message and the like
    pub key: Blob,
    pub text: Blob,
}

/// Arguments in buffers, then the measured calls.
fn take(op: Op, lens: &[usize], past: usize, key: &Blob, text: &Blob) -> Result<Taken, Fail> {
    let k = |n: usize| key.with_len(n).bytes();
    let t = |n: usize| text.with_len(n).bytes();
    let mut out = [0; 64];
    let out = &mut out[..];
    let before = t(past.min(1 << 16));
    // history in calls of 2^16 bytes
    let rounds = if past == 0 { 0 } else { past.div_ceil(before.len()) };
    let go = |mut f: Box<dyn FnMut() + '_>| {
        let r = lib("a valid call", || work::measure(&mut *f));
        work::stop();
        r
    };
    match op {
        Op::Sha(h) => {
            let m = t(lens[0]);
            go(Box::new(|| f::sha_to(h, &m, &mut out[..dig(h)])))
        }
        Op::Pieces(h) => {
            let m = t(lens[0]);
            let mut x = f::Hasher::new(h);
            (0..rounds).for_each(|_| x.update(&before));
            let mut x = Some(x);
            go(Box::new(|| {
                let mut x = x.take().expect("once");
                for _ in 0..lens[1] {
                    x.update(&m);
                }
                x.write_digest(&mut out[..dig(h)])
            }))
        }
        Op::Hmac(h) => {
            let (a, m) = (k(lens[0]), t(lens[1]));
            go(Box::new(|| f::hmac_to(h, &a, &m, &mut out[..dig(h)])))
        }
        Op::Mac(h) => {
            let (a, m) = (k(lens[0]), t(lens[1]));
            if past == 0 {
                return go(Box::new(|| {
                    let mut x = f::Mac::new(h, &a);
                    for _ in 0..lens[2] {
                        x.update(&m);
                    }
                    x.tag_to(&mut out[..dig(h)])
                }));
            }
            let mut x = f::Mac::new(h, &a);
            (0..rounds).for_each(|_| x.update(&before));
            let mut x = Some(x);
            go(Box::new(|| {
                let mut x = x.take().expect("once");
                for _ in 0..lens[2] {
                    x.update(&m);
                }
                x.tag_to(&mut out[..dig(h)])
            }))
        }
        Op::HmacVerify(h) => {
            let (a, m, tag) = (k(lens[0]), t(lens[1]), t(lens[2]));
            go(Box::new(|| {
                std::hint::black_box(f::hmac_verify(h, &a, &m, &tag));
            }))
        }
        Op::Extract(h) => {
            let (a, m) = (k(lens[0]), t(lens[1]));
            go(Box::new(|| f::extract(h, &a, &m, &mut out[..dig(h)])))
        }
        Op::Expand(h) => {
            let (a, m) = (k(lens[0].max(dig(h))), t(lens[1]));
            let mut okm = vec![0; lens[2]];
            go(Box::new(|| f::expand(h, &a, &m, &mut okm)))
        }
        Op::Aes(z) => {
            let a = k(aes_key_len(z));
            let b: [u8; 16] = t(16).try_into().expect("sixteen");
            let x = f::Aes::new(z, &a);
            (0..past / 16).for_each(|_| {
                std::hint::black_box(x.permute(&b));
            });
            go(Box::new(|| {
                for _ in 0..lens[0] {
                    std::hint::black_box(x.permute(&b));
                }
            }))
        }
        Op::Seal(a) | Op::Open(a, _) => {
            let (key, nonce, m, aad) = (k(key_len(a)), t(12), t(lens[0]), t(lens[1]));
            let mut c = vec![0; m.len()];
            let x = f::Aead::new(a, &key);
            let mut tag = x.encrypt(&m, &nonce, &aad, &mut c);
            let mut sink = before.clone();
            (0..rounds).for_each(|_| {
                x.encrypt(&before, &nonce, &aad, &mut sink);
            });
            let mut p = vec![0; m.len()];
            let Op::Open(_, right) = op else {
                return go(Box::new(|| {
                    for _ in 0..lens[2] {
                        x.encrypt(&m, &nonce, &aad, &mut p);
                    }
                }));
            };
            tag[m.len() % 16] ^= if right { 0 } else { 1 };
            go(Box::new(|| {
                for _ in 0..lens[2] {
                    x.decrypt(&c, &nonce, &aad, &tag, &mut p);
                }
            }))
        }
        Op::Stream | Op::Next | Op::Nth => {
            let (key, nonce) = (k(32), t(12));
            let mut x = f::stream_new(&key, &nonce);
            if past > 0 {
                f::stream_nth(&mut x, past - 1);
            }
            match op {
                Op::Stream => {
                    let m = t(lens[0]);
                    let mut c = m.clone();
                    go(Box::new(|| {
                        for i in 0..lens[1] {
                            if i % 2 == 0 {
                                f::stream_encrypt(&mut x, &m, &mut c)
                            } else {
                                f::stream_decrypt(&mut x, &m, &mut c)
                            }
                        }
                    }))
                }
                Op::Next => go(Box::new(|| {
                    for _ in 0..lens[0] {
                        std::hint::black_box(f::stream_next(&mut x));
                    }
                })),
                _ => go(Box::new(|| {
                    for _ in 0..lens[1] {
                        std::hint::black_box(f::stream_nth(&mut x, lens[0]));
                    }
                })),
            }
        }
        Op::Dh | Op::XPk | Op::EdPk => {
            let (sk, u) = (k(32), t(32));
            go(Box::new(|| {
                for _ in 0..lens[0] {
                    std::hint::black_box(match op {
                        Op::Dh => f::x_dh(&u, &sk),
                        Op::XPk => f::x_gen_pk(&sk),
                        _ => f::ed_gen_pk(&sk),
                    });
                }
            }))
        }
        Op::Sign => {
            let (sk, m) = (k(32), t(lens[0]));
            go(Box::new(|| {
                std::hint::black_box(f::ed_sign(&m, &sk));
            }))
        }
        Op::Verify(right) => {
            let (sk, m) = (k(32), t(lens[0]));
            let (pk, mut sig) = (f::ed_gen_pk(&sk), f::ed_sign(&m, &sk));
            if !right {
                // another valid S, or anything
                let s = t(64);
                sig[32..].copy_from_slice(&s[..32]);
                sig[63] &= 0x0f;
            }
            go(Box::new(|| {
                std::hint::black_box(f::ed_verify(&m, &sig, &pk));
            }))
        }
    }
}

fn ops() -> Vec<Op> {
    let mut v = vec![Op::Stream, Op::Next, Op::Nth, Op::Dh, Op::XPk, Op::EdPk, Op::Sign, Op::Verify(true), Op::Verify(false)];
    for h in HS {
        v.extend([Op::Sha(h), Op::Pieces(h), Op::Hmac(h), Op::Mac(h), Op::HmacVerify(h), Op::Extract(h), Op::Expand(h)]);
    }
    v.extend([AesSize::Aes128, AesSize::Aes192, AesSize::Aes256].map(Op::Aes));
    for a in AS {
        v.extend([Op::Seal(a), Op::Open(a, true), Op::Open(a, false)]);
    }
    v
}

fn objects(op: Op) -> bool {
    matches!(op, Op::Pieces(_) | Op::Mac(_) | Op::Aes(_) | Op::Seal(_) | Op::Open(..) | Op::Stream | Op::Next | Op::Nth)
}

/// Roughly how many bytes of SHA-2 a case may be worth.
fn budget() -> usize {
    if work::counting() {
        1 << 18
    } else {
        1 << 22
    }
}

fn case(s: &mut Src, op: Op, dim: usize, budget: usize) -> Case {
    let d = dims(op);
    let mut lens: Vec<usize> = d
        .iter()
        .map(|d| match d {
            Bytes => len(s, 64, 1 << 13),
            Calls => s.pick(&[1, 1, 1, 2, 3]),
            Most(n) => len(s, 64, *n),
            Fixed(n) => *n,
        })
        .collect();
    let mut by = s.pick(&[8, 16, 3, 2, 5, 64, 1000]);
    match d[dim] {
        Bytes => lens[dim] = s.range(256, 600),
        Most(n) => {
            lens[dim] = s.range(256, 600);
            by = by.min(n / lens[dim]);
        }
        _ => {
            // several blocks of work
            lens[dim] = match op {
                Op::Dh | Op::XPk | Op::EdPk => 1,
                Op::Aes(_) => 16,
                Op::Next => 1024,
                Op::Pieces(_) | Op::Stream | Op::Nth => 1024usize.div_ceil(lens[0].max(1)),
                Op::Mac(_) => 512usize.div_ceil(lens[1].max(1)),
                _ => 2,
            } + s.below(4);
        }
    }
    // what is multiplied fits the budget
    let big = |lens: &[usize], by: usize| {
        let mut l = lens.to_vec();
        l[dim] *= by;
        product(op, &l)
    };
    while by > 2 && big(&lens, by) > budget {
        by /= 2;
    }
    for i in 0..lens.len() {
        if i != dim && d[i] == Bytes {
            while lens[i] > 64 && big(&lens, by) > budget {
                lens[i] /= 2;
            }
        }
    }
    let past = if objects(op) && s.one_in(3) {
        let bits = s.range(6, budget.ilog2() as usize - 2);
        s.below(1 << bits) / if matches!(op, Op::Seal(_) | Op::Open(..) | Op::Aes(_)) { 8 } else { 1 }
    } else {
        0
    };
    Case { op, lens, dim, by, past, key: Blob::key(s, 32), text: Blob::gen(s, 64) }
}

/// work that rounding up to blocks may add
const SLACK: u64 = 16_384;
const STACK: usize = 4096;
/// sixteen times what the library takes
const MOST_STACK: usize = 1 << 16;

impl Prop for C24 {
    type Case = Case;
    const ID: &'static str = "C24";
    const RULE: &'static str = "an operation with one length (or number of calls) multiplied by 2 to 2^18, with structured and with random contents, and on an object with and without a past: no allocation; stack alike; work (edges of the library, bytes moved) at most in proportion; non-trivial: the multiplied length covers at least 256 bytes or 2 calls";
    const CASES: (u64, u64) = (12_000, 300_000);

    fn gen(s: &mut Src) -> Case {
        let all = ops();
        let op = all[s.below(all.len())];
        let d = dims(op);
        let mut dim = s.below(d.len());
        if matches!(d[dim], Fixed(_)) {
            dim = 0;
        }
        case(s, op, dim, budget())
    }

    fn fixed(t: Tier) -> Vec<Case> {
        let mut v = vec![];
        let long = if work::counting() { 1 << 23 } else { 1 << 28 } * if t == Tier::Thorough { 16 } else { 1 };
        for (i, op) in ops().into_iter().enumerate() {
            for (dim, d) in dims(op).into_iter().enumerate() {
                if matches!(d, Fixed(_)) {
                    continue;
                }
                let mut s = Src::random(i as u64 * 8 + dim as u64);
                // one long case of everything
                let mut c = case(&mut s, op, dim, 1);
                (c.key, c.text) = (Blob::Rng(s.u64(), 32), Blob::Rng(s.u64(), 64));
                for (j, (n, d)) in c.lens.iter_mut().zip(dims(op)).enumerate() {
                    if j != dim && d == Bytes {
                        *n = (*n).min(100);
                    }
                }
                c.past = 0;
                c.by = 2;
                let unit = product(op, &c.lens);
                // counting is slow, but less so for hashes
                let long = if work::counting() && matches!(op, Op::Sha(_) | Op::Hmac(_) | Op::Extract(_)) { 16 * long } else { long };
                c.by = (long / 8 / unit).max(2);
                if let Most(n) = d {
                    c.by = (n / c.lens[dim]).max(1);
                }
                v.push(c.clone());
                if objects(op) && dim == 0 {
                    c.by = 2;
                    c.past = long / if matches!(op, Op::Seal(_) | Op::Open(..) | Op::Aes(_)) { 128 } else { 8 };
                    v.push(c);
                }
            }
        }
        v
    }

    fn check(c: &Case, i: &mut Info) -> Res {
        let plain = (Blob::Rng(1, 32), Blob::Rng(2, 64));
        let right = match c.op {
            Op::Open(a, _) => Op::Open(a, true),
            Op::Verify(_) => Op::Verify(true),
            o => o,
        };
        let small = take(c.op, &c.lens, 0, &c.key, &c.text)?;
        let mut lens = c.lens.clone();
        lens[c.dim] *= c.by;
        let big = take(c.op, &lens, 0, &c.key, &c.text)?;
        let other = take(right, &c.lens, 0, &plain.0, &plain.1)?;
        i.extra += 2;
        // without reports of edges, `work` means little
        let work = |ok: bool| ok || !work::counting();
        let mut all = vec![("", small), ("multiplied, ", big), ("with random contents, ", other)];
        if c.past > 0 {
            // A fresh object of the kind that has a past does not count its making.
            let fresh = take(c.op, &c.lens, 1, &c.key, &c.text)?;
            let after = take(c.op, &c.lens, c.past, &c.key, &c.text)?;
            i.extra += 1;
            i.label("object with a past");
            all.push(("after a past, ", after));
            ensure!(work(after.work <= fresh.work * 3 / 2 + SLACK), "work {} after a past of {} bytes, {} without", after.work, c.past, fresh.work);
            ensure!(cfg!(feature = "cov") || after.stack <= small.stack.max(fresh.stack) * 3 / 2 + STACK, "{} bytes of stack after a past of {} bytes, {} without", after.stack, c.past, small.stack);
        }
        for (what, t) in &all {
            ensure!(t.allocs == 0, "{what}{} allocations", t.allocs);
            // only the stack of optimised code is what users pay
            ensure!(work::counting() || t.stack <= MOST_STACK, "{what}{} bytes of stack", t.stack);
        }
        ensure!(work(big.work <= (small.work as f64 * 1.3 * c.by as f64) as u64 + SLACK), "work {} for {lens:?}, {} for {:?}", big.work, small.work, c.lens);
        ensure!(work(small.work <= other.work * 2 + SLACK), "work {}, and {} with other contents", small.work, other.work);
        if !cfg!(feature = "cov") {
            ensure!(big.stack <= small.stack * 3 / 2 + STACK, "{} bytes of stack for {lens:?}, {} for {:?}", big.stack, small.stack, c.lens);
            ensure!(small.stack <= other.stack * 3 / 2 + STACK, "{} bytes of stack, and {} with other contents", small.stack, other.stack);
        }
        i.count("work counted", big.work);
        i.label(match dims(c.op)[c.dim] {
            Calls => "more calls",
            _ => "longer",
        });
        i.nontrivial = c.by > 1;
        Ok(())
    }
}
