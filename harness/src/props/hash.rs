//! C01 SHA-2, C02 splitting, C03 HMAC, C04 MAC verification, C05 HKDF.
use super::*;
use crate::engine::*;
use crate::ensure;
use crate::src::*;
use f::H;

pub fn cut_points(s: &mut Src, n: usize, block: usize) -> Vec<usize> {
    let k = match s.weighted(&[3, 3, 2, 1]) {
        0 => s.range(1, 3),
        1 => s.range(1, 8),
        2 => s.range(1, 40),
        _ => 0,
    };
    if k == 0 {
        // a regular cut
        let step = s.range(1, 2 * block + 1);
        return (0..n).step_by(step).collect();
    }
    let mut v: Vec<usize> = (0..k)
        .map(|_| match s.weighted(&[3, 2, 1]) {
            0 => s.below(n + 1),
            1 => (s.range(0, n / block + 1) * block + s.range(0, 2)).saturating_sub(1).min(n),
            _ => n - s.below(n.min(2 * block) + 1),
        })
        .collect();
    v.sort();
    v
}

/// Pieces of m at the given ascending cut points (repeated cuts give empty pieces).
pub fn pieces<'a>(m: &'a [u8], cuts: &[usize]) -> Vec<&'a [u8]> {
    let mut v = vec![];
    let mut a = 0;
    for &c in cuts {
        v.push(&m[a..c]);
        a = c;
    }
    v.push(&m[a..]);
    v
}

fn lib_sha(h: H, m: &[u8]) -> Result<Vec<u8>, Fail> {
    lib("sha", || f::sha(h, m))
}

fn lib_sha_pieces(h: H, p: &[&[u8]], dirt: u8) -> Result<Vec<u8>, Fail> {
    lib("hash object", || {
        let mut x = f::Hasher::new(h);
        for q in p {
            x.update(q);
        }
        let mut out = vec![dirt; dig(h)];
        x.write_digest(&mut out);
        out
    })
}

fn lib_mac_pieces(h: H, key: &[u8], p: &[&[u8]]) -> Result<Vec<u8>, Fail> {
    let (a, b) = lib("hmac object", || {
        let mut x = f::Mac::new(h, key);
        for q in p {
            x.update(q);
        }
        x.tag()
    })?;
    ensure!(a == b, "HMAC tag through Deref {} differs from tag through AsRef {}", hex(&a), hex(&b));
    Ok(a)
}

// ---------------------------------------------------------------- C01

pub struct C01;

#[derive(Clone, Debug)]
pub enum C01Case {
    One { h: H, m: Blob, object: bool },
    /// every length lo..hi with the same content
    Lengths { h: H, seed: u64, lo: usize, hi: usize },
    /// `lead` then total-lead zero bytes, in pieces of `piece` bytes (0: one call)
    Long { h: H, lead: Hex, total: u64, piece: usize },
}

/// Digest of `lead` followed by zeros up to `total` bytes, by the reference.
fn ref_long(h: H, lead: &[u8], total: u64) -> Vec<u8> {
    let b = blk(h) as u64;
    let mut st = refs::sha2::State::new(rh(h));
    let mut done = 0u64;
    let zeros = vec![0u8; 1 << 20];
    let head = lead.len() as u64 / b * b;
    st.absorb_blocks(&lead[..head as usize]);
    done += head;
    let mut tail = lead[head as usize..].to_vec();
    if !tail.is_empty() && total - done >= b {
        tail.resize(b as usize, 0);
        st.absorb_blocks(&tail);
        done += b;
        tail.clear();
    }
    while total - done >= b {
        let n = (total - done).min(zeros.len() as u64) / b * b;
        st.absorb_blocks(&zeros[..n as usize]);
        done += n;
    }
    tail.resize((total - done) as usize, 0);
    st.finish(&tail)
}

/// Digest of 2^32 + 3 zero bytes (coreutils and the reference agree on them).
fn known(h: H) -> Vec<u8> {
    unhex(match h {
        H::S224 => "4e8c72b516a7a6498c6fbb3eeb18101839d56ebc5a2b77d063e42b28",
        H::S256 => "930fa067940ff8d9f427e3a116b7598503c70ce7380d66ff65f8de33d558f7f3",
        H::S384 => "ee713708093311492189aed384fa0b515a59f2cef6d7df0af546c3be76c1d2ee1de7434b62c0f7bd7c72e228a5846b3a",
        H::S512 => "c70898d877cc90bf09f45a1fef9ed3edffbbb7135e83fdd02f346730d09b940d7aa0c4f0cb89c8a72201aa97622a3cf975d67d6dbd4ba52e80a671fb18bf189d",
    })
    .unwrap()
}

impl Prop for C01 {
    type Case = C01Case;
    const ID: &'static str = "C01";
    const RULE: &'static str = "case: SHA variant, message (length classes around block and padding boundaries, content classes random/constant/extreme words/sparse), one-shot or object interface; sweeps enumerate every length, long cases exceed 2^16..2^32 bits. Oracle: independent FIPS 180-4 reference. Non-trivial: at least one byte of message; distinct by full case.";
    const CASES: (u64, u64) = (400_000, 6_000_000);

    fn gen(s: &mut Src) -> C01Case {
        let h = s.pick(&HS);
        let n = match s.weighted(&[30, 10, 1]) {
            0 => len(s, blk(h), 1 << 17),
            1 => {
                // around the padding boundaries
                let k = s.below(6);
                (k * blk(h) + blk(h) - s.range(0, 20)) + s.below(2)
            }
            _ => s.below(1 << 20),
        };
        C01Case::One { h, m: Blob::gen(s, n), object: s.bool() }
    }

    fn fixed(t: Tier) -> Vec<C01Case> {
        let mut v = vec![];
        // over 2^32 bytes; the build without checks is enough
        if t == Tier::Thorough || !cfg!(debug_assertions) {
            for (h, piece) in HS.into_iter().zip([1 << 22, 0, 0, (1 << 31) + 5]) {
                v.push(C01Case::Long { h, lead: Hex(vec![]), total: (1 << 32) + 3, piece });
            }
        }
        for h in HS {
            // Long first: they dominate the wall clock
            let mut totals = vec![(1u64 << 29) + 1, (1 << 29) - 1, (1 << 29) + (1 << 20) - 9];
            if t == Tier::Thorough {
                totals.extend([1 << 29, (1 << 30) + 77, (1 << 31) + 5, (1 << 32) - 1, 1 << 32, (1 << 32) + 3, (1 << 33) + 1, (1 << 35) + 13]);
            }
            for (i, total) in totals.into_iter().enumerate() {
                v.push(C01Case::Long { h, lead: Hex(Blob::Rng(i as u64, 100).bytes()), total, piece: [1 << 20, 0, 1_000_003][i % 3] });
            }
        }
        for h in HS {
            for seed in 0..4 {
                for k in 0..12 {
                    v.push(C01Case::Lengths { h, seed, lo: k * 100, hi: (k + 1) * 100 });
                }
            }
            for n in pows(12, 22).chain([(1 << 21) - 9, (1 << 24) + 5]) {
                v.push(C01Case::One { h, m: Blob::Rng(n as u64, n), object: n % 3 == 0 });
            }
        }
        v
    }

    fn check(c: &C01Case, i: &mut Info) -> Res {
        match c {
            C01Case::One { h, m, object } => {
                let m = m.bytes();
                i.hit_if(!m.is_empty(), "nonempty");
                let r = m.len() % blk(*h);
                let pad = if blk(*h) == 64 { 55 } else { 111 };
                i.hit_if(r == pad || r == pad + 1, "padding boundary");
                i.hit_if(r == 0 && !m.is_empty(), "whole blocks");
                i.hit_if(m.len() > 2048, "long");
                let got = if *object { lib_sha_pieces(*h, &[&m], 0xa5)? } else { lib_sha(*h, &m)? };
                let want = refs::sha2::sha(rh(*h), &m);
                ensure!(got == want, "{h:?} digest of {} bytes is {}, FIPS 180-4 gives {}", m.len(), hex(&got), hex(&want));
            }
            C01Case::Lengths { h, seed, lo, hi } => {
                i.hit("length sweep");
                let m = Blob::Rng(*seed, *hi).bytes();
                for n in *lo..*hi {
                    i.extra += 1;
                    let want = refs::sha2::sha(rh(*h), &m[..n]);
                    let got = lib_sha(*h, &m[..n])?;
                    ensure!(got == want, "{h:?} digest of {} is {}, FIPS 180-4 gives {}", hex(&m[..n]), hex(&got), hex(&want));
                    let got = lib_sha_pieces(*h, &[&m[..n]], 0)?;
                    ensure!(got == want, "{h:?} object digest of {} is {}, FIPS 180-4 gives {}", hex(&m[..n]), hex(&got), hex(&want));
                }
            }
            C01Case::Long { h, lead, total, piece } => {
                i.hit("bit length over 2^31");
                let want = if lead.is_empty() && *total == (1 << 32) + 3 { known(*h) } else { ref_long(*h, lead, *total) };
                let got = if *piece == 0 {
                    let mut m = vec![0; *total as usize];
                    m[..lead.len()].copy_from_slice(lead);
                    lib_sha(*h, &m)?
                } else {
                    let zeros = vec![0; *piece];
                    lib("hash object", || {
                        let mut x = f::Hasher::new(*h);
                        x.update(lead);
                        let mut left = *total - lead.len() as u64;
                        while left > 0 {
                            let n = left.min(*piece as u64);
                            x.update(&zeros[..n as usize]);
                            left -= n;
                        }
                        let mut out = vec![0; dig(*h)];
                        x.write_digest(&mut out);
                        out
                    })?
                };
                ensure!(got == want, "{h:?} digest of {total} bytes is {}, FIPS 180-4 gives {}", hex(&got), hex(&want));
            }
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- C02

pub struct C02;

#[derive(Clone, Debug)]
pub enum C02Case {
    Cut { h: H, key: Option<Blob>, m: Blob, cuts: Vec<usize> },
    /// every single cut of every message length lo..hi
    AllCuts { h: H, mac: bool, lo: usize, hi: usize },
    /// zeros: one update of `total` bytes against pieces, the first of `lead` bytes
    Long { h: H, total: usize, lead: usize, piece: usize },
    /// every cut into three parts of one length
    Thirds { h: H, n: usize, mac: bool },
}

fn c02_one(h: H, key: Option<&[u8]>, m: &[u8], cuts: &[usize]) -> Res {
    let p = pieces(m, cuts);
    let (whole, split) = match key {
        None => (lib_sha(h, m)?, lib_sha_pieces(h, &p, 0)?),
        Some(k) => (lib("hmac", || f::hmac(h, k, m))?, lib_mac_pieces(h, k, &p)?),
    };
    ensure!(
        whole == split,
        "{h:?}{}: {} bytes in pieces {:?} give {}, in one call {}",
        if key.is_some() { " HMAC" } else { "" },
        m.len(),
        p.iter().map(|x| x.len()).collect::<Vec<_>>(),
        hex(&split),
        hex(&whole)
    );
    Ok(())
}

impl Prop for C02 {
    type Case = C02Case;
    const ID: &'static str = "C02";
    const RULE: &'static str = "case: SHA variant, optional HMAC key, message, list of cut points (random, at block boundaries +-1, regular, repeated cuts giving empty pieces); enumerations: every single cut of every length up to 3 blocks, every pair of cuts of some lengths. Oracle: metamorphic, one call over the whole message. Non-trivial: at least two pieces; distinct by full case.";
    const CASES: (u64, u64) = (300_000, 6_000_000);

    fn gen(s: &mut Src) -> C02Case {
        let h = s.pick(&HS);
        let n = len(s, blk(h), 1 << 16);
        let key = s.bool().then(|| {
            let k = len(s, blk(h), 400);
            Blob::key(s, k)
        });
        let m = Blob::gen(s, n);
        C02Case::Cut { h, key, m, cuts: cut_points(s, n, blk(h)) }
    }

    fn fixed(t: Tier) -> Vec<C02Case> {
        let mut v = vec![];
        // over 2^32 bytes in one call; the build without checks is enough
        if t == Tier::Thorough || !cfg!(debug_assertions) {
            let g4 = 1usize << 32;
            v.push(C02Case::Long { h: H::S256, total: g4 + 200, lead: 0, piece: 1 << 31 });
            v.push(C02Case::Long { h: H::S512, total: g4 + 200, lead: 0, piece: (1 << 31) - 7 });
            // one piece of as many bytes, behind a started block
            for (h, rest) in HS.into_iter().zip([g4 + 9, g4, g4 + 21, g4 + 1]) {
                v.push(C02Case::Long { h, total: rest + 3, lead: 3, piece: rest });
            }
        }
        for h in HS {
            v.push(C02Case::Long { h, total: (1 << 29) + 3, lead: 0, piece: (1 << 28) - 5 });
            v.push(C02Case::Long { h, total: (1 << 29) + 12, lead: 5, piece: (1 << 29) + 7 });
        }
        for h in HS {
            let top = 3 * blk(h) + 5;
            for mac in [false, true] {
                let mut a = 0;
                while a < top {
                    v.push(C02Case::AllCuts { h, mac, lo: a, hi: (a + 16).min(top) });
                    a += 16;
                }
            }
            // tens of thousands of small pieces
            for (n, step) in [(66_000, 1), (140_000, 2), (400_000, 3)] {
                for key in [None, Some(Blob::Fill(7, 20))] {
                    v.push(C02Case::Cut { h, key, m: Blob::Rng(n as u64, n), cuts: (0..n).step_by(step).collect() });
                }
            }
            // long pieces, alone and behind one byte
            for n in pows(9, 21) {
                v.push(C02Case::Cut { h, key: None, m: Blob::Rng(n as u64, n + 1), cuts: vec![1] });
                v.push(C02Case::Cut { h, key: (n % 2 == 0).then_some(Blob::Fill(7, 20)), m: Blob::Rng(n as u64, n + 70), cuts: vec![n, n + 1] });
            }
            let b = blk(h);
            for n in if t == Tier::Quick { vec![b + 9, 2 * b + 1] } else { (1..3 * b).collect() } {
                v.push(C02Case::Thirds { h, n, mac: false });
                v.push(C02Case::Thirds { h, n: n / 2, mac: true });
            }
        }
        v
    }

    fn check(c: &C02Case, i: &mut Info) -> Res {
        match c {
            C02Case::Cut { h, key, m, cuts } => {
                let m = m.bytes();
                i.hit_if(!cuts.is_empty() && !m.is_empty(), "several pieces");
                let p = pieces(&m, cuts);
                i.hit_if(p.iter().any(|x| x.is_empty()) && p.len() > 1, "empty piece");
                i.hit_if(p.iter().any(|x| x.len() > 2 * blk(*h)) && p.len() > 1, "piece over two blocks");
                i.hit_if(key.is_some(), "hmac");
                i.label(if cuts.len() > 10 { "over 10 pieces" } else { "few pieces" });
                let k = key.as_ref().map(|k| k.bytes());
                c02_one(*h, k.as_deref(), &m, cuts)?;
            }
            C02Case::AllCuts { h, mac, lo, hi } => {
                i.hit("all single cuts");
                let m = Blob::Rng(*hi as u64, *hi).bytes();
                let k = mac.then_some(&b"some key"[..]);
                for n in *lo..*hi {
                    for cut in 0..=n {
                        i.extra += 1;
                        c02_one(*h, k, &m[..n], &[cut])?;
                    }
                }
            }
            C02Case::Thirds { h, n, mac } => {
                i.hit("all pairs of cuts");
                let m = Blob::Rng(*n as u64, *n).bytes();
                let k = mac.then_some(&b"some key"[..]);
                for a in 0..=*n {
                    for b in a..=*n {
                        i.extra += 1;
                        c02_one(*h, k, &m, &[a, b])?;
                    }
                }
            }
            C02Case::Long { h, total, lead, piece } => {
                i.hit("over 2^32 bits");
                let m = vec![0; *total];
                let cuts: Vec<usize> = (*lead..*total).step_by(*piece).collect();
                c02_one(*h, None, &m, &cuts)?;
            }
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- C03

pub struct C03;

#[derive(Clone, Debug)]
pub enum C03Case {
    One { h: H, key: Blob, m: Blob, cuts: Option<Vec<usize>> },
    KeyLengths { h: H, lo: usize, hi: usize, fill: Option<u8> },
    /// key and message lengths over block multiples
    Long { h: H, key: usize, m: usize },
}

fn c03_one(h: H, key: &[u8], m: &[u8], cuts: Option<&[usize]>) -> Res {
    let want = refs::kdf::hmac(rh(h), key, m);
    let got = match cuts {
        None => lib("hmac", || f::hmac(h, key, m))?,
        Some(c) => lib_mac_pieces(h, key, &pieces(m, c))?,
    };
    ensure!(got == want, "{h:?} HMAC with a {}-byte key of {} bytes is {}, RFC 2104 gives {}", key.len(), m.len(), hex(&got), hex(&want));
    Ok(())
}

impl Prop for C03 {
    type Case = C03Case;
    const ID: &'static str = "C03";
    const RULE: &'static str = "case: SHA variant, key (every length class around digest and block size; random and structured content), message, one-shot function / object fed in pieces (tag read through Deref and AsRef); sweeps enumerate every key length up to 2 blocks + 40. Oracle: independent RFC 2104 reference. Non-trivial: non-empty key and message; distinct by full case.";
    const CASES: (u64, u64) = (300_000, 5_000_000);

    fn gen(s: &mut Src) -> C03Case {
        let h = s.pick(&HS);
        let kl = match s.weighted(&[4, 4, 1]) {
            0 => s.range(0, blk(h)),
            1 => s.pick(&[0, 1, dig(h) - 1, dig(h), dig(h) + 1, blk(h) - 1, blk(h), blk(h) + 1, 2 * blk(h), 2 * blk(h) + 1]),
            _ => len(s, blk(h), 5000),
        };
        let key = Blob::gen(s, kl);
        let n = len(s, blk(h), 1 << 14);
        let m = Blob::gen(s, n);
        C03Case::One { h, key, m, cuts: s.bool().then(|| cut_points(s, n, blk(h))) }
    }

    fn fixed(_t: Tier) -> Vec<C03Case> {
        let mut v = vec![];
        for h in HS {
            v.push(C03Case::Long { h, key: 20, m: (1 << 29) + 5 });
        }
        for h in HS {
            for (key, m) in [(70_000, 3), (1 << 20, 100), (20, 1 << 20), (blk(h), 70_000)] {
                v.push(C03Case::Long { h, key, m });
            }
            for n in pows(8, 18) {
                v.push(C03Case::Long { h, key: n, m: 9 });
                v.push(C03Case::Long { h, key: 9, m: n });
                v.push(C03Case::One { h, key: Blob::Rng(n as u64, n), m: Blob::Rng(1, n), cuts: Some(vec![n / 3]) });
            }
            let top = 2 * blk(h) + 40;
            for fill in [None, Some(0), Some(0x36), Some(0x5c), Some(0xff)] {
                for lo in (0..top).step_by(16) {
                    v.push(C03Case::KeyLengths { h, lo, hi: lo + 16, fill });
                }
            }
        }
        v
    }

    fn check(c: &C03Case, i: &mut Info) -> Res {
        match c {
            C03Case::One { h, key, m, cuts } => {
                let (k, m) = (key.bytes(), m.bytes());
                i.hit_if(!k.is_empty() && !m.is_empty(), "key and message");
                i.hit_if(k.len() > blk(*h), "key over a block");
                i.hit_if(k.len() == blk(*h), "key of a block");
                i.hit_if(k.is_empty(), "empty key");
                c03_one(*h, &k, &m, cuts.as_deref())
            }
            C03Case::KeyLengths { h, lo, hi, fill } => {
                i.hit("key length sweep");
                for n in *lo..*hi {
                    let k = fill.map_or(Blob::Rng(n as u64, n), |b| Blob::Fill(b, n)).bytes();
                    for m in [0, 1, 5, blk(*h) - 9, blk(*h), 3 * blk(*h) + 7] {
                        i.extra += 1;
                        let m = Blob::Rng(m as u64, m).bytes();
                        c03_one(*h, &k, &m, None)?;
                        c03_one(*h, &k, &m, Some(&[m.len() / 2]))?;
                    }
                }
                Ok(())
            }
            C03Case::Long { h, key, m } => {
                i.hit("long");
                let k = Blob::Rng(*key as u64, *key).bytes();
                let mm = vec![0; *m];
                c03_one(*h, &k, &mm, None)
            }
        }
    }
}

// ---------------------------------------------------------------- C04

pub struct C04;

/// A change applied to the correct tag.
#[derive(Clone, Debug)]
pub enum Mutn {
    Same,
    Xor(Vec<(usize, u8)>),
    Add(Vec<(usize, u8)>),
    Truncate(usize),
    Extend(Hex),
    Swap(usize, usize),
    Rotate(usize),
    Reverse,
    Not,
    Replace(Hex),
    KeepPrefix(usize, Hex),
    DropFront(usize),
}

impl Mutn {
    pub fn apply(&self, t: &[u8]) -> Vec<u8> {
        let mut v = t.to_vec();
        let n = v.len().max(1);
        if v.is_empty() && !matches!(self, Mutn::Extend(_) | Mutn::Replace(_)) {
            return v;
        }
        match self {
            Mutn::Same => {}
            Mutn::Xor(l) => l.iter().for_each(|(i, b)| v[i % n] ^= b),
            Mutn::Add(l) => l.iter().for_each(|(i, b)| v[i % n] = v[i % n].wrapping_add(*b)),
            Mutn::Truncate(k) => v.truncate(*k),
            Mutn::Extend(h) => v.extend_from_slice(h),
            Mutn::Swap(a, b) => v.swap(a % n, b % n),
            Mutn::Rotate(k) => v.rotate_left(k % n),
            Mutn::Reverse => v.reverse(),
            Mutn::Not => v.iter_mut().for_each(|x| *x = !*x),
            Mutn::Replace(h) => v = h.0.clone(),
            Mutn::KeepPrefix(k, h) => {
                for (i, b) in h.iter().enumerate() {
                    if i >= *k && i < v.len() {
                        v[i] = *b;
                    }
                }
            }
            Mutn::DropFront(k) => {
                v.drain(..(*k).min(t.len()));
            }
        }
        v
    }
    pub fn gen(s: &mut Src, n: usize) -> Mutn {
        match s.weighted(&[2, 4, 4, 3, 2, 2, 1, 1, 1, 1, 1, 2, 2, 1]) {
            0 => Mutn::Same,
            1 => Mutn::Xor(vec![(s.below(n), 1 << s.below(8))]),
            2 => {
                // the same difference at several places (cancels under xor when even)
                let d = if s.bool() { 1 << s.below(8) } else { s.byte() };
                let k = s.range(2, 4);
                Mutn::Xor((0..k).map(|_| (s.below(n), d)).collect())
            }
            3 => {
                // differences that cancel under addition
                let d = s.byte();
                Mutn::Add(vec![(s.below(n), d), (s.below(n), d.wrapping_neg())])
            }
            4 => Mutn::Truncate(s.below(n)),
            5 => {
                let k = s.pick(&[1, 2, 4, 8, 16, 32, n, 3]);
                let h = if s.bool() { vec![0; k] } else { s.bytes(k) };
                Mutn::Extend(Hex(h))
            }
            6 => Mutn::Swap(s.below(n), s.below(n)),
            7 => Mutn::Rotate(s.below(n)),
            8 => Mutn::Reverse,
            9 => Mutn::Not,
            10 => Mutn::Replace(Hex(if s.bool() { vec![0; n] } else { s.bytes(n) })),
            11 => {
                let k = s.below(n);
                Mutn::KeepPrefix(k, Hex(s.bytes(n)))
            }
            12 => {
                let k = s.range(1, n);
                Mutn::Xor((0..k).map(|_| (s.below(n), s.byte())).collect())
            }
            _ => Mutn::DropFront(s.range(1, n)),
        }
    }
}

#[derive(Clone, Debug)]
pub enum C04Case {
    Mac { h: H, key: Blob, m: Blob, mutn: Mutn },
    /// the right tag of something else
    Other { h: H, key: Blob, m: Blob, what: u8 },
    V16 { x: Hex, mutn: Mutn },
    V16Any { x: Hex, y: Hex },
    /// every bit, every pair of bytes with one difference, every length
    MacAll { h: H, seed: u64 },
    V16All { seed: u64 },
}

fn c04_mac(h: H, k: &[u8], m: &[u8], tag: &[u8], want: &[u8]) -> Res {
    let got = lib("hmac::verify", || f::hmac_verify(h, k, m, tag))?;
    ensure!(
        got == (tag == want),
        "hmac::verify::<{h:?}> returns {got} for the {}-byte tag {} whose correct value is {}",
        tag.len(),
        hex(tag),
        hex(want)
    );
    Ok(())
}

fn c04_16(x: &[u8], y: &[u8]) -> Res {
    let xa: [u8; 16] = x.try_into().unwrap();
    let got = lib("verify_16", || f::verify_16(&xa, y))?;
    ensure!(got == (x == y), "verify_16({}, {}) returns {got}", hex(x), hex(y));
    Ok(())
}

impl Prop for C04 {
    type Case = C04Case;
    const ID: &'static str = "C04";
    const RULE: &'static str = "case: correct tag (or 16-byte string) and a change of it: single bits, differences cancelling under xor or addition, permuted bytes, truncation, extension, correct prefixes, tags of another message/key/hash; enumerations: every bit, every byte pair, every length 0..200. Oracle: byte equality with the reference tag. Non-trivial: tag differs from the correct one, or verification of the correct one; distinct by full case.";
    const CASES: (u64, u64) = (600_000, 8_000_000);

    fn gen(s: &mut Src) -> C04Case {
        match s.weighted(&[4, 1, 3, 1]) {
            0 => {
                let h = s.pick(&HS);
                let kl = len(s, blk(h), 300);
                let ml = len(s, blk(h), 700);
                C04Case::Mac { h, key: Blob::key(s, kl), m: Blob::gen(s, ml), mutn: Mutn::gen(s, dig(h)) }
            }
            1 => {
                let h = s.pick(&HS);
                let kl = len(s, blk(h), 300);
                let ml = len(s, blk(h), 700);
                C04Case::Other { h, key: Blob::key(s, kl), m: Blob::gen(s, ml), what: s.byte() % 8 }
            }
            2 => C04Case::V16 { x: Hex(Blob::key(s, 16).bytes()), mutn: Mutn::gen(s, 16) },
            _ => {
                let x = Blob::key(s, 16).bytes();
                let n = s.pick(&[16, 16, 16, 0, 1, 15, 17, 32, 8]);
                let y = if s.bool() { Blob::key(s, n).bytes() } else { x.iter().cycle().take(n).copied().collect() };
                C04Case::V16Any { x: Hex(x), y: Hex(y) }
            }
        }
    }

    fn fixed(_t: Tier) -> Vec<C04Case> {
        let mut v = vec![];
        for seed in 0..8 {
            v.extend(HS.map(|h| C04Case::MacAll { h, seed }));
            v.push(C04Case::V16All { seed });
        }
        // long keys and messages, and tags extended to lengths whose low bits are those of the right one
        for h in HS {
            for n in pows(8, 17) {
                for mutn in [Mutn::Same, Mutn::Xor(vec![(dig(h) - 1, 1)]), Mutn::Extend(Hex(vec![0; n & !1]))] {
                    v.push(C04Case::Mac { h, key: Blob::Rng(n as u64, n), m: Blob::Fill(1, 5), mutn: mutn.clone() });
                    v.push(C04Case::Mac { h, key: Blob::Fill(1, 5), m: Blob::Rng(n as u64, n), mutn });
                }
                v.push(C04Case::Other { h, key: Blob::Rng(n as u64, n), m: Blob::Rng(1, n), what: 7 });
            }
        }
        for n in pows(8, 20) {
            v.push(C04Case::V16 { x: Hex(Blob::Rng(3, 16).bytes()), mutn: Mutn::Extend(Hex(vec![0; n])) });
            v.push(C04Case::V16 { x: Hex(vec![0; 16]), mutn: Mutn::Extend(Hex(vec![0; n])) });
        }
        v
    }

    fn check(c: &C04Case, i: &mut Info) -> Res {
        match c {
            C04Case::Mac { h, key, m, mutn } => {
                let (k, m) = (key.bytes(), m.bytes());
                let want = refs::kdf::hmac(rh(*h), &k, &m);
                let tag = mutn.apply(&want);
                i.hit(if tag == want { "correct tag" } else if tag.len() != want.len() { "wrong length" } else { "altered" });
                c04_mac(*h, &k, &m, &tag, &want)
            }
            C04Case::Other { h, key, m, what } => {
                i.hit("tag of something else");
                let (k, m) = (key.bytes(), m.bytes());
                let want = refs::kdf::hmac(rh(*h), &k, &m);
                let b = blk(*h);
                let alt = match what {
                    0 => refs::kdf::hmac(rh(*h), &k, &[&m[..], &[0]].concat()),
                    1 => refs::kdf::hmac(rh(*h), &[&k[..], &[1]].concat(), &m),
                    2 => refs::sha2::sha(rh(*h), &m),
                    3 => refs::sha2::sha(rh(*h), &[&k[..], &m[..]].concat()),
                    4 => {
                        // inner hash only
                        let mut p = k.clone();
                        if p.len() > b {
                            p = refs::sha2::sha(rh(*h), &p);
                        }
                        p.resize(b, 0);
                        p.iter_mut().for_each(|x| *x ^= 0x36);
                        refs::sha2::sha(rh(*h), &[&p[..], &m[..]].concat())
                    }
                    5 => refs::kdf::hmac(rh(*h), &m, &k),
                    6 => refs::kdf::hmac(rh(match h { H::S224 => H::S256, H::S256 => H::S224, H::S384 => H::S512, H::S512 => H::S384 }), &k, &m),
                    _ => refs::kdf::hmac(rh(*h), &k, &m[..m.len() / 2]),
                };
                c04_mac(*h, &k, &m, &alt, &want)?;
                let mut cut = alt;
                cut.resize(dig(*h), 0);
                c04_mac(*h, &k, &m, &cut, &want)
            }
            C04Case::V16 { x, mutn } => {
                let y = mutn.apply(x);
                i.hit(if y == x.0 { "verify_16 equal" } else if y.len() != 16 { "verify_16 wrong length" } else { "verify_16 altered" });
                c04_16(x, &y)
            }
            C04Case::V16Any { x, y } => {
                i.hit("verify_16 any");
                c04_16(x, y)
            }
            C04Case::MacAll { h, seed } => {
                i.hit("exhaustive tag changes");
                let k = Blob::Rng(*seed, 20).bytes();
                let m = Blob::Rng(*seed + 1, 33).bytes();
                let want = refs::kdf::hmac(rh(*h), &k, &m);
                c04_mac(*h, &k, &m, &want, &want)?;
                let n = want.len();
                for b in 0..8 * n {
                    let mut t = want.clone();
                    t[b / 8] ^= 1 << (b % 8);
                    i.extra += 1;
                    c04_mac(*h, &k, &m, &t, &want)?;
                }
                for a in 0..n {
                    for b in 0..a {
                        let d = 1u8 << ((a + b) % 8);
                        let mut t = want.clone();
                        t[a] ^= d;
                        t[b] ^= d;
                        i.extra += 1;
                        c04_mac(*h, &k, &m, &t, &want)?;
                        let mut t = want.clone();
                        t[a] = t[a].wrapping_add(d);
                        t[b] = t[b].wrapping_sub(d);
                        c04_mac(*h, &k, &m, &t, &want)?;
                    }
                }
                for l in 0..200 {
                    i.extra += 1;
                    let t: Vec<u8> = want.iter().cycle().take(l).copied().collect();
                    c04_mac(*h, &k, &m, &t, &want)?;
                    let mut t = want.clone();
                    t.resize(l, 0);
                    c04_mac(*h, &k, &m, &t, &want)?;
                    c04_mac(*h, &k, &m, &vec![0; l], &want)?;
                }
                for l in [256 + n, 512 + n, 65536 + n] {
                    let mut t = want.clone();
                    t.resize(l, 0);
                    c04_mac(*h, &k, &m, &t, &want)?;
                }
                Ok(())
            }
            C04Case::V16All { seed } => {
                i.hit("exhaustive verify_16 changes");
                let x = Blob::Rng(*seed, 16).bytes();
                c04_16(&x, &x)?;
                for a in 0..16 {
                    for d in 1..=255u8 {
                        let mut y = x.clone();
                        y[a] ^= d;
                        i.extra += 1;
                        c04_16(&x, &y)?;
                        for b in 0..a {
                            let mut z = y.clone();
                            z[b] ^= d;
                            c04_16(&x, &z)?;
                            let mut z = x.clone();
                            z[a] = z[a].wrapping_add(d);
                            z[b] = z[b].wrapping_sub(d);
                            i.extra += 2;
                            c04_16(&x, &z)?;
                        }
                    }
                }
                for l in (0..300).chain([16 + 256, 16 + 512, 16 + 65536]) {
                    i.extra += 1;
                    let y: Vec<u8> = x.iter().cycle().take(l).copied().collect();
                    c04_16(&x, &y)?;
                    let mut y = x.clone();
                    y.resize(l, 0);
                    c04_16(&x, &y)?;
                    c04_16(&[0; 16], &vec![0; l])?;
                }
                Ok(())
            }
        }
    }
}

// ---------------------------------------------------------------- C05

pub struct C05;

#[derive(Clone, Debug)]
pub enum C05Case {
    Extract { h: H, salt: Blob, ikm: Blob },
    Expand { h: H, prk: Blob, info: Blob, len: usize, dirt: u8 },
    /// every output length in a residue class
    Lengths { h: H, seed: u64, from: usize, step: usize },
    /// extract then expand, as callers do
    Both { h: H, salt: Blob, ikm: Blob, info: Blob, len: usize },
}

fn c05_expand(h: H, prk: &[u8], info: &[u8], len: usize, dirt: u8, full: Option<&[u8]>) -> Res {
    let mut okm = vec![dirt; len];
    lib("hkdf::expand", || f::expand(h, prk, info, &mut okm))?;
    let own;
    let want = match full {
        Some(x) => &x[..len],
        None => {
            own = refs::kdf::expand(rh(h), prk, info, len).unwrap();
            &own[..]
        }
    };
    ensure!(okm == want, "HKDF-Expand {h:?} prk {} bytes info {} bytes output {len} bytes: {}", prk.len(), info.len(), diff(&okm, want));
    Ok(())
}

impl Prop for C05 {
    type Case = C05Case;
    const ID: &'static str = "C05";
    const RULE: &'static str = "case: SHA variant; extract with salt/ikm of all length classes, expand with prk >= digest size, info, output length 0..255 digests (boundaries k*digest+-1, last digests), stale output buffers; sweeps enumerate every output length. Oracle: independent RFC 5869 reference (and prefix relation in the sweeps). Non-trivial: non-empty output; distinct by full case.";
    const CASES: (u64, u64) = (100_000, 2_000_000);

    fn gen(s: &mut Src) -> C05Case {
        let h = s.pick(&HS);
        let d = dig(h);
        let outlen = |s: &mut Src| match s.weighted(&[5, 4, 1, 1]) {
            0 => s.range(0, 5 * d),
            1 => {
                let k = s.range(0, 20);
                (k * d + s.range(0, 2)).saturating_sub(1)
            }
            2 => s.range(0, 255 * d),
            _ => 255 * d - s.range(0, 2 * d),
        };
        match s.weighted(&[3, 5, 2]) {
            0 => {
                let (a, b) = (len(s, blk(h), 2000), len(s, blk(h), 5000));
                C05Case::Extract { h, salt: Blob::gen(s, a), ikm: Blob::gen(s, b) }
            }
            1 => {
                let pl = match s.weighted(&[5, 2, 1]) {
                    0 => d,
                    1 => d + s.range(0, 2 * blk(h)),
                    _ => s.pick(&[d, blk(h) - 1, blk(h), blk(h) + 1]).max(d),
                };
                let prk = Blob::key(s, pl);
                let il = len(s, blk(h), 3000);
                let info = Blob::gen(s, il);
                C05Case::Expand { h, prk, info, len: outlen(s), dirt: s.byte() }
            }
            _ => {
                let (a, b, c) = (len(s, blk(h), 300), len(s, blk(h), 300), len(s, blk(h), 300));
                C05Case::Both { h, salt: Blob::gen(s, a), ikm: Blob::gen(s, b), info: Blob::gen(s, c), len: outlen(s) }
            }
        }
    }

    fn fixed(t: Tier) -> Vec<C05Case> {
        let mut v = vec![];
        for h in HS {
            let step = if t == Tier::Quick { 64 } else { 16 };
            for from in 0..step {
                v.push(C05Case::Lengths { h, seed: from as u64 % 4, from, step });
            }
            for n in pows(8, 17) {
                v.push(C05Case::Extract { h, salt: Blob::Rng(n as u64, n), ikm: Blob::Rng(9, 40) });
                v.push(C05Case::Extract { h, salt: Blob::Rng(9, 40), ikm: Blob::Rng(n as u64, n) });
                v.push(C05Case::Expand { h, prk: Blob::Rng(7, dig(h)), info: Blob::Rng(n as u64, n), len: dig(h) + 1, dirt: 0x77 });
                v.push(C05Case::Expand { h, prk: Blob::Rng(n as u64, n), info: Blob::Rng(8, 10), len: dig(h) + 1, dirt: 0x77 });
            }
            for sl in 0..2 * blk(h) + 20 {
                v.push(C05Case::Extract { h, salt: Blob::Rng(sl as u64, sl), ikm: Blob::Rng(9, 40) });
                v.push(C05Case::Expand { h, prk: Blob::Rng(7, dig(h)), info: Blob::Rng(8, sl), len: 2 * dig(h) + 1, dirt: 0x77 });
                v.push(C05Case::Expand { h, prk: Blob::Rng(7, dig(h) + sl), info: Blob::Rng(8, 10), len: 2 * dig(h) + 1, dirt: 0x77 });
            }
        }
        v
    }

    fn check(c: &C05Case, i: &mut Info) -> Res {
        match c {
            C05Case::Extract { h, salt, ikm } => {
                i.hit("extract");
                let (s, k) = (salt.bytes(), ikm.bytes());
                let mut prk = vec![0x5a; dig(*h)];
                lib("hkdf::extract", || f::extract(*h, &s, &k, &mut prk))?;
                let want = refs::kdf::extract(rh(*h), &s, &k);
                ensure!(prk == want, "HKDF-Extract {h:?} salt {} bytes ikm {} bytes: {}", s.len(), k.len(), diff(&prk, &want));
                Ok(())
            }
            C05Case::Expand { h, prk, info, len, dirt } => {
                i.hit_if(*len > 0, "expand");
                i.hit_if(*len > 254 * dig(*h), "255 digests");
                i.hit_if(*len > 0 && len % dig(*h) == 0, "whole digests");
                c05_expand(*h, &prk.bytes(), &info.bytes(), *len, *dirt, None)
            }
            C05Case::Lengths { h, seed, from, step } => {
                i.hit("output length sweep");
                let prk = Blob::Rng(*seed, dig(*h)).bytes();
                let info = Blob::Rng(*seed, *seed as usize * 7).bytes();
                let full = refs::kdf::expand(rh(*h), &prk, &info, 255 * dig(*h)).unwrap();
                for l in (*from..=255 * dig(*h)).step_by(*step).chain([255 * dig(*h) - from]) {
                    i.extra += 1;
                    c05_expand(*h, &prk, &info, l, 0, Some(&full))?;
                }
                Ok(())
            }
            C05Case::Both { h, salt, ikm, info, len } => {
                i.hit("extract and expand");
                let mut prk = vec![0; dig(*h)];
                let (s, k, n) = (salt.bytes(), ikm.bytes(), info.bytes());
                lib("hkdf::extract", || f::extract(*h, &s, &k, &mut prk))?;
                let want = refs::kdf::extract(rh(*h), &s, &k);
                ensure!(prk == want, "HKDF-Extract {h:?}: {}", diff(&prk, &want));
                c05_expand(*h, &want, &n, *len, 0, None)
            }
        }
    }
}
