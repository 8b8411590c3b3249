//! C06 AES, C07 AES-GCM, C08 ChaCha20-Poly1305, C09 round trip, C10 forgeries.
use super::hash::Mutn;
use super::*;
use crate::engine::*;
use crate::ensure;
use crate::src::*;
use f::{AesSize, A};
use refs::big::Big;
use refs::poly;

// ---------------------------------------------------------------- C06

pub struct C06;

#[derive(Clone, Debug)]
pub struct C06Case {
    pub size: AesSize,
    pub key: Blob,
    pub blocks: Vec<Blob>,
}

pub fn aes_key_len(s: AesSize) -> usize {
    match s {
        AesSize::Aes128 => 16,
        AesSize::Aes192 => 24,
        AesSize::Aes256 => 32,
    }
}
const SIZES: [AesSize; 3] = [AesSize::Aes128, AesSize::Aes192, AesSize::Aes256];

impl Prop for C06 {
    type Case = C06Case;
    const ID: &'static str = "C06";
    const RULE: &'static str = "case: key size, key and up to 8 blocks (uniform, constant, single-bit, extreme words, blocks differing in one bit, blocks chosen so that the state before the first round, inside any round or after the last is special, keys chosen so that words anywhere in the key schedule are); enumerations: every single-bit and constant key and block, every byte value in every key and block position. Oracle: independent FIPS 197 reference (S-box computed from the field inverse), inverse cipher of the reference for injectivity. Non-trivial: key or block not constant; distinct by full case.";
    const CASES: (u64, u64) = (700_000, 12_000_000);

    fn gen(s: &mut Src) -> C06Case {
        let size = s.pick(&SIZES);
        let n = aes_key_len(size);
        let key = match s.weighted(&[6, 1, 2]) {
            0 => Blob::key(s, n),
            1 => {
                let k = s.pick(&[1, 2, 4, 8, 16]);
                Blob::Rep(Hex(s.bytes(k)), n)
            }
            _ => {
                // some words of the key schedule structured
                let nk = n / 4;
                let words: Vec<[u8; 4]> = match s.below(3) {
                    0 => Blob::key(s, n).bytes().chunks(4).map(|c| c.try_into().unwrap()).collect(),
                    _ => {
                        let mut w: Vec<[u8; 4]> = s.bytes(n).chunks(4).map(|c| c.try_into().unwrap()).collect();
                        for _ in 0..s.range(1, 3) {
                            let k = s.below(nk);
                            w[k] = match s.below(4) {
                                0 => [s.pick(&[0, 0xff, 1, 0x80, 0x52, 0x63]); 4],
                                1 => w[s.below(nk)],
                                2 => [s.byte(); 4],
                                _ => Blob::key(s, 4).bytes().try_into().unwrap(),
                            };
                        }
                        w
                    }
                };
                let at = s.below(4 * (nk + 7) - nk + 1);
                Blob::Raw(refs::aes::Aes::key_for(&words, at).into())
            }
        };
        let r = refs::aes::Aes::new(&key.bytes());
        let k = s.range(1, 8);
        let mut blocks: Vec<Blob> = vec![];
        for _ in 0..k {
            let b = match s.weighted(&[5, 2, 2, 1, 4]) {
                0 => Blob::key(s, 16),
                1 => {
                    // a neighbour of an earlier block
                    let mut b = blocks.last().map_or(vec![0; 16], |b| b.bytes());
                    b[s.below(16)] ^= 1 << s.below(8);
                    Blob::Raw(Hex(b))
                }
                2 => {
                    // chosen ciphertext: the plaintext whose encryption is structured
                    let c: [u8; 16] = Blob::key(s, 16).bytes().try_into().unwrap();
                    Blob::Raw(r.decrypt(&c).into())
                }
                4 => {
                    // the state inside any round structured, whole or in some columns
                    let mut x: [u8; 16] = match s.below(4) {
                        0 => Blob::key(s, 16).bytes().try_into().unwrap(),
                        1 => [s.byte(); 16],
                        2 => s.bytes(4).repeat(4).try_into().unwrap(),
                        _ => s.bytes(16).try_into().unwrap(),
                    };
                    if s.below(2) == 1 {
                        let (c, d) = (s.below(4), s.below(4));
                        let y: [u8; 4] = match s.below(4) {
                            0 => [s.pick(&[0, 0xff, 0x80, 1]); 4],
                            1 => [s.byte(); 4],
                            2 => s.bytes(2).repeat(2).try_into().unwrap(),
                            _ => x[4 * d..4 * d + 4].try_into().unwrap(),
                        };
                        x[4 * c..4 * c + 4].copy_from_slice(&y);
                    }
                    let round = s.range(1, r.rounds());
                    Blob::Raw(r.block_for(&x, round, s.below(4)).into())
                }
                _ => {
                    // first round state structured
                    let (x, k) = (Blob::key(s, 16).bytes(), key.bytes());
                    Blob::Raw(Hex(x.iter().zip(&k).map(|(a, b)| a ^ b).collect()))
                }
            };
            blocks.push(b);
        }
        C06Case { size, key, blocks }
    }

    fn fixed(_t: Tier) -> Vec<C06Case> {
        let mut v = vec![];
        for size in SIZES {
            let n = aes_key_len(size);
            let all: Vec<Blob> = (0..128).map(|i| Blob::Bit(i, 16)).chain((0..=255).map(|b| Blob::Fill(b, 16))).collect();
            for key in (0..8 * n).map(|i| Blob::Bit(i, n)).chain((0..=255).map(|b| Blob::Fill(b, n))) {
                v.push(C06Case { size, key, blocks: vec![Blob::Fill(0, 16), Blob::Count(0, 16)] });
            }
            for seed in 0..20 {
                v.push(C06Case { size, key: Blob::Rng(seed, n), blocks: all.clone() });
            }
            // every byte value at every position of key and block
            for p in 0..n {
                for b in 0..=255 {
                    let mut k = Blob::Rng(p as u64, n).bytes();
                    k[p] = b;
                    let mut x = Blob::Rng(p as u64 + 1, 16).bytes();
                    x[p % 16] = b;
                    v.push(C06Case { size, key: Blob::Raw(Hex(k)), blocks: vec![Blob::Raw(Hex(x))] });
                }
            }
        }
        v
    }

    fn check(c: &C06Case, i: &mut Info) -> Res {
        let key = c.key.bytes();
        i.hit_if(!matches!(c.key, Blob::Fill(..)), "key not constant");
        i.hit_if(c.blocks.iter().any(|b| !matches!(b, Blob::Fill(..))), "block not constant");
        let r = refs::aes::Aes::new(&key);
        let l = lib("Aes::new", || f::Aes::new(c.size, &key))?;
        let mut seen: Vec<([u8; 16], [u8; 16])> = vec![];
        for b in &c.blocks {
            let b: [u8; 16] = b.bytes().try_into().unwrap();
            let got = lib("permute", || l.permute(&b))?;
            let want = r.encrypt(&b);
            ensure!(got == want, "{:?} key {} block {}: {} instead of {}", c.size, hex(&key), hex(&b), hex(&got), hex(&want));
            ensure!(r.decrypt(&got) == b, "{:?} key {} block {}: the inverse cipher does not restore the block", c.size, hex(&key), hex(&b));
            for (x, y) in &seen {
                ensure!((*x == b) == (*y == got), "{:?} key {}: blocks {} and {} collide", c.size, hex(&key), hex(x), hex(&b));
            }
            if seen.len() < 8 {
                seen.push((b, got));
            }
            i.extra += 1;
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- shared AEAD pieces

/// key, nonce, associated data, message
#[derive(Clone, Debug)]
pub struct Quad {
    pub a: A,
    pub key: Blob,
    pub nonce: Blob,
    pub aad: Blob,
    pub m: Blob,
}

pub fn key_len(a: A) -> usize {
    ra(a).key_len()
}

pub fn quad(s: &mut Src, a: A, max: usize) -> Quad {
    let block = if a == A::ChaPoly { s.pick(&[16, 64]) } else { 16 };
    let al = match s.weighted(&[2, 5]) {
        0 => 0,
        _ => len(s, 16, max),
    };
    let ml = match s.weighted(&[1, 6]) {
        0 => 0,
        _ => len(s, block, max),
    };
    Quad { a, key: Blob::key(s, key_len(a)), nonce: Blob::key(s, 12), aad: Blob::gen(s, al), m: Blob::gen(s, ml) }
}

fn lib_seal(a: A, key: &[u8], nonce: &[u8], aad: &[u8], m: &[u8], dirt: u8) -> Result<(Vec<u8>, [u8; 16]), Fail> {
    let mut out = vec![dirt; m.len()];
    let tag = lib("encrypt", || f::Aead::new(a, key).encrypt(m, nonce, aad, &mut out))?;
    Ok((out, tag))
}

/// One direction against the reference.
fn one_way(a: A, decrypt: bool, m: usize) -> Res {
    let (key, nonce) = (Blob::Rng(77, key_len(a)).bytes(), Blob::Rng(78, 12).bytes());
    let m = Blob::Rng(79, m).bytes();
    let (wct, wtag) = refs::aead::seal(ra(a), &key, &nonce, b"aad", &m);
    if decrypt {
        let mut out = vec![0; m.len()];
        let ok = lib("decrypt", || f::Aead::new(a, &key).decrypt(&wct, &nonce, b"aad", &wtag, &mut out))?;
        ensure!(ok, "{a:?} decryption refuses the specified ciphertext and tag of {} bytes", m.len());
        ensure!(out == m, "{a:?} decryption of {} bytes: {}", m.len(), diff(&out, &m));
    } else {
        let (ct, tag) = lib_seal(a, &key, &nonce, b"aad", &m, 0)?;
        ensure!(ct == wct, "{a:?} ciphertext of {} bytes: {}", m.len(), diff(&ct, &wct));
        ensure!(tag == wtag, "{a:?} tag of {} bytes is {} instead of {}", m.len(), hex(&tag), hex(&wtag));
    }
    Ok(())
}

/// Encryption and decryption against the reference; returns the ciphertext.
fn check_seal(a: A, key: &[u8], nonce: &[u8], aad: &[u8], m: &[u8]) -> Result<Vec<u8>, Fail> {
    let (ct, tag) = lib_seal(a, key, nonce, aad, m, 0xc3)?;
    let (wct, wtag) = refs::aead::seal(ra(a), key, nonce, aad, m);
    ensure!(ct == wct, "{a:?} ciphertext of {} bytes with {} bytes of associated data: {}", m.len(), aad.len(), diff(&ct, &wct));
    ensure!(
        tag == wtag,
        "{a:?} tag for key {} nonce {} ({} bytes of message, {} of associated data) is {} instead of {}",
        hex(key),
        hex(nonce),
        m.len(),
        aad.len(),
        hex(&tag),
        hex(&wtag)
    );
    let mut out = vec![0x3c; m.len()];
    let ok = lib("decrypt", || f::Aead::new(a, key).decrypt(&wct, nonce, aad, &wtag, &mut out))?;
    ensure!(ok, "{a:?} decryption refuses the specified ciphertext and tag ({} bytes, {} of associated data)", m.len(), aad.len());
    ensure!(out == m, "{a:?} decryption of {} bytes: {}", m.len(), diff(&out, m));
    Ok(ct)
}

fn quad_info(q: &Quad, i: &mut Info) {
    let (al, ml) = (q.aad.len(), q.m.len());
    i.hit_if(ml > 0, "message");
    i.hit_if(al > 0, "associated data");
    i.hit_if(ml > 0 && ml % 16 != 0, "partial block");
    i.hit_if(al > 0 && al % 16 != 0, "partial associated-data block");
    i.hit_if(ml > 4096, "over 256 blocks");
}

// ---------------------------------------------------------------- C07

pub struct C07;

#[derive(Clone, Debug)]
pub enum C07Case {
    Any(Quad),
    /// ciphertext chosen so that the GHASH operand before a multiplication takes a given value
    Operand { q: Quad, at: usize, value: Hex },
    /// all (aad, message) lengths with the given aad length
    Grid { a: A, aad: usize, max: usize },
    /// zeros as associated data, for lengths the block-wise reference could not walk through
    ZeroAad { a: A, len: usize, m: usize },
    /// a long message, in one direction
    Far { a: A, m: usize, decrypt: bool },
}

/// Message whose ciphertext makes GHASH's operand (state xor block) equal `value` at block `at`
/// of the ciphertext.
pub fn steer(q: &Quad, at: usize, value: u128) -> Vec<u8> {
    let aes = refs::aes::Aes::new(&q.key.bytes());
    let nonce = q.nonce.bytes();
    let mut m = q.m.bytes();
    let at = at % m.len().div_ceil(16).max(1);
    if m.len() < 16 * (at + 1) {
        m.resize(16 * (at + 1), 0);
    }
    let ks = refs::aead::gcm_crypt(&aes, &nonce, &vec![0; m.len()]);
    let mut g = refs::aead::GHash::new(refs::aead::gcm_hash_key(&aes));
    g.padded(&q.aad.bytes());
    let ct: Vec<u8> = m.iter().zip(&ks).map(|(a, b)| a ^ b).collect();
    g.padded(&ct[..16 * at]);
    let b = (g.value() ^ value).to_be_bytes();
    for k in 0..16 {
        m[16 * at + k] = b[k] ^ ks[16 * at + k];
    }
    m
}

impl Prop for C07 {
    type Case = C07Case;
    const ID: &'static str = "C07";
    const RULE: &'static str = "case: AES key size, key, nonce, associated data and message (length classes around 16-byte blocks, contents random/structured), plus cases whose ciphertext is solved so that a GHASH multiplication operand takes an extreme value; enumerations: all pairs of lengths 0..66, lengths crossing 2^8, 2^16 and 2^24 counter blocks, associated data over 2^32 bits and 2^32 bytes. Oracle: independent SP 800-38D reference, both directions. Non-trivial: message or associated data present; distinct by full case.";
    const CASES: (u64, u64) = (300_000, 5_000_000);

    fn gen(s: &mut Src) -> C07Case {
        let a = s.pick(&AS[..3]);
        match s.weighted(&[6, 2]) {
            0 => C07Case::Any(quad(s, a, 1 << 13)),
            _ => {
                let q = quad(s, a, 100);
                let mut v = Blob::key(s, 16).bytes();
                if s.one_in(4) {
                    // a run of ones or zeros
                    let x = (u128::MAX >> s.below(128)) << s.below(128);
                    v = x.to_be_bytes().to_vec();
                }
                C07Case::Operand { q, at: s.below(6), value: Hex(v) }
            }
        }
    }

    fn fixed(t: Tier) -> Vec<C07Case> {
        let mut v = vec![];
        v.push(C07Case::ZeroAad { a: A::Gcm128, len: (1 << 29) + 5, m: 20 });
        // over 2^32 bytes; the build without checks is enough
        if t == Tier::Thorough || !cfg!(debug_assertions) {
            v.push(C07Case::ZeroAad { a: A::Gcm256, len: (1u64 << 32) as usize + 21, m: 20 });
            // over 2^24 counter blocks
            v.push(C07Case::Far { a: A::Gcm128, m: (1 << 28) + 90, decrypt: false });
            v.push(C07Case::Far { a: A::Gcm128, m: (1 << 28) + 90, decrypt: true });
        }
        for (k, a) in AS[..3].iter().copied().enumerate() {
            let z = |aad: usize, m: usize| {
                C07Case::Any(Quad { a, key: Blob::Rng(m as u64, key_len(a)), nonce: Blob::Rng(3, 12), aad: Blob::Rng(4, aad), m: Blob::Rng(5, m) })
            };
            if k == 0 || t == Tier::Thorough {
                v.push(z(7, (1 << 20) + 1000));
            }
            v.push(z(70_000, 100));
            v.push(z(1_100_000, 1));
            for m in 4064..=4128 {
                v.push(z(m % 40, m));
            }
            for m in pows(8, 16) {
                v.push(z(3, m));
            }
            for aad in pows(8, 19) {
                v.push(z(aad, 3));
            }
            for aad in 0..=66 {
                v.push(C07Case::Grid { a, aad, max: 66 });
            }
            let q = Quad { a, key: Blob::Rng(1, key_len(a)), nonce: Blob::Rng(2, 12), aad: Blob::Raw(Hex(vec![])), m: Blob::Fill(0, 48) };
            for b in 0..128 {
                for value in [1u128 << b, !(1u128 << b), u128::MAX >> b, u128::MAX << b] {
                    v.push(C07Case::Operand { q: q.clone(), at: 0, value: value.to_be_bytes().into() });
                }
            }
        }
        v
    }

    fn check(c: &C07Case, i: &mut Info) -> Res {
        match c {
            C07Case::Any(q) => {
                quad_info(q, i);
                check_seal(q.a, &q.key.bytes(), &q.nonce.bytes(), &q.aad.bytes(), &q.m.bytes())?;
            }
            C07Case::Operand { q, at, value } => {
                i.hit("chosen GHASH operand");
                let m = steer(q, *at, u128::from_be_bytes(value.0[..].try_into().unwrap()));
                check_seal(q.a, &q.key.bytes(), &q.nonce.bytes(), &q.aad.bytes(), &m)?;
            }
            C07Case::Grid { a, aad, max } => {
                i.hit("length grid");
                let key = Blob::Rng(*aad as u64, key_len(*a)).bytes();
                let nonce = Blob::Rng(*aad as u64 + 100, 12).bytes();
                let (d, m) = (Blob::Rng(1, *aad).bytes(), Blob::Rng(2, *max).bytes());
                for n in 0..=*max {
                    i.extra += 1;
                    check_seal(*a, &key, &nonce, &d, &m[..n])?;
                }
            }
            C07Case::Far { a, m, decrypt } => {
                i.hit("over 2^24 blocks");
                one_way(*a, *decrypt, *m)?;
            }
            C07Case::ZeroAad { a, len, m } => {
                i.hit("associated data over 2^32 bits");
                let key = Blob::Rng(77, key_len(*a)).bytes();
                let nonce = Blob::Rng(78, 12).bytes();
                let m = Blob::Rng(79, *m).bytes();
                let aad = vec![0; *len];
                let (ct, tag) = lib_seal(*a, &key, &nonce, &aad, &m, 0)?;
                let aes = refs::aes::Aes::new(&key);
                let wct = refs::aead::gcm_crypt(&aes, &nonce, &m);
                let mut g = refs::aead::GHash::new(refs::aead::gcm_hash_key(&aes));
                g.zero_blocks(len.div_ceil(16) as u64);
                g.padded(&wct);
                g.block((8 * *len as u128) << 64 | 8 * m.len() as u128);
                let want = (g.value() ^ u128::from_be_bytes(aes.encrypt(&refs::aead::gcm_j0(&nonce)))).to_be_bytes();
                ensure!(ct == wct, "{a:?}: {}", diff(&ct, &wct));
                ensure!(tag == want, "{a:?} tag with {len} zero bytes of associated data is {} instead of {}", hex(&tag), hex(&want));
            }
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- C08

pub struct C08;

/// A value for the final Poly1305 accumulator.
#[derive(Clone, Debug)]
pub enum Target {
    /// n (mod p)
    Small(u64),
    /// p - n
    Below(u64),
    /// 2^k + n - 8
    Pow(usize, u64),
    /// such that accumulator + s = 2^128 * j + n - 8 (mod p): long carries in the last addition
    Carry(u64),
    Any(Hex),
}

impl Target {
    pub fn gen(s: &mut Src) -> Target {
        match s.weighted(&[4, 3, 3, 4, 2]) {
            0 => Target::Small(s.below(24) as u64),
            1 => Target::Below(s.below(24) as u64),
            2 => Target::Pow(s.below(131), s.below(17) as u64),
            3 => Target::Carry(s.below(17) as u64),
            _ => Target::Any(Hex(Blob::key(s, 17).bytes())),
        }
    }
    fn value(&self, otk: &[u8]) -> Big {
        let p = poly::p();
        match self {
            Target::Small(n) => Big::from_u64(*n),
            Target::Below(n) => p.sub(&Big::from_u64(*n)),
            Target::Pow(k, n) => poly::modp(&Big::from_u64(1).shl(*k).add(p).add(&Big::from_u64(*n)).sub(&Big::from_u64(8))),
            Target::Carry(n) => {
                let s = Big::from_le(&otk[16..32]);
                poly::modp(&Big::from_u64(1).shl(128).add(p).add(&Big::from_u64(*n)).sub(&Big::from_u64(8)).sub(&s))
            }
            Target::Any(h) => poly::modp(&Big::from_le(h)),
        }
    }
}

#[derive(Clone, Debug)]
pub enum C08Case {
    Any(Quad),
    /// ciphertext block `at` solved so that after `after` further blocks (or at the end) the
    /// accumulator is the target
    Solved { q: Quad, at: usize, end: bool, t: Target },
    Grid { aad: usize, max: usize },
    /// zero bytes of associated data and of ciphertext
    Zeros { aad: usize, ct: usize },
}

/// Builds the message; None if no 16-byte block reaches the target for this key and nonce.
pub fn solve(q: &Quad, at: usize, end: bool, t: &Target) -> Option<Vec<u8>> {
    let (key, nonce, aad) = (q.key.bytes(), q.nonce.bytes(), q.aad.bytes());
    let mut m = q.m.bytes();
    let full = m.len() / 16;
    if full == 0 {
        m.resize(m.len() + 16, 0);
    }
    let at = at % full.max(1);
    let otk = refs::aead::chapoly_otk(&key, &nonce);
    let r = poly::clamp_r(&otk);
    let target = t.value(&otk);
    let mut ct = refs::aead::chapoly_crypt(&key, &nonce, &m);
    let mac = refs::aead::chapoly_macdata(&aad, &ct);
    let pos = aad.len().div_ceil(16) * 16 + 16 * at;
    let acc = poly::absorb(&Big::zero(), &r, &mac[..pos]);
    let tail = if end { &mac[pos + 16..] } else { &[] };
    // several representations of the target are tried through variations of the tail's free bytes
    let b = poly::solve(&acc, &r, tail, &target)?;
    ct[16 * at..16 * at + 16].copy_from_slice(&b);
    Some(refs::aead::chapoly_crypt(&key, &nonce, &ct))
}

impl Prop for C08 {
    type Case = C08Case;
    const ID: &'static str = "C08";
    const RULE: &'static str = "case: key, nonce, associated data, message (length classes around 16- and 64-byte blocks); solved cases choose a ciphertext block so that the Poly1305 accumulator reaches a target (next to 0, to 2^130-5, to powers of two, or making the final addition carry all the way); enumerations: all pairs of lengths 0..66 x 0..130, all small targets, lengths crossing 2^8, 2^16 and 2^24 ChaCha blocks and 2^32 bytes. Oracle: independent RFC 8439 reference with exact integers, both directions. Non-trivial: solved, or message or associated data present; distinct by full case.";
    const CASES: (u64, u64) = (250_000, 4_000_000);

    fn gen(s: &mut Src) -> C08Case {
        match s.weighted(&[4, 5]) {
            0 => C08Case::Any(quad(s, A::ChaPoly, 1 << 14)),
            _ => {
                let mut q = quad(s, A::ChaPoly, 120);
                q.key = Blob::Raw(Hex(s.bytes(32)));
                C08Case::Solved { q, at: s.below(8), end: !s.one_in(4), t: Target::gen(s) }
            }
        }
    }

    fn fixed(t: Tier) -> Vec<C08Case> {
        let mut v = vec![];
        let z = |aad: usize, m: usize| {
            C08Case::Any(Quad { a: A::ChaPoly, key: Blob::Rng(m as u64, 32), nonce: Blob::Rng(aad as u64, 12), aad: Blob::Rng(4, aad), m: Blob::Rng(5, m) })
        };
        // over 2^32 bytes; the build without checks is enough
        if t == Tier::Thorough || !cfg!(debug_assertions) {
            v.push(C08Case::Zeros { aad: 3, ct: (1u64 << 32) as usize + 21 });
            v.push(C08Case::Zeros { aad: (1u64 << 32) as usize + 21, ct: 5 });
        }
        for n in (0..100).chain(pows(8, 22)) {
            v.push(C08Case::Zeros { aad: n % 31, ct: n });
            v.push(C08Case::Zeros { aad: n, ct: n % 33 });
        }
        v.push(z(5, (1 << 22) + 200));
        v.push(z((1 << 22) + 200, 5));
        if t == Tier::Thorough {
            v.push(z(9, (1 << 26) + 1));
        }
        for m in 16_320..16_450 {
            v.push(z(m % 50, m));
        }
        for n in pows(8, 20) {
            v.push(z(3, n));
            v.push(z(n, 3));
        }
        for aad in 0..=66 {
            v.push(C08Case::Grid { aad, max: 130 });
        }
        for seed in 0..6u64 {
            let q = |n: u64, ml: usize| Quad {
                a: A::ChaPoly,
                key: Blob::Rng(1000 * seed + n, 32),
                nonce: Blob::Rng(seed, 12),
                aad: Blob::Rng(n, (n % 3) as usize * 8),
                m: Blob::Rng(n, ml),
            };
            let mut ts: Vec<Target> = (0..40).map(Target::Small).collect();
            ts.extend((1..40).map(Target::Below));
            ts.extend((0..17).map(Target::Carry));
            ts.extend((0..131).flat_map(|k| [7, 8, 9].map(|n| Target::Pow(k, n))));
            for (n, t) in ts.into_iter().enumerate() {
                v.push(C08Case::Solved { q: q(n as u64, 16 + n % 40), at: 0, end: true, t });
            }
        }
        v
    }

    fn check(c: &C08Case, i: &mut Info) -> Res {
        match c {
            C08Case::Any(q) => {
                quad_info(q, i);
                check_seal(q.a, &q.key.bytes(), &q.nonce.bytes(), &q.aad.bytes(), &q.m.bytes())?;
            }
            C08Case::Solved { q, at, end, t } => {
                // about half of the keys have no solving block; try related keys
                let mut q = q.clone();
                for k in 0..12u8 {
                    if let Some(m) = solve(&q, *at, *end, t) {
                        i.hit("solved accumulator");
                        let key = q.key.bytes();
                        check_seal(A::ChaPoly, &key, &q.nonce.bytes(), &q.aad.bytes(), &m)?;
                        return Ok(());
                    }
                    let mut key = q.key.bytes();
                    key[31] ^= k ^ (k + 1);
                    q.key = Blob::Raw(Hex(key));
                }
                i.label("no solution");
            }
            C08Case::Zeros { aad, ct } => {
                i.hit("zeros");
                i.hit_if(*aad > u32::MAX as usize || *ct > u32::MAX as usize, "over 2^32 bytes");
                let key = Blob::Rng(77, 32).bytes();
                let nonce = Blob::Rng(78, 12).bytes();
                let otk = refs::aead::chapoly_otk(&key, &nonce);
                let r = poly::clamp_r(&otk);
                let acc = poly::absorb_zeros(&Big::zero(), &r, (aad.div_ceil(16) + ct.div_ceil(16)) as u64);
                let lens = [(*aad as u64).to_le_bytes(), (*ct as u64).to_le_bytes()].concat();
                let tag = poly::finish(&poly::absorb(&acc, &r, &lens), &otk);
                let (d, c) = (vec![0; *aad], vec![0; *ct]);
                let mut out = vec![0; *ct];
                let x = lib("new", || f::Aead::new(A::ChaPoly, &key))?;
                let ok = lib("decrypt", || x.decrypt(&c, &nonce, &d, &tag, &mut out))?;
                ensure!(ok, "{ct} zero bytes of ciphertext with {aad} zero bytes of associated data and their tag {} are not accepted", hex(&tag));
                // windows of the message, which is the keystream
                let ch = refs::chacha::ChaCha::new(&key, &nonce);
                for k in 0..48 {
                    let at = (1usize << k).saturating_sub(70);
                    if at < *ct {
                        let n = 200.min(ct - at);
                        let want = ch.keystream(1, at as u64, n);
                        ensure!(out[at..at + n] == want, "decryption of {ct} zero bytes at byte {at}: {}", diff(&out[at..at + n], &want));
                    }
                }
            }
            C08Case::Grid { aad, max } => {
                i.hit("length grid");
                let key = Blob::Rng(*aad as u64, 32).bytes();
                let nonce = Blob::Rng(*aad as u64 + 100, 12).bytes();
                let (d, m) = (Blob::Rng(1, *aad).bytes(), Blob::Rng(2, *max).bytes());
                for n in 0..=*max {
                    i.extra += 1;
                    check_seal(A::ChaPoly, &key, &nonce, &d, &m[..n])?;
                }
            }
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- C09

pub struct C09;

#[derive(Clone, Debug)]
pub enum Op9 {
    /// with object `o`: encrypt, keep the result
    Enc { o: usize, nonce: Blob, aad: Blob, m: Blob },
    /// decrypt the kept result `k` with another object of the same key
    Dec { k: usize, o: usize, dirt: u8 },
}

#[derive(Clone, Debug)]
pub enum C09Case {
    /// objects (algorithm, key number); keys; operations
    History { objs: Vec<(A, usize)>, keys: Vec<Blob>, ops: Vec<Op9> },
    Grid { a: A, aad: usize, max: usize },
    Long { a: A, aad: usize, m: usize },
    /// decryption of a long message; its encryption too if that fails
    Far { a: A, m: usize },
}

fn round_trip(a: A, e: &f::Aead, d: &f::Aead, nonce: &[u8], aad: &[u8], m: &[u8]) -> Res {
    let mut ct = vec![0x99; m.len()];
    let tag = lib("encrypt", || e.encrypt(m, nonce, aad, &mut ct))?;
    let mut out = vec![0x66; m.len()];
    let ok = lib("decrypt", || d.decrypt(&ct, nonce, aad, &tag, &mut out))?;
    ensure!(ok, "{a:?}: own ciphertext refused ({} bytes, {} of associated data)", m.len(), aad.len());
    ensure!(out == m, "{a:?}: round trip of {} bytes, {}", m.len(), diff(&out, m));
    Ok(())
}

impl Prop for C09 {
    type Case = C09Case;
    const ID: &'static str = "C09";
    const RULE: &'static str = "case: a history over several cipher objects (shared and related keys, all four AEADs): encryptions kept, later decrypted in any order by the same or another object with the same key, stale output buffers; enumerations: all length pairs 0..40 x 0..140, long messages. Oracle: decryption returns true and the original message. Non-trivial: at least one decryption of a non-empty message; distinct by full case.";
    const CASES: (u64, u64) = (60_000, 1_200_000);

    fn gen(s: &mut Src) -> C09Case {
        let nk = s.range(1, 3);
        let base = Blob::key(s, 32).bytes();
        let keys: Vec<Blob> = (0..nk)
            .map(|i| {
                if i == 0 || s.bool() {
                    let mut k = base.clone();
                    if i > 0 {
                        k[s.below(32)] ^= 1 << s.below(8);
                    }
                    Blob::Raw(Hex(k))
                } else {
                    Blob::key(s, 32)
                }
            })
            .collect();
        let no = s.range(1, 4);
        let objs: Vec<(A, usize)> = (0..no).map(|_| (s.pick(&AS), s.below(nk))).collect();
        let n = s.range(2, 14);
        let mut kept = 0;
        let mut ops = vec![];
        let mut nonces = vec![Blob::key(s, 12)];
        for _ in 0..n {
            if kept == 0 || s.bool() {
                let (al, ml) = (len(s, 16, 700), len(s, 16, 1500));
                let nonce = if s.bool() { nonces[s.below(nonces.len())].clone() } else { Blob::key(s, 12) };
                nonces.push(nonce.clone());
                ops.push(Op9::Enc { o: s.below(no), nonce, aad: Blob::gen(s, al), m: Blob::gen(s, ml) });
                kept += 1;
            } else {
                ops.push(Op9::Dec { k: s.below(kept), o: s.below(8), dirt: s.byte() });
            }
        }
        C09Case::History { objs, keys, ops }
    }

    fn fixed(t: Tier) -> Vec<C09Case> {
        let mut v = vec![];
        // over 2^24 counter blocks; the build without checks is enough
        if t == Tier::Thorough || !cfg!(debug_assertions) {
            v.push(C09Case::Far { a: A::Gcm128, m: (1 << 28) + 90 });
        }
        for a in AS {
            let big = if a == A::ChaPoly { (1 << 22) + 333 } else { (1 << 20) + 333 };
            if a != A::Gcm192 || t == Tier::Thorough {
                v.push(C09Case::Long { a, aad: 5, m: big });
            }
            v.push(C09Case::Long { a, aad: 1 << 21, m: 5 });
            for n in pows(8, 16) {
                v.push(C09Case::Long { a, aad: n / 3, m: n });
            }
            for aad in 0..=40 {
                v.push(C09Case::Grid { a, aad, max: 140 });
            }
        }
        v
    }

    fn check(c: &C09Case, i: &mut Info) -> Res {
        match c {
            C09Case::History { objs, keys, ops } => {
                let built: Vec<(A, usize, f::Aead)> = objs
                    .iter()
                    .map(|&(a, k)| {
                        let key = keys[k].bytes();
                        lib("new", || f::Aead::new(a, &key[..key_len(a)])).map(|x| (a, k, x))
                    })
                    .collect::<Result<_, _>>()?;
                struct Kept {
                    o: usize,
                    nonce: Vec<u8>,
                    aad: Vec<u8>,
                    m: Vec<u8>,
                    ct: Vec<u8>,
                    tag: [u8; 16],
                }
                let mut kept: Vec<Kept> = vec![];
                let dec = |k: &Kept, o: usize, dirt: u8, i: &mut Info| -> Res {
                    let (a, key, _) = &built[k.o];
                    // objects that share algorithm and key; a fresh one is always among them
                    let same: Vec<usize> = (0..built.len()).filter(|&j| built[j].0 == *a && built[j].1 == *key).collect();
                    let fresh;
                    let obj = if o % (same.len() + 1) == same.len() {
                        let kb = keys[*key].bytes();
                        fresh = lib("new", || f::Aead::new(*a, &kb[..key_len(*a)]))?;
                        i.label("fresh object");
                        &fresh
                    } else {
                        &built[same[o % (same.len() + 1)]].2
                    };
                    let mut out = vec![dirt; k.ct.len()];
                    let ok = lib("decrypt", || obj.decrypt(&k.ct, &k.nonce, &k.aad, &k.tag, &mut out))?;
                    ensure!(ok, "{a:?}: own ciphertext refused ({} bytes, {} of associated data)", k.m.len(), k.aad.len());
                    ensure!(out == k.m, "{a:?}: round trip of {} bytes, {}", k.m.len(), diff(&out, &k.m));
                    i.hit_if(!k.m.is_empty(), "decrypted a message");
                    i.extra += 1;
                    Ok(())
                };
                for op in ops {
                    match op {
                        Op9::Enc { o, nonce, aad, m } => {
                            let mut k = Kept { o: *o, nonce: nonce.bytes(), aad: aad.bytes(), m: m.bytes(), ct: vec![], tag: [0; 16] };
                            k.ct = vec![0x11; k.m.len()];
                            k.tag = lib("encrypt", || built[*o].2.encrypt(&k.m, &k.nonce, &k.aad, &mut k.ct))?;
                            kept.push(k);
                        }
                        Op9::Dec { k, o, dirt } => dec(&kept[*k], *o, *dirt, i)?,
                    }
                }
                for (j, k) in kept.iter().enumerate() {
                    dec(k, j, 0, i)?;
                }
                i.hit_if(ops.len() > 4, "over 4 operations");
            }
            C09Case::Grid { a, aad, max } => {
                i.hit("length grid");
                let key = Blob::Rng(*aad as u64, key_len(*a)).bytes();
                let (e, d) = (lib("new", || f::Aead::new(*a, &key))?, lib("new", || f::Aead::new(*a, &key))?);
                let (x, m) = (Blob::Rng(1, *aad).bytes(), Blob::Rng(2, *max).bytes());
                for n in 0..=*max {
                    i.extra += 1;
                    round_trip(*a, &e, &d, &[n as u8; 12], &x, &m[..n])?;
                }
            }
            C09Case::Far { a, m } => {
                i.hit("over 2^24 blocks");
                // the specified ciphertext stands for the library's own, which is only made
                // when the two may differ
                if one_way(*a, true, *m).is_err() {
                    let (key, nonce) = (Blob::Rng(77, key_len(*a)).bytes(), Blob::Rng(78, 12).bytes());
                    let (e, d) = (lib("new", || f::Aead::new(*a, &key))?, lib("new", || f::Aead::new(*a, &key))?);
                    round_trip(*a, &e, &d, &nonce, b"aad", &Blob::Rng(79, *m).bytes())?;
                }
            }
            C09Case::Long { a, aad, m } => {
                i.hit("long");
                let key = Blob::Rng(*aad as u64, key_len(*a)).bytes();
                let (e, d) = (lib("new", || f::Aead::new(*a, &key))?, lib("new", || f::Aead::new(*a, &key))?);
                round_trip(*a, &e, &d, &[7; 12], &Blob::Rng(1, *aad).bytes(), &Blob::Rng(2, *m).bytes())?;
            }
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- C10

pub struct C10;

#[derive(Clone, Debug)]
pub enum Tamper {
    Tag(Mutn),
    Ct(Mutn),
    Aad(Mutn),
    Nonce(Mutn),
    Key(Mutn),
    /// move n bytes from the end of the associated data to the front of the ciphertext
    Shift(usize),
    /// ... or back
    ShiftBack(usize),
    /// pad associated data with zeros
    PadAad(usize),
    PadCt(usize),
    /// the tag of a faulty computation
    Variant(usize),
    /// decrypt with another algorithm of the same key length
    OtherAlg,
    /// swap associated data and ciphertext
    SwapParts,
    /// swap two 16-byte ciphertext blocks
    SwapBlocks(usize, usize),
    DropBlock(usize),
}

#[derive(Clone, Debug)]
pub enum C10Case {
    One { q: Quad, t: Vec<Tamper>, dirt: Blob },
    /// every bit of everything
    Bits { a: A, aad: usize, m: usize },
    /// every pair of tag bytes, cancelling differences; every tag length
    Tags { a: A, aad: usize, m: usize },
}

struct Sealed {
    a: A,
    key: Vec<u8>,
    nonce: Vec<u8>,
    aad: Vec<u8>,
    ct: Vec<u8>,
    tag: Vec<u8>,
}

/// Tags of plausible wrong computations over the same data.
fn variant_tag(x: &Sealed, k: usize) -> Vec<u8> {
    use refs::aead as r;
    if x.a == A::ChaPoly {
        let otk = r::chapoly_otk(&x.key, &x.nonce);
        let mac = r::chapoly_macdata(&x.aad, &x.ct);
        let data = match k % 6 {
            0 => mac[..mac.len() - 16].to_vec(),
            1 => [&x.aad[..], &x.ct].concat(),
            2 => r::chapoly_macdata(&x.ct, &x.aad),
            3 => r::chapoly_macdata(&[], &x.ct),
            4 => r::chapoly_macdata(&x.aad, &[]),
            _ => {
                let m = r::chapoly_crypt(&x.key, &x.nonce, &x.ct);
                r::chapoly_macdata(&x.aad, &m)
            }
        };
        return poly::poly1305(&otk, &data).to_vec();
    }
    let aes = refs::aes::Aes::new(&x.key);
    let h = r::gcm_hash_key(&aes);
    let mask = u128::from_be_bytes(aes.encrypt(&r::gcm_j0(&x.nonce)));
    let mut g = r::GHash::new(h);
    let (al, cl) = (x.aad.len() as u128, x.ct.len() as u128);
    let lens = al * 8 << 64 | cl * 8;
    match k % 8 {
        0 => {
            g.padded(&x.aad);
            g.padded(&x.ct);
            return (g.value() ^ mask).to_be_bytes().to_vec();
        }
        1 => {
            g.padded(&x.aad);
            g.padded(&x.ct);
            g.block(lens);
            return g.value().to_be_bytes().to_vec();
        }
        2 => {
            g.padded(&x.ct);
            g.padded(&x.aad);
        }
        3 => g.padded(&[&x.aad[..], &x.ct].concat()),
        4 => g.padded(&x.ct),
        5 => g.padded(&x.aad),
        6 => {
            g.padded(&x.aad);
            g.padded(&x.ct);
            g.block(al << 64 | cl);
            return (g.value() ^ mask).to_be_bytes().to_vec();
        }
        _ => {
            g.padded(&x.aad);
            g.padded(&r::gcm_crypt(&aes, &x.nonce, &x.ct));
        }
    }
    g.block(lens);
    (g.value() ^ mask).to_be_bytes().to_vec()
}

fn apply(x: &mut Sealed, t: &Tamper) {
    match t {
        Tamper::Tag(m) => x.tag = m.apply(&x.tag),
        Tamper::Ct(m) if !x.ct.is_empty() => x.ct = m.apply(&x.ct),
        Tamper::Ct(_) => x.ct.push(0),
        Tamper::Aad(m) if !x.aad.is_empty() => x.aad = m.apply(&x.aad),
        Tamper::Aad(_) => x.aad.push(0),
        Tamper::Nonce(m) => {
            let mut n = m.apply(&x.nonce);
            n.resize(12, 1);
            x.nonce = n;
        }
        Tamper::Key(m) => {
            let l = x.key.len();
            let mut n = m.apply(&x.key);
            n.resize(l, 1);
            x.key = n;
        }
        Tamper::Shift(n) => {
            let n = (*n).min(x.aad.len());
            let b = x.aad.split_off(x.aad.len() - n);
            x.ct.splice(0..0, b);
        }
        Tamper::ShiftBack(n) => {
            let n = (*n).min(x.ct.len());
            let b: Vec<u8> = x.ct.drain(..n).collect();
            x.aad.extend(b);
        }
        Tamper::PadAad(n) => x.aad.resize(x.aad.len() + n, 0),
        Tamper::PadCt(n) => x.ct.resize(x.ct.len() + n, 0),
        Tamper::Variant(k) => x.tag = variant_tag(x, *k),
        Tamper::OtherAlg => {
            x.a = match x.a {
                A::ChaPoly => A::Gcm256,
                A::Gcm256 => A::ChaPoly,
                a => a,
            }
        }
        Tamper::SwapParts => std::mem::swap(&mut x.aad, &mut x.ct),
        Tamper::SwapBlocks(a, b) => {
            let n = x.ct.len() / 16;
            if n > 1 {
                for k in 0..16 {
                    x.ct.swap(a % n * 16 + k, b % n * 16 + k);
                }
            }
        }
        Tamper::DropBlock(a) => {
            let n = x.ct.len() / 16;
            if n > 0 {
                let s = a % n * 16;
                x.ct.drain(s..s + 16);
            }
        }
    }
}

fn reject(x: &Sealed, dirt: &Blob, what: &dyn std::fmt::Debug) -> Res {
    // output inside guard zones, filled with known bytes
    let pad = 24;
    let n = x.ct.len();
    let fill = dirt.bytes();
    let mut buf: Vec<u8> = (0..n + 2 * pad).map(|i| if fill.is_empty() { 0x5f } else { fill[i % fill.len()] }).collect();
    let before = buf.clone();
    let ok = lib("decrypt", || f::Aead::new(x.a, &x.key).decrypt(&x.ct, &x.nonce, &x.aad, &x.tag, &mut buf[pad..pad + n]))?;
    ensure!(
        !ok,
        "{:?} accepts a forgery ({what:?}): key {} nonce {} aad {} bytes ct {} bytes tag {}",
        x.a,
        hex(&x.key),
        hex(&x.nonce),
        x.aad.len(),
        n,
        hex(&x.tag)
    );
    ensure!(buf == before, "{:?} rejects ({what:?}) but changes the output buffer: {}", x.a, diff(&buf, &before));
    Ok(())
}

fn gen_tamper(s: &mut Src, tag_only: bool) -> Tamper {
    if tag_only {
        return Tamper::Tag(Mutn::gen(s, 16));
    }
    match s.weighted(&[6, 4, 4, 3, 3, 2, 2, 2, 2, 3, 1, 1, 1, 1]) {
        0 => Tamper::Tag(Mutn::gen(s, 16)),
        1 => {
            let n = s.pick(&[1, 16, 17, 64, 300]);
            Tamper::Ct(Mutn::gen(s, n))
        }
        2 => {
            let n = s.pick(&[1, 16, 17, 64, 300]);
            Tamper::Aad(Mutn::gen(s, n))
        }
        3 => Tamper::Nonce(Mutn::gen(s, 12)),
        4 => Tamper::Key(Mutn::gen(s, 32)),
        5 => Tamper::Shift(s.pick(&[1, 16, 2, 8, 15, 17, 32])),
        6 => Tamper::ShiftBack(s.pick(&[1, 16, 2, 8, 15, 17, 32])),
        7 => Tamper::PadAad(s.range(1, 33)),
        8 => Tamper::PadCt(s.range(1, 33)),
        9 => Tamper::Variant(s.below(8)),
        10 => Tamper::OtherAlg,
        11 => Tamper::SwapParts,
        12 => Tamper::SwapBlocks(s.below(20), s.below(20)),
        _ => Tamper::DropBlock(s.below(20)),
    }
}

fn sealed(a: A, key: Vec<u8>, nonce: Vec<u8>, aad: Vec<u8>, m: &[u8]) -> Sealed {
    // sealed by the reference, so the rejection check does not depend on the library's encryption
    let (ct, tag) = refs::aead::seal(ra(a), &key, &nonce, &aad, m);
    Sealed { a, key, nonce, aad, ct, tag: tag.to_vec() }
}

impl Prop for C10 {
    type Case = C10Case;
    const ID: &'static str = "C10";
    const RULE: &'static str = "case: a sealed message and one to three changes of tag (bit, cancelling differences, truncation, extension, tags of faulty computations), ciphertext, associated data, nonce, key, boundaries between the parts; enumerations: every bit of every input, every tag byte pair, every tag length 0..300. Oracle: inputs differ from the sealed ones => false, output buffer and guard zones untouched. Non-trivial: the inputs really differ; distinct by full case.";
    const CASES: (u64, u64) = (1_000_000, 15_000_000);

    fn gen(s: &mut Src) -> C10Case {
        let a = s.pick(&AS);
        let q = quad(s, a, 400);
        let k = s.weighted(&[8, 2, 1]) + 1;
        let t = (0..k).map(|_| gen_tamper(s, false)).collect();
        let n = s.range(1, 24);
        C10Case::One { q, t, dirt: Blob::key(s, n) }
    }

    fn fixed(_t: Tier) -> Vec<C10Case> {
        let mut v = vec![];
        for a in AS {
            for (aad, m) in [(0, 0), (0, 1), (1, 0), (20, 37), (16, 16), (13, 64), (33, 15), (0, 130), (40, 0)] {
                v.push(C10Case::Bits { a, aad, m });
                v.push(C10Case::Tags { a, aad, m });
            }
            for k in 0..8 {
                for (aad, m) in [(0, 0), (16, 16), (20, 37), (0, 64), (5, 0)] {
                    let q = Quad { a, key: Blob::Rng(1, key_len(a)), nonce: Blob::Rng(2, 12), aad: Blob::Rng(3, aad), m: Blob::Rng(4, m) };
                    v.push(C10Case::One { q, t: vec![Tamper::Variant(k)], dirt: Blob::Fill(0, 1) });
                }
            }
            // long messages, last byte and first byte
            for m in pows(8, 17).chain([5000, 70_000]) {
                for at in [0, m / 2, m - 1] {
                    let q = |aad, m| Quad { a, key: Blob::Rng(1, key_len(a)), nonce: Blob::Rng(2, 12), aad: Blob::Rng(3, aad), m: Blob::Rng(4, m) };
                    v.push(C10Case::One { q: q(9, m), t: vec![Tamper::Ct(Mutn::Xor(vec![(at, 1)]))], dirt: Blob::Fill(9, 1) });
                    v.push(C10Case::One { q: q(m, 9), t: vec![Tamper::Aad(Mutn::Xor(vec![(at, 1)]))], dirt: Blob::Fill(9, 1) });
                }
            }
        }
        v
    }

    fn check(c: &C10Case, i: &mut Info) -> Res {
        match c {
            C10Case::One { q, t, dirt } => {
                let mut x = sealed(q.a, q.key.bytes(), q.nonce.bytes(), q.aad.bytes(), &q.m.bytes());
                let orig = (x.a, x.key.clone(), x.nonce.clone(), x.aad.clone(), x.ct.clone(), x.tag.clone());
                for t in t {
                    apply(&mut x, t);
                }
                let same = (x.a, &x.key, &x.nonce, &x.aad, &x.ct, &x.tag) == (orig.0, &orig.1, &orig.2, &orig.3, &orig.4, &orig.5);
                if same {
                    i.label("unchanged");
                    return Ok(());
                }
                // a variant computation may coincide with the right one (empty parts)
                if t.iter().any(|t| matches!(t, Tamper::Variant(_) | Tamper::SwapParts)) {
                    let right = if x.a == A::ChaPoly {
                        refs::aead::chapoly_tag(&x.key, &x.nonce, &x.aad, &x.ct)
                    } else {
                        refs::aead::gcm_tag(&refs::aes::Aes::new(&x.key), &x.nonce, &x.aad, &x.ct)
                    };
                    if x.tag == right {
                        i.label("variant coincides");
                        return Ok(());
                    }
                }
                i.hit(match &t[0] {
                    Tamper::Tag(_) => "tag",
                    Tamper::Ct(_) => "ciphertext",
                    Tamper::Aad(_) => "associated data",
                    Tamper::Nonce(_) => "nonce",
                    Tamper::Key(_) => "key",
                    Tamper::Variant(_) => "faulty computation",
                    Tamper::Shift(_) | Tamper::ShiftBack(_) | Tamper::PadAad(_) | Tamper::PadCt(_) => "boundary",
                    _ => "other",
                });
                i.hit_if(x.tag.len() != 16, "tag length");
                reject(&x, dirt, t)
            }
            C10Case::Bits { a, aad, m } => {
                i.hit("every bit");
                let dirt = Blob::Fill(0xee, 1);
                let x = || {
                    sealed(
                        *a,
                        Blob::Rng(50, key_len(*a)).bytes(),
                        Blob::Rng(51, 12).bytes(),
                        Blob::Rng(52, *aad).bytes(),
                        &Blob::Rng(53, *m).bytes(),
                    )
                };
                for part in 0..5 {
                    let n = match part {
                        0 => key_len(*a),
                        1 => 12,
                        2 => *aad,
                        3 => *m,
                        _ => 16,
                    };
                    for b in 0..8 * n {
                        let mut y = x();
                        let v = match part {
                            0 => &mut y.key,
                            1 => &mut y.nonce,
                            2 => &mut y.aad,
                            3 => &mut y.ct,
                            _ => &mut y.tag,
                        };
                        v[b / 8] ^= 1 << (b % 8);
                        i.extra += 1;
                        reject(&y, &dirt, &("bit", part, b))?;
                    }
                }
                Ok(())
            }
            C10Case::Tags { a, aad, m } => {
                i.hit("tag pairs and lengths");
                let dirt = Blob::Fill(0xee, 1);
                let mut x = sealed(
                    *a,
                    Blob::Rng(60, key_len(*a)).bytes(),
                    Blob::Rng(61, 12).bytes(),
                    Blob::Rng(62, *aad).bytes(),
                    &Blob::Rng(63, *m).bytes(),
                );
                let tag = x.tag.clone();
                for p in 0..16 {
                    for q in 0..p {
                        for d in [1u8, 0x80, 0xff, (p * 16 + q) as u8 | 1] {
                            x.tag = tag.clone();
                            x.tag[p] ^= d;
                            x.tag[q] ^= d;
                            reject(&x, &dirt, &("tag bytes xor", p, q, d))?;
                            x.tag = tag.clone();
                            x.tag[p] = x.tag[p].wrapping_add(d);
                            x.tag[q] = x.tag[q].wrapping_sub(d);
                            reject(&x, &dirt, &("tag bytes add", p, q, d))?;
                            i.extra += 2;
                        }
                    }
                }
                for l in (0..300).filter(|l| *l != 16) {
                    x.tag = tag.iter().cycle().take(l).copied().collect();
                    reject(&x, &dirt, &("tag length", l))?;
                    x.tag = tag.clone();
                    x.tag.resize(l, 0);
                    reject(&x, &dirt, &("tag length", l))?;
                    i.extra += 2;
                }
                for k in 0..256 {
                    x.tag = vec![k as u8; 16];
                    if x.tag != tag {
                        reject(&x, &dirt, &("constant tag", k))?;
                    }
                }
                Ok(())
            }
        }
    }
}
