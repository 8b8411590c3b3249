//! C22: HMAC, HKDF and GCM over primitives that are not the library's own.
use super::hash::{cut_points, pieces, Mutn};
use super::*;
use crate::engine::*;
use crate::ensure;
use crate::src::*;
use f::generic as g;
use g::SHAPES;

pub struct C22;

#[derive(Clone, Debug)]
pub struct Gq {
    pub key: Blob,
    pub nonce: Blob,
    pub aad: Blob,
    pub m: Blob,
}

#[derive(Clone, Debug)]
pub enum C22Case {
    Mac { shape: usize, key: Blob, m: Blob, cuts: Vec<usize>, mutn: Mutn },
    Extract { shape: usize, salt: Blob, ikm: Blob },
    Expand { shape: usize, prk: Blob, info: Blob, len: usize, dirt: u8 },
    /// every key length
    KeyLengths { shape: usize },
    /// every output length
    OutLengths { shape: usize },
    /// messages under one object, each with a changed tag
    Gcm { key: Blob, calls: Vec<(Blob, Blob, Blob, Mutn, u8)> },
    /// the message solved so that GHASH multiplies a given value
    Operand { q: Gq, at: usize, value: Hex },
    GcmGrid { key: Blob, aad: usize, max: usize },
}

fn hash(shape: usize) -> impl Fn(&[u8]) -> Vec<u8> {
    let (d, b) = SHAPES[shape];
    move |m| g::toy_hash(d, b, m)
}

fn ref_hmac(shape: usize, key: &[u8], m: &[u8]) -> Vec<u8> {
    refs::kdf::hmac_over(&hash(shape), SHAPES[shape].1, key, m)
}

fn mac(shape: usize, key: &[u8], m: &[u8], cuts: &[usize], mutn: &Mutn) -> Res {
    let want = ref_hmac(shape, key, m);
    let got = lib("Hmac", || g::hmac(shape, key, &pieces(m, cuts)))?;
    ensure!(got == want, "HMAC over a hash of (digest, block) {:?} with a {}-byte key of {} bytes is {} instead of {}", SHAPES[shape], key.len(), m.len(), hex(&got), hex(&want));
    let tag = mutn.apply(&want);
    let ok = lib("hmac::verify", || g::verify(shape, key, m, &tag))?;
    ensure!(ok == (tag == want), "hmac::verify over a hash of {:?} returns {ok} for {} whose correct value is {}", SHAPES[shape], hex(&tag), hex(&want));
    Ok(())
}

fn expand(shape: usize, prk: &[u8], info: &[u8], len: usize, dirt: u8) -> Res {
    let mut okm = vec![dirt; len];
    lib("hkdf::expand", || g::expand(shape, prk, info, &mut okm))?;
    let want = refs::kdf::expand_over(&|m| ref_hmac(shape, prk, m), SHAPES[shape].0, info, len).expect("length");
    ensure!(okm == want, "HKDF-Expand over a hash of {:?}, prk {} bytes, info {} bytes, output {len} bytes: {}", SHAPES[shape], prk.len(), info.len(), diff(&okm, &want));
    Ok(())
}

fn extract(shape: usize, salt: &[u8], ikm: &[u8]) -> Res {
    let mut prk = vec![0x5a; SHAPES[shape].0];
    lib("hkdf::extract", || g::extract(shape, salt, ikm, &mut prk))?;
    let want = ref_hmac(shape, salt, ikm);
    ensure!(prk == want, "HKDF-Extract over a hash of {:?}, salt {} bytes, ikm {} bytes: {}", SHAPES[shape], salt.len(), ikm.len(), diff(&prk, &want));
    Ok(())
}

fn gcm(o: &g::ToyGcm, key: &[u8], nonce: &[u8], aad: &[u8], m: &[u8], mutn: &Mutn, dirt: u8) -> Res {
    let what = || format!("GCM over a block cipher with key {} nonce {}, {} bytes with {} of associated data", hex(key), hex(nonce), m.len(), aad.len());
    let (wct, wtag) = refs::aead::gcm_over(&|b| g::toy_permute(key, b), nonce, aad, m);
    let mut ct = vec![dirt; m.len()];
    let tag = lib("encrypt", || o.encrypt(m, nonce, aad, &mut ct))?;
    ensure!(ct == wct, "{}: ciphertext: {}", what(), diff(&ct, &wct));
    ensure!(tag == wtag, "{}: tag {} instead of {}", what(), hex(&tag), hex(&wtag));
    let t = mutn.apply(&wtag);
    for t in [&t[..], &wtag] {
        let mut out = vec![!dirt; m.len()];
        let ok = lib("decrypt", || o.decrypt(&wct, nonce, aad, t, &mut out))?;
        ensure!(ok == (t == wtag), "{}: decryption returns {ok} for the tag {} whose correct value is {}", what(), hex(t), hex(&wtag));
        let want = if ok { m.to_vec() } else { vec![!dirt; m.len()] };
        ensure!(out == want, "{}: output of the {} decryption: {}", what(), if ok { "accepted" } else { "refused" }, diff(&out, &want));
    }
    Ok(())
}

/// Kind and image of the zero block, then more.
fn cipher_key(s: &mut Src) -> Blob {
    if s.one_in(6) {
        let n = s.pick(&[0, 1, 5, 16, 17, 24, 32, 33, 64, 100, 200]);
        return Blob::Raw(Hex(Blob::key(s, n).bytes()));
    }
    let mut k = vec![s.below(4) as u8];
    k.extend(special(s));
    let n = s.range(0, 20);
    k.extend(s.bytes(n));
    Blob::Raw(Hex(k))
}

/// A field element or a block with structure.
fn special(s: &mut Src) -> Vec<u8> {
    match s.weighted(&[2, 3, 3, 3]) {
        0 => s.pick(&[0, 1 << 127, 1, u128::MAX, 2, 1 << 126, 0xe1 << 120, (0xe1 << 120) | 1, 3 << 126, u128::MAX >> 1]).to_be_bytes().to_vec(),
        1 => ((u128::MAX >> s.below(128)) << s.below(128)).to_be_bytes().to_vec(),
        2 => (1u128 << s.below(128)).to_be_bytes().to_vec(),
        _ => Blob::key(s, 16).bytes(),
    }
}

/// The message for which GHASH multiplies `value` at block `at` of the ciphertext.
fn steer(q: &Gq, at: usize, value: u128) -> Vec<u8> {
    let (key, nonce) = (q.key.bytes(), q.nonce.bytes());
    let mut m = q.m.bytes();
    let at = at % m.len().div_ceil(16).max(1);
    if m.len() < 16 * (at + 1) {
        m.resize(16 * (at + 1), 0);
    }
    let e = |b: &[u8; 16]| g::toy_permute(&key, b);
    let (ks, _) = refs::aead::gcm_over(&e, &nonce, b"", &vec![0; m.len()]);
    let mut gh = refs::aead::GHash::new(u128::from_be_bytes(e(&[0; 16])));
    gh.padded(&q.aad.bytes());
    let ct: Vec<u8> = m.iter().zip(&ks).map(|(a, b)| a ^ b).collect();
    gh.padded(&ct[..16 * at]);
    for (k, b) in (gh.value() ^ value).to_be_bytes().into_iter().enumerate() {
        m[16 * at + k] = b ^ ks[16 * at + k];
    }
    m
}

impl Prop for C22 {
    type Case = C22Case;
    const ID: &'static str = "C22";
    const RULE: &'static str = "case: one of 14 hash functions of the harness's own (digests 1..64 bytes, blocks 1..128, digest up to block) under Hmac in pieces, hmac::verify with a changed tag, hkdf::extract, hkdf::expand up to 255 digests; or a keyed permutation of the harness's own (keys of 0..200 bytes, hash subkey chosen: 0, 1, single bits, runs of ones) under one Gcm object for several messages with changed tags and stale buffers, with GHASH operands solved for; sweeps of all key lengths, output lengths and pairs of message lengths. Oracle: RFC 2104, RFC 5869 and SP 800-38D written over any primitive, themselves compared with OpenSSL. Non-trivial: anything but an empty message with an empty key; distinct by full case.";
    const CASES: (u64, u64) = (400_000, 8_000_000);

    fn gen(s: &mut Src) -> C22Case {
        let shape = s.below(SHAPES.len());
        let (d, b) = SHAPES[shape];
        match s.weighted(&[5, 2, 4, 7, 3]) {
            0 => {
                let kl = match s.weighted(&[3, 3, 1]) {
                    0 => s.range(0, 2 * b + 2),
                    1 => s.pick(&[d - 1, d, d + 1, b - 1, b, b + 1, 2 * b, 64, 65, 128, 129]),
                    _ => len(s, b, 2000),
                };
                let n = len(s, b, 3000);
                C22Case::Mac { shape, key: Blob::gen(s, kl), m: Blob::gen(s, n), cuts: cut_points(s, n, b), mutn: Mutn::gen(s, d) }
            }
            1 => {
                let (x, y) = (len(s, b, 1000), len(s, b, 1000));
                C22Case::Extract { shape, salt: Blob::gen(s, x), ikm: Blob::gen(s, y) }
            }
            2 => {
                let pl = d + s.range(0, 2 * b);
                let il = len(s, b, 1000);
                let n = match s.weighted(&[4, 2, 2]) {
                    0 => s.range(0, 5 * d),
                    1 => s.range(0, 255 * d),
                    _ => 255 * d - s.range(0, d),
                };
                C22Case::Expand { shape, prk: Blob::gen(s, pl), info: Blob::gen(s, il), len: n, dirt: s.byte() }
            }
            3 => {
                let key = cipher_key(s);
                let k = s.range(1, 4);
                let calls = (0..k)
                    .map(|_| {
                        let (a, b) = (len(s, 16, 2000), len(s, 16, 4000));
                        let nonce = if s.bool() { Hex(special(s)[4..].to_vec()) } else { Hex(s.bytes(12)) };
                        (Blob::Raw(nonce), Blob::gen(s, a), Blob::gen(s, b), Mutn::gen(s, 16), s.byte())
                    })
                    .collect();
                C22Case::Gcm { key, calls }
            }
            _ => {
                let (a, b) = (len(s, 16, 100), len(s, 16, 100));
                let q = Gq { key: cipher_key(s), nonce: Blob::key(s, 12), aad: Blob::gen(s, a), m: Blob::gen(s, b) };
                C22Case::Operand { q, at: s.below(6), value: Hex(special(s)) }
            }
        }
    }

    fn fixed(_t: Tier) -> Vec<C22Case> {
        let mut v = vec![];
        for shape in 0..SHAPES.len() {
            v.push(C22Case::KeyLengths { shape });
            v.push(C22Case::OutLengths { shape });
        }
        for kind in 0..4u8 {
            for b in 0..128 {
                for h in [1u128 << b, !(1u128 << b), u128::MAX >> b, u128::MAX << b] {
                    let key = Blob::Raw(Hex([&[kind], &h.to_be_bytes()[..], &[b as u8]].concat()));
                    let q = Gq { key: key.clone(), nonce: Blob::Rng(2, 12), aad: Blob::Rng(3, b % 33), m: Blob::Rng(4, 48 - b % 17) };
                    for value in [1u128 << b, u128::MAX, 0, 1 << 127] {
                        v.push(C22Case::Operand { q: q.clone(), at: b % 3, value: value.to_be_bytes().into() });
                    }
                }
            }
            for h in [0, 1 << 127, 1, u128::MAX, 0x0123_4567_89ab_cdef_0011_2233_4455_6677] {
                let key = Blob::Raw(Hex([&[kind], &u128::to_be_bytes(h)[..]].concat()));
                for aad in 0..=50 {
                    v.push(C22Case::GcmGrid { key: key.clone(), aad, max: 50 });
                }
                for n in pows(8, 18) {
                    let z = |a, m| C22Case::Gcm { key: key.clone(), calls: vec![(Blob::Rng(9, 12), Blob::Rng(8, a), Blob::Rng(7, m), Mutn::Not, 0)] };
                    v.push(z(3, n));
                    v.push(z(n, 3));
                }
            }
            for n in 0..200 {
                let key = Blob::Raw(Hex(Blob::Rng(n as u64, n).bytes()));
                v.push(C22Case::Gcm { key, calls: vec![(Blob::Rng(9, 12), Blob::Rng(8, 20), Blob::Rng(7, 40), Mutn::Reverse, 0)] });
            }
        }
        v
    }

    fn check(c: &C22Case, i: &mut Info) -> Res {
        match c {
            C22Case::Mac { shape, key, m, cuts, mutn } => {
                let (k, m) = (key.bytes(), m.bytes());
                i.hit_if(!k.is_empty() || !m.is_empty(), "HMAC");
                i.hit_if(k.len() > SHAPES[*shape].1, "key over a block");
                mac(*shape, &k, &m, cuts, mutn)
            }
            C22Case::Extract { shape, salt, ikm } => {
                i.hit("extract");
                extract(*shape, &salt.bytes(), &ikm.bytes())
            }
            C22Case::Expand { shape, prk, info, len, dirt } => {
                i.hit("expand");
                i.hit_if(*len > 254 * SHAPES[*shape].0, "255 digests");
                expand(*shape, &prk.bytes(), &info.bytes(), *len, *dirt)
            }
            C22Case::KeyLengths { shape } => {
                i.hit("key length sweep");
                let (d, b) = SHAPES[*shape];
                for n in 0..2 * b + 70 {
                    let k = Blob::Rng(n as u64, n).bytes();
                    for l in [0, 1, d, b, 2 * b + 3] {
                        i.extra += 1;
                        let m = Blob::Rng(l as u64, l).bytes();
                        mac(*shape, &k, &m, &[l / 2], &Mutn::Xor(vec![(n, 1)]))?;
                        mac(*shape, &k, &m, &[], &Mutn::Same)?;
                        extract(*shape, &k, &m)?;
                    }
                    if n >= d {
                        expand(*shape, &k, b"info", 3 * d + 1, 0x99)?;
                    }
                }
                Ok(())
            }
            C22Case::OutLengths { shape } => {
                i.hit("output length sweep");
                let d = SHAPES[*shape].0;
                let prk = Blob::Rng(5, d).bytes();
                let info = Blob::Rng(6, 11).bytes();
                let full = refs::kdf::expand_over(&|m| ref_hmac(*shape, &prk, m), d, &info, 255 * d).expect("length");
                for n in 0..=255 * d {
                    i.extra += 1;
                    let mut okm = vec![0x77; n];
                    lib("hkdf::expand", || g::expand(*shape, &prk, &info, &mut okm))?;
                    ensure!(okm == full[..n], "HKDF-Expand over a hash of {:?}, output {n} bytes: {}", SHAPES[*shape], diff(&okm, &full[..n]));
                }
                Ok(())
            }
            C22Case::Gcm { key, calls } => {
                i.hit("GCM");
                i.hit_if(calls.len() > 1, "GCM object used again");
                let key = key.bytes();
                i.hit_if(g::toy_permute(&key, &[0; 16]) == [0; 16], "hash subkey 0");
                let o = lib("Gcm::new", || g::ToyGcm::new(&key))?;
                for (nonce, aad, m, mutn, dirt) in calls {
                    gcm(&o, &key, &nonce.bytes(), &aad.bytes(), &m.bytes(), mutn, *dirt)?;
                }
                Ok(())
            }
            C22Case::Operand { q, at, value } => {
                i.hit("chosen GHASH operand and subkey");
                let m = steer(q, *at, u128::from_be_bytes(value.0[..].try_into().expect("16 bytes")));
                let key = q.key.bytes();
                let o = lib("Gcm::new", || g::ToyGcm::new(&key))?;
                gcm(&o, &key, &q.nonce.bytes(), &q.aad.bytes(), &m, &Mutn::Xor(vec![(*at, 0x80)]), 0x11)
            }
            C22Case::GcmGrid { key, aad, max } => {
                i.hit("length grid");
                let key = key.bytes();
                let o = lib("Gcm::new", || g::ToyGcm::new(&key))?;
                let (d, m) = (Blob::Rng(1, *aad).bytes(), Blob::Rng(2, *max).bytes());
                for n in 0..=*max {
                    i.extra += 1;
                    gcm(&o, &key, &Blob::Rng(n as u64, 12).bytes(), &d, &m[..n], &Mutn::Rotate(1), 0)?;
                }
                Ok(())
            }
        }
    }
}
