//! C18 panics exactly in the documented cases.
use super::*;
use crate::engine::*;
use crate::ensure;
use crate::src::*;
use facade::{AesSize, A, H};

pub struct C18;

#[derive(Clone, Debug)]
pub enum Op {
    Sha(H, Blob),
    Digest(H, Vec<Blob>, usize),
    Hmac(H, Blob, Vec<Blob>),
    HmacVerify(H, Blob, Blob, Blob),
    Verify16(Blob),
    Extract(H, Blob, Blob, usize),
    Expand(H, Blob, Blob, usize),
    Aes(AesSize, Blob, Blob),
    AeadNew(A, Blob),
    Enc { a: A, key: Blob, m: Blob, nonce: Blob, aad: Blob, out: usize },
    Dec { a: A, key: Blob, c: Blob, nonce: Blob, aad: Blob, tag: Blob, out: usize },
    /// decryption of a true ciphertext, output of another length
    DecTrue { a: A, key: Blob, m: Blob, nonce: Blob, aad: Blob, out: usize },
    StreamNew(Blob, Blob),
    StreamRun(Blob, Blob, Vec<(bool, Blob, usize)>),
    XPk(Blob),
    XDh(Blob, Blob),
    EdPk(Blob),
    EdSign(Blob, Blob),
    EdVerify(Blob, Blob, Blob),
    /// true signature, key and signature resized
    EdTrue(Blob, Blob, usize, usize),
}

#[derive(Clone, Debug)]
pub enum C18Case {
    One(Op),
    /// argument lengths that are right modulo 2^32
    Wide(usize),
    /// message lengths at the documented limits, in a child process on unmapped memory
    Limit { a: A, decrypt: bool, len: u64, aad: u64, panics: bool },
}

/// A length that is usually right, sometimes wrong in a telling way.
fn near(s: &mut Src, want: usize) -> usize {
    match s.weighted(&[10, 2, 1, 1, 1, 1, 1]) {
        0 => want,
        1 => want + 1,
        2 => want.saturating_sub(1),
        3 => s.below(2 * want + 3),
        4 => s.pick(&[0, 12, 16, 24, 28, 32, 48, 64, 128]),
        5 => want + 256,
        _ => want + 65536,
    }
}

fn key(s: &mut Src, n: usize) -> Blob {
    let n = near(s, n);
    Blob::key(s, n)
}

fn text(s: &mut Src) -> Blob {
    let n = len(s, 64, 5000);
    Blob::gen(s, n)
}

fn key_len(a: A) -> usize {
    match a {
        A::Gcm128 => 16,
        A::Gcm192 => 24,
        _ => 32,
    }
}

fn aes_len(a: AesSize) -> usize {
    match a {
        AesSize::Aes128 => 16,
        AesSize::Aes192 => 24,
        AesSize::Aes256 => 32,
    }
}

const SIZES: [AesSize; 3] = [AesSize::Aes128, AesSize::Aes192, AesSize::Aes256];

impl Prop for C18 {
    type Case = C18Case;
    const ID: &'static str = "C18";
    const RULE: &'static str = "case: one public operation with argument lengths around, far from and equal (modulo 256, 65536 and 2^32) to the documented ones and any contents; AEAD messages at the documented length limits on unmapped memory in a child process. Oracle: predicate over lengths decides whether the call panics; after a panic the output buffer is compared with its previous contents; run with and without overflow checks. Non-trivial: the call violates a precondition, or meets them all with some input longer than 64 bytes or at a limit; distinct by full case.";
    const CASES: (u64, u64) = (400_000, 8_000_000);

    fn gen(s: &mut Src) -> C18Case {
        let h = s.pick(&HS);
        let a = s.pick(&AS);
        C18Case::One(match s.below(20) {
            0 => Op::Sha(h, text(s)),
            1 => {
                let k = s.range(0, 4);
                Op::Digest(h, (0..k).map(|_| text(s)).collect(), near(s, dig(h)))
            }
            2 => {
                let k = s.range(0, 3);
                Op::Hmac(h, text(s), (0..k).map(|_| text(s)).collect())
            }
            3 => Op::HmacVerify(h, text(s), text(s), key(s, dig(h))),
            4 => Op::Verify16(key(s, 16)),
            5 => Op::Extract(h, text(s), text(s), near(s, dig(h))),
            6 => {
                let n = match s.weighted(&[2, 2, 3]) {
                    0 => s.below(3 * dig(h)),
                    1 => s.below(255 * dig(h) + 1),
                    _ => 255 * dig(h) + s.pick(&[0, 0, 1, 2, dig(h), 100_000]) - s.pick(&[0, 0, 1, dig(h)]),
                };
                Op::Expand(h, key(s, dig(h)), text(s), n)
            }
            7 => {
                let k = s.pick(&SIZES);
                Op::Aes(k, key(s, aes_len(k)), Blob::key(s, 16))
            }
            8 => Op::AeadNew(a, key(s, key_len(a))),
            9 | 10 => {
                let m = text(s);
                let out = near(s, m.len());
                Op::Enc { a, key: Blob::key(s, key_len(a)), m, nonce: key(s, 12), aad: text(s), out }
            }
            11 => {
                let c = text(s);
                let out = near(s, c.len());
                Op::Dec { a, key: Blob::key(s, key_len(a)), c, nonce: key(s, 12), aad: text(s), tag: key(s, 16), out }
            }
            12 => {
                let m = text(s);
                let out = near(s, m.len());
                Op::DecTrue { a, key: Blob::key(s, key_len(a)), m, nonce: Blob::key(s, 12), aad: text(s), out }
            }
            13 => Op::StreamNew(key(s, 32), key(s, 12)),
            14 => {
                let k = s.range(1, 5);
                let v = (0..k)
                    .map(|_| {
                        let m = text(s);
                        let n = near(s, m.len());
                        (s.bool(), m, n)
                    })
                    .collect();
                Op::StreamRun(Blob::key(s, 32), Blob::key(s, 12), v)
            }
            15 => Op::XPk(key(s, 32)),
            16 => Op::XDh(key(s, 32), key(s, 32)),
            17 => {
                if s.bool() {
                    Op::EdPk(key(s, 32))
                } else {
                    Op::EdSign(text(s), key(s, 32))
                }
            }
            18 => Op::EdVerify(text(s), key(s, 64), key(s, 32)),
            _ => Op::EdTrue(text(s), Blob::key(s, 32), near(s, 64), near(s, 32)),
        })
    }

    fn fixed(_t: Tier) -> Vec<C18Case> {
        let mut v: Vec<C18Case> = (0..WIDE).map(C18Case::Wide).collect();
        for a in AS {
            for decrypt in [false, true] {
                let lim: u64 = if a == A::ChaPoly { (1 << 38) - 64 } else { (1 << 36) - 33 };
                let mut l = |len, aad, panics| v.push(C18Case::Limit { a, decrypt, len, aad, panics });
                l(lim, 0, false);
                l(lim - 1, 5, false);
                l(1 << 32, 0, false);
                l((1 << 32) - 1, 0, false);
                l(1 << 35, 16, false);
                l(lim + 1, 0, true);
                l(lim + 2, 16, true);
                l(lim + 64, 0, true);
                l(lim + (1 << 32), 0, true);
                l(1 << 39, 0, true);
                if a != A::ChaPoly {
                    l(0, (1 << 61) - 1, false);
                    l(0, 1 << 61, true);
                    l(0, (1 << 61) + 1, true);
                    l(0, (1 << 62) + 7, true);
                }
            }
        }
        // every small length of every length-checked argument
        for n in 0..300usize {
            let b = |n| Blob::Rng(3, n);
            let mut o = |op| v.push(C18Case::One(op));
            for h in HS {
                o(Op::Digest(h, vec![b(n)], n));
                o(Op::Digest(h, vec![b(n)], dig(h)));
                o(Op::Extract(h, b(3), b(n), n));
                o(Op::Expand(h, b(n), b(3), 2 * dig(h)));
                o(Op::Expand(h, b(dig(h)), b(0), n * dig(h)));
                o(Op::Expand(h, b(dig(h)), b(n), 255 * dig(h) - n));
                o(Op::HmacVerify(h, b(n), b(3), b(n)));
            }
            for k in SIZES {
                o(Op::Aes(k, b(n), b(16)));
            }
            for a in AS {
                o(Op::AeadNew(a, b(n)));
                o(Op::Enc { a, key: b(key_len(a)), m: b(5), nonce: b(n), aad: b(2), out: 5 });
                o(Op::Enc { a, key: b(key_len(a)), m: b(n), nonce: b(12), aad: b(2), out: 40 });
                o(Op::Enc { a, key: b(key_len(a)), m: b(40), nonce: b(12), aad: b(2), out: n });
                o(Op::Dec { a, key: b(key_len(a)), c: b(5), nonce: b(12), aad: b(2), tag: b(n), out: 5 });
                o(Op::Dec { a, key: b(key_len(a)), c: b(n), nonce: b(12), aad: b(2), tag: b(16), out: 40 });
                o(Op::Dec { a, key: b(key_len(a)), c: b(5), nonce: b(n), aad: b(2), tag: b(16), out: 5 });
                o(Op::DecTrue { a, key: b(key_len(a)), m: b(40), nonce: b(12), aad: b(2), out: n });
            }
            o(Op::StreamNew(b(n), b(12)));
            o(Op::StreamNew(b(32), b(n)));
            o(Op::StreamRun(b(32), b(12), vec![(true, b(5), 5), (true, b(70), n), (false, b(n), 70), (false, b(n), n)]));
            o(Op::XPk(b(n)));
            o(Op::XDh(b(n), b(32)));
            o(Op::XDh(b(32), b(n)));
            o(Op::EdPk(b(n)));
            o(Op::EdSign(b(n), b(32)));
            o(Op::EdSign(b(1), b(n)));
            o(Op::EdVerify(b(n), b(n), b(32)));
            o(Op::EdTrue(b(3), b(32), n, 32));
            o(Op::EdTrue(b(3), b(32), 64, n));
            o(Op::Verify16(b(n)));
        }
        v
    }

    fn check(c: &C18Case, i: &mut Info) -> Res {
        match c {
            C18Case::One(op) => one(op, i),
            C18Case::Wide(k) => wide(*k, i),
            C18Case::Limit { a, decrypt, len, aad, panics } => limit(*a, *decrypt, *len, *aad, *panics, i),
        }
    }
}

/// Old contents of an output buffer.
fn pattern(n: usize) -> Vec<u8> {
    (0..n).map(|i| (i as u8).wrapping_mul(29) ^ 0xc3).collect()
}

fn judge<T>(what: &str, must_panic: bool, r: Result<T, String>, i: &mut Info) -> Result<Option<T>, Fail> {
    match (r, must_panic) {
        (Ok(_), true) => Err(Fail(format!("{what} returned, although a documented precondition is violated"))),
        (Err(m), false) => Err(Fail(format!("{what} panicked, although every documented precondition holds: {m}"))),
        (Ok(v), false) => {
            i.label("returns");
            Ok(Some(v))
        }
        (Err(_), true) => {
            i.hit("panics as documented");
            Ok(None)
        }
    }
}

fn untouched(what: &str, out: &[u8], r: bool) -> Res {
    if r {
        let old = pattern(out.len());
        ensure!(out == old, "{what} panicked after writing to the output buffer: {}", diff(out, &old));
    }
    Ok(())
}

fn one(op: &Op, i: &mut Info) -> Res {
    let mut long = |n: usize| i.hit_if(n > 64, "input over 64 bytes");
    match op {
        Op::Sha(h, m) => {
            let m = m.bytes();
            long(m.len());
            let d = judge(&format!("hash of {} bytes with {h:?}", m.len()), false, catch(|| f::sha(*h, &m)), i)?.unwrap();
            ensure!(d.len() == dig(*h), "{h:?} digest of {} bytes", d.len());
        }
        Op::Digest(h, ms, n) => {
            let ms: Vec<_> = ms.iter().map(|b| b.bytes()).collect();
            long(ms.iter().map(|m| m.len()).sum());
            let mut out = pattern(*n);
            let bad = *n != dig(*h);
            let what = format!("write_digest of {h:?} into {n} bytes");
            judge(
                &what,
                bad,
                catch(|| {
                    let mut x = f::Hasher::new(*h);
                    ms.iter().for_each(|m| x.update(m));
                    x.write_digest(&mut out)
                }),
                i,
            )?;
            untouched(&what, &out, bad)?;
        }
        Op::Hmac(h, k, ms) => {
            let k = k.bytes();
            let ms: Vec<_> = ms.iter().map(|b| b.bytes()).collect();
            long(k.len() + ms.iter().map(|m| m.len()).sum::<usize>());
            let what = format!("HMAC {h:?} with a key of {} bytes", k.len());
            judge(&what, false, catch(|| f::hmac(*h, &k, &ms.concat())), i)?;
            judge(
                &what,
                false,
                catch(|| {
                    let mut x = f::Mac::new(*h, &k);
                    ms.iter().for_each(|m| x.update(m));
                    x.tag()
                }),
                i,
            )?;
        }
        Op::HmacVerify(h, k, m, t) => {
            let (k, m, t) = (k.bytes(), m.bytes(), t.bytes());
            long(k.len() + m.len());
            judge(&format!("HMAC {h:?} verification of a tag of {} bytes", t.len()), false, catch(|| f::hmac_verify(*h, &k, &m, &t)), i)?;
        }
        Op::Verify16(y) => {
            let y = y.bytes();
            long(y.len());
            judge(&format!("verify_16 of {} bytes", y.len()), false, catch(|| f::verify_16(&[7; 16], &y)), i)?;
        }
        Op::Extract(h, s, k, n) => {
            let (s, k) = (s.bytes(), k.bytes());
            long(s.len() + k.len());
            let mut out = pattern(*n);
            let bad = *n != dig(*h);
            let what = format!("extract with {h:?} into {n} bytes");
            judge(&what, bad, catch(|| f::extract(*h, &s, &k, &mut out)), i)?;
            untouched(&what, &out, bad)?;
        }
        Op::Expand(h, p, info, n) => {
            let (p, info) = (p.bytes(), info.bytes());
            long(info.len() + n);
            let mut out = pattern(*n);
            let bad = p.len() < dig(*h) || *n > 255 * dig(*h);
            let what = format!("expand with {h:?} of a {}-byte key into {n} bytes", p.len());
            judge(&what, bad, catch(|| f::expand(*h, &p, &info, &mut out)), i)?;
            untouched(&what, &out, bad)?;
        }
        Op::Aes(k, key, b) => {
            let (key, b) = (key.bytes(), b.bytes().try_into().unwrap());
            let bad = key.len() != aes_len(*k);
            i.hit_if(!bad, "AES with a right key");
            judge(&format!("{k:?} with a key of {} bytes", key.len()), bad, catch(|| f::Aes::new(*k, &key).permute(&b)), i)?;
        }
        Op::AeadNew(a, key) => {
            let key = key.bytes();
            let bad = key.len() != key_len(*a);
            judge(&format!("{a:?} with a key of {} bytes", key.len()), bad, catch(|| drop(f::Aead::new(*a, &key))), i)?;
        }
        Op::Enc { a, key, m, nonce, aad, out } => {
            let (key, m, nonce, aad) = (key.bytes(), m.bytes(), nonce.bytes(), aad.bytes());
            long(m.len() + aad.len());
            let x = judge("AEAD construction", false, catch(|| f::Aead::new(*a, &key)), i)?.unwrap();
            let mut o = pattern(*out);
            let bad = m.len() != *out || nonce.len() != 12;
            let what = format!("{a:?} encryption of {} bytes into {out} with a nonce of {} bytes", m.len(), nonce.len());
            judge(&what, bad, catch(|| x.encrypt(&m, &nonce, &aad, &mut o)), i)?;
            untouched(&what, &o, bad)?;
        }
        Op::Dec { a, key, c, nonce, aad, tag, out } => {
            let (key, c, nonce, aad, tag) = (key.bytes(), c.bytes(), nonce.bytes(), aad.bytes(), tag.bytes());
            long(c.len() + aad.len());
            let x = judge("AEAD construction", false, catch(|| f::Aead::new(*a, &key)), i)?.unwrap();
            let mut o = pattern(*out);
            let bad = c.len() != *out || nonce.len() != 12;
            let what = format!("{a:?} decryption of {} bytes into {out} with a nonce of {} and a tag of {} bytes", c.len(), nonce.len(), tag.len());
            judge(&what, bad, catch(|| x.decrypt(&c, &nonce, &aad, &tag, &mut o)), i)?;
            untouched(&what, &o, bad)?;
        }
        Op::DecTrue { a, key, m, nonce, aad, out } => {
            let (key, m, nonce, aad) = (key.bytes(), m.bytes(), nonce.bytes(), aad.bytes());
            long(m.len() + aad.len());
            let x = judge("AEAD construction", false, catch(|| f::Aead::new(*a, &key)), i)?.unwrap();
            let mut c = vec![0; m.len()];
            let tag = judge("AEAD encryption", false, catch(|| x.encrypt(&m, &nonce, &aad, &mut c)), i)?.unwrap();
            let mut o = pattern(*out);
            let bad = m.len() != *out;
            let what = format!("{a:?} decryption of a true ciphertext of {} bytes into {out}", m.len());
            judge(&what, bad, catch(|| x.decrypt(&c, &nonce, &aad, &tag, &mut o)), i)?;
            untouched(&what, &o, bad)?;
        }
        Op::StreamNew(k, n) => {
            let (k, n) = (k.bytes(), n.bytes());
            let bad = k.len() != 32 || n.len() != 12;
            judge(&format!("Stream::new with key and nonce of {} and {} bytes", k.len(), n.len()), bad, catch(|| drop(f::stream_new(&k, &n))), i)?;
        }
        Op::StreamRun(k, n, v) => {
            let mut st = judge("Stream::new", false, catch(|| f::stream_new(&k.bytes(), &n.bytes())), i)?.unwrap();
            for (enc, m, n) in v {
                let m = m.bytes();
                let mut o = pattern(*n);
                let bad = m.len() != *n;
                i.hit_if(m.len() > 64, "input over 64 bytes");
                let what = format!("stream {} of {} bytes into {n}", if *enc { "encryption" } else { "decryption" }, m.len());
                judge(&what, bad, catch(|| if *enc { f::stream_encrypt(&mut st, &m, &mut o) } else { f::stream_decrypt(&mut st, &m, &mut o) }), i)?;
                untouched(&what, &o, bad)?;
            }
        }
        Op::XPk(k) => {
            let k = k.bytes();
            i.hit_if(k.len() == 32, "key agreement");
            judge(&format!("curve25519::gen_pk of {} bytes", k.len()), k.len() != 32, catch(|| f::x_gen_pk(&k)), i)?;
        }
        Op::XDh(p, k) => {
            let (p, k) = (p.bytes(), k.bytes());
            let bad = p.len() != 32 || k.len() != 32;
            i.hit_if(!bad, "key agreement");
            judge(&format!("dh of {} and {} bytes", p.len(), k.len()), bad, catch(|| f::x_dh(&p, &k)), i)?;
        }
        Op::EdPk(k) => {
            let k = k.bytes();
            i.hit_if(k.len() == 32, "signature key");
            judge(&format!("ed25519::gen_pk of {} bytes", k.len()), k.len() != 32, catch(|| f::ed_gen_pk(&k)), i)?;
        }
        Op::EdSign(m, k) => {
            let (m, k) = (m.bytes(), k.bytes());
            long(m.len());
            judge(&format!("sign with a key of {} bytes", k.len()), k.len() != 32, catch(|| f::ed_sign(&m, &k)), i)?;
        }
        Op::EdVerify(m, s, p) => {
            let (m, s, p) = (m.bytes(), s.bytes(), p.bytes());
            long(m.len());
            judge(&format!("verify of a signature of {} bytes under a key of {} bytes", s.len(), p.len()), p.len() != 32, catch(|| f::ed_verify(&m, &s, &p)), i)?;
        }
        Op::EdTrue(m, k, sl, pl) => {
            let (m, k) = (m.bytes(), k.bytes());
            i.hit("true signature");
            let mut p = judge("ed25519::gen_pk", false, catch(|| f::ed_gen_pk(&k)), i)?.unwrap().to_vec();
            let mut s = judge("sign", false, catch(|| f::ed_sign(&m, &k)), i)?.unwrap().to_vec();
            s.resize(*sl, 0);
            p.resize(*pl, 0);
            let r = judge(&format!("verify of a signature of {sl} bytes under a key of {pl} bytes"), *pl != 32, catch(|| f::ed_verify(&m, &s, &p)), i)?;
            if let Some(r) = r {
                ensure!(r == (*sl == 64), "verify of a true signature resized to {sl} bytes is {r}");
            }
        }
    }
    Ok(())
}

// Lengths that are right modulo 2^32. The memory is allocated zeroed and never touched by a
// library that checks the length.

const WIDE: usize = 34;
const G4: usize = (1u64 << 32) as usize;

#[allow(dropping_copy_types)]
fn wide(k: usize, i: &mut Info) -> Res {
    if G4 == 0 {
        return Ok(());
    }
    static ONE: std::sync::Mutex<()> = std::sync::Mutex::new(());
    let _g = ONE.lock().unwrap_or_else(|e| e.into_inner());
    let big = vec![0u8; G4 + 80];
    let mut out = vec![0u8; 64];
    let mut none: Vec<u8> = vec![];
    let z = [0u8; 64];
    let keyed = |n: usize| &big[..G4 + n];
    let mut bigout: Vec<u8> = if (20..30).contains(&k) { vec![0u8; G4 + 80] } else { vec![] };
    let r: (&str, Result<(), String>) = match k {
        0..=2 => ("AES with a key of 2^32 + n bytes", catch(|| drop(f::Aes::new(SIZES[k], keyed(aes_len(SIZES[k])))))),
        3..=6 => ("AEAD with a key of 2^32 + n bytes", catch(|| drop(f::Aead::new(AS[k - 3], keyed(key_len(AS[k - 3])))))),
        7..=10 => {
            let x = f::Aead::new(AS[k - 7], &z[..key_len(AS[k - 7])]);
            ("AEAD encryption with a nonce of 2^32 + 12 bytes", catch(|| drop(x.encrypt(&z[..5], keyed(12), &[], &mut out[..5]))))
        }
        11..=14 => {
            let x = f::Aead::new(AS[k - 11], &z[..key_len(AS[k - 11])]);
            ("AEAD encryption of 2^32 + 5 bytes into 5", catch(|| drop(x.encrypt(keyed(5), &z[..12], &[], &mut out[..5]))))
        }
        15..=18 => {
            let x = f::Aead::new(AS[k - 15], &z[..key_len(AS[k - 15])]);
            ("AEAD decryption of 2^32 bytes into none", catch(|| drop(x.decrypt(keyed(0), &z[..12], &[], &z[..16], &mut none))))
        }
        19 => ("stream encryption of 2^32 + 5 bytes into 5", catch(|| f::stream_encrypt(&mut f::stream_new(&z[..32], &z[..12]), keyed(5), &mut out[..5]))),
        20..=23 => {
            let h = HS[k - 20];
            ("write_digest into 2^32 + n bytes", catch(|| f::Hasher::new(h).write_digest(&mut bigout[..G4 + dig(h)])))
        }
        24..=27 => {
            let h = HS[k - 24];
            ("expand into 2^32 + n bytes", catch(|| f::expand(h, &z, &[], &mut bigout[..G4 + 7])))
        }
        28 => ("extract into 2^32 + n bytes", catch(|| f::extract(H::S256, &[], &[], &mut bigout[..G4 + 32]))),
        29 => ("stream encryption of 5 bytes into 2^32 + 5", catch(|| f::stream_encrypt(&mut f::stream_new(&z[..32], &z[..12]), &z[..5], &mut bigout[..G4 + 5]))),
        30 => ("gen_pk of 2^32 + 32 bytes", catch(|| drop(f::x_gen_pk(keyed(32))))),
        31 => ("dh with a public key of 2^32 + 32 bytes", catch(|| drop(f::x_dh(keyed(32), &z[..32])))),
        32 => ("sign with a key of 2^32 + 32 bytes", catch(|| drop(f::ed_sign(&[], keyed(32))))),
        _ => ("verify with a key of 2^32 + 32 bytes", catch(|| drop(f::ed_verify(&[], &z, keyed(32))))),
    };
    judge(r.0, true, r.1, i)?;
    ensure!(out.iter().all(|b| *b == 0), "{} panicked after writing to the output buffer", r.0);
    ensure!(bigout.iter().take(1 << 16).all(|b| *b == 0), "{} panicked after writing to the output buffer", r.0);
    Ok(())
}

// ---- messages at the limit, on memory that faults when touched

#[cfg(unix)]
extern "C" {
    fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}

#[allow(dead_code)]
const NO_MEMORY: i32 = 77;
#[allow(dead_code)]
const PANICKED: i32 = 78;
#[allow(dead_code)]
const RETURNED: i32 = 79;

#[cfg(not(all(unix, target_pointer_width = "64")))]
pub fn limit_child(_: &[String]) -> ! {
    std::process::exit(2)
}
#[cfg(not(all(unix, target_pointer_width = "64")))]
fn limit(_: A, _: bool, _: u64, _: u64, _: bool, _: &mut Info) -> Res {
    Ok(())
}

/// The child: exits with one of the codes above or dies of SIGSEGV.
#[cfg(all(unix, target_pointer_width = "64"))]
pub fn limit_child(a: &[String]) -> ! {
    let p = |i: usize| a[i].parse::<u64>().expect("number");
    let (alg, decrypt, len, aad) = (AS[p(0) as usize], p(1) == 1, p(2) as usize, p(3) as usize);
    unsafe {
        prctl(4, 0, 0, 0, 0); // not dumpable
    }
    let map = |n: usize| unsafe {
        // PROT_NONE, private anonymous without reservation
        let q = mmap(std::ptr::null_mut(), n.max(1), 0, 0x4022, -1, 0);
        if q as isize == -1 {
            std::process::exit(NO_MEMORY);
        }
        q
    };
    let (i, o) = (map(len), map(len));
    let d = if aad < 1 << 40 { map(aad) } else { map(4096) };
    let (input, output, data) = unsafe {
        (
            std::slice::from_raw_parts(std::hint::black_box(i) as *const u8, len),
            std::slice::from_raw_parts_mut(std::hint::black_box(o), len),
            std::slice::from_raw_parts(std::hint::black_box(d) as *const u8, aad),
        )
    };
    let x = f::Aead::new(alg, &[1; 32][..key_len(alg)]);
    let r = catch(|| {
        if decrypt {
            x.decrypt(input, &[2; 12], data, &[3; 16], output);
        } else {
            x.encrypt(input, &[2; 12], data, output);
        }
    });
    std::process::exit(if r.is_err() { PANICKED } else { RETURNED })
}

#[cfg(all(unix, target_pointer_width = "64"))]
fn limit(a: A, decrypt: bool, len: u64, aad: u64, panics: bool, i: &mut Info) -> Res {
    use std::os::unix::process::ExitStatusExt;
    let n = AS.iter().position(|x| *x == a).unwrap();
    let me = std::env::current_exe().expect("current_exe");
    let st = std::process::Command::new(me)
        .args(["limit-child", &n.to_string(), if decrypt { "1" } else { "0" }, &len.to_string(), &aad.to_string()])
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::null())
        .status()
        .expect("child");
    let what = format!("{a:?} {} of {len} bytes with {aad} bytes of associated data", if decrypt { "decryption" } else { "encryption" });
    match (st.code(), st.signal()) {
        (Some(NO_MEMORY), _) => i.label("limit: no address space"),
        (Some(PANICKED), _) if panics => i.hit("over the limit: panics"),
        (None, Some(11 | 7)) if !panics => i.hit("at the limit: accepted"),
        (Some(PANICKED), _) => return Err(Fail(format!("{what} panicked, although it is below the documented limit"))),
        (None, Some(11 | 7)) => return Err(Fail(format!("{what} reached the message, although it is over the documented limit"))),
        (Some(RETURNED), _) => return Err(Fail(format!("{what} returned without reading its input"))),
        x => panic!("limit child: {x:?}"),
    }
    Ok(())
}
