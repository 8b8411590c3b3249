//! C20: the trace of an operation is the same for all secrets of the same lengths.
use super::aead::{aes_key_len, key_len, solve, steer, Quad, Target};
use super::*;
use crate::engine::*;
use crate::ensure;
use crate::src::*;
use crate::trace;
use f::{AesSize, A, H};

pub struct C20;

/// An operation with its lengths and public inputs; the secrets are one string, cut as needed.
#[derive(Clone, Debug)]
pub enum Op {
    Sha(H, usize),
    ShaPieces(H, Vec<usize>),
    Hmac(H, usize, usize),
    MacPieces(H, usize, Vec<usize>),
    /// tags are right (true) or wrong in all variants
    HmacVerify(H, usize, usize, bool),
    Verify16(bool),
    Extract(H, Blob, usize),
    Expand(H, usize, Blob, usize),
    Aes(AesSize, usize),
    Enc(A, Blob, Blob, usize),
    /// ciphertext is public unless accepted
    Dec(A, Blob, Blob, Blob, bool),
    Stream(Blob, usize, Vec<usize>),
    Dh(Hex),
    GenPk,
    EdPk,
    EdSign(Blob),
}

#[derive(Clone, Debug)]
pub struct C20Case {
    op: Op,
    secrets: Vec<Hex>,
}

#[inline(never)]
fn exec(op: &Op, secret: &[u8]) {
    // copies, so that every variant lies at the same address
    let s = secret.to_vec();
    let mut out = vec![0; 2048.max(s.len())];
    let mut at = 0;
    let mut cut = |n: usize| {
        at += n;
        &s[at - n..at]
    };
    match op {
        Op::Sha(h, n) => {
            f::sha(*h, cut(*n));
        }
        Op::ShaPieces(h, p) => {
            let mut x = f::Hasher::new(*h);
            p.iter().for_each(|n| x.update(cut(*n)));
            x.write_digest(&mut out[..dig(*h)]);
        }
        Op::Hmac(h, k, n) => {
            let k = cut(*k);
            f::hmac(*h, k, cut(*n));
        }
        Op::MacPieces(h, k, p) => {
            let mut x = f::Mac::new(*h, cut(*k));
            p.iter().for_each(|n| x.update(cut(*n)));
            x.tag();
        }
        Op::HmacVerify(h, k, n, _) => {
            let (k, m) = (cut(*k), cut(*n));
            f::hmac_verify(*h, k, m, cut(dig(*h)));
        }
        Op::Verify16(_) => {
            let x = cut(16);
            f::verify_16(x.try_into().unwrap(), cut(16));
        }
        Op::Extract(h, salt, n) => f::extract(*h, &salt.bytes(), cut(*n), &mut out[..dig(*h)]),
        Op::Expand(h, n, info, len) => {
            let mut out = vec![0; *len];
            f::expand(*h, cut(*n), &info.bytes(), &mut out)
        }
        Op::Aes(z, n) => {
            let a = f::Aes::new(*z, cut(aes_key_len(*z)));
            for _ in 0..*n {
                a.permute(cut(16).try_into().unwrap());
            }
        }
        Op::Enc(a, nonce, aad, n) => {
            let x = f::Aead::new(*a, cut(key_len(*a)));
            x.encrypt(cut(*n), &nonce.bytes(), &aad.bytes(), &mut out[..*n]);
        }
        Op::Dec(a, nonce, aad, ct, ok) => {
            let x = f::Aead::new(*a, cut(key_len(*a)));
            let n = ct.len();
            let public = ct.bytes();
            let ct = if *ok { cut(n) } else { &public[..] };
            x.decrypt(ct, &nonce.bytes(), &aad.bytes(), cut(16), &mut out[..n]);
        }
        Op::Stream(nonce, skip, p) => {
            let mut x = f::stream_new(cut(32), &nonce.bytes());
            if *skip > 0 {
                f::stream_nth(&mut x, *skip - 1);
            }
            for (k, n) in p.iter().enumerate() {
                if k % 2 == 0 {
                    f::stream_encrypt(&mut x, cut(*n), &mut out[..*n]);
                } else {
                    f::stream_decrypt(&mut x, cut(*n), &mut out[..*n]);
                }
            }
        }
        Op::Dh(u) => {
            f::x_dh(u, cut(32));
        }
        Op::GenPk => {
            f::x_gen_pk(cut(32));
        }
        Op::EdPk => {
            f::ed_gen_pk(cut(32));
        }
        Op::EdSign(m) => {
            f::ed_sign(&m.bytes(), cut(32));
        }
    }
}

fn total(op: &Op) -> usize {
    match op {
        Op::Sha(_, n) => *n,
        Op::ShaPieces(_, p) => p.iter().sum(),
        Op::Hmac(_, k, n) => k + n,
        Op::MacPieces(_, k, p) => k + p.iter().sum::<usize>(),
        Op::HmacVerify(h, k, n, _) => k + n + dig(*h),
        Op::Verify16(_) => 32,
        Op::Extract(_, _, n) => *n,
        Op::Expand(_, n, ..) => *n,
        Op::Aes(z, n) => aes_key_len(*z) + 16 * n,
        Op::Enc(a, _, _, n) => key_len(*a) + n,
        Op::Dec(a, _, _, ct, ok) => key_len(*a) + 16 + if *ok { ct.len() } else { 0 },
        Op::Stream(_, _, p) => 32 + p.iter().sum::<usize>(),
        Op::Dh(_) | Op::GenPk | Op::EdPk | Op::EdSign(_) => 32,
    }
}

/// A wrong tag: far from, next to, or equal in one part to the right one.
fn wrong(s: &mut Src, right: &[u8]) -> Vec<u8> {
    let mut t = right.to_vec();
    let n = t.len();
    match s.weighted(&[3, 4, 2, 2]) {
        0 => t = Blob::key(s, n).bytes(),
        1 => t[s.below(n)] ^= 1 << s.below(8),
        2 => {
            let k = s.below(n);
            t[..k].fill(s.byte());
        }
        _ => {
            let k = s.below(n);
            t[k..].fill(s.byte());
        }
    }
    if t == right {
        t[n - 1] ^= 0x40;
    }
    t
}

/// Secrets for one variant of the operation.
fn secret(s: &mut Src, op: &Op, before: Option<&Hex>) -> Vec<u8> {
    let n = total(op);
    let mut v = match (before, s.weighted(&[5, 2, 3])) {
        // a neighbour of the first variant
        (Some(b), 2) if n > 0 => {
            let mut v = b.0.clone();
            for _ in 0..s.range(1, 3) {
                v[s.below(n)] ^= 1 << s.below(8);
            }
            v
        }
        (_, 1) => match s.below(3) {
            0 => vec![0; n],
            1 => vec![0xff; n],
            _ => Blob::Words(s.u64(), n).bytes(),
        },
        _ => Blob::Rng(s.u64(), n).bytes(),
    };
    match op {
        Op::HmacVerify(h, k, m, ok) => {
            let want = refs::kdf::hmac(rh(*h), &v[..*k], &v[*k..k + m]);
            let t = if *ok { want } else { wrong(s, &want) };
            v[k + m..].copy_from_slice(&t);
        }
        Op::Verify16(ok) => {
            let x = v[..16].to_vec();
            let t = if *ok { x } else { wrong(s, &x) };
            v[16..].copy_from_slice(&t);
        }
        Op::Enc(a, nonce, aad, m) if *m >= 16 && s.one_in(2) => {
            // message that drives the authenticator into a special state
            let k = key_len(*a);
            let q = Quad { a: *a, key: Blob::Raw(Hex(v[..k].to_vec())), nonce: nonce.clone(), aad: aad.clone(), m: Blob::Raw(Hex(v[k..].to_vec())) };
            if *a == A::ChaPoly {
                let t = Target::gen(s);
                if let Some(x) = solve(&q, s.below(m / 16), !s.one_in(4), &t).filter(|x| x.len() == *m) {
                    v[k..].copy_from_slice(&x);
                }
            } else {
                let x = steer(&q, s.below(m / 16), u128::from_be_bytes(Blob::key(s, 16).bytes().try_into().unwrap()));
                if x.len() == *m {
                    v[k..].copy_from_slice(&x);
                }
            }
        }
        Op::Dec(a, nonce, aad, ct, ok) => {
            let k = key_len(*a);
            let (key, nonce, aad) = (v[..k].to_vec(), nonce.bytes(), aad.bytes());
            let n = ct.len();
            let c = if *ok { v[k..k + n].to_vec() } else { ct.bytes() };
            let right = if *a == A::ChaPoly { refs::aead::chapoly_tag(&key, &nonce, &aad, &c) } else { refs::aead::gcm_tag(&refs::aes::Aes::new(&key), &nonce, &aad, &c) };
            let t = if *ok { right.to_vec() } else { wrong(s, &right) };
            let at = v.len() - 16;
            v[at..].copy_from_slice(&t);
        }
        _ => {}
    }
    v
}

impl Prop for C20 {
    type Case = C20Case;
    const ID: &'static str = "C20";
    const RULE: &'static str = "case: an operation with lengths and public inputs fixed, and 2 to 4 strings of secrets for it (random, constant, extreme words, neighbours in one to three bits; wrong tags far from and next to the right ones; messages solved for special authenticator states; for X25519 also public values solved so that the first secret gives an extreme result). The library, compiled with reports of every edge, variable index, load and store address (and byte comparison), must produce the same trace for all of them. Non-trivial: a trace with at least 50 events and two different secrets; distinct by full case.";
    const CASES: (u64, u64) = (50_000, 500_000);

    fn gen(s: &mut Src) -> C20Case {
        let h = s.pick(&HS);
        let b = blk(h);
        let pieces = |s: &mut Src| {
            let n = s.range(1, 4);
            (0..n).map(|_| len(s, b, 300)).collect::<Vec<_>>()
        };
        let key = |s: &mut Src| s.pick(&[0, 1, 16, 20, 32, 48, 63, 64, 65, 127, 128, 129, 150]);
        let text = |s: &mut Src, max: usize| {
            let n = len(s, 16, max);
            Blob::gen(s, n)
        };
        let op = match s.weighted(&[3, 2, 2, 2, 3, 2, 2, 2, 4, 6, 6, 3, 3, 1, 2, 3]) {
            0 => Op::Sha(h, len(s, b, 600)),
            1 => Op::ShaPieces(h, pieces(s)),
            2 => Op::Hmac(h, key(s), len(s, b, 300)),
            3 => Op::MacPieces(h, key(s), pieces(s)),
            4 => Op::HmacVerify(h, key(s), len(s, b, 200), s.one_in(4)),
            5 => Op::Verify16(s.one_in(4)),
            6 => Op::Extract(h, text(s, 200), len(s, b, 200)),
            7 => {
                let n = dig(h) + if s.bool() { 0 } else { s.below(100) };
                Op::Expand(h, n, text(s, 100), s.below(5 * dig(h)))
            }
            8 => Op::Aes(s.pick(&[AesSize::Aes128, AesSize::Aes192, AesSize::Aes256]), s.range(0, 3)),
            9 => Op::Enc(s.pick(&AS), Blob::key(s, 12), text(s, 100), len(s, 16, 150)),
            10 => Op::Dec(s.pick(&AS), Blob::key(s, 12), text(s, 100), text(s, 150), s.one_in(4)),
            11 => Op::Stream(Blob::key(s, 12), s.pick(&[0, 0, 1, 63, 64, 65, 200]), pieces(s)),
            12 => Op::Dh(Hex(vec![0; 32])),
            13 => Op::GenPk,
            14 => Op::EdPk,
            _ => Op::EdSign(text(s, 300)),
        };
        let n = s.range(2, 4);
        let mut secrets: Vec<Hex> = vec![];
        for _ in 0..n {
            let v = secret(s, &op, secrets.first());
            secrets.push(Hex(v));
        }
        let op = match op {
            Op::Dh(_) => {
                let u = super::dh::U::gen(s, true);
                let sk: [u8; 32] = secrets[0].0.clone().try_into().unwrap();
                let v = u.bytes(&sk).unwrap_or([9; 32]);
                Op::Dh(v.into())
            }
            o => o,
        };
        C20Case { op, secrets }
    }

    fn check(c: &C20Case, i: &mut Info) -> Res {
        let name = match &c.op {
            Op::Sha(..) => "SHA-2",
            Op::ShaPieces(..) => "SHA-2 in pieces",
            Op::Hmac(..) => "HMAC",
            Op::MacPieces(..) => "HMAC in pieces",
            Op::HmacVerify(.., true) => "hmac::verify, right tags",
            Op::HmacVerify(..) => "hmac::verify, wrong tags",
            Op::Verify16(true) => "verify_16, equal",
            Op::Verify16(_) => "verify_16, different",
            Op::Extract(..) => "HKDF extract",
            Op::Expand(..) => "HKDF expand",
            Op::Aes(..) => "AES",
            Op::Enc(A::ChaPoly, ..) => "ChaCha20-Poly1305 encryption",
            Op::Enc(..) => "GCM encryption",
            Op::Dec(.., true) => "decryption, right tags",
            Op::Dec(..) => "decryption, wrong tags",
            Op::Stream(..) => "ChaCha20 stream",
            Op::Dh(_) => "X25519",
            Op::GenPk => "X25519 public key",
            Op::EdPk => "Ed25519 public key",
            Op::EdSign(_) => "Ed25519 signature",
        };
        i.label(name);
        let r = trace::compare(c.secrets.len(), &|k| {
            // a panic is a difference of its own
            let _ = catch(|| exec(&c.op, &c.secrets[k]));
        });
        match r {
            Ok(n) => {
                assert!(n > 0, "no trace: the library is not instrumented");
                i.hit_if(n > 100 && c.secrets[1..].iter().any(|x| *x != c.secrets[0]), "different secrets");
                i.extra += c.secrets.len() as u64 - 1;
                i.count("trace events", n);
                Ok(())
            }
            Err((k, d)) => {
                let (a, b) = (&c.secrets[0], &c.secrets[k]);
                ensure!(false, "{name}: secrets {a:?} and {b:?}: {d}");
                Ok(())
            }
        }
    }
}
