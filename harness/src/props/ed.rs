//! C15 Ed25519 keys and signatures, C16 completeness and binding, C17 exact acceptance.
use super::*;
use crate::engine::*;
use crate::ensure;
use crate::src::*;
use refs::big::Big;
use refs::ed::{self, Pt};
use refs::fe::Fe;
use std::sync::OnceLock;

fn gen_pk(sk: &[u8]) -> Result<[u8; 32], Fail> {
    lib("gen_pk", || f::ed_gen_pk(sk))
}
fn sign(m: &[u8], sk: &[u8]) -> Result<[u8; 64], Fail> {
    lib("sign", || f::ed_sign(m, sk))
}
fn verify(m: &[u8], sig: &[u8], pk: &[u8]) -> Result<bool, Fail> {
    lib("verify", || f::ed_verify(m, sig, pk))
}

/// Message counters for which SHA-512(prefix || counter), with the prefix of the secret key
/// 01 02 .. 20, needs a carry of 21-bit-limb reduction modulo L that all but one in 2^18 to 2^24
/// hashes do without: found by search over 3 * 10^8 counters. Checked like any other message.
const RARE_NONCES: [u64; 32] = [
    34045, 885799, 1118015, 1462884, 1519978, 2603359, 3617016, 3643089, 4671088, 5023498, 5085899, 6052534, 6606408,
    6812331, 7099144, 7248391, 8119167, 8182916, 8948898, 9434709, 19076313, 29832985, 53335343, 76294369, 131420710,
    149158003, 149980211, 205740879, 235666164, 269047624, 271082488, 279741107,
];
/// The same for SHA-512(R || A || counter) with R = [5]B, A = [7 + 7 * 2^8 + ..]B.
const RARE_CHALLENGES: [u64; 38] = [
    219066, 258295, 805547, 1210489, 1240513, 1722916, 2322146, 4121427, 4337662, 4455292, 4455714, 4579447, 4946669,
    4979136, 5105439, 5107047, 5232597, 5693105, 5706967, 6362698, 3182436, 24623703, 47294971, 58850230, 73501380,
    75578936, 78359314, 81103773, 88372892, 148602638, 153498485, 190358815, 191499913, 200561949, 216288459,
    216836515, 232756094, 254263616,
];
/// The same for h * a + r: secret key counter / 4096, message counter.
const RARE_PRODUCTS: [u64; 6] = [14755838, 1908935, 774835, 682306, 14800745, 6989716];

fn rare_signatures() -> impl Iterator<Item = (Blob, Blob)> {
    let raw = |n: u64| Blob::Raw(n.to_le_bytes().into());
    let key = |n: u64| {
        let mut k = vec![0; 32];
        k[..8].copy_from_slice(&(n / 4096).to_le_bytes());
        Blob::Raw(k.into())
    };
    let a = RARE_NONCES.into_iter().map(move |n| (Blob::Count(1, 32), raw(n)));
    a.chain(RARE_PRODUCTS.into_iter().map(move |n| (key(n), raw(n))))
}

// ---------------------------------------------------------------- C15

pub struct C15;

#[derive(Clone, Debug)]
pub enum C15Case {
    Sign { sk: Blob, m: Blob },
    Key { sk: Blob },
    /// one message per length 0..=n
    Lengths { seed: u64, n: usize },
}

impl Prop for C15 {
    type Case = C15Case;
    const ID: &'static str = "C15";
    const RULE: &'static str = "case: secret key and message (all lengths up to 400, long ones, structured content), or a secret key alone. Oracle: independent RFC 8032 implementation (complete addition law, 64-bit-limb field, big-integer scalars), plus S < L and canonical encodings. Non-trivial: every case; distinct by full case.";
    const CASES: (u64, u64) = (450_000, 12_000_000);

    fn gen(s: &mut Src) -> C15Case {
        if s.one_in(5) {
            return C15Case::Key { sk: Blob::key(s, 32) };
        }
        let sk = Blob::key(s, 32);
        let n = if s.one_in(4) { len(s, 128, 1 << 14) } else { s.range(0, 40) };
        C15Case::Sign { sk, m: Blob::gen(s, n) }
    }

    fn fixed(t: Tier) -> Vec<C15Case> {
        let mut v = vec![C15Case::Sign { sk: Blob::Rng(9, 32), m: Blob::Rng(1, if t == Tier::Quick { 3 << 20 } else { 80 << 20 }) }];
        for seed in 0..if t == Tier::Quick { 4 } else { 64 } {
            v.push(C15Case::Lengths { seed, n: 400 });
        }
        for n in pows(9, 20) {
            v.push(C15Case::Sign { sk: Blob::Rng(n as u64, 32), m: Blob::Rng(1, n) });
        }
        v.extend(rare_signatures().map(|(sk, m)| C15Case::Sign { sk, m }));
        for i in 0..256 {
            v.push(C15Case::Key { sk: Blob::Bit(i, 32) });
            v.push(C15Case::Sign { sk: Blob::Bit(i, 32), m: Blob::Fill(i as u8, i % 130) });
        }
        for b in 0..=255 {
            v.push(C15Case::Sign { sk: Blob::Fill(b, 32), m: Blob::Fill(b, 64) });
        }
        v
    }

    fn check(c: &C15Case, i: &mut Info) -> Res {
        match c {
            C15Case::Key { sk } => {
                i.hit("key generation");
                let sk: [u8; 32] = sk.bytes().try_into().unwrap();
                let (got, want) = (gen_pk(&sk)?, ed::public_key(&sk));
                ensure!(got == want, "gen_pk({}) is {}, RFC 8032 gives {}", hex(&sk), hex(&got), hex(&want));
            }
            C15Case::Sign { sk, m } => {
                i.hit("signature");
                i.hit_if(m.len() > 128, "message over one block");
                let (sk, m) = (sk.bytes().try_into().unwrap(), m.bytes());
                one(&sk, &m)?;
            }
            C15Case::Lengths { seed, n } => {
                i.hit("length sweep");
                let sk = Blob::Rng(*seed, 32).bytes().try_into().unwrap();
                let m = Blob::Rng(seed + 77, *n).bytes();
                for l in 0..=*n {
                    i.extra += 1;
                    one(&sk, &m[..l])?;
                }
            }
        }
        Ok(())
    }
}

fn one(sk: &[u8; 32], m: &[u8]) -> Res {
    let got = sign(m, sk)?;
    let want = ed::sign(m, sk);
    ensure!(!Big::from_le(&got[32..]).ge(ed::order()), "signature of {} bytes under {} has S = {}, not below the group order", m.len(), hex(sk), hex(&got[32..]));
    ensure!(got == want, "signature of {} bytes under {}: {}", m.len(), hex(sk), diff(&got, &want));
    Ok(())
}

// ---------------------------------------------------------------- C16

pub struct C16;

#[derive(Clone, Debug)]
pub enum Alt {
    None,
    SigBit(usize),
    SigByte(usize, u8),
    MsgBit(usize),
    MsgCut(usize),
    MsgAppend(Hex),
    MsgOther(Blob),
    KeyOf(Blob),
    /// S + n L
    AddL(u64),
    /// -S, -R
    NegS,
    NegR,
    SwapHalves,
    Cut(usize),
    Append(Hex),
    /// signature of another message by the same key
    SigOf(Blob),
}

#[derive(Clone, Debug)]
pub enum C16Case {
    Alt { sk: Blob, m: Blob, alts: Vec<Alt> },
    /// all single-bit changes of the signature and of the message
    Bits { seed: u64, n: usize },
}

fn alt(s: &mut Src, n: usize) -> Alt {
    match s.weighted(&[2, 6, 2, 3, 1, 1, 1, 2, 2, 1, 1, 1, 1, 1, 1]) {
        0 => Alt::None,
        1 => Alt::SigBit(s.below(512)),
        2 => Alt::SigByte(s.below(64), s.byte()),
        3 => Alt::MsgBit(s.below(8 * n.max(1))),
        4 => Alt::MsgCut(s.below(n.max(1))),
        5 => {
            let k = s.range(1, 70);
            Alt::MsgAppend(Hex(s.bytes(k)))
        }
        6 => {
            let k = s.range(0, 130);
            Alt::MsgOther(Blob::gen(s, k))
        }
        7 => Alt::KeyOf(Blob::key(s, 32)),
        8 => Alt::AddL(s.range(1, 15) as u64),
        9 => Alt::NegS,
        10 => Alt::NegR,
        11 => Alt::SwapHalves,
        12 => Alt::Cut(s.below(64)),
        13 => {
            let k = s.range(1, 65);
            Alt::Append(Hex(s.bytes(k)))
        }
        _ => {
            let k = s.range(0, 130);
            Alt::SigOf(Blob::gen(s, k))
        }
    }
}

impl Prop for C16 {
    type Case = C16Case;
    const ID: &'static str = "C16";
    const RULE: &'static str = "case: secret key, message and up to five alterations of signature, message or key (single bits, cut, appended, S + nL, negated halves, signatures of other messages, other keys); enumerations: every single-bit change. Oracle: verify(sign) is true; an alteration that changes anything makes it false. Non-trivial: at least one alteration that differs from the original, or a long message; distinct by full case.";
    const CASES: (u64, u64) = (160_000, 4_000_000);

    fn gen(s: &mut Src) -> C16Case {
        let n = if s.one_in(4) { len(s, 128, 1 << 13) } else { s.range(0, 60) };
        let (sk, m) = (Blob::key(s, 32), Blob::gen(s, n));
        let k = s.range(1, 5);
        C16Case::Alt { sk, m, alts: (0..k).map(|_| alt(s, n)).collect() }
    }

    fn fixed(t: Tier) -> Vec<C16Case> {
        let mut v: Vec<C16Case> = (0..if t == Tier::Quick { 24 } else { 600 }).map(|seed| C16Case::Bits { seed, n: [0, 1, 5, 31, 64, 127, 128, 129][seed as usize % 8] }).collect();
        for n in pows(9, 20) {
            let alts = vec![
                Alt::None,
                Alt::MsgBit(8 * n - 1),
                Alt::MsgBit(8 * (n / 2)),
                Alt::MsgBit(0),
                Alt::MsgCut(n - 1),
                Alt::MsgAppend(Hex(vec![0])),
                Alt::SigBit(n % 512),
                Alt::AddL(1),
                Alt::SigOf(Blob::Rng(1, n - 1)),
            ];
            v.push(C16Case::Alt { sk: Blob::Rng(n as u64, 32), m: Blob::Rng(1, n), alts });
        }
        v.extend(rare_signatures().map(|(sk, m)| C16Case::Alt { sk, m, alts: vec![Alt::None] }));
        for n in 0..400 {
            v.push(C16Case::Alt { sk: Blob::Rng(n, 32), m: Blob::Rng(n + 1, n as usize), alts: vec![Alt::None, Alt::AddL(1)] });
        }
        for b in 0..=255 {
            v.push(C16Case::Alt { sk: Blob::Fill(b, 32), m: Blob::Fill(b, 3), alts: vec![Alt::NegR, Alt::KeyOf(Blob::Fill(!b, 32))] });
        }
        v
    }

    fn check(c: &C16Case, i: &mut Info) -> Res {
        match c {
            C16Case::Alt { sk, m, alts } => {
                let (sk, m) = (sk.bytes(), m.bytes());
                let pk = gen_pk(&sk)?;
                let sig = sign(&m, &sk)?;
                i.hit_if(m.len() > 128, "message over one block");
                ensure!(verify(&m, &sig, &pk)?, "signature of {} bytes under secret key {} does not verify", m.len(), hex(&sk));
                for a in alts {
                    i.extra += 1;
                    let (mut m2, mut sig2, mut pk2) = (m.clone(), sig.to_vec(), pk.to_vec());
                    match a {
                        Alt::None => {}
                        Alt::SigBit(b) => sig2[b / 8] ^= 1 << (b % 8),
                        Alt::SigByte(k, x) => sig2[*k] = *x,
                        Alt::MsgBit(b) => {
                            if let Some(x) = m2.get_mut(b / 8) {
                                *x ^= 1 << (b % 8);
                            }
                        }
                        Alt::MsgCut(k) => m2.truncate(*k),
                        Alt::MsgAppend(h) => m2.extend_from_slice(h),
                        Alt::MsgOther(b) => m2 = b.bytes(),
                        Alt::KeyOf(b) => pk2 = gen_pk(&b.bytes())?.to_vec(),
                        Alt::AddL(n) => {
                            let v = Big::from_le(&sig2[32..]).add(&ed::order().mul(&Big::from_u64(*n)));
                            sig2[32..].copy_from_slice(&v.to_le(32));
                        }
                        Alt::NegS => {
                            let v = ed::order().sub(&Big::from_le(&sig2[32..]));
                            sig2[32..].copy_from_slice(&v.to_le(32));
                        }
                        Alt::NegR => sig2[31] ^= 128,
                        Alt::SwapHalves => sig2.rotate_left(32),
                        Alt::Cut(n) => sig2.truncate(*n),
                        Alt::Append(h) => sig2.extend_from_slice(h),
                        Alt::SigOf(b) => sig2 = sign(&b.bytes(), &sk)?.to_vec(),
                    }
                    let same = m2 == m && sig2 == sig && pk2 == pk;
                    if same {
                        i.label("nothing altered");
                    } else {
                        i.hit("altered");
                    }
                    let got = verify(&m2, &sig2, &pk2)?;
                    ensure!(
                        got == same,
                        "verify is {got} after {a:?} of the signature of {} bytes under secret key {}: signature {} public key {}",
                        m.len(),
                        hex(&sk),
                        hex(&sig2),
                        hex(&pk2)
                    );
                }
            }
            C16Case::Bits { seed, n } => {
                i.hit("all single-bit changes");
                let (sk, m) = (Blob::Rng(*seed, 32).bytes(), Blob::Rng(seed + 5, *n).bytes());
                let pk = gen_pk(&sk)?;
                let sig = sign(&m, &sk)?;
                ensure!(verify(&m, &sig, &pk)?, "signature of {n} bytes under secret key {} does not verify", hex(&sk));
                for b in 0..512 {
                    i.extra += 1;
                    let mut s2 = sig;
                    s2[b / 8] ^= 1 << (b % 8);
                    ensure!(!verify(&m, &s2, &pk)?, "signature with bit {b} changed verifies: {} under {}", hex(&s2), hex(&pk));
                }
                for b in 0..8 * n {
                    i.extra += 1;
                    let mut m2 = m.clone();
                    m2[b / 8] ^= 1 << (b % 8);
                    ensure!(!verify(&m2, &sig, &pk)?, "signature {} verifies for a message with bit {b} changed, under {}", hex(&sig), hex(&pk));
                }
                for b in 0..256 {
                    i.extra += 1;
                    let mut p2 = pk;
                    p2[b / 8] ^= 1 << (b % 8);
                    ensure!(!verify(&m, &sig, &p2)?, "signature {} verifies under the public key {} with bit {b} changed", hex(&sig), hex(&pk));
                }
            }
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- C17

pub struct C17;

/// A public key together with what the generator knows about its discrete logarithm.
#[derive(Clone, Debug)]
pub enum Key {
    /// [a]B + torsion point t
    Known { a: Blob, t: usize },
    /// small-order point
    Small(usize),
    /// another encoding of a small-order point, not acceptable
    BadSmall(usize),
    /// any bytes
    Raw(Blob),
    /// y = n or p - n, with sign
    Near(u64, bool, bool),
    /// y off the curve for which a decoder without a check gets degenerate coordinates
    Degenerate(usize),
    /// y = 2^k - 8 + n
    Pow(usize, u64, bool),
}

/// The scalar that R is made from; it is also S when the key has no known logarithm.
#[derive(Clone, Debug)]
pub enum Sc {
    Raw(Blob),
    Small(u64),
    /// L - n
    Below(u64),
    /// 2^k - 8 + n, reduced
    Pow(usize, u64),
    /// runs of ones and zeros, reduced
    Runs(u64),
}

#[derive(Clone, Debug)]
pub enum Tweak {
    /// S + n L
    AddL(u64),
    /// S replaced
    SetS(Sc),
    /// S = L + n
    AboveL(u64),
    /// top bits of S set
    STop(u8),
    SBit(usize),
    RBit(usize),
    /// R replaced by another encoding of the same small-order point
    AliasR(usize),
    /// R replaced by the encoding of a small-order point
    SmallR(usize),
    ZeroR,
    Cut(usize),
    Append(Hex),
    MsgBit(usize),
    PkBit(usize),
    /// use the other encoding of the key, if it has one
    AliasPk(usize),
}

#[derive(Clone, Debug)]
pub enum C17Case {
    Forge {
        key: Key,
        r: Sc,
        m: Blob,
        /// wanted k mod 8 (found by varying the message)
        c: usize,
        /// torsion error added to R: 0 satisfies the equation exactly
        e: usize,
        tweaks: Vec<Tweak>,
    },
    Raw { m: Blob, sig: Blob, pk: Blob },
    /// a signature made by the reference
    Signed { sk: Blob, m: Blob },
    /// every pair of encodings of small-order points as A and R
    Pairs { a: usize, s: u64 },
}

fn p() -> Big {
    Big::from_u64(1).shl(255).sub(&Big::from_u64(19))
}

/// All encodings that a lenient decoder would take for small-order points: (bytes, canonical).
pub fn small_encodings() -> &'static Vec<([u8; 32], [u8; 32])> {
    static V: OnceLock<Vec<([u8; 32], [u8; 32])>> = OnceLock::new();
    V.get_or_init(|| {
        let mut v: Vec<_> = ed::torsion().iter().map(|t| (t.encode(), t.encode())).collect();
        let enc = |y: &Big, sign: bool| {
            let mut b: [u8; 32] = y.to_le(32).try_into().unwrap();
            b[31] |= u8::from(sign) << 7;
            b
        };
        let one = Big::from_u64(1);
        let m1 = p().sub(&one);
        v.push((enc(&one, true), enc(&one, false)));
        v.push((enc(&p().add(&one), false), enc(&one, false)));
        v.push((enc(&p().add(&one), true), enc(&one, false)));
        v.push((enc(&m1, true), enc(&m1, false)));
        v.push((enc(&p(), false), enc(&Big::zero(), false)));
        v.push((enc(&p(), true), enc(&Big::zero(), true)));
        v
    })
}

/// y off the curve with x^2 = y^2 or x^2 = y^2 - 2 for the x a decoder computes before checking.
fn degenerate() -> &'static Vec<[u8; 32]> {
    static V: OnceLock<Vec<[u8; 32]>> = OnceLock::new();
    V.get_or_init(|| {
        let d = ed::d();
        let mut v = vec![[0xfe; 32]];
        let im = Fe::sqrt_m1();
        let half = Fe::from_u64(2).inv();
        for i in [im, im.neg(), Fe::ONE.neg(), Fe::ONE] {
            for shift in [0u64, 2] {
                // i (w - 1) = (w - shift)(d w + 1), w = y^2:
                // d w^2 + (1 - shift d - i) w + (i - shift) = 0
                let s = Fe::from_u64(shift);
                let b = Fe::ONE.sub(s.mul(d)).sub(i);
                let c = i.sub(s);
                let disc = b.sq().sub(Fe::from_u64(4).mul(d).mul(c));
                let Some(r) = disc.sqrt() else { continue };
                for r in [r, r.neg()] {
                    let w = r.sub(b).mul(half).mul(d.inv());
                    if let Some(y) = w.sqrt() {
                        for y in [y, y.neg()] {
                            v.push(y.to_le());
                            let mut t = y.to_le();
                            t[31] |= 128;
                            v.push(t);
                        }
                    }
                }
            }
        }
        v
    })
}

impl Sc {
    fn gen(s: &mut Src) -> Sc {
        match s.weighted(&[4, 1, 1, 2, 2]) {
            0 => Sc::Raw(Blob::Raw(Hex(s.bytes(32)))),
            1 => Sc::Small(s.below(40) as u64),
            2 => Sc::Below(1 + s.below(40) as u64),
            3 => Sc::Pow(s.below(253), s.below(17) as u64),
            _ => Sc::Runs(s.u64()),
        }
    }
    fn value(&self) -> Big {
        match self {
            Sc::Raw(b) => ed::reduce(&b.bytes()),
            Sc::Small(n) => Big::from_u64(*n),
            Sc::Below(n) => ed::order().sub(&Big::from_u64(*n)),
            Sc::Pow(k, n) => {
                let v = Big::from_u64(1).shl(*k).add(&Big::from_u64(*n));
                let v = if v.ge(&Big::from_u64(8)) { v.sub(&Big::from_u64(8)) } else { v };
                v.rem(ed::order())
            }
            Sc::Runs(seed) => {
                let mut r = Rng::new(*seed);
                let mut v = [0u8; 32];
                let (mut at, mut bit) = (0, mix(r.next()) & 1);
                while at < 253 {
                    let n = 1 + (mix(r.next()) % if mix(r.next()) & 3 == 0 { 60 } else { 8 }) as usize;
                    for k in at..(at + n).min(253) {
                        v[k / 8] |= (bit as u8) << (k % 8);
                    }
                    at += n;
                    bit ^= 1;
                }
                ed::reduce(&v)
            }
        }
    }
}

impl Key {
    fn gen(s: &mut Src) -> Key {
        match s.weighted(&[8, 5, 3, 2, 2, 1, 1]) {
            0 => Key::Known { a: Blob::key(s, 32), t: if s.bool() { 0 } else { s.below(8) } },
            1 => Key::Small(s.below(8)),
            2 => Key::BadSmall(s.below(6)),
            3 => Key::Raw(Blob::key(s, 32)),
            4 => Key::Near(s.below(60) as u64, s.bool(), s.bool()),
            5 => Key::Degenerate(s.below(degenerate().len())),
            _ => Key::Pow(s.below(255), s.below(17) as u64, s.bool()),
        }
    }
    /// (encoding, known multiple of B, torsion part)
    fn make(&self) -> ([u8; 32], Option<Big>, Pt) {
        let id = Pt::identity();
        match self {
            Key::Known { a, t } => {
                let a = ed::reduce(&a.bytes());
                let t = ed::torsion()[*t];
                (ed::mul_base(&a).add(t).encode(), Some(a), t)
            }
            Key::Small(t) => (ed::torsion()[*t].encode(), Some(Big::zero()), ed::torsion()[*t]),
            Key::BadSmall(n) => {
                let (b, c) = small_encodings()[8 + n];
                (b, Some(Big::zero()), ed::decode(&c).unwrap())
            }
            Key::Raw(b) => (b.bytes().try_into().unwrap(), None, id),
            Key::Near(n, below, sign) => {
                let v = if *below { p().sub(&Big::from_u64(*n)) } else { Big::from_u64(*n) };
                let mut b: [u8; 32] = v.to_le(32).try_into().unwrap();
                b[31] |= u8::from(*sign) << 7;
                (b, None, id)
            }
            Key::Degenerate(n) => (degenerate()[*n % degenerate().len()], None, id),
            Key::Pow(k, n, sign) => {
                let v = Big::from_u64(1).shl(*k).add(&Big::from_u64(*n));
                let v = if v.ge(&Big::from_u64(8)) { v.sub(&Big::from_u64(8)) } else { v };
                let mut b: [u8; 32] = v.to_le(32).try_into().unwrap();
                b[31] = b[31] & 127 | u8::from(*sign) << 7;
                (b, None, id)
            }
        }
    }
}

fn tweak(s: &mut Src) -> Tweak {
    match s.weighted(&[4, 1, 2, 1, 2, 2, 2, 1, 1, 1, 1, 1, 1, 1]) {
        0 => Tweak::AddL(s.range(1, 15) as u64),
        1 => Tweak::SetS(Sc::gen(s)),
        2 => Tweak::AboveL(s.below(1 << 16) as u64),
        3 => Tweak::STop(s.byte()),
        4 => Tweak::SBit(s.below(256)),
        5 => Tweak::RBit(s.below(256)),
        6 => Tweak::AliasR(s.below(3)),
        7 => Tweak::SmallR(s.below(14)),
        8 => Tweak::ZeroR,
        9 => Tweak::Cut(s.below(64)),
        10 => {
            let k = s.range(1, 70);
            Tweak::Append(Hex(s.bytes(k)))
        }
        11 => Tweak::MsgBit(s.below(64)),
        12 => Tweak::PkBit(s.below(256)),
        _ => Tweak::AliasPk(s.below(3)),
    }
}

fn alias(b: &[u8; 32], n: usize) -> [u8; 32] {
    let v: Vec<_> = small_encodings().iter().filter(|(x, c)| c == b && x != b).collect();
    if v.is_empty() {
        *b
    } else {
        v[n % v.len()].0
    }
}

impl Prop for C17 {
    type Case = C17Case;
    const ID: &'static str = "C17";
    const RULE: &'static str = "case: public key (known scalar plus any torsion point, small-order, non-canonical, x = 0 with sign, off-curve, next to 0, p and 2^k, degenerate), signature constructed to satisfy the equation exactly or up to a small-order error, then up to two tweaks (S + nL, S around L, bits, aliased R or key, lengths), or raw bytes; enumeration: all pairs of encodings of small-order points. Oracle: independent strict RFC 8032 verification. Non-trivial: the reference accepts, or the signature satisfies the verification equation up to one deviation (torsion error, tweak, or unacceptable key encoding); distinct by full case.";
    const CASES: (u64, u64) = (400_000, 8_000_000);

    fn gen(s: &mut Src) -> C17Case {
        if s.one_in(12) {
            let n = s.range(0, 40);
            let k = match s.below(4) {
                0 => s.range(0, 200),
                _ => 64,
            };
            return C17Case::Raw { m: Blob::gen(s, n), sig: Blob::gen(s, k), pk: Blob::key(s, 32) };
        }
        let key = Key::gen(s);
        let r = Sc::gen(s);
        let n = if s.one_in(6) { len(s, 128, 3000) } else { s.range(0, 20) };
        let m = Blob::gen(s, n);
        let c = s.below(8);
        let e = if s.one_in(3) { s.below(8) } else { 0 };
        let k = s.weighted(&[3, 4, 1]);
        C17Case::Forge { key, r, m, c, e, tweaks: (0..k).map(|_| tweak(s)).collect() }
    }

    fn fixed(_t: Tier) -> Vec<C17Case> {
        let mut v = vec![];
        for a in 0..14 {
            for s in 0..4 {
                v.push(C17Case::Pairs { a, s });
            }
        }
        let keys: Vec<Key> = (0..8)
            .map(|t| Key::Known { a: Blob::Rng(t as u64, 32), t })
            .chain((0..8).map(Key::Small))
            .chain((0..6).map(Key::BadSmall))
            .collect();
        let m = || Blob::Fill(7, 3);
        for key in &keys {
            for c in 0..8 {
                for e in 0..8 {
                    v.push(C17Case::Forge { key: key.clone(), r: Sc::Raw(Blob::Rng(c as u64, 32)), m: m(), c, e, tweaks: vec![] });
                }
            }
            for n in 1..16 {
                v.push(C17Case::Forge { key: key.clone(), r: Sc::Small(n), m: m(), c: 0, e: 0, tweaks: vec![Tweak::AddL(n)] });
            }
            for n in 0..16 {
                v.push(C17Case::Forge { key: key.clone(), r: Sc::Small(n), m: m(), c: 0, e: 0, tweaks: vec![] });
                v.push(C17Case::Forge { key: key.clone(), r: Sc::Below(n + 1), m: m(), c: 0, e: 0, tweaks: vec![] });
            }
        }
        // S = any special value under a small-order key: both sides of every power of two
        for k in 0..253 {
            for n in 7..10 {
                v.push(C17Case::Forge { key: Key::Small(1 + k % 7), r: Sc::Pow(k, n), m: m(), c: k % 8, e: 0, tweaks: vec![] });
            }
            v.push(C17Case::Forge { key: Key::Small(k % 8), r: Sc::Pow(k, 9), m: m(), c: 1, e: 0, tweaks: vec![Tweak::AddL(1)] });
        }
        for n in 0..300 {
            v.push(C17Case::Forge { key: Key::Small(n as usize % 8), r: Sc::Runs(n), m: m(), c: n as usize / 8 % 8, e: 0, tweaks: vec![] });
            // S = L + n for keys on which S = n would be right
            v.push(C17Case::Forge { key: Key::Small(0), r: Sc::Small(n), m: m(), c: 0, e: 0, tweaks: vec![Tweak::AddL(1)] });
        }
        for b in 0..256 {
            v.push(C17Case::Forge { key: keys[0].clone(), r: Sc::Raw(Blob::Rng(b as u64, 32)), m: m(), c: 0, e: 0, tweaks: vec![Tweak::SBit(b)] });
            v.push(C17Case::Forge { key: keys[0].clone(), r: Sc::Raw(Blob::Rng(b as u64, 32)), m: m(), c: 0, e: 0, tweaks: vec![Tweak::RBit(b)] });
            v.push(C17Case::Forge { key: keys[0].clone(), r: Sc::Raw(Blob::Rng(b as u64, 32)), m: m(), c: 0, e: 0, tweaks: vec![Tweak::PkBit(b)] });
        }
        for n in 0..200 {
            v.push(C17Case::Forge {
                key: keys[0].clone(),
                r: Sc::Small(5),
                m: m(),
                c: 0,
                e: 0,
                tweaks: vec![if n < 64 { Tweak::Cut(n) } else { Tweak::Append(Hex(vec![0; n - 63])) }],
            });
        }
        for n in pows(9, 20) {
            for (r, tweaks) in [(3, vec![]), (4, vec![Tweak::AddL(1)]), (5, vec![Tweak::SBit(n % 252)])] {
                v.push(C17Case::Forge { key: keys[n % keys.len()].clone(), r: Sc::Raw(Blob::Rng(r, 32)), m: Blob::Rng(r, n), c: 0, e: 0, tweaks });
            }
        }
        for n in RARE_CHALLENGES {
            let key = Key::Known { a: Blob::Fill(7, 32), t: 0 };
            v.push(C17Case::Forge { key, r: Sc::Small(5), m: Blob::Raw(n.to_le_bytes().into()), c: 0, e: 0, tweaks: vec![] });
        }
        v.extend(rare_signatures().map(|(sk, m)| C17Case::Signed { sk, m }));
        for d in 0..degenerate().len() {
            for r in [Sc::Small(0), Sc::Small(1), Sc::Small(8), Sc::Raw(Blob::Rng(3, 32))] {
                for t in [Tweak::ZeroR, Tweak::SmallR(0), Tweak::SmallR(13)] {
                    v.push(C17Case::Forge { key: Key::Degenerate(d), r: r.clone(), m: m(), c: 0, e: 0, tweaks: vec![t] });
                }
            }
        }
        v
    }

    fn check(c: &C17Case, i: &mut Info) -> Res {
        match c {
            C17Case::Raw { m, sig, pk } => {
                let (m, sig, pk) = (m.bytes(), sig.bytes(), pk.bytes().try_into().unwrap());
                i.label("raw");
                decide(&m, &sig, &pk, i)
            }
            C17Case::Signed { sk, m } => {
                i.label("signed");
                let (sk, m) = (sk.bytes().try_into().unwrap(), m.bytes());
                decide(&m, &ed::sign(&m, &sk), &ed::public_key(&sk), i)
            }
            C17Case::Pairs { a, s } => {
                i.hit("small-order pairs");
                let pk = small_encodings()[*a].0;
                for (r, _) in small_encodings() {
                    for add in [false, true] {
                        let mut sv = Big::from_u64(*s);
                        if add {
                            sv = sv.add(ed::order());
                        }
                        let mut sig = [0; 64];
                        sig[..32].copy_from_slice(r);
                        sig[32..].copy_from_slice(&sv.to_le(32));
                        for m in 0..20u8 {
                            i.extra += 1;
                            decide(&[m], &sig, &pk, i)?;
                        }
                    }
                }
                Ok(())
            }
            C17Case::Forge { key, r, m, c, e, tweaks } => {
                let (mut pk, a, t) = key.make();
                let r = r.value();
                let c = if t.encode() == Pt::identity().encode() { 0 } else { *c };
                let neg = t.neg().mul(&Big::from_u64(c as u64));
                let rb = ed::mul_base(&r).add(neg).add(ed::torsion()[*e]).encode();
                let mut m = m.bytes();
                // vary the message until k mod 8 is the wanted value
                let mut k = ed::challenge(&rb, &pk, &m);
                if t.encode() != Pt::identity().encode() {
                    let base = m.len();
                    m.extend([0, 0]);
                    for n in 0..60_000u16 {
                        m[base..].copy_from_slice(&n.to_le_bytes());
                        k = ed::challenge(&rb, &pk, &m);
                        if k.low(3) == Big::from_u64(c as u64) {
                            break;
                        }
                    }
                }
                let s = match &a {
                    Some(a) => r.add(&k.mul(a)).rem(ed::order()),
                    None => r,
                };
                let mut sig = rb.to_vec();
                sig.extend(s.to_le(32));
                for t in tweaks {
                    if sig.len() < 64 {
                        break;
                    }
                    match t {
                        Tweak::AddL(n) => {
                            let v = Big::from_le(&sig[32..64]).add(&ed::order().mul(&Big::from_u64(*n)));
                            if v.bits() <= 256 {
                                sig[32..64].copy_from_slice(&v.to_le(32));
                            }
                        }
                        Tweak::SetS(x) => sig[32..64].copy_from_slice(&x.value().to_le(32)),
                        Tweak::AboveL(n) => sig[32..64].copy_from_slice(&ed::order().add(&Big::from_u64(*n)).to_le(32)),
                        Tweak::STop(b) => sig[63] |= b & 0xf0,
                        Tweak::SBit(b) => sig[32 + b / 8] ^= 1 << (b % 8),
                        Tweak::RBit(b) => sig[b / 8] ^= 1 << (b % 8),
                        Tweak::AliasR(n) => {
                            let x = alias(&sig[..32].try_into().unwrap(), *n);
                            sig[..32].copy_from_slice(&x);
                        }
                        Tweak::SmallR(n) => sig[..32].copy_from_slice(&small_encodings()[*n].0),
                        Tweak::ZeroR => sig[..32].fill(0),
                        Tweak::Cut(n) => sig.truncate(*n),
                        Tweak::Append(h) => sig.extend_from_slice(h),
                        Tweak::MsgBit(b) => {
                            if let Some(x) = m.get_mut(b / 8) {
                                *x ^= 1 << (b % 8);
                            }
                        }
                        Tweak::PkBit(b) => pk[b / 8] ^= 1 << (b % 8),
                        Tweak::AliasPk(n) => pk = alias(&pk, *n),
                    }
                }
                i.hit_if(a.is_some() && (*e != 0) as usize + tweaks.len() <= 1, "satisfies the equation up to one deviation");
                i.hit_if(matches!(key, Key::BadSmall(_) | Key::Degenerate(_)), "unacceptable key");
                i.hit_if(matches!(key, Key::Small(_)), "small-order key");
                i.hit_if(matches!(key, Key::Known { t, .. } if *t != 0), "mixed-order key");
                decide(&m, &sig, &pk, i)
            }
        }
    }
}

fn decide(m: &[u8], sig: &[u8], pk: &[u8; 32], i: &mut Info) -> Res {
    let want = ed::verify(m, sig, pk);
    let got = verify(m, sig, pk)?;
    if want {
        i.hit("accepted");
    } else {
        i.label("rejected");
    }
    ensure!(
        got == want,
        "verify is {got}, RFC 8032 says {want}: message {} signature {} public key {}",
        hex(&m[..m.len().min(64)]),
        hex(sig),
        hex(pk)
    );
    Ok(())
}
