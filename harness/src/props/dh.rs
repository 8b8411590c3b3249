//! C13 X25519, C14 key agreement.
use super::*;
use crate::engine::*;
use crate::ensure;
use crate::src::*;
use refs::big::Big;
use refs::fe::Fe;
use refs::x;

fn p() -> Big {
    Big::from_u64(1).shl(255).sub(&Big::from_u64(19))
}

/// Field element, as 32 bytes, possibly in a non-canonical encoding.
#[derive(Clone, Debug)]
pub enum U {
    Raw(Blob),
    /// public key of a secret key
    Public(Blob),
    /// n
    Small(u64),
    /// p - n (canonical for n >= 1)
    Below(u64),
    /// p + n, n < 19, non-canonical
    Above(u64),
    /// 2^k - 8 + n
    Pow(usize, u64),
    /// a low-order point, by number
    Low(usize),
    /// limbs in radix 2^25.5 at their extremes
    Limbs(u64),
    /// the point whose product with the secret key is this value
    Solved(Box<U>),
}

pub fn low_order() -> Vec<Fe> {
    // x of order 1, 2, 4, 8 on curve and twist
    let mut v = vec![Fe::ZERO, Fe::ONE, Fe::ONE.neg()];
    v.push(Fe::from_le(
        &Big::from_dec("325606250916557431795983626356110631294008115727848805560023387167927233504").to_le(32).try_into().unwrap(),
    ));
    v.push(Fe::from_le(
        &Big::from_dec("39382357235489614581723060781553021112529911719440698176882885853963445705823").to_le(32).try_into().unwrap(),
    ));
    v
}

const LIMB_BITS: [usize; 10] = [26, 25, 26, 25, 26, 25, 26, 25, 26, 25];

impl U {
    pub fn gen(s: &mut Src, deep: bool) -> U {
        match s.weighted(&[5, 3, 2, 3, 2, 2, 2, 3, if deep { 4 } else { 0 }]) {
            0 => U::Raw(Blob::key(s, 32)),
            1 => U::Public(Blob::key(s, 32)),
            2 => U::Small(s.below(40) as u64),
            3 => U::Below(s.below(60) as u64),
            4 => U::Above(s.below(19) as u64),
            5 => U::Pow(s.below(256), s.below(17) as u64),
            6 => U::Low(s.below(5)),
            7 => U::Limbs(s.u64()),
            _ => U::Solved(Box::new(U::gen(s, false))),
        }
    }
    /// None: no such point for this secret key
    pub fn bytes(&self, sk: &[u8; 32]) -> Option<[u8; 32]> {
        let b = match self {
            U::Raw(b) => b.bytes(),
            U::Public(b) => x::base(&b.bytes().try_into().unwrap()).to_vec(),
            U::Small(n) => Big::from_u64(*n).to_le(32),
            U::Below(n) => p().sub(&Big::from_u64(*n)).to_le(32),
            U::Above(n) => p().add(&Big::from_u64(*n)).to_le(32),
            U::Pow(k, n) => {
                let v = Big::from_u64(1).shl(*k).add(&Big::from_u64(*n));
                let v = if v.ge(&Big::from_u64(8)) { v.sub(&Big::from_u64(8)) } else { Big::zero() };
                v.low(256).to_le(32)
            }
            U::Low(k) => low_order()[*k].to_le().to_vec(),
            U::Limbs(seed) => {
                let mut r = Rng::new(*seed);
                let mut v = Big::zero();
                let mut at = 0;
                for w in LIMB_BITS {
                    let full = (1u64 << w) - 1;
                    let x = match mix(r.next()) % 8 {
                        0 => 0,
                        1 => full,
                        2 => 1 << (w - 1),
                        3 => (1 << (w - 1)) - 1,
                        4 => 1,
                        5 => full - 1,
                        _ => mix(r.next()) & full,
                    };
                    v = v.add(&Big::from_u64(x).shl(at));
                    at += w;
                }
                v.to_le(32)
            }
            U::Solved(t) => {
                let v = x::decode_u(&t.bytes(sk)?);
                return x::solve(sk, v);
            }
        };
        Some(b.try_into().unwrap())
    }
}

pub fn scalar(s: &mut Src) -> Blob {
    match s.weighted(&[6, 2, 2]) {
        0 => Blob::Raw(Hex(s.bytes(32))),
        1 => Blob::key(s, 32),
        _ => {
            // near multiples of the group orders
            let n = x::subgroup_order(s.bool());
            let k = Big::from_u64(s.range(1, 16) as u64);
            let v = n.mul(&k).add(&Big::from_u64(s.below(64) as u64)).sub(&Big::from_u64(32));
            Blob::Raw(Hex(v.low(256).to_le(32)))
        }
    }
}

fn dh(pk: &[u8], sk: &[u8]) -> Result<[u8; 32], Fail> {
    lib("dh", || f::x_dh(pk, sk))
}
fn gen_pk(sk: &[u8]) -> Result<[u8; 32], Fail> {
    lib("gen_pk", || f::x_gen_pk(sk))
}

// ---------------------------------------------------------------- C13

pub struct C13;

#[derive(Clone, Debug)]
pub enum C13Case {
    Dh { sk: Blob, u: U, top: bool },
    Pk { sk: Blob },
    /// iterate k, u = x25519(k, u), k
    Chain { sk: Blob, n: usize },
}

impl Prop for C13 {
    type Case = C13Case;
    const ID: &'static str = "C13";
    const RULE: &'static str = "case: secret key (uniform, structured, next to multiples of the group orders) and public value (uniform, public keys, small, next to p and 2^k, non-canonical, low order, extreme limbs, and values solved so that the shared secret is such a value), top bit set or not; key generation; iterated chains. Oracle: independent RFC 7748 ladder over canonical 64-bit-limb arithmetic. Non-trivial: every case; distinct by full case.";
    const CASES: (u64, u64) = (150_000, 3_000_000);

    fn gen(s: &mut Src) -> C13Case {
        match s.weighted(&[6, 2, 1]) {
            0 => C13Case::Dh { sk: scalar(s), u: U::gen(s, true), top: s.one_in(4) },
            1 => C13Case::Pk { sk: scalar(s) },
            _ => C13Case::Chain { sk: scalar(s), n: s.range(1, 6) },
        }
    }

    fn fixed(_t: Tier) -> Vec<C13Case> {
        let mut v = vec![];
        let sks: Vec<Blob> = vec![Blob::Rng(1, 32), Blob::Fill(0, 32), Blob::Fill(0xff, 32), Blob::Rng(2, 32)];
        let mut us: Vec<U> = (0..40).map(U::Small).collect();
        us.extend((0..60).map(U::Below));
        us.extend((0..19).map(U::Above));
        us.extend((0..5).map(U::Low));
        us.extend((0..256).flat_map(|k| [U::Pow(k, 7), U::Pow(k, 8), U::Pow(k, 9)]));
        us.extend((0..200).map(U::Limbs));
        for u in us {
            for sk in &sks {
                for top in [false, true] {
                    v.push(C13Case::Dh { sk: sk.clone(), u: u.clone(), top });
                }
                v.push(C13Case::Dh { sk: sk.clone(), u: U::Solved(Box::new(u.clone())), top: false });
            }
        }
        for i in 0..256 {
            v.push(C13Case::Pk { sk: Blob::Bit(i, 32) });
            v.push(C13Case::Dh { sk: Blob::Bit(i, 32), u: U::Raw(Blob::Rng(i as u64, 32)), top: false });
        }
        v.push(C13Case::Chain { sk: Blob::Bit(3, 32), n: 1000 });
        v
    }

    fn check(c: &C13Case, i: &mut Info) -> Res {
        match c {
            C13Case::Dh { sk, u, top } => {
                let sk: [u8; 32] = sk.bytes().try_into().unwrap();
                let Some(mut b) = u.bytes(&sk) else {
                    i.label("no solution");
                    return Ok(());
                };
                if *top {
                    b[31] |= 128;
                }
                i.hit(match u {
                    U::Raw(_) => "raw public value",
                    U::Public(_) => "public key",
                    U::Solved(_) => "solved secret",
                    U::Low(_) => "low order",
                    U::Above(_) => "non-canonical",
                    U::Limbs(_) => "extreme limbs",
                    _ => "next to a special value",
                });
                i.hit_if(b[31] & 128 != 0, "top bit set");
                i.hit_if(!x::on_curve(x::decode_u(&b)), "on the twist");
                let got = dh(&b, &sk)?;
                let want = x::x25519(&sk, &b);
                ensure!(got == want, "dh of secret key {} and public value {} is {}, RFC 7748 gives {}", hex(&sk), hex(&b), hex(&got), hex(&want));
            }
            C13Case::Pk { sk } => {
                i.hit("key generation");
                let sk: [u8; 32] = sk.bytes().try_into().unwrap();
                let got = gen_pk(&sk)?;
                let want = x::base(&sk);
                ensure!(got == want, "gen_pk({}) is {}, RFC 7748 gives {}", hex(&sk), hex(&got), hex(&want));
            }
            C13Case::Chain { sk, n } => {
                i.hit("chain");
                let mut k: [u8; 32] = sk.bytes().try_into().unwrap();
                let mut u = [0; 32];
                u[0] = 9;
                for _ in 0..*n {
                    i.extra += 1;
                    let got = dh(&u, &k)?;
                    let want = x::x25519(&k, &u);
                    ensure!(got == want, "dh of secret key {} and public value {} is {}, RFC 7748 gives {}", hex(&k), hex(&u), hex(&got), hex(&want));
                    u = k;
                    k = got;
                }
            }
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- C14

pub struct C14;

#[derive(Clone, Debug)]
pub enum C14Case {
    /// any order of a chain of secret keys gives the same value
    Chain { sks: Vec<Blob>, start: Option<U>, order: Vec<usize> },
    /// bits that must not matter: clamped bits of the secret, top bit of the public value
    Bits { sk: Blob, u: U, clear: u8, set: u8 },
    /// another encoding of the same element
    Encoding { sk: Blob, n: u64 },
}

impl Prop for C14 {
    type Case = C14Case;
    const ID: &'static str = "C14";
    const RULE: &'static str = "case: two to four secret keys applied in two different orders to the base point or to a common public value; toggled clamped bits and top bit; the two or more encodings of one field element. Oracle: metamorphic equality between library results. Non-trivial: every case in which the two computations differ in their inputs; distinct by full case.";
    const CASES: (u64, u64) = (90_000, 1_500_000);

    fn gen(s: &mut Src) -> C14Case {
        match s.weighted(&[5, 4, 1]) {
            0 => {
                let k = s.range(2, 4);
                let sks = (0..k).map(|_| scalar(s)).collect();
                let mut order: Vec<usize> = (0..k).collect();
                for i in (1..k).rev() {
                    order.swap(i, s.below(i + 1));
                }
                if order.windows(2).all(|w| w[0] < w[1]) {
                    order.reverse();
                }
                C14Case::Chain { sks, start: s.one_in(3).then(|| U::gen(s, false)), order }
            }
            1 => C14Case::Bits { sk: scalar(s), u: U::gen(s, false), clear: s.byte(), set: s.byte() },
            _ => C14Case::Encoding { sk: scalar(s), n: s.below(19) as u64 },
        }
    }

    fn fixed(_t: Tier) -> Vec<C14Case> {
        let mut v = vec![];
        for n in 0..19 {
            for k in 0..20 {
                v.push(C14Case::Encoding { sk: Blob::Rng(k, 32), n });
            }
        }
        for a in 0..40u64 {
            v.push(C14Case::Chain { sks: vec![Blob::Bit(a as usize * 6, 32), Blob::Rng(a, 32)], start: None, order: vec![1, 0] });
            for m in 0..64 {
                v.push(C14Case::Bits { sk: Blob::Rng(a, 32), u: U::Raw(Blob::Rng(a + 100, 32)), clear: m, set: !m });
            }
        }
        v
    }

    fn check(c: &C14Case, i: &mut Info) -> Res {
        match c {
            C14Case::Chain { sks, start, order } => {
                i.hit("chain in two orders");
                let keys: Vec<Vec<u8>> = sks.iter().map(|b| b.bytes()).collect();
                i.hit_if(keys.len() > 2, "over two parties");
                let go = |ks: &[usize]| -> Result<[u8; 32], Fail> {
                    let (mut v, rest) = match start {
                        None => (gen_pk(&keys[ks[0]])?, &ks[1..]),
                        Some(u) => (u.bytes(&[1; 32]).unwrap(), ks),
                    };
                    for k in rest {
                        v = dh(&v, &keys[*k])?;
                    }
                    Ok(v)
                };
                let a = go(&(0..keys.len()).collect::<Vec<_>>())?;
                let b = go(order)?;
                ensure!(a == b, "secret keys {} in order {order:?} give {} instead of {}", keys.iter().map(|k| hex(k)).collect::<Vec<_>>().join(" "), hex(&b), hex(&a));
            }
            C14Case::Bits { sk, u, clear, set } => {
                i.hit("ignored bits");
                let a: [u8; 32] = sk.bytes().try_into().unwrap();
                let ub = u.bytes(&a).unwrap();
                let mut b = a;
                // bits 0..3 of the first byte, 6..8 of the last
                b[0] ^= clear & 7;
                b[31] ^= set & 0xc0;
                let mut uc = ub;
                uc[31] ^= clear & 128;
                let (x, y) = (dh(&ub, &a)?, dh(&uc, &b)?);
                ensure!(x == y, "dh({}, {}) is {} but dh({}, {}) is {}", hex(&ub), hex(&a), hex(&x), hex(&uc), hex(&b), hex(&y));
                let (x, y) = (gen_pk(&a)?, gen_pk(&b)?);
                ensure!(x == y, "gen_pk({}) is {} but gen_pk({}) is {}", hex(&a), hex(&x), hex(&b), hex(&y));
            }
            C14Case::Encoding { sk, n } => {
                i.hit("two encodings");
                let sk = sk.bytes();
                let (a, b) = (U::Small(*n).bytes(&[0; 32]).unwrap(), U::Above(*n).bytes(&[0; 32]).unwrap());
                let mut r = vec![];
                for u in [a, b] {
                    for top in [0, 128] {
                        let mut u = u;
                        u[31] |= top;
                        r.push((u, dh(&u, &sk)?));
                    }
                }
                for (u, x) in &r {
                    ensure!(*x == r[0].1, "dh({}, {}) is {} but dh({}, ..) is {}", hex(&r[0].0), hex(&sk), hex(&r[0].1), hex(u), hex(x));
                }
            }
        }
        Ok(())
    }
}
