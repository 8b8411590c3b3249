//! RFC 8032 Ed25519.
use crate::big::Big;
use crate::fe::Fe;
use crate::sha2::{sha, H};
use std::sync::OnceLock;

/// Extended homogeneous coordinates.
#[derive(Clone, Copy, Debug)]
pub struct Pt {
    x: Fe,
    y: Fe,
    z: Fe,
    t: Fe,
}

pub fn d() -> Fe {
    static D: OnceLock<Fe> = OnceLock::new();
    *D.get_or_init(|| Fe::from_u64(121_665).neg().mul(Fe::from_u64(121_666).inv()))
}

pub fn order() -> &'static Big {
    static L: OnceLock<Big> = OnceLock::new();
    L.get_or_init(|| Big::from_u64(1).shl(252).add(&Big::from_dec("27742317777372353535851937790883648493")))
}

pub fn base() -> Pt {
    static B: OnceLock<Pt> = OnceLock::new();
    *B.get_or_init(|| {
        let y = Fe::from_u64(4).mul(Fe::from_u64(5).inv());
        decode(&y.to_le()).expect("base point")
    })
}

impl Pt {
    pub fn identity() -> Pt {
        Pt { x: Fe::ZERO, y: Fe::ONE, z: Fe::ONE, t: Fe::ZERO }
    }
    pub fn neg(self) -> Pt {
        Pt { x: self.x.neg(), t: self.t.neg(), ..self }
    }
    /// Complete addition law (RFC 8032, 5.1.4).
    pub fn add(self, o: Pt) -> Pt {
        let a = self.y.sub(self.x).mul(o.y.sub(o.x));
        let b = self.y.add(self.x).mul(o.y.add(o.x));
        let c = self.t.mul(d()).mul(o.t);
        let c = c.add(c);
        let dd = self.z.mul(o.z);
        let dd = dd.add(dd);
        let (e, f, g, h) = (b.sub(a), dd.sub(c), dd.add(c), b.add(a));
        Pt { x: e.mul(f), y: g.mul(h), t: e.mul(h), z: f.mul(g) }
    }
    pub fn mul(self, k: &Big) -> Pt {
        let mut r = Pt::identity();
        for i in (0..k.bits()).rev() {
            r = r.add(r);
            if k.bit(i) {
                r = r.add(self);
            }
        }
        r
    }
    /// [a]P + [b]Q
    pub fn mul2(a: &Big, p: Pt, b: &Big, q: Pt) -> Pt {
        let pq = p.add(q);
        let mut r = Pt::identity();
        for i in (0..a.bits().max(b.bits())).rev() {
            r = r.add(r);
            match (a.bit(i), b.bit(i)) {
                (true, true) => r = r.add(pq),
                (true, false) => r = r.add(p),
                (false, true) => r = r.add(q),
                _ => {}
            }
        }
        r
    }
    pub fn encode(self) -> [u8; 32] {
        let zi = self.z.inv();
        let mut s = self.y.mul(zi).to_le();
        s[31] |= u8::from(self.x.mul(zi).is_odd()) << 7;
        s
    }
    pub fn on_curve(self) -> bool {
        let zi = self.z.inv();
        let (x2, y2) = (self.x.mul(zi).sq(), self.y.mul(zi).sq());
        y2.sub(x2).eq(Fe::ONE.add(d().mul(x2).mul(y2)))
    }
}

/// RFC 8032, 5.1.3 (strict).
pub fn decode(s: &[u8; 32]) -> Option<Pt> {
    let sign = s[31] >> 7 == 1;
    let mut b = *s;
    b[31] &= 127;
    let y = Fe::from_le(&b);
    if y.to_le() != b {
        return None;
    }
    let y2 = y.sq();
    let x2 = y2.sub(Fe::ONE).mul(d().mul(y2).add(Fe::ONE).inv());
    let x = x2.sqrt()?;
    if x.is_zero() && sign {
        return None;
    }
    let x = if x.is_odd() == sign { x } else { x.neg() };
    Some(Pt { x, y, z: Fe::ONE, t: x.mul(y) })
}

pub fn reduce(b: &[u8]) -> Big {
    Big::from_le(b).rem(order())
}

/// Clamped secret scalar and prefix.
pub fn expand(sk: &[u8; 32]) -> (Big, [u8; 32]) {
    let h = sha(H::S512, sk);
    let mut a: [u8; 32] = h[..32].try_into().unwrap();
    a[0] &= 248;
    a[31] &= 127;
    a[31] |= 64;
    (Big::from_le(&a), h[32..].try_into().unwrap())
}

fn base_table() -> &'static Vec<[Pt; 16]> {
    // table[i][n] = [n * 16^i] B
    static T: OnceLock<Vec<[Pt; 16]>> = OnceLock::new();
    T.get_or_init(|| {
        let mut v = vec![];
        let mut p = base();
        for _ in 0..64 {
            let mut row = [Pt::identity(); 16];
            for n in 1..16 {
                row[n] = row[n - 1].add(p);
            }
            p = row[15].add(p);
            v.push(row);
        }
        v
    })
}

/// [k]B for k < 2^256, by a table of multiples computed from B itself.
pub fn mul_base(k: &Big) -> Pt {
    let b = k.to_le(32);
    let mut r = Pt::identity();
    for (i, row) in base_table().iter().enumerate() {
        let n = (b[i / 2] >> (4 * (i % 2))) & 15;
        if n != 0 {
            r = r.add(row[n as usize]);
        }
    }
    r
}

pub fn public_key(sk: &[u8; 32]) -> [u8; 32] {
    mul_base(&expand(sk).0).encode()
}

pub fn challenge(r: &[u8], a: &[u8], m: &[u8]) -> Big {
    reduce(&sha(H::S512, &[r, a, m].concat()))
}

/// Signature with an explicitly chosen nonce scalar and secret scalar.
pub fn sign_with(a: &Big, pk: &[u8; 32], rr: &Big, m: &[u8]) -> [u8; 64] {
    let r = mul_base(rr).encode();
    let k = challenge(&r, pk, m);
    let s = rr.add(&k.mul(a)).rem(order());
    let mut sig = [0; 64];
    sig[..32].copy_from_slice(&r);
    sig[32..].copy_from_slice(&s.to_le(32));
    sig
}

pub fn sign(m: &[u8], sk: &[u8; 32]) -> [u8; 64] {
    let (a, prefix) = expand(sk);
    let pk = mul_base(&a).encode();
    let r = reduce(&sha(H::S512, &[&prefix[..], m].concat()));
    sign_with(&a, &pk, &r, m)
}

/// RFC 8032, 5.1.7 with the cofactorless equation.
pub fn verify(m: &[u8], sig: &[u8], pk: &[u8; 32]) -> bool {
    if sig.len() != 64 {
        return false;
    }
    let s = Big::from_le(&sig[32..]);
    if s.ge(order()) {
        return false;
    }
    let Some(a) = decode(pk) else { return false };
    let k = challenge(&sig[..32], pk, m);
    mul_base(&s).add(a.neg().mul(&k)).encode() == sig[..32]
}

/// The eight points of small order.
pub fn torsion() -> &'static Vec<Pt> {
    static T: OnceLock<Vec<Pt>> = OnceLock::new();
    T.get_or_init(|| {
        // [L]P for random P lands in the torsion subgroup; find a generator of order 8.
        let mut i = 0u64;
        loop {
            i += 1;
            let mut y = [0u8; 32];
            y[..8].copy_from_slice(&i.to_le_bytes());
            let Some(p) = decode(&y) else { continue };
            let t = p.mul(order());
            let t4 = t.mul(&Big::from_u64(4));
            if t4.encode() != Pt::identity().encode() {
                let mut v = vec![];
                let mut q = Pt::identity();
                for _ in 0..8 {
                    v.push(q);
                    q = q.add(t);
                }
                return v;
            }
        }
    })
}
