//! RFC 7748 X25519, plus the group facts needed to build special inputs.
use crate::big::Big;
use crate::fe::Fe;

pub fn clamp(k: &[u8; 32]) -> [u8; 32] {
    let mut k = *k;
    k[0] &= 248;
    k[31] &= 127;
    k[31] |= 64;
    k
}

pub fn decode_u(u: &[u8; 32]) -> Fe {
    let mut u = *u;
    u[31] &= 127;
    Fe::from_le(&u)
}

/// u([k]P) for any 255-bit scalar; 0 for the point at infinity.
pub fn ladder(k: &[u8; 32], u: Fe) -> Fe {
    let (mut x2, mut z2, mut x3, mut z3) = (Fe::ONE, Fe::ZERO, u, Fe::ONE);
    for t in (0..255).rev() {
        let bit = k[t / 8] >> (t % 8) & 1 == 1;
        if bit {
            std::mem::swap(&mut x2, &mut x3);
            std::mem::swap(&mut z2, &mut z3);
        }
        let a = x2.add(z2);
        let aa = a.sq();
        let b = x2.sub(z2);
        let bb = b.sq();
        let e = aa.sub(bb);
        let c = x3.add(z3);
        let d = x3.sub(z3);
        let da = d.mul(a);
        let cb = c.mul(b);
        x3 = da.add(cb).sq();
        z3 = u.mul(da.sub(cb).sq());
        x2 = aa.mul(bb);
        z2 = e.mul(aa.add(Fe::from_u64(121_665).mul(e)));
        if bit {
            std::mem::swap(&mut x2, &mut x3);
            std::mem::swap(&mut z2, &mut z3);
        }
    }
    x2.mul(z2.inv())
}

pub fn x25519(k: &[u8; 32], u: &[u8; 32]) -> [u8; 32] {
    ladder(&clamp(k), decode_u(u)).to_le()
}

pub fn base(k: &[u8; 32]) -> [u8; 32] {
    let mut u = [0; 32];
    u[0] = 9;
    x25519(k, &u)
}

/// Is u the abscissa of a point of the curve (as opposed to its twist)?
pub fn on_curve(u: Fe) -> bool {
    u.sq().add(Fe::from_u64(486_662).mul(u)).add(Fe::ONE).mul(u).is_square()
}

/// Prime order of the big subgroup of the curve (true) or of the twist (false).
pub fn subgroup_order(curve: bool) -> Big {
    let c = Big::from_dec("27742317777372353535851937790883648493");
    if curve {
        Big::from_u64(1).shl(252).add(&c)
    } else {
        Big::from_u64(1).shl(253).sub(&c.add(&c).add(&Big::from_u64(9)))
    }
}

/// u-coordinate Q with X25519(k, Q) = v, if v lies in the prime-order subgroup of its curve.
pub fn solve(k: &[u8; 32], v: Fe) -> Option<[u8; 32]> {
    if v.is_zero() {
        return None;
    }
    let n = subgroup_order(on_curve(v));
    // [n]V must be the point at infinity. The ladder reports 0 for it but also for the 2-torsion
    // point (0,0), so the candidate is verified below.
    if !ladder(&n.to_le(32).try_into().unwrap(), v).is_zero() {
        return None;
    }
    let kk = Big::from_le(&clamp(k)).rem(&n);
    if kk.is_zero() {
        return None;
    }
    let inv = kk.modinv(&n);
    let q = ladder(&inv.to_le(32).try_into().unwrap(), v).to_le();
    (x25519(k, &q) == v.to_le()).then_some(q)
}
