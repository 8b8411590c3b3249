//! Poly1305 (RFC 8439 section 2.5) with exact integers, and a solver that finds the message block
//! driving the accumulator to a chosen value.
use crate::big::Big;
use std::sync::OnceLock;

pub fn p() -> &'static Big {
    static P: OnceLock<Big> = OnceLock::new();
    P.get_or_init(|| Big::from_u64(1).shl(130).sub(&Big::from_u64(5)))
}

pub fn modp(x: &Big) -> Big {
    let mut x = x.clone();
    while x.bits() > 130 {
        x = x.low(130).add(&x.shr(130).mul(&Big::from_u64(5)));
    }
    if x.ge(p()) {
        x = x.sub(p());
    }
    x
}

pub fn clamp_r(key: &[u8]) -> Big {
    let r = u128::from_le_bytes(key[..16].try_into().unwrap());
    Big::from_u128(r & 0x0ffffffc_0ffffffc_0ffffffc_0fffffff)
}

pub fn block_value(b: &[u8]) -> Big {
    Big::from_le(b).add(&Big::from_u64(1).shl(8 * b.len()))
}

/// Accumulator after absorbing `m` (16-byte blocks, last one possibly short) into `acc`.
pub fn absorb(acc: &Big, r: &Big, m: &[u8]) -> Big {
    let mut a = acc.clone();
    for b in m.chunks(16) {
        a = modp(&a.add(&block_value(b)).mul(r));
    }
    a
}

/// Accumulator after absorbing n zero blocks of 16 bytes.
pub fn absorb_zeros(acc: &Big, r: &Big, mut n: u64) -> Big {
    // a block maps x to r x + r 2^128; maps a x + b are composed by squaring
    let mut x = acc.clone();
    let mut a = modp(r);
    let mut b = modp(&r.shl(128));
    while n > 0 {
        if n & 1 == 1 {
            x = modp(&modp(&a.mul(&x)).add(&b));
        }
        b = modp(&modp(&a.mul(&b)).add(&b));
        a = modp(&a.mul(&a));
        n >>= 1;
    }
    x
}

pub fn finish(acc: &Big, key: &[u8]) -> [u8; 16] {
    let s = u128::from_le_bytes(key[16..32].try_into().unwrap());
    let a = u128::from_le_bytes(acc.to_le(16).try_into().unwrap());
    a.wrapping_add(s).to_le_bytes()
}

pub fn poly1305(key: &[u8], m: &[u8]) -> [u8; 16] {
    finish(&absorb(&Big::zero(), &clamp_r(key), m), key)
}

/// r^(p-2) mod p
pub fn invert(r: &Big) -> Big {
    let e = p().sub(&Big::from_u64(2));
    let mut x = Big::from_u64(1);
    for i in (0..e.bits()).rev() {
        x = modp(&x.mul(&x));
        if e.bit(i) {
            x = modp(&x.mul(r));
        }
    }
    x
}

/// The 16-byte block b with absorb(absorb(acc, b), tail) == target, if one exists.
pub fn solve(acc: &Big, r: &Big, tail: &[u8], target: &Big) -> Option<[u8; 16]> {
    if r.is_zero() {
        return None;
    }
    let rinv = invert(r);
    let mut want = modp(target);
    // undo the tail
    for b in tail.chunks(16).rev() {
        want = modp(&want.mul(&rinv));
        want = modp(&want.add(p()).sub(&modp(&block_value(b))));
    }
    let v = modp(&modp(&want.mul(&rinv)).add(p()).sub(acc));
    // candidates v, v + p, ... within [2^128, 2^129)
    let lo = Big::from_u64(1).shl(128);
    if v.ge(&lo) && v.bits() == 129 {
        return Some(v.sub(&lo).to_le(16).try_into().unwrap());
    }
    None
}
