//! Minimal unsigned big integers (little-endian 64-bit limbs, no leading zero limb).
use std::cmp::Ordering;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Big(pub Vec<u64>);

impl Big {
    pub fn zero() -> Big {
        Big(vec![])
    }
    pub fn from_u64(x: u64) -> Big {
        Big(vec![x]).norm()
    }
    pub fn from_u128(x: u128) -> Big {
        Big(vec![x as u64, (x >> 64) as u64]).norm()
    }
    pub fn from_le(b: &[u8]) -> Big {
        let mut v = vec![];
        for c in b.chunks(8) {
            let mut a = [0u8; 8];
            a[..c.len()].copy_from_slice(c);
            v.push(u64::from_le_bytes(a));
        }
        Big(v).norm()
    }
    pub fn from_dec(s: &str) -> Big {
        let ten = Big::from_u64(10);
        s.bytes().fold(Big::zero(), |a, d| a.mul(&ten).add(&Big::from_u64(u64::from(d - b'0'))))
    }
    /// Little-endian encoding, truncated or zero-extended to `n` bytes.
    pub fn to_le(&self, n: usize) -> Vec<u8> {
        let mut v: Vec<u8> = self.0.iter().flat_map(|l| l.to_le_bytes()).collect();
        v.resize(n.max(v.len()), 0);
        v.truncate(n);
        v
    }
    fn norm(mut self) -> Big {
        while self.0.last() == Some(&0) {
            self.0.pop();
        }
        self
    }
    pub fn is_zero(&self) -> bool {
        self.0.is_empty()
    }
    pub fn bits(&self) -> usize {
        match self.0.last() {
            None => 0,
            Some(t) => self.0.len() * 64 - t.leading_zeros() as usize,
        }
    }
    pub fn bit(&self, i: usize) -> bool {
        self.0.get(i / 64).is_some_and(|l| l >> (i % 64) & 1 == 1)
    }
    pub fn cmp(&self, o: &Big) -> Ordering {
        if self.0.len() != o.0.len() {
            return self.0.len().cmp(&o.0.len());
        }
        for (a, b) in self.0.iter().rev().zip(o.0.iter().rev()) {
            if a != b {
                return a.cmp(b);
            }
        }
        Ordering::Equal
    }
    pub fn ge(&self, o: &Big) -> bool {
        self.cmp(o) != Ordering::Less
    }
    pub fn add(&self, o: &Big) -> Big {
        let n = self.0.len().max(o.0.len());
        let mut r = Vec::with_capacity(n + 1);
        let mut c = 0u128;
        for i in 0..n {
            c += u128::from(*self.0.get(i).unwrap_or(&0)) + u128::from(*o.0.get(i).unwrap_or(&0));
            r.push(c as u64);
            c >>= 64;
        }
        r.push(c as u64);
        Big(r).norm()
    }
    /// self - o; panics if negative.
    pub fn sub(&self, o: &Big) -> Big {
        assert!(self.ge(o));
        let mut r = Vec::with_capacity(self.0.len());
        let mut borrow = 0i128;
        for i in 0..self.0.len() {
            let d = i128::from(self.0[i]) - i128::from(*o.0.get(i).unwrap_or(&0)) - borrow;
            borrow = i128::from(d < 0);
            r.push(d as u64);
        }
        Big(r).norm()
    }
    pub fn mul(&self, o: &Big) -> Big {
        let mut r = vec![0u64; self.0.len() + o.0.len()];
        for (i, a) in self.0.iter().enumerate() {
            let mut c = 0u128;
            for (j, b) in o.0.iter().enumerate() {
                c += u128::from(r[i + j]) + u128::from(*a) * u128::from(*b);
                r[i + j] = c as u64;
                c >>= 64;
            }
            r[i + o.0.len()] = c as u64;
        }
        Big(r).norm()
    }
    pub fn shl(&self, n: usize) -> Big {
        let mut r = vec![0u64; n / 64];
        let s = n % 64;
        let mut c = 0u64;
        for l in &self.0 {
            r.push(if s == 0 { *l } else { l << s | c });
            c = if s == 0 { 0 } else { l >> (64 - s) };
        }
        r.push(c);
        Big(r).norm()
    }
    pub fn shr(&self, n: usize) -> Big {
        let k = n / 64;
        let s = n % 64;
        let mut r = vec![];
        for i in k..self.0.len() {
            let hi = *self.0.get(i + 1).unwrap_or(&0);
            r.push(if s == 0 { self.0[i] } else { self.0[i] >> s | hi << (64 - s) });
        }
        Big(r).norm()
    }
    pub fn low(&self, n: usize) -> Big {
        let mut r: Vec<u64> = self.0.iter().take(n.div_ceil(64)).copied().collect();
        if n % 64 != 0 && r.len() == n.div_ceil(64) {
            *r.last_mut().unwrap() &= (1u64 << (n % 64)) - 1;
        }
        Big(r).norm()
    }
    /// Remainder by shift and subtract.
    pub fn rem(&self, m: &Big) -> Big {
        let mut r = self.clone();
        if r.bits() < m.bits() {
            return r;
        }
        let mut s = r.bits() - m.bits();
        loop {
            let t = m.shl(s);
            if r.ge(&t) {
                r = r.sub(&t);
            }
            if s == 0 {
                return r;
            }
            s -= 1;
        }
    }
    pub fn modpow(&self, e: &Big, m: &Big) -> Big {
        let mut r = Big::from_u64(1);
        for i in (0..e.bits()).rev() {
            r = r.mul(&r).rem(m);
            if e.bit(i) {
                r = r.mul(self).rem(m);
            }
        }
        r
    }
    /// Inverse modulo a prime.
    pub fn modinv(&self, p: &Big) -> Big {
        self.modpow(&p.sub(&Big::from_u64(2)), p)
    }
    /// floor of the k-th root, bit by bit.
    pub fn root(&self, k: u32) -> Big {
        let mut r = Big::zero();
        for i in (0..=self.bits() / k as usize).rev() {
            let t = r.add(&Big::from_u64(1).shl(i));
            let mut pw = Big::from_u64(1);
            for _ in 0..k {
                pw = pw.mul(&t);
            }
            if self.ge(&pw) {
                r = t;
            }
        }
        r
    }
}
