//! Integers modulo 2^255 - 19, four 64-bit limbs, values kept below 2^256.
use std::sync::OnceLock;

#[derive(Clone, Copy, Debug)]
pub struct Fe([u64; 4]);

const P: [u64; 4] = [0xffff_ffff_ffff_ffed, u64::MAX, u64::MAX, 0x7fff_ffff_ffff_ffff];

fn add4(a: &[u64; 4], b: &[u64; 4]) -> ([u64; 4], u64) {
    let mut r = [0; 4];
    let mut c = 0u128;
    for i in 0..4 {
        c += u128::from(a[i]) + u128::from(b[i]);
        r[i] = c as u64;
        c >>= 64;
    }
    (r, c as u64)
}

fn sub4(a: &[u64; 4], b: &[u64; 4]) -> ([u64; 4], bool) {
    let mut r = [0; 4];
    let mut borrow = false;
    for i in 0..4 {
        let (x, b1) = a[i].overflowing_sub(b[i]);
        let (x, b2) = x.overflowing_sub(u64::from(borrow));
        r[i] = x;
        borrow = b1 || b2;
    }
    (r, borrow)
}

impl Fe {
    pub const ZERO: Fe = Fe([0; 4]);
    pub const ONE: Fe = Fe([1, 0, 0, 0]);

    pub fn from_u64(x: u64) -> Fe {
        Fe([x, 0, 0, 0])
    }
    /// All 256 bits count (no masking), reduced modulo p.
    pub fn from_le(b: &[u8; 32]) -> Fe {
        let mut l = [0; 4];
        for i in 0..4 {
            l[i] = u64::from_le_bytes(b[8 * i..8 * i + 8].try_into().unwrap());
        }
        Fe(l)
    }
    pub fn canon(self) -> [u64; 4] {
        let mut x = self.0;
        loop {
            let (d, borrow) = sub4(&x, &P);
            if borrow {
                return x;
            }
            x = d;
        }
    }
    pub fn to_le(self) -> [u8; 32] {
        let mut o = [0; 32];
        for (i, l) in self.canon().iter().enumerate() {
            o[8 * i..8 * i + 8].copy_from_slice(&l.to_le_bytes());
        }
        o
    }
    pub fn eq(self, o: Fe) -> bool {
        self.canon() == o.canon()
    }
    pub fn is_zero(self) -> bool {
        self.canon() == [0; 4]
    }
    pub fn is_odd(self) -> bool {
        self.canon()[0] & 1 == 1
    }
    pub fn add(self, o: Fe) -> Fe {
        let (r, c) = add4(&self.0, &o.0);
        // 2^256 = 38
        let (r, c) = add4(&r, &[38 * c, 0, 0, 0]);
        let (r, _) = add4(&r, &[38 * c, 0, 0, 0]);
        Fe(r)
    }
    pub fn neg(self) -> Fe {
        let c = self.canon();
        Fe(sub4(&P, &c).0)
    }
    pub fn sub(self, o: Fe) -> Fe {
        self.add(o.neg())
    }
    pub fn mul(self, o: Fe) -> Fe {
        let mut t = [0u64; 8];
        for i in 0..4 {
            let mut c = 0u128;
            for j in 0..4 {
                c += u128::from(t[i + j]) + u128::from(self.0[i]) * u128::from(o.0[j]);
                t[i + j] = c as u64;
                c >>= 64;
            }
            t[i + 4] = c as u64;
        }
        let mut r = [0u64; 4];
        let mut c = 0u128;
        for i in 0..4 {
            c += u128::from(t[i]) + 38 * u128::from(t[i + 4]);
            r[i] = c as u64;
            c >>= 64;
        }
        let (r, c) = add4(&r, &[38 * c as u64, 0, 0, 0]);
        let (r, _) = add4(&r, &[38 * c, 0, 0, 0]);
        Fe(r)
    }
    pub fn sq(self) -> Fe {
        self.mul(self)
    }
    /// self^e, e little-endian limbs.
    pub fn pow(self, e: &[u64; 4]) -> Fe {
        let mut r = Fe::ONE;
        for i in (0..256).rev() {
            r = r.sq();
            if e[i / 64] >> (i % 64) & 1 == 1 {
                r = r.mul(self);
            }
        }
        r
    }
    pub fn inv(self) -> Fe {
        self.pow(&[P[0] - 2, P[1], P[2], P[3]])
    }
    pub fn is_square(self) -> bool {
        // Euler: x^((p-1)/2) is 0 or 1
        let e = self.pow(&[0xffff_ffff_ffff_fff6, u64::MAX, u64::MAX, 0x3fff_ffff_ffff_ffff]);
        e.is_zero() || e.eq(Fe::ONE)
    }
    pub fn sqrt_m1() -> Fe {
        static S: OnceLock<Fe> = OnceLock::new();
        // 2^((p-1)/4)
        *S.get_or_init(|| Fe::from_u64(2).pow(&[0xffff_ffff_ffff_fffb, u64::MAX, u64::MAX, 0x1fff_ffff_ffff_ffff]))
    }
    /// A square root, if there is one.
    pub fn sqrt(self) -> Option<Fe> {
        // candidate x^((p+3)/8)
        let c = self.pow(&[0xffff_ffff_ffff_fffe, u64::MAX, u64::MAX, 0x0fff_ffff_ffff_ffff]);
        if c.sq().eq(self) {
            return Some(c);
        }
        let c = c.mul(Fe::sqrt_m1());
        c.sq().eq(self).then_some(c)
    }
}
