//! FIPS 180-4. Constants are derived from the fractional parts of roots of primes.
use crate::big::Big;
use std::sync::OnceLock;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum H {
    S224,
    S256,
    S384,
    S512,
}
pub const ALL: [H; 4] = [H::S224, H::S256, H::S384, H::S512];

impl H {
    pub fn digest_size(self) -> usize {
        match self {
            H::S224 => 28,
            H::S256 => 32,
            H::S384 => 48,
            H::S512 => 64,
        }
    }
    pub fn block_size(self) -> usize {
        match self {
            H::S224 | H::S256 => 64,
            _ => 128,
        }
    }
}

fn primes(n: usize) -> Vec<u64> {
    let mut p = vec![];
    let mut c = 2;
    while p.len() < n {
        if p.iter().all(|q| c % q != 0) {
            p.push(c);
        }
        c += 1;
    }
    p
}

/// First 64 bits of the fractional part of the k-th root of `p`.
fn frac_root(p: u64, k: u32) -> u64 {
    Big::from_u64(p).shl(64 * k as usize).root(k).low(64).0.first().copied().unwrap_or(0)
}

struct Consts {
    k512: [u64; 80],
    k256: [u32; 64],
    iv: [[u64; 8]; 4],
}

fn consts() -> &'static Consts {
    static C: OnceLock<Consts> = OnceLock::new();
    C.get_or_init(|| {
        let p = primes(80);
        let mut k512 = [0; 80];
        let mut k256 = [0; 64];
        for i in 0..80 {
            k512[i] = frac_root(p[i], 3);
        }
        for i in 0..64 {
            k256[i] = (k512[i] >> 32) as u32;
        }
        let mut iv = [[0; 8]; 4];
        for i in 0..8 {
            iv[3][i] = frac_root(p[i], 2);
            iv[2][i] = frac_root(p[i + 8], 2);
            iv[1][i] = iv[3][i] >> 32;
            iv[0][i] = iv[2][i] & 0xffff_ffff;
        }
        Consts { k512, k256, iv }
    })
}

fn block256(s: &mut [u32; 8], m: &[u8], k: &[u32; 64]) {
    let mut w = [0u32; 64];
    for t in 0..16 {
        w[t] = u32::from_be_bytes(m[4 * t..4 * t + 4].try_into().unwrap());
    }
    for t in 16..64 {
        let a = w[t - 15];
        let b = w[t - 2];
        let s0 = a.rotate_right(7) ^ a.rotate_right(18) ^ (a >> 3);
        let s1 = b.rotate_right(17) ^ b.rotate_right(19) ^ (b >> 10);
        w[t] = s1.wrapping_add(w[t - 7]).wrapping_add(s0).wrapping_add(w[t - 16]);
    }
    let [mut a, mut b, mut c, mut d, mut e, mut f, mut g, mut h] = *s;
    for t in 0..64 {
        let t1 = h
            .wrapping_add(e.rotate_right(6) ^ e.rotate_right(11) ^ e.rotate_right(25))
            .wrapping_add((e & f) ^ (!e & g))
            .wrapping_add(k[t])
            .wrapping_add(w[t]);
        let t2 = (a.rotate_right(2) ^ a.rotate_right(13) ^ a.rotate_right(22))
            .wrapping_add((a & b) ^ (a & c) ^ (b & c));
        (h, g, f, e, d, c, b, a) = (g, f, e, d.wrapping_add(t1), c, b, a, t1.wrapping_add(t2));
    }
    for (x, y) in s.iter_mut().zip([a, b, c, d, e, f, g, h]) {
        *x = x.wrapping_add(y);
    }
}

fn block512(s: &mut [u64; 8], m: &[u8], k: &[u64; 80]) {
    let mut w = [0u64; 80];
    for t in 0..16 {
        w[t] = u64::from_be_bytes(m[8 * t..8 * t + 8].try_into().unwrap());
    }
    for t in 16..80 {
        let a = w[t - 15];
        let b = w[t - 2];
        let s0 = a.rotate_right(1) ^ a.rotate_right(8) ^ (a >> 7);
        let s1 = b.rotate_right(19) ^ b.rotate_right(61) ^ (b >> 6);
        w[t] = s1.wrapping_add(w[t - 7]).wrapping_add(s0).wrapping_add(w[t - 16]);
    }
    let [mut a, mut b, mut c, mut d, mut e, mut f, mut g, mut h] = *s;
    for t in 0..80 {
        let t1 = h
            .wrapping_add(e.rotate_right(14) ^ e.rotate_right(18) ^ e.rotate_right(41))
            .wrapping_add((e & f) ^ (!e & g))
            .wrapping_add(k[t])
            .wrapping_add(w[t]);
        let t2 = (a.rotate_right(28) ^ a.rotate_right(34) ^ a.rotate_right(39))
            .wrapping_add((a & b) ^ (a & c) ^ (b & c));
        (h, g, f, e, d, c, b, a) = (g, f, e, d.wrapping_add(t1), c, b, a, t1.wrapping_add(t2));
    }
    for (x, y) in s.iter_mut().zip([a, b, c, d, e, f, g, h]) {
        *x = x.wrapping_add(y);
    }
}

/// Streaming state that only accepts whole blocks until the final call.
#[derive(Clone)]
pub struct State {
    h: H,
    s: [u64; 8],
    blocks: u128,
}

impl State {
    pub fn new(h: H) -> State {
        State { h, s: consts().iv[h as usize], blocks: 0 }
    }
    pub fn absorb_blocks(&mut self, m: &[u8]) {
        let bs = self.h.block_size();
        assert_eq!(m.len() % bs, 0);
        self.blocks += (m.len() / bs) as u128;
        if bs == 64 {
            let mut s = self.s.map(|x| x as u32);
            for b in m.chunks(64) {
                block256(&mut s, b, &consts().k256);
            }
            self.s = s.map(u64::from);
        } else {
            for b in m.chunks(128) {
                block512(&mut self.s, b, &consts().k512);
            }
        }
    }
    pub fn finish(mut self, last: &[u8]) -> Vec<u8> {
        let bs = self.h.block_size();
        let whole = last.len() / bs * bs;
        self.absorb_blocks(&last[..whole]);
        let rest = &last[whole..];
        let bits: u128 = 8 * (self.blocks * bs as u128 + rest.len() as u128);
        let lenlen = bs / 8;
        let mut p = rest.to_vec();
        p.push(0x80);
        while p.len() % bs != bs - lenlen {
            p.push(0);
        }
        p.extend_from_slice(&bits.to_be_bytes()[16 - lenlen..]);
        self.absorb_blocks(&p);
        let mut out = vec![];
        for w in self.s {
            if bs == 64 {
                out.extend_from_slice(&(w as u32).to_be_bytes());
            } else {
                out.extend_from_slice(&w.to_be_bytes());
            }
        }
        out.truncate(self.h.digest_size());
        out
    }
}

pub fn sha(h: H, m: &[u8]) -> Vec<u8> {
    State::new(h).finish(m)
}
