//! AES-GCM (SP 800-38D, 96-bit IV) and ChaCha20-Poly1305 (RFC 8439 section 2.8).
use crate::aes::Aes;
use crate::big::Big;
use crate::chacha::ChaCha;
use crate::poly;

/// Multiplication in GF(2^128) with the GCM bit order (SP 800-38D, algorithm 1).
pub fn gf_mul(x: u128, y: u128) -> u128 {
    let r = 0xe1u128 << 120;
    let mut z = 0;
    let mut v = y;
    for i in 0..128 {
        if x >> (127 - i) & 1 == 1 {
            z ^= v;
        }
        v = if v & 1 == 1 { v >> 1 ^ r } else { v >> 1 };
    }
    z
}

/// GHASH state that can also absorb long runs of zero bytes.
pub struct GHash {
    h: u128,
    tab: Vec<[u128; 16]>,
    y: u128,
}

impl GHash {
    pub fn new(h: u128) -> GHash {
        // tab[i][n] = (n placed in nibble i from the top) * h
        let mut tab = vec![[0; 16]; 32];
        for (i, row) in tab.iter_mut().enumerate() {
            for b in 0..4 {
                row[1 << b] = gf_mul(1u128 << (124 - 4 * i + b), h);
            }
            for n in 1..16usize {
                if !n.is_power_of_two() {
                    let hi = 1 << n.ilog2();
                    row[n] = row[hi] ^ row[n ^ hi];
                }
            }
        }
        GHash { h, tab, y: 0 }
    }
    fn mul_h(&self, x: u128) -> u128 {
        let mut z = 0;
        for (i, row) in self.tab.iter().enumerate() {
            z ^= row[(x >> (124 - 4 * i)) as usize & 15];
        }
        z
    }
    pub fn block(&mut self, b: u128) {
        self.y = self.mul_h(self.y ^ b);
    }
    pub fn zero_blocks(&mut self, mut n: u64) {
        let mut p = self.h;
        let mut acc = self.y;
        while n > 0 {
            if n & 1 == 1 {
                acc = gf_mul(acc, p);
            }
            p = gf_mul(p, p);
            n >>= 1;
        }
        self.y = acc;
    }
    pub fn padded(&mut self, m: &[u8]) {
        for c in m.chunks(16) {
            let mut b = [0; 16];
            b[..c.len()].copy_from_slice(c);
            self.block(u128::from_be_bytes(b));
        }
    }
    pub fn value(&self) -> u128 {
        self.y
    }
}

fn inc32(b: &mut [u8; 16]) {
    let c = u32::from_be_bytes(b[12..].try_into().unwrap()).wrapping_add(1);
    b[12..].copy_from_slice(&c.to_be_bytes());
}

pub fn gcm_hash_key(aes: &Aes) -> u128 {
    u128::from_be_bytes(aes.encrypt(&[0; 16]))
}

pub fn gcm_j0(nonce: &[u8]) -> [u8; 16] {
    let mut j = [0; 16];
    j[..12].copy_from_slice(nonce);
    j[15] = 1;
    j
}

pub fn gcm_crypt(aes: &Aes, nonce: &[u8], m: &[u8]) -> Vec<u8> {
    let mut ctr = gcm_j0(nonce);
    let mut out = Vec::with_capacity(m.len());
    for c in m.chunks(16) {
        inc32(&mut ctr);
        let k = aes.encrypt(&ctr);
        out.extend(c.iter().zip(k).map(|(a, b)| a ^ b));
    }
    out
}

pub fn gcm_tag(aes: &Aes, nonce: &[u8], aad: &[u8], ct: &[u8]) -> [u8; 16] {
    let mut g = GHash::new(gcm_hash_key(aes));
    g.padded(aad);
    g.padded(ct);
    g.block((8 * aad.len() as u128) << 64 | 8 * ct.len() as u128);
    (g.value() ^ u128::from_be_bytes(aes.encrypt(&gcm_j0(nonce)))).to_be_bytes()
}

/// GCM encryption over any block cipher.
pub fn gcm_over(cipher: &dyn Fn(&[u8; 16]) -> [u8; 16], nonce: &[u8], aad: &[u8], m: &[u8]) -> (Vec<u8>, [u8; 16]) {
    let j0 = gcm_j0(nonce);
    let mut ctr = j0;
    let mut ct = m.to_vec();
    for c in ct.chunks_mut(16) {
        inc32(&mut ctr);
        c.iter_mut().zip(cipher(&ctr)).for_each(|(a, b)| *a ^= b);
    }
    let mut g = GHash::new(u128::from_be_bytes(cipher(&[0; 16])));
    g.padded(aad);
    g.padded(&ct);
    g.block((8 * aad.len() as u128) << 64 | 8 * m.len() as u128);
    (ct, (g.value() ^ u128::from_be_bytes(cipher(&j0))).to_be_bytes())
}

pub fn chapoly_otk(key: &[u8], nonce: &[u8]) -> [u8; 32] {
    ChaCha::new(key, nonce).block(0)[..32].try_into().unwrap()
}

pub fn chapoly_crypt(key: &[u8], nonce: &[u8], m: &[u8]) -> Vec<u8> {
    let ks = ChaCha::new(key, nonce).keystream(1, 0, m.len());
    m.iter().zip(ks).map(|(a, b)| a ^ b).collect()
}

fn pad16(v: &mut Vec<u8>) {
    while v.len() % 16 != 0 {
        v.push(0);
    }
}

/// The string Poly1305 authenticates.
pub fn chapoly_macdata(aad: &[u8], ct: &[u8]) -> Vec<u8> {
    let mut m = aad.to_vec();
    pad16(&mut m);
    m.extend_from_slice(ct);
    pad16(&mut m);
    m.extend_from_slice(&(aad.len() as u64).to_le_bytes());
    m.extend_from_slice(&(ct.len() as u64).to_le_bytes());
    m
}

pub fn chapoly_tag(key: &[u8], nonce: &[u8], aad: &[u8], ct: &[u8]) -> [u8; 16] {
    poly::poly1305(&chapoly_otk(key, nonce), &chapoly_macdata(aad, ct))
}

/// Final Poly1305 accumulator (before adding s) of an AEAD computation.
pub fn chapoly_acc(key: &[u8], nonce: &[u8], aad: &[u8], ct: &[u8]) -> Big {
    let otk = chapoly_otk(key, nonce);
    poly::absorb(&Big::zero(), &poly::clamp_r(&otk), &chapoly_macdata(aad, ct))
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Alg {
    Gcm128,
    Gcm192,
    Gcm256,
    ChaPoly,
}
pub const ALGS: [Alg; 4] = [Alg::Gcm128, Alg::Gcm192, Alg::Gcm256, Alg::ChaPoly];

impl Alg {
    pub fn key_len(self) -> usize {
        match self {
            Alg::Gcm128 => 16,
            Alg::Gcm192 => 24,
            _ => 32,
        }
    }
}

pub fn seal(alg: Alg, key: &[u8], nonce: &[u8], aad: &[u8], m: &[u8]) -> (Vec<u8>, [u8; 16]) {
    if alg == Alg::ChaPoly {
        let ct = chapoly_crypt(key, nonce, m);
        let tag = chapoly_tag(key, nonce, aad, &ct);
        (ct, tag)
    } else {
        let aes = Aes::new(key);
        let ct = gcm_crypt(&aes, nonce, m);
        let tag = gcm_tag(&aes, nonce, aad, &ct);
        (ct, tag)
    }
}
