//! The generic constructions of the library over primitives of a caller's own (property C22).
use crypto_pure::aes::BlockCipher;
use crypto_pure::gcm::{AeadCipher, Gcm};
use crypto_pure::hmac::Hmac;
use crypto_pure::sha2::HashFunction;

fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e37_79b9_7f4a_7c15);
    z = (z ^ z >> 30).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ z >> 27).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ z >> 31
}

/// A function of all bytes of `m` and of the sizes, `d` bytes long.
pub fn toy_hash(d: usize, b: usize, m: &[u8]) -> Vec<u8> {
    let mut h = mix((d << 8 | b) as u64);
    for c in m.chunks(8) {
        let mut w = [0; 8];
        w[..c.len()].copy_from_slice(c);
        h = mix(h ^ u64::from_le_bytes(w)).wrapping_add(c.len() as u64);
    }
    (0..d).map(|i| (mix(h ^ i as u64 / 8) >> (8 * (i % 8))) as u8).collect()
}

/// A hash function with digests of D bytes that calls B bytes its block.
#[derive(Clone, Debug, Default)]
pub struct ToyHash<const D: usize, const B: usize>(Vec<u8>);

impl<const D: usize, const B: usize> HashFunction for ToyHash<D, B> {
    const DIGEST_SIZE: usize = D;
    const BLOCK_SIZE: usize = B;
    fn update(&mut self, input: &[u8]) {
        self.0.extend_from_slice(input)
    }
    fn write_digest(self, output: &mut [u8]) {
        output.copy_from_slice(&toy_hash(D, B, &self.0))
    }
}

/// (digest size, block size)
pub const SHAPES: [(usize, usize); 14] = [
    (1, 1), (1, 128), (2, 3), (8, 8), (16, 16), (16, 64), (20, 64), (28, 29), (32, 127), (33, 40), (48, 104), (63, 65), (64, 64), (64, 72),
];

macro_rules! by_shape {
    ($s:expr, $t:ident => $e:expr) => {
        by_shape!(@ $s, $t => $e; 0 1 1, 1 1 128, 2 2 3, 3 8 8, 4 16 16, 5 16 64, 6 20 64, 7 28 29, 8 32 127, 9 33 40, 10 48 104, 11 63 65, 12 64 64, 13 64 72)
    };
    (@ $s:expr, $t:ident => $e:expr; $($i:literal $d:literal $b:literal),*) => {
        match $s {
            $($i => { type $t = ToyHash<$d, $b>; assert_eq!(SHAPES[$i], ($d, $b)); $e })*
            x => unreachable!("shape {x}"),
        }
    };
}

pub fn hmac(shape: usize, key: &[u8], pieces: &[&[u8]]) -> Vec<u8> {
    by_shape!(shape, T => {
        let mut x = Hmac::<T>::new(key);
        for p in pieces {
            x.update(p);
        }
        x.tag().to_vec()
    })
}
pub fn verify(shape: usize, key: &[u8], m: &[u8], tag: &[u8]) -> bool {
    by_shape!(shape, T => crypto_pure::hmac::verify::<T>(key, m, tag))
}
pub fn extract(shape: usize, salt: &[u8], ikm: &[u8], prk: &mut [u8]) {
    by_shape!(shape, T => crypto_pure::hkdf::extract::<T>(salt, ikm, prk))
}
pub fn expand(shape: usize, prk: &[u8], info: &[u8], okm: &mut [u8]) {
    by_shape!(shape, T => crypto_pure::hkdf::expand::<T>(prk, info, okm))
}

/// A keyed permutation of the blocks. Keys may have any length; the first byte says what kind it
/// is, and the next 16, if there, where it sends the zero block.
#[derive(Clone, Debug)]
pub struct ToyCipher {
    kind: u8,
    seed: u64,
    shift: u128,
}

impl ToyCipher {
    fn raw(&self, x: u128) -> u128 {
        match self.kind {
            0 => x,
            1 => x.rotate_left((self.seed % 128) as u32),
            _ => {
                // a Feistel network
                let (mut l, mut r) = ((x >> 64) as u64, x as u64);
                for i in 0..4 {
                    (l, r) = (r, l ^ mix(r ^ mix(self.seed ^ i)));
                }
                (l as u128) << 64 | r as u128
            }
        }
    }
}

impl BlockCipher for ToyCipher {
    fn new(key: &[u8]) -> Self {
        let seed = toy_hash(8, 0, key).iter().fold(0, |a, b| a << 8 | *b as u64);
        let mut c = ToyCipher { kind: key.first().map_or(3, |b| b % 4), seed, shift: 0 };
        c.shift = match key.get(1..17) {
            Some(h) if c.kind != 3 => u128::from_be_bytes(h.try_into().expect("16 bytes")) ^ c.raw(0),
            _ => 0,
        };
        c
    }
    fn permute(&self, input: &[u8; 16]) -> [u8; 16] {
        (self.raw(u128::from_be_bytes(*input)) ^ self.shift).to_be_bytes()
    }
}

pub struct ToyGcm(Gcm<ToyCipher>);

impl ToyGcm {
    pub fn new(key: &[u8]) -> ToyGcm {
        ToyGcm(Gcm::new(key))
    }
    pub fn encrypt(&self, m: &[u8], nonce: &[u8], aad: &[u8], out: &mut [u8]) -> [u8; 16] {
        self.0.encrypt(m, nonce, aad, out)
    }
    pub fn decrypt(&self, c: &[u8], nonce: &[u8], aad: &[u8], tag: &[u8], out: &mut [u8]) -> bool {
        self.0.decrypt(c, nonce, aad, tag, out)
    }
}

/// What the block cipher does, for the reference.
pub fn toy_permute(key: &[u8], b: &[u8; 16]) -> [u8; 16] {
    ToyCipher::new(key).permute(b)
}
