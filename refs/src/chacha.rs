//! RFC 8439 section 2.3 and 2.4.
pub struct ChaCha {
    key: [u32; 8],
    nonce: [u32; 3],
}

fn words<const N: usize>(b: &[u8]) -> [u32; N] {
    assert_eq!(b.len(), 4 * N);
    let mut w = [0; N];
    for i in 0..N {
        w[i] = u32::from_le_bytes(b[4 * i..4 * i + 4].try_into().unwrap());
    }
    w
}

fn qr(s: &mut [u32; 16], a: usize, b: usize, c: usize, d: usize) {
    for (r1, r2) in [(16, 12), (8, 7)] {
        s[a] = s[a].wrapping_add(s[b]);
        s[d] = (s[d] ^ s[a]).rotate_left(r1);
        s[c] = s[c].wrapping_add(s[d]);
        s[b] = (s[b] ^ s[c]).rotate_left(r2);
    }
}

impl ChaCha {
    pub fn new(key: &[u8], nonce: &[u8]) -> ChaCha {
        ChaCha { key: words(key), nonce: words(nonce) }
    }
    pub fn block(&self, counter: u32) -> [u8; 64] {
        let mut s = [0u32; 16];
        s[..4].copy_from_slice(&words::<4>(b"expand 32-byte k"));
        s[4..12].copy_from_slice(&self.key);
        s[12] = counter;
        s[13..].copy_from_slice(&self.nonce);
        let init = s;
        for _ in 0..10 {
            for i in 0..4 {
                qr(&mut s, i, 4 + i, 8 + i, 12 + i);
            }
            for i in 0..4 {
                qr(&mut s, i, 4 + (i + 1) % 4, 8 + (i + 2) % 4, 12 + (i + 3) % 4);
            }
        }
        let mut out = [0; 64];
        for i in 0..16 {
            out[4 * i..4 * i + 4].copy_from_slice(&s[i].wrapping_add(init[i]).to_le_bytes());
        }
        out
    }
    /// Keystream bytes [pos, pos + n) counted from block `first`.
    pub fn keystream(&self, first: u32, pos: u64, n: usize) -> Vec<u8> {
        let mut out = Vec::with_capacity(n + 64);
        let mut b = pos / 64;
        let skip = (pos % 64) as usize;
        while out.len() < skip + n {
            out.extend_from_slice(&self.block(u32::try_from(u64::from(first) + b).expect("past the counter")));
            b += 1;
        }
        out.drain(..skip);
        out.truncate(n);
        out
    }
}
