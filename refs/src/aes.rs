//! FIPS 197, straight from the text. The S-box is computed as inversion in GF(2^8) followed by
//! the affine map.
use std::sync::OnceLock;

fn gmul(mut a: u8, mut b: u8) -> u8 {
    let mut r = 0;
    while b != 0 {
        if b & 1 == 1 {
            r ^= a;
        }
        let hi = a & 0x80 != 0;
        a <<= 1;
        if hi {
            a ^= 0x1b;
        }
        b >>= 1;
    }
    r
}

struct Tables {
    sbox: [u8; 256],
    inv: [u8; 256],
    mul: [[u8; 256]; 16],
}

fn tables() -> &'static Tables {
    static T: OnceLock<Tables> = OnceLock::new();
    T.get_or_init(|| {
        let mut sbox = [0; 256];
        let mut inv = [0; 256];
        for x in 0..=255u8 {
            let i = (0..=255u8).find(|&y| gmul(x, y) == 1).unwrap_or(0);
            let bit = |k: u32| i.rotate_right(k) & 1;
            let mut y = 0;
            for k in 0..8 {
                let b = bit(k) ^ bit((k + 4) % 8) ^ bit((k + 5) % 8) ^ bit((k + 6) % 8) ^ bit((k + 7) % 8)
                    ^ (0x63 >> k & 1);
                y |= b << k;
            }
            sbox[x as usize] = y;
            inv[y as usize] = x;
        }
        let mut mul = [[0; 256]; 16];
        for (c, row) in mul.iter_mut().enumerate() {
            for x in 0..=255u8 {
                row[x as usize] = gmul(c as u8, x);
            }
        }
        Tables { sbox, inv, mul }
    })
}

pub struct Aes {
    w: Vec<[u8; 4]>,
    nr: usize,
}

impl Aes {
    /// Panics unless the key has 16, 24 or 32 bytes.
    pub fn new(key: &[u8]) -> Aes {
        let t = tables();
        let nk = match key.len() {
            16 => 4,
            24 => 6,
            32 => 8,
            _ => panic!("key length"),
        };
        let nr = nk + 6;
        let mut w: Vec<[u8; 4]> = key.chunks(4).map(|c| c.try_into().unwrap()).collect();
        let mut rc = 1u8;
        for i in nk..4 * (nr + 1) {
            let mut x = w[i - 1];
            if i % nk == 0 {
                x = [x[1], x[2], x[3], x[0]].map(|b| t.sbox[b as usize]);
                x[0] ^= rc;
                rc = gmul(rc, 2);
            } else if nk == 8 && i % nk == 4 {
                x = x.map(|b| t.sbox[b as usize]);
            }
            let y = w[i - nk];
            w.push([x[0] ^ y[0], x[1] ^ y[1], x[2] ^ y[2], x[3] ^ y[3]]);
        }
        Aes { w, nr }
    }

    fn ark(&self, s: &mut [u8; 16], r: usize) {
        for c in 0..4 {
            for j in 0..4 {
                s[4 * c + j] ^= self.w[4 * r + c][j];
            }
        }
    }

    fn mix(s: &mut [u8; 16], m: [u8; 4]) {
        let t = tables();
        let old = *s;
        for c in 0..4 {
            for i in 0..4 {
                let mut v = 0;
                for j in 0..4 {
                    v ^= t.mul[m[(4 + j - i) % 4] as usize][old[4 * c + j] as usize];
                }
                s[4 * c + i] = v;
            }
        }
    }

    pub fn encrypt(&self, b: &[u8; 16]) -> [u8; 16] {
        let t = tables();
        let mut s = *b;
        self.ark(&mut s, 0);
        for r in 1..=self.nr {
            let mut n = [0; 16];
            for c in 0..4 {
                for i in 0..4 {
                    n[4 * c + i] = t.sbox[s[4 * ((c + i) % 4) + i] as usize];
                }
            }
            s = n;
            if r < self.nr {
                Self::mix(&mut s, [2, 3, 1, 1]);
            }
            self.ark(&mut s, r);
        }
        s
    }

    fn inv_sub_shift(s: [u8; 16]) -> [u8; 16] {
        let t = tables();
        let mut n = [0; 16];
        for c in 0..4 {
            for i in 0..4 {
                n[4 * ((c + i) % 4) + i] = t.inv[s[4 * c + i] as usize];
            }
        }
        n
    }

    pub fn decrypt(&self, b: &[u8; 16]) -> [u8; 16] {
        self.block_for(b, self.nr, 0)
    }

    pub fn rounds(&self) -> usize {
        self.nr
    }

    /// The block whose state in the given round is the given one: after the round key (step 0),
    /// after the columns are mixed (1), the rows shifted (2) or the bytes replaced (3). Round 0
    /// has only step 0, and the last round mixes no columns.
    pub fn block_for(&self, b: &[u8; 16], round: usize, step: usize) -> [u8; 16] {
        let t = tables();
        let mut s = *b;
        for r in (1..=round).rev() {
            let from = if r == round { step } else { 0 };
            if from < 1 {
                self.ark(&mut s, r);
            }
            if from < 2 && r < self.nr {
                Self::mix(&mut s, [14, 11, 13, 9]);
            }
            s = match from {
                3 => s.map(|b| t.inv[b as usize]),
                _ => Self::inv_sub_shift(s),
            };
        }
        self.ark(&mut s, 0);
        s
    }

    /// The key in whose schedule the given words stand from the given place on; it has as many
    /// words.
    pub fn key_for(words: &[[u8; 4]], at: usize) -> Vec<u8> {
        let t = tables();
        let nk = words.len();
        assert!([4, 6, 8].contains(&nk) && at + nk <= 4 * (nk + 7));
        let mut w = vec![[0u8; 4]; at + nk];
        w[at..].copy_from_slice(words);
        for i in (nk..at + nk).rev() {
            let mut x = w[i - 1];
            if i % nk == 0 {
                x = [x[1], x[2], x[3], x[0]].map(|b| t.sbox[b as usize]);
                x[0] ^= (1..i / nk).fold(1, |rc, _| gmul(rc, 2));
            } else if nk == 8 && i % nk == 4 {
                x = x.map(|b| t.sbox[b as usize]);
            }
            let y = w[i];
            w[i - nk] = [x[0] ^ y[0], x[1] ^ y[1], x[2] ^ y[2], x[3] ^ y[3]];
        }
        w[..nk].concat()
    }

    /// The words of the key schedule.
    pub fn schedule(&self) -> &[[u8; 4]] {
        &self.w
    }
}

#[cfg(test)]
mod tests {
    use super::*;

    #[test]
    fn backwards() {
        for nk in [4, 6, 8] {
            let key: Vec<u8> = (0..4 * nk as u8).map(|i| i.wrapping_mul(77) ^ 5).collect();
            let a = Aes::new(&key);
            for at in 0..=4 * (nk + 7) - nk {
                assert_eq!(Aes::key_for(&a.schedule()[at..at + nk], at), key);
            }
            let b = [7; 16];
            assert_eq!(a.decrypt(&a.encrypt(&b)), b);
            assert_eq!(a.encrypt(&a.block_for(&b, a.rounds(), 0)), b);
            // the state after a round of one block gives that block from every round
            for r in 1..=a.rounds() {
                let x = a.block_for(&b, r, 3);
                let mut shifted = [0; 16];
                for c in 0..4 {
                    for i in 0..4 {
                        shifted[4 * c + i] = b[4 * ((c + i) % 4) + i];
                    }
                }
                assert_eq!(a.block_for(&shifted, r, 2), x);
                if r < a.rounds() {
                    Aes::mix(&mut shifted, [2, 3, 1, 1]);
                }
                assert_eq!(a.block_for(&shifted, r, 1), x);
                a.ark(&mut shifted, r);
                assert_eq!(a.block_for(&shifted, r, 0), x);
            }
        }
    }
}
