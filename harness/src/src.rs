//! Choice streams: every generated case is a pure function of a byte string. In a random run the
//! bytes come from a seeded PRNG and are recorded; in a replay, a shrink attempt or a libFuzzer
//! run they are given, and reading past the end yields zeros. Zero bytes decode to the simplest
//! alternative everywhere.

pub struct Rng([u64; 2]);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e37_79b9_7f4a_7c15);
    z = (z ^ z >> 30).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ z >> 27).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ z >> 31
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng([mix(seed), mix(seed ^ 0x5555_5555_5555_5555) | 1])
    }
    pub fn next(&mut self) -> u64 {
        let [mut a, b] = self.0;
        let r = a.wrapping_add(b);
        a ^= a << 23;
        self.0 = [b, a ^ b ^ a >> 18 ^ b >> 5];
        r
    }
    pub fn fill(&mut self, out: &mut [u8]) {
        for c in out.chunks_mut(8) {
            let w = mix(self.next()).to_le_bytes();
            c.copy_from_slice(&w[..c.len()]);
        }
    }
}

pub struct Src {
    rng: Option<Rng>,
    pub buf: Vec<u8>,
    pub pos: usize,
    /// where the choices of each length are
    pub lens: Vec<(usize, usize)>,
}

impl Src {
    pub fn random(seed: u64) -> Src {
        Src { rng: Some(Rng::new(seed)), buf: vec![], pos: 0, lens: vec![] }
    }
    pub fn replay(b: &[u8]) -> Src {
        Src { rng: None, buf: b.to_vec(), pos: 0, lens: vec![] }
    }
    /// The given choices, then random ones.
    pub fn extend(b: Vec<u8>, seed: u64) -> Src {
        Src { rng: Some(Rng::new(seed)), buf: b, pos: 0, lens: vec![] }
    }
    fn need(&mut self, n: usize) {
        let end = self.pos + n;
        if let (Some(r), true) = (&mut self.rng, self.buf.len() < end) {
            let old = self.buf.len();
            self.buf.resize(end, 0);
            r.fill(&mut self.buf[old..]);
        }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        self.need(n);
        let mut v: Vec<u8> = self.buf.iter().skip(self.pos).take(n).copied().collect();
        v.resize(n, 0);
        self.pos += n;
        v
    }
    pub fn arr<const N: usize>(&mut self) -> [u8; N] {
        self.bytes(N).try_into().unwrap()
    }
    pub fn byte(&mut self) -> u8 {
        self.bytes(1)[0]
    }
    pub fn u64(&mut self) -> u64 {
        u64::from_le_bytes(self.arr())
    }
    pub fn bool(&mut self) -> bool {
        self.byte() & 1 == 1
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        let w = match n {
            0..=16 => 1,
            17..=0x1000 => 2,
            0x1001..=0x10_0000 => 4,
            _ => 8,
        };
        let mut b = [0; 8];
        b[..w].copy_from_slice(&self.bytes(w));
        (u64::from_le_bytes(b) % n as u64) as usize
    }
    /// uniform in a..=b
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    /// true with probability 1/n
    pub fn one_in(&mut self, n: usize) -> bool {
        self.below(n) == n - 1
    }
    /// index drawn with the given integer weights
    pub fn weighted(&mut self, w: &[usize]) -> usize {
        let mut x = self.below(w.iter().sum());
        for (i, &k) in w.iter().enumerate() {
            if x < k {
                return i;
            }
            x -= k;
        }
        unreachable!()
    }
    pub fn pick<T: Copy>(&mut self, v: &[T]) -> T {
        v[self.below(v.len())]
    }
}

/// Bytes with hex debug output.
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Hex(pub Vec<u8>);

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
pub fn unhex(s: &str) -> Option<Vec<u8>> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(s.get(2 * i..2 * i + 2)?, 16).ok()).collect()
}

impl std::fmt::Debug for Hex {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "x{}", hex(&self.0))
    }
}
impl std::ops::Deref for Hex {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        &self.0
    }
}
impl<const N: usize> From<[u8; N]> for Hex {
    fn from(b: [u8; N]) -> Hex {
        Hex(b.to_vec())
    }
}
impl From<Vec<u8>> for Hex {
    fn from(b: Vec<u8>) -> Hex {
        Hex(b)
    }
}

/// Description of a byte string, small even when the string is long.
#[derive(Clone, PartialEq, Eq, Hash)]
pub enum Blob {
    Raw(Hex),
    Fill(u8, usize),
    Count(u8, usize),
    /// pseudo-random bytes
    Rng(u64, usize),
    /// 32-bit words drawn from extreme values
    Words(u64, usize),
    /// zeros with one bit set
    Bit(usize, usize),
    /// a short pattern repeated
    Rep(Hex, usize),
    /// mostly zeros, a few random bytes
    Sparse(u64, usize),
}

impl std::fmt::Debug for Blob {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self {
            Blob::Raw(h) => write!(f, "{h:?}"),
            Blob::Fill(b, n) => write!(f, "fill({b:#04x};{n})"),
            Blob::Count(b, n) => write!(f, "count({b:#04x};{n})"),
            Blob::Rng(s, n) => write!(f, "prng({s:#x};{n})"),
            Blob::Words(s, n) => write!(f, "words({s:#x};{n})"),
            Blob::Bit(i, n) => write!(f, "bit({i};{n})"),
            Blob::Rep(h, n) => write!(f, "rep({h:?};{n})"),
            Blob::Sparse(s, n) => write!(f, "sparse({s:#x};{n})"),
        }
    }
}

const EXTREMES: [u32; 16] = [
    0, 0xffff_ffff, 1, 0x8000_0000, 0x7fff_ffff, 0xffff_fffe, 0x0000_ffff, 0xffff_0000, 0x0f0f_0f0f, 0x5555_5555,
    0xaaaa_aaaa, 0x0100_0000, 0x00ff_ffff, 0x0000_0080, 0x03ff_ffff, 0x01ff_ffff,
];

impl Blob {
    pub fn len(&self) -> usize {
        match self {
            Blob::Raw(h) => h.len(),
            Blob::Fill(_, n)
            | Blob::Count(_, n)
            | Blob::Rng(_, n)
            | Blob::Words(_, n)
            | Blob::Bit(_, n)
            | Blob::Rep(_, n)
            | Blob::Sparse(_, n) => *n,
        }
    }
    /// The same kind of contents, of another length.
    pub fn with_len(&self, n: usize) -> Blob {
        match self {
            Blob::Raw(h) => Blob::Rep(h.clone(), n),
            Blob::Fill(b, _) => Blob::Fill(*b, n),
            Blob::Count(b, _) => Blob::Count(*b, n),
            Blob::Rng(s, _) => Blob::Rng(*s, n),
            Blob::Words(s, _) => Blob::Words(*s, n),
            Blob::Bit(i, _) => Blob::Bit(*i, n),
            Blob::Rep(h, _) => Blob::Rep(h.clone(), n),
            Blob::Sparse(s, _) => Blob::Sparse(*s, n),
        }
    }
    pub fn bytes(&self) -> Vec<u8> {
        match self {
            Blob::Raw(h) => h.0.clone(),
            Blob::Fill(b, n) => vec![*b; *n],
            Blob::Count(b, n) => (0..*n).map(|i| b.wrapping_add(i as u8)).collect(),
            Blob::Rng(s, n) => {
                let mut v = vec![0; *n];
                Rng::new(*s).fill(&mut v);
                v
            }
            Blob::Words(s, n) => {
                let mut r = Rng::new(*s);
                let mut v = Vec::with_capacity(n + 4);
                while v.len() < *n {
                    v.extend(EXTREMES[(mix(r.next()) & 15) as usize].to_le_bytes());
                }
                v.truncate(*n);
                v
            }
            Blob::Bit(i, n) => {
                let mut v = vec![0; *n];
                if *n > 0 {
                    v[i / 8 % n] = 1 << (i % 8);
                }
                v
            }
            Blob::Rep(h, n) => {
                if h.is_empty() {
                    return vec![0; *n];
                }
                h.iter().cycle().take(*n).copied().collect()
            }
            Blob::Sparse(s, n) => {
                let mut v = vec![0; *n];
                let mut r = Rng::new(*s);
                for _ in 0..1 + mix(r.next()) % 4 {
                    if *n > 0 {
                        let x = mix(r.next());
                        v[((x >> 8) % *n as u64) as usize] = x as u8;
                    }
                }
                v
            }
        }
    }
    pub fn gen(s: &mut Src, n: usize) -> Blob {
        match s.weighted(&[if n <= 512 { 6 } else { 0 }, 2, 1, 6, 2, 1, 1, 1]) {
            0 => Blob::Raw(Hex(s.bytes(n))),
            1 => Blob::Fill(s.pick(&[0, 0xff, 0x80, 1, 0x7f, 0x36, 0x5c]), n),
            2 => Blob::Count(s.byte(), n),
            3 => Blob::Rng(s.u64(), n),
            4 => Blob::Words(s.u64(), n),
            5 => Blob::Bit(s.below(8 * n.max(1)), n),
            6 => {
                let k = s.range(1, 20);
                Blob::Rep(Hex(s.bytes(k)), n)
            }
            _ => Blob::Sparse(s.u64(), n),
        }
    }
    /// Key-like material: mostly uniform, sometimes structured.
    pub fn key(s: &mut Src, n: usize) -> Blob {
        match s.weighted(&[12, 1, 2, 1, 1]) {
            0 => Blob::Raw(Hex(s.bytes(n))),
            1 => Blob::Fill(s.pick(&[0, 0xff, 0x80, 1, 0x7f]), n),
            2 => Blob::Words(s.u64(), n),
            3 => Blob::Bit(s.below(8 * n.max(1)), n),
            _ => Blob::Sparse(s.u64(), n),
        }
    }
}

thread_local! {
    static CAP: std::cell::Cell<usize> = const { std::cell::Cell::new(usize::MAX) };
}
/// Upper bound on what `len` gives on this thread.
pub fn set_cap(n: usize) {
    CAP.with(|c| c.set(n))
}

/// 2^k - 1, 2^k and 2^k + 1 for k in lo..=hi.
pub fn pows(lo: u32, hi: u32) -> impl Iterator<Item = usize> {
    (lo..=hi).flat_map(|k| (1usize << k) - 1..=(1 << k) + 1)
}

/// Lengths: small ones, block boundaries, and now and then long ones.
pub fn len(s: &mut Src, block: usize, max: usize) -> usize {
    let start = s.pos;
    let n = match s.weighted(&[5, 5, 3, 2, 1, 1]) {
        0 => s.range(0, 2 * block + 2),
        1 => {
            let k = s.range(0, 9);
            (k * block + s.range(0, 4)).saturating_sub(2)
        }
        2 => s.range(0, 5 * block),
        3 => s.range(0, 600),
        4 => {
            let k = s.range(0, 70);
            (k * block + s.range(0, 2)).saturating_sub(1)
        }
        _ => {
            let bits = s.range(9, 17);
            s.below(1 << bits)
        }
    };
    s.lens.push((start, s.pos));
    n.min(max).min(CAP.with(|c| c.get()))
}

/// The choices that make `len` give `n`.
pub fn len_choices(n: u32) -> [u8; 7] {
    let [a, b, c, _] = (n & 0x1_ffff).to_le_bytes();
    [16, 0, 8, a, b, c, 0]
}
