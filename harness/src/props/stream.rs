//! C11 keystream, C12 cursor semantics.
use super::*;
use crate::engine::*;
use crate::ensure;
use crate::src::*;
use refs::chacha::ChaCha;

// ---------------------------------------------------------------- C11

pub struct C11;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Via {
    Next,
    Encrypt,
    Decrypt,
}

#[derive(Clone, Debug)]
pub enum C11Case {
    At { key: Blob, nonce: Blob, skip: usize, m: Blob, via: Via },
    /// compare windows at power-of-two block positions up to 2^top blocks
    Far { seed: u64, top: u32, via: Via },
    /// first `n` bytes in one call, every length 0..n
    Lengths { seed: u64, n: usize },
}

/// Moves a stream forward by n bytes.
fn advance(st: &mut f::Stream, n: u64) -> Res {
    let buf = vec![0u8; (n as usize).min(1 << 20)];
    let mut out = buf.clone();
    let mut left = n as usize;
    while left > 0 {
        let k = left.min(buf.len());
        lib("encrypt", || f::stream_encrypt(st, &buf[..k], &mut out[..k]))?;
        left -= k;
    }
    Ok(())
}

fn produce(st: &mut f::Stream, m: &[u8], via: Via) -> Result<Vec<u8>, Fail> {
    match via {
        Via::Next => lib("next", || m.iter().map(|b| b ^ f::stream_next(st).expect("the stream is endless")).collect()),
        Via::Encrypt => {
            let mut out = vec![0x5a; m.len()];
            lib("encrypt", || f::stream_encrypt(st, m, &mut out))?;
            Ok(out)
        }
        Via::Decrypt => {
            let mut out = vec![0xa5; m.len()];
            lib("decrypt", || f::stream_decrypt(st, m, &mut out))?;
            Ok(out)
        }
    }
}

impl Prop for C11 {
    type Case = C11Case;
    const ID: &'static str = "C11";
    const RULE: &'static str = "case: key, nonce, start position, message, interface (next, encrypt, decrypt); far cases compare windows around every power-of-two block position (2^28 blocks, or 16 GiB, in quick runs, 2^32 in thorough ones). Oracle: independent RFC 8439 block function with its own counter. Non-trivial: at least one byte produced; distinct by full case.";
    const CASES: (u64, u64) = (400_000, 6_000_000);

    fn gen(s: &mut Src) -> C11Case {
        let skip = match s.weighted(&[4, 4, 2]) {
            0 => 0,
            1 => {
                let k = s.range(0, 40);
                (64 * k + s.range(0, 4)).saturating_sub(2)
            }
            _ => s.below(40_000),
        };
        let n = len(s, 64, 1 << 12);
        C11Case::At { key: Blob::key(s, 32), nonce: Blob::key(s, 12), skip, m: Blob::gen(s, n), via: s.pick(&[Via::Next, Via::Encrypt, Via::Decrypt]) }
    }

    fn fixed(t: Tier) -> Vec<C11Case> {
        let mut v = vec![C11Case::Far { seed: 1, top: 24, via: Via::Encrypt }];
        if t == Tier::Thorough {
            v.insert(0, C11Case::Far { seed: 4, top: 32, via: Via::Encrypt });
        }
        if !cfg!(debug_assertions) {
            v.push(C11Case::Far { seed: 5, top: 28, via: Via::Encrypt });
            v.push(C11Case::Far { seed: 6, top: 24, via: Via::Next });
        }
        v.push(C11Case::Far { seed: 2, top: 20, via: Via::Next });
        v.push(C11Case::Far { seed: 3, top: 20, via: Via::Decrypt });
        for seed in 0..8 {
            v.push(C11Case::Lengths { seed, n: 400 });
        }
        for n in pows(9, 21) {
            for via in [Via::Next, Via::Encrypt, Via::Decrypt] {
                v.push(C11Case::At { key: Blob::Rng(n as u64, 32), nonce: Blob::Rng(5, 12), skip: n % 3, m: Blob::Rng(7, n), via });
                v.push(C11Case::At { key: Blob::Rng(n as u64, 32), nonce: Blob::Rng(5, 12), skip: n, m: Blob::Rng(7, 200), via });
            }
        }
        for bit in 0..256 {
            v.push(C11Case::At { key: Blob::Bit(bit, 32), nonce: Blob::Fill(0, 12), skip: 0, m: Blob::Fill(0, 130), via: Via::Encrypt });
        }
        for bit in 0..96 {
            v.push(C11Case::At { key: Blob::Fill(0, 32), nonce: Blob::Bit(bit, 12), skip: 0, m: Blob::Fill(0, 130), via: Via::Next });
        }
        v
    }

    fn check(c: &C11Case, i: &mut Info) -> Res {
        match c {
            C11Case::At { key, nonce, skip, m, via } => {
                let (k, n, m) = (key.bytes(), nonce.bytes(), m.bytes());
                i.hit_if(!m.is_empty(), "bytes produced");
                i.hit_if(*skip > 0 && !m.is_empty(), "not at the start");
                i.hit_if(m.len() > 64, "several blocks");
                let mut st = lib("Stream::new", || f::stream_new(&k, &n))?;
                advance(&mut st, *skip as u64)?;
                let got = produce(&mut st, &m, *via)?;
                let ks = ChaCha::new(&k, &n).keystream(0, *skip as u64, m.len());
                let want: Vec<u8> = m.iter().zip(&ks).map(|(a, b)| a ^ b).collect();
                ensure!(got == want, "stream at byte {skip}, {via:?} of {} bytes: {}", m.len(), diff(&got, &want));
            }
            C11Case::Lengths { seed, n } => {
                i.hit("length sweep");
                let (k, no) = (Blob::Rng(*seed, 32).bytes(), Blob::Rng(seed + 9, 12).bytes());
                let ks = ChaCha::new(&k, &no).keystream(0, 0, *n);
                for l in 0..=*n {
                    for via in [Via::Next, Via::Encrypt, Via::Decrypt] {
                        i.extra += 1;
                        let mut st = lib("Stream::new", || f::stream_new(&k, &no))?;
                        let got = produce(&mut st, &vec![0; l], via)?;
                        ensure!(got == ks[..l], "first {l} bytes through {via:?}: {}", diff(&got, &ks[..l]));
                    }
                }
            }
            C11Case::Far { seed, top, via } => {
                i.hit("far positions");
                let (k, no) = (Blob::Rng(*seed, 32).bytes(), Blob::Rng(seed + 9, 12).bytes());
                let r = ChaCha::new(&k, &no);
                let mut st = lib("Stream::new", || f::stream_new(&k, &no))?;
                let mut pos = 0u64;
                for b in 1..=*top {
                    // window of four blocks around block 2^b; the last one may not pass 2^32 blocks
                    let start = (1u64 << b) * 64 - if *top == 32 && b == 32 { 200 } else { 100 };
                    if start < pos {
                        continue;
                    }
                    advance(&mut st, start - pos)?;
                    let got = produce(&mut st, &[0; 200], *via)?;
                    pos = start + 200;
                    let want = r.keystream(0, start, 200);
                    i.extra += 1;
                    ensure!(got == want, "stream at byte {start} (block 2^{b}), {via:?}: {}", diff(&got, &want));
                }
            }
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- C12

pub struct C12;

#[derive(Clone, Debug)]
pub enum Op {
    Enc(usize),
    Dec(usize),
    Next,
    Nth(usize),
    Take(usize),
    /// by_ref().skip(n).next()
    Skip(usize),
    /// by_ref().step_by(k).take(n)
    StepBy(usize, usize),
    /// by_ref().zip(0..n): takes one more item than n
    Zip(usize),
    /// by_ref().position / find stops at the matching byte
    Find(u8),
    /// by_ref().take_while(top bit clear) consumes the first byte that fails
    TakeWhile,
    /// by_ref().peekable() that is peeked once and dropped consumes the peeked byte
    Peek,
    /// a call with different lengths, which must be refused and consume nothing
    Bad(usize, usize),
    /// advance and check on a second stream of the same key and nonce that it inverts a message
    Fold(usize),
    /// for loop with break after n
    For(usize),
}

#[derive(Clone, Debug)]
pub enum C12Case {
    Ops { key: Blob, nonce: Blob, data: u64, ops: Vec<Op> },
    /// message split at cuts; `enc` and `dec` use different cuts
    Split { key: Blob, nonce: Blob, m: Blob, a: Vec<usize>, b: Vec<usize> },
    /// every pair of consecutive call sizes up to max
    Pairs { a: usize, max: usize },
    /// nth over long distances, and some bytes after each; `always` also if that takes a while
    Jumps { seed: u64, by: Vec<u64>, always: bool },
}

/// Whether this library can skip keystream without computing it, so that every distance is near.
fn skips() -> bool {
    static SKIPS: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    *SKIPS.get_or_init(|| {
        // where there is no clock, no
        if cfg!(target_family = "wasm") || cfg!(miri) {
            return false;
        }
        let t = std::time::Instant::now();
        let _ = catch(|| f::stream_nth(&mut f::stream_new(&[1; 32], &[2; 12]), 1 << 24));
        t.elapsed() < std::time::Duration::from_micros(500)
    })
}

fn cuts(s: &mut Src, n: usize) -> Vec<usize> {
    let k = s.range(0, 8);
    let mut v: Vec<usize> = (0..k)
        .map(|_| if s.bool() { s.below(n + 1) } else { (s.below(n / 64 + 2) * 64 + s.below(3)).saturating_sub(1).min(n) })
        .collect();
    v.sort();
    v.push(n);
    v
}

impl Op {
    /// Upper bound of the bytes consumed.
    fn bound(&self) -> usize {
        match self {
            Op::Enc(n) | Op::Dec(n) | Op::Take(n) | Op::Fold(n) => *n,
            Op::Nth(n) | Op::Skip(n) | Op::Zip(n) | Op::For(n) => n + 1,
            Op::StepBy(k, n) => k * n,
            Op::Next | Op::Peek => 1,
            Op::Find(_) | Op::TakeWhile => 600,
            Op::Bad(..) => 0,
        }
    }
}

fn amount(s: &mut Src) -> usize {
    match s.weighted(&[3, 3, 3, 1, 1]) {
        0 => s.range(0, 5),
        1 => s.range(60, 68),
        2 => s.range(0, 130),
        3 => 64 * s.range(1, 5),
        _ => s.range(0, 1000),
    }
}

impl Prop for C12 {
    type Case = C12Case;
    const ID: &'static str = "C12";
    const RULE: &'static str = "case: a sequence of up to 30 stream operations (encrypt, decrypt, next, nth, take, skip, step_by, zip, find, take_while, peekable, fold, loops, refused calls), or a message split differently for encryption and decryption; enumerations: all pairs of call sizes up to 200; jumps with nth over 2^32 bytes, and, if the library skips without computing, over any distance. Oracle: model with a single cursor over the reference keystream. Non-trivial: at least two operations that consume bytes; distinct by full case.";
    const CASES: (u64, u64) = (1_500_000, 40_000_000);

    fn gen(s: &mut Src) -> C12Case {
        if s.one_in(4) {
            let n = len(s, 64, 5000);
            let (key, nonce, m) = (Blob::key(s, 32), Blob::key(s, 12), Blob::gen(s, n));
            return C12Case::Split { key, nonce, m, a: cuts(s, n), b: cuts(s, n) };
        }
        if s.one_in(60) {
            let k = s.range(1, 6);
            let by = (0..k)
                .map(|_| {
                    let bits = s.range(10, 36);
                    s.u64() & ((1 << bits) - 1)
                })
                .collect();
            return C12Case::Jumps { seed: s.u64(), by, always: false };
        }
        let k = s.range(1, 30);
        let (key, nonce, data) = (Blob::key(s, 32), Blob::key(s, 12), s.u64());
        let ops = (0..k)
            .map(|_| match s.weighted(&[6, 4, 4, 2, 3, 1, 1, 1, 1, 1, 1, 1, 1, 1]) {
                0 => Op::Enc(amount(s)),
                1 => Op::Dec(amount(s)),
                2 => Op::Next,
                3 => Op::Nth(amount(s)),
                4 => Op::Take(amount(s)),
                5 => Op::Skip(amount(s)),
                6 => Op::StepBy(s.range(1, 70), s.range(0, 5)),
                7 => Op::Zip(s.range(0, 70)),
                8 => Op::Find(s.byte()),
                9 => Op::TakeWhile,
                10 => Op::Peek,
                11 => {
                    let a = s.range(0, 130);
                    let b = s.range(0, 130);
                    Op::Bad(a, if a == b { b + 1 } else { b })
                }
                12 => Op::Fold(amount(s)),
                _ => Op::For(s.range(0, 130)),
            })
            .collect();
        C12Case::Ops { key, nonce, data, ops }
    }

    fn fixed(t: Tier) -> Vec<C12Case> {
        let max = if t == Tier::Quick { 200 } else { 400 };
        let mut v: Vec<_> = (0..=max).map(|a| C12Case::Pairs { a, max }).collect();
        if t == Tier::Thorough || !cfg!(debug_assertions) {
            // over 2^32 bytes
            v.insert(0, C12Case::Jumps { seed: 1, by: vec![3, (1 << 31) + 9, (1 << 31) + 300, 70], always: true });
            v.insert(0, C12Case::Jumps { seed: 2, by: vec![(1 << 32) + 77, 0, 200], always: true });
        }
        for b in 10..37 {
            for d in 0..3 {
                v.push(C12Case::Jumps { seed: b, by: vec![(1 << b) - 1 + d, (1 << b) - 1, 5], always: false });
            }
        }
        for n in pows(8, if t == Tier::Quick { 21 } else { 25 }) {
            let ops: [Vec<Op>; 7] = [
                vec![Op::Next, Op::Enc(n), Op::Take(70)],
                vec![Op::Enc(n), Op::Dec(n), Op::Next],
                vec![Op::Nth(n), Op::Nth(n), Op::Enc(70)],
                vec![Op::Enc(33), Op::Take(n), Op::Skip(n), Op::Dec(70)],
                vec![Op::Enc(n - 1), Op::Peek, Op::Fold(n), Op::Enc(70)],
                vec![Op::StepBy(n, 3), Op::Zip(n), Op::Enc(5), Op::For(n), Op::Dec(70)],
                vec![Op::Dec(1), Op::Bad(n, n + 1), Op::Enc(n), Op::Bad(0, n), Op::Dec(3)],
            ];
            for ops in ops {
                v.push(C12Case::Ops { key: Blob::Rng(n as u64, 32), nonce: Blob::Rng(5, 12), data: 3, ops });
            }
            v.push(C12Case::Split { key: Blob::Rng(n as u64, 32), nonce: Blob::Rng(5, 12), m: Blob::Rng(7, n + 77), a: vec![n, n + 77], b: vec![9, n + 9, n + 77] });
        }
        for n in [1 << 10, 1 << 14, 200_000] {
            // many calls on one stream
            let ops = (0..n).map(|i| if i % 3 == 0 { Op::Next } else if i % 3 == 1 { Op::Enc(i % 9) } else { Op::Dec(i % 7) }).collect();
            v.push(C12Case::Ops { key: Blob::Rng(n as u64, 32), nonce: Blob::Rng(5, 12), data: 3, ops });
        }
        v
    }

    fn check(c: &C12Case, i: &mut Info) -> Res {
        match c {
            C12Case::Ops { key, nonce, data, ops } => {
                let (k, n) = (key.bytes(), nonce.bytes());
                let ks = ChaCha::new(&k, &n).keystream(0, 0, ops.iter().map(Op::bound).sum::<usize>() + 700);
                let mut st = lib("Stream::new", || f::stream_new(&k, &n))?;
                let mut pos = 0usize;
                let mut used = 0;
                for (j, op) in ops.iter().enumerate() {
                    // what the operation must return (as bytes) and where it leaves the cursor
                    let before = pos;
                    let at = |o: usize| ks[before + o];
                    let (want, got): (Vec<u8>, Vec<u8>) = match op {
                        Op::Enc(n) | Op::Dec(n) => {
                            let m = Blob::Rng(*data ^ j as u64, *n).bytes();
                            let mut out = vec![0xdd; *n];
                            lib("process", || {
                                if matches!(op, Op::Enc(_)) {
                                    f::stream_encrypt(&mut st, &m, &mut out)
                                } else {
                                    f::stream_decrypt(&mut st, &m, &mut out)
                                }
                            })?;
                            pos += n;
                            (m.iter().enumerate().map(|(o, b)| b ^ at(o)).collect(), out)
                        }
                        Op::Next => {
                            pos += 1;
                            (vec![at(0)], vec![lib("next", || f::stream_next(&mut st).expect("endless"))?])
                        }
                        Op::Nth(n) => {
                            pos += n + 1;
                            (vec![at(*n)], vec![lib("nth", || f::stream_nth(&mut st, *n).expect("endless"))?])
                        }
                        Op::Take(n) => {
                            pos += n;
                            ((0..*n).map(at).collect(), lib("take", || f::stream_take(&mut st, *n))?)
                        }
                        Op::Skip(n) => {
                            pos += n + 1;
                            (vec![at(*n)], vec![lib("skip", || st.by_ref().skip(*n).next().expect("endless"))?])
                        }
                        Op::StepBy(k, n) => {
                            // std: StepBy takes one element, then nth(k-1)
                            let v = lib("step_by", || st.by_ref().step_by(*k).take(*n).collect::<Vec<u8>>())?;
                            if *n > 0 {
                                pos += (n - 1) * k + 1;
                            }
                            ((0..*n).map(|x| at(x * k)).collect(), v)
                        }
                        Op::Zip(n) => {
                            let v = lib("zip", || st.by_ref().zip(0..*n).map(|x| x.0).collect::<Vec<u8>>())?;
                            // std asks the stream once more before noticing that the range ended
                            pos += n + 1;
                            ((0..*n).map(at).collect(), v)
                        }
                        Op::Find(b) => {
                            let v = lib("find", || st.by_ref().take(600).find(|x| x == b))?;
                            let hit = (0..600).position(|o| at(o) == *b);
                            pos += hit.map_or(600, |h| h + 1);
                            (hit.map_or(vec![], |_| vec![*b]), v.map_or(vec![], |x| vec![x]))
                        }
                        Op::TakeWhile => {
                            let v = lib("take_while", || st.by_ref().take(600).take_while(|x| *x < 128).collect::<Vec<u8>>())?;
                            let stop = (0..600).position(|o| at(o) >= 128);
                            pos += stop.map_or(600, |h| h + 1);
                            ((0..stop.unwrap_or(600)).map(at).collect(), v)
                        }
                        Op::Peek => {
                            let v = lib("peekable", || st.by_ref().peekable().peek().copied().expect("endless"))?;
                            pos += 1;
                            (vec![at(0)], vec![v])
                        }
                        Op::Bad(a, b) => {
                            let m = vec![1; *a];
                            let mut out = vec![7u8; *b];
                            let r = catch(|| f::stream_encrypt(&mut st, &m, &mut out));
                            ensure!(r.is_err(), "operation {j}: encrypt with {a} input and {b} output bytes returns");
                            (vec![7; *b], out)
                        }
                        Op::Fold(n) => {
                            pos += n;
                            let v = lib("fold", || st.by_ref().take(*n).fold(0u8, |a, b| a.rotate_left(3) ^ b))?;
                            (vec![(0..*n).fold(0u8, |a, o| a.rotate_left(3) ^ at(o))], vec![v])
                        }
                        Op::For(n) => {
                            let mut v = vec![];
                            lib("for", || {
                                for b in st.by_ref() {
                                    v.push(b);
                                    if v.len() > *n {
                                        break;
                                    }
                                }
                            })?;
                            pos += n + 1;
                            ((0..=*n).map(at).collect(), v)
                        }
                    };
                    f::note("iterator", &got);
                    used += usize::from(pos > before);
                    ensure!(got == want, "operation {j} {op:?} at byte {before}: {}", diff(&got, &want));
                }
                let tail = lib("take", || f::stream_take(&mut st, 70))?;
                ensure!(tail == ks[pos..pos + 70], "after {ops:?} the cursor is not at byte {pos}: {}", diff(&tail, &ks[pos..pos + 70]));
                i.hit_if(used > 1, "several consuming operations");
                i.hit_if(pos > 64 && used > 1, "crosses a block");
                i.label(if ops.len() > 10 { "over 10 operations" } else { "few operations" });
            }
            C12Case::Split { key, nonce, m, a, b } => {
                let (k, n, m) = (key.bytes(), nonce.bytes(), m.bytes());
                i.hit_if(a.len() > 1 && !m.is_empty(), "split message");
                i.label("second stream inverts");
                let run = |cuts: &[usize], data: &[u8], enc: bool| -> Result<Vec<u8>, Fail> {
                    lib("split", || {
                        let mut st = f::stream_new(&k, &n);
                        let mut out = vec![0; data.len()];
                        let mut at = 0;
                        for &c in cuts {
                            if enc {
                                f::stream_encrypt(&mut st, &data[at..c], &mut out[at..c]);
                            } else {
                                f::stream_decrypt(&mut st, &data[at..c], &mut out[at..c]);
                            }
                            at = c;
                        }
                        out
                    })
                };
                let whole = run(&[m.len()], &m, true)?;
                let split = run(a, &m, true)?;
                ensure!(whole == split, "encrypting {} bytes cut at {a:?}: {}", m.len(), diff(&split, &whole));
                let back = run(b, &split, false)?;
                ensure!(back == m, "decrypting {} bytes cut at {b:?}: {}", m.len(), diff(&back, &m));
            }
            C12Case::Jumps { seed, by, always } => {
                if !always && by.iter().sum::<u64>() > 1 << 17 && !skips() {
                    i.label("too far for a stream that computes every byte");
                    return Ok(());
                }
                i.hit("long distances");
                let (k, n) = (Blob::Rng(*seed, 32).bytes(), Blob::Rng(seed + 9, 12).bytes());
                let r = ChaCha::new(&k, &n);
                let mut st = lib("Stream::new", || f::stream_new(&k, &n))?;
                let mut pos = 0u64;
                for (j, d) in by.iter().enumerate() {
                    let Ok(d) = usize::try_from(*d) else { return Ok(()) };
                    let x = lib("nth", || f::stream_nth(&mut st, d).expect("the stream is not over"))?;
                    let want = r.keystream(0, pos + d as u64, 101);
                    ensure!(x == want[0], "nth({d}) at byte {pos} of a stream gives {x:#04x} instead of {:#04x}", want[0]);
                    let after = produce(&mut st, &[0; 100], [Via::Next, Via::Encrypt, Via::Decrypt][j % 3])?;
                    ensure!(after == want[1..], "after nth({d}) at byte {pos} of a stream: {}", diff(&after, &want[1..]));
                    pos += d as u64 + 101;
                }
            }
            C12Case::Pairs { a, max } => {
                i.hit("pairs of call sizes");
                let (k, n) = ([3; 32], [4; 12]);
                let ks = ChaCha::new(&k, &n).keystream(0, 0, a + max + 3);
                for b in 0..=*max {
                    i.extra += 1;
                    let mut st = lib("Stream::new", || f::stream_new(&k, &n))?;
                    let mut out = vec![0; a + b + 3];
                    lib("encrypt, decrypt, next", || {
                        f::stream_encrypt(&mut st, &vec![0; *a], &mut out[..*a]);
                        f::stream_decrypt(&mut st, &vec![0; b], &mut out[*a..a + b]);
                        for o in &mut out[a + b..] {
                            *o = f::stream_next(&mut st).expect("endless");
                        }
                    })?;
                    ensure!(out == ks[..a + b + 3], "calls of {a} and {b} bytes: {}", diff(&out, &ks[..a + b + 3]));
                }
            }
        }
        Ok(())
    }
}
