//! C23: single operations as lines of text, for machines that are too slow for whole cases. The
//! line and the answer of this machine go to the other one, which only runs the library.
use crate::engine::catch;
use crate::src::{hex, set_cap, unhex, Blob, Rng, Src};
use facade::{A, H};

const HS: [(&str, H); 4] = [("224", H::S224), ("256", H::S256), ("384", H::S384), ("512", H::S512)];
const AS: [(&str, A, usize); 4] = [("gcm128", A::Gcm128, 16), ("gcm192", A::Gcm192, 24), ("gcm256", A::Gcm256, 32), ("chapoly", A::ChaPoly, 32)];

fn show(b: &[u8]) -> String {
    format!("x{}", hex(b))
}

/// The answer: bytes written and returned, or `panic`.
pub fn run(line: &str) -> String {
    let a: Vec<&str> = line.split_whitespace().collect();
    let h = |i: usize| HS.iter().find(|x| x.0 == a[i]).expect("hash").1;
    let aead = |i: usize| AS.iter().find(|x| x.0 == a[i]).expect("cipher").1;
    let b = |i: usize| unhex(a[i].strip_prefix('x').expect("bytes")).expect("bytes");
    let n = |i: usize| a[i].parse::<usize>().expect("number");
    let r = catch(|| match a[0] {
        "sha" => {
            let mut s = facade::Hasher::new(h(1));
            (2..a.len()).for_each(|i| s.update(&b(i)));
            let mut out = vec![0; facade::sizes(h(1)).0];
            s.write_digest(&mut out);
            out
        }
        "hmac" => {
            let mut m = facade::Mac::new(h(1), &b(2));
            (3..a.len()).for_each(|i| m.update(&b(i)));
            let (x, y) = m.tag();
            [x, y].concat()
        }
        "hmac-verify" => vec![facade::hmac_verify(h(1), &b(2), &b(3), &b(4)) as u8],
        "extract" => {
            let mut prk = vec![0; facade::sizes(h(1)).0];
            facade::extract(h(1), &b(2), &b(3), &mut prk);
            prk
        }
        "expand" => {
            let mut okm = vec![0; n(4)];
            facade::expand(h(1), &b(2), &b(3), &mut okm);
            okm
        }
        "aes" => {
            let k = b(1);
            let s = [facade::AesSize::Aes128, facade::AesSize::Aes192, facade::AesSize::Aes256][k.len() / 8 - 2];
            facade::Aes::new(s, &k).permute(&b(2).try_into().expect("block")).to_vec()
        }
        "encrypt" => {
            let m = b(5);
            let mut out = vec![0; m.len()];
            let tag = facade::Aead::new(aead(1), &b(2)).encrypt(&m, &b(3), &b(4), &mut out);
            [&out[..], &tag].concat()
        }
        "decrypt" => {
            let c = b(5);
            let mut out = vec![0; c.len()];
            let ok = facade::Aead::new(aead(1), &b(2)).decrypt(&c, &b(3), &b(4), &b(6), &mut out);
            // what a rejected message leaves behind is up to the library, but the same everywhere
            [&out[..], &[ok as u8]].concat()
        }
        "stream" => {
            let mut s = facade::stream_new(&b(1), &b(2));
            let mut out = vec![];
            for i in 3..a.len() {
                let m = b(i);
                let mut o = vec![0; m.len()];
                facade::stream_encrypt(&mut s, &m, &mut o);
                out.extend(o);
            }
            out
        }
        "stream-at" => {
            let mut s = facade::stream_new(&b(1), &b(2));
            let x = facade::stream_nth(&mut s, n(3));
            let mut out = vec![x.is_some() as u8, x.unwrap_or(0)];
            out.extend(facade::stream_take(&mut s, 70));
            out
        }
        "x-public" => facade::x_gen_pk(&b(1)).to_vec(),
        "x-shared" => facade::x_dh(&b(1), &b(2)).to_vec(),
        "ed-public" => facade::ed_gen_pk(&b(1)).to_vec(),
        "ed-sign" => facade::ed_sign(&b(1), &b(2)).to_vec(),
        "ed-verify" => vec![facade::ed_verify(&b(1), &b(2), &b(3)) as u8],
        // lengths beyond 32 bits of bits or bytes
        "long-sha" => {
            let mut s = facade::Hasher::new(h(1));
            let piece: Vec<u8> = (0..1 << 20).map(|i: u32| (i >> 8) as u8 ^ i as u8).collect();
            let mut left: u64 = a[2].parse().expect("number");
            while left > 0 {
                let k = left.min(piece.len() as u64) as usize;
                s.update(&piece[..k]);
                left -= k as u64;
            }
            let mut out = vec![0; facade::sizes(h(1)).0];
            s.write_digest(&mut out);
            out
        }
        "long-data" => {
            let mut out = vec![0; 5];
            let tag = facade::Aead::new(aead(1), &b(2)).encrypt(&[1, 2, 3, 4, 5], &b(3), &vec![7; n(4)], &mut out);
            [&out[..], &tag].concat()
        }
        "long-message" => {
            let m = vec![7; n(4)];
            let mut out = vec![0; m.len()];
            let tag = facade::Aead::new(aead(1), &b(2)).encrypt(&m, &b(3), &[9], &mut out);
            [&out[m.len() - 64..], &tag].concat()
        }
        x => panic!("unknown operation {x}"),
    });
    #[cfg(feature = "record")]
    facade::record::take();
    match r {
        Ok(v) => show(&v),
        Err(_) => "panic".into(),
    }
}

/// How often each operation comes, and its rough cost on a slow machine.
pub const KINDS: &[(&str, usize)] = &[
    ("sha", 14), ("hmac", 8), ("hmac-verify", 6), ("extract", 3), ("expand", 5), ("aes", 5), ("encrypt", 8), ("decrypt", 8),
    ("stream", 8), ("stream-at", 4), ("x-public", 1), ("x-shared", 4), ("ed-public", 1), ("ed-sign", 3), ("ed-verify", 4),
];

/// Operation `k` of a run; later ones are longer.
pub fn gen(seed: u64, k: u64) -> String {
    let mut s = Src::random(crate::src::mix(seed ^ crate::src::mix(k ^ 0x9e37_79b9_7f4a_7c15)));
    let kind = KINDS[s.weighted(&KINDS.iter().map(|x| x.1).collect::<Vec<_>>())].0;
    set_cap(if k < 300 { 40 } else { 300 });
    let l = op(&mut s, kind);
    set_cap(usize::MAX);
    format!("{kind} {l}")
}

fn blob(s: &mut Src, block: usize) -> Vec<u8> {
    let n = crate::src::len(s, block, 400);
    Blob::gen(s, n).bytes()
}
fn key(s: &mut Src, n: usize) -> Vec<u8> {
    Blob::key(s, n).bytes()
}

/// Now and then of another length.
fn fixed_len(s: &mut Src, n: usize) -> Vec<u8> {
    let n = if s.one_in(30) { s.range(0, 2 * n) } else { n };
    key(s, n)
}

fn spoil(s: &mut Src, tag: &mut Vec<u8>) {
    match s.below(4) {
        0 | 1 if !tag.is_empty() => {
            let i = s.below(8 * tag.len());
            tag[i / 8] ^= 1 << (i % 8);
        }
        2 => {
            tag.pop();
        }
        3 => tag.push(0),
        _ => {}
    }
}

fn op(s: &mut Src, kind: &str) -> String {
    let pieces = |s: &mut Src| {
        let n = s.range(0, 3);
        (0..n).map(|_| show(&blob(s, 64))).collect::<Vec<_>>().join(" ")
    };
    let hash = |s: &mut Src| s.pick(&HS);
    match kind {
        "sha" => format!("{} {}", hash(s).0, pieces(s)),
        "hmac" => format!("{} {} {}", hash(s).0, show(&blob(s, 64)), pieces(s)),
        "hmac-verify" => {
            let (h, k, m) = (hash(s), blob(s, 64), blob(s, 64));
            let mut tag = facade::hmac(h.1, &k, &m);
            if s.bool() {
                spoil(s, &mut tag);
            }
            format!("{} {} {} {}", h.0, show(&k), show(&m), show(&tag))
        }
        "extract" => format!("{} {} {}", hash(s).0, show(&blob(s, 64)), show(&blob(s, 64))),
        "expand" => {
            let h = hash(s);
            let d = facade::sizes(h.1).0;
            let extra = if s.one_in(3) { s.range(0, 30) } else { 0 };
            let prk = if s.one_in(20) { key(s, d - 1) } else { key(s, d + extra) };
            format!("{} {} {} {}", h.0, show(&prk), show(&blob(s, 32)), s.range(0, 3 * d))
        }
        "aes" => {
            let n = s.pick(&[16, 24, 32]);
            format!("{} {}", show(&key(s, n)), show(&key(s, 16)))
        }
        "encrypt" | "decrypt" => {
            let a = s.pick(&AS);
            let (k, n) = (fixed_len(s, a.2), fixed_len(s, 12));
            let (d, m) = (blob(s, 16), blob(s, 16));
            let head = format!("{} {} {} {}", a.0, show(&k), show(&n), show(&d));
            if kind == "encrypt" || k.len() != a.2 || n.len() != 12 {
                let tail = if kind == "decrypt" { format!(" {}", show(&key(s, 16))) } else { String::new() };
                return format!("{head} {}{tail}", show(&m));
            }
            let mut c = vec![0; m.len()];
            // of any length: a wrong result here is for another property to find
            let mut tag = catch(|| facade::Aead::new(a.1, &k).encrypt(&m, &n, &d, &mut c)).unwrap_or([0; 16]).to_vec();
            if s.one_in(3) {
                spoil(s, &mut tag);
            }
            format!("{head} {} {}", show(&c), show(&tag))
        }
        "stream" => format!("{} {} {}", show(&fixed_len(s, 32)), show(&fixed_len(s, 12)), pieces(s)),
        "stream-at" => format!("{} {} {}", show(&key(s, 32)), show(&key(s, 12)), s.range(0, 300)),
        "x-public" | "ed-public" => show(&fixed_len(s, 32)),
        "x-shared" => {
            let p = match s.below(8) {
                0 => key(s, 32),
                // small and large numbers, also from the prime on
                1 => {
                    let mut v = vec![s.pick(&[0, 0xff]); 32];
                    v[0] = s.byte();
                    v[31] = s.pick(&[0, 0x7f, 0x80, 0xff]);
                    v
                }
                _ => fixed_len(s, 32),
            };
            format!("{} {}", show(&p), show(&key(s, 32)))
        }
        "ed-sign" => format!("{} {}", show(&blob(s, 64)), show(&fixed_len(s, 32))),
        _ => {
            let (mut m, sk) = (blob(s, 64), key(s, 32));
            let mut pk = catch(|| facade::ed_gen_pk(&sk)).unwrap_or([0; 32]).to_vec();
            let mut sig = catch(|| facade::ed_sign(&m, &sk)).unwrap_or([0; 64]).to_vec();
            match s.below(8) {
                0 => spoil(s, &mut sig),
                1 => spoil(s, &mut m),
                2 => {
                    let i = s.below(256);
                    pk[i / 8] ^= 1 << (i % 8);
                }
                // scalars from the group order on, and points off the curve
                3 => {
                    let i = s.range(32, 63);
                    sig[i] = sig[i].wrapping_add(s.pick(&[1, 0x10, 0xed, 0x80]));
                }
                4 => {
                    let n = Rng::new(s.u64()).next() as usize % 32;
                    sig[n] = s.byte();
                }
                _ => {}
            }
            format!("{} {} {}", show(&m), show(&sig), show(&pk))
        }
    }
}

/// Smaller lines: arguments shorter, zeroed in part, or gone.
pub fn smaller(line: &str) -> Vec<String> {
    let a: Vec<&str> = line.split_whitespace().collect();
    let mut out = vec![];
    let with = |i: usize, x: String| {
        let mut v: Vec<String> = a.iter().map(|x| x.to_string()).collect();
        v[i] = x;
        v.join(" ")
    };
    for i in 1..a.len() {
        let Some(b) = a[i].strip_prefix('x').and_then(unhex) else { continue };
        if b.is_empty() {
            continue;
        }
        let mut cut = vec![b[..b.len() / 2].to_vec(), b[..b.len() - 1].to_vec()];
        let mut zero = |from: usize, to: usize| {
            let mut v = b.clone();
            v[from..to].fill(0);
            cut.push(v);
        };
        zero(0, b.len());
        zero(0, b.len() / 2);
        zero(b.len() / 2, b.len());
        out.extend(cut.into_iter().filter(|v| *v != b).map(|v| with(i, show(&v))));
        if a.len() > 3 {
            let mut v = a.clone();
            v.remove(i);
            if ["sha", "stream"].contains(&a[0]) || a[0] == "hmac" && i > 2 {
                out.push(v.join(" "));
            }
        }
    }
    out.sort_by_key(|l| l.len());
    out.dedup();
    out
}

/// Runs `line = answer` lines while there is time, or until three answer otherwise; returns how
/// many were run and those.
pub fn compare(text: &str, more: impl Fn(&str) -> bool) -> (usize, Vec<(String, String)>) {
    let (mut n, mut bad) = (0, vec![]);
    for l in text.lines() {
        if !more(l) || bad.len() == 3 {
            break;
        }
        let (op, want) = l.split_once(" = ").expect("line");
        let got = run(op);
        n += 1;
        if got != want {
            bad.push((l.to_string(), got));
        }
    }
    (n, bad)
}

/// What this machine is.
pub fn machine() -> String {
    let order = if cfg!(target_endian = "big") { "big" } else { "little" };
    format!("{} bits, {order}-endian, {}", usize::BITS, std::env::consts::ARCH)
}
