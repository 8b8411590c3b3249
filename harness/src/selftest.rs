//! Validates the reference implementations against answers of OpenSSL (refs/vectors/openssl.txt).
use crate::src::{hex, unhex};
use refs::*;

pub fn run(text: &str) -> Result<usize, String> {
    let mut n = 0;
    for (no, line) in text.lines().enumerate() {
        let mut it = line.split(' ');
        let kind = it.next().unwrap();
        let v: Vec<Vec<u8>> = it.map(|x| if x == "-" { vec![] } else { unhex(x).expect("hex") }).collect();
        let hash = || match &v[0][..] {
            b"sha224" => sha2::H::S224,
            b"sha256" => sha2::H::S256,
            b"sha384" => sha2::H::S384,
            b"sha512" => sha2::H::S512,
            _ => panic!("hash"),
        };
        let a32 = |i: usize| -> [u8; 32] { v[i].clone().try_into().unwrap() };
        let got: Vec<u8> = match kind {
            "sha" => sha2::sha(hash(), &v[1]),
            "hmac" => {
                let h = hash();
                let t = kdf::hmac(h, &v[1], &v[2]);
                if kdf::hmac_over(&|m| sha2::sha(h, m), h.block_size(), &v[1], &v[2]) != t {
                    return Err(format!("line {}: generic HMAC", no + 1));
                }
                t
            }
            "hkdf" => {
                let h = hash();
                let prk = kdf::extract(h, &v[1], &v[2]);
                if kdf::expand_over(&|m| kdf::hmac(h, &prk, m), h.digest_size(), &v[3], v[4].len()) != Some(v[4].clone()) {
                    return Err(format!("line {}: generic HKDF", no + 1));
                }
                kdf::expand(h, &prk, &v[3], v[4].len()).unwrap()
            }
            "aead" => {
                let alg = match &v[0][..] {
                    b"aes-128-gcm" => aead::Alg::Gcm128,
                    b"aes-192-gcm" => aead::Alg::Gcm192,
                    b"aes-256-gcm" => aead::Alg::Gcm256,
                    b"chacha20-poly1305" => aead::Alg::ChaPoly,
                    _ => panic!("aead"),
                };
                let (c, t) = aead::seal(alg, &v[1], &v[2], &v[3], &v[4]);
                if v[0] != b"chacha20-poly1305" {
                    let k = aes::Aes::new(&v[1]);
                    if aead::gcm_over(&|b| k.encrypt(b), &v[2], &v[3], &v[4]) != (c.clone(), t) {
                        return Err(format!("line {}: generic GCM", no + 1));
                    }
                }
                if c != v[5] {
                    return Err(format!("line {}: ciphertext", no + 1));
                }
                t.to_vec()
            }
            "aes" => {
                let a = aes::Aes::new(&v[0]);
                let b: [u8; 16] = v[1].clone().try_into().unwrap();
                let c = a.encrypt(&b);
                if a.decrypt(&c) != b {
                    return Err(format!("line {}: inverse", no + 1));
                }
                c.to_vec()
            }
            "chacha" => {
                let first = u32::from_be_bytes(v[2].clone().try_into().unwrap());
                chacha::ChaCha::new(&v[0], &v[1]).keystream(first, 0, v[3].len())
            }
            "xpk" => x::base(&a32(0)).to_vec(),
            "x" => x::x25519(&a32(0), &a32(1)).to_vec(),
            "ed" => {
                if ed::public_key(&a32(0)) != v[1][..] {
                    return Err(format!("line {}: public key", no + 1));
                }
                if !ed::verify(&v[2], &v[3], &a32(1)) {
                    return Err(format!("line {}: verification", no + 1));
                }
                ed::sign(&v[2], &a32(0)).to_vec()
            }
            "edv" => vec![u8::from(ed::verify(&v[1], &v[2], &a32(0)))],
            _ => panic!("kind"),
        };
        let want = v.last().unwrap();
        if got != *want {
            return Err(format!("line {}: {kind} gives {} instead of {}", no + 1, hex(&got), hex(want)));
        }
        n += 1;
    }
    Ok(n)
}

/// Memory errors, to see that they are noticed.
pub fn oops(kind: &str) {
    use std::hint::black_box;
    use std::mem::MaybeUninit;
    match kind {
        "heap" => {
            let v = black_box(vec![1u8; 24]);
            black_box(unsafe { black_box(v.as_ptr().wrapping_add(24)).read() });
        }
        "stack" => {
            let v = black_box([1u8; 24]);
            black_box(unsafe { black_box(&v).as_ptr().wrapping_add(black_box(24)).read() });
        }
        _ => {
            let v: MaybeUninit<[u8; 24]> = black_box(MaybeUninit::uninit());
            if black_box(unsafe { v.assume_init_ref()[black_box(5)] }) == 77 {
                println!("seventy-seven");
            }
        }
    }
}
