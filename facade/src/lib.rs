//! Concrete, non-generic entry points for everything crypto-pure exports. The generic code of the
//! library (Gcm<E>, Hmac<H>, hkdf) is instantiated here, so instrumenting this crate together with
//! crypto-pure instruments all library code. Public API only.
use crypto_pure::aes::{Aes128, Aes192, Aes256, BlockCipher};
use crypto_pure::gcm::{AeadCipher, Gcm};
use crypto_pure::hmac::Hmac;
use crypto_pure::poly1305::ChaCha20Poly1305;
use crypto_pure::sha2::{HashFunction, Sha224, Sha256, Sha384, Sha512};

pub use crypto_pure::chacha20::Stream;

#[cfg(feature = "generic")]
pub mod generic;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum H {
    S224,
    S256,
    S384,
    S512,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum A {
    Gcm128,
    Gcm192,
    Gcm256,
    ChaPoly,
}

macro_rules! by_hash {
    ($h:expr, $t:ident => $e:expr) => {
        match $h {
            H::S224 => {
                type $t = Sha224;
                $e
            }
            H::S256 => {
                type $t = Sha256;
                $e
            }
            H::S384 => {
                type $t = Sha384;
                $e
            }
            H::S512 => {
                type $t = Sha512;
                $e
            }
        }
    };
}

/// Transcript of the calls made by this thread (feature `record`): two entries per call: a hash of
/// its arguments under the name "in", and one of everything it returned or wrote and of whether it
/// panicked.
#[cfg(feature = "record")]
pub mod record {
    use std::cell::RefCell;
    use std::hash::{Hash, Hasher};
    use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

    /// The same on every machine.
    struct Portable(std::collections::hash_map::DefaultHasher);
    impl Hasher for Portable {
        fn finish(&self) -> u64 {
            self.0.finish()
        }
        fn write(&mut self, b: &[u8]) {
            self.0.write(b)
        }
        fn write_usize(&mut self, n: usize) {
            self.0.write(&(n as u64).to_le_bytes())
        }
        fn write_isize(&mut self, n: isize) {
            self.0.write(&(n as i64).to_le_bytes())
        }
    }
    fn hasher() -> Portable {
        Portable(Default::default())
    }

    thread_local! {
        static LOG: RefCell<Vec<(&'static str, u64)>> = const { RefCell::new(vec![]) };
    }
    pub fn take() -> Vec<(&'static str, u64)> {
        LOG.with(|l| std::mem::take(&mut *l.borrow_mut()))
    }
    pub fn note(name: &'static str, x: impl Hash) {
        let mut h = hasher();
        x.hash(&mut h);
        LOG.with(|l| l.borrow_mut().push((name, h.finish())));
    }
    /// `out` is a buffer that the call may write, and nobody else uses meanwhile.
    pub fn call<T>(name: &'static str, out: *const [u8], seen: impl FnOnce(&T) -> u64, f: impl FnOnce() -> T) -> T {
        let r = catch_unwind(AssertUnwindSafe(f));
        let out = unsafe { &*out };
        match r {
            Ok(v) => {
                note(name, (0u8, out, seen(&v)));
                v
            }
            Err(e) => {
                note(name, (1u8, out));
                resume_unwind(e)
            }
        }
    }
    pub fn hash(x: impl Hash) -> u64 {
        let mut h = hasher();
        x.hash(&mut h);
        h.finish()
    }
}

#[cfg(feature = "record")]
macro_rules! rec {
    ($name:literal, $ins:expr, $out:expr, $seen:expr, $f:expr) => {{
        record::note("in", $ins);
        record::call($name, $out, $seen, || $f)
    }};
}
#[cfg(not(feature = "record"))]
macro_rules! rec {
    ($name:literal, $ins:expr, $out:expr, $seen:expr, $f:expr) => {
        $f
    };
}
/// a call that returns hashable data
macro_rules! val {
    ($name:literal, $ins:expr, $f:expr) => {
        rec!($name, $ins, &[] as *const [u8], |x| record::hash(x), $f)
    };
}
/// a call that returns an object or nothing
macro_rules! obj {
    ($name:literal, $ins:expr, $f:expr) => {
        rec!($name, $ins, &[] as *const [u8], |_| 0, $f)
    };
}
/// a call that writes to a slice, and returns hashable data
macro_rules! out {
    ($name:literal, $ins:expr, $out:ident, $f:expr) => {
        rec!($name, ($ins, $out.len()), $out as *const [u8], |x| record::hash(x), $f)
    };
}

/// Adds a result obtained without this crate's functions to the transcript.
#[allow(unused_variables)]
pub fn note(name: &'static str, x: &[u8]) {
    #[cfg(feature = "record")]
    record::note(name, x);
}

/// (digest size, block size) as the library publishes them
pub fn sizes(h: H) -> (usize, usize) {
    val!("sizes", (h,), {
        by_hash!(h, T => (T::DIGEST_SIZE, T::BLOCK_SIZE))
    })
}

pub fn sha(h: H, m: &[u8]) -> Vec<u8> {
    val!("sha", (h, m), {
        match h {
            H::S224 => crypto_pure::sha2::sha224(m).to_vec(),
            H::S256 => crypto_pure::sha2::sha256(m).to_vec(),
            H::S384 => crypto_pure::sha2::sha384(m).to_vec(),
            H::S512 => crypto_pure::sha2::sha512(m).to_vec(),
        }
    })
}

pub enum Hasher {
    S224(Sha224),
    S256(Sha256),
    S384(Sha384),
    S512(Sha512),
}

impl Hasher {
    pub fn new(h: H) -> Hasher {
        obj!("new", (h,), {
            match h {
                H::S224 => Hasher::S224(Sha224::default()),
                H::S256 => Hasher::S256(Sha256::default()),
                H::S384 => Hasher::S384(Sha384::default()),
                H::S512 => Hasher::S512(Sha512::default()),
            }
        })
    }
    pub fn update(&mut self, m: &[u8]) {
        obj!("update", (m,), {
            match self {
                Hasher::S224(x) => x.update(m),
                Hasher::S256(x) => x.update(m),
                Hasher::S384(x) => x.update(m),
                Hasher::S512(x) => x.update(m),
            }
        })
    }
    pub fn write_digest(self, out: &mut [u8]) {
        out!("write_digest", (), out, {
            match self {
                Hasher::S224(x) => x.write_digest(out),
                Hasher::S256(x) => x.write_digest(out),
                Hasher::S384(x) => x.write_digest(out),
                Hasher::S512(x) => x.write_digest(out),
            }
        })
    }
}

pub fn hmac(h: H, key: &[u8], m: &[u8]) -> Vec<u8> {
    val!("hmac", (h, key, m), {
        match h {
            H::S224 => crypto_pure::hmac::hmac_sha224(key, m).to_vec(),
            H::S256 => crypto_pure::hmac::hmac_sha256(key, m).to_vec(),
            H::S384 => crypto_pure::hmac::hmac_sha384(key, m).to_vec(),
            H::S512 => crypto_pure::hmac::hmac_sha512(key, m).to_vec(),
        }
    })
}

pub enum Mac {
    S224(Hmac<Sha224>),
    S256(Hmac<Sha256>),
    S384(Hmac<Sha384>),
    S512(Hmac<Sha512>),
}

impl Mac {
    pub fn new(h: H, key: &[u8]) -> Mac {
        obj!("new", (h, key), {
            match h {
                H::S224 => Mac::S224(Hmac::new(key)),
                H::S256 => Mac::S256(Hmac::new(key)),
                H::S384 => Mac::S384(Hmac::new(key)),
                H::S512 => Mac::S512(Hmac::new(key)),
            }
        })
    }
    pub fn update(&mut self, m: &[u8]) {
        obj!("update", (m,), {
            match self {
                Mac::S224(x) => x.update(m),
                Mac::S256(x) => x.update(m),
                Mac::S384(x) => x.update(m),
                Mac::S512(x) => x.update(m),
            }
        })
    }
    /// The tag through `Deref` and through `AsRef`.
    pub fn tag(self) -> (Vec<u8>, Vec<u8>) {
        val!("tag", (), {
            let t = match self {
                Mac::S224(x) => x.tag(),
                Mac::S256(x) => x.tag(),
                Mac::S384(x) => x.tag(),
                Mac::S512(x) => x.tag(),
            };
            let r: &[u8] = t.as_ref();
            (t.to_vec(), r.to_vec())
        })
    }
}

pub fn hmac_verify(h: H, key: &[u8], m: &[u8], tag: &[u8]) -> bool {
    val!("hmac_verify", (h, key, m, tag), {
        by_hash!(h, T => crypto_pure::hmac::verify::<T>(key, m, tag))
    })
}

pub fn verify_16(x: &[u8; 16], y: &[u8]) -> bool {
    val!("verify_16", (x, y), {
        crypto_pure::util::verify_16(x, y)
    })
}

pub fn extract(h: H, salt: &[u8], ikm: &[u8], prk: &mut [u8]) {
    out!("extract", (h, salt, ikm), prk, {
        by_hash!(h, T => crypto_pure::hkdf::extract::<T>(salt, ikm, prk))
    })
}

pub fn expand(h: H, prk: &[u8], info: &[u8], okm: &mut [u8]) {
    out!("expand", (h, prk, info), okm, {
        by_hash!(h, T => crypto_pure::hkdf::expand::<T>(prk, info, okm))
    })
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum AesSize {
    Aes128,
    Aes192,
    Aes256,
}

pub enum Aes {
    Aes128(Aes128),
    Aes192(Aes192),
    Aes256(Aes256),
}

impl Aes {
    pub fn new(s: AesSize, key: &[u8]) -> Aes {
        obj!("new", (s, key), {
            match s {
                AesSize::Aes128 => Aes::Aes128(Aes128::new(key)),
                AesSize::Aes192 => Aes::Aes192(Aes192::new(key)),
                AesSize::Aes256 => Aes::Aes256(Aes256::new(key)),
            }
        })
    }
    pub fn permute(&self, b: &[u8; 16]) -> [u8; 16] {
        val!("permute", (b,), {
            match self {
                Aes::Aes128(x) => x.permute(b),
                Aes::Aes192(x) => x.permute(b),
                Aes::Aes256(x) => x.permute(b),
            }
        })
    }
}

pub enum Aead {
    Gcm128(Gcm<Aes128>),
    Gcm192(Gcm<Aes192>),
    Gcm256(Gcm<Aes256>),
    ChaPoly(ChaCha20Poly1305),
}

impl Aead {
    pub fn new(a: A, key: &[u8]) -> Aead {
        obj!("new", (a, key), {
            match a {
                A::Gcm128 => Aead::Gcm128(Gcm::new(key)),
                A::Gcm192 => Aead::Gcm192(Gcm::new(key)),
                A::Gcm256 => Aead::Gcm256(Gcm::new(key)),
                A::ChaPoly => Aead::ChaPoly(ChaCha20Poly1305::new(key)),
            }
        })
    }
    pub fn encrypt(&self, m: &[u8], nonce: &[u8], aad: &[u8], out: &mut [u8]) -> [u8; 16] {
        out!("encrypt", (m, nonce, aad), out, {
            match self {
                Aead::Gcm128(x) => x.encrypt(m, nonce, aad, out),
                Aead::Gcm192(x) => x.encrypt(m, nonce, aad, out),
                Aead::Gcm256(x) => x.encrypt(m, nonce, aad, out),
                Aead::ChaPoly(x) => x.encrypt(m, nonce, aad, out),
            }
        })
    }
    pub fn decrypt(&self, c: &[u8], nonce: &[u8], aad: &[u8], tag: &[u8], out: &mut [u8]) -> bool {
        out!("decrypt", (c, nonce, aad, tag), out, {
            match self {
                Aead::Gcm128(x) => x.decrypt(c, nonce, aad, tag, out),
                Aead::Gcm192(x) => x.decrypt(c, nonce, aad, tag, out),
                Aead::Gcm256(x) => x.decrypt(c, nonce, aad, tag, out),
                Aead::ChaPoly(x) => x.decrypt(c, nonce, aad, tag, out),
            }
        })
    }
}

pub fn stream_new(key: &[u8], nonce: &[u8]) -> Stream {
    obj!("stream_new", (key, nonce), {
        Stream::new(key, nonce)
    })
}
pub fn stream_encrypt(s: &mut Stream, m: &[u8], out: &mut [u8]) {
    out!("stream_encrypt", (m,), out, {
        s.encrypt(m, out)
    })
}
pub fn stream_decrypt(s: &mut Stream, m: &[u8], out: &mut [u8]) {
    out!("stream_decrypt", (m,), out, {
        s.decrypt(m, out)
    })
}
pub fn stream_next(s: &mut Stream) -> Option<u8> {
    val!("stream_next", (), {
        s.next()
    })
}
pub fn stream_nth(s: &mut Stream, n: usize) -> Option<u8> {
    val!("stream_nth", (n,), {
        s.nth(n)
    })
}
pub fn stream_take(s: &mut Stream, n: usize) -> Vec<u8> {
    val!("stream_take", (n,), {
        s.take(n).collect()
    })
}

pub fn x_gen_pk(sk: &[u8]) -> [u8; 32] {
    val!("x_gen_pk", (sk,), {
        crypto_pure::curve25519::gen_pk(sk)
    })
}
pub fn x_dh(pk: &[u8], sk: &[u8]) -> [u8; 32] {
    val!("x_dh", (pk, sk), {
        crypto_pure::curve25519::dh(pk, sk)
    })
}
pub fn ed_gen_pk(sk: &[u8]) -> [u8; 32] {
    val!("ed_gen_pk", (sk,), {
        crypto_pure::ed25519::gen_pk(sk)
    })
}
pub fn ed_sign(m: &[u8], sk: &[u8]) -> [u8; 64] {
    val!("ed_sign", (m, sk), {
        crypto_pure::ed25519::sign(m, sk)
    })
}
pub fn ed_verify(m: &[u8], sig: &[u8], pk: &[u8]) -> bool {
    val!("ed_verify", (m, sig, pk), {
        crypto_pure::ed25519::verify(m, sig, pk)
    })
}

/// The operations above that give vectors, into buffers.
pub fn sha_to(h: H, m: &[u8], out: &mut [u8]) {
    match h {
        H::S224 => out.copy_from_slice(&crypto_pure::sha2::sha224(m)),
        H::S256 => out.copy_from_slice(&crypto_pure::sha2::sha256(m)),
        H::S384 => out.copy_from_slice(&crypto_pure::sha2::sha384(m)),
        H::S512 => out.copy_from_slice(&crypto_pure::sha2::sha512(m)),
    }
}
pub fn hmac_to(h: H, key: &[u8], m: &[u8], out: &mut [u8]) {
    match h {
        H::S224 => out.copy_from_slice(&crypto_pure::hmac::hmac_sha224(key, m)),
        H::S256 => out.copy_from_slice(&crypto_pure::hmac::hmac_sha256(key, m)),
        H::S384 => out.copy_from_slice(&crypto_pure::hmac::hmac_sha384(key, m)),
        H::S512 => out.copy_from_slice(&crypto_pure::hmac::hmac_sha512(key, m)),
    }
}
impl Mac {
    pub fn tag_to(self, out: &mut [u8]) {
        match self {
            Mac::S224(x) => out.copy_from_slice(&x.tag()),
            Mac::S256(x) => out.copy_from_slice(&x.tag()),
            Mac::S384(x) => out.copy_from_slice(&x.tag()),
            Mac::S512(x) => out.copy_from_slice(&x.tag()),
        }
    }
}

/// Whether AEAD objects may be shared between threads, decided without requiring it.
pub fn aead_is_sync() -> bool {
    struct Probe<T>(std::marker::PhantomData<T>);
    #[allow(dead_code)]
    trait No {
        const SYNC: bool = false;
    }
    impl<T> No for Probe<T> {}
    #[allow(dead_code)]
    impl<T: Sync> Probe<T> {
        const SYNC: bool = true;
    }
    Probe::<Aead>::SYNC
}
