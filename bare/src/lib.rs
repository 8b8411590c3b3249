//! The library on machines without an operating system: everything that is generic is compiled here.
#![no_std]

#[cfg(feature = "library")]
pub fn all(k: &[u8; 32], n: &[u8; 12], m: &[u8; 40], out: &mut [u8; 40]) -> u8 {
    use crypto_pure::{aes::*, chacha20::*, curve25519, ed25519, gcm::*, hkdf, hmac, poly1305::*, sha2::*, util};
    let mut s = Sha512::default();
    s.update(m);
    s.write_digest(&mut [0; 64]);
    hkdf::extract::<Sha256>(n, m, &mut [0; 32]);
    hkdf::expand::<Sha256>(k, m, out);
    let mut t = sha224(m)[0] ^ sha384(m)[0] ^ hmac::hmac_sha256(k, m)[0] ^ hmac::hmac_sha512(k, m)[0];
    t ^= hmac::verify::<Sha256>(k, m, n) as u8;
    Stream::new(k, n).encrypt(m, out);
    let tag = Gcm::<Aes256>::new(k).encrypt(m, n, k, out);
    t ^= Gcm::<Aes256>::new(k).decrypt(m, n, k, &tag, out) as u8;
    t ^= Gcm::<Aes128>::new(&k[..16]).encrypt(m, n, k, out)[0];
    t ^= ChaCha20Poly1305::new(k).encrypt(m, n, k, out)[0];
    t ^= util::verify_16(&tag, n) as u8;
    t ^ curve25519::dh(&curve25519::gen_pk(k), k)[0] ^ ed25519::verify(m, &ed25519::sign(m, k), &ed25519::gen_pk(k)) as u8
}
