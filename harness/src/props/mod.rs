//! The properties. Library calls go through `engine::lib`, everything else is harness or reference.
pub mod aead;
pub mod config;
#[cfg(feature = "trace")]
pub mod ct;
#[cfg(feature = "work")]
pub mod cost;
pub mod dh;
pub mod ed;
#[cfg(feature = "generic")]
pub mod generic;
pub mod hash;
pub mod iso;
pub mod panics;
pub mod stream;

use facade as f;

pub const HS: [f::H; 4] = [f::H::S224, f::H::S256, f::H::S384, f::H::S512];
pub const AS: [f::A; 4] = [f::A::Gcm128, f::A::Gcm192, f::A::Gcm256, f::A::ChaPoly];

pub fn rh(h: f::H) -> refs::sha2::H {
    match h {
        f::H::S224 => refs::sha2::H::S224,
        f::H::S256 => refs::sha2::H::S256,
        f::H::S384 => refs::sha2::H::S384,
        f::H::S512 => refs::sha2::H::S512,
    }
}

pub fn ra(a: f::A) -> refs::aead::Alg {
    match a {
        f::A::Gcm128 => refs::aead::Alg::Gcm128,
        f::A::Gcm192 => refs::aead::Alg::Gcm192,
        f::A::Gcm256 => refs::aead::Alg::Gcm256,
        f::A::ChaPoly => refs::aead::Alg::ChaPoly,
    }
}

pub fn dig(h: f::H) -> usize {
    rh(h).digest_size()
}
pub fn blk(h: f::H) -> usize {
    rh(h).block_size()
}

/// Position of the first difference, for messages.
pub fn diff(a: &[u8], b: &[u8]) -> String {
    if a.len() != b.len() {
        return format!("lengths {} and {}", a.len(), b.len());
    }
    match a.iter().zip(b).position(|(x, y)| x != y) {
        None => "equal".into(),
        Some(i) => {
            let e = (i + 16).min(a.len());
            format!("first difference at byte {i}: {} instead of {}", crate::src::hex(&a[i..e]), crate::src::hex(&b[i..e]))
        }
    }
}
