//! Reference models, written from the specifications. They share no code, tables or constants
//! with the crate under test: round constants, S-box and curve constants are computed from their
//! definitions. Clarity first; speed only where a check needs it.
pub mod aead;
pub mod aes;
pub mod big;
pub mod chacha;
pub mod ed;
pub mod fe;
pub mod kdf;
pub mod poly;
pub mod sha2;
pub mod x;
