#[cfg(feature = "cov")]
pub mod cov;
pub mod engine;
#[cfg(feature = "cov")]
pub mod fuzz;
pub mod ops;
pub mod props;
pub mod src;
pub mod selftest;
#[cfg(feature = "trace")]
pub mod trace;
#[cfg(feature = "work")]
pub mod work;
