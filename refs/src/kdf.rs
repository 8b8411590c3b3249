//! RFC 2104 and RFC 5869.
use crate::sha2::{sha, H};

pub fn hmac(h: H, key: &[u8], msg: &[u8]) -> Vec<u8> {
    let b = h.block_size();
    let mut k = if key.len() > b { sha(h, key) } else { key.to_vec() };
    k.resize(b, 0);
    let mut inner: Vec<u8> = k.iter().map(|x| x ^ 0x36).collect();
    inner.extend_from_slice(msg);
    let mut outer: Vec<u8> = k.iter().map(|x| x ^ 0x5c).collect();
    outer.extend_from_slice(&sha(h, &inner));
    sha(h, &outer)
}

pub fn extract(h: H, salt: &[u8], ikm: &[u8]) -> Vec<u8> {
    hmac(h, salt, ikm)
}

/// None when more than 255 blocks are asked for.
pub fn expand(h: H, prk: &[u8], info: &[u8], len: usize) -> Option<Vec<u8>> {
    let n = len.div_ceil(h.digest_size());
    if n > 255 {
        return None;
    }
    let mut t: Vec<u8> = vec![];
    let mut okm = vec![];
    for i in 1..=n {
        let mut m = t.clone();
        m.extend_from_slice(info);
        m.push(i as u8);
        t = hmac(h, prk, &m);
        okm.extend_from_slice(&t);
    }
    okm.truncate(len);
    Some(okm)
}

/// HMAC over any hash function with the given block size.
pub fn hmac_over(hash: &dyn Fn(&[u8]) -> Vec<u8>, block: usize, key: &[u8], msg: &[u8]) -> Vec<u8> {
    let mut k = if key.len() > block { hash(key) } else { key.to_vec() };
    k.resize(block, 0);
    let pad = |p: u8, m: &[u8]| hash(&k.iter().map(|x| x ^ p).chain(m.iter().copied()).collect::<Vec<u8>>());
    pad(0x5c, &pad(0x36, msg))
}

/// HKDF-Expand over any HMAC with tags of `digest` bytes.
pub fn expand_over(mac: &dyn Fn(&[u8]) -> Vec<u8>, digest: usize, info: &[u8], len: usize) -> Option<Vec<u8>> {
    let n = len.div_ceil(digest);
    if n > 255 {
        return None;
    }
    let mut t = vec![];
    let mut okm = vec![];
    for i in 1..=n {
        t = mac(&[&t, info, &[i as u8]].concat());
        okm.extend_from_slice(&t);
    }
    okm.truncate(len);
    Some(okm)
}
