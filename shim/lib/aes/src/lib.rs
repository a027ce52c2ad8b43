//! Stand-in for `aes`: AES-128 from FIPS 197.
use generic_array::{GenericArray, typenum::U16};
use std::sync::LazyLock;

fn xt(a: u8) -> u8 {
    (a << 1) ^ if a & 0x80 != 0 { 0x1b } else { 0 }
}
fn gmul(mut a: u8, mut b: u8) -> u8 {
    let mut r = 0;
    while b != 0 {
        if b & 1 != 0 {
            r ^= a;
        }
        a = xt(a);
        b >>= 1;
    }
    r
}
static SBOX: LazyLock<[u8; 256]> = LazyLock::new(|| {
    let mut s = [0u8; 256];
    for i in 0..256 {
        let x = i as u8;
        let inv = (0..=255u8).find(|y| gmul(x, *y) == 1).unwrap_or(0);
        s[i] = inv ^ inv.rotate_left(1) ^ inv.rotate_left(2) ^ inv.rotate_left(3) ^ inv.rotate_left(4) ^ 0x63;
    }
    s
});

/// The eleven round keys.
pub fn expand(key: &[u8; 16]) -> [u8; 176] {
    let s = &*SBOX;
    let mut w = [0u8; 176];
    w[..16].copy_from_slice(key);
    let mut rcon = 1;
    for i in 4..44 {
        let mut t = [w[4 * i - 4], w[4 * i - 3], w[4 * i - 2], w[4 * i - 1]];
        if i % 4 == 0 {
            t = [s[t[1] as usize] ^ rcon, s[t[2] as usize], s[t[3] as usize], s[t[0] as usize]];
            rcon = xt(rcon);
        }
        for j in 0..4 {
            w[4 * i + j] = w[4 * i - 16 + j] ^ t[j];
        }
    }
    w
}
/// Encrypts with expanded keys.
pub fn encrypt(w: &[u8; 176], b: &[u8; 16]) -> [u8; 16] {
    let s = &*SBOX;
    let mut st: [u8; 16] = std::array::from_fn(|i| b[i] ^ w[i]);
    for r in 1..11 {
        let t: [u8; 16] = std::array::from_fn(|i| s[st[(i + 4 * (i % 4)) % 16] as usize]);
        st = t;
        if r < 10 {
            for c in 0..4 {
                let a = [t[4 * c], t[4 * c + 1], t[4 * c + 2], t[4 * c + 3]];
                for i in 0..4 {
                    st[4 * c + i] = xt(a[i]) ^ xt(a[(i + 1) % 4]) ^ a[(i + 1) % 4] ^ a[(i + 2) % 4] ^ a[(i + 3) % 4];
                }
            }
        }
        for i in 0..16 {
            st[i] ^= w[16 * r + i];
        }
    }
    st
}

/// The block cipher.
#[derive(Clone)]
pub struct Aes128([u8; 176]);
impl Aes128 {
    /// From a key.
    pub fn from_key(k: &[u8; 16]) -> Self {
        Aes128(expand(k))
    }
    /// Encrypts a block.
    pub fn block(&self, b: &[u8; 16]) -> [u8; 16] {
        encrypt(&self.0, b)
    }
}
/// Traits.
pub mod cipher {
    pub use generic_array;
    use super::*;
    /// Key set-up.
    pub trait KeyInit: Sized {
        /// From a key.
        fn new(key: &GenericArray<u8, U16>) -> Self;
    }
    impl KeyInit for Aes128 {
        fn new(key: &GenericArray<u8, U16>) -> Self {
            Aes128(expand(key.as_slice().try_into().unwrap()))
        }
    }
    /// Block encryption.
    pub trait BlockEncrypt {
        /// In place.
        fn encrypt_block(&self, b: &mut GenericArray<u8, U16>);
    }
    impl BlockEncrypt for Aes128 {
        fn encrypt_block(&self, b: &mut GenericArray<u8, U16>) {
            let o = encrypt(&self.0, b.as_slice().try_into().unwrap());
            b.copy_from_slice(&o);
        }
    }
}
#[cfg(test)]
mod tests {
    #[test]
    fn fips197() {
        let k: [u8; 16] = std::array::from_fn(|i| i as u8);
        let p: [u8; 16] = std::array::from_fn(|i| (i * 0x11) as u8);
        let c = super::encrypt(&super::expand(&k), &p);
        assert_eq!(c, [0x69, 0xc4, 0xe0, 0xd8, 0x6a, 0x7b, 0x04, 0x30, 0xd8, 0xcd, 0xb7, 0x80, 0x70, 0xb4, 0xc5, 0x5a]);
    }
}
