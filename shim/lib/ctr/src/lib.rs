//! Stand-in for `ctr`: 32-bit big-endian counter mode over AES-128.
use aes::Aes128;
use generic_array::{GenericArray, typenum::U16};
use std::marker::PhantomData;

/// Counter mode; the counter is the last four bytes and wraps.
pub struct Ctr32BE<C> {
    aes: Aes128,
    iv: [u8; 16],
    pos: u64,
    _pd: PhantomData<C>,
}
/// Traits.
pub mod cipher {
    pub use generic_array;
    use super::*;
    /// Key and nonce set-up.
    pub trait KeyIvInit: Sized {
        /// From key and initial block.
        fn new(key: &GenericArray<u8, U16>, iv: &GenericArray<u8, U16>) -> Self;
    }
    impl KeyIvInit for Ctr32BE<Aes128> {
        fn new(key: &GenericArray<u8, U16>, iv: &GenericArray<u8, U16>) -> Self {
            Ctr32BE {
                aes: Aes128::from_key(key.as_slice().try_into().unwrap()),
                iv: iv.as_slice().try_into().unwrap(),
                pos: 0,
                _pd: PhantomData,
            }
        }
    }
    /// Error.
    #[derive(Debug)]
    pub struct StreamCipherError;
    /// Key stream.
    pub trait StreamCipher {
        /// Xors the stream.
        fn apply_keystream(&mut self, b: &mut [u8]);
    }
    impl StreamCipher for Ctr32BE<Aes128> {
        fn apply_keystream(&mut self, b: &mut [u8]) {
            for x in b {
                let mut blk = self.iv;
                let c = u32::from_be_bytes(self.iv[12..].try_into().unwrap()).wrapping_add((self.pos / 16) as u32);
                blk[12..].copy_from_slice(&c.to_be_bytes());
                *x ^= self.aes.block(&blk)[(self.pos % 16) as usize];
                self.pos += 1;
            }
        }
    }
    /// Seeking.
    pub trait StreamCipherSeek {
        /// To a byte position.
        fn try_seek<T: TryInto<u64>>(&mut self, pos: T) -> Result<(), StreamCipherError>;
        /// To a byte position.
        fn seek<T: TryInto<u64>>(&mut self, pos: T) {
            self.try_seek(pos).unwrap()
        }
    }
    impl StreamCipherSeek for Ctr32BE<Aes128> {
        fn try_seek<T: TryInto<u64>>(&mut self, pos: T) -> Result<(), StreamCipherError> {
            self.pos = pos.try_into().map_err(|_| StreamCipherError)?;
            Ok(())
        }
    }
}
