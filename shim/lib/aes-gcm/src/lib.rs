//! Stand-in for `aes-gcm` 0.9 on ring.
pub use aead;
pub use aead::NewAead;
use aead::{Error, Payload};
use generic_array::{typenum::U12, GenericArray};
use ring::aead::{Aad, LessSafeKey, Nonce, UnboundKey, AES_128_GCM};

/// AES-128 in Galois counter mode.
pub struct Aes128Gcm(LessSafeKey);

impl NewAead for Aes128Gcm {
    fn new_from_slice(key: &[u8]) -> Result<Self, Error> {
        UnboundKey::new(&AES_128_GCM, key)
            .map(|k| Aes128Gcm(LessSafeKey::new(k)))
            .map_err(|_| Error)
    }
}

impl aead::Aead for Aes128Gcm {
    type NonceSize = U12;
    fn encrypt<'m, 'a>(
        &self,
        nonce: &GenericArray<u8, U12>,
        p: impl Into<Payload<'m, 'a>>,
    ) -> Result<Vec<u8>, Error> {
        let p = p.into();
        let mut v = p.msg.to_vec();
        let n = Nonce::assume_unique_for_key(nonce.as_slice().try_into().unwrap());
        self.0
            .seal_in_place_append_tag(n, Aad::from(p.aad), &mut v)
            .map_err(|_| Error)?;
        Ok(v)
    }
    fn decrypt<'m, 'a>(
        &self,
        nonce: &GenericArray<u8, U12>,
        p: impl Into<Payload<'m, 'a>>,
    ) -> Result<Vec<u8>, Error> {
        let p = p.into();
        let mut v = p.msg.to_vec();
        let n = Nonce::assume_unique_for_key(nonce.as_slice().try_into().unwrap());
        let len = self.0.open_in_place(n, Aad::from(p.aad), &mut v).map_err(|_| Error)?.len();
        v.truncate(len);
        Ok(v)
    }
}

impl aead::AeadInPlace for Aes128Gcm {
    fn encrypt_in_place_detached(
        &self,
        nonce: &GenericArray<u8, U12>,
        aad: &[u8],
        buf: &mut [u8],
    ) -> Result<GenericArray<u8, generic_array::typenum::U16>, Error> {
        let n = Nonce::assume_unique_for_key(nonce.as_slice().try_into().unwrap());
        let t = self.0.seal_in_place_separate_tag(n, Aad::from(aad), buf).map_err(|_| Error)?;
        Ok(*GenericArray::from_slice(t.as_ref()))
    }
    fn decrypt_in_place_detached(
        &self,
        nonce: &GenericArray<u8, U12>,
        aad: &[u8],
        buf: &mut [u8],
        tag: &GenericArray<u8, generic_array::typenum::U16>,
    ) -> Result<(), Error> {
        let n = Nonce::assume_unique_for_key(nonce.as_slice().try_into().unwrap());
        let mut v = [&*buf, tag.as_slice()].concat();
        let p = self.0.open_in_place(n, Aad::from(aad), &mut v).map_err(|_| Error)?;
        buf.copy_from_slice(p);
        Ok(())
    }
}
