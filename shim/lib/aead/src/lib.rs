//! Stand-in for `aead` 0.4: as much of it as TLSNotary names.
pub use generic_array;

/// Error.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Error;

/// Message and additional data.
#[derive(Debug, Clone, Copy)]
pub struct Payload<'m, 'a> {
    /// Message.
    pub msg: &'m [u8],
    /// Additional data.
    pub aad: &'a [u8],
}
impl<'m> From<&'m [u8]> for Payload<'m, '_> {
    fn from(msg: &'m [u8]) -> Self {
        Payload { msg, aad: b"" }
    }
}

/// Creation from a key.
pub trait NewAead: Sized {
    /// Creates.
    fn new_from_slice(key: &[u8]) -> Result<Self, Error>;
    /// Creates.
    fn new(key: &generic_array::GenericArray<u8, generic_array::typenum::U16>) -> Self {
        Self::new_from_slice(key).ok().expect("16 bytes")
    }
}

/// Encryption.
pub trait Aead {
    /// Nonce.
    type NonceSize: generic_array::ArrayLength<u8>;
    /// Encrypts.
    fn encrypt<'m, 'a>(
        &self,
        nonce: &generic_array::GenericArray<u8, Self::NonceSize>,
        p: impl Into<Payload<'m, 'a>>,
    ) -> Result<Vec<u8>, Error>;
    /// Decrypts.
    fn decrypt<'m, 'a>(
        &self,
        nonce: &generic_array::GenericArray<u8, Self::NonceSize>,
        p: impl Into<Payload<'m, 'a>>,
    ) -> Result<Vec<u8>, Error>;
}

/// Encryption of a buffer, with the tag apart.
pub trait AeadInPlace {
    /// Encrypts.
    fn encrypt_in_place_detached(
        &self,
        nonce: &generic_array::GenericArray<u8, generic_array::typenum::U12>,
        aad: &[u8],
        buf: &mut [u8],
    ) -> Result<generic_array::GenericArray<u8, generic_array::typenum::U16>, Error>;
    /// Decrypts.
    fn decrypt_in_place_detached(
        &self,
        nonce: &generic_array::GenericArray<u8, generic_array::typenum::U12>,
        aad: &[u8],
        buf: &mut [u8],
        tag: &generic_array::GenericArray<u8, generic_array::typenum::U16>,
    ) -> Result<(), Error>;
}
/// The same for those which change as they go.
pub trait AeadMutInPlace {
    /// Encrypts.
    fn encrypt_in_place_detached(
        &mut self,
        nonce: &generic_array::GenericArray<u8, generic_array::typenum::U12>,
        aad: &[u8],
        buf: &mut [u8],
    ) -> Result<generic_array::GenericArray<u8, generic_array::typenum::U16>, Error>;
    /// Decrypts.
    fn decrypt_in_place_detached(
        &mut self,
        nonce: &generic_array::GenericArray<u8, generic_array::typenum::U12>,
        aad: &[u8],
        buf: &mut [u8],
        tag: &generic_array::GenericArray<u8, generic_array::typenum::U16>,
    ) -> Result<(), Error>;
}
impl<A: AeadInPlace> AeadMutInPlace for A {
    fn encrypt_in_place_detached(
        &mut self,
        nonce: &generic_array::GenericArray<u8, generic_array::typenum::U12>,
        aad: &[u8],
        buf: &mut [u8],
    ) -> Result<generic_array::GenericArray<u8, generic_array::typenum::U16>, Error> {
        AeadInPlace::encrypt_in_place_detached(self, nonce, aad, buf)
    }
    fn decrypt_in_place_detached(
        &mut self,
        nonce: &generic_array::GenericArray<u8, generic_array::typenum::U12>,
        aad: &[u8],
        buf: &mut [u8],
        tag: &generic_array::GenericArray<u8, generic_array::typenum::U16>,
    ) -> Result<(), Error> {
        AeadInPlace::decrypt_in_place_detached(self, nonce, aad, buf, tag)
    }
}
