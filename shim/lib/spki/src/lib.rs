//! Stand-in for `spki` 0.8 on the real `der`: borrowed SubjectPublicKeyInfo.
pub use der;
use der::{
    asn1::{AnyRef, BitStringRef, ObjectIdentifier},
    Decode, Reader,
};

/// Algorithm.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct AlgorithmIdentifierRef<'a> {
    /// Identifier.
    pub oid: ObjectIdentifier,
    /// Parameters.
    pub parameters: Option<AnyRef<'a>>,
}

/// A public key with its algorithm.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct SubjectPublicKeyInfoRef<'a> {
    /// Algorithm.
    pub algorithm: AlgorithmIdentifierRef<'a>,
    /// Key.
    pub subject_public_key: BitStringRef<'a>,
}

impl<'a> Decode<'a> for SubjectPublicKeyInfoRef<'a> {
    type Error = der::Error;
    fn decode<R: Reader<'a>>(r: &mut R) -> der::Result<Self> {
        r.sequence(|r| {
            let algorithm = r.sequence(|r| {
                let oid = ObjectIdentifier::decode(r)?;
                let parameters = Option::<AnyRef<'a>>::decode(r)?;
                Ok::<_, der::Error>(AlgorithmIdentifierRef { oid, parameters })
            })?;
            let subject_public_key = BitStringRef::decode(r)?;
            Ok::<_, der::Error>(SubjectPublicKeyInfoRef { algorithm, subject_public_key })
        })
    }
}
