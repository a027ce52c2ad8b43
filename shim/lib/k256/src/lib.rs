//! Stand-in for `k256`.
use eccore::{Curve, Field, U};
use std::sync::LazyLock;

/// The curve.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Secp256k1;

static P: LazyLock<Field> = LazyLock::new(|| Field::new(Secp256k1::P));
static N: LazyLock<Field> = LazyLock::new(|| Field::new(Secp256k1::N));

impl Curve for Secp256k1 {
    const P: U = [0xFFFFFFFEFFFFFC2F, !0, !0, !0];
    const N: U = [0xBFD25E8CD0364141, 0xBAAEDCE6AF48A03B, 0xFFFFFFFFFFFFFFFE, !0];
    const A: U = [0; 4];
    const B: U = [7, 0, 0, 0];
    const GX: U = [0x59F2815B16F81798, 0x029BFCDB2DCE28D9, 0x55A06295CE870B07, 0x79BE667EF9DCBBAC];
    const GY: U = [0x9C47D08FFB10D4B8, 0xFD17B448A6855419, 0x5DA4FBFC0E1108A8, 0x483ADA7726A3C465];
    const LOW_S: bool = true;
    fn p() -> &'static Field {
        &P
    }
    fn n() -> &'static Field {
        &N
    }
}

/// ECDSA.
pub mod ecdsa {
    pub use eccore::ecdsa::{signature, Error, RecoveryId};
    /// Signature.
    pub type Signature = eccore::ecdsa::Signature<super::Secp256k1>;
    /// Signing key.
    pub type SigningKey = eccore::ecdsa::SigningKey<super::Secp256k1>;
    /// Verifying key.
    pub type VerifyingKey = eccore::ecdsa::VerifyingKey<super::Secp256k1>;
}

#[cfg(test)]
mod tests {
    use super::ecdsa::{signature::*, *};
    #[test]
    fn known() {
        // Private key 1, "Satoshi Nakamoto" (widely published RFC 6979 vector).
        let mut k = [0u8; 32];
        k[31] = 1;
        let k = SigningKey::from_slice(&k).unwrap();
        let s: Signature = k.sign(b"Satoshi Nakamoto");
        let h: String = s.to_vec().iter().map(|b| format!("{b:02x}")).collect();
        assert_eq!(h, "934b1ea10a4b3c1757e2b0c017d0b6143ce3c9a7e6a4a49860d7a6ab210ee3d8\
                       2442ce9d2b916064108014783e923ec36b49743e2ffa1c4496f01a512aafd9e5");
        k.verifying_key().verify(b"Satoshi Nakamoto", &s).unwrap();
        assert!(k.verifying_key().verify(b"Satoshi Nakamotp", &s).is_err());
    }
}
