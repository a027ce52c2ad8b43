//! Stand-in for `p256`.
use eccore::{Curve, Field, U};
use std::sync::LazyLock;

/// The curve.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct NistP256;

static P: LazyLock<Field> = LazyLock::new(|| Field::new(NistP256::P));
static N: LazyLock<Field> = LazyLock::new(|| Field::new(NistP256::N));

impl Curve for NistP256 {
    const P: U = [0xFFFFFFFFFFFFFFFF, 0x00000000FFFFFFFF, 0, 0xFFFFFFFF00000001];
    const N: U = [0xF3B9CAC2FC632551, 0xBCE6FAADA7179E84, 0xFFFFFFFFFFFFFFFF, 0xFFFFFFFF00000000];
    const A: U = [0xFFFFFFFFFFFFFFFC, 0x00000000FFFFFFFF, 0, 0xFFFFFFFF00000001];
    const B: U = [0x3BCE3C3E27D2604B, 0x651D06B0CC53B0F6, 0xB3EBBD55769886BC, 0x5AC635D8AA3A93E7];
    const GX: U = [0xF4A13945D898C296, 0x77037D812DEB33A0, 0xF8BCE6E563A440F2, 0x6B17D1F2E12C4247];
    const GY: U = [0xCBB6406837BF51F5, 0x2BCE33576B315ECE, 0x8EE7EB4A7C0F9E16, 0x4FE342E2FE1A7F9B];
    const LOW_S: bool = false;
    fn p() -> &'static Field {
        &P
    }
    fn n() -> &'static Field {
        &N
    }
}

/// ECDSA.
pub mod ecdsa {
    pub use eccore::ecdsa::{signature, Error, RecoveryId};
    /// Signature.
    pub type Signature = eccore::ecdsa::Signature<super::NistP256>;
    /// Signing key.
    pub type SigningKey = eccore::ecdsa::SigningKey<super::NistP256>;
    /// Verifying key.
    pub type VerifyingKey = eccore::ecdsa::VerifyingKey<super::NistP256>;
}

mod arith;
pub use arith::*;

#[cfg(test)]
mod tests {
    use super::ecdsa::{signature::*, *};
    #[test]
    fn known() {
        // RFC 6979 A.2.5, SHA-256, "sample".
        let x: Vec<u8> = (0..32)
            .map(|i| u8::from_str_radix(&"C9AFA9D845BA75166B5C215767B1D6934E50C3DB36E89B127B8A622B120F6721"[2 * i..2 * i + 2], 16).unwrap())
            .collect();
        let k = SigningKey::from_slice(&x).unwrap();
        let s: Signature = k.sign(b"sample");
        let h: String = s.to_vec().iter().map(|b| format!("{b:02X}")).collect();
        assert_eq!(h, "EFD48B2AACB6A8FD1140DD9CD45E81D69D2C877B56AAF991C34D0EA84EAF3716\
                       F7CB1C942D657C41D436C7A1B6E29F65F3E900DBB9AFF4064DC4AB2F843ACDA8");
        k.verifying_key().verify(b"sample", &s).unwrap();
        assert!(k.verifying_key().verify(b"samplf", &s).is_err());
        let key = k.verifying_key().to_sec1_bytes();
        assert_eq!(VerifyingKey::from_sec1_bytes(&key).unwrap(), *k.verifying_key());
    }
}
