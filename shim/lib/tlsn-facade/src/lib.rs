//! What the parts of the SDK which are built here see of the protocol crate.
pub use tlsn_core::*;

/// Error of a session.
#[derive(Debug)]
pub struct Error;
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("error")
    }
}
impl std::error::Error for Error {}
