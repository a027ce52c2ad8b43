//! The bindings of the wasm crate: the real sources, included by path, with stand-ins for
//! what only exists in a browser.
#![allow(non_snake_case)]
#[path = "../../../crates/wasm/src/handler.rs"]
pub mod handler;
#[path = "../../../crates/wasm/src/io.rs"]
pub mod io;
#[path = "../../../crates/wasm/src/prover/mod.rs"]
pub mod prover;
#[path = "../../../crates/wasm/src/types.rs"]
pub mod types;
#[path = "../../../crates/wasm/src/verifier/mod.rs"]
pub mod verifier;

/// The adapter, for the harness.
pub fn adapter(io: io::JsIo) -> impl futures::AsyncRead + futures::AsyncWrite + Unpin {
    io::JsIoAdapter::new(io)
}
