//! The parts of sdk-core which need no session: the real sources, included by path.
#[path = "../../../crates/sdk-core/src/config.rs"]
pub mod config;
#[path = "../../../crates/sdk-core/src/error.rs"]
pub mod error;
#[path = "../../../crates/sdk-core/src/handler/mod.rs"]
pub mod handler;
#[path = "../../../crates/sdk-core/src/io.rs"]
pub mod io;
#[path = "../../../crates/sdk-core/src/types.rs"]
pub mod types;

pub use config::{NetworkSetting, ProverConfig, ProverMode, VerifierConfig};
pub use error::{Result, SdkError};
pub use handler::compute_reveal;
pub use io::{HyperIo, Io};
pub use types::{
    Body, Commit, CommitRange, ConnectionInfo, Handler, HandlerAction, HandlerParams, HandlerPart, HandlerType, HashAlgorithm, HashOpening, HttpRequest, HttpResponse, Method, PartialTranscript, Reveal, RevealOutput, TlsVersion,
    Transcript, TranscriptLength, VerifierOutput,
};
