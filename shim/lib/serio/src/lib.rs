//! Stand-in for `serio`: typed messages over a channel.
use serde::{Serialize, de::DeserializeOwned};
use std::future::Future;

/// A channel of serialized messages.
pub trait Sink {
    /// Sends one serialized value.
    fn put<T: Serialize + Send>(&mut self, item: T) -> impl Future<Output = std::io::Result<()>> + Send;
}
/// A source of serialized messages.
pub trait IoStream {
    /// Receives one value; `None` at the end.
    fn take<T: DeserializeOwned + Send>(&mut self) -> impl Future<Output = Option<std::io::Result<T>>> + Send;
}
/// Sending.
pub mod sink {
    use super::*;
    /// Extension of every sink.
    pub trait SinkExt: Sink {
        /// Sends a value.
        fn send<T: Serialize + Send>(&mut self, item: T) -> impl Future<Output = std::io::Result<()>> + Send {
            self.put(item)
        }
        /// Sends a value, without waiting for delivery.
        fn feed<T: Serialize + Send>(&mut self, item: T) -> impl Future<Output = std::io::Result<()>> + Send {
            self.put(item)
        }
    }
    impl<S: Sink + ?Sized> SinkExt for S {}
}
/// Receiving.
pub mod stream {
    use super::*;
    /// Extension of every stream.
    pub trait IoStreamExt: IoStream + Send {
        /// Receives a value, the end being an error.
        fn expect_next<T: DeserializeOwned + Send>(&mut self) -> impl Future<Output = std::io::Result<T>> + Send {
            async move {
                match self.take().await {
                    Some(r) => r,
                    None => Err(std::io::ErrorKind::UnexpectedEof.into()),
                }
            }
        }
    }
    impl<S: IoStream + Send + ?Sized> IoStreamExt for S {}
}
pub use sink::SinkExt;
