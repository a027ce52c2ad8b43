//! `mpz-ot`, `mpz-ole`, `mpz-garble-core`: shells, the machines are ideal.
use crate::{
    common::{Context, Flush},
    core::Block,
};
use async_trait::async_trait;
use std::marker::PhantomData;

/// A global correlation.
#[derive(Debug, Clone, Copy)]
pub struct Delta(Block);
impl Delta {
    /// From a block.
    pub fn new(b: Block) -> Self {
        Delta(b)
    }
    /// Random.
    pub fn random<R: rand_core::RngCore + ?Sized>(r: &mut R) -> Self {
        Delta(Block::random(r))
    }
    /// The block.
    pub fn into_inner(self) -> Block {
        self.0
    }
}
/// No error.
#[derive(Debug, thiserror::Error)]
#[error("ot")]
pub struct OtError;
macro_rules! shell {
    ($n:ident [$($g:ident),*] ($($a:ident : $t:ty),*)) => {
        /// A shell.
        pub struct $n<$($g),*>(PhantomData<fn() -> ($($g,)*)>);
        impl<$($g),*> $n<$($g),*> {
            /// New.
            pub fn new($($a: $t),*) -> Self {
                $(let _ = $a;)*
                $n(PhantomData)
            }
        }
        impl<$($g),*> std::fmt::Debug for $n<$($g),*> {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.write_str(stringify!($n))
            }
        }
        #[async_trait]
        impl<$($g: 'static),*> Flush for $n<$($g),*> {
            type Error = OtError;
            fn wants_flush(&self) -> bool { false }
            async fn flush(&mut self, _: &mut Context) -> Result<(), OtError> { Ok(()) }
        }
    };
}
/// Base transfer.
pub mod chou_orlandi {
    use super::*;
    shell!(Sender [] ());
    shell!(Receiver [] ());
    impl Default for Sender {
        fn default() -> Self {
            Self::new()
        }
    }
    impl Default for Receiver {
        fn default() -> Self {
            Self::new()
        }
    }
}
/// Extension.
pub mod kos {
    use super::*;
    /// Options.
    #[derive(Debug, Default, Clone)]
    pub struct SenderConfig;
    /// Options.
    #[derive(Debug, Default, Clone)]
    pub struct ReceiverConfig;
    shell!(Sender [T] (c: SenderConfig, delta: Block, base: T));
    shell!(Receiver [T] (c: ReceiverConfig, base: T));
    impl<T: 'static> rcot::RCOTSender<Block> for Sender<T> {}
    impl<T: 'static> rcot::RCOTReceiver<bool, Block> for Receiver<T> {}
}
/// Extension.
pub mod ferret {
    use super::*;
    /// Kind of noise.
    #[derive(Debug, Default, Clone, Copy)]
    #[allow(missing_docs)]
    pub enum LpnType {
        #[default]
        Uniform,
        Regular,
    }
    /// Options.
    #[derive(Debug, Default, Clone)]
    pub struct FerretConfig;
    /// Options.
    #[derive(Debug, Default, Clone)]
    pub struct FerretConfigBuilder;
    impl FerretConfig {
        /// Options.
        pub fn builder() -> FerretConfigBuilder {
            FerretConfigBuilder
        }
    }
    impl FerretConfigBuilder {
        /// Kind of noise.
        pub fn lpn_type(&mut self, _: LpnType) -> &mut Self {
            self
        }
        /// Finishes.
        pub fn build(&self) -> Result<FerretConfig, OtError> {
            Ok(FerretConfig)
        }
    }
    shell!(Sender [T] (c: FerretConfig, seed: Block, inner: T));
    shell!(Receiver [T] (c: FerretConfig, seed: Block, inner: T));
    impl<T: 'static> rcot::RCOTSender<Block> for Sender<T> {}
    impl<T: 'static> rcot::RCOTReceiver<bool, Block> for Receiver<T> {}
}
/// Random correlated transfer.
pub mod rcot {
    use super::*;
    /// Sender.
    pub trait RCOTSender<T> {}
    /// Receiver.
    pub trait RCOTReceiver<T, U> {}
    /// Shared.
    pub mod shared {
        use super::*;
        /// A shell.
        pub struct SharedRCOTSender<S, B>(PhantomData<fn() -> (S, B)>);
        /// A shell.
        pub struct SharedRCOTReceiver<S, T, B>(PhantomData<fn() -> (S, T, B)>);
        impl<S, B> SharedRCOTSender<S, B> {
            /// New.
            pub fn new(_: S) -> Self {
                Self(PhantomData)
            }
        }
        impl<S, T, B> SharedRCOTReceiver<S, T, B> {
            /// New.
            pub fn new(_: S) -> Self {
                Self(PhantomData)
            }
        }
        impl<S, B> Clone for SharedRCOTSender<S, B> {
            fn clone(&self) -> Self {
                Self(PhantomData)
            }
        }
        impl<S, T, B> Clone for SharedRCOTReceiver<S, T, B> {
            fn clone(&self) -> Self {
                Self(PhantomData)
            }
        }
        impl<S, B> RCOTSender<B> for SharedRCOTSender<S, B> {}
        impl<S, T, B> RCOTReceiver<T, B> for SharedRCOTReceiver<S, T, B> {}
        #[async_trait]
        impl<S: 'static, B: 'static> Flush for SharedRCOTSender<S, B> {
            type Error = OtError;
            fn wants_flush(&self) -> bool {
                false
            }
            async fn flush(&mut self, _: &mut Context) -> Result<(), OtError> {
                Ok(())
            }
        }
        #[async_trait]
        impl<S: 'static, T: 'static, B: 'static> Flush for SharedRCOTReceiver<S, T, B> {
            type Error = OtError;
            fn wants_flush(&self) -> bool {
                false
            }
            async fn flush(&mut self, _: &mut Context) -> Result<(), OtError> {
                Ok(())
            }
        }
    }
}
/// Correlated transfer.
pub mod cot {
    use super::*;
    shell!(DerandCOTSender [T] (r: T));
    shell!(DerandCOTReceiver [T] (r: T));
}
/// Random transfer.
pub mod rot {
    use super::*;
    /// Any.
    pub mod any {
        use super::*;
        shell!(AnySender [T] (r: T));
        shell!(AnyReceiver [T] (r: T));
    }
    /// From correlated.
    pub mod randomize {
        use super::*;
        shell!(RandomizeRCOTSender [T] (r: T));
        shell!(RandomizeRCOTReceiver [T] (r: T));
    }
}
/// Oblivious linear evaluation.
pub mod ole {
    use super::*;
    shell!(Sender [T] (seed: Block, r: T));
    shell!(Receiver [T] (r: T));
}
/// Ideal transfer for tests.
pub mod ideal {
    use super::*;
    /// Pairs.
    pub mod rcot {
        use super::*;
        shell!(IdealRCOTSender [] ());
        shell!(IdealRCOTReceiver [] ());
        impl super::super::rcot::RCOTSender<Block> for IdealRCOTSender {}
        impl super::super::rcot::RCOTReceiver<bool, Block> for IdealRCOTReceiver {}
        impl Clone for IdealRCOTSender {
            fn clone(&self) -> Self {
                Self::new()
            }
        }
        impl Clone for IdealRCOTReceiver {
            fn clone(&self) -> Self {
                Self::new()
            }
        }
        /// A pair.
        pub fn ideal_rcot(_: Block, _: Block) -> (IdealRCOTSender, IdealRCOTReceiver) {
            (IdealRCOTSender::new(), IdealRCOTReceiver::new())
        }
    }
}
