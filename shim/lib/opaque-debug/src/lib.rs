//! Stand-in: a `Debug` which shows nothing but the type's name.
#[doc(hidden)]
pub extern crate core as __core;

#[macro_export]
macro_rules! implement {
    ($s:ident $(< $lt:tt $(: $clt:tt $(+ $dlt:tt)*)? $(, $lts:tt $(: $clts:tt $(+ $dlts:tt)*)?)* $(,)? >)?) => {
        impl $(< $lt $(: $clt $(+ $dlt)*)? $(, $lts $(: $clts $(+ $dlts)*)?)* >)?
            $crate::__core::fmt::Debug for $s $(< $lt $(, $lts)* >)?
        {
            fn fmt(&self, f: &mut $crate::__core::fmt::Formatter) -> $crate::__core::fmt::Result {
                write!(f, concat!(stringify!($s), " {{ ... }}"))
            }
        }
    };
}
