//! Harnesses executed by the symbolic executor (see /verif/DESIGN.md). Every entry is an
//! `extern "C" fn()`; the same code is replayed natively by the `replay` binary.
#![allow(clippy::all)]
#[macro_export]
macro_rules! entries {
    ($($name:ident $body:block)*) => {
        $(#[no_mangle] pub extern "C" fn $name() { $body })*
        #[cfg(feature = "native")]
        pub fn entries() -> Vec<(&'static str, extern "C" fn())> { vec![$((stringify!($name), $name as extern "C" fn())),*] }
    };
}
#[cfg(feature = "native")]
pub mod native;
#[cfg(not(feature = "native"))]
pub mod curve;
pub mod sym;
pub mod val;

macro_rules! mods {
    ($($m:ident)*) => {
        $(pub mod $m;)*
        #[cfg(feature = "native")]
        pub fn entries() -> Vec<(&'static str, extern "C" fn())> {
            let mut v = vec![];
            $(v.extend($m::entries());)*
            v
        }
    };
}
mods! { wire size hostile ids fees rules roots sigs checked text access make }
