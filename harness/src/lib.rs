//! Symbolic harnesses over the real hyperbee crate. Every `h_*` function is an entry point of the
//! symbolic executor; it states one property as assertions over symbolic inputs.
#![allow(clippy::new_without_default, clippy::missing_safety_doc)]
#[cfg(feature = "hb")]
pub mod alone;
#[cfg(feature = "hb")]
pub mod cas;
#[cfg(feature = "hb")]
pub mod cause;
#[cfg(feature = "hb")]
pub mod cffi;
pub mod codec;
#[cfg(feature = "hb")]
pub mod conc;
#[cfg(feature = "hb")]
pub mod corrupt;
#[cfg(feature = "hb")]
pub mod env;
#[cfg(feature = "hb")]
pub mod hist;
#[cfg(feature = "hb")]
pub mod jsref;
#[cfg(feature = "hb")]
pub mod lazy;
#[cfg(feature = "hb")]
pub mod logs;
#[cfg(feature = "hb")]
pub mod long;
#[cfg(feature = "hb")]
pub mod misc;
#[cfg(feature = "hb")]
pub mod need;
#[cfg(feature = "hb")]
pub mod robust;
pub mod rt;
#[cfg(feature = "hb")]
pub mod streams;
pub mod sym;
#[cfg(feature = "hb")]
pub mod subs;
#[cfg(feature = "hb")]
pub mod trav;
#[cfg(feature = "hb")]
pub mod trees;
#[cfg(feature = "hb")]
pub mod trouble;
#[cfg(feature = "wire")]
pub mod wire;

pub type Entry = (&'static str, extern "C" fn());
#[macro_export]
macro_rules! entries {
    ($($name:ident => $body:expr;)*) => {
        $(#[no_mangle] pub extern "C" fn $name() { $body })*
        pub static LIST: &[$crate::Entry] = &[$((stringify!($name), $name)),*];
    };
}
#[used]
pub static ENTRIES: &[&[Entry]] = &[#[cfg(feature = "hb")] trees::LIST, #[cfg(feature = "hb")] robust::LIST, #[cfg(feature = "hb")] trav::LIST, #[cfg(feature = "hb")] hist::LIST, #[cfg(feature = "hb")] cas::LIST, #[cfg(feature = "hb")] conc::LIST, #[cfg(feature = "hb")] subs::LIST, #[cfg(feature = "hb")] cffi::LIST, #[cfg(feature = "hb")] corrupt::LIST, #[cfg(feature = "hb")] misc::LIST, #[cfg(feature = "hb")] long::LIST, #[cfg(feature = "hb")] logs::LIST, #[cfg(feature = "hb")] alone::LIST, #[cfg(feature = "hb")] trouble::LIST, #[cfg(feature = "hb")] streams::LIST, #[cfg(feature = "hb")] cause::LIST, #[cfg(feature = "hb")] need::LIST, #[cfg(feature = "wire")] wire::LIST];
