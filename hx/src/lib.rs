#![cfg_attr(kani, feature(allocator_api))]
#[macro_use]
pub mod shim;
pub mod fp;
#[cfg(not(kani))]
pub mod sym;
pub mod stubs;
macro_rules! modules { ($($f:literal $m:ident $(:: $s:ident)?),*) => {
    $( #[cfg(feature = $f)] pub mod $m; )*
    #[cfg(not(kani))]
    pub fn all() -> Vec<&'static [(&'static str, fn())]> {
        vec![ $( #[cfg(feature = $f)] $m::LIST ),* ]
    }
    #[cfg(not(kani))]
    pub fn executed() -> Vec<&'static [(&'static str, fn())]> {
        vec![ $( #[cfg(feature = $f)] $m::XLIST ),* ]
    }
} }
#[cfg(any(feature = "c06", feature = "c07"))]
pub mod cagg;
modules!("c01" c01, "c02" c02, "c03" c03, "c04" c04, "c05" c05, "c06" c06, "c07" c07, "c08" c08, "c09" c09, "c11" c11);
