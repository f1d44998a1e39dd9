#![cfg_attr(kani, feature(allocator_api))]
#[path = "../../hx/src/shim.rs"]
#[macro_use]
pub mod shim;
#[path = "../../hx/src/fp.rs"]
pub mod fp;
#[path = "../../hx/src/stubs.rs"]
pub mod stubs;
#[cfg(not(kani))]
pub mod pgstub;
#[cfg(not(kani))]
pub mod pgsyms;
macro_rules! modules { ($($f:literal $m:ident),*) => {
    $( #[cfg(feature = $f)] pub mod $m; )*
    #[cfg(not(kani))]
    pub fn all() -> Vec<&'static [(&'static str, fn())]> {
        vec![ $( #[cfg(feature = $f)] $m::LIST ),* ]
    }
    #[cfg(not(kani))]
    pub fn executed() -> Vec<&'static [(&'static str, fn())]> {
        vec![ $( #[cfg(feature = $f)] $m::XLIST ),* ]
    }
} }
#[cfg(not(kani))]
#[macro_use]
pub mod sql;
modules!("c02" c02, "c03" c03, "c04" c04, "c05" c05, "c11" c11, "c10" c10, "c12" c12, "c13" c13, "c14" c14, "c15" c15, "c16" c16, "c17" c17, "c18" c18, "c19" c19, "c21" c21, "c24" c24);
