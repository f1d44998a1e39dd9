pub use crate::cagg::c07::*;
#[cfg(not(kani))]
pub use crate::cagg::model::C07 as XLIST;
