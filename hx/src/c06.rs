pub use crate::cagg::add::*;
#[cfg(not(kani))]
pub use crate::cagg::model::C06 as XLIST;
