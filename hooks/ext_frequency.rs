// exposes private items to the contracts in /verif (only with --cfg tsdbtk_verif)
use super::*;
pub fn fin(s: Internal) -> Option<SpaceSavingAggregate<'static>> { space_saving_final(s, std::ptr::null_mut()) }
pub fn fin_bigint(s: Internal) -> Option<SpaceSavingBigIntAggregate<'static>> { space_saving_bigint_final(s, std::ptr::null_mut()) }
pub fn fin_text(s: Internal) -> Option<SpaceSavingTextAggregate<'static>> { space_saving_text_final(s, std::ptr::null_mut()) }
pub fn ser(s: Internal) -> Option<bytea> { space_saving_serialize(s) }
pub use crate::raw::text as RawText;
