// exposes private items to the contracts in /verif (only with --cfg tsdbtk_verif)
use super::*;
pub fn fin(s: Internal) -> Option<TimeWeightSummary> { super::time_weight_final(s, std::ptr::null_mut()) }
pub fn first_val(s: TimeWeightSummary) -> f64 { super::time_weight_first_val(s) }
pub fn last_val(s: TimeWeightSummary) -> f64 { super::time_weight_last_val(s) }
pub fn first_time(s: TimeWeightSummary) -> crate::raw::TimestampTz { super::time_weight_first_time(s) }
pub fn last_time(s: TimeWeightSummary) -> crate::raw::TimestampTz { super::time_weight_last_time(s) }
pub use super::accessors::verif as acc;
