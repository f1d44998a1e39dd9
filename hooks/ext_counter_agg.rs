// exposes private items to the contracts in /verif (only with --cfg tsdbtk_verif)
use super::*;
use crate::raw::{Interval, TimestampTz};
type G = CounterSummary;
pub fn fin(s: pgrx::Internal) -> Option<super::CounterSummary> { super::counter_agg_final(s, std::ptr::null_mut()) }
pub fn delta(g: G) -> f64 { super::counter_agg_delta(g) }
pub fn time_delta(g: G) -> f64 { super::counter_agg_time_delta(g) }
pub fn idelta_left(g: G) -> f64 { super::counter_agg_idelta_left(g) }
pub fn idelta_right(g: G) -> f64 { super::counter_agg_idelta_right(g) }
pub fn first_val(g: G) -> f64 { super::counter_agg_first_val(g) }
pub fn last_val(g: G) -> f64 { super::counter_agg_last_val(g) }
pub fn rate(g: G) -> Option<f64> { super::counter_agg_rate(g) }
pub fn irate_left(g: G) -> Option<f64> { super::counter_agg_irate_left(g) }
pub fn irate_right(g: G) -> Option<f64> { super::counter_agg_irate_right(g) }
pub fn slope(g: G) -> Option<f64> { super::counter_agg_slope(g) }
pub fn intercept(g: G) -> Option<f64> { super::counter_agg_intercept(g) }
pub fn corr(g: G) -> Option<f64> { super::counter_agg_corr(g) }
pub fn num_elements(g: G) -> i64 { super::counter_agg_num_elements(g) }
pub fn num_changes(g: G) -> i64 { super::counter_agg_num_changes(g) }
pub fn num_resets(g: G) -> i64 { super::counter_agg_num_resets(g) }
pub fn counter_zero_time(g: G) -> Option<TimestampTz> { super::counter_agg_counter_zero_time(g) }
pub fn first_time(g: G) -> TimestampTz { super::counter_agg_first_time(g) }
pub fn last_time(g: G) -> TimestampTz { super::counter_agg_last_time(g) }
pub fn extrapolated_delta(g: G, m: &str) -> Option<f64> { super::counter_agg_extrapolated_delta(g, m) }
pub fn extrapolated_rate(g: G, m: &str) -> Option<f64> { super::counter_agg_extrapolated_rate(g, m) }
pub fn with_bounds(g: G, b: tstzrange) -> G { super::counter_agg_with_bounds(g, b) }
pub fn interpolated_delta(g: G, s: TimestampTz, d: Interval, p: Option<G>, n: Option<G>) -> f64 { super::counter_agg_interpolated_delta(g, s, d, p, n) }
pub fn interpolated_rate(g: G, s: TimestampTz, d: Interval, p: Option<G>, n: Option<G>) -> Option<f64> { super::counter_agg_interpolated_rate(g, s, d, p, n) }
pub use super::accessors::verif as acc;
