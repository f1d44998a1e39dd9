// exposes private items to the contracts in /verif (only with --cfg tsdbtk_verif)
use super::*;
use crate::raw::{Interval, TimestampTz};
type G = GaugeSummary;
pub fn trans(s: Internal, ts: Option<TimestampTz>, v: Option<f64>, b: Option<tstzrange>) -> Option<Internal> { super::gauge_agg_trans(s, ts, v, b, std::ptr::null_mut()) }
pub fn trans_no_bounds(s: Internal, ts: Option<TimestampTz>, v: Option<f64>) -> Option<Internal> { super::gauge_agg_trans_no_bounds(s, ts, v, std::ptr::null_mut()) }
pub fn summary_trans(s: Internal, v: Option<G>) -> Option<Internal> { super::gauge_agg_summary_trans(s, v, std::ptr::null_mut()) }
pub fn combine(a: Internal, b: Internal) -> Option<Internal> { super::gauge_agg_combine(a, b, std::ptr::null_mut()) }
pub fn fin(s: Internal) -> Option<G> { super::gauge_agg_final(s, std::ptr::null_mut()) }
pub fn ser(s: Internal) -> bytea { super::gauge_summary_trans_serialize(s) }
pub fn de(b: bytea) -> Option<Internal> { super::gauge_summary_trans_deserialize(b, Internal::from(None)) }
pub fn delta(g: G) -> f64 { super::delta(g) }
pub fn time_delta(g: G) -> f64 { super::time_delta(g) }
pub fn idelta_left(g: G) -> f64 { super::idelta_left(g) }
pub fn idelta_right(g: G) -> f64 { super::idelta_right(g) }
pub fn rate(g: G) -> Option<f64> { super::rate(g) }
pub fn irate_left(g: G) -> Option<f64> { super::irate_left(g) }
pub fn irate_right(g: G) -> Option<f64> { super::irate_right(g) }
pub fn extrapolated_delta(g: G) -> Option<f64> { super::extrapolated_delta(g) }
pub fn extrapolated_rate(g: G) -> Option<f64> { super::extrapolated_rate(g) }
pub fn slope(g: G) -> Option<f64> { super::slope(g) }
pub fn intercept(g: G) -> Option<f64> { super::intercept(g) }
pub fn corr(g: G) -> Option<f64> { super::corr(g) }
pub fn num_elements(g: G) -> i64 { super::num_elements(g) }
pub fn num_changes(g: G) -> i64 { super::num_changes(g) }
pub fn gauge_zero_time(g: G) -> Option<TimestampTz> { super::gauge_zero_time(g) }
pub fn with_bounds(g: G, b: tstzrange) -> G { super::with_bounds(g, b) }
pub fn interpolated_delta(g: G, s: TimestampTz, d: Interval, p: Option<G>, n: Option<G>) -> f64 { super::interpolated_delta(g, s, d, p, n) }
pub fn interpolated_rate(g: G, s: TimestampTz, d: Interval, p: Option<G>, n: Option<G>) -> Option<f64> { super::interpolated_rate(g, s, d, p, n) }
pub fn arrow_delta(g: G, a: AccessorDelta) -> f64 { super::arrow_delta(g, a) }
pub fn arrow_gauge_agg_rate(g: G, a: AccessorRate) -> Option<f64> { super::arrow_gauge_agg_rate(g, a) }
pub fn arrow_time_delta(g: G, a: AccessorTimeDelta) -> f64 { super::arrow_time_delta(g, a) }
pub fn arrow_irate_left(g: G, a: AccessorIrateLeft) -> Option<f64> { super::arrow_irate_left(g, a) }
pub fn arrow_irate_right(g: G, a: AccessorIrateRight) -> Option<f64> { super::arrow_irate_right(g, a) }
pub fn arrow_idelta_left(g: G, a: AccessorIdeltaLeft) -> f64 { super::arrow_idelta_left(g, a) }
pub fn arrow_idelta_right(g: G, a: AccessorIdeltaRight) -> f64 { super::arrow_idelta_right(g, a) }
pub fn arrow_with_bounds(g: G, a: AccessorWithBounds) -> G { super::arrow_with_bounds(g, a) }
pub fn arrow_extrapolated_delta(g: G, a: AccessorExtrapolatedDelta) -> Option<f64> { super::arrow_extrapolated_delta(g, a) }
pub fn arrow_extrapolated_rate(g: G, a: AccessorExtrapolatedRate) -> Option<f64> { super::arrow_extrapolated_rate(g, a) }
pub fn arrow_num_elements(g: G, a: AccessorNumElements) -> i64 { super::arrow_num_elements(g, a) }
pub fn arrow_num_changes(g: G, a: AccessorNumChanges) -> i64 { super::arrow_num_changes(g, a) }
pub fn arrow_slope(g: G, a: AccessorSlope) -> Option<f64> { super::arrow_slope(g, a) }
pub fn arrow_intercept(g: G, a: AccessorIntercept) -> Option<f64> { super::arrow_intercept(g, a) }
pub fn arrow_corr(g: G, a: AccessorCorr) -> Option<f64> { super::arrow_corr(g, a) }
pub fn arrow_zero_time(g: G, a: AccessorCounterZeroTime) -> Option<TimestampTz> { super::arrow_zero_time(g, a) }
