// exposes private items to the contracts in /verif (only with --cfg tsdbtk_verif)
use super::*;
use crate::raw::{Interval, TimestampTz};
pub fn average(s: TimestampTz, d: Interval, p: Option<TimeWeightSummary>, n: Option<TimeWeightSummary>) -> TimeWeightInterpolatedAverageAccessor { super::time_weight_interpolated_average_accessor(s, d, p, n) }
pub fn integral(s: TimestampTz, d: Interval, p: Option<TimeWeightSummary>, n: Option<TimeWeightSummary>, u: &str) -> TimeWeightInterpolatedIntegralAccessor { super::time_weight_interpolated_integral_accessor(s, d, p, n, u.to_string()) }
