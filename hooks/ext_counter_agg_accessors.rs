// exposes private items to the contracts in /verif (only with --cfg tsdbtk_verif)
use super::*;
use crate::raw::{Interval, TimestampTz};
pub fn rate(s: TimestampTz, d: Interval, p: Option<CounterSummary>, n: Option<CounterSummary>) -> CounterInterpolatedRateAccessor { super::counter_interpolated_rate_accessor(s, d, p, n) }
pub fn delta(s: TimestampTz, d: Interval, p: Option<CounterSummary>, n: Option<CounterSummary>) -> CounterInterpolatedDeltaAccessor { super::counter_interpolated_delta_accessor(s, d, p, n) }
