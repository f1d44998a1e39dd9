// exposes private items to the contracts in /verif (only with --cfg tsdbtk_verif)
use super::*;
type A = StateAgg<'static>;
pub fn i_timeline(s: TimestampTz, d: Interval, p: Option<A>) -> AccessorInterpolatedStateTimeline<'static> { super::accessor_state_agg_interpolated_interpolated_state_timeline(s, d, p) }
pub fn i_int_timeline(s: TimestampTz, d: Interval, p: Option<A>) -> AccessorInterpolatedStateIntTimeline<'static> { super::accessor_state_agg_interpolated_interpolated_state_int_timeline(s, d, p) }
pub fn i_duration(v: String, s: TimestampTz, d: Interval, p: Option<A>) -> AccessorInterpolatedDurationIn<'static> { super::accessor_state_agg_interpolated_interpolated_duration_in(v, s, d, p) }
pub fn i_duration_int(v: i64, s: TimestampTz, d: Interval, p: Option<A>) -> AccessorInterpolatedDurationInInt<'static> { super::accessor_state_agg_interpolated_interpolated_duration_in_int(v, s, d, p) }
pub fn i_periods(v: String, s: TimestampTz, d: Interval, p: Option<A>) -> AccessorInterpolatedStatePeriods<'static> { super::accessor_state_agg_interpolated_interpolated_state_periods(v, s, d, p) }
pub fn i_periods_int(v: i64, s: TimestampTz, d: Interval, p: Option<A>) -> AccessorInterpolatedStatePeriodsInt<'static> { super::accessor_state_agg_interpolated_interpolated_state_periods_int(v, s, d, p) }
pub fn duration(v: String) -> AccessorDurationIn<'static> { super::accessor_state_agg_duration_in(v) }
pub fn duration_int(v: i64) -> AccessorDurationInInt { super::accessor_state_agg_duration_in_int(v) }
pub fn periods(v: String) -> AccessorStatePeriods<'static> { super::accessor_state_agg_state_periods(v) }
pub fn periods_int(v: i64) -> AccessorStatePeriodsInt { super::accessor_state_agg_state_periods_int(v) }
pub fn range(v: String, s: TimestampTz, d: Option<Interval>) -> AccessorDurationInRange<'static> { super::accessor_state_agg_duration_in_range(v, s, d) }
pub fn range_int(v: i64, s: TimestampTz, d: Option<Interval>) -> AccessorDurationInRangeInt { super::accessor_state_agg_duration_in_range_int(v, s, d) }
pub fn at(t: TimestampTz) -> AccessorStateAt { super::accessor_state_agg_state_at(t) }
pub fn at_int(t: TimestampTz) -> AccessorStateAtInt { super::accessor_state_agg_state_at_int(t) }
