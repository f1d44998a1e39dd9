// exposes private items to the contracts in /verif (only with --cfg tsdbtk_verif)
use super::*;
pub fn trim_to(start: crate::raw::TimestampTz, d: Option<crate::raw::Interval>) -> HeartbeatTrimToAccessor { super::heartbeat_agg_trim_to_accessor(start, d) }
pub fn interpolate(p: Option<HeartbeatAgg<'static>>) -> HeartbeatInterpolateAccessor<'static> { super::heartbeat_agg_interpolate_accessor(p) }
pub fn uptime(p: Option<HeartbeatAgg<'static>>) -> HeartbeatInterpolatedUptimeAccessor<'static> { super::heartbeat_agg_interpolated_uptime_accessor(p) }
pub fn downtime(p: Option<HeartbeatAgg<'static>>) -> HeartbeatInterpolatedDowntimeAccessor<'static> { super::heartbeat_agg_interpolated_downtime_accessor(p) }
