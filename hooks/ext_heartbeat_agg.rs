// exposes private items to the contracts in /verif (only with --cfg tsdbtk_verif)
use super::*;
pub use super::accessors::verif as acc;
pub fn interpolate(a: HeartbeatAgg<'static>, p: Option<HeartbeatAgg<'static>>) -> HeartbeatAgg<'static> { super::interpolate_heartbeat_agg(a, p) }
pub fn state(start: i64, end: i64, last: i64, interval_len: i64, buffer: Vec<i64>, liveness: Vec<(i64, i64)>) -> HeartbeatTransState {
    HeartbeatTransState { start, end, last, interval_len, buffer, liveness }
}
pub fn liveness(s: &HeartbeatTransState) -> &Vec<(i64, i64)> { &s.liveness }
pub fn buffer(s: &HeartbeatTransState) -> &Vec<i64> { &s.buffer }
pub fn bounds(s: &HeartbeatTransState) -> (i64, i64, i64, i64) { (s.start, s.end, s.last, s.interval_len) }
pub fn extend(s: &mut HeartbeatTransState, new_start: i64, new_end: i64) { s.extend_covered_interval(new_start, new_end) }
