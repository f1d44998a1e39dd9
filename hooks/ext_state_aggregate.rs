// exposes private items to the contracts in /verif (only with --cfg tsdbtk_verif)
use super::*;
pub use super::accessors::verif as acc;
pub use super::rollup::verif as roll;
pub use super::toolkit_experimental::CompactStateAgg as Compact;
pub use super::{compact_state_agg, state_agg};
pub fn int_trans(s: Internal, ts: TimestampTz, v: Option<i64>, f: pg_sys::FunctionCallInfo) -> Option<Internal> { super::state_agg_int_trans(s, ts, v, f) }
pub fn compact_int_trans(s: Internal, ts: TimestampTz, v: Option<i64>, f: pg_sys::FunctionCallInfo) -> Option<Internal> { super::compact_state_agg_int_trans(s, ts, v, f) }
pub fn state_at(a: StateAgg<'static>, t: TimestampTz) -> Option<String> { super::state_at(a, t) }
pub fn state_at_int(a: StateAgg<'static>, t: TimestampTz) -> Option<i64> { super::state_at_int(a, t) }
