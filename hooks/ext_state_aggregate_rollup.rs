// exposes private items to the contracts in /verif (only with --cfg tsdbtk_verif)
use super::*;
pub fn finish(s: Internal, f: pg_sys::FunctionCallInfo) -> Option<StateAgg<'static>> { super::state_agg_rollup_final(s, f) }
pub fn compact_finish(s: Internal, f: pg_sys::FunctionCallInfo) -> Option<CompactStateAgg<'static>> { super::compact_state_agg_rollup_final(s, f) }
/// (first_time, last_time, first_state, last_state) with (state, duration) and (state, start, end) lists; integer states
type Parts = ((i64, i64, u32, u32), Vec<(i64, i64)>, Vec<(i64, i64, i64)>);
pub fn merge(a: Parts, b: Parts, compact: bool) -> Parts {
    let own = |p: Parts| OwnedCompactStateAgg {
        durations: p.1.into_iter().map(|(s, d)| DurationInState { duration: d, state: StateEntry { a: i64::MAX, b: s } }).collect(),
        combined_durations: p.2.into_iter().map(|(s, x, y)| TimeInState { start_time: x, end_time: y, state: StateEntry { a: i64::MAX, b: s } }).collect(),
        first_time: p.0.0, last_time: p.0.1, first_state: p.0.2, last_state: p.0.3, states: vec![], compact, integer_states: true,
    };
    let m = own(a).merge(own(b));
    ((m.first_time, m.last_time, m.first_state, m.last_state), m.durations.into_iter().map(|d| (d.state.into_integer(), d.duration)).collect(),
     m.combined_durations.into_iter().map(|t| (t.state.into_integer(), t.start_time, t.end_time)).collect())
}
