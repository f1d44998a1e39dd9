"""What decides each property.  kani[].bounded maps a harness to the bound it is labelled with; a harness that
is not listed there is loop-free (or its loop is bounded by operand width) over its full input domain."""
PUSH = "Vec::push replaced by its contract (append one element; growth not re-verified)"
FEW = "values from {0, +-1, +-1.5, +-2, +-3}"
SMALL = "doubles with an 8-bit significand and exponents -4..3"
STATS = "StatsSummary2D::{accum,offset,combine} replaced by their contracts (what they compute is property C11)"
STEP = "histories follow from the per-step contracts by induction: each step is verified from an arbitrary state satisfying the representation invariant"
EXEC = "contracts listed under executed_bounded_not_counted_as_proved ran on generated inputs of the real code; they are bounded stand-ins"
PGSTUB = "PostgreSQL is replaced by /verif/hxe/src/pgstub.rs (memory, errors, type cache, interval arithmetic without months)"
MIXED = ("The steps and formulas within Kani's reach are proved for all inputs; the rest of the property (heap-based or PostgreSQL-facing code) is covered by "
         "contracts executed on generated inputs of the real code, a bounded stand-in that is not counted as proved.")

EXECONLY = ("The functions are outside the deductive back ends' reach (strings, hash maps, PostgreSQL memory): their contracts are executed on generated inputs of "
            "the real code with a fixed bound, a stand-in that is not counted as proved.")

PROPS = {
    "C01": dict(
        kani=[dict(crate="hx", feature="c01", bounded={
            "compressor_u64_two": "two values below 2^10", "compressor_i64_two": "two values in -500..500",
            "compress_to_vec_two": "one unsigned value below 2^20 then one signed value in -60..60"})],
        functions=["encodings::prefix_varint::{write_to_vec,read_from_slice,prefix_length}", "encodings::zigzag::{encode,decode}",
                   "encodings::delta::{i64,u64}_{encoder,decoder}", "encodings::prefix_varint::{U64Compressor,I64Compressor,u64_decompressor,i64_decompressor} (bounded)"],
        trusted=[PUSH],
        assumptions=["sequences follow from the per-value contracts by induction on length: the writer only appends, the reader consumes exactly what was written"],
    ),
    "C02": dict(
        kani=[dict(crate="hx", feature="c02", bounded={
            **{k: "precision 4 (16 registers), arbitrary register contents" for k in ("registers_set_max", "registers_merge", "registers_iter", "dense_add_hash")},
            "sparse_list_two": "two sparse entries with codes 0..150"}), dict(crate="hxe", feature="c02", executed_only=True)],
        functions=["hyperloglogplusplus::sparse::Encoded::{from_hash,idx,count,cmp}", "hyperloglogplusplus::dense::{idx_count_from_hash,idx_count_from_encoded}",
                   "hyperloglogplusplus::registers::Registers::{set_max,merge,iter} (bounded)", "dense::Storage::{add_hash,add_encoded} (bounded)", "extension::hyperloglog::{hyperloglog_trans,approx_count_distinct_trans,hyperloglog_combine,hyperloglog_serialize,hyperloglog_deserialize,hyperloglog_final,hyperloglogrollup_trans,hyperloglog_count,hyperloglog_error,arrow forms} (executed)"],
        trusted=[PGSTUB, PUSH, "the 64-bit hash function is arbitrary (properties hold for every hash value)"], assumptions=[EXEC, STEP],
    ),
    "C03": dict(
        kani=[dict(crate="hx", feature="c03", bounded={k: "2 rows of 3 counters, arbitrary contents below 2^40, arbitrary hash" for k in
            ("add_and_subtract", "estimate_is_least", "never_underestimates_step", "combine_adds", "new_is_empty")}), dict(crate="hxe", feature="c03", executed_only=True)],
        verus=["countmin"], verus_replay={"countmin": [("hx", "c03", "hx::c03::add_and_subtract"), ("hx", "c03", "hx::c03::estimate_is_least"), ("hx", "c03", "hx::c03::combine_adds"), ("hx", "c03", "hx::c03::new_is_empty")]},
        functions=["countminsketch::CountMinSketch::{add_value,subtract_value,estimate,combine,get_bucket_indices,new,with_dim,with_dims_and_hashfn_keys} for every width, depth and content (Verus)", "extension::countminsketch::{countminsketch_trans,countminsketch_combine,serialize,deserialize,final,approx_count} (executed)"],
        trusted=[PGSTUB, "CountMinHashFn::hash_into_buckets replaced by an arbitrary function into the bucket range"], assumptions=[EXEC, STEP],
    ),
    "C04": dict(
        kani=[dict(crate="hx", feature="c04", bounded={"quantile_rank": "three buckets, counts below 2^20, six quantiles"}), dict(crate="hxe", feature="c04", executed_only=True)],
        verus=["udd"], verus_replay={"udd": [("hx", "c04", "hx::c04::order_is_value_order"), ("hx", "c04", "hx::c04::compaction_key"), ("hx", "c04", "hx::c04::add_history"), ("hx", "c04", "hx::c04::merge_history")]},
        functions=["uddsketch::SketchHashKey::{cmp,partial_cmp,compact_key}, SketchHashMap::{new,with_capacity,len,increment,entry_split,entry_upsert,iter,populate_map_using_iter,compact_using_stack,compact_using_heap,compact}, SketchHashIterator::next: the buckets chained in order, every count kept, for every content (Verus)", "uddsketch::UDDSketch::{new,new_from_data,key,compact_buckets,bucket_iter,add_value,merge_items,merge_sketch,max_allowed_buckets,times_compacted,current_buckets_count,sum,count,max_error,estimate_quantile,last_bucket_value}, estimate_quantile, gamma: counts add up to the values, at most the allowed buckets, exactly the buckets of the added values, every quantile from the bucket that holds its rank, compaction ends; for every history of calls (Verus)", "extension::uddsketch::{uddsketch_trans,percentile_agg_trans,uddsketch_combine,serialize,deserialize,final,rollup,accessors and arrow forms} (executed)"],
        trusted=[PGSTUB], assumptions=[EXEC, STEP, "bucket limit at least 7 (see known-findings.txt)"],
    ),
    "C05": dict(
        kani=[dict(crate="hx", feature="c05", bounded={
            "merge_sorted_conserves": "three " + SMALL, "centroid_add": FEW + ", weights to 4",
            "quantile_inside": "two centroids, " + FEW, "rank_inside": "two centroids, " + FEW}), dict(crate="hxe", feature="c05", executed_only=True)],
        functions=["tdigest::TDigest::{merge_sorted,estimate_quantile,estimate_quantile_at_value} (bounded)", "tdigest::Centroid::add (bounded)", "extension::tdigest::{tdigest_trans,tdigest_combine,serialize,deserialize,final,compound rollup,accessors and arrow forms} (executed)"],
        trusted=[PGSTUB, PUSH], assumptions=[EXEC],
    ),
    "C06": dict(
        kani=[dict(crate="hx", feature="c06", bounded={
            "counter_add_point_sums": SMALL + ", for the floating-point sums", "gauge_add_point_sums": SMALL + ", for the floating-point sums",
            "accessors_values": "fixed times, " + SMALL, "regression_time_unit": "fixed times, " + SMALL}), dict(crate="hxe", feature="c10", executed_only=True, only=['counter_histories', 'counter_partials'])],
        functions=["counter_agg::MetricSummary::{new,add_point,reset,delta,rate,idelta_left,idelta_right,irate_left,irate_right,time_delta,bounds_valid}",
                   "counter_agg::{CounterSummaryBuilder,GaugeSummaryBuilder}::{new,add_point,build}", "extension::{counter_agg,gauge_agg}: aggregates and accessors (executed)"],
        trusted=[PGSTUB, STATS], assumptions=[EXEC, STEP, "times within +-2^62 microseconds, no NaN values"],
    ),
    "C07": dict(
        kani=[dict(crate="hx", feature="c07", bounded={"counter_combine_sums": SMALL + ", for the floating-point sums", "gauge_combine_sums": SMALL + ", for the floating-point sums"}), dict(crate="hxe", feature="c10", executed_only=True, only=['counter_histories', 'counter_partials'])],
        functions=["counter_agg::MetricSummary::{combine,bounds_extend,reset}", "counter_agg::{CounterSummaryBuilder,GaugeSummaryBuilder}::combine", "counter_agg::range::I64Range::extend", "extension::{counter_agg,gauge_agg}::{trans,combine,serialize,deserialize,summary_trans,final} (executed)"],
        trusted=[PGSTUB, STATS], assumptions=[EXEC, STEP, "times within +-2^62 microseconds, no NaN values"],
    ),
    "C08": dict(
        kani=[dict(crate="hx", feature="c08"), dict(crate="hxe", feature="c10", executed_only=True, only=['counter_histories', 'counter_partials'])],
        functions=["counter_agg::range::I64Range::{contains,extend,has_infinite,is_singleton,duration}", "extension::range::get_range, with_bounds, extrapolated_delta, extrapolated_rate (executed)"],
        trusted=[PGSTUB], assumptions=[EXEC, "ranges passed to extend are not reversed (the SQL layer builds them from range types)"],
    ),
    "C09": dict(
        kani=[dict(crate="hx", feature="c09", bounded={
            **{k: FEW + ", times 0..15" for k in ("accum_area", "combine_area")},
            **{k: FEW + ", fixed neighbour times" for k in ("with_bounds_locf_start", "with_bounds_locf_end", "with_bounds_locf_both", "with_bounds_linear_start", "with_bounds_linear_end", "with_bounds_linear_both")},
            "combine_equals_sequential": "four points at fixed times, two values each", "iter_constructors": "three points, times 0..2, two values each"}), dict(crate="hxe", feature="c10", executed_only=True, only=['time_weight_histories', 'time_weight_refuses', 'time_weight_interpolation'])],
        functions=["time_weighted_average::TimeWeightSummary::{new,accum,combine,with_bounds,time_weighted_average,time_weighted_integral,new_from_sorted_iter,combine_sorted_iter}",
                   "time_weighted_average::TimeWeightMethod::{interpolate,weighted_sum}", "extension::time_weighted_average: aggregate, rollup, accessors (executed)"],
        trusted=[PGSTUB], assumptions=[EXEC, STEP, "times within +-2^61 microseconds, no NaN values"],
    ),
    "C11": dict(
        technique="contract-based verification: the real generic code runs on symbolic reals, each postcondition is a verification condition discharged by exact polynomial normal form / z3; Kani for the machine-arithmetic corner cases",
        kani=[dict(crate="hx", feature="c11", real=True), dict(crate="hxe", feature="c11", executed_only=True)],
        functions=["stats_agg::stats1d::StatsSummary1D::{accum,remove,combine,remove_combined,avg,sum,var_*,stddev_*,skewness_*,kurtosis_*}",
                   "stats_agg::stats2d::StatsSummary2D::{accum,remove,combine,remove_combined,offset,avg,sum,sum_squares,sumxy,var_*,stddev_*,skewness_*,kurtosis_*,corr,slope,intercept,x_intercept,determination_coeff,covar_*}", "stats_agg::{m3,m4}::*", "extension::stats_agg::{1D and 2D aggregates, moving aggregates, rollup and rolling, accessors and arrow forms} (executed)"],
        trusted=[PGSTUB, "floating-point arithmetic treated as real arithmetic in the moment identities", "sympy polynomial normal form, z3",
                 "a count is generic beyond 3 (the code branches on counts only by comparing with 0, 1 and each other)"],
        assumptions=[STEP, EXEC],
    ),
    "C12": dict(
        kani=[dict(crate="hxe", feature="c12", bounded={"volume_sums": FEW})],
        functions=["candlestick::Candlestick::{add_tick_data,combine,open,high,low,close,open_time,high_time,low_time,close_time,volume,vwap}",
                   "candlestick SQL functions (executed): tick_data_transition, tick_data_no_vol_transition, candlestick_rollup_trans, candlestick_combine, candlestick_serialize, candlestick_deserialize, candlestick_final, candlestick, accessors"],
        trusted=[PGSTUB], assumptions=[STEP, EXEC, "no NaN prices"],
    ),
    "C13": dict(
        kani=[dict(crate="hxe", feature="c13")],
        verus=["heartbeat"], verus_replay={"heartbeat": [("hxe", "c13", "hxe::c13::" + f) for f in ("single_aggregate", "rollup_is_one_aggregate", "interpolated_from_previous", "trimmed")]},
        functions=["heartbeat_agg::HeartbeatTransState::{new,insert,extend_covered_interval}",
                   "heartbeat_agg (executed): the SQL functions around the functions under contract (transition, serialize, deserialize, final, arrow forms)"],
        trusted=[PGSTUB], assumptions=[EXEC, "times within +-2^60 microseconds", "the SQL functions pass their arguments to the functions under contract unchanged: executed, not proved"],
    ),
    "C14": dict(
        kani=[dict(crate="hxe", feature="c14", bounded={k: "a heap of at most three elements" for k in
            ("least_two_of_three", "step_keeps_least", "greatest_two_of_three", "room_for_all")})],
        verus=["nmost"], verus_replay={"nmost": [("hxe", "c14", "hxe::c14::" + f) for f in ("max_float", "min_int", "max_by_float", "min_by_int")]},
        functions=["nmost SQL functions (executed): max_n/min_n over float, int and time, and the _by variants: transition, combine, serialize, deserialize, final, rollup, into_values, into_array"],
        trusted=[PGSTUB], assumptions=[STEP, EXEC, "no NaN values", "the twelve SQL wrappers (value wrapping in Reverse and NotNan, serialization, accessors) around the generic functions under contract: executed, not proved"],
    ),
    "C15": dict(
        kani=[dict(crate="hxe", feature="c15", executed_only=True)],
        verus=["states"], verus_replay={"states": [("hxe", "c15", "hxe::c15::" + f) for f in ("merge_parts", "single_aggregate", "finalized_twice", "conflicts_refused", "rollup_is_one_aggregate", "interpolated")]},
        functions=["state_aggregate (executed): the SQL functions around the functions under contract (transition, combine, serialize, deserialize, state_at, interpolated_state_timeline, interpolated_state_periods, arrow forms)"],
        trusted=[PGSTUB], assumptions=[EXEC, "times within +-2^60 microseconds, fewer than 2^32 states, strings shorter than 2^62 bytes",
            "the SQL functions pass their arguments to the functions under contract unchanged, and the interpolated timelines are those of the interpolated aggregate: executed, not proved",
            "a rollup's transition state is not shared while it is finalized (the clone before the merge is dropped by the extraction; executed)"],
    ),
    "C16": dict(
        kani=[dict(crate="hxe", feature="c16", executed_only=True)],
        verus=["frequency"], verus_replay={"frequency": [("hxe", "c16", "hxe::c16::" + f) for f in ("bigints", "texts", "any_bigints", "any_texts", "any_floats")]},
        functions=["frequency (executed): freq_agg and mcv_agg transitions, SpaceSavingTransState::{add,move_left,combine,serialize,deserialize}, rollup, final functions, into_values, min_frequency, max_frequency, topn, for bigint, text and any type"],
        trusted=[PGSTUB], assumptions=[EXEC, "rolled-up aggregates have equal parameters", "the SQL wrappers, the flattening of the state into the aggregate and back, serialization and the accessors around the state under contract: executed, not proved"],
    ),
    "C17": dict(
        kani=[dict(crate="hxe", feature="c17", bounded={"room_for_all": "three arbitrary points", "two_of_four": "four arbitrary points", "three_of_four": "four points at fixed times, " + FEW})],
        verus=["lttb"], verus_replay={"lttb": [("hxe", "c17", "hxe::c17::" + f) for f in ("aggregate", "on_timevector", "gaps", "long")]},
        functions=["lttb (executed): lttb_trans, lttb_final, lttb_on_timevector, lttb_ts, gp_lttb_trans, gap_preserving_lttb_final_inner"],
        trusted=[PGSTUB], assumptions=[EXEC, "no NULL values in the timevector", "series of at most 2^26 points", "gp_lttb_trans (conversion of the gap interval) and storing the result: executed, not proved"],
    ),
    "C18": dict(
        kani=[dict(crate="hxe", feature="c18", executed_only=True)],
        verus=["timevector"], verus_replay={"timevector": [("hxe", "c18", "hxe::c18::" + f) for f in ("aggregate", "asof", "elements", "refused")]},
        functions=["time_vector (executed): transition, combine, rollup, serialize, final, unnest, asof", "time_vector::pipeline (executed): arrow_run_pipeline, arrow_add_unstable_element, every element except map_series, finalize_with_* and arrow_run_pipeline_then_* for all aggregates"],
        trusted=[PGSTUB, "lttb, stats_agg, counter_agg, hyperloglog and uddsketch themselves: C17, C11, C06, C02, C04"],
        assumptions=[EXEC, "fill_to: times and step within 2^60 microseconds (about 36,000 years)", "map_series with a function of the server, storing and reading timevectors, the choice of function for an element (execute_pipeline_element) and the aggregates at the end of a pipeline: executed, not proved", "map_series needs a function of type timevector -> timevector in the server and is not run"],
    ),
    "C10": dict(
        kani=[dict(crate="hxe", feature="c10", bounded={"unit_to_micros": "amounts 0 to 1000 in quarters", "unit_ratio": "whole amounts 0 to 15", "interpolation_value": "two fixed times, " + FEW})],
        functions=["tspoint::TSPoint::interpolate_linear", "duration::DurationUnit::{microseconds,convert_unit}",
                   "time_weighted_average (executed): transition, combine, serialize, deserialize, final, rollup, average, integral, interpolated_average, interpolated_integral, first/last accessors and their arrow forms",
                   "counter_agg and gauge_agg (executed): transition with and without bounds, combine, serialize, deserialize, final, rollup, every accessor and arrow form, with_bounds, interpolate, interpolated_delta, interpolated_rate",
                   "range::get_range, duration::DurationUnit::from_str (executed)"],
        trusted=[PGSTUB, "the summaries in the crates themselves: C06, C07, C09"], assumptions=[EXEC, "distinct times, no NaN values"], level="other", level_note=MIXED,
    ),
    "C19": dict(
        kani=[dict(crate="hxe", feature="c19")],
        functions=["saturation::{saturating_add,saturating_add_pos,saturating_sub,saturating_sub_pos,saturating_mul}"],
        trusted=[], assumptions=[],
    ),
    "C21": dict(
        kani=[dict(crate="hxe", feature="c21", executed_only=True)],
        functions=["type_builder (executed): pg_type! flatten, from_datum, into_datum, ron_inout_funcs! input and output, for every aggregate and accessor type of the extension except the deprecated ones",
                   "datum_utils (executed): DatumStore::{from,iter,into_iter,into_anyelement_iter,serialize,deserialize}", "serialization::types, serialization::functions, raw::tstzrange (executed)"],
        trusted=[PGSTUB, "the text forms of types of the server (bigint, integer, double precision, text, timestamptz) are stand-ins"],
        assumptions=[EXEC, "no NaN and no infinities in text forms"], level="other", level_note=EXECONLY,
    ),
    "C24": dict(
        kani=[dict(crate="hxe", feature="c24", executed_only=True)],
        functions=["time_vector::pipeline::lambda (executed): parse_expression, build_expression, build_binary_op, ExpressionExecutor, bool_lambda, f64_lambda, ttz_lambda, interval_lambda, point_lambda, trace_lambda, Lambda::{input,output}"],
        trusted=[PGSTUB, "timestamp and interval constants are written as counts of microseconds, and interval arithmetic is that of intervals without days and months: the server's own functions are not run"], assumptions=[EXEC], level="other", level_note=EXECONLY,
    ),
}
