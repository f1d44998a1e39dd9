"""Further properties (same tuple format as gen.py's T) and the ones this family does not decide."""
E = "extension/src/"
C = "crates/"
T2 = [
("C11", "Statistical summaries hold exact moments under add, remove, merge and shift",
 "A one- or two-variable statistical summary holds, to rounding, the count, sums and central moments of the values it stands for, after any history of adding, removing, combining, un-combining and shifting; averages, variances, skewness, kurtosis, regression and correlation are the textbook functions of those values, absent where undefined. An empty summary is neutral.",
 ["histories", "inputs"], "all histories of those operations over all finite values (as real numbers); infinite values spoil only the moments they must",
 "tests compare against PostgreSQL on random additions; removal, un-combining, shifting and tiny counts are special cases of the formulas",
 [C + "stats-agg/src/lib.rs", C + "stats-agg/src/stats1d.rs", C + "stats-agg/src/stats2d.rs", E + "stats_agg.rs"],
 [("one-variable moments", C + "stats-agg/src/stats1d.rs"), ("two-variable moments and regression", C + "stats-agg/src/stats2d.rs"), ("moment-combining formulas", C + "stats-agg/src/lib.rs m3, m4")],
 ["average, variance, skewness, kurtosis, slope, intercept, corr, rolling, rollup"]),
("C12", "Candlesticks report first, highest, lowest and last price, volume and VWAP",
 "For every collection of priced ticks a candlestick reports the earliest price as open, the latest as close, the greatest and least as high and low, each with the time it occurred (the earliest row on ties), the sum of volumes and the volume-weighted mean price. Rows without time or price are ignored, a tick without volume makes volume and VWAP unknown, and merging candlesticks of parts, in any split, gives the candlestick of all ticks.",
 ["histories", "inputs"], "all tick histories with any order of arrival, all splits, missing volumes and NULLs",
 "the tests feed a few ticks in order; out-of-order ticks, ties, missing volumes and partial aggregation interact",
 [E + "candlestick.rs"], [("tick and combination", E + "candlestick.rs add_tick_data, combine"), ("SQL aggregate functions and accessors", E + "candlestick.rs")], ["candlestick_agg, candlestick, rollup, open, high, low, close, open_time, volume, vwap"]),
("C13", "Heartbeat aggregates are live exactly after each heartbeat, inside their range",
 "A heartbeat aggregate is live at a time inside its range exactly when some heartbeat lies at most the liveness duration before it; live and dead ranges partition the range into maximal alternating pieces, and uptime, downtime, gaps, counts and point queries agree with them, whatever the order of arrival. Rolling up aggregates gives the aggregate of all heartbeats, carrying over from a previous one extends its last heartbeat, and trimming keeps exactly what lies inside.",
 ["histories", "inputs"], "all heartbeat sets in any order, all ranges and liveness durations, all rollups, trims and carry-overs",
 "interval merging has many boundary cases (touching, contained, cut at the range end, empty parts) and the tests hold one or two data sets",
 [E + "heartbeat_agg.rs", E + "heartbeat_agg/accessors.rs"], [("batches into intervals, union of intervals", E + "heartbeat_agg.rs process_batch, combine_intervals"), ("widening, trimming, carry-over", E + "heartbeat_agg.rs extend_covered_interval, trim_to, interpolate_start")], ["live_ranges, dead_ranges, uptime, downtime, live_at, num_gaps, num_live_ranges, rollup, interpolate, trim_to"]),
("C14", "Min-N and Max-N hold exactly the N least or greatest values, with their rows",
 "For every collection of values and every N, min_n and max_n report the min(N, count) least or greatest values in order, each as often as it occurs; the _by variants report with each the data of a row that holds it. NULLs are ignored. The result does not depend on order of arrival, on partial aggregation, or on how aggregates of parts are rolled up, and computing it does not change the state.",
 ["histories", "inputs"], "all value histories (floats, integers, timestamps, with row data), all N, all splits and rollups, repeated final calls",
 "the tests use one ordered data set of a hundred rows; ties, fewer values than N, unequal N and partial states are not combined",
 [E + "nmost.rs"] + [E + "nmost/" + f + ".rs" for f in ("max_float", "max_int", "max_time", "max_by_float", "max_by_int", "max_by_time", "min_float", "min_int", "min_time", "min_by_float", "min_by_int", "min_by_time")],
 [("bounded heap", E + "nmost.rs NMostTransState"), ("aggregates", E + "nmost/*.rs")], ["min_n, max_n, min_n_by, max_n_by, into_array, into_values, rollup"]),
("C15", "State aggregates report the piecewise-constant history of the states",
 "For every collection of (time, state) rows in any order, a state aggregate reports the sequence of maximal periods of one state, each lasting until the next change: timelines, periods, durations per state, durations within a range and the state at a time all agree with it. Rolling up consecutive aggregates gives that of all rows, interpolation carries the previous bucket's last state in and the last state on to the bucket's end, and two states at one time are refused.",
 ["histories", "inputs"], "all row histories with text or integer states, any order, splits, ranges, buckets and repeated final calls",
 "the tests use a few fixed tables; states that are substrings of others, revisited states and window frames are not combined",
 [E + "state_aggregate.rs", E + "state_aggregate/rollup.rs", E + "state_aggregate/accessors.rs"],
 [("rows into periods and durations", E + "state_aggregate.rs state_agg"), ("queries and interpolation", E + "state_aggregate.rs"), ("joining parts", E + "state_aggregate/rollup.rs merge")], ["duration_in, into_values, state_timeline, state_periods, state_at, interpolated_*, rollup"]),
("C16", "Frequency aggregates bound every value's frequency and miss no frequent one",
 "For every multiset of values, freq_agg and mcv_agg list distinct values in descending order with a lower and an upper frequency that enclose the true one. freq_agg(f) lists every value whose frequency is at least f and at most 1/f + 1 values; a value not listed occurs no more often than the least upper bound listed; if there is room for all distinct values the bounds are exact. topn gives the first n of this list under the documented conditions. All of this holds after partial aggregation, rollup and storing, whatever the order of rows; NULLs do not count.",
 ["histories", "inputs"], "all histories of values (integers, texts, any hashable type), all frequencies, N and skews, splits, rollups, repeated final calls",
 "the tests feed one skewed data set; evictions, ties and merges of full states interact only in particular orders",
 [E + "frequency.rs", E + "pg_any_element.rs", E + "datum_utils.rs"],
 [("space-saving update and eviction", E + "frequency.rs SpaceSavingTransState::add, move_left"), ("merging of states", E + "frequency.rs SpaceSavingTransState::combine"), ("queries", E + "frequency.rs freq_iter, topn, min_frequency, max_frequency")], ["into_values, topn, min_frequency, max_frequency, rollup"]),
("C17", "LTTB downsampling picks real points, keeps the ends, the peaks and the gaps",
 "For every series, lttb returns exactly the asked number of points, or all if there are no more; they are points of the series in time order, including the first and the last, and each of the others is the one of its bucket that spans the largest triangle with the point chosen before and the mean of the next bucket. gp_lttb also keeps both ends of every stretch without gaps and stays within the asked number unless the ends alone exceed it. The order of rows and asking for the result again change nothing.",
 ["histories", "inputs"], "all series of finite values, all resolutions above 2, all gap sizes, any order of rows",
 "the tests use a few hundred points of smooth functions; long buckets, single points between gaps and unsorted arrival are not covered",
 [E + "lttb.rs"], [("choice per bucket", E + "lttb.rs lttb, lttb_ts"), ("sharing the points out over stretches", E + "lttb.rs gap_preserving_lttb_final_inner")], ["lttb, gp_lttb, -> lttb()"]),
("C18", "Timevectors keep their points, and pipelines do what their elements say",
 "A timevector holds exactly the rows aggregated into it, in order, with NULLs where they were, however the rows were split, combined, rolled up or stored. Each pipeline element gives the result it is named for (sort, delta, fill_to, filter, map, arithmetic, lttb) with NULL marks following their points, keeps the points in time order wherever it says so, and refuses what it cannot do. A composed pipeline, with or without a final aggregate, equals running its elements one after another and aggregating the result. asof pairs each point with the latest earlier one.",
 ["histories", "inputs"], "all timevectors, all splits, all pipelines of any length",
 "the tests run one series of nine points through each element; NULLs, empty vectors, unsorted input and chains of elements are barely covered",
 [E + "time_vector.rs", E + "time_vector/pipeline.rs", E + "time_vector/pipeline/aggregation.rs", E + "time_vector/pipeline/arithmetic.rs", E + "time_vector/pipeline/delta.rs", E + "time_vector/pipeline/expansion.rs", E + "time_vector/pipeline/fill_to.rs", E + "time_vector/pipeline/filter.rs", E + "time_vector/pipeline/map.rs", E + "time_vector/pipeline/sort.rs"],
 [("points and null bits", E + "time_vector.rs timevector_trans_inner, combine"), ("elements", E + "time_vector/pipeline/*.rs"), ("composition", E + "time_vector/pipeline.rs run_pipeline_elements, arrow_add_unstable_element")], ["timevector, rollup, unnest, asof, ->"]),
("C10", "SQL time weight, counter and gauge aggregates agree with their points",
 "The time_weight, counter_agg and gauge_agg aggregates report, for every collection of rows in any order (NULLs ignored) and any way of splitting them into partial aggregates by time, storing and rolling up, exactly what the summary of the points in time order reports: averages and integrals in any unit, deltas, rates, regression, extrapolation to given bounds. Rollup of overlapping parts and mixed methods is refused. Interpolating to a bucket is the same as adding the points where the lines to the neighbouring buckets cross its ends, and reports the part inside the bucket.",
 ["histories", "inputs"], "all row histories, splits, bounds, units, buckets and neighbouring buckets",
 "the tests run a few fixed series; interpolation at both ends, resets across buckets, single points, bounds and partial states are not combined",
 [E + "time_weighted_average.rs", E + "time_weighted_average/accessors.rs", E + "counter_agg.rs", E + "counter_agg/accessors.rs", E + "gauge_agg.rs", E + "range.rs", E + "duration.rs", C + "tspoint/src/lib.rs", C + "counter-agg/src/lib.rs", C + "counter-agg/src/range.rs"],
 [("aggregation", E + "time_weighted_average.rs, counter_agg.rs, gauge_agg.rs *_trans, combine, final"), ("interpolation to bucket ends", E + "time_weighted_average.rs interpolate; counter_agg.rs, gauge_agg.rs interpolate"), ("bounds", E + "range.rs get_range"), ("units", E + "duration.rs")],
 ["average, integral, interpolated_*, delta, rate, irate_*, idelta_*, extrapolated_*, with_bounds, slope, intercept, corr, counter_zero_time, rollup"]),
("C19", "Saturating arithmetic gives the nearest representable integer",
 "For every pair of 32-bit integers saturating_add, saturating_sub and saturating_multiply return the mathematical result if it can be represented and else the nearest integer that can; the _pos variants do the same within the non-negative integers.",
 ["inputs"], "all 2^64 pairs of integers",
 "the tests check a handful of pairs", [E + "saturation.rs"], [("saturating functions", E + "saturation.rs")], ["saturating_add, saturating_sub, saturating_multiply, saturating_add_pos, saturating_sub_pos"]),
("C21", "What is stored in a table, or written as text, is read back unchanged",
 "Every value of every type of the toolkit (aggregates of all kinds and the accessor objects) that is stored is read back as the same value, wherever in a page it lies (aligned to four or eight bytes or, with a short header, not at all), and its text form is accepted as input and means the same value. The data of rows kept inside aggregates (values passed by value, of variable length and of fixed length) come back unchanged and in order.",
 ["inputs"], "all values of all types, all alignments and headers, all texts inside (quotes, backslashes, control characters, any script), all sizes",
 "the tests round-trip one simple value for some of the types, with texts of plain letters",
 [E + "type_builder.rs", E + "datum_utils.rs", E + "serialization.rs", E + "serialization/types.rs", E + "serialization/functions.rs", "crates/flat_serialize/flat_serialize/src/lib.rs", "crates/flat_serialize/flat_serialize_macro/src/lib.rs", E + "range.rs", C + "tspoint/src/lib.rs"],
 [("layout in memory", "crates/flat_serialize"), ("storing and text forms", E + "type_builder.rs pg_type!, ron_inout_funcs!"), ("data of rows", E + "datum_utils.rs DatumStore")], ["every type's input, output and storage"]),
("C24", "Lambda expressions compute what they say, with the usual precedence",
 "Every well-typed lambda expression evaluates to the value its text denotes: literals, $value and $time, variables introduced by let, unary minus and not, the arithmetic, comparison and boolean operators with the usual precedence (power binds to the right, the others to the left), functions, times, intervals and tuples, with or without redundant parentheses and white space. Ill-typed or malformed texts are refused when the lambda is read. The text is kept as written.",
 ["inputs"], "all expressions, all values (including NaN and infinity) and times",
 "the tests evaluate some hundred hand-written expressions, most with one operator",
 [E + "time_vector/pipeline/lambda.rs", E + "time_vector/pipeline/lambda/parser.rs", E + "time_vector/pipeline/lambda/executor.rs"],
 [("grammar and precedence", E + "time_vector/pipeline/lambda/parser.rs"), ("evaluation", E + "time_vector/pipeline/lambda/executor.rs")], ["map, filter with a lambda"]),
]
NA2 = {}
