#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from this table and bin/props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
from props import PROPS
E = "extension/src/"
C = "crates/"
# id, title, statement, over, quantifier text, why tests cannot, files, mechanisms, observe
T = [
("C01", "Compressed integer sequences decode to exactly what was encoded",
 "Every sequence of 64-bit unsigned or signed integers written through the compressing encoder is returned, element for element and in order, by the decoder, and nothing more. Every single value takes at most nine bytes, and is recognised whatever bytes follow it.",
 ["inputs", "histories"], "all sequences of u64 / i64 values, including wrap-around deltas and the extreme values",
 "2^64 values per position; the tests encode a few dozen hand-picked ones",
 [C + "encodings/src/lib.rs"], [("prefix varint writer and reader", C + "encodings/src/lib.rs prefix_varint"), ("zig-zag and delta coders", C + "encodings/src/lib.rs zigzag, delta")], ["stored uddsketch, hyperloglog values"]),
("C02", "HyperLogLog depends only on the set of values, not order, duplicates or merging",
 "The content of a hyperloglog after any sequence of additions and merges, in either its sparse or its dense form, is for every register the largest rank among the values that fall into it. Adding a value again, reordering additions, regrouping merges, or switching representation or storing and restoring it never changes the estimate beyond what the set of distinct values determines.",
 ["histories", "inputs"], "all hash values, all precisions 4..18, all histories of add and merge, both representations",
 "the tests compare a handful of sequences; the sparse/dense conversion depends on bit patterns of the hash that occur rarely",
 [C + "hyperloglogplusplus/src/lib.rs", C + "hyperloglogplusplus/src/dense.rs", C + "hyperloglogplusplus/src/sparse.rs", C + "hyperloglogplusplus/src/registers.rs", C + "hyperloglogplusplus/src/sparse/varint.rs", E + "hyperloglog.rs"],
 [("register and rank of a hash", C + "hyperloglogplusplus/src/dense.rs"), ("sparse encoding and merge", C + "hyperloglogplusplus/src/sparse.rs"), ("register maxima", C + "hyperloglogplusplus/src/registers.rs")], ["distinct_count, rollup of hyperloglog"]),
("C03", "Count-min sketch never underestimates, and combining sketches adds them",
 "For every history of additions, the estimated frequency of an item is at least the number of times it was added and at most the number of all additions. Each addition raises exactly one counter per row, the same one for the same item each time, and combining two sketches of equal shape gives the sketch of both histories.",
 ["histories", "inputs"], "all histories of additions and combinations, all items, whatever the hash functions do",
 "hash collisions are what makes the guarantee interesting, and the tests contain hardly any",
 [C + "count-min-sketch/src/lib.rs", E + "countminsketch.rs"], [("bucket choice, add, estimate, combine", C + "count-min-sketch/src/lib.rs")], ["approx_count"]),
("C04", "UDDSketch counts every value once, keeps order, bucket limit and error bound",
 "After any history of additions and merges the buckets of a uddsketch are in value order, their counts add up to the number of values, there are no more of them than allowed, and the sum is the sum of the values. Each value sits in the bucket whose bounds contain it to within the reported maximum error, and a quantile is answered from the bucket that holds the asked rank.",
 ["histories", "inputs"], "all value histories, merge groupings, error and bucket settings with a bucket limit of at least 7",
 "compaction at the bucket limit and merges of differently compacted sketches are reached by few tests, with one data set each",
 [C + "udd-sketch/src/lib.rs", E + "uddsketch.rs"], [("key of a value, compaction, merge, quantile", C + "udd-sketch/src/lib.rs")], ["approx_percentile, num_vals, mean, error"]),
("C05", "t-digest keeps exact count, sum and extremes, and quantiles stay within the data",
 "After any history of additions and merges, in any order and grouping, a t-digest reports exactly the number, the minimum and the maximum of the values, and their sum to rounding, and keeps its configured size; digests of different sizes are not rolled up. Quantiles lie between minimum and maximum, never decrease, and are the extremes at 0 and 1; ranks lie in [0, 1], never decrease, and are 0 below and 1 above the data.",
 ["histories", "inputs"], "all value histories, merge groupings, buffer states and sizes",
 "the tests use uniform data in one order; buffered values, empty partners and repeated merges are not reached",
 [C + "t-digest/src/lib.rs", E + "tdigest.rs"], [("buffered builder, merge, compaction", C + "t-digest/src/lib.rs"), ("quantile and rank interpolation", C + "t-digest/src/lib.rs")], ["approx_percentile, approx_percentile_rank, num_vals, min_val, max_val, mean"]),
("C06", "Counter and gauge summaries report the reset-adjusted change of ordered input",
 "For every time-ordered sequence of points, a counter summary's delta, rate, instantaneous deltas and rates, number of resets, changes and elements, and regression are those of the sequence read as: a drop is a reset that adds the previous value to everything after it; a gauge summary's are the same without resets. Only the first of several points at one time counts, and a point before the last is refused without changing the summary.",
 ["histories", "inputs"], "all time-ordered histories of finite values, any bounds",
 "the tests follow about a dozen short sequences; equal timestamps, equal values and resets interact",
 [C + "counter-agg/src/lib.rs", E + "counter_agg.rs", E + "gauge_agg.rs"], [("one point added", C + "counter-agg/src/lib.rs add_point, reset"), ("accessors", C + "counter-agg/src/lib.rs delta .. prometheus_rate")], ["delta, rate, idelta_left, irate_right, num_resets, slope, extrapolated_delta"]),
("C07", "Combining counter or gauge summaries equals summarising all points at once",
 "If a time-ordered sequence is cut into consecutive parts, summarised part by part and the summaries combined in time order with any grouping, the result is the summary of the whole sequence, including resets and changes across the cuts and regression statistics. Overlapping or reversed parts are refused.",
 ["histories", "inputs"], "all sequences, all cuts, all groupings",
 "the boundary between parts needs a reset, one-point parts and several groupings at once to expose an error",
 [C + "counter-agg/src/lib.rs", C + "counter-agg/src/range.rs", C + "stats-agg/src/stats2d.rs", E + "counter_agg.rs", E + "gauge_agg.rs"], [("combination at the seam", C + "counter-agg/src/lib.rs combine"), ("shifting later regression sums", C + "stats-agg/src/stats2d.rs offset, combine")], ["rollup of counter and gauge summaries"]),
("C08", "Half-open time ranges: membership, union and length are those of the interval",
 "A time range contains exactly the times from its start, included, to its end, excluded, with a missing end meaning unbounded. Extending it by another gives the smallest range that contains both, in either order and idempotently; length, boundedness and being a singleton are those of the interval.",
 ["inputs"], "all pairs of ranges with finite or missing ends, all times",
 "five shapes of ranges in the tests out of 2^128 and four combinations of missing ends",
 [C + "counter-agg/src/range.rs", E + "range.rs"], [("range operations", C + "counter-agg/src/range.rs")], ["with_bounds, extrapolated_delta"]),
("C09", "Time-weighted averages are the area under the points over the duration",
 "For every time-ordered sequence of points, the time-weighted summary holds the exact area under the step curve or the straight-line curve through them, and the average is that area divided by the elapsed time. Splitting into consecutive parts and combining gives the same summary, and extending to a start or end bound adds exactly the area between the bound and the nearest point; out-of-order input is refused.",
 ["histories", "inputs"], "all time-ordered histories, both methods, all cuts, all bounds",
 "few hand-computed areas; combinations of both bounds, both methods and equal timestamps are not covered",
 [C + "time-weighted-average/src/lib.rs", E + "time_weighted_average.rs"], [("segments, combination, extension", C + "time-weighted-average/src/lib.rs")], ["average, integral, rollup of time-weight summaries"]),
]
NA = {}
try:
    from more import T2, NA2
    T += T2
    NA.update(NA2)
except ImportError:
    pass
NOTE = {}
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for (i, title, st, over, q, why, files, mech, obs) in T:
        assert len(title) <= 80, (i, len(title))
        f.write(json.dumps(dict(id=i, title=title, statement=st, quantifier=dict(over=over, text=q), why_tests_cant=why,
            anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=obs, hook_needed=None))) + "\n")
checks = []
for (i, *_r) in T:
    if i not in PROPS or i in NA:
        continue
    P = PROPS[i]
    lvl = P.get("level", "proof")
    note = P.get("level_note") or ("Complete harnesses and lemmas are discharged for all inputs; harnesses labelled bounded and executed contracts in the evidence are bounded stand-ins, not counted as proved. "
                                   "Trusted: Kani/CBMC, rustc, " + "; ".join(P.get("trusted", []) + P.get("assumptions", [])))
    checks.append(dict(property=i, quick_cmd=f"VERIF_TIER=quick python3 bin/check.py {i}", thorough_cmd=f"VERIF_TIER=thorough python3 bin/check.py {i}",
                       technique=P.get("technique", "contract-based deductive verification of the real code: Kani contract harnesses on the crate's functions (CBMC back end), modular stubs for callee contracts" + ("; Verus contracts on functions extracted from /repo on every run (z3 back end): " + ", ".join(P["verus"]) if P.get("verus") else "")),
                       level=lvl, level_note=note))
na = [dict(property=i, reason=NA.get(i, "no contract within reach yet")) for (i, *_r) in T if i not in [c["property"] for c in checks]]
hooks = [l.split()[0] for l in os.popen("git -C /repo log --format='%h %s'").read().splitlines() if "verif hooks" in l]
m = dict(version=1, setup_cmd="bash bin/setup.sh",
         hooks=dict(guard="cfg(tsdbtk_verif)", enable="RUSTFLAGS='--cfg tsdbtk_verif' TSDBTK_VERIF=/verif/hooks (set by bin/check.py)", source_commits=hooks),
         checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
