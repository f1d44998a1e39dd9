//! C09: time-weighted summaries: accumulation, combination and extension to bounds.
use crate::fp::*;
use crate::shim::*;
use time_weighted_average::{TimeWeightError as E, TimeWeightMethod as M, TimeWeightSummary as S};
use tspoint::TSPoint;

const T: i64 = 1 << 61;
fn method() -> M { if any_bool() { M::LOCF } else { M::Linear } }
fn pt(small: bool) -> TSPoint {
    if small { TSPoint { ts: any_in(0, 15) as i64, val: any_f64_tiny() } } else {
        let p = TSPoint { ts: any_i64(), val: any_f64() };
        assume(-T < p.ts && p.ts < T && !p.val.is_nan());
        p
    }
}
fn eqp(a: TSPoint, b: TSPoint) -> bool { a.ts == b.ts && same(a.val, b.val) }
/// any summary some history can produce
fn summary(small: bool, m: M) -> S {
    let (first, last, w) = (pt(small), pt(small), if small { any_f64_tiny() } else { any_f64() });
    assume(first.ts <= last.ts);
    if first.ts == last.ts { assume(w == 0.0 && same(first.val, last.val)); }
    S { method: m, first, last, w_sum: w }
}
/// area under the curve between two neighbouring points (exact for small values)
fn area(m: M, a: TSPoint, b: TSPoint) -> f64 {
    let d = (b.ts - a.ts) as f64;
    match m { M::LOCF => a.val * d, M::Linear => (a.val * d + b.val * d) / 2.0 }
}
fn accum(small: bool) {
    let m = method();
    let old = summary(small, m);
    let p = pt(small);
    let mut s = old;
    let r = s.accum(p);
    if p.ts < old.last.ts {
        assert!(r == Err(E::OrderError), "an earlier point must be refused");
        assert!(eqp(s.first, old.first) && eqp(s.last, old.last) && same(s.w_sum, old.w_sum), "a refused point changed the state");
        return;
    }
    assert!(r.is_ok(), "an in-order point must be accepted");
    assert!(s.method == m && eqp(s.first, old.first), "first point and method never change");
    if p.ts == old.last.ts {
        assert!(eqp(s.last, old.last) && same(s.w_sum, old.w_sum), "only the first point at a time counts");
    } else {
        assert!(eqp(s.last, p), "last point");
        if small { assert!(s.w_sum == old.w_sum + area(m, old.last, p), "weighted sum grows by the area of the new segment"); }
        reach!(old.first.ts == old.last.ts, "second point");
    }
}
fn combine(small: bool) {
    let (m, n) = (method(), method());
    let (a, b) = (summary(small, m), summary(small, n));
    match a.combine(&b) {
        Err(e) => {
            assert!((m != n && e == E::MethodMismatch) || (a.last.ts >= b.first.ts && e == E::OrderError), "combine refused valid input");
        }
        Ok(c) => {
            assert!(m == n, "combine mixed two methods");
            assert!(a.last.ts < b.first.ts, "combine accepted overlapping ranges");
            assert!(c.method == m && eqp(c.first, a.first) && eqp(c.last, b.last), "ends of the combination");
            if small { assert!(c.w_sum == a.w_sum + b.w_sum + area(m, a.last, b.first), "weighted sum of the combination"); }
            reach!(true, "combined");
        }
    }
}
fn bounds(m: M, use_prev: bool, use_next: bool, val: fn() -> f64) {
    let v = [val(), val(), val(), val()];
    let p = |t: i64, i: usize| TSPoint { ts: t, val: v[i] };
    let w = val();
    let s = S { method: m, first: p(8, 1), last: p(16, 2), w_sum: w };
    let (start, end) = (if any_bool() { 4 } else { 8 }, if any_bool() { 16 } else { 20 });
    let prev = p(0, 0);
    let next = p(24, 3);
    let at = |a: TSPoint, b: TSPoint, t: i64| match m { M::LOCF => a.val, M::Linear => a.val + (b.val - a.val) * ((t - a.ts) as f64) / 8.0 };
    let with_next = any_bool();
    let r = s.with_bounds(if use_prev { Some((start, prev)) } else { None },
                          if use_next { Some((end, if with_next { Some(next) } else { None })) } else { None });
    if use_next && !with_next && m == M::Linear && end > 16 {
        assert!(r == Err(E::InterpolateMissingPoint), "linear extension needs the next point");
        return;
    }
    let r = r.unwrap();
    let mut want = w;
    if use_prev && start < 8 {
        let f = TSPoint { ts: start, val: at(prev, s.first, start) };
        assert!(r.first.ts == start && r.first.val == f.val, "first point moves to the start bound");
        want += area(m, f, s.first);
    } else { assert!(eqp(r.first, s.first), "first point stays"); }
    if use_next && end > 16 {
        let l = TSPoint { ts: end, val: at(s.last, next, end) };
        assert!(r.last.ts == end && r.last.val == l.val, "last point moves to the end bound");
        want += area(m, s.last, l);
    } else { assert!(eqp(r.last, s.last), "last point stays"); }
    assert!(r.w_sum == want, "area added by the extension");
    reach!(start < 8 && end > 16, "extended");
    }
harnesses! {
    fn new_is_one_point() {
        let (m, p) = (method(), pt(false));
        let s = S::new(p, m);
        assert!(s.method == m && eqp(s.first, p) && eqp(s.last, p) && s.w_sum == 0.0, "new summary");
        assert!(s.time_weighted_integral() == 0.0, "integral of one point");
        assert!(s.time_weighted_average() == Err(E::ZeroDuration), "average of one point is undefined");
    }
    fn accum_points() { accum(false) }
    fn accum_area() { accum(true) }
    fn combine_points() { combine(false) }
    fn combine_area() { combine(true) }
    // combining partial summaries is the same as one pass over all points (four points, exact values)
    fn combine_equals_sequential() {
        let m = method();
        let at = |ts: i64| TSPoint { ts, val: if any_bool() { 3.0 } else { -1.5 } };
        let p = [at(0), at(2), at(6), at(7)];
        let mut all = S::new(p[0], m);
        all.accum(p[1]).unwrap();
        all.accum(p[2]).unwrap();
        all.accum(p[3]).unwrap();
        let mut l = S::new(p[0], m);
        let mut r;
        if any_bool() {
            l.accum(p[1]).unwrap();
            r = S::new(p[2], m);
        } else {
            r = S::new(p[1], m);
            r.accum(p[2]).unwrap();
        }
        r.accum(p[3]).unwrap();
        let c = l.combine(&r).unwrap();
        assert!(eqp(c.first, all.first) && eqp(c.last, all.last) && c.w_sum == all.w_sum, "split and merge differs from one pass");
    }
    #[kani::unwind(5)]
    fn iter_constructors() {
        let m = method();
        let none: [TSPoint; 0] = [];
        assert!(S::new_from_sorted_iter(&none, m) == Err(E::EmptyIterator), "empty input");
        let nos: [S; 0] = [];
        assert!(S::combine_sorted_iter(&nos) == Err(E::EmptyIterator), "empty input");
        let at = || TSPoint { ts: any_in(0, 2) as i64, val: if any_bool() { 2.0 } else { -1.0 } };
        let p = [at(), at(), at()];
        let mut s = S::new(p[0], m);
        let r1 = s.accum(p[1]);
        let r2 = s.accum(p[2]);
        match S::new_from_sorted_iter(&p, m) {
            Ok(t) => assert!(r1.is_ok() && r2.is_ok() && t == s, "from points in order"),
            Err(e) => assert!(e == E::OrderError && (r1.is_err() || r2.is_err()), "refused ordered points"),
        }
        let parts = [S::new(p[0], m), S::new(p[1], m), S::new(p[2], m)];
        match S::combine_sorted_iter(&parts) {
            Ok(t) => { assert!(p[0].ts < p[1].ts && p[1].ts < p[2].ts, "accepted unordered parts"); assert!(t == s, "from parts in order"); }
            Err(e) => assert!(e == E::OrderError && !(p[0].ts < p[1].ts && p[1].ts < p[2].ts), "refused ordered parts"),
        }
    }
    // extending to bounds adds exactly the areas between the bounds and the points
    fn with_bounds_locf_start() { bounds(M::LOCF, true, false, any_f64_tiny) }
    fn with_bounds_locf_end() { bounds(M::LOCF, false, true, any_f64_tiny) }
    fn with_bounds_locf_both() { bounds(M::LOCF, true, true, any_f64_tiny) }
    fn with_bounds_linear_start() { bounds(M::Linear, true, false, any_f64_tiny) }
    fn with_bounds_linear_end() { bounds(M::Linear, false, true, any_f64_tiny) }
    fn with_bounds_linear_both() { bounds(M::Linear, true, true, || if any_bool() { 3.0 } else { -1.0 }) }
    fn with_bounds_errors() {
        let m = method();
        let s = summary(false, m);
        let (start, prev, end, next) = (any_i64(), pt(false), any_i64(), pt(false));
        assume(-T < start && start < T && -T < end && end < T);
        if s.with_bounds(Some((start, prev)), None).is_ok() {
            assert!(prev.ts < s.first.ts && prev.ts <= start && start <= s.first.ts, "start bound outside [previous point, first point] accepted");
            reach!(true, "start bound accepted");
        }
        if let Ok(r) = s.with_bounds(None, Some((end, Some(next)))) {
            assert!(end >= s.last.ts, "end bound before the last point accepted");
            assert!(end == s.last.ts || next.ts >= end, "next point before the end bound accepted");
            assert!(r.last.ts == end, "last time is the bound");
        }
    }
    fn average_and_integral() {
        let m = method();
        let w = any_f64_tiny();
        let s = S { method: m, first: TSPoint { ts: 4, val: any_f64_tiny() }, last: TSPoint { ts: 12, val: any_f64_tiny() }, w_sum: w };
        assert!(s.time_weighted_average() == Ok(w / 8.0), "average is the sum over the duration");
        assert!(s.time_weighted_integral() == w, "integral");
        let z = summary(false, m);
        assert!(z.time_weighted_average().is_err() == (z.first.ts == z.last.ts), "average defined iff time passes");
    }
}
/// naive area under points in time order; `t` are whole microseconds below 2^20 and the values quarters below 2^8, so that every product and sum is exact
fn naive(m: M, p: &[TSPoint]) -> f64 { p.windows(2).map(|w| area(m, w[0], w[1])).sum() }
fn history() -> (M, Vec<TSPoint>) {
    let n = any_in(1, 12) as usize;
    let mut t = any_in(0, 1000) as i64 - 500;
    let m = method();
    (m, (0..n).map(|_| { t += any_in(1, 3000) as i64; TSPoint { ts: t, val: (any_in(0, 1000) as f64 - 500.0) / 4.0 } }).collect())
}
executed! {
    fn history_is_the_area() {
        let (m, p) = history();
        let s = S::new_from_sorted_iter(&p, m).unwrap();
        assert!(eqp(s.first, p[0]) && eqp(s.last, p[p.len() - 1]), "ends");
        assert!(s.w_sum == naive(m, &p) && s.time_weighted_integral() == s.w_sum, "area under the points");
        let d = (s.last.ts - s.first.ts) as f64;
        if p.len() > 1 { assert!(s.time_weighted_average() == Ok(s.w_sum / d), "average"); }
        // any split into consecutive parts, combined
        let mut parts = vec![]; let mut i = 0;
        while i < p.len() { let j = (i + any_in(1, 4) as usize).min(p.len()); parts.push(S::new_from_sorted_iter(&p[i..j], m).unwrap()); i = j; }
        assert!(S::combine_sorted_iter(&parts).unwrap() == s, "split and combine differs from one pass");
    }
    fn bounds_are_the_area() {
        let (m, mut p) = history();
        let s = S::new_from_sorted_iter(&p, m).unwrap();
        // extension points lie a power of two away, so that linear interpolation is exact
        let prev = TSPoint { ts: s.first.ts - 64, val: (any_in(0, 100) as f64 - 50.0) * 4.0 };
        let next = TSPoint { ts: s.last.ts + 64, val: (any_in(0, 100) as f64 - 50.0) * 4.0 };
        let (start, end) = (prev.ts + any_in(0, 64) as i64, s.last.ts + any_in(0, 64) as i64);
        let at = |a: TSPoint, b: TSPoint, t: i64| match m { M::LOCF => a.val, M::Linear => a.val + (b.val - a.val) * ((t - a.ts) as f64) / 64.0 };
        let (us, ue) = (any_bool(), any_bool());
        let r = s.with_bounds(if us { Some((start, prev)) } else { None }, if ue { Some((end, Some(next))) } else { None }).unwrap();
        if us && start < s.first.ts { p.insert(0, TSPoint { ts: start, val: at(prev, s.first, start) }); }
        if ue && end > s.last.ts { p.push(TSPoint { ts: end, val: at(s.last, next, end) }); }
        let w = naive(m, &p);
        assert!(r.first.ts == p[0].ts && (r.first.val - p[0].val).abs() < 1e-6, "start of the extended range");
        assert!(r.last.ts == p[p.len() - 1].ts && (r.last.val - p[p.len() - 1].val).abs() < 1e-6, "end of the extended range");
        assert!((r.w_sum - w).abs() <= 1e-6 * (1.0 + w.abs()), "area of the extended range");
    }
}
