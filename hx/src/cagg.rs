//! C06: counter/gauge summary bookkeeping, one transition from an arbitrary valid state.
//! C07: combining two summaries of disjoint, ordered ranges.
use crate::fp::*;
use crate::shim::*;
use counter_agg::{range::I64Range, CounterError, CounterSummaryBuilder, GaugeSummaryBuilder, MetricSummary};
use stats_agg::stats2d::StatsSummary2D;
use tspoint::TSPoint;

#[cfg(kani)]
pub mod st {
    use stats_agg::{stats2d::StatsSummary2D, FloatLike, StatsError, XYPair};
    /// contract of StatsSummary2D::accum as far as this property needs it (its own contract is C11):
    /// count goes up by one and the pair is accumulated exactly once.  sx/sy record the pair.
    pub fn accum<T: FloatLike>(s: &mut StatsSummary2D<T>, p: XYPair<T>) -> Result<(), StatsError> {
        s.n += 1;
        s.sx = p.x;
        s.sy = p.y;
        Ok(())
    }
    pub fn offset<T: FloatLike>(s: &mut StatsSummary2D<T>, p: XYPair<T>) -> Result<(), StatsError> {
        s.sx2 = p.x;
        s.sy2 = p.y;
        Ok(())
    }
    pub fn combine<T: FloatLike>(s: &StatsSummary2D<T>, o: StatsSummary2D<T>) -> Result<StatsSummary2D<T>, StatsError> {
        let mut r = o;
        r.n = s.n + o.n;
        r.sx = s.sx;
        Ok(r)
    }
}

const T: i64 = 1 << 62;

/// sums: true restricts values to small doubles and asserts the floating-point sums; false is full-domain
fn pt_(sums: bool) -> TSPoint {
    let p = TSPoint { ts: any_i64(), val: if sums { any_f64_small() } else { any_f64() } };
    assume(-T < p.ts && p.ts < T && !p.val.is_nan());
    // natively the real regression sums run (no stub) and refuse to overflow
    #[cfg(not(kani))]
    assume(p.val.abs() < 1e100 && p.ts.abs() < 1 << 40);
    p
}
fn pt() -> TSPoint { pt_(false) }
fn eqp(a: TSPoint, b: TSPoint) -> bool {
    a.ts == b.ts && same(a.val, b.val)
}
fn range() -> Option<I64Range> {
    if any_bool() {
        return None;
    }
    let l = any_i64();
    let r = any_i64();
    Some(I64Range { left: if any_bool() { Some(l) } else { None }, right: if any_bool() { Some(r) } else { None } })
}
/// any summary that some history of accepted points can produce
fn summary(sums: bool) -> MetricSummary {
    let pt = || pt_(sums);
    let n = any_u64();
    assume(1 <= n && n < 1 << 50);
    let first = pt();
    let mut second = first;
    let mut penultimate = first;
    let mut last = first;
    if n >= 2 {
        last = pt();
        second = last;
        assume(first.ts < last.ts);
    }
    if n >= 3 {
        second = pt();
        assume(first.ts < second.ts && second.ts < last.ts);
        penultimate = second;
    }
    if n >= 4 {
        penultimate = pt();
        assume(second.ts < penultimate.ts && penultimate.ts < last.ts);
    }
    let (num_resets, num_changes, reset_sum) = (any_u64(), any_u64(), if sums { any_f64_small() } else { any_f64() });
    assume(num_resets <= num_changes && num_changes < n);
    #[cfg(not(kani))]
    assume(reset_sum.abs() < 1e100);
    let mut stats: StatsSummary2D<f64> = StatsSummary2D::new();
    stats.n = n;
    MetricSummary { first, second, penultimate, last, reset_sum, num_resets, num_changes, stats, bounds: range() }
}

fn check_add(old: &MetricSummary, new: &MetricSummary, p: TSPoint, r: Result<(), CounterError>, counter: bool, sums: bool) {
    if p.ts < old.last.ts {
        assert!(r == Err(CounterError::OrderError), "an earlier point must be refused");
        return;
    }
    assert!(r.is_ok(), "an in-order point must be accepted");
    assert!(eqp(new.first, old.first), "first point never changes");
    assert!(new.bounds == old.bounds, "bounds never change");
    if p.ts == old.last.ts {
        // only the first point seen at a timestamp counts
        assert!(eqp(new.second, old.second) && eqp(new.penultimate, old.penultimate) && eqp(new.last, old.last), "duplicate time changes the points");
        assert!(same(new.reset_sum, old.reset_sum) && new.num_resets == old.num_resets, "duplicate time counts a reset");
        assert!(new.num_changes == old.num_changes && new.stats.n == old.stats.n, "duplicate time counts");
        return;
    }
    assert!(eqp(new.last, p), "last point");
    assert!(eqp(new.penultimate, old.last), "penultimate point");
    let single = old.stats.n == 1;
    assert!(eqp(new.second, if single { p } else { old.second }), "second point");
    assert!(new.num_changes == old.num_changes + (p.val != old.last.val) as u64, "number of changes");
    let reset = counter && p.val < old.last.val;
    assert!(new.num_resets == old.num_resets + reset as u64, "number of resets");
    if !reset { assert!(same(new.reset_sum, old.reset_sum), "reset total without a reset"); }
    assert!(new.stats.n == old.stats.n + 1, "number of points");
    reach!(single, "second point ever");
    if !sums { return; }
    let rs = if reset { old.reset_sum + old.last.val } else { old.reset_sum };
    assert!(eqn(new.reset_sum, rs), "reset total");
    #[cfg(kani)]
    {
        assert!(eqn(new.stats.sy, p.val + rs), "regression y is the reset-adjusted value");
    }
}

fn check_combine(a: &MetricSummary, b: &MetricSummary, n: &MetricSummary, r: Result<(), CounterError>, counter: bool, sums: bool) {
    if a.last.ts >= b.first.ts {
        assert!(r == Err(CounterError::OrderError), "overlapping or reversed ranges must be refused");
        return;
    }
    assert!(r.is_ok(), "disjoint ordered ranges must combine");
    assert!(eqp(n.first, a.first) && eqp(n.last, b.last), "ends of the combined range");
    assert!(eqp(n.second, if a.stats.n == 1 { b.first } else { a.second }), "second point");
    assert!(eqp(n.penultimate, if b.stats.n == 1 { a.last } else { b.penultimate }), "penultimate point");
    assert!(n.stats.n == a.stats.n + b.stats.n, "number of points");
    assert!(n.num_changes == a.num_changes + b.num_changes + (a.last.val != b.first.val) as u64, "number of changes");
    let reset = counter && b.first.val < a.last.val;
    assert!(n.num_resets == a.num_resets + b.num_resets + reset as u64, "number of resets");
    let bounds = match (a.bounds, b.bounds) {
        (None, x) => x,
        (x, None) => x,
        (Some(x), Some(y)) => Some(I64Range {
            left: match (x.left, y.left) { (Some(p), Some(q)) => Some(if p < q { p } else { q }), _ => None },
            right: match (x.right, y.right) { (Some(p), Some(q)) => Some(if p > q { p } else { q }), _ => None },
        }),
    };
    assert!(n.bounds == bounds, "bounds of the combination");
    if !sums { return; }
    let at = if reset { a.reset_sum + a.last.val } else { a.reset_sum };
    assert!(eqn(n.reset_sum, at + b.reset_sum), "reset total");
    #[cfg(kani)]
    {
        assert!(eqn(n.stats.sy2, at) && n.stats.sx2 == 0.0, "later regression values are shifted by the resets before them");
    }
}

fn do_add(counter: bool, sums: bool) {
    let old = summary(sums);
    let p = pt_(sums);
    if counter {
        let mut b = CounterSummaryBuilder::from(old.clone());
        let r = b.add_point(&p);
        reach!(p.ts > old.last.ts && p.val < old.last.val, "a reset happened");
        check_add(&old, &b.build(), p, r, true, sums);
    } else {
        assume(old.num_resets == 0 && old.reset_sum == 0.0);
        let mut b = GaugeSummaryBuilder::from(old.clone());
        let r = b.add_point(&p);
        reach!(p.ts > old.last.ts && p.val < old.last.val, "the gauge went down");
        check_add(&old, &b.build(), p, r, false, sums);
    }
}
fn do_combine(counter: bool, sums: bool) {
    let (a, b) = (summary(sums), summary(sums));
    reach!(a.last.ts < b.first.ts && b.first.val < a.last.val, "value drops at the seam");
    if counter {
        let mut x = CounterSummaryBuilder::from(a.clone());
        let r = x.combine(&b);
        check_combine(&a, &b, &x.build(), r, true, sums);
    } else {
        let mut x = GaugeSummaryBuilder::from(a.clone());
        let r = x.combine(&b);
        check_combine(&a, &b, &x.build(), r, false, sums);
    }
}

#[cfg(feature = "c06")]
pub mod add {
    use super::*;
harnesses! {
    #[kani::stub(stats_agg::stats2d::StatsSummary2D::accum, crate::cagg::st::accum)]
    fn new_summary() {
        let (p, b) = (pt(), range());
        let c = CounterSummaryBuilder::new(&p, b).build();
        let g = GaugeSummaryBuilder::new(&p, b).build();
        for s in [c, g] {
            assert!(eqp(s.first, p) && eqp(s.second, p) && eqp(s.penultimate, p) && eqp(s.last, p), "points of a new summary");
            assert!(s.num_resets == 0 && s.num_changes == 0 && s.reset_sum == 0.0 && s.stats.n == 1, "counts of a new summary");
            assert!(s.bounds == b, "bounds of a new summary");
        }
    }
    #[kani::stub(stats_agg::stats2d::StatsSummary2D::accum, crate::cagg::st::accum)]
    fn counter_add_point() { do_add(true, false) }
    #[kani::stub(stats_agg::stats2d::StatsSummary2D::accum, crate::cagg::st::accum)]
    fn counter_add_point_sums() { do_add(true, true) }
    #[kani::stub(stats_agg::stats2d::StatsSummary2D::accum, crate::cagg::st::accum)]
    fn gauge_add_point() { do_add(false, false) }
    #[kani::stub(stats_agg::stats2d::StatsSummary2D::accum, crate::cagg::st::accum)]
    fn gauge_add_point_sums() { do_add(false, true) }

    // ---- what the accessors report, from any valid state ----
    #[kani::stub(stats_agg::stats2d::StatsSummary2D::accum, crate::cagg::st::accum)]
    fn accessors_defined() {
        let s = summary(false);
        let single = s.stats.n == 1;
        assert!(s.rate().is_none() == single, "rate is NULL exactly for one point");
        assert!(s.irate_left().is_none() == single, "irate_left is NULL exactly for one point");
        assert!(s.irate_right().is_none() == single, "irate_right is NULL exactly for one point");
        let ok = match s.bounds { None => true, Some(b) => {
            let inb = |t: i64| b.left.is_none_or(|l| l <= t) && b.right.is_none_or(|r| t < r);
            inb(s.first.ts) && inb(s.last.ts) } };
        assert!(s.bounds_valid() == ok, "bounds are valid iff they contain the first and last point");
        reach!(single, "single"); reach!(ok && s.bounds.is_some(), "bounded");
    }
    fn accessors_values() {
        // four points at fixed times; values arbitrary small doubles
        let v = [any_f64_small(), any_f64_small(), any_f64_small(), any_f64_small()];
        let p = |t: i64, i: usize| TSPoint { ts: t, val: v[i] };
        let rs = any_f64_small();
        let mut stats: StatsSummary2D<f64> = StatsSummary2D::new();
        stats.n = 4;
        let s = MetricSummary { first: p(1_000_000, 0), second: p(1_500_000, 1), penultimate: p(2_500_000, 2), last: p(3_000_000, 3),
            reset_sum: rs, num_resets: 0, num_changes: 3, stats, bounds: None };
        assert!(s.time_delta() == 2.0, "time_delta is in seconds");
        assert!(eqn(s.delta(), v[3] + rs - v[0]), "delta");
        assert!(eqn(s.rate().unwrap(), (v[3] + rs - v[0]) / 2.0), "rate is per second");
        let il = if v[1] >= v[0] { v[1] - v[0] } else { v[1] };
        let ir = if v[3] >= v[2] { v[3] - v[2] } else { v[3] };
        assert!(eqn(s.idelta_left(), il), "idelta_left");
        assert!(eqn(s.idelta_right(), ir), "idelta_right");
        assert!(eqn(s.irate_left().unwrap(), il * 2.0), "irate_left");
        assert!(eqn(s.irate_right().unwrap(), ir * 2.0), "irate_right");
    }
    // regression input: seconds since the epoch, reset-adjusted value (fixed times)
    #[kani::stub(stats_agg::stats2d::StatsSummary2D::accum, crate::cagg::st::accum)]
    fn regression_time_unit() {
        let a = TSPoint { ts: 2_000_000, val: any_f64_small() };
        let b = TSPoint { ts: 3_500_000, val: any_f64_small() };
        let mut s = CounterSummaryBuilder::new(&a, None);
        s.add_point(&b).unwrap();
        let s = s.build();
        #[cfg(kani)]
        assert!(s.stats.sx == 3.5, "regression x is seconds");
        #[cfg(not(kani))]
        assert!(s.stats.sx == 5.5, "regression x is seconds");
    }
}
}

#[cfg(feature = "c07")]
pub mod c07 {
    use super::*;
    harnesses! {
        #[kani::stub(stats_agg::stats2d::StatsSummary2D::combine, crate::cagg::st::combine)]
        #[kani::stub(stats_agg::stats2d::StatsSummary2D::offset, crate::cagg::st::offset)]
        fn counter_combine() { do_combine(true, false) }
        #[kani::stub(stats_agg::stats2d::StatsSummary2D::combine, crate::cagg::st::combine)]
        #[kani::stub(stats_agg::stats2d::StatsSummary2D::offset, crate::cagg::st::offset)]
        fn counter_combine_sums() { do_combine(true, true) }
        #[kani::stub(stats_agg::stats2d::StatsSummary2D::combine, crate::cagg::st::combine)]
        #[kani::stub(stats_agg::stats2d::StatsSummary2D::offset, crate::cagg::st::offset)]
        fn gauge_combine() { do_combine(false, false) }
        #[kani::stub(stats_agg::stats2d::StatsSummary2D::combine, crate::cagg::st::combine)]
        #[kani::stub(stats_agg::stats2d::StatsSummary2D::offset, crate::cagg::st::offset)]
        fn gauge_combine_sums() { do_combine(false, true) }
    }
}

/// whole histories against a direct reading of the definitions
#[cfg(not(kani))]
pub mod model {
    use super::*;
    fn history() -> Vec<TSPoint> {
        let n = any_in(1, 10) as usize;
        let mut t = any_in(0, 1000) as i64 * 1_000_000;
        (0..n).map(|_| { t += any_in(1, 9) as i64 * 1_000_000; TSPoint { ts: t, val: any_in(0, 30) as f64 - if any_bool() { 0.0 } else { 10.0 } } }).collect()
    }
    fn close(a: f64, b: f64) -> bool { (a - b).abs() <= 1e-7 * (1.0 + a.abs().max(b.abs())) }
    fn fed(counter: bool, p: &[TSPoint]) -> MetricSummary {
        if counter {
            let mut b = CounterSummaryBuilder::new(&p[0], None);
            for q in &p[1..] { b.add_point(q).unwrap(); }
            b.build()
        } else {
            let mut b = GaugeSummaryBuilder::new(&p[0], None);
            for q in &p[1..] { b.add_point(q).unwrap(); }
            b.build()
        }
    }
    fn check(counter: bool, p: &[TSPoint], s: &MetricSummary) {
        let n = p.len();
        let mut add = 0.0;
        let (mut resets, mut changes) = (0u64, 0u64);
        let mut adj = vec![p[0].val];
        for w in p.windows(2) {
            if w[1].val != w[0].val { changes += 1; }
            if counter && w[1].val < w[0].val { resets += 1; add += w[0].val; }
            adj.push(w[1].val + add);
        }
        assert!(s.num_resets == resets, "number of resets");
        assert!(s.num_changes == changes, "number of changes");
        assert!(s.stats.n == n as u64, "number of points");
        assert!(eqp(s.first, p[0]) && eqp(s.last, p[n - 1]), "first and last");
        assert!(eqp(s.second, p[1.min(n - 1)]) && eqp(s.penultimate, p[n.saturating_sub(2)]), "second and penultimate");
        assert!(close(s.delta(), adj[n - 1] - adj[0]), "delta is the reset-adjusted change");
        let x: Vec<f64> = p.iter().map(|q| q.ts as f64 / 1e6).collect();
        assert!(close(s.time_delta(), x[n - 1] - x[0]), "time delta in seconds");
        match s.rate() { None => assert!(n == 1, "rate undefined"), Some(r) => assert!(n > 1 && close(r, (adj[n - 1] - adj[0]) / (x[n - 1] - x[0])), "rate") }
        // regression of the reset-adjusted values over seconds
        let (mx, my) = (x.iter().sum::<f64>() / n as f64, adj.iter().sum::<f64>() / n as f64);
        let sxx: f64 = x.iter().map(|v| (v - mx) * (v - mx)).sum();
        let sxy: f64 = x.iter().zip(&adj).map(|(v, w)| (v - mx) * (w - my)).sum();
        match s.stats.slope() { None => assert!(n == 1, "slope undefined"), Some(v) => assert!(n > 1 && close(v, sxy / sxx), "slope") }
        if n > 1 {
            let b = my - sxy / sxx * mx;
            assert!((s.stats.intercept().unwrap() - b).abs() <= 1e-6 * (1.0 + b.abs() + mx.abs()), "intercept");
        }
    }
    fn hist(counter: bool) {
        let p = history();
        let s = fed(counter, &p);
        check(counter, &p, &s);
    }
    fn split(counter: bool) {
        let p = history();
        let mut parts = vec![];
        let mut i = 0;
        while i < p.len() { let j = (i + any_in(1, 4) as usize).min(p.len()); parts.push(fed(counter, &p[i..j])); i = j; }
        // associate either from the left or from the right
        let join = |a: &MetricSummary, b: &MetricSummary| if counter {
            let mut x = CounterSummaryBuilder::from(a.clone()); x.combine(b).unwrap(); x.build()
        } else {
            let mut x = GaugeSummaryBuilder::from(a.clone()); x.combine(b).unwrap(); x.build()
        };
        let s = if any_bool() { let mut a = parts[0].clone(); for b in &parts[1..] { a = join(&a, b); } a }
            else { let mut b = parts.pop().unwrap(); while let Some(a) = parts.pop() { b = join(&a, &b); } b };
        check(counter, &p, &s);
    }
    fn prometheus() {
        // extrapolated delta, against the published algorithm
        let p = history();
        let mut b = CounterSummaryBuilder::new(&p[0], None);
        for q in &p[1..] { b.add_point(q).unwrap(); }
        let n = p.len();
        let (l, r) = (p[0].ts - any_in(0, 20) as i64 * 1_000_000, p[n - 1].ts + 1 + any_in(0, 20) as i64 * 1_000_000);
        b.set_bounds(Some(I64Range { left: Some(l), right: Some(r) }));
        let s = b.build();
        let d = s.prometheus_delta().unwrap();
        if n == 1 { assert!(d.is_none(), "one point has no delta"); return; }
        let (sampled, avg) = (s.time_delta(), s.time_delta() / (n - 1) as f64);
        let mut to_start = (p[0].ts - l) as f64 / 1e6;
        let to_end = (r - p[n - 1].ts - 1000) as f64 / 1e6;
        if s.delta() > 0.0 && p[0].val >= 0.0 { to_start = to_start.min(sampled * (p[0].val / s.delta())); }
        let ext = |d: f64| if d < avg * 1.1 { d } else { avg / 2.0 };
        // at the threshold itself either reading is right
        if [to_start, to_end].iter().any(|d| (d - avg * 1.1).abs() < 1e-9) { return; }
        let want = s.delta() * (sampled + ext(to_start) + ext(to_end)) / sampled;
        assert!(close(d.unwrap(), want), "extrapolated delta");
        let secs = (r - l - 1000) as f64 / 1e6;
        assert!(close(s.prometheus_rate().unwrap().unwrap(), want / secs), "extrapolated rate");
    }
    fn counter_history() { hist(true) }
    fn gauge_history() { hist(false) }
    fn counter_split_combine() { split(true) }
    fn gauge_split_combine() { split(false) }
    pub const C06: &[(&str, fn())] = &[("cagg::model::counter_history", counter_history), ("cagg::model::gauge_history", gauge_history), ("cagg::model::prometheus", prometheus)];
    pub const C07: &[(&str, fn())] = &[("cagg::model::counter_split_combine", counter_split_combine), ("cagg::model::gauge_split_combine", gauge_split_combine)];
}
