//! C10: the SQL-level time weight, counter and gauge aggregates, and interpolation to the ends of a bucket.
use crate::shim::*;
use timescaledb_toolkit::verif::DurationUnit as U;
use tspoint::{TSPoint, TSPointError};

const UNITS: [(U, u32); 5] = [(U::Microsec, 1), (U::Millisec, 1000), (U::Second, 1_000_000), (U::Minute, 60_000_000), (U::Hour, 3_600_000_000)];
fn unit() -> (U, u32) { UNITS[any_in(0, 4) as usize] }

harnesses! {
    fn unit_lengths() {
        let (u, us) = unit();
        assert!(u.microseconds() == us);
    }
    fn unit_to_micros() {
        let ((u, us), x) = (unit(), any_in(0, 4000) as f64 / 4.0);
        assert!(u.convert_unit(x, U::Microsec) == x * us as f64, "to microseconds");
    }
    fn unit_ratio() {
        let ((a, x), (b, y)) = (unit(), unit());
        let v = any_in(0, 15) as f64;
        let r = a.convert_unit(v, b);
        // exact where one unit is a multiple of the other and the result is a whole number
        if x >= y { assert!(r == v * (x / y) as f64); } else { assert!(r == v * x as f64 / y as f64); }
    }
    fn interpolation_ends() {
        let (a, b) = (TSPoint { ts: any_time(), val: any_f64() }, TSPoint { ts: any_time(), val: any_f64() });
        match a.interpolate_linear(&b, a.ts) {
            Err(e) => { assert!(e == TSPointError::TimesEqualInterpolate && a.ts == b.ts); }
            Ok(v) => {
                assert!(a.ts != b.ts);
                if a.val.is_finite() && (b.val - a.val).is_finite() { assert!(v == a.val, "the line goes through its first point"); }
            }
        }
        reach!(a.ts == b.ts, "equal times");
    }
    fn interpolation_value() {
        let (a, b) = (TSPoint { ts: -3, val: any_f64_tiny() }, TSPoint { ts: 5, val: any_f64_tiny() });
        let t = any_in(0, 12) as i64 - 6;
        // exact: the divisor is a power of two
        assert!(a.interpolate_linear(&b, t).unwrap() == a.val + (b.val - a.val) * (t + 3) as f64 / 8.0);
    }
}

#[cfg(not(kani))]
mod ex {
    use super::*;
    use crate::sql::*;
    use counter_agg::{range::I64Range, CounterSummaryBuilder, GaugeSummaryBuilder, MetricSummary};
    use pgrx::Internal;
    use timescaledb_toolkit::accessors::*;
    use timescaledb_toolkit::verif::tstzrange;
    use timescaledb_toolkit::{counter_agg as ca, gauge_agg as ga, time_weighted_average as tw};

    pub type Row = (Option<i64>, Option<f64>);
    pub fn near(a: f64, b: f64, scale: f64) -> bool { a == b || (a - b).abs() <= 1e-9 * (1.0 + scale.abs()) }
    pub fn nearo(a: Option<f64>, b: Option<f64>, scale: f64) -> bool { match (a, b) { (None, None) => true, (Some(a), Some(b)) => a.to_bits() == b.to_bits() || near(a, b, scale) || (a.is_nan() && b.is_nan()), _ => false } }
    /// rows with distinct times in some order, some of them with NULLs
    pub fn rows(lo: i64, min: u64) -> Vec<Row> {
        let n = any_in(min, 9);
        let mut t = lo + any_in(0, 20) as i64;
        let mut v = vec![];
        for _ in 0..n { v.push((Some(t), Some(any_in(0, 80) as f64 / 4.0))); t += any_in(1, 30) as i64 * if any_in(0, 6) == 0 { 1000 } else { 1 } }
        for i in (1..v.len()).rev() { v.swap(i, any_in(0, i as u64) as usize) }
        for _ in 0..any_in(0, 2) { let i = any_in(0, v.len() as u64) as usize; v.insert(i, if any_bool() { (None, Some(7.0)) } else { (Some(lo - 5), None) }) }
        v
    }
    pub fn pts(r: &[Row]) -> Vec<TSPoint> {
        let mut p: Vec<TSPoint> = r.iter().filter_map(|r| Some(TSPoint { ts: r.0?, val: r.1? })).collect();
        p.sort_by_key(|p| p.ts);
        p
    }
    /// contiguous-in-time parts of the rows
    pub fn split(r: &[Row]) -> (Vec<Row>, Vec<Row>) {
        let p = pts(r);
        if p.is_empty() { return (r.to_vec(), vec![]) }
        let cut = p[any_in(0, p.len() as u64 - 1) as usize].ts;
        r.iter().partition(|r| r.0.map_or(any_bool(), |t| t < cut))
    }
    pub fn range(lo: Option<i64>, hi: Option<i64>, lo_inc: bool, hi_inc: bool) -> tstzrange {
        let mut b = vec![0u8; 8];
        let mut f = 0u8;
        match lo { Some(l) => b.extend(if lo_inc { f |= 2; l } else { l - 1 }.to_ne_bytes()), None => f |= 8 }
        match hi { Some(h) => b.extend(if hi_inc { f |= 4; h - 1 } else { h }.to_ne_bytes()), None => f |= 16 }
        b.push(f);
        raw_range(b)
    }
    pub fn empty_range() -> tstzrange { raw_range(vec![0, 0, 0, 0, 0, 0, 0, 0, 1]) }
    pub fn raw_range(mut b: Vec<u8>) -> tstzrange {
        let n = b.len() as i32;
        b.resize(b.len() + 16, 0);
        let p = Box::leak(b.into_boxed_slice()).as_mut_ptr();
        unsafe { pgrx::set_varsize_4b(p.cast(), n) }
        tstzrange(pgrx::pg_sys::Datum::from(p))
    }

    // ---------------------------------------------------------------- time weight
    pub type W = tw::TimeWeightSummary;
    pub fn w_agg(r: &[Row], m: &str) -> Option<Internal> {
        let mut s = None;
        for (t, v) in r { s = tw::time_weight_trans(st(s), m.to_string(), t.map(ts), *v, NUL) }
        s
    }
    pub fn w_fin(s: Option<Internal>) -> Option<W> { tw::verif::fin(st(s)) }
    pub fn area(a: TSPoint, b: TSPoint, lin: bool) -> f64 { (b.ts - a.ts) as f64 * if lin { (a.val + b.val) / 2.0 } else { a.val } }
    pub fn w_check(s: Option<W>, p: &[TSPoint], lin: bool, what: &str) {
        if p.is_empty() { assert!(s.is_none(), "{what}: no rows"); return }
        let s = s.expect(what);
        let sum: f64 = p.windows(2).map(|w| area(w[0], w[1], lin)).sum();
        let abs: f64 = p.windows(2).map(|w| area(w[0], w[1], lin).abs()).sum();
        let (f, l) = (p[0], p[p.len() - 1]);
        assert!(tw::verif::first_val(s.clone()) == f.val && tw::verif::last_val(s.clone()) == l.val, "{what}: first and last value");
        assert!(us(tw::verif::first_time(s.clone())) == f.ts && us(tw::verif::last_time(s.clone())) == l.ts, "{what}: first and last time");
        assert!(tw::arrow_time_weight_first_val(s.clone(), acc0!(AccessorFirstVal)) == f.val && tw::arrow_time_weight_last_val(s.clone(), acc0!(AccessorLastVal)) == l.val, "{what}: -> first and last value");
        assert!(us(tw::arrow_time_weight_first_time(s.clone(), acc0!(AccessorFirstTime))) == f.ts && us(tw::arrow_time_weight_last_time(s.clone(), acc0!(AccessorLastTime))) == l.ts, "{what}: -> first and last time");
        let avg = if p.len() == 1 { None } else { Some(sum / (l.ts - f.ts) as f64) };
        let a = tw::time_weighted_average_average(Some(s.clone()));
        assert!(nearo(a, avg, 20.0), "{what}: average {a:?} instead of {avg:?}");
        assert!(a == tw::arrow_time_weighted_average_average(Some(s.clone()), acc0!(AccessorAverage)));
        for (name, f) in NAMES {
            let i = tw::time_weighted_average_integral(Some(s.clone()), name.to_string());
            assert!(nearo(i, Some(sum / f), abs / f), "{what}: integral in {name}: {i:?}");
            assert!(i == tw::arrow_time_weighted_average_integral(Some(s.clone()), stored(accessor_integral(name))), "{what}: -> integral");
        }
    }
    pub const NAMES: [(&str, f64); 5] = [("us", 1.0), ("MilliSeconds", 1e3), ("second", 1e6), ("mins", 6e7), ("H", 3.6e9)];

    // ---------------------------------------------------------------- counters and gauges
    pub type C = ca::CounterSummary;
    pub type G = ga::GaugeSummary;
    pub fn c_agg(r: &[Row], b: Option<&dyn Fn() -> tstzrange>) -> Option<Internal> {
        let mut s = None;
        for (t, v) in r { s = match b { None => ca::counter_agg_trans_no_bounds(st(s), t.map(ts), *v, NUL), Some(b) => ca::counter_agg_trans(st(s), t.map(ts), *v, Some(b()), NUL) } }
        s
    }
    pub fn g_agg(r: &[Row], b: Option<&dyn Fn() -> tstzrange>) -> Option<Internal> {
        let mut s = None;
        for (t, v) in r { s = match b { None => ga::verif::trans_no_bounds(st(s), t.map(ts), *v), Some(b) => ga::verif::trans(st(s), t.map(ts), *v, Some(b())) } }
        s
    }
    /// the summary of the points in time order: what it contains is C06 and C07
    pub fn model(p: &[TSPoint], counter: bool, b: Option<I64Range>) -> Option<MetricSummary> {
        let f = p.first()?;
        if counter { let mut s = CounterSummaryBuilder::new(f, b); for p in &p[1..] { s.add_point(p).unwrap() } Some(s.build()) }
        else { let mut s = GaugeSummaryBuilder::new(f, b); for p in &p[1..] { s.add_point(p).unwrap() } Some(s.build()) }
    }
    /// everything SQL can ask of a summary
    pub struct Ask { delta: f64, time_delta: f64, il: f64, ir: f64, rate: Option<f64>, irl: Option<f64>, irr: Option<f64>, slope: Option<f64>, icpt: Option<f64>, corr: Option<f64>, n: i64, ch: i64, zero: Option<i64>, xd: Option<Option<f64>>, xr: Option<Option<f64>> }
    pub fn quiet<T>(f: impl FnOnce() -> T) -> Option<T> { std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok() }
    pub fn ask_model(m: &MetricSummary) -> Ask {
        Ask { delta: m.delta(), time_delta: m.time_delta(), il: m.idelta_left(), ir: m.idelta_right(), rate: m.rate(), irl: m.irate_left(), irr: m.irate_right(), slope: m.stats.slope(), icpt: m.stats.intercept(), corr: m.stats.corr(),
              n: m.stats.n as i64, ch: m.num_changes as i64, zero: m.stats.x_intercept().map(|x| (x * 1e6) as i64), xd: m.prometheus_delta().ok(), xr: m.prometheus_rate().ok() }
    }
    pub fn same(a: &Ask, b: &Ask, what: &str) {
        let s = 1e3;
        assert!(near(a.delta, b.delta, s), "{what}: delta {} instead of {}", a.delta, b.delta);
        assert!(near(a.time_delta, b.time_delta, 1.0), "{what}: time_delta");
        assert!(near(a.il, b.il, s) && near(a.ir, b.ir, s), "{what}: idelta");
        assert!(nearo(a.rate, b.rate, 1e8) && nearo(a.irl, b.irl, 1e8) && nearo(a.irr, b.irr, 1e8), "{what}: rate");
        assert!(a.n == b.n, "{what}: number of elements {} instead of {}", a.n, b.n);
        assert!(a.ch == b.ch, "{what}: number of changes");
        let rel = |x: Option<f64>, y: Option<f64>| match (x, y) { (Some(x), Some(y)) => (x - y).abs() <= 1e-6 * (1.0 + x.abs().max(y.abs())) || !(x.is_finite() && y.is_finite()), (None, None) => true, _ => false };
        assert!(rel(a.slope, b.slope) && rel(a.icpt, b.icpt) && rel(a.corr, b.corr), "{what}: regression");
        assert!(a.zero == b.zero || a.zero.is_some() && b.zero.is_some() && (b.slope.unwrap().abs() < 1.0 || (a.zero.unwrap() - b.zero.unwrap()).abs() <= 2), "{what}: zero time {:?} instead of {:?}", a.zero, b.zero);
        for (x, y, w) in [(a.xd, b.xd, "delta"), (a.xr, b.xr, "rate")] { assert!(x.is_some() == y.is_some(), "{what}: extrapolated {w}: bounds"); if let (Some(x), Some(y)) = (x, y) { assert!(rel(x, y), "{what}: extrapolated {w}: {x:?} instead of {y:?}"); } }
    }
    pub fn ask_c(s: &C, what: &str) -> Ask {
        use ca::verif as v;
        let c = || s.clone();
        let a = Ask { delta: v::delta(c()), time_delta: v::time_delta(c()), il: v::idelta_left(c()), ir: v::idelta_right(c()), rate: v::rate(c()), irl: v::irate_left(c()), irr: v::irate_right(c()), slope: v::slope(c()), icpt: v::intercept(c()), corr: v::corr(c()),
            n: v::num_elements(c()), ch: v::num_changes(c()), zero: v::counter_zero_time(c()).map(us), xd: quiet(|| v::extrapolated_delta(c(), "Prometheus ")), xr: quiet(|| v::extrapolated_rate(c(), "prometheus")) };
        let b = Ask { delta: ca::arrow_counter_agg_delta(c(), acc0!(AccessorDelta)), time_delta: ca::arrow_counter_agg_time_delta(c(), acc0!(AccessorTimeDelta)),
            il: ca::arrow_counter_agg_idelta_left(c(), acc0!(AccessorIdeltaLeft)), ir: ca::arrow_counter_agg_idelta_right(c(), acc0!(AccessorIdeltaRight)), rate: ca::arrow_counter_agg_rate(c(), acc0!(AccessorRate)),
            irl: ca::arrow_counter_agg_irate_left(c(), acc0!(AccessorIrateLeft)), irr: ca::arrow_counter_agg_irate_right(c(), acc0!(AccessorIrateRight)), slope: ca::arrow_counter_agg_slope(c(), acc0!(AccessorSlope)),
            icpt: ca::arrow_counter_agg_intercept(c(), acc0!(AccessorIntercept)), corr: ca::arrow_counter_agg_corr(c(), acc0!(AccessorCorr)), n: ca::arrow_counter_agg_num_elements(c(), acc0!(AccessorNumElements)),
            ch: ca::arrow_counter_agg_num_changes(c(), acc0!(AccessorNumChanges)), zero: ca::arrow_counter_agg_zero_time(c(), acc0!(AccessorCounterZeroTime)).map(us),
            xd: quiet(|| ca::arrow_counter_agg_extrapolated_delta(c(), stored(accessor_extrapolated_delta("prometheus")))), xr: quiet(|| ca::arrow_counter_agg_extrapolated_rate(c(), stored(accessor_extrapolated_rate("prometheus")))) };
        same(&a, &b, &format!("{what}: the -> accessors"));
        a
    }
    pub fn ask_g(s: &G, what: &str) -> Ask {
        use ga::verif as v;
        let c = || s.clone();
        let a = Ask { delta: v::delta(c()), time_delta: v::time_delta(c()), il: v::idelta_left(c()), ir: v::idelta_right(c()), rate: v::rate(c()), irl: v::irate_left(c()), irr: v::irate_right(c()), slope: v::slope(c()), icpt: v::intercept(c()), corr: v::corr(c()),
            n: v::num_elements(c()), ch: v::num_changes(c()), zero: v::gauge_zero_time(c()).map(us), xd: quiet(|| v::extrapolated_delta(c())), xr: quiet(|| v::extrapolated_rate(c())) };
        let b = Ask { delta: v::arrow_delta(c(), acc0!(AccessorDelta)), time_delta: v::arrow_time_delta(c(), acc0!(AccessorTimeDelta)),
            il: v::arrow_idelta_left(c(), acc0!(AccessorIdeltaLeft)), ir: v::arrow_idelta_right(c(), acc0!(AccessorIdeltaRight)), rate: v::arrow_gauge_agg_rate(c(), acc0!(AccessorRate)),
            irl: v::arrow_irate_left(c(), acc0!(AccessorIrateLeft)), irr: v::arrow_irate_right(c(), acc0!(AccessorIrateRight)), slope: v::arrow_slope(c(), acc0!(AccessorSlope)),
            icpt: v::arrow_intercept(c(), acc0!(AccessorIntercept)), corr: v::arrow_corr(c(), acc0!(AccessorCorr)), n: v::arrow_num_elements(c(), acc0!(AccessorNumElements)),
            ch: v::arrow_num_changes(c(), acc0!(AccessorNumChanges)), zero: v::arrow_zero_time(c(), acc0!(AccessorCounterZeroTime)).map(us),
            xd: quiet(|| v::arrow_extrapolated_delta(c(), accessor_extrapolated_delta("prometheus"))), xr: quiet(|| v::arrow_extrapolated_rate(c(), accessor_extrapolated_rate("prometheus"))) };
        same(&a, &b, &format!("{what}: the -> accessors"));
        a
    }
    pub fn c_check(s: Option<C>, m: &Option<MetricSummary>, what: &str) {
        assert!(s.is_some() == m.is_some(), "{what}: rows");
        if let (Some(s), Some(m)) = (s, m) {
            use ca::verif as v;
            assert!(v::first_val(s.clone()) == m.first.val && v::last_val(s.clone()) == m.last.val && us(v::first_time(s.clone())) == m.first.ts && us(v::last_time(s.clone())) == m.last.ts, "{what}: first and last");
            assert!(ca::arrow_counter_agg_first_val(s.clone(), acc0!(AccessorFirstVal)) == m.first.val && ca::arrow_counter_agg_last_val(s.clone(), acc0!(AccessorLastVal)) == m.last.val);
            assert!(us(ca::arrow_counter_agg_first_time(s.clone(), acc0!(AccessorFirstTime))) == m.first.ts && us(ca::arrow_counter_agg_last_time(s.clone(), acc0!(AccessorLastTime))) == m.last.ts);
            assert!(v::num_resets(s.clone()) == m.num_resets as i64 && ca::arrow_counter_agg_num_resets(s.clone(), acc0!(AccessorNumResets)) == m.num_resets as i64, "{what}: resets");
            assert!(s.to_internal_counter_summary().bounds == m.bounds, "{what}: bounds {:?} instead of {:?}", s.to_internal_counter_summary().bounds, m.bounds);
            same(&ask_c(&s, what), &ask_model(m), what);
        }
    }
    pub fn g_check(s: Option<G>, m: &Option<MetricSummary>, what: &str) {
        assert!(s.is_some() == m.is_some(), "{what}: rows");
        if let (Some(s), Some(m)) = (s, m) {
            let b = MetricSummary::from(s.clone()).bounds;
            assert!(b == m.bounds, "{what}: bounds {b:?} instead of {:?}", m.bounds);
            same(&ask_g(&s, what), &ask_model(m), what);
        }
    }
}
#[cfg(not(kani))]
use {crate::sql::*, ex::*, timescaledb_toolkit::accessors::*, timescaledb_toolkit::{counter_agg as ca, gauge_agg as ga, time_weighted_average as tw}};

executed! {
    // aliases of the units, in any case; anything else is refused
    fn unit_names() {
        let all: &[(U, &[&str])] = &[(U::Microsec, &["usecond", "microsecond", "microseconds", "microsecon", "us", "usec", "useconds", "usecs"]),
            (U::Millisec, &["msecond", "millisecond", "milliseconds", "millisecon", "ms", "msec", "mseconds", "msecs"]),
            (U::Second, &["second", "s", "sec", "seconds", "secs"]), (U::Minute, &["minute", "m", "min", "mins", "minutes"]), (U::Hour, &["hour", "hours", "h", "hr", "hrs"])];
        for (u, names) in all {
            assert!(U::from_str(&u.to_string()) == Some(*u), "the name a unit is printed with");
            for n in *names {
                let s: String = n.chars().map(|c| if any_bool() { c.to_ascii_uppercase() } else { c }).collect();
                assert!(U::from_str(&s) == Some(*u), "{s}");
                let mut bad = s.clone();
                bad.insert(any_in(0, bad.len() as u64) as usize, ['x', 'e', ' ', 'k'][any_in(0, 3) as usize]);
                if !all.iter().any(|a| a.1.contains(&bad.to_lowercase().as_str())) { assert!(U::from_str(&bad).is_none(), "{bad}"); }
            }
        }
        assert!(U::from_str("").is_none());
    }
    // the aggregate of any rows in any order, split any way
    fn time_weight_histories() {
        let r = rows(-100, 0);
        let (m, lin) = [("Linear", true), (" LOCF", false), ("trapezoidal ", true), ("locf", false)][any_in(0, 3) as usize];
        let p = pts(&r);
        let s = w_agg(&r, m);
        if let Some(s) = &s { w_check(w_fin(Some(dup(s))), &p, lin, "first look") }
        w_check(w_fin(s), &p, lin, "one pass");
        let (x, y) = split(&r);
        w_check(w_fin(tw::time_weight_combine(st(w_agg(&x, m)), st(w_agg(&y, m)), NUL)), &p, lin, "two parts");
        w_check(w_fin(tw::time_weight_combine(st(w_agg(&y, m)), st(w_agg(&x, m)), NUL)), &p, lin, "two parts, later first");
        let tr = |s: Option<pgrx::Internal>| s.and_then(|s| tw::time_weight_trans_deserialize(tw::time_weight_trans_serialize(s), none()));
        w_check(w_fin(tw::time_weight_combine(st(tr(w_agg(&x, m))), st(tr(w_agg(&y, m))), NUL)), &p, lin, "two serialized parts");
        let (a, b) = (w_fin(w_agg(&x, m)).map(stored), w_fin(w_agg(&y, m)).map(stored));
        let mut l = vec![a, None, b];
        if any_bool() { l.reverse() }
        let mut s = None;
        for v in l { s = tw::time_weight_summary_trans(st(s), v, NUL) }
        w_check(w_fin(s), &p, lin, "rollup");
    }
    fn time_weight_refuses() {
        let (r, q) = (rows(0, 2), rows(5, 2));
        let (p, o) = (pts(&r), pts(&q));
        let over = !(p[p.len() - 1].ts < o[0].ts || o[o.len() - 1].ts < p[0].ts);
        let (m, n) = (["linear", "locf"][any_in(0, 1) as usize], ["linear", "locf"][any_in(0, 1) as usize]);
        let e = errs(|| { let s = tw::time_weight_summary_trans(none(), w_fin(w_agg(&r, m)), NUL); w_fin(tw::time_weight_summary_trans(st(s), w_fin(w_agg(&q, n)), NUL)); });
        assert!(e == (over || m != n), "summaries of overlapping times or different methods");
        assert!(errs(|| { w_agg(&r, "linea"); }), "an unknown method");
        assert!(errs(|| { tw::time_weighted_average_integral(w_fin(w_agg(&r, m)), "day".to_string()); }), "an unknown unit");
        assert!(tw::time_weighted_average_average(None).is_none() && tw::time_weighted_average_integral(None, "s".to_string()).is_none());
    }
    // filling a bucket up to its ends from the neighbouring buckets
    fn time_weight_interpolation() {
        let lin = any_bool();
        let m = if lin { "linear" } else { "locf" };
        let p = pts(&rows(0, 1));
        let (f, l) = (p[0], p[p.len() - 1]);
        let start = f.ts - any_in(0, 30) as i64;
        let end = l.ts + any_in(1, 30) as i64;
        let before: Vec<TSPoint> = (0..any_in(0, 2)).map(|i| TSPoint { ts: start - 20 + 7 * i as i64, val: any_in(0, 40) as f64 / 4.0 }).collect();
        let after: Vec<TSPoint> = (0..any_in(0, 2)).map(|i| TSPoint { ts: end + any_in(0, 9) as i64 + 10 * i as i64, val: any_in(0, 40) as f64 / 4.0 }).collect();
        let mk = |p: &[TSPoint]| w_fin(w_agg(&p.iter().map(|p| (Some(p.ts), Some(p.val))).collect::<Vec<_>>(), m)).map(stored);
        let (s, prev, next) = (mk(&p), mk(&before), mk(&after));
        let line = |a: TSPoint, b: TSPoint, t: i64| TSPoint { ts: t, val: if lin { a.val + (b.val - a.val) * (t - a.ts) as f64 / (b.ts - a.ts) as f64 } else { a.val } };
        let mut q = p.clone();
        if start < f.ts { if let Some(b) = before.last() { q.insert(0, line(*b, f, start)) } }
        if let Some(a) = after.first() { q.push(line(l, *a, end)) } else if !lin { q.push(TSPoint { ts: end, val: l.val }) }
        let sum: f64 = q.windows(2).map(|w| area(w[0], w[1], lin)).sum();
        let avg = if q.len() == 1 { None } else { Some(sum / (q[q.len() - 1].ts - q[0].ts) as f64) };
        let got = tw::time_weighted_average_interpolated_average(s.clone(), ts(start), iv(end - start), prev.clone(), next.clone());
        assert!(nearo(got, avg, 20.0), "average {got:?} instead of {avg:?}");
        let a = tw::verif::acc::average(ts(start), iv(end - start), prev.clone(), next.clone());
        assert!(got == tw::arrow_time_weighted_average_interpolated_average(s.clone(), stored(a)), "-> interpolated_average");
        for (name, f) in NAMES {
            let got = tw::time_weighted_average_interpolated_integral(s.clone(), ts(start), iv(end - start), prev.clone(), next.clone(), name.to_string());
            assert!(nearo(got, Some(sum / f), sum / f), "integral in {name}: {got:?}");
            let a = tw::verif::acc::integral(ts(start), iv(end - start), prev.clone(), next.clone(), name);
            assert!(got == tw::arrow_time_weighted_average_interpolated_integral(s.clone(), stored(a)), "-> interpolated_integral in {name}");
        }
        assert!(errs(|| { tw::time_weighted_average_interpolated_average(s.clone(), ts(f.ts + 1), iv(end - start + 40000), None, None); }), "a bucket that starts after the data");
        assert!(errs(|| { tw::time_weighted_average_interpolated_average(s.clone(), ts(start), iv(l.ts - start), None, None); }), "a bucket that ends before the data");
        assert!(tw::time_weighted_average_interpolated_average(None, ts(start), iv(5), prev, next).is_none());
    }
    fn counter_histories() {
        let r = rows(0, 0);
        let p = pts(&r);
        let (lo, hi) = if p.is_empty() { (0, 1) } else { (p[0].ts - any_in(0, 40) as i64, p[p.len() - 1].ts + any_in(1, 4000) as i64) };
        let (inf_l, inf_h, li, hi_) = (any_in(0, 5) == 0, any_in(0, 5) == 0, any_bool(), any_bool());
        let kind = any_in(0, 3);
        let b = || if kind == 1 { empty_range() } else { range((!inf_l).then_some(lo), (!inf_h).then_some(hi), li, hi_) };
        let bm = (kind > 1).then(|| counter_agg::range::I64Range { left: (!inf_l).then_some(lo), right: (!inf_h).then_some(hi) });
        let br: Option<&dyn Fn() -> timescaledb_toolkit::verif::tstzrange> = if kind == 0 { None } else { Some(&b) };
        let (mc, mg) = (model(&p, true, bm), model(&p, false, bm));
        let s = c_agg(&r, br);
        if let Some(s) = &s { c_check(ca::verif::fin(dup(s)), &mc, "first look") }
        c_check(ca::verif::fin(st(s)).map(stored), &mc, "one pass");
        g_check(ga::verif::fin(st(g_agg(&r, br))).map(stored), &mg, "one pass, gauge");
        let (x, y) = split(&r);
        c_check(ca::verif::fin(st(ca::counter_agg_combine(st(c_agg(&x, br)), st(c_agg(&y, br)), NUL))), &mc, "two parts");
        c_check(ca::verif::fin(st(ca::counter_agg_combine(st(c_agg(&y, br)), st(c_agg(&x, br)), NUL))), &mc, "two parts, later first");
        g_check(ga::verif::fin(st(ga::verif::combine(st(g_agg(&y, br)), st(g_agg(&x, br))))), &mg, "two parts, gauge");
        let tr = |s: Option<pgrx::Internal>| s.and_then(|s| ca::counter_summary_trans_deserialize(ca::counter_summary_trans_serialize(s), none()));
        c_check(ca::verif::fin(st(ca::counter_agg_combine(st(tr(c_agg(&x, br))), st(tr(c_agg(&y, br))), NUL))), &mc, "two serialized parts");
        let tr = |s: Option<pgrx::Internal>| s.and_then(|s| ga::verif::de(ga::verif::ser(s)));
        g_check(ga::verif::fin(st(ga::verif::combine(st(tr(g_agg(&x, br))), st(tr(g_agg(&y, br)))))), &mg, "two serialized parts, gauge");
        let (a, b2) = (ca::verif::fin(st(c_agg(&x, br))).map(stored), ca::verif::fin(st(c_agg(&y, br))).map(stored));
        let mut l = vec![a, None, b2];
        if any_bool() { l.reverse() }
        let mut s = None;
        for v in l { s = ca::counter_agg_summary_trans(st(s), v, NUL) }
        c_check(ca::verif::fin(st(s)), &mc, "rollup");
        let mut s = None;
        for v in [ga::verif::fin(st(g_agg(&y, br))).map(stored), None, ga::verif::fin(st(g_agg(&x, br))).map(stored)] { s = ga::verif::summary_trans(st(s), v) }
        g_check(ga::verif::fin(st(s)), &mg, "rollup, gauge");
        // bounds given afterwards
        if kind > 0 {
            if let Some(s) = ca::verif::fin(st(c_agg(&r, None))) {
                c_check(Some(ca::verif::with_bounds(s.clone(), b())), &mc, "with_bounds");
                c_check(Some(ca::arrow_counter_agg_with_bounds(s, stored(accessor_with_bounds(b())))), &mc, "-> with_bounds");
                let g = ga::verif::fin(st(g_agg(&r, None))).unwrap();
                g_check(Some(ga::verif::with_bounds(g.clone(), b())), &mg, "with_bounds, gauge");
                g_check(Some(ga::verif::arrow_with_bounds(g, stored(accessor_with_bounds(b())))), &mg, "-> with_bounds, gauge");
            }
        }
        // bounds that do not hold the data, and an unknown method
        if let Some(f) = p.first() {
            let l = p[p.len() - 1];
            let (wide, side) = (any_bool(), any_in(0, 1));
            let bad = || match side { 0 => range(Some(f.ts + 1), wide.then_some(l.ts + 90), true, false), _ => range(wide.then_some(f.ts), Some(l.ts), true, false) };
            assert!(errs(|| { ca::verif::fin(st(c_agg(&r, Some(&bad)))); }) && errs(|| { ga::verif::fin(st(g_agg(&r, Some(&bad)))); }), "data outside its bounds");
            let c = || stored(ca::verif::with_bounds(ca::verif::fin(st(c_agg(&r, None))).unwrap(), bad()));
            let g = || stored(ga::verif::with_bounds(ga::verif::fin(st(g_agg(&r, None))).unwrap(), bad()));
            assert!(errs(|| { ca::verif::fin(st(ca::counter_agg_summary_trans(none(), Some(c()), NUL))); }) && errs(|| { ga::verif::fin(st(ga::verif::summary_trans(none(), Some(g())))); }), "rollup of data outside its bounds");
            assert!(errs(|| { ca::verif::extrapolated_delta(c(), "prometheus"); }) && errs(|| { ga::verif::extrapolated_rate(g()); }), "extrapolation of data outside its bounds");
            assert!(errs(|| { ca::verif::extrapolated_delta(ca::verif::fin(st(c_agg(&r, None))).unwrap(), "linear"); }), "an unknown method");
            let e = |s: Option<ca::CounterSummary>| { let s = s.unwrap(); ca::verif::fin(st(ca::counter_agg_summary_trans(st(ca::counter_agg_summary_trans(none(), Some(s.clone()), NUL)), Some(s), NUL))); };
            assert!(errs(|| e(ca::verif::fin(st(c_agg(&r, None))))), "the same times twice");
        }
    }
    // partial aggregates of several stored summaries each, in any order; many resets
    fn counter_partials() {
        let mut r = rows(0, 0);
        if any_in(0, 3) == 0 { let n = any_in(250, 700) as i64; r = (0..n).map(|i| (Some(3 * i), Some(if any_in(0, 9) == 0 { 1 } else { 5 * (i & 1) } as f64))).collect() }
        let p = pts(&r);
        let n = any_in(1, 6) as usize;
        let b = counter_agg::range::I64Range { left: any_bool().then_some(-9), right: any_bool().then_some(1 << 40) };
        let with = any_in(0, 2);
        let rg = || range(b.left, b.right, true, false);
        let br: Option<&dyn Fn() -> timescaledb_toolkit::verif::tstzrange> = if with > 0 { Some(&rg) } else { None };
        let (mc, mg) = (model(&p, true, (with > 0).then_some(b)), model(&p, false, (with > 0).then_some(b)));
        let mut cuts: Vec<usize> = (1..n).map(|_| any_in(0, p.len() as u64) as usize).collect();
        cuts.push(0);
        cuts.push(p.len());
        cuts.sort();
        let parts: Vec<Vec<Row>> = cuts.windows(2).map(|w| p[w[0]..w[1]].iter().map(|p| (Some(p.ts), Some(p.val))).collect()).collect();
        // each part goes to one of three states; two of them are combined, then the third
        let mut order: Vec<usize> = (0..parts.len()).collect();
        for i in (1..order.len()).rev() { order.swap(i, any_in(0, i as u64) as usize) }
        let (c1, c2, k) = (any_in(0, n as u64) as usize, any_in(0, n as u64) as usize, any_in(0, 3) as usize);
        let dest: Vec<usize> = order.iter().map(|i| [[0, 1, 2], [1, 0, 2], [2, 0, 1], [2, 1, 0]][k][(*i >= c1) as usize + (*i >= c2) as usize]).collect();
        {
            let (mut cs, mut gs) = ([None, None, None], [None, None, None]);
            for (i, d) in order.iter().zip(&dest) {
                let keep = |b: bool| if b { br } else { None };
                // bounds given to one part hold for the whole
                let br = keep(with == 2 || *i == parts.iter().position(|p| !p.is_empty()).unwrap_or(0));
                cs[*d] = ca::counter_agg_summary_trans(st(cs[*d].take()), ca::verif::fin(st(c_agg(&parts[*i], br))).map(stored), NUL);
                gs[*d] = ga::verif::summary_trans(st(gs[*d].take()), ga::verif::fin(st(g_agg(&parts[*i], br))).map(stored));
            }
            // only neighbouring times are put together: states whose times interleave are refused
            let span = |k: &[usize]| -> Vec<bool> { (0..parts.len()).map(|i| order.iter().zip(&dest).any(|(o, d)| *o == i && k.contains(d)) && !parts[i].is_empty()).collect() };
            let solid = |v: &[bool], w: &[bool]| { let f = |v: &[bool]| (v.iter().position(|b| *b), v.iter().rposition(|b| *b)); match (f(v), f(w)) { ((Some(a), Some(b)), (Some(c), Some(d))) => b < c || d < a, _ => true } };
            let ok = solid(&span(&[0]), &span(&[1])) && solid(&span(&[0, 1]), &span(&[2]));
            if !ok { return }
            let [x, y, z] = cs;
            let tr = |s: Option<pgrx::Internal>| if any_bool() { s.and_then(|s| ca::counter_summary_trans_deserialize(ca::counter_summary_trans_serialize(s), none())) } else { s };
            let s = ca::counter_agg_combine(st(tr(x)), st(tr(y)), NUL);
            let s = if any_bool() { ca::counter_agg_combine(st(tr(s)), st(tr(z)), NUL) } else { ca::counter_agg_combine(st(tr(z)), st(tr(s)), NUL) };
            c_check(ca::verif::fin(st(tr(s))).map(stored), &mc, "states of several summaries");
            let [x, y, z] = gs;
            let tr = |s: Option<pgrx::Internal>| if any_bool() { s.and_then(|s| ga::verif::de(ga::verif::ser(s))) } else { s };
            let s = ga::verif::combine(st(tr(x)), st(tr(y)));
            let s = if any_bool() { ga::verif::combine(st(tr(s)), st(tr(z))) } else { ga::verif::combine(st(tr(z)), st(tr(s))) };
            g_check(ga::verif::fin(st(tr(s))).map(stored), &mg, "states of several summaries, gauge");
        }
    }
    // extending a bucket to its ends; a counter that was reset between two buckets starts again from zero
    fn counter_interpolation() {
        let p = pts(&rows(0, 1));
        let (f, l) = (p[0], p[p.len() - 1]);
        let start = f.ts - any_in(0, 30) as i64;
        let end = l.ts + any_in(1, 30) as i64;
        let before: Vec<TSPoint> = (0..any_in(0, 2)).map(|i| TSPoint { ts: start - 20 + 7 * i as i64, val: any_in(0, 80) as f64 / 4.0 }).collect();
        let after: Vec<TSPoint> = (0..any_in(0, 2)).map(|i| TSPoint { ts: end + any_in(0, 9) as i64 + 10 * i as i64, val: any_in(0, 80) as f64 / 4.0 }).collect();
        let row = |p: &[TSPoint]| p.iter().map(|p| (Some(p.ts), Some(p.val))).collect::<Vec<_>>();
        for counter in [true, false] {
            let line = |a: TSPoint, b: TSPoint, t: i64| { let v0 = if counter && a.val > b.val { 0.0 } else { a.val }; TSPoint { ts: t, val: v0 + (b.val - v0) * (t - a.ts) as f64 / (b.ts - a.ts) as f64 } };
            let mut q = p.clone();
            if start < f.ts { if let Some(b) = before.last() { q.insert(0, line(*b, f, start)) } }
            if let Some(a) = after.first() { q.push(line(l, *a, end)) }
            let m = model(&q, counter, None).unwrap();
            let (s0, d0) = (|| ts(start), || iv(end - start));
            let (d, r) = if counter {
                let mk = |p: &[TSPoint]| ca::verif::fin(st(c_agg(&row(p), None))).map(stored);
                let (s, prev, next) = (mk(&p).unwrap(), mk(&before), mk(&after));
                let s = if any_bool() { ca::verif::with_bounds(s, range(Some(start), Some(end), true, false)) } else { s };
                let d = ca::verif::interpolated_delta(s.clone(), s0(), d0(), prev.clone(), next.clone());
                let r = ca::verif::interpolated_rate(s.clone(), s0(), d0(), prev.clone(), next.clone());
                assert!(d == ca::arrow_counter_interpolated_delta(s.clone(), stored(ca::verif::acc::delta(s0(), d0(), prev.clone(), next.clone()))), "-> interpolated_delta");
                assert!(r == ca::arrow_counter_interpolated_rate(s, stored(ca::verif::acc::rate(s0(), d0(), prev, next))), "-> interpolated_rate");
                (d, r)
            } else {
                let mk = |p: &[TSPoint]| ga::verif::fin(st(g_agg(&row(p), None))).map(stored);
                let (s, prev, next) = (mk(&p).unwrap(), mk(&before), mk(&after));
                let s = if any_bool() { ga::verif::with_bounds(s, range(Some(start), Some(end), true, false)) } else { s };
                (ga::verif::interpolated_delta(s.clone(), s0(), d0(), prev.clone(), next.clone()), ga::verif::interpolated_rate(s, s0(), d0(), prev, next))
            };
            assert!(near(d, m.delta(), 1e3), "interpolated delta {d} instead of {} (counter: {counter})", m.delta());
            assert!(nearo(r, m.rate(), 1e8), "interpolated rate {r:?} instead of {:?} (counter: {counter})", m.rate());
        }
    }
}
