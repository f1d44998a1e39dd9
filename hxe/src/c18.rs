//! C18: timevectors and pipelines over them.
use crate::shim::*;

harnesses! {}

#[cfg(not(kani))]
pub mod ex {
    use super::*;
    use crate::sql::*;
    use pgrx::{InOutFuncs, Internal};
    use timescaledb_toolkit::time_vector::{verif::pipeline::*, *};
    use timescaledb_toolkit::{counter_agg, hyperloglog, stats_agg, uddsketch};
    type Tv = Timevector_TSTZ_F64<'static>;
    type Pipe = UnstableTimevectorPipeline<'static>;
    pub type Pt = (i64, f64, bool);
    #[derive(Clone, Debug)]
    pub struct M { pub pts: Vec<Pt>, pub sorted: bool, pub nulls: bool }

    fn rows(max: u64, nulls: bool) -> Vec<(i64, Option<f64>)> {
        let n = any_in(0, max);
        let base = if any_bool() { any_time() / 4 } else { 0 };
        let mut t = base;
        let shuffle = any_in(0, 2);
        (0..n).map(|_| {
            t = if shuffle == 0 && any_in(0, 3) == 0 { base + any_in(0, 40) as i64 } else { t + any_in(0, 3) as i64 * if any_in(0, 9) == 0 { 1000 } else { 1 } };
            (t, if nulls && any_in(0, 3) == 0 { None } else if any_in(0, 20) == 0 { Some([f64::NAN, f64::INFINITY, -0.0][any_in(0, 2) as usize]) } else { Some(any_in(0, 80) as f64 / 4.0 - 10.0) })
        }).collect()
    }
    fn model(r: &[(i64, Option<f64>)]) -> M {
        M { pts: r.iter().map(|(t, v)| (*t, v.unwrap_or(f64::NAN), v.is_none())).collect(), sorted: r.windows(2).all(|w| w[0].0 <= w[1].0), nulls: r.iter().any(|r| r.1.is_none()) }
    }
    fn agg(r: &[(i64, Option<f64>)]) -> Option<Internal> {
        let mut s = None;
        for (t, v) in r {
            if any_in(0, 6) == 0 { s = timevector_tstz_f64_trans(st(s), None, *v, NUL) }
            s = timevector_tstz_f64_trans(st(s), Some(ts(*t)), *v, NUL);
        }
        s
    }
    pub fn tv(r: &[(i64, Option<f64>)]) -> Tv {
        match agg(r) { Some(s) => timevector_final(st(Some(s)), NUL).unwrap(),
            None => lambda_filter_none(timevector_final(st(agg(&[(0, Some(0.0))])), NUL).unwrap()) }
    }
    fn lambda_filter_none(t: Tv) -> Tv { arrow_run_pipeline(t, filter_lambda_pipeline_element(lambda("1 = 0"))) }
    pub fn lambda(s: &str) -> lam::Lambda<'static> { InOutFuncs::input(&std::ffi::CString::new(s).unwrap()) }
    fn same(a: f64, b: f64) -> bool { crate::fp::same(a, b) }

    /// the value holds these points, with these null bits
    pub fn holds(t: &Tv, m: &M, what: &str) {
        assert!(t.num_points() == m.pts.len() && t.num_vals() == m.pts.len(), "{what}: {} points instead of {}", t.num_points(), m.pts.len());
        for (i, (p, g)) in m.pts.iter().zip(t.iter()).enumerate() {
            assert!(g.ts == p.0, "{what}: time {} of point {i}, not {}", g.ts, p.0);
            assert!(t.is_null_val(i) == p.2, "{what}: point {i} of {} null: {}", m.pts.len(), t.is_null_val(i));
            assert!(p.2 || same(g.val, p.1), "{what}: value {} of point {i}, not {}", g.val, p.1);
            let q = t.get(i).unwrap();
            assert!(q.ts == g.ts && same(q.val, g.val));
        }
        assert!(t.get(m.pts.len()).is_none());
        assert!(!t.is_sorted() || m.pts.windows(2).all(|w| w[0].0 <= w[1].0), "{what}: said to be sorted");
        assert!(!m.sorted || t.is_sorted(), "{what}: no longer known to be sorted");
        assert!(t.has_nulls() == m.nulls, "{what}: has nulls: {}", t.has_nulls());
        let l: Vec<(i64, f64)> = unnest(stored(t.clone())).map(|(t, v)| (us(t), v)).collect();
        assert!(l.len() == m.pts.len() && l.iter().zip(&m.pts).all(|(a, b)| a.0 == b.0 && (b.2 || same(a.1, b.1))), "{what}: unnest");
    }

    pub fn aggregate() {
        let (a, b) = (rows(20, true), rows(20, true));
        let all: Vec<_> = a.iter().chain(&b).cloned().collect();
        let (ma, mb, mall) = (model(&a), model(&b), model(&all));
        if a.is_empty() { assert!(timevector_final(st(agg(&a)), NUL).is_none()); return }
        let s = pgrx::IntoDatum::into_datum(agg(&a).unwrap()).unwrap();
        let it = || Internal::from(Some(s));
        holds(&stored(timevector_final(it(), NUL).unwrap()), &ma, "aggregate");
        holds(&stored(timevector_final(it(), NUL).unwrap()), &ma, "asked again");
        let back = timevector_deserialize(timevector_serialize(it()), none()).unwrap();
        let mut s2 = Some(back);
        for (t, v) in &b { s2 = timevector_tstz_f64_trans(st(s2), Some(ts(*t)), *v, NUL) }
        holds(&stored(timevector_final(st(s2), NUL).unwrap()), &mall, "continued after shipping");
        let c = timevector_combine(it(), st(agg(&b)), NUL);
        holds(&timevector_final(st(c), NUL).unwrap(), &mall, "combined");
        let c = timevector_combine(st(agg(&b)), none(), NUL);
        if b.is_empty() { assert!(timevector_final(st(c), NUL).is_none()) } else { holds(&timevector_final(st(c), NUL).unwrap(), &mb, "combined with nothing") }
        holds(&timevector_final(it(), NUL).unwrap(), &ma, "after combining");
        let mut r = timevector_tstz_f64_compound_trans(none(), Some(stored(tv(&a))), NUL);
        if any_bool() { r = timevector_tstz_f64_compound_trans(st(r), None, NUL) }
        r = timevector_tstz_f64_compound_trans(st(r), Some(tv(&b)), NUL);
        holds(&stored(timevector_final(st(r), NUL).unwrap()), &mall, "rollup");
        // rows follow a combined state
        let mut c = timevector_combine(it(), st(agg(&b)), NUL);
        for (t, v) in &a { c = timevector_tstz_f64_trans(st(c), Some(ts(*t)), *v, NUL) }
        holds(&stored(timevector_final(st(c), NUL).unwrap()), &model(&all.iter().chain(&a).cloned().collect::<Vec<_>>()), "rows after combining");
    }

    pub fn asof() {
        let (mut a, mut b) = (rows(12, false), rows(12, false));
        a.sort_by_key(|r| r.0);
        b.sort_by_key(|r| r.0);
        let off = match (a.first(), b.first()) { (Some(x), Some(y)) => y.0 - x.0 + any_in(0, 8) as i64 - 4, _ => 0 };
        for r in a.iter_mut() { r.0 += off }
        use timescaledb_toolkit::time_vector::toolkit_experimental::*;
        if a.is_empty() || b.is_empty() { assert!(errs(|| { asof_join(tv(&a), tv(&b)); })); return }
        let want: Vec<(Option<f64>, f64, i64)> = b.iter().map(|(t, v)| (a.iter().rev().find(|r| r.0 <= *t).map(|r| r.1.unwrap()), v.unwrap(), *t)).collect();
        for w in 0..2 {
            let got: Vec<_> = if w == 0 { asof_join(stored(tv(&a)), stored(tv(&b))).map(|(a, b, t)| (a, b, us(t))).collect() }
                else { arrow_timevector_asof(tv(&a), stored(accessor_asof(tv(&b)))).map(|(a, b, t)| (a, b, us(t))).collect() };
            assert!(got.len() == want.len());
            for (g, w) in got.iter().zip(&want) { assert!(g.2 == w.2 && same(g.1, w.1) && match (g.0, w.0) { (None, None) => true, (Some(a), Some(b)) => same(a, b), _ => false }, "at {}: {:?} instead of {:?}", g.2, g.0, w.0) }
        }
    }

    fn arith(k: u64, c: f64) -> (Pipe, Box<dyn Fn(f64) -> f64>) {
        use arith::*;
        match k {
            0 => (pipeline_add(c), Box::new(move |x| x + c)), 1 => (pipeline_sub(c), Box::new(move |x| x - c)),
            2 => (pipeline_mul(c), Box::new(move |x| x * c)), 3 => (pipeline_div(c), Box::new(move |x| x / c)),
            4 => (pipeline_mod(c), Box::new(move |x| x % c)), 5 => (pipeline_power(c), Box::new(move |x| x.powf(c))),
            6 => (pipeline_log_n(c), Box::new(move |x| x.log(c))), 7 => (pipeline_abs(), Box::new(f64::abs)),
            8 => (pipeline_cbrt(), Box::new(f64::cbrt)), 9 => (pipeline_ceil(), Box::new(f64::ceil)),
            10 => (pipeline_floor(), Box::new(f64::floor)), 11 => (pipeline_ln(), Box::new(f64::ln)),
            12 => (pipeline_log10(), Box::new(f64::log10)), 13 => (pipeline_round(), Box::new(f64::round)),
            14 => (pipeline_sign(), Box::new(f64::signum)), 15 => (pipeline_sqrt(), Box::new(f64::sqrt)),
            16 => (pipeline_trunc(), Box::new(f64::trunc)),
            _ => (map_data_pipeline_element(timescaledb_toolkit::verif::regproc(pgrx::pg_sys::Datum::from(crate::pgstub::MAP_FN))), Box::new(|x| x * 2.0 + 1.0)),
        }
    }
    fn near(a: f64, b: f64) -> bool { same(a, b) || (a - b).abs() <= 1e-12 * b.abs() }
    type Op = Box<dyn Fn(&M, &Tv) -> Option<M>>;
    /// an element and what it does to the points; `None`: refused
    fn element(m: &M) -> (String, Pipe, Op) {
        match any_in(0, 6) {
            0 => ("sort".into(), sort_pipeline_element(), Box::new(|m, _| { let mut p = m.pts.clone(); p.sort_by_key(|p| p.0); Some(M { pts: p, sorted: true, nulls: m.nulls }) })),
            1 => ("delta".into(), delta_pipeline_element(acc0!(AccessorDelta)), Box::new(|m, t| {
                if !t.is_sorted() || m.nulls { return None }
                Some(M { pts: m.pts.windows(2).map(|w| (w[1].0, w[1].1 - w[0].1, false)).collect(), sorted: true, nulls: false })
            })),
            2 => { let (k, c) = (any_in(0, 17), [0.0, 1.0, 2.0, -3.0, 0.5, 10.0][any_in(0, 5) as usize]); let (p, f) = arith(k, c);
                (format!("arithmetic {k} {c}"), p, Box::new(move |m, _| Some(M { pts: m.pts.iter().map(|p| (p.0, f(p.1), p.2)).collect(), ..m.clone() }))) }
            3 => { let (s, f): (&str, fn(i64, f64) -> bool) = match any_in(0, 4) { 0 => ("$value > 0", |_, v| v > 0.0), 1 => ("not ($value < 3)", |_, v| !(v < 3.0)), 2 => ("$value = $value", |_, v| v == v), 3 => ("$time > '10't and $value <> 2", |t, v| t > 10 && v != 2.0), _ => ("1 = 0", |_, _| false) };
                (format!("filter {s}"), filter_lambda_pipeline_element(lambda(s)), Box::new(move |m, _| { let pts: Vec<_> = m.pts.iter().filter(|p| f(p.0, p.1)).cloned().collect(); let nulls = pts.iter().any(|p| p.2); Some(M { pts, sorted: m.sorted, nulls }) })) }
            4 => { let (s, f): (&str, fn(i64, f64) -> (i64, f64)) = match any_in(0, if m.pts.iter().all(|p| p.1.abs() < 1e6) { 3 } else { 2 }) { 0 => ("$value * 2 - 1", |t, v| (t, v * 2.0 - 1.0)), 1 => ("($time + '7'i, $value)", |t, v| (t + 7, v)), 2 => ("('100't, $value)", |_, v| (100, v)), _ => ("($time - $value * '4'i, -$value)", |t, v| (t - (4.0 * v).round_ties_even() as i64, -v)) };
                (format!("map {s}"), map_lambda_pipeline_element(lambda(s)), Box::new(move |m, _| {
                    let pts: Vec<_> = m.pts.iter().map(|p| { let (t, v) = f(p.0, p.1); (t, v, p.2) }).collect();
                    let sorted = m.sorted && pts.windows(2).all(|w| w[0].0 <= w[1].0); Some(M { pts, sorted, nulls: m.nulls }) })) }
            5 => { let iv_ = [1i64, 2, 5, 400, 1 << 40][any_in(0, 4) as usize]; let k = any_in(0, 3);
                (format!("fill_to {iv_} {k}"), fillto_pipeline_element(iv(iv_), ["locf", "LINEAR", "interpolate", "nearest"][k as usize].to_string()), Box::new(move |m, t| fill(m, t, iv_, k))) }
            _ => { let n = any_in(2, 12) as i32; (format!("lttb {n}"), lttb_pipeline_element(n), Box::new(move |m, t| {
                if m.nulls { return None }
                if !t.is_sorted() { return None }
                let d: Vec<_> = m.pts.iter().map(|p| tspoint::TSPoint { ts: p.0, val: p.1 }).collect();
                Some(M { pts: timescaledb_toolkit::lttb::lttb(&d, n as usize).iter().map(|p| (p.ts, p.val, false)).collect(), sorted: true, nulls: false }) })) }
        }
    }
    fn fill(m: &M, t: &Tv, step: i64, k: u64) -> Option<M> {
        if !t.is_sorted() || m.nulls { return None }
        let mut r = vec![];
        for (i, p) in m.pts.iter().enumerate() {
            r.push(*p);
            let Some(q) = m.pts.get(i + 1) else { break };
            let mut at = p.0 + step;
            while at < q.0 {
                let v = match k { 0 => p.1, 3 => if q.0 - at >= at - p.0 { p.1 } else { q.1 }, _ => { let w = (q.0 - p.0) as f64; p.1 * (1.0 - (at - p.0) as f64 / w) + q.1 * (1.0 - (q.0 - at) as f64 / w) } };
                r.push((at, v, false));
                at += step;
            }
        }
        Some(M { pts: r, sorted: true, nulls: false })
    }
    fn same_m(a: &Tv, b: &Tv) -> bool { a.num_points() == b.num_points() && a.iter().zip(b.iter()).all(|(x, y)| x.ts == y.ts && same(x.val, y.val)) && (0..a.num_points()).all(|i| a.is_null_val(i) == b.is_null_val(i)) && a.flags == b.flags }

    pub fn elements() {
        let r = rows(20, any_bool());
        let mut t = tv(&r);
        let mut m = model(&r);
        let start = stored(t.clone());
        let mut pipe: Option<Pipe> = None;
        for _ in 0..any_in(1, 4) {
            let (what, p, f) = element(&m);
            let what = format!("{what} on {:?}", m);
            let p = if any_bool() { stored(p) } else { p };
            if what.starts_with("lttb") && m.nulls { continue }
            let whole = match pipe.clone() { None => p.clone(), Some(q) => arrow_add_unstable_element(q, p.clone()) };
            match f(&m, &t) {
                None => {
                    assert!(errs(|| { arrow_run_pipeline(t.clone(), p.clone()); }), "{what}: not refused");
                    return
                }
                Some(n) => {
                    let got = arrow_run_pipeline(if any_bool() { stored(t.clone()) } else { t.clone() }, p);
                    // the arithmetic of a reference evaluation may round differently
                    assert!(got.num_points() == n.pts.len(), "{what}: {} points", got.num_points());
                    let mut n = n;
                    for (i, p) in n.pts.iter_mut().enumerate() { let v = got.get(i).unwrap().val; if near(v, p.1) { p.1 = v } }
                    if got.is_sorted() && n.pts.windows(2).all(|w| w[0].0 <= w[1].0) { n.sorted = true }
                    holds(&got, &n, &what);
                    (m, t, pipe) = (n, got, Some(whole));
                }
            }
        }
        let Some(pipe) = pipe else { return };
        // all at once
        assert!(same_m(&arrow_run_pipeline(start.clone(), stored(pipe.clone())), &t), "composed pipeline");
        assert!(same_m(&arrow_run_pipeline(start.clone(), pipe.clone()), &t), "composed pipeline");
        let l: Vec<_> = expand::arrow_run_pipeline_then_unnest(start.clone(), stored(expand::arrow_finalize_with_unnest(pipe.clone(), expand::pipeline_unnest()))).map(|(t, v)| (us(t), v)).collect();
        assert!(l.len() == t.num_points() && l.iter().zip(t.iter()).all(|(a, b)| a.0 == b.ts && same(a.1, b.val)), "then unnest");
        assert!(same_m(&expand::arrow_run_pipeline_then_materialize(start.clone(), stored(expand::arrow_force_materialize(pipe.clone(), expand::pipeline_series()))), &t), "then materialize");
        aggregates(&start, &t, &pipe);
    }
    fn aggregates(start: &Tv, t: &Tv, pipe: &Pipe) {
        use agg::*;
        assert!(arrow_pipeline_then_num_vals(start.clone(), stored(finalize_with_num_vals(pipe.clone(), num_vals_pipeline_element(acc0!(AccessorNumVals))))) == t.num_points() as i64, "then num_vals");
        let fin = || t.iter().all(|p| p.val.is_finite() && p.val.abs() < 1e100);
        // two ways of putting the aggregate at the end of the pipeline
        let empty = || arrow_run_pipeline(t.clone(), arith::pipeline_sub(0.0));
        let ser = |x: &stats_agg::StatsSummary1D| format!("{:?}", stored(x.clone()));
        if !start.has_nulls() && fin() {
            let want = { let mut s = None; for p in t.iter() { s = stats_agg::stats1d_trans(st(s), Some(p.val), NUL) } s.map(|s| stats_agg::verif::fin1(st(Some(s))).unwrap()) };
            let got = arrow_run_pipeline_then_stats_agg(start.clone(), stored(finalize_with_stats_agg(pipe.clone(), pipeline_stats_agg())));
            let direct = arrow_run_pipeline_then_stats_agg(empty(), pipeline_stats_agg());
            assert!(ser(&got) == ser(&direct));
            if let Some(w) = &want { assert!(ser(&got) == ser(w), "then stats_agg: {got:?} instead of {w:?}") } else { assert!(stats_agg::verif::count1(got) == 0) }
            let opt = |a: Option<f64>, b: Option<f64>| match (a, b) { (Some(a), Some(b)) => same(a, b), (None, None) => true, _ => false };
            let sum = arrow_pipeline_then_sum(start.clone(), stored(finalize_with_sum(pipe.clone(), sum_pipeline_element(acc0!(AccessorSum)))));
            assert!(opt(sum, want.clone().and_then(stats_agg::verif::sum1)), "then sum: {sum:?}");
            let avg = arrow_pipeline_then_average(start.clone(), stored(finalize_with_average(pipe.clone(), average_pipeline_element(acc0!(AccessorAverage)))));
            assert!(opt(avg, want.and_then(stats_agg::verif::average1)), "then average: {avg:?}");
        }
        if t.is_sorted() && !t.has_nulls() && fin() {
            let got = arrow_run_pipeline_then_counter_agg(start.clone(), stored(finalize_with_counter_agg(pipe.clone(), pipeline_counter_agg())));
            let mut s = None;
            for p in t.iter() { s = counter_agg::counter_agg_trans_no_bounds(st(s), Some(ts(p.ts)), Some(p.val), NUL) }
            let want = s.and_then(|s| counter_agg::verif::fin(st(Some(s))));
            assert!(format!("{:?}", got.clone().map(stored)) == format!("{:?}", want.clone().map(stored)), "then counter_agg: {got:?} instead of {want:?}");
        }
        if !t.has_nulls() {
            let n = [16, 64, 512][any_in(0, 2) as usize];
            let got = arrow_run_pipeline_then_hyperloglog(start.clone(), stored(finalize_with_hyperloglog(pipe.clone(), pipeline_hyperloglog(n))));
            let direct = arrow_run_pipeline_then_hyperloglog(empty(), pipeline_hyperloglog(n));
            let mut v: Vec<u64> = t.iter().map(|p| if p.val == 0.0 { 0 } else if p.val.is_nan() { 1 } else { p.val.to_bits() }).collect();
            v.sort();
            v.dedup();
            let (g, d) = (hyperloglog::hyperloglog_count(got), hyperloglog::hyperloglog_count(direct));
            assert!(g == d && (n < 512 || (g - v.len() as i64).abs() <= 2 + v.len() as i64 / 4), "then hyperloglog: {g}, {d} of {}", v.len());
            if fin() {
                let got = arrow_run_pipeline_then_percentile_agg(start.clone(), stored(finalize_with_percentile_agg(pipe.clone(), pipeline_percentile_agg())));
                assert!(uddsketch::uddsketch_num_vals(got.clone()) as usize == t.num_points(), "then percentile_agg");
                if t.num_points() > 0 {
                    let mut v: Vec<f64> = t.iter().map(|p| p.val).collect();
                    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
                    let e = uddsketch::uddsketch_error(got.clone());
                    let m = uddsketch::uddsketch_approx_percentile(0.0, got);
                    assert!((m - v[0]).abs() <= (e + 1e-6) * v[0].abs(), "then percentile_agg: least {m}, not {}", v[0]);
                }
            }
        }
    }
    pub fn refused() {
        for bad in [0i64, -1, -1000] { assert!(errs(|| { fillto_pipeline_element(iv(bad), "locf".to_string()); }), "fill_to with an interval of {bad}") }
        assert!(errs(|| { fillto_pipeline_element(iv(1), "spline".to_string()); }));
        assert!(errs(|| { filter_lambda_pipeline_element(lambda("$value")); }));
        assert!(errs(|| { map_lambda_pipeline_element(lambda("$value > 1")); }));
        assert!(errs(|| { map_lambda_pipeline_element(lambda("($value, $time)")); }));
        assert!(errs(|| { map_lambda_pipeline_element(lambda("$time")); }));
    }
}

executed! {
    fn aggregate() { ex::aggregate() }
    fn asof() { ex::asof() }
    fn elements() { ex::elements() }
    fn refused() { ex::refused() }
}
