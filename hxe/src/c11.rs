//! C11: the stats_agg aggregates of SQL, plain, moving, of integers, rolled up and rolling.
use crate::shim::*;

harnesses! {}

#[cfg(not(kani))]
pub mod ex {
    use super::*;
    use crate::sql::*;
    use pgrx::Internal;
    use timescaledb_toolkit::{accessors::*, stats_agg::{verif as v, *}};
    pub type P = (Option<f64>, Option<f64>);
    pub fn num() -> Option<f64> { match any_in(0, 12) { 0 => None, 1 => Some(0.0), 2..=4 => Some(any_in(0, 2000) as f64 / 7.0 - 140.0), _ => Some(any_in(0, 40) as f64 - 20.0) } }
    /// points; sometimes on a vertical, horizontal or sloped line
    pub fn points(max: u64) -> Vec<P> {
        let kind = any_in(0, 6);
        let c = any_in(0, 20) as f64 - 10.0;
        (0..any_in(0, max)).map(|_| { let (x, y) = (num(), num()); match kind { 0 => (x.map(|_| c), y), 1 => (x, y.map(|_| c)), 2 => (x, x.map(|x| c - 2.0 * x)), _ => (x, y) } }).collect()
    }
    pub fn whole(p: &[P]) -> Vec<(f64, f64)> { p.iter().filter_map(|(x, y)| Some(((*x)?, (*y)?))).collect() }
    fn central(v: &[f64]) -> [f64; 4] {
        let (n, s): (f64, f64) = (v.len() as f64, v.iter().sum());
        let m = |k| v.iter().map(|x| (x - s / n).powi(k)).sum::<f64>();
        if v.is_empty() { [0.0; 4] } else { [s, m(2), m(3), m(4)] }
    }
    fn near(what: &str, g: [f64; 4], w: [f64; 4], all: &[f64]) {
        let big = all.iter().fold(1.0f64, |a, x| a.max(x.abs())) * 2.0;
        for k in 0..4 { assert!((g[k] - w[k]).abs() <= 1e-9 * (all.len() as f64 + 1.0).powi(2) * big.powi(k as i32 + 1), "{what}, moment {}: {}, expected {}", k + 1, g[k], w[k]) }
    }
    fn same(what: &str, g: Option<f64>, w: Option<f64>) {
        let ok = match (g, w) { (Some(g), Some(w)) => g == w || g.is_nan() && w.is_nan() || (g - w).abs() <= 1e-9 * (g.abs() + w.abs()), (None, None) => true, _ => false };
        assert!(ok, "{what} is {g:?}, expected {w:?}");
    }
    fn formulas(n: u64, m: [f64; 4], sample: bool) -> [Option<f64>; 4] {
        if n == 0 || sample && n == 1 { return [None; 4] }
        let q = if sample { n as f64 - 1.0 } else { n as f64 };
        let d = (m[1] / q).sqrt();
        [Some(m[1] / q), Some(d), Some(m[2] / q / d.powi(3)), Some(m[3] / q / d.powi(4))]
    }
    const METHODS: [(&str, bool); 6] = [("sample", true), ("samp", true), ("population", false), ("pop", false), (" Sample ", true), ("POP", false)];
    /// the summary is that of these values; `all` were ever added
    pub fn check1(s: StatsSummary1D, vs: &[f64], all: &[f64]) {
        let s = match any_in(0, 2) { 0 => s, 1 => stored(s), _ => through_text(s) };
        let s = || Clone::clone(&s);
        let (n, m) = v::moments1(&s());
        assert!(n == vs.len() as u64 && v::count1(s()) == n as i64 && arrow_stats1d_num_vals(s(), acc0!(AccessorNumVals)) == n as i64, "number of values {n} of {}", vs.len());
        near("summary", m, central(vs), all);
        let some = |x: f64| if n == 0 { None } else { Some(x) };
        for g in [v::sum1(s()), arrow_stats1d_sum(s(), acc0!(AccessorSum))] { same("sum", g, some(m[0])) }
        for g in [v::average1(s()), arrow_stats1d_average(s(), acc0!(AccessorAverage))] { same("average", g, some(m[0] / n as f64)) }
        let (name, sample) = METHODS[any_in(0, 5) as usize];
        let w = formulas(n, m, sample);
        let g = v::stats1(s, name);
        let arrow = [arrow_stats1d_variance(Some(s()), accessor_variance(name)), arrow_stats1d_stddev(Some(s()), accessor_stddev(name)), arrow_stats1d_skewness(s(), accessor_skewness(name)), arrow_stats1d_kurtosis(s(), accessor_kurtosis(name))];
        for (i, what) in ["variance", "stddev", "skewness", "kurtosis"].iter().enumerate() {
            // of one value they are undefined: absent, or no finite number
            if sample && n == 1 { assert!(g[i].is_none_or(|x| !x.is_finite()), "{name} {what} of one value is {:?}", g[i]) } else { same(&format!("{name} {what}"), g[i], w[i]) }
            same(&format!("-> {name} {what}"), arrow[i], g[i]);
        }
        assert!(errs(|| { v::stats1(s, "samples"); }), "unknown method");
        assert!(v::of_nothing(name) == [None; 3], "of no summary");
    }
    pub fn check2(s: StatsSummary2D, vs: &[(f64, f64)], all: &[(f64, f64)]) {
        let s = match any_in(0, 2) { 0 => s, 1 => stored(s), _ => through_text(s) };
        let s = || Clone::clone(&s);
        let (n, x, y, xy) = v::moments2(&s());
        assert!(n == vs.len() as u64 && v::count2(s()) == n as i64 && arrow_stats2d_num_vals(s(), acc0!(AccessorNumVals)) == n as i64, "number of points {n} of {}", vs.len());
        let (xs, ys): (Vec<f64>, Vec<f64>) = vs.iter().copied().unzip();
        let (ax, ay): (Vec<f64>, Vec<f64>) = all.iter().copied().unzip();
        near("x", x, central(&xs), &ax);
        near("y", y, central(&ys), &ay);
        let q = n.max(1) as f64;
        let (mx, my) = (xs.iter().sum::<f64>() / q, ys.iter().sum::<f64>() / q);
        let cross = vs.iter().map(|(a, b)| (a - mx) * (b - my)).sum::<f64>();
        let big = all.iter().fold(1.0f64, |a, p| a.max(p.0.abs()).max(p.1.abs()));
        assert!((xy - cross).abs() <= 1e-9 * (all.len() as f64 + 1.0).powi(2) * big * big, "co-moment {xy}, expected {cross}");
        let some = |x: f64| if n == 0 { None } else { Some(x) };
        let w = [some(x[0] / n as f64), some(x[0]), some(y[0] / n as f64), some(y[0])];
        let g = v::sums2(s);
        let arrow = [arrow_stats2d_average_x(s(), acc0!(AccessorAverageX)), arrow_stats2d_sum_x(s(), acc0!(AccessorSumX)), arrow_stats2d_average_y(s(), acc0!(AccessorAverageY)), arrow_stats2d_sum_y(s(), acc0!(AccessorSumY))];
        for (i, what) in ["average_x", "sum_x", "average_y", "sum_y"].iter().enumerate() { same(what, g[i], w[i]); same(&format!("-> {what}"), arrow[i], w[i]) }
        let (name, sample) = METHODS[any_in(0, 5) as usize];
        let (wx, wy) = (formulas(n, x, sample), formulas(n, y, sample));
        let (gx, gy, gc) = v::stats2(s, name);
        let ax = [arrow_stats2d_variance_x(Some(s()), accessor_variance_x(name)), arrow_stats2d_stdddev_x(Some(s()), accessor_stddev_x(name)), arrow_stats2d_skewness_x(s(), accessor_skewness_x(name)), arrow_stats2d_kurtosis_x(s(), accessor_kurtosis_x(name))];
        let ay = [arrow_stats2d_variance_y(Some(s()), accessor_variance_y(name)), arrow_stats2d_stdddev_y(Some(s()), accessor_stddev_y(name)), arrow_stats2d_skewness_y(s(), accessor_skewness_y(name)), arrow_stats2d_kurtosis_y(s(), accessor_kurtosis_y(name))];
        for (i, what) in ["variance", "stddev", "skewness", "kurtosis"].iter().enumerate() {
            same(&format!("{name} {what}_x"), gx[i], wx[i]); same(&format!("-> {name} {what}_x"), ax[i], wx[i]);
            same(&format!("{name} {what}_y"), gy[i], wy[i]); same(&format!("-> {name} {what}_y"), ay[i], wy[i]);
        }
        let wc = if n == 0 || sample && n == 1 { None } else { Some(xy / if sample { n as f64 - 1.0 } else { n as f64 }) };
        same("covariance", gc, wc); same("-> covariance", arrow_stats2d_covar(Some(s()), accessor_covar(name)), wc);
        let (vert, hor) = (n == 0 || x[1] == 0.0, y[1] == 0.0);
        let slope = xy / x[1];
        let icpt = (y[0] - x[0] * slope) / n as f64;
        let w = [if vert { None } else { Some(slope) }, if vert { None } else { Some(icpt) }, if vert || hor { None } else { Some(xy / (x[1] * y[1]).sqrt()) },
            if vert { None } else if hor { Some(1.0) } else { Some(xy * xy / (x[1] * y[1])) },
            if n > 1 && x[1] == 0.0 { Some(x[0] / n as f64) } else if hor || vert { None } else { Some(-icpt / slope) }];
        let g = v::line(s);
        let arrow = [arrow_stats2d_slope(s(), acc0!(AccessorSlope)), arrow_stats2d_intercept(s(), acc0!(AccessorIntercept)), arrow_stats2d_corr(s(), acc0!(AccessorCorr)), arrow_stats2d_determination_coeff(s(), acc0!(AccessorDeterminationCoeff)), arrow_stats2d_x_intercept(s(), acc0!(AccessorXIntercept))];
        for (i, what) in ["slope", "intercept", "corr", "determination_coeff", "x_intercept"].iter().enumerate() {
            let near = match (g[i], w[i]) { (Some(a), Some(b)) if a.is_finite() && b.is_finite() => (a - b).abs() <= 1e-6 * (1.0 + a.abs() + b.abs()), (a, b) => a.is_some() == b.is_some() && a.map(f64::is_nan) == b.map(f64::is_nan) };
            assert!(near, "{what} is {:?}, expected {:?}", g[i], w[i]);
            same(&format!("-> {what}"), arrow[i], g[i]);
        }
    }
    pub fn moved1(s: Internal) -> Option<Internal> { stats1d_trans_deserialize(stats1d_trans_serialize(s), none()) }
    pub fn moved2(s: Internal) -> Option<Internal> { stats2d_trans_deserialize(stats2d_trans_serialize(s), none()) }
    pub fn agg1(rows: &[Option<f64>]) -> Option<Internal> {
        history(rows, &Agg { trans: &|s, x| stats1d_trans(s, *x, NUL), combine: &|x, y| stats1d_combine(x, y, NUL), moved: &moved1, fin: &|s| { v::fin1(s); }, strict: false })
    }
    pub fn agg2(rows: &[P]) -> Option<Internal> {
        history(rows, &Agg { trans: &|s, p| stats2d_trans(s, p.1, p.0, NUL), combine: &|x, y| stats2d_combine(x, y, NUL), moved: &moved2, fin: &|s| { v::fin2(s); }, strict: false })
    }
    /// a moving frame over the rows; a state that cannot be rolled back is computed anew, as the executor does
    pub fn moving<R>(rows: &[R], trans: &dyn Fn(Internal, &R) -> Option<Internal>, inv: &dyn Fn(Internal, &R) -> Option<Internal>, see: &dyn Fn(Option<Internal>, &[R])) {
        let (mut a, mut b, mut s): (usize, usize, Option<Internal>) = (0, 0, None);
        while b < rows.len() || a < b && any_bool() {
            if b < rows.len() && (a == b || any_in(0, 2) > 0) { s = trans(st(s), &rows[b]); b += 1 } else {
                if a + 1 == b { s = None } else { s = inv(st(s), &rows[a]); if s.is_none() { for x in &rows[a + 1..b] { s = trans(st(s), x) } } }
                a += 1;
            }
            see(s.as_ref().map(dup), &rows[a..b]);
        }
    }
}

executed! {
    fn plain_1d() {
        use ex::*;
        use crate::sql::*;
        let rows: Vec<Option<f64>> = (0..any_in(0, 30)).map(|_| num()).collect();
        let vs: Vec<f64> = rows.iter().flatten().copied().collect();
        match timescaledb_toolkit::stats_agg::verif::fin1(st(agg1(&rows))) { None => assert!(rows.is_empty(), "no summary of {} values", vs.len()), Some(s) => check1(s, &vs, &vs) }
    }
    fn plain_2d() {
        use ex::*;
        use crate::sql::*;
        let rows = points(30);
        let vs = whole(&rows);
        match timescaledb_toolkit::stats_agg::verif::fin2(st(agg2(&rows))) { None => assert!(rows.is_empty(), "no summary of {} points", vs.len()), Some(s) => check2(s, &vs, &vs) }
    }
    fn moving_1d() {
        use ex::*;
        use crate::sql::*;
        use timescaledb_toolkit::stats_agg::{verif as v, *};
        let rows: Vec<Option<f64>> = (0..any_in(1, 12)).map(|_| num()).collect();
        let all: Vec<f64> = rows.iter().flatten().copied().collect();
        let of = |w: &[Option<f64>]| w.iter().flatten().copied().collect::<Vec<f64>>();
        moving(&rows, &|s, x| stats1d_tf_trans(s, *x, NUL), &|s, x| stats1d_tf_inv_trans(s, *x, NUL), &|s, w| if let Some(s) = s { check1(v::tf_fin1(s).unwrap(), &of(w), &all) } else { assert!(w.is_empty()) });
        moving(&rows, &|s, x| stats1d_trans(s, *x, NUL), &|s, x| stats1d_inv_trans(s, *x, NUL), &|s, w| if let Some(s) = s { check1(v::fin1(s).unwrap(), &of(w), &all) } else { assert!(w.is_empty()) });
    }
    fn moving_2d() {
        use ex::*;
        use crate::sql::*;
        use timescaledb_toolkit::stats_agg::{verif as v, *};
        let rows = points(12);
        let all = whole(&rows);
        moving(&rows, &|s, p| stats2d_tf_trans(s, p.1, p.0, NUL), &|s, p| stats2d_tf_inv_trans(s, p.1, p.0, NUL), &|s, w| if let Some(s) = s { check2(v::tf_fin2(s).unwrap(), &whole(w), &all) } else { assert!(w.is_empty()) });
        moving(&rows, &|s, p| stats2d_trans(s, p.1, p.0, NUL), &|s, p| stats2d_inv_trans(s, p.1, p.0, NUL), &|s, w| if let Some(s) = s { check2(v::fin2(s).unwrap(), &whole(w), &all) } else { assert!(w.is_empty()) });
    }
    fn integers() {
        use ex::*;
        use crate::sql::*;
        use timescaledb_toolkit::stats_agg::{verif as v, *};
        let rows: Vec<Option<i64>> = (0..any_in(1, 12)).map(|_| if any_in(0, 9) == 0 { None } else { Some(any_in(0, 400) as i64 - 200) }).collect();
        let of = |w: &[Option<i64>]| w.iter().flatten().map(|x| *x as f64).collect::<Vec<f64>>();
        let all = of(&rows);
        let s = history(&rows, &Agg { trans: &|s, x| stats1d_i64_trans(s, *x, NUL), combine: &|x, y| stats1d_combine(x, y, NUL), moved: &moved1, fin: &|s| { v::fin1(s); }, strict: false });
        check1(v::fin1(st(s)).unwrap(), &all, &all);
        moving(&rows, &|s, x| stats1d_i64_tf_trans(s, *x, NUL), &|s, x| stats1d_i64_tf_inv_trans(s, *x, NUL), &|s, w| if let Some(s) = s { check1(v::tf_fin1(s).unwrap(), &of(w), &all) } else { assert!(w.is_empty()) });
        let far = [1i64 << 53, -(1 << 53), (1 << 53) + 1, -(1 << 53) - 1, i64::MAX, i64::MIN, any_i64()][any_in(0, 6) as usize];
        let fits = far.unsigned_abs() <= 1 << 53;
        assert!(errs(|| { stats1d_i64_trans(none(), Some(far), NUL); }) != fits && errs(|| { stats1d_i64_tf_trans(none(), Some(far), NUL); }) != fits, "{far}");
        if fits { assert!(v::sum1(v::fin1(st(stats1d_i64_trans(none(), Some(far), NUL))).unwrap()) == Some(far as f64), "{far}") }
    }
    fn rollup_and_rolling_1d() {
        use ex::*;
        use crate::sql::*;
        use timescaledb_toolkit::stats_agg::{verif as v, *};
        let groups: Vec<Vec<Option<f64>>> = (0..any_in(0, 6)).map(|_| (0..any_in(0, 6)).map(|_| num()).collect()).collect();
        let of = |w: &[Vec<Option<f64>>]| w.iter().flatten().flatten().copied().collect::<Vec<f64>>();
        let all = of(&groups);
        let s = history(&groups, &Agg { trans: &|s, g| stats1d_summary_trans(s, v::fin1(st(agg1(g))), NUL), combine: &|x, y| stats1d_combine(x, y, NUL), moved: &moved1, fin: &|s| { v::fin1(s); }, strict: false });
        match v::fin1(st(s)) { None => assert!(groups.iter().all(|g| g.is_empty()), "no summary"), Some(s) => check1(s, &all, &all) }
        let summaries: Vec<(Option<StatsSummary1D>, &Vec<Option<f64>>)> = groups.iter().map(|g| (v::fin1(st(agg1(g))), g)).collect();
        moving(&summaries, &|s, g| stats1d_summary_trans(s, g.0.clone(), NUL), &|s, g| match s.initialized() { true => stats1d_summary_inv_trans(s, g.0.clone(), NUL), false => None },
            &|s, w| { let vs = of(&w.iter().map(|g| g.1.clone()).collect::<Vec<_>>()); match s { Some(s) => check1(v::fin1(s).unwrap(), &vs, &all), None => assert!(vs.is_empty(), "no summary") } });
    }
    fn rollup_and_rolling_2d() {
        use ex::*;
        use crate::sql::*;
        use timescaledb_toolkit::stats_agg::{verif as v, *};
        let groups: Vec<Vec<P>> = (0..any_in(0, 6)).map(|_| points(6)).collect();
        let all = whole(&groups.concat());
        let s = history(&groups, &Agg { trans: &|s, g| stats2d_summary_trans(s, v::fin2(st(agg2(g))), NUL), combine: &|x, y| stats2d_combine(x, y, NUL), moved: &moved2, fin: &|s| { v::fin2(s); }, strict: false });
        match v::fin2(st(s)) { None => assert!(groups.iter().all(|g| g.is_empty()), "no summary"), Some(s) => check2(s, &all, &all) }
        let summaries: Vec<(Option<StatsSummary2D>, &Vec<P>)> = groups.iter().map(|g| (v::fin2(st(agg2(g))), g)).collect();
        moving(&summaries, &|s, g| stats2d_summary_trans(s, g.0.clone(), NUL), &|s, g| match s.initialized() { true => stats2d_summary_inv_trans(s, g.0.clone(), NUL), false => None },
            &|s, w| { let vs = whole(&w.iter().flat_map(|g| g.1.clone()).collect::<Vec<_>>()); match s { Some(s) => check2(v::fin2(s).unwrap(), &vs, &all), None => assert!(vs.is_empty(), "no summary") } });
    }
    fn unbounded_values() {
        use crate::sql::*;
        use timescaledb_toolkit::stats_agg::{verif as v, *};
        let rows: Vec<f64> = (0..any_in(1, 6)).map(|_| [1.0, -2.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 3.5][any_in(0, 5) as usize]).collect();
        let k = any_in(0, rows.len() as u64) as usize;
        let of = |r: &[f64]| { let mut s = None; for x in r { s = stats1d_trans(st(s), Some(*x), NUL) } st(s) };
        let s = stats1d_combine(of(&rows[..k]), of(&rows[k..]), NUL);
        let s = v::fin1(st(s)).unwrap();
        let (g, w) = (v::sum1(s.clone()).unwrap(), rows.iter().sum::<f64>());
        assert!(v::count1(s) == rows.len() as i64 && (g == w || g.is_nan() && w.is_nan()), "sum of {rows:?} is {g}");
    }
}
