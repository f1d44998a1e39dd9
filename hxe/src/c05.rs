//! C05: the t-digest aggregates of SQL: any history keeps count, sum, extremes and size; the accessors answer from them.
use crate::shim::*;

harnesses! {}

#[cfg(not(kani))]
pub mod ex {
    use super::*;
    use crate::sql::*;
    use pgrx::Internal;
    use timescaledb_toolkit::{tdigest::{verif as v, *}};
    pub fn val() -> f64 { match any_in(0, 3) { 0 => any_f64_small(), 1 => any_in(0, 1000) as f64, 2 => -(any_in(0, 50) as f64), _ => any_in(0, 5) as f64 * 1e6 } }
    pub fn rows(max: u64) -> Vec<Option<f64>> { (0..any_in(0, max)).map(|_| match any_in(0, 9) { 0 => None, 1 => Some(f64::NAN), _ => Some(val()) }).collect() }
    /// the values that count: neither NULL nor NaN
    pub fn values(rows: &[Option<f64>]) -> Vec<f64> { rows.iter().filter_map(|x| *x).filter(|x| !x.is_nan()).collect() }
    pub fn agg(rows: &[Option<f64>], size: i32) -> Option<Internal> {
        history(rows, &Agg {
            trans: &|s, x| tdigest_trans(s, size, *x, NUL),
            combine: &|x, y| tdigest_combine(x, y, NUL),
            moved: &|s| tdigest_deserialize(tdigest_serialize(s), none()),
            fin: &|s| { v::fin(s); },
            strict: false,
        })
    }
    /// a sketch is what it is, whether or not it was kept in a table or as text
    pub fn anyhow(d: TDigest<'static>) -> TDigest<'static> {
        match any_in(0, 2) { 0 => d, 1 => stored(d), _ => through_text(d) }
    }
    pub fn check(d: TDigest<'static>, vs: &[f64], size: i32) {
        let d = anyhow(d);
        let d = || Clone::clone(&d);
        let mut s = vs.to_vec();
        s.sort_by(|a, b| a.partial_cmp(b).unwrap());
        let (n, lo, hi) = (s.len() as f64, s[0], s[s.len() - 1]);
        let (m, t): (f64, f64) = (s.iter().map(|x| x.abs()).sum(), s.iter().sum());
        let (kept, c) = v::parts(&d());
        assert!(kept == size as u32 && c.len() <= size as usize + 1, "size parameter");
        assert!(c.iter().map(|c| c.1).sum::<u64>() == s.len() as u64 && c.iter().all(|c| lo <= c.0 && c.0 <= hi && c.1 > 0) && c.windows(2).all(|w| w[0].0 <= w[1].0), "centroids {c:?} of {n} values");
        assert!(tdigest_count(d()) == n && arrow_tdigest_num_vals(d(), acc0!(AccessorNumVals)) == n, "number of values");
        assert!(tdigest_min(d()) == lo && arrow_tdigest_min(d(), acc0!(AccessorMinVal)) == lo, "minimum");
        assert!(tdigest_max(d()) == hi && arrow_tdigest_max(d(), acc0!(AccessorMaxVal)) == hi, "maximum");
        assert!((tdigest_sum(d()) - t).abs() <= 1e-9 * m, "total");
        for g in [tdigest_mean(d()), arrow_tdigest_mean(d(), acc0!(AccessorMean))] { assert!((g - t / n).abs() <= 1e-9 * m, "mean") }
        let quantile = |q: f64| { let g = tdigest_quantile(q, d()); assert!(g == arrow_tdigest_approx_percentile(d(), acc0!(AccessorApproxPercentile, percentile: q)), "two forms of approx_percentile"); g };
        let rank = |x: f64| { let g = tdigest_quantile_at_value(x, d()); assert!(g == arrow_tdigest_approx_rank(d(), acc0!(AccessorApproxPercentileRank, value: x)), "two forms of approx_percentile_rank"); g };
        assert!(quantile(0.0) == lo && quantile(1.0) == hi, "quantile ends");
        let (mut last, mut lr) = (lo, 0.0);
        for i in 0..=20 {
            let q = quantile(i as f64 / 20.0);
            assert!(lo <= q && q <= hi && q >= last - 1e-9 * (hi - lo), "quantiles decrease or leave the data");
            last = q;
            let r = rank(if i == 20 { hi } else { lo + (hi - lo) * (i as f64 / 20.0) });
            assert!((0.0..=1.0).contains(&r) && r >= lr - 1e-9, "ranks decrease or leave [0, 1]");
            lr = r;
        }
        assert!(rank(lo - 1.0) == 0.0 && rank(hi + 1.0) == 1.0, "rank outside the data");
        if s.len() as i32 >= 4 * size && size >= 20 {
            let i = any_in(0, 20) as f64 / 20.0;
            let q = quantile(i);
            let (a, b) = (s.iter().filter(|x| **x < q).count() as f64, s.iter().filter(|x| **x <= q).count() as f64);
            let slack = 5.0 * n / size as f64 + 2.0;
            assert!(a - slack <= i * n && i * n <= b + slack, "quantile estimate has the wrong rank");
        }
    }
}
executed! {
    fn aggregate() {
        use ex::*;
        use crate::sql::*;
        let (rows, size) = (rows([12, 12, 12, 12, 300, 300, 300, 1500][any_in(0, 7) as usize]), any_in(1, [40, 40, 40, 400][any_in(0, 3) as usize]) as i32);
        let vs = values(&rows);
        match timescaledb_toolkit::tdigest::verif::fin(st(agg(&rows, size))) {
            None => assert!(vs.is_empty(), "no digest of {} values", vs.len()),
            Some(d) => { assert!(!vs.is_empty(), "digest of nothing"); check(d, &vs, size) }
        }
    }
    fn rollup() {
        use ex::*;
        use crate::sql::*;
        use timescaledb_toolkit::tdigest::{verif as v, *};
        let size = any_in(1, [40, 40, 40, 400][any_in(0, 3) as usize]) as i32;
        let groups: Vec<Vec<f64>> = (0..any_in(0, 6)).map(|_| (0..any_in(0, [6, 6, 6, 90, 90, 400][any_in(0, 5) as usize])).map(|_| val()).collect()).collect();
        let of = |g: &Vec<f64>| v::fin(st(agg(&g.iter().map(|x| Some(*x)).collect::<Vec<_>>(), size)));
        let s = history(&groups, &Agg {
            trans: &|s, g| tdigest_compound_trans(s, of(g), NUL),
            combine: &|x, y| tdigest_compound_combine(x, y, NUL),
            moved: &|s| tdigest_compound_deserialize(v::compound_serialize(s), none()),
            fin: &|s| { v::compound_final(s); },
            strict: false,
        });
        let vs = groups.concat();
        match v::compound_final(st(s)) {
            None => assert!(vs.is_empty(), "no digest of {} values", vs.len()),
            Some(d) => { assert!(!vs.is_empty(), "digest of nothing"); check(d, &vs, size) }
        }
    }
    fn many_values() {
        use ex::*;
        use crate::sql::*;
        use timescaledb_toolkit::tdigest::{verif as v, *};
        let size = any_in(1, 40) as i32;
        let rows: Vec<Option<f64>> = (0..any_in(1, 6)).map(|_| Some(val())).collect();
        let (mut d, mut all) = (v::fin(st(agg(&rows, size))).unwrap(), values(&rows));
        // the same values again and again
        for _ in 0..any_in(0, 14) {
            let s = tdigest_compound_trans(none(), Some(Clone::clone(&d)), NUL);
            d = v::compound_final(st(tdigest_compound_trans(st(s), Some(d), NUL))).unwrap();
            all.extend_from_within(..);
        }
        check(d, &all, size);
    }
    fn sizes_do_not_mix() {
        use ex::*;
        use crate::sql::*;
        use timescaledb_toolkit::tdigest::{verif as v, *};
        let (a, b) = (any_in(1, 40) as i32, any_in(1, 40) as i32);
        let of = |n| v::fin(st(agg(&[Some(val())], n))).unwrap();
        assert!(errs(|| { let s = tdigest_compound_trans(none(), Some(of(a)), NUL); tdigest_compound_trans(st(s), Some(of(b)), NUL); }) == (a != b), "rollup of digests of sizes {a} and {b}");
    }
}
