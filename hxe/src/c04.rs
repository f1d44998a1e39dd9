//! C04: the uddsketch aggregates of SQL: any history has every value in the bucket that holds it, and the accessors answer from the buckets.
use crate::shim::*;

harnesses! {}

#[cfg(not(kani))]
pub mod ex {
    use super::*;
    use crate::sql::*;
    use pgrx::Internal;
    use timescaledb_toolkit::{uddsketch::{verif as v, *}};
    use ::uddsketch::SketchHashKey as K;
    /// values of both signs, zero, duplicates; of so few magnitudes that the error stays below 1
    pub fn val(p: Par) -> f64 {
        let w = p.map_or(200, |p| p.0) as u64;
        match any_in(0, 5) { 0 => 0.0, 1 => (any_in(0, 2 * w) as f64 - w as f64).exp2() * 1.25, 2 => (any_in(1, 20) as f64) * 1.7, 3 => -(any_in(1, 20) as f64),
            4 => -(any_in(0, 2 * w) as f64 - w as f64).exp2(), _ => any_in(1, 20) as f64 }
    }
    pub fn rows(max: u64, p: Par) -> Vec<Option<f64>> { (0..any_in(0, max)).map(|_| if any_in(0, 9) == 0 { None } else { Some(val(p)) }).collect() }
    pub const ERR: [f64; 4] = [0.001, 0.01, 0.1, 0.4];
    /// size and error of one aggregate; none for percentile_agg
    pub type Par = Option<(i32, f64)>;
    pub fn par() -> Par { if any_in(0, 5) == 0 { None } else { Some((any_in(7, 60) as i32, ERR[any_in(0, 3) as usize])) } }
    pub fn moved(s: Internal) -> Option<Internal> { uddsketch_deserialize(uddsketch_serialize(s), none()) }
    pub fn agg(rows: &[Option<f64>], p: Par) -> Option<Internal> {
        history(rows, &Agg {
            trans: &|s, x| match p { Some((size, e)) => uddsketch_trans(s, size, e, *x, NUL), None => percentile_agg_trans(s, *x, NUL) },
            combine: &|x, y| uddsketch_combine(x, y, NUL),
            moved: &moved,
            fin: &|s| { v::fin(s); },
            strict: false,
        })
    }
    pub fn check(d: UddSketch<'static>, vs: &[f64], p: Par) {
        let d = match any_in(0, 2) { 0 => d, 1 => stored(d), _ => through_text(d) };
        let d = || Clone::clone(&d);
        let (size, e) = p.unwrap_or((200, 0.001));
        let mut s = vs.to_vec();
        s.sort_by(|a, b| a.partial_cmp(b).unwrap());
        let n = s.len();
        let (kept, m, k, c) = v::parts(&d());
        assert!(kept == size as u32 && m as usize == c.len() && c.len() <= size as usize, "bucket limit");
        assert!(c.iter().map(|c| c.1).sum::<u64>() == n as u64 && c.iter().all(|c| c.1 > 0) && c.windows(2).all(|w| w[0].0 < w[1].0), "every value is counted once, in order");
        assert!(uddsketch_num_vals(d()) == n as f64 && arrow_uddsketch_num_vals(d(), acc0!(AccessorNumVals)) == n as f64, "number of values");
        let (mag, t): (f64, f64) = (s.iter().map(|x| x.abs()).sum::<f64>() + 1e-300, s.iter().sum());
        assert!((uddsketch_sum(d()) - t).abs() <= 1e-9 * mag, "total");
        for g in [uddsketch_mean(d()), arrow_uddsketch_mean(d(), acc0!(AccessorMean))] { assert!((g - t / n as f64).abs() <= 1e-9 * mag, "mean") }
        let mut al = e;
        for _ in 0..k { al = 2.0 * al / (1.0 + al * al) }
        let err = uddsketch_error(d());
        assert!((err - al).abs() < 1e-12 && arrow_uddsketch_error(d(), acc0!(AccessorError)) == err, "error after {k} compactions");
        if err > 0.9999 { return }
        // the values in order fill the buckets in order, and each lies within the bounds of its own
        let lg = ((1.0 + err) / (1.0 - err)).ln();
        let mut i = 0;
        for (b, w) in &c {
            for x in &s[i..i + *w as usize] {
                let (neg, j) = match b { K::Negative(j) => (true, *j), K::Positive(j) => (false, *j), _ => { assert!(*x == 0.0, "{x} in the bucket of zero"); continue } };
                let l = x.abs().ln() / lg;
                assert!(*x != 0.0 && neg == (*x < 0.0) && l <= j as f64 + 1e-6 * (1.0 + l.abs()) && l >= j as f64 - 1.0 - 1e-6 * (1.0 + l.abs()), "{x} in bucket {b:?}, error {err}");
            }
            i += *w as usize;
        }
        // quantiles come from the value at the rank
        let qs: Vec<f64> = (0..any_in(1, 6)).map(|_| any_in(0, 1000) as f64 / 1000.0).collect();
        let want: Vec<f64> = qs.iter().map(|q| s[((n as f64 * q) as usize).min(n - 1)]).collect();
        let got: Vec<f64> = qs.iter().map(|q| uddsketch_approx_percentile(*q, d())).collect();
        for ((q, g), w) in qs.iter().zip(&got).zip(&want) { assert!((g - w).abs() <= err * w.abs() * (1.0 + 1e-5) + 1e-300, "quantile {q} is {g}, the value at the rank {w}, error {err}") }
        assert!(qs.iter().map(|q| arrow_uddsketch_approx_percentile(d(), acc0!(AccessorApproxPercentile, percentile: *q))).collect::<Vec<_>>() == got, "-> approx_percentile");
        assert!(uddsketch_approx_percentile_array(qs.clone(), d()) == got && arrow_uddsketch_approx_percentile_array(d(), timescaledb_toolkit::accessors::accessor_percentiles(qs)) == got, "approx_percentile_array");
        let x = if any_bool() { s[any_in(0, n as u64 - 1) as usize] } else { val(p) };
        let r = uddsketch_approx_percentile_rank(x, d());
        let far = |y: f64| (y - x).abs() > 2.5 * err * x.abs() / (1.0 - err);
        let (lo, hi) = (s.iter().filter(|y| **y < x && far(**y)).count() as f64, s.iter().filter(|y| **y <= x || !far(**y)).count() as f64);
        assert!(lo <= r * n as f64 + 1e-6 && r * n as f64 <= hi + 1e-6, "rank {r} of {x}: {lo} below, {hi} not above, of {n}");
        assert!(arrow_uddsketch_approx_rank(d(), acc0!(AccessorApproxPercentileRank, value: x)) == r, "-> approx_percentile_rank");
        let total = c.iter().map(|c| c.1).sum::<u64>() as f64;
        let mut below = 0.0;
        for (b, w) in &c {
            // the middle of a bucket has all lower buckets and half of its own below it
            let y = match b { K::Negative(j) => -((*j as f64 - 0.5) * lg).exp(), K::Positive(j) => ((*j as f64 - 0.5) * lg).exp(), _ => 0.0 };
            if y.is_finite() && (y != 0.0 || matches!(b, K::Zero)) && y.abs() > 1e-290 { let r = uddsketch_approx_percentile_rank(y, d()); assert!((r - (below + *w as f64 / 2.0) / total).abs() < 1e-9, "rank {r} of {y} in {b:?}") }
            below += *w as f64;
        }
    }
}

executed! {
    fn aggregate() {
        use ex::*;
        use crate::sql::*;
        let p = par();
        let rows = rows(if any_bool() { 12 } else { 120 }, p);
        let vs: Vec<f64> = rows.iter().filter_map(|x| *x).collect();
        match timescaledb_toolkit::uddsketch::verif::fin(st(agg(&rows, p))) {
            None => assert!(vs.is_empty(), "no sketch of {} values", vs.len()),
            Some(d) => { assert!(!vs.is_empty(), "sketch of nothing"); check(d, &vs, p) }
        }
    }
    fn rollup() {
        use ex::*;
        use crate::sql::*;
        use timescaledb_toolkit::uddsketch::{verif as v, *};
        let p = par();
        let groups: Vec<Vec<f64>> = (0..any_in(0, 6)).map(|_| (0..any_in(0, if any_bool() { 6 } else { 60 })).map(|_| val(p)).collect()).collect();
        let of = |g: &Vec<f64>| v::fin(st(agg(&g.iter().map(|x| Some(*x)).collect::<Vec<_>>(), p)));
        let s = history(&groups, &Agg {
            trans: &|s, g| uddsketch_compound_trans(s, of(g), NUL),
            combine: &|x, y| uddsketch_combine(x, y, NUL),
            moved: &moved,
            fin: &|s| { v::fin(s); },
            strict: false,
        });
        let vs = groups.concat();
        match v::fin(st(s)) {
            None => assert!(vs.is_empty(), "no sketch of {} values", vs.len()),
            Some(d) => { assert!(!vs.is_empty(), "sketch of nothing"); check(d, &vs, p) }
        }
    }
    fn few_enough_values_are_never_compacted() {
        use ex::*;
        use crate::sql::*;
        let e = ERR[any_in(0, 3) as usize];
        let vs: Vec<Option<f64>> = (0..any_in(1, 20)).map(|_| Some(val(Some((20, e))))).collect();
        let d = timescaledb_toolkit::uddsketch::verif::fin(st(agg(&vs, Some((20, e))))).unwrap();
        assert!(timescaledb_toolkit::uddsketch::uddsketch_error(d) == e, "compacted without need");
    }
    fn many_buckets() {
        use ex::*;
        use crate::sql::*;
        let p = Some((any_in(200, 2000) as i32, ERR[any_in(0, 1) as usize]));
        let vs: Vec<f64> = (0..any_in(1, 1500)).map(|_| val(Some((200, 0.0)))).map(|x| if any_bool() { x } else { x * any_in(1, 1000) as f64 }).collect();
        let mut s = None;
        for x in &vs { s = timescaledb_toolkit::uddsketch::uddsketch_trans(st(s), p.unwrap().0, p.unwrap().1, Some(*x), NUL) }
        if any_bool() { s = moved(st(s)) }
        check(timescaledb_toolkit::uddsketch::verif::fin(st(s)).unwrap(), &vs, p);
    }
    fn many_values() {
        use ex::*;
        use crate::sql::*;
        use timescaledb_toolkit::uddsketch::{verif as v, *};
        let p = par();
        let vs: Vec<f64> = (0..any_in(1, 6)).map(|_| val(p)).collect();
        let (mut s, mut all) = (agg(&vs.iter().map(|x| Some(*x)).collect::<Vec<_>>(), p), vs);
        // the same values again and again
        for _ in 0..any_in(0, 14) {
            let d = v::fin(dup(s.as_ref().unwrap())).unwrap();
            s = if any_bool() { uddsketch_compound_trans(st(s), Some(d), NUL) } else { let t = moved(dup(s.as_ref().unwrap())); uddsketch_combine(st(s), st(t), NUL) };
            all.extend_from_within(..);
        }
        check(v::fin(st(s)).unwrap(), &all, p);
    }
}
