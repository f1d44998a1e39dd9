//! C14: max_n, min_n and their by-variants.
use crate::shim::*;
#[cfg(not(kani))]
use crate::{pgstub::{fcinfo, text, text_of}, sql::*};
#[cfg(not(kani))]
use timescaledb_toolkit::nmost::verif::*;
use timescaledb_toolkit::nmost::verif as nm;

harnesses! {
    // keeping the two least of three values
    fn least_two_of_three() {
        let (a, b, c) = (any_i64(), any_i64(), any_i64());
        let mut s = nm::new(2, a);
        nm::entry(&mut s, b);
        nm::entry(&mut s, c);
        let h = nm::heap(&s);
        assert!(h.len() == 2);
        let (lo, hi) = if h[0] < h[1] { (h[0], h[1]) } else { (h[1], h[0]) };
        let (mut x, mut y, mut z) = (a, b, c);
        if y < x { (x, y) = (y, x) }
        if z < y { (y, z) = (z, y) }
        if y < x { (x, y) = (y, x) }
        assert!(x <= y && y <= z);
        assert!(lo == x && hi == y);
    }
    // the step: whatever a heap of three holds, one more value replaces the greatest of them exactly when it is less
    fn step_keeps_least() {
        let v = [any_i64(), any_i64(), any_i64()];
        let mut s = nm::new(3, v[0]);
        nm::entry(&mut s, v[1]);
        nm::entry(&mut s, v[2]);
        let x = any_i64();
        let max = v[0].max(v[1]).max(v[2]);
        nm::entry(&mut s, x);
        let h = nm::heap(&s);
        let q = any_i64();
        let count = |a: &[i64]| { let mut n = 0; for y in a { if *y == q { n += 1 } } n };
        let want = count(&v) + if x < max { (x == q) as i32 - (max == q) as i32 } else { 0 };
        assert!(h.len() == 3 && count(h) == want);
    }
    // the greatest values are the least of the reversed order
    fn greatest_two_of_three() {
        use std::cmp::Reverse;
        let (a, b, c) = (any_i64(), any_i64(), any_i64());
        let mut s = nm::new(2, Reverse(a));
        nm::entry(&mut s, Reverse(b));
        nm::entry(&mut s, Reverse(c));
        let h = nm::heap(&s);
        assert!(h.len() == 2);
        let (hi, lo) = (h[0].0.max(h[1].0), h[0].0.min(h[1].0));
        assert!(hi == a.max(b).max(c));
        assert!(lo == a.max(b).min(b.max(c)).min(a.max(c)), "the middle of the three");
    }
    // while there is room everything is kept
    fn room_for_all() {
        let (a, b) = (any_i64(), any_i64());
        let mut s = nm::new(5, a);
        nm::entry(&mut s, b);
        let h = nm::heap(&s);
        assert!(h.len() == 2 && ((h[0] == a && h[1] == b) || (h[0] == b && h[1] == a)));
    }
}

#[cfg(not(kani))]
mod ex {
    use super::*;
    pub fn small() -> f64 { any_in(0, 12) as f64 / 2.0 - 3.0 }
    pub fn wide() -> f64 { if any_in(0, 9) == 0 { return if any_bool() { 9223372036854775808.0 } else { -9223372036854775808.0 } } any_in(0, 4_000_000_000) as f64 / 1024.0 - 2_000_000.0 }
    /// rows cut into runs
    pub fn cut(n: usize) -> Vec<(usize, usize)> {
        let k = any_in(1, 4) as usize;
        let mut e: Vec<usize> = (1..k).map(|_| any_in(0, n as u64) as usize).chain([0, n]).collect();
        e.sort();
        e.windows(2).map(|w| (w[0], w[1])).collect()
    }
    /// the selection is right if the keys are the best n in order and every datum is a different row with that key
    pub fn selection(got: &[(f64, usize)], rows: &[f64], cap: usize, max: bool, what: &str) {
        let mut want = rows.to_vec();
        want.sort_by(|a, b| if max { b.total_cmp(a) } else { a.total_cmp(b) });
        want.truncate(cap);
        let k: Vec<f64> = got.iter().map(|x| x.0).collect();
        assert!(k == want, "{what}: {k:?}, expected {want:?}");
        let mut seen = std::collections::HashSet::new();
        for (v, i) in got { assert!(rows[*i] == *v && seen.insert(*i), "{what}: datum of another row") }
    }
}
#[cfg(not(kani))]
macro_rules! plain { ($($name:ident $max:literal $to:expr, $of:expr; $trans:ident $roll:ident $comb:ident $ser:ident $de:ident $fin:ident $arr:ident $vals:ident $aarr:ident $avals:ident)*) => { $(
    fn $name() {
        let n = any_in(1, 14) as usize;
        let cap = any_in(1, 8) as usize;
        let narrow = any_bool();
        let rows: Vec<f64> = (0..n).map(|_| if narrow { ex::small().floor() } else { ex::wide().floor() }).collect();
        let mut want = rows.clone();
        want.sort_by(|a, b| if $max { b.total_cmp(a) } else { a.total_cmp(b) });
        want.truncate(cap);
        let agg = |rows: &[f64], cap: usize| { let mut s = None; for r in rows { s = $trans(st(s), $to(*r), cap as i64, NUL) } s };
        let check = |a, what: &str| {
            let a = stored(a);
            let v: Vec<f64> = $arr(Clone::clone(&a)).into_iter().map($of).collect();
            assert!(v == want, "{what}: {v:?}, expected {want:?}");
            assert!($vals(Clone::clone(&a)).map($of).collect::<Vec<f64>>() == want && $avals(Clone::clone(&a), acc0!(AccessorIntoValues)).map($of).collect::<Vec<f64>>() == want);
            assert!($aarr(a, acc0!(AccessorIntoArray)).into_iter().map($of).collect::<Vec<f64>>() == want);
        };
        // in one pass, and asked for the result twice with more rows in between
        let k = any_in(1, n as u64) as usize;
        let s = agg(&rows[..k], cap).unwrap();
        let d = pgrx::IntoDatum::into_datum(s).unwrap();
        let it = || pgrx::Internal::from(Some(d));
        let early: Vec<f64> = $arr($fin(it()).unwrap()).into_iter().map($of).collect();
        let mut w = rows[..k].to_vec();
        w.sort_by(|a, b| if $max { b.total_cmp(a) } else { a.total_cmp(b) });
        w.truncate(cap);
        assert!(early == w, "result of the first rows");
        for r in &rows[k..] { $trans(it(), $to(*r), cap as i64, NUL); }
        check($fin(it()).unwrap(), "one pass");
        check($fin(it()).unwrap(), "asked again");
        // parts, combined as parallel workers do, with and without going through serialization
        let mut whole = None;
        let mut through = None;
        for (a, b) in ex::cut(n) {
            whole = $comb(st(whole), st(agg(&rows[a..b], cap)), NUL);
            let p = agg(&rows[a..b], cap).and_then(|p| $de($ser(p), none()));
            through = $comb(st(through), st(p), NUL);
        }
        check($fin(st(whole)).unwrap(), "combined parts");
        check($fin(st(through)).unwrap(), "combined serialized parts");
        // rollup of finished aggregates, later ones of any size
        let mut r = None;
        for (i, (a, b)) in ex::cut(n).into_iter().filter(|x| x.0 < x.1).enumerate() {
            let c = if i == 0 { cap } else { cap + any_in(0, 3) as usize };
            r = $roll(st(r), stored($fin(st(agg(&rows[a..b], c))).unwrap()), NUL);
        }
        check($fin(st(r)).unwrap(), "rollup");
        assert!($fin(none()).is_none());
    }
)* } }
#[cfg(not(kani))]
macro_rules! by { ($($name:ident $max:literal $to:expr, $of:expr; $trans:ident $roll:ident $fin:ident $vals:ident)*) => { $(
    fn $name() {
        let n = any_in(1, 14) as usize;
        let cap = any_in(1, 8) as usize;
        let narrow = any_bool();
        let txt = any_bool();
        let rows: Vec<f64> = (0..n).map(|_| if narrow { ex::small().floor() } else { ex::wide().floor() }).collect();
        let oid = if txt { 25 } else { 20 };
        let el = |i: usize| if txt { elem(text(&format!("row {i} {}", "x".repeat(i))), 25) } else { elem(pgrx::pg_sys::Datum::from(i), 20) };
        let agg = |a: usize, b: usize, cap: usize| { let mut s = None; for i in a..b { s = $trans(st(s), $to(rows[i]), el(i), cap as i64, NUL) } s };
        let read = |a| -> Vec<(f64, usize)> { $vals(Some(stored(a)), None, fcinfo(&[0, oid])).map(|(v, e)| {
            assert!(e.oid().to_u32() == oid);
            ($of(v), if txt { let s = text_of(e.datum()); let i = s.split(' ').nth(1).unwrap().parse().unwrap(); assert!(s == format!("row {i} {}", "x".repeat(i)), "datum content"); i } else { e.datum().value() })
        }).collect() };
        let check = |a, what: &str| ex::selection(&read(a), &rows, cap, $max, what);
        let k = any_in(1, n as u64) as usize;
        let d = pgrx::IntoDatum::into_datum(agg(0, k, cap).unwrap()).unwrap();
        let it = || pgrx::Internal::from(Some(d));
        ex::selection(&read($fin(it()).unwrap()), &rows[..k], cap, $max, "result of the first rows");
        for i in k..n { $trans(it(), $to(rows[i]), el(i), cap as i64, NUL); }
        check($fin(it()).unwrap(), "one pass");
        check($fin(it()).unwrap(), "asked again");
        let mut r = None;
        for (i, (a, b)) in ex::cut(n).into_iter().filter(|x| x.0 < x.1).enumerate() {
            let c = if i == 0 { cap } else { cap + any_in(0, 3) as usize };
            r = $roll(st(r), stored($fin(st(agg(a, b, c))).unwrap()), NUL);
        }
        check($fin(st(r)).unwrap(), "rollup");
        assert!($fin(none()).is_none());
        assert!($vals(None, None, fcinfo(&[0, oid])).next().is_none());
    }
)* } }

#[cfg(not(kani))]
plain! {
    t_max_float true |x: f64| x, |x: f64| x; max_n_float_trans max_n_float_rollup_trans max_n_float_combine max_n_float_serialize max_n_float_deserialize max_n_float_final max_n_float_to_array max_n_float_to_values arrow_max_float_into_array arrow_max_float_into_values
    t_max_int true |x: f64| x as i64, |x: i64| x as f64; max_n_int_trans max_n_int_rollup_trans max_n_int_combine max_n_int_serialize max_n_int_deserialize max_n_int_final max_n_int_to_array max_n_int_to_values arrow_max_int_into_array arrow_max_int_into_values
    t_max_time true |x: f64| ts(x as i64), |x| us(x) as f64; max_n_time_trans max_n_time_rollup_trans max_n_time_combine max_n_time_serialize max_n_time_deserialize max_n_time_final max_n_time_to_array max_n_time_to_values arrow_max_time_into_array arrow_max_time_into_values
    t_min_float false |x: f64| x, |x: f64| x; min_n_float_trans min_n_float_rollup_trans min_n_float_combine min_n_float_serialize min_n_float_deserialize min_n_float_final min_n_float_to_array min_n_float_to_values arrow_min_float_into_array arrow_min_float_into_values
    t_min_int false |x: f64| x as i64, |x: i64| x as f64; min_n_int_trans min_n_int_rollup_trans min_n_int_combine min_n_int_serialize min_n_int_deserialize min_n_int_final min_n_int_to_array min_n_int_to_values arrow_min_int_into_array arrow_min_int_into_values
    t_min_time false |x: f64| ts(x as i64), |x| us(x) as f64; min_n_time_trans min_n_time_rollup_trans min_n_time_combine min_n_time_serialize min_n_time_deserialize min_n_time_final min_n_time_to_array min_n_time_to_values arrow_min_time_into_array arrow_min_time_into_values
}
#[cfg(not(kani))]
by! {
    t_max_by_float true |x: f64| x, |x: f64| x; max_n_by_float_trans max_n_by_float_rollup_trans max_n_by_float_final max_n_by_float_to_values
    t_max_by_int true |x: f64| x as i64, |x: i64| x as f64; max_n_by_int_trans max_n_by_int_rollup_trans max_n_by_int_final max_n_by_int_to_values
    t_max_by_time true |x: f64| ts(x as i64), |x| us(x) as f64; max_n_by_time_trans max_n_by_time_rollup_trans max_n_by_time_final max_n_by_time_to_values
    t_min_by_float false |x: f64| x, |x: f64| x; min_n_by_float_trans min_n_by_float_rollup_trans min_n_by_float_final min_n_by_float_to_values
    t_min_by_int false |x: f64| x as i64, |x: i64| x as f64; min_n_by_int_trans min_n_by_int_rollup_trans min_n_by_int_final min_n_by_int_to_values
    t_min_by_time false |x: f64| ts(x as i64), |x| us(x) as f64; min_n_by_time_trans min_n_by_time_rollup_trans min_n_by_time_final min_n_by_time_to_values
}

executed! {
    fn max_float() { t_max_float() }
    fn max_by_float() { t_max_by_float() }
    fn max_int() { t_max_int() }
    fn max_by_int() { t_max_by_int() }
    fn max_time() { t_max_time() }
    fn max_by_time() { t_max_by_time() }
    fn min_float() { t_min_float() }
    fn min_by_float() { t_min_by_float() }
    fn min_int() { t_min_int() }
    fn min_by_int() { t_min_by_int() }
    fn min_time() { t_min_time() }
    fn min_by_time() { t_min_by_time() }
}
