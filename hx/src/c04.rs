//! C04: UDDSketch: every value is counted in exactly one bucket, compaction merges neighbours only and keeps
//! order and counts, the bucket limit holds, quantiles come from the bucket that holds the asked rank.
use crate::shim::*;
use uddsketch::{verif as v, SketchHashKey as K, UDDSketch, UDDSketchMetadata};

fn any_key() -> K {
    match any_in(0, 3) {
        0 => K::Negative(any_i64()),
        1 => K::Zero,
        2 => K::Positive(any_i64()),
        _ => K::Invalid,
    }
}
/// the real line position of a bucket, as (sign class, magnitude exponent)
fn le(a: K, b: K) -> bool {
    let c = |k: K| match k { K::Negative(_) => 0, K::Zero => 1, K::Positive(_) => 2, K::Invalid => 3 };
    if c(a) != c(b) { return c(a) < c(b) }
    match (a, b) { (K::Negative(x), K::Negative(y)) => x >= y, (K::Positive(x), K::Positive(y)) => x <= y, _ => true }
}
/// spec of one compaction: exponent halves, rounding up; the infinite bucket stays
fn half(i: i64) -> i64 { if i == i64::MAX { i } else { ((i as i128 + 1).div_euclid(2)) as i64 } }
harnesses! {
    fn order_is_value_order() {
        let (a, b) = (any_key(), any_key());
        assert!((a <= b) == le(a, b), "buckets are ordered like the values in them");
        assert!((a == b) == (le(a, b) && le(b, a)), "order agrees with equality");
        assert!((a < b) == !le(b, a), "strict order");
        reach!(a < b && matches!(b, K::Negative(_)), "two negative buckets");
    }
    fn compaction_key() {
        let k = any_key();
        let want = match k { K::Negative(i) => K::Negative(half(i)), K::Positive(i) => K::Positive(half(i)), k => k };
        assert!(v::compact_key(k) == want, "compaction merges bucket pairs (2i-1, 2i) into i");
    }
    fn compaction_keeps_order() {
        let (a, b) = (any_key(), any_key());
        assume(a <= b);
        assert!(v::compact_key(a) <= v::compact_key(b), "compaction reorders buckets");
    }
    // the bucket that holds the asked rank, for any counts and any quantile
    #[kani::unwind(5)]
    fn quantile_rank() {
        let c = [any_in(1, 1 << 20), any_in(1, 1 << 20), any_in(1, 1 << 20)];
        let n = c[0] + c[1] + c[2];
        let q = [0.0, 0.25, 0.5, 0.75, 0.875, 1.0][any_in(0, 5) as usize];
        let b = [(K::Negative(1), c[0]), (K::Zero, c[1]), (K::Positive(1), c[2])];
        let r = uddsketch::estimate_quantile(q, 0.5, 3.0, n, b.into_iter());
        // smallest bucket whose cumulative count exceeds floor(n*q) (the last one if that is the top value)
        let rank = (n as f64 * q) as u64;
        let at = if rank + 1 >= n { 2 } else if rank < c[0] { 0 } else if rank < c[0] + c[1] { 1 } else { 2 };
        assert!((at == 0) == (r < 0.0) && (at == 1) == (r == 0.0) && (at == 2) == (r > 0.0), "quantile from another bucket than the one holding the rank");
        reach!(at == 1, "middle bucket");
    }
}
#[cfg(not(kani))]
mod ex {
    use super::*;
    pub fn val() -> f64 {
        match any_in(0, 5) { 0 => 0.0, 1 => any_f64_small(), 2 => (any_in(1, 100) as f64) * 1.7, 3 => -(any_in(1, 100) as f64),
            4 => (any_in(1, 1000) as f64).exp2().min(1e300) * 1e-100, _ => any_in(1, 20) as f64 }
    }
    pub fn vals(max: u64) -> Vec<f64> { (0..any_in(0, max)).map(|_| val()).collect() }
    pub fn build(vs: &[f64], b: u32, e: f64) -> UDDSketch { let mut s = UDDSketch::new(b, e); for x in vs { s.add_value(*x) } s }
    pub fn content(s: &UDDSketch) -> Vec<(K, u64)> { s.bucket_iter().collect() }
    pub fn compact(mut k: K, n: u8) -> K { for _ in 0..n { k = match k { K::Negative(i) => K::Negative(half(i)), K::Positive(i) => K::Positive(half(i)), k => k } } k }
    /// what the sketch must hold: every value's initial bucket compacted as often as the sketch was
    pub fn want(vs: &[f64], gamma: f64, n: u8) -> Vec<(K, u64)> {
        let mut m = std::collections::BTreeMap::new();
        for x in vs { *m.entry(compact(v::key(*x, gamma), n)).or_insert(0) += 1 }
        m.into_iter().collect()
    }
    pub fn check(s: &UDDSketch, vs: &[f64], b: u32, e: f64) {
        let c = content(s);
        assert!(s.count() == vs.len() as u64 && c.iter().map(|x| x.1).sum::<u64>() == s.count(), "every value is counted once");
        assert!(c.len() == s.current_buckets_count() && c.len() <= b as usize, "bucket limit");
        assert!(c.windows(2).all(|w| w[0].0 < w[1].0), "buckets in increasing order");
        assert!(c.iter().all(|x| x.1 > 0 && x.0 != K::Invalid), "no empty bucket");
        let sum: f64 = vs.iter().sum();
        assert!((s.sum() - sum).abs() <= 1e-9 * vs.iter().map(|x| x.abs()).sum::<f64>() + 1e-300, "sum");
        assert!(s.max_allowed_buckets() == b, "configured limit");
        let mut a = e;
        for _ in 0..s.times_compacted() { a = 2.0 * a / (1.0 + a * a) }
        assert!((s.max_error() - a).abs() < 1e-12, "error after the compactions");
    }
    pub const ERR: [f64; 4] = [0.001, 0.01, 0.1, 0.4];
}
executed! {
    fn key_error_bound() {
        // the value of a bucket is within the relative error of every value in it
        let (a, x) = (ex::ERR[any_in(0, 3) as usize], any_f64_small());
        let x = x * (1u64 << any_in(0, 40)) as f64;
        let g = uddsketch::gamma(a);
        let k = v::key(x, g);
        assert!(matches!((k, x == 0.0, x < 0.0), (K::Zero, true, _) | (K::Negative(_), false, true) | (K::Positive(_), false, false)), "bucket sign");
        let r = v::bucket_to_value(a, g, k);
        assert!((r - x).abs() <= a * x.abs() * (1.0 + 1e-6), "bucket value outside the relative error");
    }
    fn add_history() {
        use ex::*;
        let (vs, b, e) = (vals(80), any_in(7, 30) as u32, ERR[any_in(0, 3) as usize]);
        let s = build(&vs, b, e);
        check(&s, &vs, b, e);
        if s.times_compacted() < 8 {
            assert!(content(&s) == want(&vs, uddsketch::gamma(e), s.times_compacted()), "buckets after adding values");
        }
        // fewest compactions that satisfy the limit
        assert!(s.times_compacted() == 0 || s.times_compacted() > 8 || want(&vs, uddsketch::gamma(e), s.times_compacted() - 1).len() > b as usize, "compacted more than needed");
    }
    fn merge_history() {
        use ex::*;
        let (b, e) = (any_in(7, 30) as u32, ERR[any_in(0, 3) as usize]);
        let (x, y) = (vals(60), vals(if any_bool() { 6 } else { 60 }));
        let all: Vec<f64> = x.iter().chain(&y).copied().collect();
        let (s, t) = (build(&x, b, e), build(&y, b, e));
        let (mut m, mut n) = (s.clone(), s.clone());
        if s.max_error() > 0.999 || t.max_error() > 0.999 { return }
        m.merge_sketch(&t);
        let (keys, counts): (Vec<K>, Vec<u64>) = t.bucket_iter().unzip();
        let meta = |t: &UDDSketch| UDDSketchMetadata { max_buckets: b, current_error: t.max_error(), compactions: t.times_compacted(), values: t.count(), sum: t.sum(), buckets: t.current_buckets_count() as u32 };
        n.merge_items(&meta(&t), keys.iter().copied(), counts.iter().copied());
        for r in [&m, &n] {
            check(r, &all, b, e);
            if r.times_compacted() < 8 { assert!(content(r) == want(&all, uddsketch::gamma(e), r.times_compacted()), "merge differs from adding all values"); }
        }
        assert!(content(&m) == content(&n), "two ways to merge differ");
        let r = UDDSketch::new_from_data(&meta(&t), keys.into_iter(), counts.into_iter());
        assert!(content(&r) == content(&t) && r.count() == t.count() && r.times_compacted() == t.times_compacted(), "restored from parts");
    }
    fn quantiles() {
        use ex::*;
        let (b, e) = (any_in(60, 200) as u32, ERR[any_in(0, 2) as usize]);
        let mut vs = vals(40);
        vs.push(val());
        let s = build(&vs, b, e);
        vs.sort_by(|a, b| a.partial_cmp(b).unwrap());
        let n = vs.len();
        let q = any_in(0, 1000) as f64 / 1000.0;
        let rank = ((n as f64 * q) as usize).min(n - 1);
        let r = s.estimate_quantile(q);
        assert!((r - vs[rank]).abs() <= s.max_error() * vs[rank].abs() * (1.0 + 1e-6), "quantile outside the relative error of the value at its rank");
        let x = vs[any_in(0, n as u64 - 1) as usize];
        let p = s.estimate_quantile_at_value(x);
        let below = vs.iter().filter(|y| **y < x && v::key(**y, uddsketch::gamma(s.max_error())) != v::key(x, uddsketch::gamma(s.max_error()))).count() as f64;
        let above = vs.iter().filter(|y| **y > x && v::key(**y, uddsketch::gamma(s.max_error())) != v::key(x, uddsketch::gamma(s.max_error()))).count() as f64;
        let mid = (below + (n as f64 - above)) / 2.0 / n as f64;
        assert!(s.times_compacted() > 0 || (p - mid).abs() < 1e-9, "rank of a stored value");
        assert!(s.estimate_quantile_at_value(1e301) == 1.0 || vs[n - 1] > 1e299, "rank above everything");
        assert!(s.estimate_quantile_at_value(-1e301) == 0.0, "rank below everything");
        assert!((s.mean() - s.sum() / n as f64).abs() <= 1e-12 * s.mean().abs(), "mean");
    }
}
