//! C05: t-digest: count, extremes and total weight are exact whatever the order and grouping of the input;
//! quantiles and ranks stay inside the data.
use crate::shim::*;
use tdigest::{Builder, Centroid, TDigest};

fn weight(d: &TDigest) -> u64 { let mut w = 0; for c in d.raw_centroids() { w += c.weight() } w }
fn ordered(d: &TDigest) -> bool { let c = d.raw_centroids(); let mut i = 1; while i < c.len() { if c[i - 1].mean() > c[i].mean() { return false } i += 1 } true }
fn fin() -> f64 { let v = any_f64(); assume(v.is_finite() && v.abs() < 1e300); v }
fn two(a: f64, b: f64, wa: u64, wb: u64, lo: f64, hi: f64) -> TDigest {
    TDigest::new(vec![Centroid::new(a, wa), Centroid::new(b, wb)], 0.0, wa + wb, hi, lo, 10)
}
harnesses! {
    #[kani::unwind(6)]
    #[kani::stub(std::vec::Vec::push, crate::stubs::push)]
    fn merge_sorted_conserves() {
        let (a, b, c) = (any_f64_small(), any_f64_small(), any_f64_small());
        assume(a <= b && b <= c);
        let d = TDigest::new_with_size(2).merge_sorted(vec![a, b, c]);
        assert!(d.count() == 3 && weight(&d) == 3, "every value is counted once");
        assert!(d.min() == a && d.max() == c, "extremes are exact");
        assert!(d.max_size() == 2, "size parameter");
    }
    fn centroid_add() {
        let (m, w, n) = (any_f64_tiny(), any_in(1, 4), any_in(0, 4));
        let s = any_f64_tiny();
        let mut c = Centroid::new(m, w);
        let t = c.add(s, n);
        assert!(c.weight() == w + n, "weights add");
        assert!(t == s + m * w as f64 && c.mean() == t / (w + n) as f64, "mean of the union");
    }
    #[kani::unwind(5)]
    fn quantile_ends() {
        let (lo, a, b, hi) = (fin(), fin(), fin(), fin());
        assume(lo <= a && a <= b && b <= hi);
        let d = two(a, b, any_in(1, 100), any_in(1, 100), lo, hi);
        assert!(d.estimate_quantile(1.0) == hi && d.estimate_quantile(0.0) == lo, "ends of the quantile function are the extremes");
        assert!(TDigest::new_with_size(10).estimate_quantile(0.5) == 0.0, "empty digest");
    }
    #[kani::unwind(5)]
    fn quantile_inside() {
        let v = [any_f64_tiny(), any_f64_tiny(), any_f64_tiny(), any_f64_tiny()];
        assume(v[0] <= v[1] && v[1] <= v[2] && v[2] <= v[3]);
        let d = two(v[1], v[2], 2, if any_bool() { 1 } else { 2 }, v[0], v[3]);
        let q = [0.375, 0.5, 0.75, 0.9375][any_in(0, 3) as usize];
        let x = d.estimate_quantile(q);
        assert!(v[0] <= x && x <= v[3], "quantile outside the data");
    }
    #[kani::unwind(5)]
    fn rank_inside() {
        let v = [any_f64_tiny(), any_f64_tiny(), any_f64_tiny(), any_f64_tiny()];
        assume(v[0] <= v[1] && v[1] <= v[2] && v[2] <= v[3]);
        let d = two(v[1], v[2], 2, if any_bool() { 1 } else { 2 }, v[0], v[3]);
        let x = any_f64_tiny();
        let r = d.estimate_quantile_at_value(x);
        assert!(0.0 <= r && r <= 1.0, "rank outside [0, 1]");
        assert!(x >= v[0] || r == 0.0, "rank below the minimum");
        assert!(x <= v[3] || r == 1.0, "rank above the maximum");
    }
}
#[cfg(not(kani))]
mod ex {
    use super::*;
    pub fn val() -> f64 { match any_in(0, 3) { 0 => any_f64_small(), 1 => any_in(0, 1000) as f64, 2 => -(any_in(0, 50) as f64), _ => any_in(0, 5) as f64 * 1e6 } }
    pub fn vals(max: u64) -> Vec<f64> { (0..any_in(0, max)).map(|_| val()).collect() }
    pub fn check(d: &TDigest, vs: &[f64], size: usize) {
        let mut s = vs.to_vec();
        s.sort_by(|a, b| a.partial_cmp(b).unwrap());
        assert!(d.count() == s.len() as u64 && weight(d) == d.count(), "every value is counted once");
        assert!(d.is_empty() == s.is_empty(), "emptiness");
        assert!(d.max_size() == size, "size parameter");
        if s.is_empty() { return }
        let (lo, hi) = (s[0], s[s.len() - 1]);
        assert!(d.min() == lo && d.max() == hi, "extremes are exact");
        assert!(ordered(d), "centroids in order");
        assert!(d.raw_centroids().iter().all(|c| lo <= c.mean() && c.mean() <= hi && c.weight() > 0), "centroid outside the data");
        assert!(d.num_buckets() == d.raw_centroids().len() && d.num_buckets() <= size + 1, "bucket limit");
        let t: f64 = s.iter().sum();
        let m: f64 = s.iter().map(|x| x.abs()).sum();
        assert!((d.sum() - t).abs() <= 1e-9 * m, "sum");
        assert!((d.mean() - t / s.len() as f64).abs() <= 1e-9 * m, "mean");
        let cs: f64 = d.raw_centroids().iter().map(|c| c.mean() * c.weight() as f64).sum();
        assert!((cs - t).abs() <= 1e-9 * m, "centroids hold the sum");
        assert!(d.estimate_quantile(0.0) == lo && d.estimate_quantile(1.0) == hi, "quantile ends");
        let mut last = lo;
        for i in 0..=40 {
            let q = d.estimate_quantile(i as f64 / 40.0);
            assert!(lo <= q && q <= hi, "quantile outside the data");
            assert!(q >= last - 1e-9 * (hi - lo), "quantiles decrease");
            last = q;
        }
        let mut last = 0.0;
        for i in 0..=20 {
            let x = lo + (hi - lo) * (i as f64 / 20.0);
            let r = d.estimate_quantile_at_value(if i == 20 { hi } else { x });
            assert!((0.0..=1.0).contains(&r), "rank outside [0, 1]");
            assert!(r >= last - 1e-9, "ranks decrease");
            last = r;
        }
        assert!(d.estimate_quantile_at_value(lo - 1.0) == 0.0 && d.estimate_quantile_at_value(hi + 1.0) == 1.0, "rank outside the data");
        // accuracy: no centroid but the first and last may hold more than its share of the ranks
        if s.len() >= 4 * size && size >= 20 {
            let i = any_in(0, 20) as f64 / 20.0;
            let q = d.estimate_quantile(i);
            let (a, b) = (s.iter().filter(|x| **x < q).count() as f64, s.iter().filter(|x| **x <= q).count() as f64);
            let n = s.len() as f64;
            let slack = 5.0 * n / size as f64 + 2.0;
            assert!(a - slack <= i * n && i * n <= b + slack, "quantile estimate has the wrong rank");
        }
    }
    pub fn built(vs: &[f64], size: usize) -> Builder { let mut b = Builder::with_size(size); for x in vs { b.push(*x) } b }
}
executed! {
    fn add_history() {
        use ex::*;
        let (vs, size) = (vals(if any_bool() { 20 } else { 300 }), any_in(1, 40) as usize);
        check(&built(&vs, size).build(), &vs, size);
    }
    fn merge_builders() {
        use ex::*;
        let size = any_in(1, 40) as usize;
        let (x, y, z) = (vals(if any_bool() { 5 } else { 120 }), vals(if any_bool() { 5 } else { 120 }), vals(30));
        let mut a = built(&x, size);
        a.merge(built(&y, size));
        for v in &z { a.push(*v) }
        let all: Vec<f64> = x.iter().chain(&y).chain(&z).copied().collect();
        check(&a.build(), &all, size);
    }
    fn merge_many() {
        use ex::*;
        let size = any_in(1, 40) as usize;
        let n = any_in(1, 9);
        let parts: Vec<Vec<f64>> = (0..n).map(|_| vals(if any_bool() { 3 } else { 60 })).collect();
        let d = TDigest::merge_digests(parts.iter().map(|p| built(p, size).build()).collect());
        check(&d, &parts.concat(), size);
    }
    fn merge_sorted_and_unsorted() {
        use ex::*;
        let size = any_in(1, 40) as usize;
        let (x, y, mut z) = (vals(60), vals(60), vals(60));
        z.sort_by(|a, b| a.partial_cmp(b).unwrap());
        let d = TDigest::new_with_size(size).merge_unsorted(x.clone()).merge_unsorted(y.clone()).merge_sorted(z.clone());
        check(&d, &[x, y, z].concat(), size);
    }
    fn rebuilt_from_parts() {
        use ex::*;
        let size = any_in(2, 40) as usize;
        let vs = vals(100);
        let d = built(&vs, size).build();
        let small = any_in(1, size as u64) as usize;
        let r = TDigest::new(d.raw_centroids().to_vec(), d.sum(), d.count(), d.max(), d.min(), small);
        if d.num_buckets() <= small { assert!(r.raw_centroids() == d.raw_centroids(), "kept as they are"); }
        check(&r, &vs, small);
    }
}
