//! C03: count-min sketch: adding raises exactly the item's bucket in every row, the estimate is the least of
//! them, combining is elementwise addition; so an estimate is never below the true count.
use crate::shim::*;
use countminsketch::{CountMinHashFn, CountMinSketch};

const D: usize = 2;
const W: usize = 3;
#[cfg(kani)]
mod st {
    use std::hash::Hash;
    /// an arbitrary hash function per row, constrained only to its range (ghost: a fixed table)
    pub static mut TABLE: [[usize; 2]; 3] = [[0; 2]; 3];
    pub static mut WHICH: usize = 0;
    pub fn hash<T: Hash>(f: &countminsketch::CountMinHashFn, _item: &T, nbuckets: usize) -> usize {
        let k = unsafe { *(f as *const _ as *const u64) } as usize;
        let r = unsafe { TABLE[k][WHICH] };
        assert!(r < nbuckets, "hash asked for another number of buckets");
        r
    }
}
fn setup() {
    #[cfg(kani)]
    for k in 0..3 { for w in 0..2 { let b = any_in(0, W as u64 - 1) as usize; unsafe { st::TABLE[k][w] = b } } }
}
/// under Kani the item is a ghost index into the table
fn item(i: usize) -> u8 {
    #[cfg(kani)]
    unsafe { st::WHICH = i }
    i as u8
}
fn any_counters() -> [[i64; W]; D] {
    let mut c = [[0; W]; D];
    for r in 0..D { for b in 0..W { let x = any_i64(); assume(x >= 0 && x < 1 << 40); c[r][b] = x; } }
    c
}
fn sketch(c: &[[i64; W]; D]) -> CountMinSketch {
    CountMinSketch::new(W, D, vec![CountMinHashFn::with_key(1), CountMinHashFn::with_key(2)], vec![c[0].to_vec(), c[1].to_vec()])
}
harnesses! {
    #[kani::unwind(5)]
    #[kani::stub(countminsketch::CountMinHashFn::hash_into_buckets, st::hash)]
    fn add_and_subtract() {
        setup();
        let c = any_counters();
        let mut s = sketch(&c);
        let x = item(0);
        let at = s.get_bucket_indices(x);
        assert!(at.len() == D, "one bucket per row");
        let add = any_bool();
        if add { s.add_value(x) } else { s.subtract_value(x) }
        for r in 0..D { for b in 0..W {
            let d = if b == at[r] { if add { 1 } else { -1 } } else { 0 };
            assert!(s.counters()[r][b] == c[r][b] + d, "exactly the item's bucket changes");
        } }
        assert!(s.width() == W && s.depth() == D, "dimensions");
        reach!(at[0] != at[1], "different buckets");
    }
    #[kani::unwind(5)]
    #[kani::stub(countminsketch::CountMinHashFn::hash_into_buckets, st::hash)]
    fn estimate_is_least() {
        setup();
        let c = any_counters();
        let s = sketch(&c);
        let x = item(0);
        let at = s.get_bucket_indices(x);
        let (a, b) = (c[0][at[0]], c[1][at[1]]);
        let e = s.estimate(x);
        assert!(e == if a < b { a } else { b }, "the estimate is the least of the item's buckets");
        reach!(a != b, "different counts");
    }
    // one step of the guarantee: if no estimate was too low before, adding any item keeps it so
    #[kani::unwind(5)]
    #[kani::stub(countminsketch::CountMinHashFn::hash_into_buckets, st::hash)]
    fn never_underestimates_step() {
        setup();
        let c = any_counters();
        let mut s = sketch(&c);
        let truth = any_i64();
        let x = item(0);
        assume(truth >= 0 && s.estimate(x) >= truth);
        let same = any_bool();
        let y = item(if same { 0 } else { 1 });
        s.add_value(y);
        let x = item(0);
        assert!(s.estimate(x) >= truth + same as i64, "an estimate fell below the true count");
    }
    #[kani::unwind(5)]
    fn combine_adds() {
        let (c, d) = (any_counters(), any_counters());
        let (mut s, t) = (sketch(&c), sketch(&d));
        s.combine(t);
        for r in 0..D { for b in 0..W {
            assert!(s.counters()[r][b] == c[r][b] + d[r][b], "combining adds elementwise");
        } }
        assert!(s.width() == W && s.depth() == D, "dimensions");
    }
    #[kani::unwind(5)]
    fn new_is_empty() {
        let s = CountMinSketch::with_dim(W, D);
        assert!(s.width() == W && s.depth() == D && s.counters().len() == D, "dimensions");
        for r in 0..D { assert!(s.counters()[r].len() == W, "row length"); for b in 0..W { assert!(s.counters()[r][b] == 0, "empty"); } }
        let k = s.hash_keys();
        assert!(k.len() == D && k[0] != k[1], "rows use different hash functions");
    }
}
executed! {
    fn histories() {
        let (e, d) = ([0.9, 0.3, 0.05][any_in(0, 2) as usize], [0.9, 0.3, 0.01][any_in(0, 2) as usize]);
        let mut s = CountMinSketch::with_prob(e, d);
        assert!(s.width() as f64 >= std::f64::consts::E / e && (s.depth() as f64) >= (1.0f64 / d).ln(), "dimensions meet the error bounds");
        let mut parts = [s.clone(), s.clone(), s.clone()];
        let mut truth = std::collections::BTreeMap::new();
        let n = any_in(0, 60);
        for _ in 0..n {
            let x = any_i64();
            *truth.entry(x).or_insert(0i64) += 1;
            s.add_value(x);
            parts[any_in(0, 2) as usize].add_value(x);
        }
        let [mut a, b, c] = parts;
        a.combine(b);
        a.combine(c);
        assert!(a.counters() == s.counters(), "partial sketches combine to the whole");
        for (x, t) in &truth {
            assert!(s.estimate(*x) >= *t && s.estimate(*x) <= n as i64, "estimate below the true count or above the total");
            assert!(s.get_bucket_indices(*x).iter().all(|b| *b < s.width()), "bucket out of range");
        }
        for row in s.counters() { assert!(row.iter().sum::<i64>() == n as i64, "every row counts every item once"); }
        for (x, t) in &truth { for _ in 0..*t { s.subtract_value(*x) } }
        assert!(s.counters().iter().flatten().all(|c| *c == 0), "subtracting everything empties the sketch");
    }
    fn shapes() {
        let (w, d, m) = (any_in(1, 40) as usize, any_in(1, 10) as usize, any_in(1, 30));
        let mut s = CountMinSketch::with_dim(w, d);
        let (mut a, mut b) = (s.clone(), s.clone());
        let mut truth = std::collections::BTreeMap::new();
        let mut model = vec![vec![0i64; w]; d];
        let n = any_in(0, 300);
        for _ in 0..n {
            let (x, minus) = (any_in(0, m), any_in(0, 9) == 0);
            let at = s.get_bucket_indices(x);
            assert!(at.len() == d, "one bucket per row");
            for (r, k) in at.iter().enumerate() { model[r][*k] += if minus { -1 } else { 1 } }
            *truth.entry(x).or_insert(0i64) += if minus { -1 } else { 1 };
            if minus { s.subtract_value(x); a.subtract_value(x) } else { s.add_value(x); if any_bool() { a.add_value(x) } else { b.add_value(x) } }
        }
        assert!(*s.counters() == model, "each item is counted once, in one bucket of each row");
        for (x, _) in &truth {
            let least = s.get_bucket_indices(*x).iter().enumerate().map(|(r, k)| model[r][*k]).min().unwrap();
            assert!(s.estimate(*x) == least, "the estimate is the least of the item's counters");
        }
        a.combine(b);
        assert!(*a.counters() == model, "combine adds the counters");
    }
}
