//! C02: HyperLogLog: registers are pointwise maxima, so order, duplicates, merge grouping and the
//! sparse/dense representation cannot matter.
use crate::shim::*;
use hyperloglogplusplus::{dense, dense::verif as dv, registers::Registers, sparse, sparse::verif as sv, verif as lv};
use hyperloglogplusplus::{HyperLogLog, HyperLogLogStorage};

/// registers of one 4-register block, read independently of the code: 6-bit big-endian fields
fn reg(b: &[u8], i: usize) -> u8 {
    let bit = i * 6;
    let w = ((b[bit / 8] as u16) << 8) | (if bit / 8 + 1 < b.len() { b[bit / 8 + 1] as u16 } else { 0 });
    ((w >> (10 - bit % 8)) & 0x3f) as u8
}
fn any_regs() -> [u8; 13] {
    let mut b = [0xffu8; 13];
    let mut i = 0;
    while i < 12 { b[i] = any_u8(); i += 1; }
    b
}
/// spec: index and rank of a hash at precision p, straight from the definition
fn spec(hash: u64, p: u8) -> (usize, u8) {
    let idx = (hash >> (64 - p)) as usize;
    let rest = hash << p;
    let rank = if rest == 0 { 64 - p } else { rest.leading_zeros() as u8 } + 1;
    (idx, rank)
}
harnesses! {
    // every hash, every precision: dense and sparse derive the same register and rank from a hash
    fn rank_dense_is_spec() {
        let (h, p) = (any_u64(), any_in(4, 18) as u8);
        let s = dense::Storage::from_parts(&[], p);
        assert!(dv::idx_count_from_hash(&s, h) == spec(h, p), "dense register and rank of a hash");
        reach!(p == 18, "largest precision");
    }
    fn rank_sparse_is_spec() {
        let (h, p) = (any_u64(), any_in(4, 18) as u8);
        let s = dense::Storage::from_parts(&[], p);
        let e = lv::from_hash(h, p);
        assert!(dv::idx_count_from_encoded(&s, e) == spec(h, p), "register and rank after the sparse encoding");
        assert!(e.idx() == (h >> 39) as u32, "sparse index is the 25 leading bits");
        reach!(sv::bits(e) & 1 == 1, "encoding with a count");
    }
    // two encodings with one index: the one with the greater rank is kept; order is by index first
    fn sparse_order() {
        let (g, h, p) = (any_u64(), any_u64(), any_in(4, 18) as u8);
        let (a, b) = (lv::from_hash(g, p), lv::from_hash(h, p));
        if a.idx() != b.idx() {
            assert!((a < b) == (a.idx() < b.idx()) && a != b, "sorted by index");
        } else {
            let (ra, rb) = (spec(g, p).1, spec(h, p).1);
            assert!((a < b) == (ra > rb) && (a == b) == (ra == rb), "same index: greatest rank first");
            assert!((a.count(25) < b.count(25)) == (ra < rb), "ranks of one index compare as ranks at full width");
            reach!(ra > rb, "different ranks");
        }
    }
    // set_max on any register contents: only the addressed register changes, and it becomes the maximum
    #[kani::unwind(17)]
    fn registers_set_max() {
        let b = any_regs();
        let (i, v, j) = (any_in(0, 15) as usize, any_in(0, 63) as u8, any_in(0, 15) as usize);
        let mut r = Registers::from_raw(&b);
        r.set_max(i, v);
        let out = r.bytes();
        assert!(out.len() == 13 && out[12] == 0xff, "padding byte");
        let want = if j == i && v > reg(&b, j) { v } else { reg(&b, j) };
        assert!(reg(out, j) == want, "set_max is a pointwise maximum");
        reach!(j == i && v > reg(&b, j), "register raised");
    }
    #[kani::unwind(17)]
    fn registers_merge() {
        let (a, b) = (any_regs(), any_regs());
        let m = Registers::merge(&Registers::from_raw(&a), &Registers::from_raw(&b));
        let j = any_in(0, 15) as usize;
        let (x, y) = (reg(&a, j), reg(&b, j));
        assert!(reg(m.bytes(), j) == if x > y { x } else { y }, "merge is the pointwise maximum");
        assert!(m.bytes().len() == 13, "merge keeps the size");
    }
    #[kani::unwind(17)]
    fn registers_iter() {
        let a = any_regs();
        let r = Registers::from_raw(&a);
        let mut zero = 0;
        let mut i = 0;
        for v in r.iter() { assert!(v == reg(&a, i), "iteration order"); if v == 0 { zero += 1; } i += 1; }
        assert!(i == 16, "all registers are visited");
        assert!(r.count_zeroed_registers() == zero, "zero registers");
    }
    #[kani::unwind(17)]
    fn dense_add_hash() {
        let a = any_regs();
        let h = any_u64();
        let mut s = dense::Storage::from_parts(&a, 4);
        let mut t = dense::Storage::from_parts(&a, 4);
        s.add_hash(h);
        t.add_encoded(lv::from_hash(h, 4));
        let (i, v) = spec(h, 4);
        let j = any_in(0, 15) as usize;
        let want = if j == i && v > reg(&a, j) { v } else { reg(&a, j) };
        assert!(reg(s.registers.bytes(), j) == want, "adding a hash raises its register to its rank");
        assert!(reg(t.registers.bytes(), j) == want, "adding the sparse form does the same");
    }
    // the compressed list gives back what was put in, in order
    #[kani::unwind(11)]
    #[kani::stub(std::vec::Vec::push, crate::stubs::push)]
    fn sparse_list_two() {
        let (x, y) = (any_in(0, 150) as u32, any_in(0, 150) as u32);
        let (c, n) = sv::compress(&[sv::raw(x), sv::raw(y)]);
        assert!(n == 2, "number compressed");
        assert!(sv::decompress(&c, 0) == Some(sv::raw(x)), "first");
        assert!(sv::decompress(&c, 1) == Some(sv::raw(y)), "second");
        assert!(sv::decompress(&c, 2).is_none(), "end");
    }
}
#[cfg(not(kani))]
#[derive(Clone, Default)]
pub struct Id;
#[cfg(not(kani))]
pub struct IdH(u64);
#[cfg(not(kani))]
impl std::hash::BuildHasher for Id { type Hasher = IdH; fn build_hasher(&self) -> IdH { IdH(0) } }
#[cfg(not(kani))]
impl std::hash::Hasher for IdH { fn finish(&self) -> u64 { self.0 } fn write(&mut self, b: &[u8]) { let mut x = [0; 8]; x.copy_from_slice(&b[..8]); self.0 = u64::from_le_bytes(x) } }
#[cfg(not(kani))]
mod ex {
    use super::*;
    pub type H = HyperLogLog<'static, u64, Id>;
    /// canonical content: dense registers of whatever is stored
    pub fn regs(h: &mut H) -> Vec<u8> {
        h.merge_all();
        match h.to_parts() {
            HyperLogLogStorage::Sparse(s) => s.immutable_to_dense().registers.bytes().to_vec(),
            HyperLogLogStorage::Dense(d) => d.registers.bytes().to_vec(),
        }
    }
    /// hashes that collide often in the index and differ in rank
    pub fn hash(p: u8) -> u64 {
        match any_in(0, 3) {
            0 => any_u64(),
            1 => any_in(0, 40) << 39 | any_in(0, 3) << (any_in(0, 37)),
            2 => any_in(0, (1 << p.min(6)) - 1) << (64 - p) | 1 << any_in(0, 63 - p as u64),
            _ => (any_in(0, 5000) + 1).wrapping_mul(0x9E3779B97F4A7C15),
        }
    }
    pub fn spec_regs(hs: &[u64], p: u8) -> Vec<u8> {
        let mut r = vec![0u8; 1 << p];
        for h in hs { let (i, v) = spec(*h, p); r[i] = r[i].max(v); }
        r
    }
    pub fn unpack(b: &[u8], p: u8) -> Vec<u8> { (0..1 << p).map(|i| reg(b, i)).collect() }
    pub fn build(hs: &[u64], p: u8) -> H { let mut h = H::new(p, Id); for x in hs { h.add(x) } h }
    pub fn hashes(p: u8, max: u64) -> Vec<u64> { (0..any_in(0, max)).map(|_| hash(p)).collect() }
}
executed! {
    fn any_history_is_the_register_maximum() {
        use ex::*;
        let p = any_in(4, 10) as u8;
        let hs = hashes(p, 400);
        let mut h = build(&hs, p);
        assert!(unpack(&regs(&mut h), p) == spec_regs(&hs, p), "registers after adding values");
        let n = h.estimate_count();
        let was_sparse = h.is_sparse();
        for x in &hs { h.add(x) }
        h.merge_all();
        assert!(unpack(&regs(&mut h), p) == spec_regs(&hs, p), "registers after adding duplicates");
        let n2 = h.estimate_count();
        assert!(h.is_sparse() != was_sparse || n2 == n, "duplicates do not change the estimate");
        let n = n2;
        let mut rev = hs.clone();
        rev.reverse();
        let mut r = build(&rev, p);
        r.merge_all();
        assert!(unpack(&regs(&mut r), p) == spec_regs(&hs, p), "order of values");
        assert!(r.is_sparse() != h.is_sparse() || r.estimate_count() == n, "order of values changes the estimate");
    }
    fn merge_is_union() {
        use ex::*;
        let p = any_in(4, 10) as u8;
        let (x, y) = (hashes(p, if any_bool() { 30 } else { 300 }), hashes(p, if any_bool() { 30 } else { 300 }));
        let (mut a, mut b) = (build(&x, p), build(&y, p));
        b.merge_all();
        a.merge_all();
        let mut c = b.clone();
        c.merge_in(&a);
        a.merge_in(&b);
        let all: Vec<u64> = x.iter().chain(&y).copied().collect();
        assert!(unpack(&regs(&mut a), p) == spec_regs(&all, p), "merge is the union");
        assert!(unpack(&regs(&mut c), p) == spec_regs(&all, p), "merge is symmetric");
        assert!(a.is_sparse() != c.is_sparse() || a.estimate_count() == c.estimate_count(), "merge order changes the estimate");
    }
    fn merge_into_unflushed() {
        use ex::*;
        let p = any_in(4, 12) as u8;
        let (x, y) = (hashes(p, 60), hashes(p, 60));
        let (mut a, mut b) = (build(&x, p), build(&y, p));
        b.merge_all();
        a.merge_in(&b);
        let more = hashes(p, 20);
        for m in &more { a.add(m) }
        let all: Vec<u64> = x.iter().chain(&y).chain(&more).copied().collect();
        assert!(unpack(&regs(&mut a), p) == spec_regs(&all, p), "merge into a sketch with unflushed values");
    }
    fn stored_form_restores() {
        use ex::*;
        let p = any_in(4, 10) as u8;
        let hs = hashes(p, 200);
        let mut h = build(&hs, p);
        h.merge_all();
        let n = h.estimate_count();
        let mut o = h.into_owned();
        assert!(o.estimate_count() == n, "owned copy");
        match h.to_parts() {
            HyperLogLogStorage::Sparse(s) => {
                let b = s.compressed.bytes().to_vec();
                let mut r: HyperLogLog<u64, Id> = HyperLogLog::from_sparse_parts(&b, s.num_compressed, p, Id);
                assert!(r.is_sparse() && r.immutable_estimate_count() == n, "sparse parts");
                assert!(r.estimate_count() == n, "sparse parts");
            }
            HyperLogLogStorage::Dense(d) => {
                let b = d.registers.bytes().to_vec();
                let r: HyperLogLog<u64, Id> = HyperLogLog::from_dense_parts(&b, p, Id);
                assert!(!r.is_sparse() && r.immutable_estimate_count() == n, "dense parts");
            }
        }
    }
    // copies and restored sketches carry everything added so far, buffered or not, and can be extended like the original
    fn copies_and_restored_extend() {
        use ex::*;
        let p = any_in(4, 10) as u8;
        let (hs, more) = (hashes(p, if any_bool() { 12 } else { 200 }), hashes(p, 40));
        let all: Vec<u64> = hs.iter().chain(&more).copied().collect();
        let (sa, sh) = (spec_regs(&all, p), spec_regs(&hs, p));
        let h = build(&hs, p);
        let mut o = h.into_owned();
        let mut o2 = o.into_owned();
        let mut c = h.clone();
        assert!(unpack(&regs(&mut o2), p) == sh, "copy of a copy");
        for m in &more { o.add(m); c.add(m) }
        assert!(unpack(&regs(&mut o), p) == sa, "owned copy with unflushed values, extended");
        assert!(unpack(&regs(&mut c), p) == sa, "clone with unflushed values, extended");
        let mut q = build(&hs, p);
        let (b, num, sparse) = match q.to_parts() {
            HyperLogLogStorage::Sparse(s) => (s.compressed.bytes().to_vec(), s.num_compressed, true),
            HyperLogLogStorage::Dense(d) => (d.registers.bytes().to_vec(), 0, false),
        };
        let b: &'static [u8] = b.leak();
        let mut r: HyperLogLog<u64, Id> = if sparse { HyperLogLog::from_sparse_parts(b, num, p, Id) } else { HyperLogLog::from_dense_parts(b, p, Id) };
        let mut u = build(&more, p);
        u.merge_all();
        let mut r2 = r.clone();
        r2.merge_in(&u);
        for m in &more { r.add(m) }
        let mut ro = r.into_owned();
        assert!(unpack(&regs(&mut r), p) == sa, "restored from parts, extended");
        assert!(unpack(&regs(&mut ro), p) == sa, "owned copy of a restored and extended sketch");
        assert!(unpack(&regs(&mut r2), p) == sa, "restored from parts, merged with another");
        assert!(unpack(&regs(&mut q), p) == sh, "the original is unchanged by to_parts");
    }
    // the estimate itself: exact for few values in a sparse sketch, within the advertised error otherwise
    fn estimate_quality() {
        use ex::*;
        let p = any_in(8, 12) as u8;
        let n = any_in(0, 3000);
        let base = any_u64();
        let mut h = H::new(p, Id);
        for i in 0..n {
            let mut z = base.wrapping_add((i + 1).wrapping_mul(0x9E3779B97F4A7C15));
            z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
            h.add(&(z ^ (z >> 31)));
        }
        let e = h.estimate_count() as f64;
        let err = hyperloglogplusplus::error_for_precision(p);
        assert!((e - n as f64).abs() <= 7.0 * err * n as f64 + 2.0, "estimate outside seven standard errors");
        assert!((4..=18).all(|q| hyperloglogplusplus::precision_for_error(hyperloglogplusplus::error_for_precision(q) * 1.0001) == q), "precision for the advertised error");
    }
}
