//! C02: the hyperloglog aggregates of SQL: any history has, for every register, the largest rank among the values.
use crate::shim::*;

harnesses! {}

#[cfg(not(kani))]
pub mod ex {
    use super::*;
    use crate::{pgstub::{fcinfo, text}, sql::*};
    use pgrx::{pg_sys::Datum, Internal};
    use timescaledb_toolkit::hyperloglog::{verif as v, *};
    #[derive(Clone, PartialEq, Debug)]
    pub enum Val { I(i64), F(f64), T(String) }
    pub fn oid(k: u64) -> u32 { [20, 701, 25][k as usize] }
    pub fn val(k: u64, wide: bool) -> Val {
        let i = any_in(0, if wide { 1 << 40 } else { 60 }) as i64 - 30;
        match k { 0 => Val::I(i), 1 => Val::F(if any_in(0, 5) == 0 { [0.0, -0.0, f64::INFINITY][any_in(0, 2) as usize] } else { i as f64 / 3.0 }), _ => Val::T(format!("{}{i}", "é".repeat(any_in(0, 1) as usize * 60))) }
    }
    pub fn datum(x: &Val) -> Datum { match x { Val::I(i) => Datum::from(*i), Val::F(f) => Datum::from(f.to_bits()), Val::T(s) => text(s) } }
    fn raw(x: &Val, k: u64) -> timescaledb_toolkit::verif::RawAnyElement { timescaledb_toolkit::verif::RawAnyElement::from(elem(datum(x), oid(k)).datum()) }
    /// with that size, or approx_count_distinct
    pub fn trans(s: Internal, size: Option<i32>, x: Option<&Val>, k: u64) -> Option<Internal> {
        let e = x.map(|x| raw(x, k));
        match size { Some(n) => hyperloglog_trans(s, n, e, fcinfo(&[0, 23, oid(k)])), None => approx_count_distinct_trans(s, e, fcinfo(&[0, oid(k)])) }
    }
    pub fn moved(s: Internal) -> Option<Internal> { hyperloglog_deserialize(hyperloglog_serialize(s), none()) }
    pub fn agg(rows: &[Option<Val>], size: Option<i32>, k: u64) -> Option<Internal> {
        history(rows, &Agg {
            trans: &|s, x: &Option<Val>| trans(s, size, x.as_ref(), k),
            combine: &|x, y| hyperloglog_combine(x, y, NUL),
            moved: &moved,
            fin: &|s| { v::fin(s); },
            strict: true,
        })
    }
    pub fn prec(size: Option<i32>) -> u8 { (4..=18).find(|p| 1i64 << p >= size.unwrap_or(32768) as i64).unwrap() }
    pub fn get(b: &[u8], p: u8) -> Vec<u8> { (0..1usize << p).map(|i| { let bit = i * 6; let w = (b[bit / 8] as u32) << 8 | *b.get(bit / 8 + 1).unwrap_or(&0) as u32; (w >> (10 - bit % 8) & 63) as u8 }).collect() }
    /// the registers of a sketch of one value: a single one is not zero
    pub fn single(x: &Val, size: Option<i32>, k: u64) -> (usize, u8) {
        let (p, _, _, _, b) = v::parts(&v::fin(st(trans(none(), size, Some(x), k))).unwrap());
        let r = get(&b, p);
        let at: Vec<usize> = (0..r.len()).filter(|i| r[*i] > 0).collect();
        assert!(at.len() == 1, "one value is in {} registers", at.len());
        (at[0], r[at[0]])
    }
    pub fn distinct(vs: &[Val]) -> Vec<Val> { let mut d: Vec<Val> = vec![]; for x in vs { if !d.contains(x) { d.push(x.clone()) } } d }
    pub fn check(h: HyperLogLog<'static>, vs: &[Val], size: Option<i32>, k: u64) {
        let h = match any_in(0, 2) { 0 => h, 1 => stored(h), _ => through_text(h) };
        let h = || Clone::clone(&h);
        let (p, sparse, ty, coll, b) = v::parts(&h());
        assert!(p == prec(size) && ty == oid(k) && coll == 0, "precision {p}, type {ty}, collation {coll}");
        let set = distinct(vs);
        let mut want = vec![0u8; 1 << p];
        for x in &set { let (i, r) = single(x, size, k); want[i] = want[i].max(r) }
        assert!(get(&b, p) == want, "registers of {} distinct values, {}", set.len(), if sparse { "sparse" } else { "dense" });
        let (n, c) = (set.len() as f64, hyperloglog_count(h()));
        assert!(arrow_hyperloglog_count(h(), acc0!(AccessorDistinctCount)) == c, "-> distinct_count");
        if sparse { assert!((c as f64 - n).abs() <= 1.0 + 0.01 * n, "{n} distinct values, estimated {c}") }
        else { assert!(c == v::dense_count(&b, p), "estimate of a dense sketch") }
        let e = hyperloglog_error(h());
        assert!((e - 1.04 / (1u64 << p).isqrt() as f64).abs() <= 0.5 * e && (e * e * (1u64 << p) as f64 - 1.04 * 1.04).abs() < 1e-9, "stderror");
        assert!(arrow_hyperloglog_error(h(), acc0!(AccessorStderror)) == e, "-> stderror");
    }
    pub fn size() -> Option<i32> { match any_in(0, 9) { 0 => None, 1 => Some(any_in(16, [1 << 12, 1 << 12, 1 << 16, 1 << 18][any_in(0, 3) as usize]) as i32), _ => Some(any_in(16, 200) as i32) } }
}

executed! {
    fn aggregate() {
        use ex::*;
        use crate::sql::*;
        let (size, k, wide) = (size(), any_in(0, 2), any_bool());
        let rows: Vec<Option<Val>> = (0..any_in(0, [10, 10, 200, 200, 200, 200, 200, 900][any_in(0, 7) as usize])).map(|_| if any_in(0, 9) == 0 { None } else { Some(val(k, wide)) }).collect();
        let vs: Vec<Val> = rows.iter().flatten().cloned().collect();
        match timescaledb_toolkit::hyperloglog::verif::fin(st(agg(&rows, size, k))) {
            None => assert!(vs.is_empty(), "no sketch of {} values", vs.len()),
            Some(h) => { assert!(!vs.is_empty(), "sketch of nothing"); check(h, &vs, size, k) }
        }
    }
    fn rollup() {
        use ex::*;
        use crate::sql::*;
        use timescaledb_toolkit::hyperloglog::{verif as v, *};
        let (size, k, wide) = (size(), any_in(0, 2), any_bool());
        let groups: Vec<Vec<Val>> = (0..any_in(0, 6)).map(|_| (0..any_in(0, if any_bool() { 6 } else { 70 })).map(|_| val(k, wide)).collect()).collect();
        let of = |g: &Vec<Val>| v::fin(st(agg(&g.iter().map(|x| Some(x.clone())).collect::<Vec<_>>(), size, k))).map(|h| if any_bool() { stored(h) } else { h });
        let s = history(&groups, &Agg {
            trans: &|s, g| hyperloglog_union(s, of(g), NUL),
            combine: &|x, y| hyperloglog_combine(x, y, NUL),
            moved: &moved,
            fin: &|s| { v::fin(s); },
            strict: true,
        });
        let vs = groups.concat();
        match v::fin(st(s)) {
            None => assert!(vs.is_empty(), "no sketch of {} values", vs.len()),
            Some(h) => { assert!(!vs.is_empty(), "sketch of nothing"); check(h, &vs, size, k) }
        }
    }
    fn refused() {
        use ex::*;
        use crate::sql::*;
        use timescaledb_toolkit::hyperloglog::{verif as v, *};
        let x = val(0, true);
        let n = [any_in(0, 1 << 20) as i32, any_in(0, 40) as i32 - 20, any_i32()][any_in(0, 2) as usize];
        // rounded up to a power of two between 16 and 262144
        let fits = (9..=262144).contains(&n);
        if fits { assert!(v::parts(&v::fin(st(trans(none(), Some(n), Some(&x), 0))).unwrap()).0 == prec(Some(n)), "precision") }
        else { assert!(errs(|| { trans(none(), Some(n), Some(&x), 0); }), "size {n} is accepted") }
        let one = |k: u64| v::fin(st(trans(none(), Some(64), Some(&val(k, true)), k))).unwrap();
        let (a, b) = (any_in(0, 2), any_in(0, 2));
        assert!(errs(|| { let s = hyperloglog_union(none(), Some(one(a)), NUL); hyperloglog_union(st(s), Some(one(b)), NUL); }) == (a != b), "union of sketches of types {} and {}", oid(a), oid(b));
    }
    fn from_many_at_once() {
        use ex::*;
        let (size, k, wide) = (any_in(16, 200) as i32, any_in(0, 2), any_bool());
        let vs: Vec<Val> = (0..any_in(1, 60)).map(|_| val(k, wide)).collect();
        check(timescaledb_toolkit::hyperloglog::verif::build_from(size, oid(k), vs.iter().map(datum).collect()), &vs, Some(size), k);
    }
    fn many() {
        use ex::*;
        use crate::sql::*;
        let p = any_in(12, 18);
        let size = any_in((1 << (p - 1)) + 1, 1 << p) as i32;
        // at least that many distinct values; as many as fit in a sparse sketch of this size, and a few more
        let m = any_in(0, (1 << p) / 16);
        let vs: Vec<Val> = (0..m as i64).map(|i| Val::I(i * 7919 + any_in(0, 3) as i64)).collect();
        let rows: Vec<Option<Val>> = vs.iter().cloned().map(Some).collect();
        match timescaledb_toolkit::hyperloglog::verif::fin(st(agg(&rows, Some(size), 0))) {
            None => assert!(m == 0, "no sketch of {m} values"),
            Some(h) => {
                let h = if any_bool() { stored(h) } else { h };
                let h = || Clone::clone(&h);
                let (c, e) = (timescaledb_toolkit::hyperloglog::hyperloglog_count(h()), timescaledb_toolkit::hyperloglog::hyperloglog_error(h()));
                assert!((e * e * (1u64 << p) as f64 - 1.04 * 1.04).abs() < 1e-9, "stderror of a sketch of {size} registers");
                let (_, sparse, _, _, _) = timescaledb_toolkit::hyperloglog::verif::parts(&h());
                assert!((c as f64 - m as f64).abs() <= 3.0 + if sparse { 0.01 } else { 6.0 * e } * m as f64, "{m} distinct values, estimated {c}");
            }
        }
    }
    fn dense_any_registers() {
        use ex::*;
        use timescaledb_toolkit::hyperloglog::verif as v;
        let p = any_in(4, 9) as u8;
        let n = 1usize << p;
        let (hi, lo) = (any_in(0, 64 - p as u64), any_bool());
        let r: Vec<u64> = (0..n).map(|_| any_in(if lo { hi / 2 } else { hi }, hi)).collect();
        let mut b = vec![0u8; 1 + n * 6 / 8];
        for (i, x) in r.iter().enumerate() { for j in 0..6 { let at = i * 6 + j; b[at / 8] |= ((x >> (5 - j) & 1) as u8) << (7 - at % 8); } }
        let h = || v::of_dense(p, oid(0), &b);
        let c = timescaledb_toolkit::hyperloglog::hyperloglog_count(h());
        assert!(c == v::dense_count(&b, p), "estimate {c} of a dense sketch");
        // far from the small range: the harmonic mean of the registers
        let z: f64 = r.iter().map(|x| 1.0 / (1u64 << x) as f64).sum();
        let alpha = match p { 4 => 0.673, 5 => 0.697, 6 => 0.709, _ => 0.7213 / (1.0 + 1.079 / n as f64) };
        let e = alpha * (n * n) as f64 / z;
        if e > 5.0 * n as f64 && e < 9.0e18 { assert!((c as f64 - e).abs() <= 1.0 + 1e-9 * e, "estimate {c}, harmonic mean {e}") }
    }
}
