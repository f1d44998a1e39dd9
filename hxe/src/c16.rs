//! C16: freq_agg, mcv_agg, topn.
use crate::shim::*;
#[cfg(not(kani))]
use crate::{pgstub::{fcinfo, text, text_of}, sql::*};
#[cfg(not(kani))]
use timescaledb_toolkit::frequency::{verif::*, *};

harnesses! {}

#[cfg(not(kani))]
mod ex {
    use super::*;
    use pgrx::{pg_sys::FunctionCallInfo, Internal};
    use timescaledb_toolkit::accessors::*;
    type St = Option<Internal>;
    pub type Row = (usize, f64, f64);

    /// one of the three families of SQL functions, over values named by small numbers
    pub trait Fam {
        type Agg: pgrx::IntoDatum + pgrx::FromDatum;
        fn trans(s: Internal, p: Par, v: Option<usize>, f: FunctionCallInfo) -> St;
        fn fin(s: Internal) -> Option<Self::Agg>;
        fn roll(s: Internal, a: Option<Self::Agg>, f: FunctionCallInfo) -> St;
        fn values(a: Self::Agg) -> Vec<Vec<Row>>;
        fn min_max(a: Self::Agg, b: Self::Agg, v: usize) -> Vec<(f64, f64)>;
        fn topn(a: Self::Agg, n: Option<i32>) -> Vec<Vec<usize>>;
    }
    #[derive(Clone, Copy, Debug)]
    pub enum Par { Freq(f64), Mcv(i32, Option<f64>) }

    pub fn num(v: usize) -> i64 { (v as i64) * 3 - 7 }
    pub fn unnum(v: i64) -> usize { let l = ((v + 7) / 3) as usize; assert!(num(l) == v, "a value that was never in the data: {v}"); l }
    pub fn word(v: usize) -> String { format!("w{v}{}", "é".repeat(v % 5)) }
    pub fn unword(s: &str) -> usize { let l = s[1..].trim_end_matches('é').parse().unwrap(); assert!(word(l) == s); l }

    pub struct Big;
    impl Fam for Big {
        type Agg = SpaceSavingBigIntAggregate<'static>;
        fn trans(s: Internal, p: Par, v: Option<usize>, f: FunctionCallInfo) -> St {
            let v = v.map(num);
            match p { Par::Freq(q) => freq_agg_bigint_trans(s, q, v, f), Par::Mcv(n, None) => mcv_agg_bigint_trans(s, n, v, f), Par::Mcv(n, Some(k)) => mcv_agg_with_skew_bigint_trans(s, n, k, v, f) }
        }
        fn fin(s: Internal) -> Option<Self::Agg> { fin_bigint(s) }
        fn roll(s: Internal, a: Option<Self::Agg>, f: FunctionCallInfo) -> St { rollup_agg_bigint_trans(s, a, f) }
        fn values(a: Self::Agg) -> Vec<Vec<Row>> {
            let b = Clone::clone(&a);
            vec![freq_bigint_iter(a).map(|(v, l, h)| (unnum(v), l, h)).collect(), arrow_freq_bigint_iter(b, acc0!(AccessorIntoValues)).map(|(v, l, h)| (unnum(v), l, h)).collect()]
        }
        fn min_max(a: Self::Agg, b: Self::Agg, v: usize) -> Vec<(f64, f64)> {
            let (c, d) = (Clone::clone(&a), Clone::clone(&b));
            vec![(min_bigint_frequency(a, num(v)), max_bigint_frequency(b, num(v))),
                 (arrow_min_bigint_frequency(c, accessor_min_frequency_int(num(v))), arrow_max_bigint_frequency(d, accessor_max_frequency_int(num(v))))]
        }
        fn topn(a: Self::Agg, n: Option<i32>) -> Vec<Vec<usize>> {
            let b = Clone::clone(&a);
            match n {
                Some(n) => vec![topn_bigint(a, n).map(unnum).collect(), arrow_topn_bigint(b, accessor_topn_count(n as i64)).map(unnum).collect()],
                None => vec![default_topn_bigint(a).map(unnum).collect(), arrow_default_topn_bigint(b, acc0!(AccessorTopn)).map(unnum).collect()],
            }
        }
    }
    pub struct Txt;
    impl Fam for Txt {
        type Agg = SpaceSavingTextAggregate<'static>;
        fn trans(s: Internal, p: Par, v: Option<usize>, f: FunctionCallInfo) -> St {
            let v = v.map(|v| RawText(text(&word(v))));
            match p { Par::Freq(q) => freq_agg_text_trans(s, q, v, f), Par::Mcv(n, None) => mcv_agg_text_trans(s, n, v, f), Par::Mcv(n, Some(k)) => mcv_agg_with_skew_text_trans(s, n, k, v, f) }
        }
        fn fin(s: Internal) -> Option<Self::Agg> { fin_text(s) }
        fn roll(s: Internal, a: Option<Self::Agg>, f: FunctionCallInfo) -> St { rollup_agg_text_trans(s, a, f) }
        fn values(a: Self::Agg) -> Vec<Vec<Row>> {
            let b = Clone::clone(&a);
            vec![freq_text_iter(a).map(|(v, l, h)| (unword(&v), l, h)).collect(), arrow_freq_text_iter(b, acc0!(AccessorIntoValues)).map(|(v, l, h)| (unword(&v), l, h)).collect()]
        }
        fn min_max(a: Self::Agg, b: Self::Agg, v: usize) -> Vec<(f64, f64)> {
            let w = RawText(text(&word(v)));
            vec![(min_text_frequency(a, w), max_text_frequency(b, w))]
        }
        fn topn(a: Self::Agg, n: Option<i32>) -> Vec<Vec<usize>> {
            let b = Clone::clone(&a);
            match n {
                Some(n) => vec![topn_text(a, n).map(|v| unword(&v)).collect(), arrow_topn_text(b, accessor_topn_count(n as i64)).map(|v| unword(&v)).collect()],
                None => vec![default_topn_text(a).map(|v| unword(&v)).collect(), arrow_default_topn_text(b, acc0!(AccessorTopn)).map(|v| unword(&v)).collect()],
            }
        }
    }
    pub struct Any<const OID: u32>;
    fn el(oid: u32, v: usize) -> pgrx::AnyElement {
        elem(match oid { 25 => text(&word(v)), 701 => pgrx::pg_sys::Datum::from((num(v) as f64 / 4.0).to_bits()), _ => pgrx::pg_sys::Datum::from(num(v)) }, oid)
    }
    fn unel(oid: u32, e: pgrx::AnyElement) -> usize {
        assert!(e.oid().to_u32() == oid);
        match oid { 25 => unword(&text_of(e.datum())), 701 => unnum((f64::from_bits(e.datum().value() as u64) * 4.0) as i64), _ => unnum(e.datum().value() as i64) }
    }
    impl<const OID: u32> Fam for Any<OID> {
        type Agg = SpaceSavingAggregate<'static>;
        fn trans(s: Internal, p: Par, v: Option<usize>, f: FunctionCallInfo) -> St {
            let v = v.map(|v| el(OID, v));
            match p { Par::Freq(q) => freq_agg_trans(s, q, v, f), Par::Mcv(n, None) => mcv_agg_trans(s, n, v, f), Par::Mcv(n, Some(k)) => mcv_agg_with_skew_trans(s, n, k, v, f) }
        }
        fn fin(s: Internal) -> Option<Self::Agg> { fin(s) }
        fn roll(s: Internal, a: Option<Self::Agg>, f: FunctionCallInfo) -> St { rollup_agg_trans(s, a, f) }
        fn values(a: Self::Agg) -> Vec<Vec<Row>> { vec![freq_iter(a, el(OID, 0)).map(|(v, l, h)| (unel(OID, v), l, h)).collect()] }
        fn min_max(a: Self::Agg, b: Self::Agg, v: usize) -> Vec<(f64, f64)> { vec![(min_frequency(a, el(OID, v)), max_frequency(b, el(OID, v)))] }
        fn topn(a: Self::Agg, n: Option<i32>) -> Vec<Vec<usize>> {
            let ty = if any_bool() { Some(el(OID, 0)) } else { None };
            match n { Some(n) => vec![topn(a, n, ty).map(|v| unel(OID, v)).collect()], None => vec![default_topn(a, ty).map(|v| unel(OID, v)).collect()] }
        }
    }

    /// zeta's distribution function, summed here
    fn zeta_le(s: f64, n: u64) -> f64 {
        let head: f64 = (1..=n).map(|k| (k as f64).powf(-s)).sum();
        // Euler-Maclaurin for the tail
        let m = 64u64.max(n + 1);
        let mid: f64 = (n + 1..m).map(|k| (k as f64).powf(-s)).sum();
        let x = m as f64;
        let tail = x.powf(1.0 - s) / (s - 1.0) + 0.5 * x.powf(-s) + s / 12.0 * x.powf(-s - 1.0) - s * (s + 1.0) * (s + 2.0) / 720.0 * x.powf(-s - 3.0);
        head / (head + mid + tail)
    }

    /// every fact the aggregate states about the rows
    pub fn check<F: Fam>(a: F::Agg, p: Par, rows: &[Option<usize>], single: bool, what: &str) {
        let a = pgrx::IntoDatum::into_datum(a).unwrap();
        let a = || unsafe { <F::Agg as pgrx::FromDatum>::from_datum(a, false).unwrap() };
        let mut truth = std::collections::BTreeMap::new();
        for v in rows.iter().flatten() { *truth.entry(*v).or_insert(0u64) += 1 }
        let total: u64 = truth.values().sum();
        let t = total as f64;
        let lists = F::values(a());
        for l in &lists[1..] { assert!(*l == lists[0], "{what}: the accessor form differs") }
        let list = &lists[0];
        for w in list.windows(2) { assert!(w[0].2 >= w[1].2, "{what}: not in descending order") }
        let mut seen = std::collections::BTreeSet::new();
        let whole = |x: f64| { let c = (x * t).round(); assert!((x * t - c).abs() < 1e-6, "{what}: {x} is not a count over {t}"); c as u64 };
        let mut bounds = vec![];
        for (v, lo, hi) in list {
            assert!(seen.insert(*v), "{what}: value {v} twice");
            let (lo, hi, n) = (whole(*lo), whole(*hi), truth.get(v).copied().unwrap_or(0));
            assert!(lo <= n && n <= hi, "{what}: value {v} occurs {n} times, stated {lo}..{hi}");
            bounds.push(hi);
        }
        let least = bounds.last().copied().unwrap_or(0);
        let room = match p { Par::Freq(f) => 1 + (1.0 / f) as usize, Par::Mcv(n, _) => n as usize };
        if let Par::Freq(f) = p {
            assert!(list.len() <= room, "{what}: {} values tracked with frequency {f}", list.len());
            for (v, n) in &truth { if *n as f64 >= f * t * (1.0 + 1e-9) { assert!(seen.contains(v), "{what}: value {v} has frequency {} and is missing", *n as f64 / t) } }
        }
        assert!(list.len() >= room.min(truth.len()), "{what}: {} of {} values tracked", list.len(), truth.len());
        for (v, n) in &truth { if !seen.contains(v) { assert!(*n <= least, "{what}: missing value {v} occurs {n} times, more than the least tracked {least}") } }
        if list.len() < room || truth.len() <= room {
            for (v, lo, hi) in list { assert!(lo == hi && whole(*lo) == truth[v], "{what}: few values, yet the count of {v} is not exact") }
        }
        if single { assert!(bounds.iter().sum::<u64>() == total, "{what}: upper bounds do not add up to the rows") }
        // frequencies of single values
        for v in [any_in(0, 12) as usize, any_in(0, 12) as usize] {
            let want = list.iter().find(|r| r.0 == v).map(|r| (r.1, r.2)).unwrap_or((0.0, 0.0));
            for got in F::min_max(a(), a(), v) { assert!(got == want, "{what}: frequency of {v}: {got:?} and {want:?}") }
        }
        // the first n
        let n = any_in(1, 7) as i32;
        for n in [Some(n), None] {
            match p {
                Par::Freq(f) => match n {
                    None => assert!(errs(|| { F::topn(a(), None); }), "{what}: topn needs a count"),
                    Some(n) => {
                        let want: Vec<usize> = list.iter().take(n as usize).filter(|r| r.2 >= f).map(|r| r.0).collect();
                        for got in F::topn(a(), Some(n)) { assert!(got == want, "{what}: topn({n}) {got:?}, expected {want:?}") }
                    }
                },
                Par::Mcv(cap, skew) => {
                    let k = n.unwrap_or(cap);
                    if k > cap { assert!(errs(|| { F::topn(a(), n); }), "{what}: topn beyond the parameter"); continue }
                    let need = zeta_le(skew.unwrap_or(1.1), k as u64) * t;
                    let have: u64 = bounds.iter().take(k as usize).sum();
                    if (have as f64 - need).abs() < 1e-3 { continue }
                    if (have as f64) < need { assert!(errs(|| { F::topn(a(), n); }), "{what}: data not skewed enough"); continue }
                    let want: Vec<usize> = list.iter().take(k as usize).map(|r| r.0).collect();
                    for got in F::topn(a(), n) { assert!(got == want, "{what}: topn({n:?}) {got:?}, expected {want:?}") }
                }
            }
        }
    }

    pub fn history<F: Fam>() {
        let f = fcinfo(&[0, 0, 0]);
        let p = if any_bool() { Par::Freq([0.05, 0.1, 0.15, 0.25, 0.3, 0.5, 0.75][any_in(0, 6) as usize]) }
            else { Par::Mcv(any_in(2, 6) as i32, if any_bool() { None } else { Some([1.2, 1.5, 2.0, 3.0][any_in(0, 3) as usize]) }) };
        let n = any_in(1, if any_bool() { 14 } else { 80 }) as usize;
        let (kind, dom) = (any_in(0, 2), any_in(1, 12));
        let mut rows: Vec<Option<usize>> = (0..n).map(|_| {
            if any_in(0, 9) == 0 { return None }
            Some(match kind { 0 => any_in(0, dom) as usize, 1 => { let a = any_in(0, dom); any_in(0, a) as usize } _ => { let mut v = 0; while v < dom && any_in(0, 2) > 0 { v += 1 } v as usize } })
        }).collect();
        if any_in(0, 2) == 0 { rows.sort_by_key(|r| r.map(|v| 100 - v)) }
        if rows.iter().all(|r| r.is_none()) { rows[0] = Some(3) }
        let agg = |rows: &[Option<usize>]| { let mut s = None; for r in rows { s = F::trans(st(s), p, *r, f) } s };
        // one pass; the result is asked for in the middle and twice at the end
        let k = rows.iter().position(|r| r.is_some()).unwrap() + 1;
        let k = k + any_in(0, (n - k) as u64) as usize;
        let d = pgrx::IntoDatum::into_datum(agg(&rows[..k]).unwrap()).unwrap();
        let it = || Internal::from(Some(d));
        check::<F>(F::fin(it()).unwrap(), p, &rows[..k], true, "first rows");
        for r in &rows[k..] { F::trans(it(), p, *r, f); }
        check::<F>(F::fin(it()).unwrap(), p, &rows, true, "one pass");
        // parallel parts, through serialization or not; the parts stay usable
        let (mut whole, mut through) = (None, None);
        for (a, b) in cut(n) {
            let part = agg(&rows[a..b]);
            let again = through.is_some();
            let p1 = part.map(|s| pgrx::IntoDatum::into_datum(s).unwrap());
            let p1 = || Internal::from(p1);
            let bytes = ser(p1());
            let back = space_saving_deserialize(bytes, none());
            assert!(back.is_some() == rows[a..b].iter().any(|r| r.is_some()));
            through = if again || any_bool() { space_saving_combine(st(through), st(back), f) } else { space_saving_combine(st(back), st(through), f) };
            whole = space_saving_combine(st(whole), p1(), f);
            if let Some(x) = F::fin(p1()) { check::<F>(x, p, &rows[a..b], true, "a part after being combined") }
        }
        let (w, t) = (F::fin(st(whole)).unwrap(), F::fin(st(through)).unwrap());
        check::<F>(w, p, &rows, false, "combined parts");
        check::<F>(t, p, &rows, false, "combined serialized parts");
        // rollup of stored aggregates, and then more parts on top of it
        let mut r = None;
        for (a, b) in cut(n) { let x = F::fin(st(agg(&rows[a..b]))).map(stored); r = F::roll(st(r), x, f) }
        let r = pgrx::IntoDatum::into_datum(r.unwrap()).unwrap();
        check::<F>(F::fin(Internal::from(Some(r))).unwrap(), p, &rows, false, "rollup");
        let twice: Vec<_> = rows.iter().chain(rows.iter()).copied().collect();
        let s = space_saving_combine(Internal::from(Some(r)), it(), f);
        let s = { let mut s = s; for r in &rows { s = F::trans(st(s), p, *r, f) } s };
        let thrice: Vec<_> = twice.iter().chain(rows.iter()).copied().collect();
        check::<F>(F::fin(st(s)).unwrap(), p, &thrice, false, "rollup, combined, then more rows");
        assert!(F::fin(none()).is_none() && ser(none()).is_none());
    }
    pub fn cut(n: usize) -> Vec<(usize, usize)> {
        let k = any_in(1, 4) as usize;
        let mut e: Vec<usize> = (1..k).map(|_| any_in(0, n as u64) as usize).chain([0, n]).collect();
        e.sort();
        e.windows(2).map(|w| (w[0], w[1])).collect()
    }
}

executed! {
    fn bigints() { ex::history::<ex::Big>() }
    fn texts() { ex::history::<ex::Txt>() }
    fn any_bigints() { ex::history::<ex::Any<20>>() }
    fn any_texts() { ex::history::<ex::Any<25>>() }
    fn any_floats() { ex::history::<ex::Any<701>>() }
    // parameters outside their range are refused
    fn parameters_refused() {
        let f = fcinfo(&[0, 0, 0]);
        for q in [0.0, 1.0, -0.1, 1.5] { assert!(errs(|| { freq_agg_bigint_trans(none(), q, Some(1), f); })) }
        for n in [0, -1, i32::MIN] { assert!(errs(|| { mcv_agg_bigint_trans(none(), n, Some(1), f); })) }
        for s in [1.0, 0.5, -2.0] { assert!(errs(|| { mcv_agg_with_skew_bigint_trans(none(), 3, s, Some(1), f); })) }
        assert!(freq_agg_bigint_trans(none(), 0.5, None, f).is_none());
    }
}
