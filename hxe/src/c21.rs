//! C21: what is stored is what is read back.
use crate::shim::*;

harnesses! {}

#[cfg(not(kani))]
pub mod ex {
    use super::*;
    use crate::sql::*;
    use pgrx::{pg_sys, pg_sys::Datum, FromDatum, InOutFuncs, IntoDatum, Internal};

    pub fn bytes(d: Datum) -> Vec<u8> { unsafe { let p: *const pg_sys::varlena = d.cast_mut_ptr(); std::slice::from_raw_parts(p as *const u8, pgrx::varsize_any(p)).to_vec() } }
    /// the same varlena at an address that is a multiple of four and not of eight
    fn at_four(b: &[u8]) -> Datum {
        let v = vec![0u64; b.len() / 8 + 2].leak();
        unsafe { let p = (v.as_mut_ptr() as *mut u8).add(4); std::ptr::copy_nonoverlapping(b.as_ptr(), p, b.len()); Datum::from(p) }
    }
    /// with a one-byte header, at an odd address
    pub fn short(b: &[u8]) -> Option<Datum> {
        if b.len() - 4 + 1 > 127 { return None }
        let v = vec![0u64; b.len() / 8 + 2].leak();
        unsafe {
            let p = (v.as_mut_ptr() as *mut u8).add(3);
            *p = (((b.len() - 3) << 1) | 1) as u8;
            std::ptr::copy_nonoverlapping(b[4..].as_ptr(), p.add(1), b.len() - 4);
            Some(Datum::from(p))
        }
    }
    pub fn text_out<T: InOutFuncs>(v: &T) -> std::ffi::CString {
        let mut s = pgrx::StringInfo::new();
        v.output(&mut s);
        std::ffi::CString::new(s.as_str().unwrap()).unwrap()
    }
    /// in a table, at any alignment, with any header, and as text
    pub fn kept<T: IntoDatum + FromDatum>(v: T, what: &str) -> Vec<u8> {
        let b = bytes(v.into_datum().unwrap());
        let read = |d: Datum| bytes(unsafe { T::from_datum(d, false) }.unwrap().into_datum().unwrap());
        assert!(read(at_four(&b)) == b, "{what}: stored at a multiple of four");
        let mut eight = vec![0u64; b.len() / 8 + 1];
        let p = eight.as_mut_ptr() as *mut u8;
        unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), p, b.len()) }
        assert!(read(Datum::from(p)) == b, "{what}: stored at a multiple of eight");
        if let Some(d) = short(&b) { assert!(read(d) == b, "{what}: stored with a short header") }
        assert!(unsafe { T::from_datum(Datum::from(0usize), true) }.is_none());
        b
    }
    pub fn texted<T: IntoDatum + FromDatum + InOutFuncs>(v: T, what: &str) {
        let b = kept(v, what);
        let t = text_out(&unsafe { T::from_datum(at_four(&b), false) }.unwrap());
        let r = quiet(|| T::input(&t)).unwrap_or_else(|| panic!("{what}: its own text {t:?} is refused"));
        let t2 = text_out(&r);
        assert!(bytes(r.into_datum().unwrap()) == b && t2 == t, "{what}: the text {t:?} means another value");
    }
    /// as `texted`, for a value that holds another one: the header of the one inside has no meaning
    pub fn texted_nested<T: IntoDatum + FromDatum + InOutFuncs>(v: T, what: &str) {
        let b = kept(v, what);
        let t = text_out(&unsafe { T::from_datum(at_four(&b), false) }.unwrap());
        let r = quiet(|| T::input(&t)).unwrap_or_else(|| panic!("{what}: its own text {t:?} is refused"));
        let b2 = kept(r, what);
        assert!(b.len() == b2.len() && text_out(&unsafe { T::from_datum(at_four(&b2), false) }.unwrap()) == t, "{what}: the text {t:?} means another value");
    }
    pub fn quiet<T>(f: impl FnOnce() -> T) -> Option<T> { std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok() }
    pub fn num() -> f64 {
        match any_in(0, 9) { 0 => any_in(0, 20) as f64 - 10.0, 1 => 1e300, 2 => -5e-324, 3 => 0.1 + any_in(0, 9) as f64 / 3.0, _ => any_in(0, 1 << 40) as f64 / 65536.0 - 1e6 }
    }
    pub fn small() -> f64 { match any_in(0, 9) { 0 => any_in(0, 20) as f64 - 10.0, 1 => -5e-324, 2 => 0.1 + any_in(0, 9) as f64 / 3.0, _ => any_in(0, 1 << 40) as f64 / 65536.0 - 1e6 } }
    pub fn time() -> i64 { match any_in(0, 7) { 0 => -any_time().abs(), 1 => 0, _ => any_in(0, 1 << 50) as i64 } }
    pub fn word() -> String {
        let n = any_in(0, 6);
        (0..n).map(|_| ["a", "Zz", "é", " ", "\"", "\\", "'", "\n", "(", ",", "日本", "\t", "x", "0"][any_in(0, 13) as usize]).collect()
    }
    pub fn plain_word() -> String { (0..any_in(1, 9)).map(|_| ["a", "Zz", "é", " ", "'", "(", ",", "日本", "x", "0"][any_in(0, 9) as usize]).collect() }
    pub fn fold(n: u64, mut f: impl FnMut(Internal) -> Option<Internal>) -> Internal { let mut s = None; for _ in 0..n { s = f(st(s)) } st(s) }
    pub fn range() -> timescaledb_toolkit::verif::tstzrange {
        let (lo, hi, inf) = (time(), time(), any_in(0, 4));
        let (lo, hi) = (lo.min(hi), lo.max(hi) + 1);
        let mut b = vec![0u8; 8];
        let mut f = 2u8;
        if inf == 0 || inf == 2 { f = 8 } else { b.extend(lo.to_ne_bytes()) }
        if inf == 1 || inf == 2 { f |= 16 } else { b.extend(hi.to_ne_bytes()) }
        b.push(f);
        let n = b.len() as i32;
        b.resize(b.len() + 16, 0);
        let p = Box::leak(b.into_boxed_slice()).as_mut_ptr();
        unsafe { pgrx::set_varsize_4b(p.cast(), n) }
        timescaledb_toolkit::verif::tstzrange(Datum::from(p))
    }
}
#[cfg(not(kani))]
use {ex::*, crate::{pgstub::{fcinfo, interval, text, text_of}, sql::*}};
#[cfg(not(kani))]
use timescaledb_toolkit::{accessors::*, candlestick::*, countminsketch, counter_agg::*, frequency, gauge_agg, heartbeat_agg::*, hyperloglog, state_aggregate as sa, stats_agg::*, tdigest, time_vector as tv, time_weighted_average as tw, uddsketch, verif::DatumStore};

executed! {
    fn summaries() {
        let n = any_in(1, 6);
        texted(verif_stats1(n), "stats 1d");
        texted(timescaledb_toolkit::stats_agg::verif::fin2(fold(n, |s| stats2d_trans(s, Some(small()), Some(small()), NUL))).unwrap(), "stats 2d");
        let mut t = any_in(0, 1 << 50) as i64 - (1 << 49);
        let mut step = || { t += any_in(1, 1 << 30) as i64; ts(t) };
        let m = if any_bool() { "linear" } else { "LOCF" };
        texted(tw::verif::fin(fold(n, |s| tw::time_weight_trans(s, m.to_string(), Some(step()), Some(small()), NUL))).unwrap(), "time weight");
        texted(timescaledb_toolkit::counter_agg::verif::fin(fold(n, |s| counter_agg_trans_no_bounds(s, Some(step()), Some(small().abs()), NUL))).unwrap(), "counter");
        texted(gauge_agg::verif::fin(fold(n, |s| gauge_agg::verif::trans_no_bounds(s, Some(step()), Some(small())))).unwrap(), "gauge");
        let b = range();
        let c = timescaledb_toolkit::counter_agg::verif::fin(fold(n, |s| counter_agg_trans_no_bounds(s, Some(step()), Some(small().abs()), NUL))).unwrap();
        if let Some(c) = quiet(|| timescaledb_toolkit::counter_agg::verif::with_bounds(c, b)) { texted(c, "counter with bounds") }
        texted(accessor_with_bounds(range()), "with_bounds");
    }
    fn candles() {
        let n = any_in(1, 4);
        let vol = any_bool();
        texted(candlestick_final(fold(n, |s| if vol { tick_data_transition(s, Some(ts(time())), Some(num()), Some(small().abs()), NUL) } else { tick_data_no_vol_transition(s, Some(ts(time())), Some(num()), NUL) }), NUL).unwrap(), "candlestick");
        texted(candlestick(Some(ts(time())), Some(num()), Some(num()), Some(num()), Some(num()), if vol { Some(num()) } else { None }).unwrap(), "candlestick from values");
    }
    fn liveness() {
        let (start, len) = (time() / 2, any_in(2, 1000) as i64);
        let (n, gap) = (any_in(1, 6), any_in(1, len as u64 - 1) as i64);
        let h = heartbeat_final(fold(n, |s| heartbeat_trans(s, ts(start + any_in(0, 999) as i64 * len / 1000), ts(start), iv(len), iv(gap), NUL)), NUL);
        if let Some(h) = h {
            use timescaledb_toolkit::heartbeat_agg::verif::acc;
            let h2 = || Some(Clone::clone(&h));
            kept(acc::uptime(h2()), "interpolated_uptime"); kept(acc::downtime(None), "interpolated_downtime"); kept(acc::interpolate(h2()), "interpolate");
            texted_nested(acc::uptime(h2()), "interpolated_uptime"); texted_nested(acc::downtime(None), "interpolated_downtime"); texted_nested(acc::interpolate(h2()), "interpolate");
            texted(acc::trim_to(ts(time()), if any_bool() { Some(iv(5)) } else { None }), "trim_to");
            texted(h, "heartbeat");
        }
        texted(accessor_live_at(ts(time())), "live_at");
    }
    fn states() {
        use sa::verif::{self as v, acc};
        let n = any_in(1, 6);
        let mut t = any_in(0, 1 << 40) as i64;
        let mut step = || { t += any_in(1, 1 << 20) as i64; ts(t) };
        let words: Vec<String> = (0..3).map(|_| word()).collect();
        let a = agg_final(fold(n, |s| v::state_agg::state_agg_transition_fn_outer(s, step(), Some(words[any_in(0, 2) as usize].clone()), NUL)));
        let some = |a: &sa::StateAgg<'static>| Some(Clone::clone(a));
        texted_nested(acc::i_timeline(ts(time()), iv(7), some(&a)), "interpolated_state_timeline");
        texted_nested(acc::i_duration(word(), ts(time()), iv(9), some(&a)), "interpolated_duration_in");
        texted_nested(acc::i_periods(word(), ts(time()), iv(9), None), "interpolated_state_periods");
        texted_nested(acc::i_periods_int(any_i64(), ts(time()), iv(9), some(&a)), "interpolated_state_periods, integer");
        texted(acc::duration(word()), "duration_in"); texted(acc::duration_int(any_i64()), "duration_in, integer"); texted(acc::periods(word()), "state_periods"); texted(acc::periods_int(any_i64()), "state_periods, integer");
        texted(acc::range(word(), ts(time()), Some(iv(5))), "duration_in a range"); texted(acc::at(ts(time())), "state_at"); texted(acc::at_int(ts(time())), "state_at, integer");
        texted_nested(a, "state_agg of texts");
        texted_nested(agg_final(fold(n, |s| v::int_trans(s, step(), Some(any_i64()), NUL))), "state_agg of integers");
        texted(compact_final(fold(n, |s| v::compact_state_agg::compact_state_agg_transition_fn_outer(s, step(), Some(words[any_in(0, 2) as usize].clone()), NUL))), "compact_state_agg of texts");
        texted(compact_final(fold(n, |s| v::compact_int_trans(s, step(), Some(any_i64()), NUL))), "compact_state_agg of integers");
    }
    fn selections() {
        use timescaledb_toolkit::nmost::verif::*;
        let (n, c) = (any_in(1, 6), any_in(1, 5) as i64);
        texted(max_n_float_final(fold(n, |s| max_n_float_trans(s, num(), c, NUL))).unwrap(), "max_n");
        texted(min_n_float_final(fold(n, |s| min_n_float_trans(s, num(), c, NUL))).unwrap(), "min_n");
        texted(max_n_int_final(fold(n, |s| max_n_int_trans(s, any_i64(), c, NUL))).unwrap(), "max_n of integers");
        texted(min_n_int_final(fold(n, |s| min_n_int_trans(s, any_i64(), c, NUL))).unwrap(), "min_n of integers");
        texted(max_n_time_final(fold(n, |s| max_n_time_trans(s, ts(time()), c, NUL))).unwrap(), "max_n of times");
        texted(min_n_time_final(fold(n, |s| min_n_time_trans(s, ts(time()), c, NUL))).unwrap(), "min_n of times");
        let kind = any_in(0, 3);
        let d = || match kind { 0 => elem(pgrx::pg_sys::Datum::from(any_i32()), 23), 1 => elem(pgrx::pg_sys::Datum::from(num().to_bits()), 701), _ => elem(text(&word()), 25) };
        texted(max_n_by_float_final(fold(n, |s| max_n_by_float_trans(s, num(), d(), c, NUL))).unwrap(), "max_n_by");
        texted(min_n_by_float_final(fold(n, |s| min_n_by_float_trans(s, num(), d(), c, NUL))).unwrap(), "min_n_by");
        texted(max_n_by_int_final(fold(n, |s| max_n_by_int_trans(s, any_i64(), d(), c, NUL))).unwrap(), "max_n_by integers");
        texted(min_n_by_int_final(fold(n, |s| min_n_by_int_trans(s, any_i64(), d(), c, NUL))).unwrap(), "min_n_by integers");
        texted(max_n_by_time_final(fold(n, |s| max_n_by_time_trans(s, ts(time()), d(), c, NUL))).unwrap(), "max_n_by times");
        texted(min_n_by_time_final(fold(n, |s| min_n_by_time_trans(s, ts(time()), d(), c, NUL))).unwrap(), "min_n_by times");
    }
    fn sketches() {
        use hyperloglog::verif as h;
        let few = any_in(1, 8);
        let size = 1i32 << any_in(4, 9);
        texted(h::fin(fold(few, |s| hyperloglog::hyperloglog_trans(s, size, Some(elem(pgrx::pg_sys::Datum::from(any_i64()), 20)).map(raw_elem), fcinfo(&[0, 23, 20])))).unwrap(), "hyperloglog");
        let many = if any_in(0, 9) == 0 { 900 } else { 30 };
        texted(h::fin(fold(many, |s| hyperloglog::hyperloglog_trans(s, 64, Some(raw_elem(elem(text(&plain_word()), 25))), fcinfo(&[0, 23, 25])))).unwrap(), "dense hyperloglog");
        texted(uddsketch::verif::fin(fold(few, |s| uddsketch::uddsketch_trans(s, any_in(7, 40) as i32, 0.001 + any_in(0, 9) as f64 / 20.0, Some(num()), NUL))).unwrap(), "uddsketch");
        texted(tdigest::verif::fin(fold(many / 10, |s| tdigest::tdigest_trans(s, 20, Some(small()), NUL))).unwrap(), "tdigest");
        let mut c = countminsketch_internal(few);
        texted(countminsketch::toolkit_experimental::CountMinSketch::from_internal_countminsketch(&mut c), "count_min_sketch");
    }
    fn frequencies() {
        use frequency::{verif as f, *};
        let n = any_in(1, 9);
        let q = 0.1 + any_in(0, 5) as f64 / 10.0;
        texted(f::fin_bigint(fold(n, |s| freq_agg_bigint_trans(s, q, Some(any_in(0, 5) as i64 - 2), fcinfo(&[0, 701, 20])))).unwrap(), "freq_agg of integers");
        let words: Vec<String> = (0..3).map(|_| word()).collect();
        texted(f::fin_text(fold(n, |s| freq_agg_text_trans(s, q, Some(unsafe { pgrx::FromDatum::from_datum(text(&words[any_in(0, 2) as usize]), false).unwrap() }), fcinfo(&[0, 701, 25])))).unwrap(), "freq_agg of texts");
        texted(f::fin(fold(n, |s| freq_agg_trans(s, q, Some(elem(text(&words[any_in(0, 2) as usize]), 25)), fcinfo(&[0, 701, 25])))).unwrap(), "freq_agg of any type");
        texted(f::fin(fold(n, |s| freq_agg_trans(s, q, Some(elem(pgrx::pg_sys::Datum::from(any_in(0, 3) as i32 - 1), 23)), fcinfo(&[0, 701, 23])))).unwrap(), "freq_agg of any type");
    }
    fn timevectors() {
        let n = any_in(1, 20);
        let mut t = time() / 2;
        let mut step = || { t += any_in(0, 3) as i64; ts(t) };
        let v = tv::timevector_final(fold(n, |s| tv::timevector_tstz_f64_trans(s, Some(step()), if any_in(0, 4) == 0 { None } else { Some(num()) }, NUL)), NUL).unwrap();
        texted(v, "timevector");
    }
    fn little_accessors() {
        let m = if any_bool() { "sample" } else { "population" };
        texted(accessor_stddev(m), "stddev"); texted(accessor_stddev_x(m), "stddev_x"); texted(accessor_stddev_y(m), "stddev_y"); texted(accessor_variance(m), "variance"); texted(accessor_variance_x(m), "variance_x"); texted(accessor_variance_y(m), "variance_y");
        texted(accessor_skewness(m), "skewness"); texted(accessor_skewness_x(m), "skewness_x"); texted(accessor_skewness_y(m), "skewness_y"); texted(accessor_kurtosis(m), "kurtosis"); texted(accessor_kurtosis_x(m), "kurtosis_x"); texted(accessor_kurtosis_y(m), "kurtosis_y"); texted(accessor_covar(m), "covariance");
        texted(accessor_extrapolated_delta("prometheus"), "extrapolated_delta"); texted(accessor_extrapolated_rate("prometheus"), "extrapolated_rate");
        texted(accessor_integral(["us", "minute", "hour"][any_in(0, 2) as usize]), "integral"); texted(accessor_topn_count(any_i64()), "topn"); texted(accessor_max_frequency_int(any_i64()), "max_frequency"); texted(accessor_min_frequency_int(any_i64()), "min_frequency");
        texted(accessor_percentiles((0..any_in(0, 5)).map(|_| num()).collect()), "approx_percentiles"); texted(accessor_unnest(), "unnest");
        use timescaledb_toolkit::counter_agg::verif::acc as ca;
        let mut t = 0;
        let mut c = || if any_bool() { None } else { timescaledb_toolkit::counter_agg::verif::fin(fold(2, |s| { t += 5; counter_agg_trans_no_bounds(s, Some(ts(t)), Some(small().abs()), NUL) })) };
        texted_nested(ca::rate(ts(time()), iv(5), c(), c()), "interpolated_rate"); texted_nested(ca::delta(ts(time()), iv(5), c(), c()), "interpolated_delta");
        let mut w = || if any_bool() { None } else { tw::verif::fin(fold(2, |s| { t += 5; tw::time_weight_trans(s, "linear".into(), Some(ts(t)), Some(small()), NUL) })) };
        texted_nested(tw::verif::acc::average(ts(time()), iv(5), w(), w()), "interpolated_average"); texted_nested(tw::verif::acc::integral(ts(time()), iv(5), w(), w(), "hour"), "interpolated_integral");
    }
    // the types of PostgreSQL that are written by a short name
    fn names_of_types() {
        for oid in [16u32, 17, 18, 19, 20, 21, 22, 23, 24, 25, 114, 142, 600, 700, 701, 774, 1043, 1082, 1083, 1114, 1184, 1186, 1266, 3802,
            1000, 1001, 1002, 1003, 1016, 1005, 1007, 1009, 1021, 1022, 1182, 1183, 1115, 1185, 1187, 1270, 1231, 3807] {
            match quiet(|| timescaledb_toolkit::verif::type_back(oid)) { Some(b) => assert!(b == (oid, oid), "type {oid} is read back as {b:?}"), None => panic!("type {oid} is not read back") }
        }
    }
    fn data_of_rows() {
        use pgrx::pg_sys::{Datum, Oid};
        let n = any_in(0, 6) as usize;
        let show = |oid: u32, d: Datum| -> Vec<u8> { match oid { 23 => (d.value() as i32).to_ne_bytes().to_vec(), 20 | 701 => d.value().to_ne_bytes().to_vec(), 25 => text_of(d).into_bytes(), 829 => unsafe { std::slice::from_raw_parts(d.cast_mut_ptr::<u8>(), 6).to_vec() }, 1266 => unsafe { std::slice::from_raw_parts(d.cast_mut_ptr::<u8>(), 12).to_vec() }, _ => unsafe { std::slice::from_raw_parts(d.cast_mut_ptr::<u8>(), 16).to_vec() } } };
        for oid in [20u32, 23, 701, 25, 1186, 2950, 1266, 829] {
            let v: Vec<Datum> = (0..n).map(|_| match oid {
                20 => Datum::from(any_i64()), 23 => Datum::from(any_i32()), 701 => Datum::from(num().to_bits()),
                25 => { let t = text(&format!("{}{}", word(), "x".repeat(any_in(0, 3) as usize * 50))); match if any_bool() { short(&bytes(t)) } else { None } { Some(s) => s, None => t } }
                _ => interval(any_i64()),
            }).collect();
            let want: Vec<Vec<u8>> = v.iter().map(|d| show(oid, *d)).collect();
            let s = timescaledb_toolkit::verif::laid_out(DatumStore::from((Oid::from(oid), v)));
            assert!(s.type_oid().to_u32() == oid);
            assert!(s.iter().map(|d| show(oid, d)).collect::<Vec<_>>() == want, "read in place, type {oid}");
            if oid <= 701 {
                let t = timescaledb_toolkit::verif::ron_text(&s);
                match quiet(|| timescaledb_toolkit::verif::ron_store(&t)) {
                    Some(b) => assert!(b.type_oid() == s.type_oid() && b.iter().map(|d| show(oid, d)).collect::<Vec<_>>() == want, "text form {t}"),
                    None => panic!("its own text {t} is refused"),
                }
            }
            assert!(s.clone().into_anyelement_iter().map(|e| { assert!(e.oid().to_u32() == oid); show(oid, e.datum()) }).collect::<Vec<_>>() == want, "as elements, type {oid}");
            assert!(s.into_iter().map(|d| show(oid, d)).collect::<Vec<_>>() == want, "taken out, type {oid}");
        }
    }
}
#[cfg(not(kani))]
fn verif_stats1(n: u64) -> StatsSummary1D { timescaledb_toolkit::stats_agg::verif::fin1(fold(n, |s| stats1d_trans(s, Some(small()), NUL))).unwrap() }
#[cfg(not(kani))]
fn agg_final(s: pgrx::Internal) -> sa::StateAgg<'static> { sa::verif::state_agg::state_agg_finally_fn_outer(s, NUL).unwrap() }
#[cfg(not(kani))]
fn compact_final(s: pgrx::Internal) -> sa::verif::Compact<'static> { sa::verif::compact_state_agg::compact_state_agg_finally_fn_outer(s, NUL).unwrap() }
#[cfg(not(kani))]
fn raw_elem(e: pgrx::AnyElement) -> timescaledb_toolkit::verif::RawAnyElement { timescaledb_toolkit::verif::RawAnyElement::from(pgrx::pg_sys::Datum::from(e.datum())) }
#[cfg(not(kani))]
fn countminsketch_internal(n: u64) -> ::countminsketch::CountMinSketch { let mut c = ::countminsketch::CountMinSketch::with_prob(0.1 + any_in(0, 3) as f64 / 10.0, 0.2); for _ in 0..n { c.add_value(plain_word()) } c }
