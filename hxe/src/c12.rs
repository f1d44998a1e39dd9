//! C12: candlesticks.
use crate::shim::*;
use timescaledb_toolkit::candlestick::*;
use tspoint::TSPoint;

fn pt() -> TSPoint { TSPoint { ts: any_i64(), val: any_f64() } }
fn no_nan(x: f64) -> f64 { assume(!x.is_nan()); x }
fn vol() -> VolKind {
    if any_bool() { VolKind::Missing {} } else { VolKind::Transaction { vol: any_f64(), vwap: any_f64() } }
}
fn cs(open: TSPoint, high: TSPoint, low: TSPoint, close: TSPoint, volume: VolKind) -> Candlestick {
    Candlestick::from(CandlestickData { header: 0, version: 1, padding: [0; 3], open, high, low, close, volume })
}
/// an arbitrary state reachable from ticks: open is first in time, close last, low <= all <= high
fn state(volume: VolKind) -> Candlestick {
    let (mut o, mut h, mut l, mut c) = (pt(), pt(), pt(), pt());
    for p in [&o, &h, &l, &c] { assume(!p.val.is_nan()); }
    // normalise instead of assuming: every reachable state is a fixed point of this
    for p in [&h, &l, &c] { if p.ts < o.ts { o.ts = p.ts } }
    for p in [&o, &h, &l] { if p.ts > c.ts { c.ts = p.ts } }
    for p in [&o, &l, &c] { if p.val > h.val { h.val = p.val } }
    for p in [&o, &h, &c] { if p.val < l.val { l.val = p.val } }
    cs(o, h, l, c, volume)
}
fn same_pt(a: TSPoint, b: TSPoint) -> bool { a.ts == b.ts && a.val.to_bits() == b.val.to_bits() }
fn same_ohlc(a: &Candlestick, b: &Candlestick) -> bool {
    same_pt(a.open, b.open) && same_pt(a.high, b.high) && same_pt(a.low, b.low) && same_pt(a.close, b.close)
}
/// one tick, without going through the allocator
fn tick(ts: i64, p: f64, v: VolKind) -> Candlestick {
    let t = TSPoint { ts, val: p };
    cs(t, t, t, t, v)
}

harnesses! {
    // open/high/low/close and their times after one more tick, from any reachable state
    fn add_tick_ohlc() {
        let mut c = state(VolKind::Missing {});
        let old = c;
        let (ts, p) = (any_i64(), no_nan(any_f64()));
        c.add_tick_data(ts, p, None);
        let new = TSPoint { ts, val: p };
        assert!(same_pt(c.open, if ts < old.open.ts { new } else { old.open }), "open is the first price in time");
        assert!(same_pt(c.close, if ts > old.close.ts { new } else { old.close }), "close is the last price in time");
        assert!(same_pt(c.high, if p > old.high.val { new } else { old.high }), "high is the greatest price");
        assert!(same_pt(c.low, if p < old.low.val { new } else { old.low }), "low is the least price");
        assert!(c.low.val <= c.open.val && c.low.val <= c.close.val && c.open.val <= c.high.val && c.close.val <= c.high.val);
        assert!(c.open.ts <= c.high.ts && c.open.ts <= c.low.ts && c.high.ts <= c.close.ts && c.low.ts <= c.close.ts);
        assert!(c.open().to_bits() == c.open.val.to_bits() && c.high().to_bits() == c.high.val.to_bits());
        assert!(c.low().to_bits() == c.low.val.to_bits() && c.close().to_bits() == c.close.val.to_bits());
        assert!(c.open_time() == c.open.ts && c.high_time() == c.high.ts && c.low_time() == c.low.ts && c.close_time() == c.close.ts);
        reach!(ts < old.open.ts && p > old.high.val, "new open and high");
    }
    // combining candlesticks: open/high/low/close of the union
    fn combine_ohlc() {
        let (mut a, b) = (state(VolKind::Missing {}), state(VolKind::Missing {}));
        let old = a;
        a.combine(&b);
        assert!(same_pt(a.open, if b.open.ts < old.open.ts { b.open } else { old.open }), "open");
        assert!(same_pt(a.close, if b.close.ts > old.close.ts { b.close } else { old.close }), "close");
        assert!(same_pt(a.high, if b.high.val > old.high.val { b.high } else { old.high }), "high");
        assert!(same_pt(a.low, if b.low.val < old.low.val { b.low } else { old.low }), "low");
        reach!(b.open.ts < old.open.ts && b.close.ts > old.close.ts, "b contains a");
    }
    // adding a tick is combining with the one-tick candlestick, and combining is associative: any split of the rows agrees
    fn tick_is_a_singleton() {
        let mut a = state(VolKind::Missing {});
        let mut b = a;
        let (ts, p) = (any_i64(), no_nan(any_f64()));
        a.add_tick_data(ts, p, None);
        b.combine(&tick(ts, p, VolKind::Missing {}));
        assert!(same_ohlc(&a, &b));
    }
    fn combine_is_associative() {
        let (a, b, c) = (state(VolKind::Missing {}), state(VolKind::Missing {}), state(VolKind::Missing {}));
        let (mut l, mut r, mut bc) = (a, a, b);
        l.combine(&b);
        l.combine(&c);
        bc.combine(&c);
        r.combine(&bc);
        assert!(same_ohlc(&l, &r));
    }
    // the order of the parts does not matter when their times and prices differ
    fn combine_is_symmetric() {
        let (a, b) = (state(VolKind::Missing {}), state(VolKind::Missing {}));
        assume(a.open.ts != b.open.ts && a.close.ts != b.close.ts && a.high.val != b.high.val && a.low.val != b.low.val);
        let (mut l, mut r) = (a, b);
        l.combine(&b);
        r.combine(&a);
        assert!(same_ohlc(&l, &r));
    }
    // once a volume is missing it stays missing, and only then
    fn volume_presence() {
        let v = vol();
        let has = matches!(v, VolKind::Transaction { .. });
        let mut a = state(v);
        let mut b = a;
        let w = if any_bool() { None } else { Some(0.0) };
        a.add_tick_data(any_i64(), 0.0, w);
        assert!(matches!(a.volume, VolKind::Transaction { .. }) == (has && w.is_some()), "tick");
        let u = if any_bool() { VolKind::Missing {} } else { VolKind::Transaction { vol: 0.0, vwap: 0.0 } };
        b.combine(&tick(any_i64(), 0.0, u));
        assert!(matches!(b.volume, VolKind::Transaction { .. }) == (has && matches!(u, VolKind::Transaction { .. })), "combine");
        assert!(a.volume().is_some() == matches!(a.volume, VolKind::Transaction { .. }));
        assert!(a.volume().is_some() || a.vwap().is_none());
    }
    // volumes and price-volume products add up
    fn volume_sums() {
        let (v, w, t, u, p) = (any_f64_tiny(), any_f64_tiny(), any_f64_tiny(), any_f64_tiny(), any_f64_tiny());
        let mut a = tick(0, p, VolKind::Transaction { vol: v, vwap: w });
        let mut b = a;
        a.add_tick_data(any_i64(), p, Some(t));
        match a.volume {
            VolKind::Transaction { vol, vwap } => assert!(vol == v + t && vwap == w + t * p, "tick"),
            _ => assert!(false),
        }
        b.combine(&tick(any_i64(), p, VolKind::Transaction { vol: t, vwap: u }));
        match b.volume {
            VolKind::Transaction { vol, vwap } => assert!(vol == v + t && vwap == w + u, "combine"),
            _ => assert!(false),
        }
        let x = b.vwap();
        if v + t > 0.0 { assert!(x == Some((w + u) / (v + t)), "volume weighted average price"); } else { assert!(x.is_none()); }
        assert!(b.volume() == Some(v + t));
    }
}

executed! {
    // the SQL-level aggregate over any rows, split any way, agrees with the definition
    fn aggregate_histories() {
        let n = any_in(0, 12) as usize;
        let distinct = any_bool();
        let scale = if any_bool() { 4 } else { 1000 };
        let mut rows: Vec<(Option<i64>, Option<f64>, Option<f64>)> = vec![];
        for i in 0..n {
            let t = if distinct { (any_in(0, 9) as i64) * 100 + i as i64 } else { any_in(0, 5) as i64 };
            let t = if any_in(0, 20) == 0 { None } else { Some(t - 200) };
            let p = if any_in(0, 20) == 0 { None } else { Some(any_in(0, 2 * scale) as f64 / 4.0 - scale as f64 / 4.0) };
            let v = if any_in(0, 24) == 0 { None } else { Some(any_in(0, 16) as f64 / 2.0) };
            rows.push((t, p, v));
        }
        let with_vol = any_in(0, 4) != 0;
        let k = any_in(0, n as u64) as usize;
        let nul = std::ptr::null_mut();
        let none = || pgrx::Internal::from(None);
        let agg = |rows: &[(Option<i64>, Option<f64>, Option<f64>)]| {
            let mut s: Option<pgrx::Internal> = None;
            for (t, p, v) in rows {
                s = if with_vol { tick_data_transition(s.unwrap_or_else(none), t.map(|t| t.into()), *p, *v, nul) }
                    else { tick_data_no_vol_transition(s.unwrap_or_else(none), t.map(|t| t.into()), *p, nul) };
            }
            s
        };
        let fin = |s: Option<pgrx::Internal>| candlestick_final(s.unwrap_or_else(none), nul);
        let check = |c: Option<Candlestick>, what: &str| {
            let used: Vec<(i64, f64, Option<f64>)> = rows.iter().filter_map(|r| Some((r.0?, r.1?, r.2))).collect();
            if used.is_empty() { assert!(c.is_none(), "{what}: no usable row"); return }
            let c = c.expect(what);
            let first = used.iter().map(|r| r.0).min().unwrap();
            let last = used.iter().map(|r| r.0).max().unwrap();
            let hi = used.iter().map(|r| r.1).fold(f64::MIN, f64::max);
            let lo = used.iter().map(|r| r.1).fold(f64::MAX, f64::min);
            assert!(c.open_time() == first && c.close_time() == last, "{what}: open and close times");
            assert!(c.high() == hi && c.low() == lo, "{what}: high and low");
            // ties keep the earliest row
            assert!(c.open() == used.iter().find(|r| r.0 == first).unwrap().1, "{what}: open");
            assert!(c.close() == used.iter().find(|r| r.0 == last).unwrap().1, "{what}: close");
            assert!(c.high_time() == used.iter().find(|r| r.1 == hi).unwrap().0, "{what}: high time");
            assert!(c.low_time() == used.iter().find(|r| r.1 == lo).unwrap().0, "{what}: low time");
            if with_vol && used.iter().all(|r| r.2.is_some()) {
                let v: f64 = used.iter().map(|r| r.2.unwrap()).sum();
                let pv: f64 = used.iter().map(|r| r.1 * r.2.unwrap()).sum();
                assert!(c.volume() == Some(v), "{what}: volume");
                if v > 0.0 { assert!((c.vwap().unwrap() - pv / v).abs() < 1e-6, "{what}: vwap"); }
                else { assert!(c.vwap().is_none(), "{what}: vwap without volume"); }
            } else {
                assert!(c.volume().is_none() && c.vwap().is_none(), "{what}: volume missing");
            }
            assert!(open(Some(c)) == Some(c.open()) && high(Some(c)) == Some(c.high()) && low(Some(c)) == Some(c.low()) && close(Some(c)) == Some(c.close()), "accessors");
            assert!(volume(Some(c)) == c.volume() && vwap(Some(c)) == c.vwap());
            let i = |t| -> i64 { let t: Option<_> = t; i64::from(pgrx::pg_sys::Datum::from(Option::unwrap(t)).value() as i64) };
            assert!(i(open_time(Some(c))) == first && i(close_time(Some(c))) == last && i(high_time(Some(c))) == c.high_time() && i(low_time(Some(c))) == c.low_time());
        };
        check(fin(agg(&rows)), "one pass");
        let (x, y) = (agg(&rows[..k]), agg(&rows[k..]));
        let (px, py) = (agg(&rows[..k]), agg(&rows[k..]));
        check(fin(candlestick_combine(x.unwrap_or_else(none), y.unwrap_or_else(none), nul)), "combined parts");
        let tr = |s: Option<pgrx::Internal>| s.and_then(|s| candlestick_deserialize(candlestick_serialize(s), none()));
        check(fin(candlestick_combine(tr(px).unwrap_or_else(none), tr(py).unwrap_or_else(none), nul)), "combined serialized parts");
        let (cx, cy) = (fin(agg(&rows[..k])), fin(agg(&rows[k..])));
        let s = candlestick_rollup_trans(none(), cx, nul);
        let s = candlestick_rollup_trans(s.unwrap_or_else(none), cy, nul);
        check(fin(s), "rollup");
    }
    fn single_candle() {
        let t = any_i64();
        let f = |_: ()| any_in(0, 400) as f64 / 4.0 - 50.0;
        let (o, h, l, c) = (f(()), f(()), f(()), f(()));
        let v = if any_bool() { None } else { Some(any_in(0, 40) as f64 / 4.0) };
        let x = candlestick(Some(t.into()), Some(o), Some(h), Some(l), Some(c), v).unwrap();
        assert!(x.open() == o && x.high() == h && x.low() == l && x.close() == c);
        assert!(x.open_time() == t && x.high_time() == t && x.low_time() == t && x.close_time() == t);
        assert!(x.volume() == v);
        match v {
            Some(v) if v > 0.0 => assert!((x.vwap().unwrap() - (h + l + c) / 3.0).abs() < 1e-9, "typical price"),
            _ => assert!(x.vwap().is_none()),
        }
        assert!(candlestick(None, Some(o), Some(h), Some(l), Some(c), v).is_none());
        assert!(candlestick(Some(t.into()), None, Some(h), Some(l), Some(c), v).is_none());
    }
}
