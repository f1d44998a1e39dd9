//! C17: lttb and gp_lttb.
use crate::shim::*;
use timescaledb_toolkit::lttb::lttb;
use tspoint::TSPoint;

fn p(ts: i64, val: f64) -> TSPoint { TSPoint { ts, val } }

harnesses! {
    // nothing to drop: the points themselves
    fn room_for_all() {
        let d = [p(any_i64(), any_f64()), p(any_i64(), any_f64()), p(any_i64(), any_f64())];
        for n in [0, 3, 4, usize::MAX] { let r = lttb(&d, n); assert!(r.len() == 3); for i in 0..3 { assert!(r[i].ts == d[i].ts && crate::fp::same(r[i].val, d[i].val)) } }
    }
    // two points: the ends
    fn two_of_four() {
        let d = [p(any_i64(), any_f64()), p(any_i64(), any_f64()), p(any_i64(), any_f64()), p(any_i64(), any_f64())];
        let r = lttb(&d, 2);
        assert!(r.len() == 2 && r[0].ts == d[0].ts && r[1].ts == d[3].ts && crate::fp::same(r[0].val, d[0].val) && crate::fp::same(r[1].val, d[3].val));
    }
    // three of four: the ends and the inner point that spans the larger triangle with them
    fn three_of_four() {
        let t0 = 1000;
        let (a, b, c) = (2, 1, 3);
        let (t1, t2, t3) = (t0 + a, t0 + a + b, t0 + a + b + c);
        let d = [p(t0, any_f64_tiny()), p(t1, any_f64_tiny()), p(t2, any_f64_tiny()), p(t3, any_f64_tiny())];
        let r = lttb(&d, 3);
        assert!(r.len() == 3);
        assert!(r[0].ts == t0 && r[0].val == d[0].val && r[2].ts == t3 && r[2].val == d[3].val, "the ends");
        // twice the area, in halves of the unit: exact
        let area = |q: &TSPoint| { let v = |x: f64| (x * 2.0) as i64; ((t0 - t3) * (v(q.val) - v(d[0].val)) - (t0 - q.ts) * (v(d[3].val) - v(d[0].val))).abs() };
        let want = if area(&d[2]) > area(&d[1]) { 2 } else { 1 };
        assert!(r[1].ts == d[want].ts && r[1].val == d[want].val, "the larger triangle, the first of equal ones");
    }
}

#[cfg(not(kani))]
mod ex {
    use super::*;
    use crate::sql::*;
    use pgrx::Internal;
    use timescaledb_toolkit::{lttb::*, time_vector::*};
    pub fn tv(d: &[TSPoint]) -> Timevector_TSTZ_F64<'static> {
        let mut s = None;
        for q in d { s = timevector_tstz_f64_trans(st(s), Some(ts(q.ts)), Some(q.val), NUL) }
        timevector_final(st(s), NUL).unwrap()
    }
    pub fn list(t: Option<Timevector_TSTZ_F64<'static>>) -> Vec<TSPoint> {
        let t = stored(t.unwrap());
        assert!(t.is_sorted() && !t.has_nulls());
        unnest(t).map(|(t, v)| p(us(t), v)).collect()
    }
    /// the selection `got` of `n` points out of `d`
    pub fn check(d: &[TSPoint], n: usize, got: &[TSPoint], what: &str) {
        if n >= d.len() { assert!(got == d, "{what}: {} points for {n}, not the data", got.len()); return }
        assert!(got.len() == n, "{what}: {} points instead of {n}", got.len());
        assert!(got[0] == d[0] && got[n - 1] == d[d.len() - 1], "{what}: the ends");
        if n == 2 { return }
        // bucket boundaries: k * (len - 2) / (n - 2), counted from the second point
        let at = |k: usize| 1 + k * (d.len() - 2) / (n - 2);
        // rounding of the boundaries in doubles is not pinned down where they are whole
        let fuzzy = (0..=n - 2).any(|k| ((k as f64 * ((d.len() - 2) as f64 / (n - 2) as f64)) as usize + 1) != at(k));
        let mut prev = 0;
        for k in 0..n - 2 {
            let (lo, hi, end) = (at(k), at(k + 1), at(k + 2).min(d.len()));
            let g = got[k + 1];
            let slack = fuzzy as usize;
            let (lo_, hi_) = (lo - slack, (hi + slack).min(d.len()));
            let here: Vec<usize> = (lo_.max(prev)..hi_).filter(|i| d[*i] == g).collect();
            assert!(!here.is_empty(), "{what}: point {} comes from no place in its bucket", k + 1);
            if fuzzy { prev = here[0]; continue }
            let m = (end - hi) as f64;
            let base = d[prev].ts;
            let cx = d[hi..end].iter().map(|q| (q.ts - base) as f64).sum::<f64>() / m;
            let cy = d[hi..end].iter().map(|q| q.val).sum::<f64>() / m;
            let a = d[prev];
            let area = |q: &TSPoint| (-cx * (q.val - a.val) + (q.ts - base) as f64 * (cy - a.val)).abs() / 2.0;
            let scale = d[lo..end].iter().map(|q| (cx.abs() + 1.0) * (q.val - a.val).abs() * 1e-9 + ((q.ts - base) as f64).abs() * (cy - a.val).abs() * 1e-9 + (q.val - a.val).abs()).fold(0.0, f64::max);
            let best = d[lo..hi].iter().map(area).fold(0.0, f64::max);
            assert!(area(&g) >= best - scale, "{what}: point {} spans {} but another spans {best}", k + 1, area(&g));
            prev = here[0];
        }
    }
    /// distinct increasing times, so that a point can be recognised
    pub fn data() -> Vec<TSPoint> {
        let n = any_in(1, if any_bool() { 12 } else { 70 }) as usize;
        let mut t = match any_in(0, 2) { 0 => 0, 1 => any_in(0, 1 << 60) as i64 - (1 << 59), _ => (any_in(0, 1 << 60) + (1 << 61)) as i64 };
        let step = [3u64, 1000, 1_000_000_000][any_in(0, 2) as usize];
        (0..n).map(|_| { t += 1 + any_in(0, step) as i64; p(t, any_in(0, 400) as f64 / 8.0 - 20.0) }).collect()
    }
    fn agg(rows: &[TSPoint], n: i32) -> Option<Internal> {
        let mut s = None;
        for q in rows { s = lttb_trans(st(s), ts(q.ts), Some(q.val), n, NUL); if any_in(0, 5) == 0 { s = lttb_trans(st(s), ts(q.ts), None, n, NUL) } }
        s
    }
    pub fn aggregate() {
        let d = data();
        let n = any_in(3, 12) as i32;
        let mut rows = d.clone();
        if any_bool() { rows.sort_by_key(|q| (q.ts as u64).wrapping_mul(0x9E3779B97F4A7C15)) }
        let k = any_in(1, rows.len() as u64) as usize;
        let s = pgrx::IntoDatum::into_datum(agg(&rows[..k], n).unwrap()).unwrap();
        let s = || Internal::from(Some(s));
        let mut first = rows[..k].to_vec();
        first.sort_by_key(|q| q.ts);
        check(&first, n as usize, &list(lttb_final(s(), NUL)), "first rows");
        for q in &rows[k..] { lttb_trans(s(), ts(q.ts), Some(q.val), n, NUL); }
        check(&d, n as usize, &list(lttb_final(s(), NUL)), "aggregate");
        check(&d, n as usize, &list(lttb_final(s(), NUL)), "asked again");
        assert!(lttb_final(none(), NUL).is_none() && lttb_trans(none(), ts(0), None, n, NUL).is_none());
        for bad in [2, 1, 0, -1] { assert!(errs(|| { lttb_trans(none(), ts(0), Some(1.0), bad, NUL); })) }
    }
    pub fn on_timevector() {
        let d = data();
        let n = any_in(2, 12) as i32;
        check(&d, n as usize, &list(lttb_on_timevector(tv(&d), n)), "timevector");
        check(&d, n as usize, &lttb(&d, n as usize), "slice");
        let mut r = d.clone();
        r.reverse();
        if r.len() > 1 { assert!(errs(|| { lttb_on_timevector(tv(&r), n); }), "unsorted timevector") }
    }
    /// gaps are kept: the points on either side of each are in the result
    pub fn gaps() {
        let mut d = data();
        let gap = [4u64, 900, 50_000_000][any_in(0, 2) as usize] as i64;
        let mut off = 0;
        for q in d.iter_mut() { if any_in(0, 6) == 0 { off += gap * 4 } q.ts += off }
        let n = any_in(3, 14) as usize;
        let given = any_bool();
        let mut rows = d.clone();
        if any_bool() { rows.reverse() }
        let mut s = None;
        for q in &rows { s = if given { gp_lttb_trans(st(s), ts(q.ts), Some(q.val), iv(gap), n as i32, NUL) } else { lttb_trans(st(s), ts(q.ts), Some(q.val), n as i32, NUL) } }
        let s = pgrx::IntoDatum::into_datum(s.unwrap()).unwrap();
        let it = || Internal::from(Some(s));
        let got = list(gp_lttb_final(it(), NUL));
        assert!(got == list(gp_lttb_final(it(), NUL)), "asked again");
        let max_gap = if given { gap } else { (d[d.len() - 1].ts - d[0].ts) / n as i64 };
        let mut segs = vec![vec![d[0]]];
        for w in d.windows(2) { if w[1].ts - w[0].ts > max_gap { segs.push(vec![]) } segs.last_mut().unwrap().push(w[1]) }
        let ends: usize = segs.iter().map(|s| s.len().min(2)).sum();
        assert!(got.len() <= n.max(ends), "{} points, {n} asked for, {ends} ends", got.len());
        if segs.len() == 1 { check(&d, n, &got, "no gap"); return }
        let mut rest = &got[..];
        let mut dropped = 0;
        for g in &segs {
            let (a, b) = (g[0].ts, g[g.len() - 1].ts);
            let k = rest.iter().take_while(|q| q.ts <= b).count();
            let part = &rest[..k];
            rest = &rest[k..];
            assert!(!part.is_empty() && part[0].ts == a && part[k - 1].ts == b, "an end of a stretch without gaps is missing");
            check(g, k.max(g.len().min(2)), part, "stretch");
            dropped += g.len() - k;
        }
        assert!(rest.is_empty());
        assert!(dropped == 0 || got.len() + 1 + 2 * segs.len() >= n, "points dropped though {} of {n} are used in {} stretches", got.len(), segs.len());
    }
    /// many points with today's dates in one bucket
    pub fn long() {
        let n = any_in(12_000, 40_000) as usize;
        let t0 = 800_000_000_000_000 + any_in(0, 1 << 40) as i64;
        let spike = any_in(1, n as u64 - 2) as usize;
        let d: Vec<TSPoint> = (0..n).map(|i| p(t0 + i as i64 * 1_000_000, if i == spike { 500.0 } else { (i % 7) as f64 })).collect();
        let got = lttb(&d, 3);
        assert!(got.len() == 3 && got[1] == d[spike], "the spike is lost");
        let got = list(lttb_on_timevector(tv(&d), 4));
        assert!(got.len() == 4 && got.contains(&d[spike]), "the spike is lost");
    }
}

executed! {
    fn rounding() {
        let n = any_in(4, if any_bool() { 40 } else { 1 << 26 }) as usize;
        let t = any_in(3, (n as u64 - 1).min(if any_bool() { 30 } else { 1 << 26 })) as usize;
        let every = ((n - 2) as f64) / ((t - 2) as f64);
        let cut = |i: usize| ((i as f64) * every) as usize + 1;
        assert!(cut(0) == 1 && cut(t - 2) <= n - 1);
        for _ in 0..64 { let i = any_in(0, t as u64 - 2) as usize; assert!(cut(i) < cut(i + 1) && cut(i + 1) < 2 * n + 2) }
        let (b, m) = (any_in(0, 1 << 26), any_in(0, 1 << 33) as i64 - (1 << 32));
        let a = any_in(0, b);
        assert!((m as f64 * (a as f64 / b as f64)) as usize <= m.max(0) as usize);
    }
    fn aggregate() { ex::aggregate() }
    fn on_timevector() { ex::on_timevector() }
    fn gaps() { ex::gaps() }
    fn long() { ex::long() }
}
