//! C13: heartbeat aggregates.
use crate::shim::*;
#[cfg(not(kani))]
use crate::sql::*;
#[cfg(not(kani))]
use timescaledb_toolkit::heartbeat_agg::*;
use timescaledb_toolkit::heartbeat_agg::{HeartbeatTransState, verif::{bounds, buffer, extend, liveness, state as raw}};
/// sorted live intervals that do not touch
fn ivals(n: usize) -> Vec<(i64, i64)> {
    let mut v: Vec<(i64, i64)> = Vec::with_capacity(8);
    let mut at = any_time();
    for _ in 0..n {
        let s = at;
        let e = s + any_gap();
        at = e + any_gap();
        v.push((s, e));
    }
    v
}
fn at(v: &[(i64, i64)], t: i64) -> bool { let mut r = false; for x in v { r |= x.0 <= t && t < x.1 } r }
fn sorted(v: &[(i64, i64)]) -> bool {
    let mut ok = true;
    for (i, x) in v.iter().enumerate() { ok &= x.0 < x.1 && (i == 0 || v[i - 1].1 < x.0) }
    ok
}

harnesses! {
    // a heartbeat in range is kept and nothing else changes
    fn insert_keeps() {
        let (start, len, t, x) = (any_time(), any_gap(), any_time(), any_time());
        let end = start + len + any_gap();
        assume(start <= t && t < end);
        let mut s = HeartbeatTransState::new(start, end, len);
        assert!(bounds(&s) == (start, end, i64::MIN, len) && buffer(&s).is_empty() && liveness(&s).is_empty());
        s.insert(t);
        assert!(bounds(&s) == (start, end, i64::MIN, len) && liveness(&s).is_empty() && buffer(&s).len() == 1 && buffer(&s)[0] == t);
        assume(start <= x && x < end);
        s.insert(x);
        assert!(buffer(&s).len() == 2 && buffer(&s)[0] == t && buffer(&s)[1] == x);
    }
    // widening the covered range keeps what is live and lets the last heartbeat's liveness run on, up to the new end
    fn extend_keeps_live() {
        let (len, t) = (any_gap(), any_time());
        let x = ivals(2);
        let k = x[1];
        // as produced by heartbeat_final: the last range ends when the last heartbeat's liveness does, or is cut off by the end
        let (start, end, last) = if any_bool() { (x[0].0 - any_in(0, 1 << 60) as i64, k.1 + any_in(0, 1 << 60) as i64, k.1 - len) }
            else { (x[0].0 - any_in(0, 1 << 60) as i64, k.1, k.1 - any_in(1, len as u64) as i64) };
        assume(k.0 <= last);
        let (s2, e2) = (start - any_in(0, 1 << 60) as i64, end + any_in(0, 1 << 60) as i64);
        let want = at(&x, t) || (last <= t && t < last + len);
        let first = x[0];
        let mut a = raw(start, end, last, len, Vec::new(), x);
        extend(&mut a, s2, e2);
        assert!(bounds(&a) == (s2, e2, last, len));
        assert!(liveness(&a).len() == 2 && liveness(&a)[0] == first && liveness(&a)[1].0 == k.0);
        assert!(liveness(&a)[1].1 <= e2 && liveness(&a)[1].1 >= k.1, "never shortened, never past the end");
        if t < e2 { assert!(at(liveness(&a), t) == want); }
        reach!(last + len > end && e2 > last + len, "runs on");
    }
}

#[cfg(not(kani))]
type Agg = HeartbeatAgg<'static>;
#[cfg(not(kani))]
mod ex {
    use super::*;
    /// the model: sorted maximal live ranges
    pub fn union(mut v: Vec<(i64, i64)>) -> Vec<(i64, i64)> {
        v.sort();
        let mut o: Vec<(i64, i64)> = vec![];
        for (s, e) in v {
            match o.last_mut() { Some(l) if s <= l.1 => l.1 = l.1.max(e), _ => o.push((s, e)) }
        }
        o
    }
    pub fn clip(v: &[(i64, i64)], a: i64, b: i64) -> Vec<(i64, i64)> {
        v.iter().map(|x| (x.0.max(a), x.1.min(b))).filter(|x| x.0 < x.1).collect()
    }
    pub fn live(hbs: &[i64], len: i64, a: i64, b: i64) -> Vec<(i64, i64)> { clip(&union(hbs.iter().map(|h| (*h, h + len)).collect()), a, b) }
    pub fn agg(hbs: &[i64], a: i64, b: i64, len: i64) -> Option<Agg> {
        let mut s = None;
        for h in hbs { s = heartbeat_trans(st(s), ts(*h), ts(a), iv(b - a), iv(len), NUL); }
        heartbeat_final(st(s), NUL)
    }
    pub fn rollup(v: Vec<Option<Agg>>) -> Option<Agg> {
        let mut s = None;
        for a in v { s = heartbeat_rollup_trans(st(s), a, NUL) }
        heartbeat_final(st(s), NUL)
    }
    /// every observer of an aggregate agrees with the model
    pub fn check(g: &Agg, want: &[(i64, i64)], a: i64, b: i64, what: &str) {
        let g = &stored(g.clone()); // values pass between functions in their stored form
        let got: Vec<(i64, i64)> = live_ranges(g.clone()).map(|(s, e)| (us(s), us(e))).collect();
        assert!(got == want, "{what}: live ranges {got:?}, expected {want:?}");
        let mut dead = vec![];
        let mut at = a;
        for (s, e) in want { if *s > at { dead.push((at, *s)) } at = *e }
        if at < b { dead.push((at, b)) }
        let d: Vec<(i64, i64)> = dead_ranges(g.clone()).map(|(s, e)| (us(s), us(e))).collect();
        assert!(d == dead || (a == b), "{what}: dead ranges {d:?}, expected {dead:?}");
        let up: i64 = want.iter().map(|x| x.1 - x.0).sum();
        assert!(iv_us(uptime(g.clone())) == up, "{what}: uptime");
        assert!(iv_us(downtime(g.clone())) == b - a - up, "{what}: downtime");
        assert!(num_live_ranges(g.clone()) == want.len() as i64, "{what}: number of live ranges");
        assert!(num_gaps(g.clone()) == dead.len() as i64 || a == b, "{what}: number of gaps");
        for t in want.iter().flat_map(|x| [x.0 - 1, x.0, x.1 - 1, x.1]).chain([a, b, (a + b) / 2]) {
            if a <= t && t <= b {
                assert!(live_at(g.clone(), ts(t)) == want.iter().any(|x| x.0 <= t && t < x.1), "{what}: live at {t}");
            }
        }
        let q: Vec<(i64, i64)> = arrow_heartbeat_agg_live_ranges(g.clone(), acc0!(AccessorLiveRanges)).map(|(s, e)| (us(s), us(e))).collect();
        assert!(q == want);
        let q: Vec<(i64, i64)> = arrow_heartbeat_agg_dead_ranges(g.clone(), acc0!(AccessorDeadRanges)).map(|(s, e)| (us(s), us(e))).collect();
        assert!(q == dead || a == b);
        assert!(iv_us(arrow_heartbeat_agg_uptime(g.clone(), acc0!(AccessorUptime))) == up);
        assert!(iv_us(arrow_heartbeat_agg_downtime(g.clone(), acc0!(AccessorDowntime))) == b - a - up);
        assert!(arrow_heartbeat_agg_num_live_ranges(g.clone(), acc0!(AccessorNumLiveRanges)) == want.len() as i64);
        assert!(arrow_heartbeat_agg_num_gaps(g.clone(), acc0!(AccessorNumGaps)) == dead.len() as i64 || a == b);
    }
    pub fn beats(n: u64, a: i64, b: i64) -> Vec<i64> { (0..any_in(0, n)).map(|_| any_in(a as u64, b as u64 - 1) as i64).collect() }
}

executed! {
    // what one aggregate says about its heartbeats, in any order of arrival, through storage and back
    fn single_aggregate() {
        use ex::*;
        let a = any_in(0, 50) as i64;
        let len = any_in(1, 12) as i64;
        let b = a + len + any_in(1, 120) as i64;
        let n = if any_in(0, 150) == 0 { 2600 } else { 14 };
        let mut h = beats(n, a, b);
        if any_bool() { h.push(b - 1) }
        if any_bool() { h.push(a) }
        let g = agg(&h, a, b, len);
        if h.is_empty() { assert!(g.is_none()); return }
        let g = g.unwrap();
        let want = live(&h, len, a, b);
        check(&g, &want, a, b, "aggregate");
        let mut r = h.clone();
        r.reverse();
        assert!(eq_op_heartbeat_agg(agg(&r, a, b, len).unwrap(), g.clone()) && !neq_op_heartbeat_agg(agg(&r, a, b, len).unwrap(), g.clone()), "order of arrival");
        // finalizing twice, with more rows in between
        let k = any_in(0, h.len() as u64) as usize;
        let mut s = None;
        for x in &h[..k] { s = heartbeat_trans(st(s), ts(*x), ts(a), iv(b - a), iv(len), NUL); }
        let d = s.as_ref().map(|s| pgrx::IntoDatum::into_datum(unsafe { std::ptr::read(s) }));
        if let Some(d) = d {
            check(&heartbeat_final(pgrx::Internal::from(d), NUL).unwrap(), &live(&h[..k], len, a, b), a, b, "first final");
            for x in &h[k..] { s = heartbeat_trans(st(s), ts(*x), ts(a), iv(b - a), iv(len), NUL); }
            check(&heartbeat_final(st(s), NUL).unwrap(), &want, a, b, "second final");
        }
        // points outside the declared range are refused
        assert!(errs(|| { agg(&[b], a, b, len); }) && errs(|| { agg(&[a - 1], a, b, len); }));
    }
    // rolling up buckets, in any order, is aggregating everything at once
    fn rollup_is_one_aggregate() {
        use ex::*;
        let a = any_in(0, 50) as i64;
        let len = any_in(1, 12) as i64;
        let n = any_in(1, 4) as usize;
        let mut edges = vec![a];
        for _ in 0..n { let l = *edges.last().unwrap(); edges.push(l + len + any_in(1, 40) as i64) }
        let overlap = any_bool();
        let mut parts = vec![];
        for i in 0..n {
            let (s, e) = if overlap { (edges[any_in(0, i as u64) as usize], edges[i + 1]) } else { (edges[i], edges[i + 1]) };
            parts.push((beats(8, s, e), s, e));
        }
        for i in (1..n).rev() { let j = any_in(0, i as u64) as usize; parts.swap(i, j) }
        let used: Vec<_> = parts.iter().filter(|p| !p.0.is_empty()).collect();
        let g = rollup(parts.iter().map(|p| agg(&p.0, p.1, p.2, len)).collect());
        if used.is_empty() { assert!(g.is_none()); return }
        let (s, e) = (used.iter().map(|p| p.1).min().unwrap(), used.iter().map(|p| p.2).max().unwrap());
        let h: Vec<i64> = parts.iter().flat_map(|p| p.0.clone()).collect();
        check(&g.unwrap(), &live(&h, len, s, e), s, e, "rollup");
    }
    // liveness carried over from the previous bucket
    fn interpolated_from_previous() {
        use ex::*;
        let a = any_in(0, 50) as i64;
        let len = any_in(1, 12) as i64;
        let m = a + len + any_in(1, 40) as i64;
        let c = m + any_in(0, 6) as i64;
        let b = c + len + any_in(1, 40) as i64;
        let (h1, h2) = (beats(8, a, m), beats(8, c, b));
        assume(!h1.is_empty() && !h2.is_empty());
        let (p, g) = (agg(&h1, a, m, len).unwrap(), agg(&h2, c, b, len).unwrap());
        let all: Vec<i64> = h1.iter().chain(&h2).copied().collect();
        let want = live(&all, len, c, b);
        let up: i64 = want.iter().map(|x| x.1 - x.0).sum();
        check(&verif::interpolate(g.clone(), Some(p.clone())), &want, c, b, "interpolated");
        assert!(iv_us(interpolated_uptime(g.clone(), Some(p.clone()))) == up, "interpolated uptime");
        assert!(iv_us(interpolated_downtime(g.clone(), Some(p.clone()))) == b - c - up, "interpolated downtime");
        check(&arrow_heartbeat_agg_interpolate(g.clone(), stored(verif::acc::interpolate(Some(p.clone())))), &want, c, b, "interpolated by accessor");
        assert!(iv_us(arrow_heartbeat_agg_interpolated_uptime(g.clone(), stored(verif::acc::uptime(Some(p.clone()))))) == up);
        assert!(iv_us(arrow_heartbeat_agg_interpolated_downtime(g.clone(), stored(verif::acc::downtime(Some(p.clone()))))) == b - c - up);
        let own = live(&h2, len, c, b);
        check(&verif::interpolate(g.clone(), None), &own, c, b, "interpolated from nothing");
        check(&arrow_heartbeat_agg_interpolate(g.clone(), stored(verif::acc::interpolate(None))), &own, c, b, "interpolated from nothing");
        assert!(iv_us(arrow_heartbeat_agg_interpolated_uptime(g.clone(), stored(verif::acc::uptime(None)))) == own.iter().map(|x| x.1 - x.0).sum::<i64>());
    }
    // trimming keeps exactly the liveness inside the window; the result still rolls up and interpolates
    fn trimmed() {
        use ex::*;
        let a = any_in(0, 50) as i64;
        let len = any_in(1, 12) as i64;
        let b = a + len + any_in(1, 80) as i64;
        let h = beats(8, a, b);
        assume(!h.is_empty());
        let g = agg(&h, a, b, len).unwrap();
        let want = live(&h, len, a, b);
        let s = any_in(a as u64, b as u64) as i64;
        let e = any_in(s as u64, b as u64) as i64;
        assume(e > 0 && s < e);
        let t = trim_to(g.clone(), Some(ts(s)), Some(iv(e - s)));
        check(&t, &clip(&want, s, e), s, e, "trimmed to a window");
        check(&arrow_heartbeat_agg_trim_to(g.clone(), verif::acc::trim_to(ts(s), Some(iv(e - s)))), &clip(&want, s, e), s, e, "trimmed by accessor");
        if s < b {
            check(&trim_to(g.clone(), Some(ts(s)), None), &clip(&want, s, b), s, b, "trimmed from a start");
            check(&arrow_heartbeat_agg_trim_to(g.clone(), verif::acc::trim_to(ts(s), None)), &clip(&want, s, b), s, b, "trimmed from a start by accessor");
        }
        if e > a { check(&trim_to(g.clone(), None, Some(iv(e - a))), &clip(&want, a, e), a, e, "trimmed to an end"); }
        assert!(errs(|| { trim_to(g.clone(), Some(ts(a - 1)), None); }) && errs(|| { trim_to(g.clone(), Some(ts(s)), Some(iv(b - s + 1))); }), "outside the aggregate");
        // rolled up again with what lies before and behind
        let mid = trim_to(g.clone(), Some(ts(s)), Some(iv(e - s)));
        let r = rollup(vec![Some(mid.clone()), Some(g.clone())]);
        check(&r.unwrap(), &want, a, b, "window rolled up with the whole");
        let r = rollup(vec![Some(g.clone()), Some(mid)]);
        check(&r.unwrap(), &want, a, b, "whole rolled up with the window");
        // what its last heartbeat still keeps alive carries over into the next bucket
        let run = want.iter().filter(|x| x.0 < e && x.1 > s).last();
        let last = run.map(|x| h.iter().filter(|t| x.0 <= **t && **t < x.1).max().copied().unwrap());
        if last.map_or(true, |l| l < e) {
            let e2 = e + len + any_in(1, 30) as i64;
            let h2 = beats(6, e, e2);
            if let Some(next) = agg(&h2, e, e2, len) {
                let w: Vec<i64> = last.iter().chain(&h2).copied().collect();
                check(&verif::interpolate(next, Some(t)), &live(&w, len, e, e2), e, e2, "carried over from a window");
            }
        }
    }
}
