//! C15: state aggregates.
use crate::shim::*;
#[cfg(not(kani))]
use crate::sql::*;
#[cfg(not(kani))]
use timescaledb_toolkit::state_aggregate::*;
use timescaledb_toolkit::state_aggregate::verif::{self, acc, roll};

/// one-record or two-record part with integer states: states s[..n] at times from `at`
fn part(at: i64, n: usize, s: [i64; 2], g: i64, compact: bool) -> ((i64, i64, u32, u32), Vec<(i64, i64)>, Vec<(i64, i64, i64)>) {
    let (mut d, mut c) = (Vec::with_capacity(4), Vec::with_capacity(4));
    let last = if n == 1 { at } else { at + g };
    if n == 1 || s[0] == s[1] {
        d.push((s[0], last - at));
        if !compact { c.push((s[0], at, last)); }
        ((at, last, 0, 0), d, c)
    } else {
        d.push((s[0], last - at));
        d.push((s[1], 0));
        if !compact { c.push((s[0], at, last)); c.push((s[1], last, last)); }
        ((at, last, 0, 1), d, c)
    }
}
fn total(d: &[(i64, i64)], s: i64) -> i64 { let mut t = 0; for x in d { if x.0 == s { t += x.1 } } t }
fn occurs(d: &[(i64, i64)], s: i64) -> usize { let mut t = 0; for x in d { if x.0 == s { t += 1 } } t }
fn merged(compact: bool, n: usize, m: usize) {
    let (at, s, u) = (any_time(), [any_i64(), any_i64()], [any_i64(), any_i64()]);
    let (g, h) = (any_gap(), any_gap());
    let a = part(at, n, s, g, compact);
    let last = a.0.1;
    let gap = any_gap();
    let b = part(last + gap, m, u, h, compact);
    let sa = s[n - 1]; // the state at the end of the earlier part
    let q = if any_bool() { sa } else { any_i64() };
    let (da, db) = (total(&a.1, q), total(&b.1, q));
    let (na, nb) = (occurs(&a.1, q), occurs(&b.1, q));
    let end = b.0.1;
    let r = if any_bool() { roll::merge(a, b, compact) } else { roll::merge(b, a, compact) };
    assert!(r.0.0 == at && r.0.1 == end, "covers both parts");
    assert!(total(&r.1, q) == da + db + if q == sa { gap } else { 0 }, "durations add up, and the gap belongs to the earlier part's last state");
    assert!(occurs(&r.1, q) == if na + nb > 0 { 1 } else { 0 }, "one entry per state");
    assert!(r.1[r.0.2 as usize].0 == s[0] && r.1[r.0.3 as usize].0 == u[m - 1], "first and last state");
    if !compact {
        let t = &r.2;
        assert!(t[0].1 == at && t[t.len() - 1].2 == end);
        let mut d = 0;
        for (i, x) in t.iter().enumerate() {
            assert!(i == 0 || (t[i - 1].2 == x.1 && t[i - 1].0 != x.0), "the timeline is contiguous with alternating states");
            if x.0 == q { d += x.2 - x.1 }
        }
        assert!(d == da + db + if q == sa { gap } else { 0 });
    }
}

harnesses! {}

#[cfg(not(kani))]
mod ex {
    use super::*;
    use timescaledb_toolkit::state_aggregate::toolkit_experimental::CompactStateAgg;
    pub type A = StateAgg<'static>;
    pub type C = CompactStateAgg<'static>;
    pub const TXT: [&str; 8] = ["", "a", "ab", "b", "abc", "é", "ba", "STOPPED"];
    pub const INT: [i64; 8] = [0, -1, 1, i64::MAX, i64::MIN, 5, 6, 77];
    /// (time, index of state), None a row without state
    pub type R = (i64, Option<usize>);
    pub fn txt(k: usize) -> String { TXT[k].to_string() }
    pub fn step(s: Option<pgrx::Internal>, r: &R, int: bool, compact: bool) -> Option<pgrx::Internal> {
        let (s, t) = (st(s), ts(r.0));
        match (int, compact) {
            (false, false) => state_agg::state_agg_transition_fn_outer(s, t, r.1.map(txt), NUL),
            (false, true) => verif::compact_state_agg::compact_state_agg_transition_fn_outer(s, t, r.1.map(txt), NUL),
            (true, false) => verif::int_trans(s, t, r.1.map(|k| INT[k]), NUL),
            (true, true) => verif::compact_int_trans(s, t, r.1.map(|k| INT[k]), NUL),
        }
    }
    pub fn feed(rows: &[R], int: bool, compact: bool) -> Option<pgrx::Internal> {
        let mut s = None;
        for r in rows { s = step(s, r, int, compact) }
        s
    }
    /// aggregated in parallel parts that are serialized, restored and combined
    pub fn partial(rows: &[R], int: bool, compact: bool) -> Option<pgrx::Internal> {
        let k = any_in(0, rows.len() as u64) as usize;
        let (x, y) = (feed(&rows[..k], int, compact), feed(&rows[k..], int, compact));
        let ship = |s: Option<pgrx::Internal>| s.map(|s| if compact {
            verif::compact_state_agg::compact_state_agg_deserialize_fn_outer(verif::compact_state_agg::compact_state_agg_serialize_fn_outer(s), none()).unwrap()
        } else { state_agg::state_agg_deserialize_fn_outer(state_agg::state_agg_serialize_fn_outer(s), none()).unwrap() });
        let (x, y) = if any_bool() { (ship(x), ship(y)) } else { (x, y) };
        let (x, y) = if any_bool() { (x, y) } else { (y, x) };
        if compact { verif::compact_state_agg::compact_state_agg_combine_fn_outer(st(x), st(y), NUL) } else { state_agg::state_agg_combine_fn_outer(st(x), st(y), NUL) }
    }
    pub fn fin(s: Option<pgrx::Internal>) -> Option<A> { state_agg::state_agg_finally_fn_outer(st(s), NUL).map(stored) }
    pub fn cfin(s: Option<pgrx::Internal>) -> Option<C> { verif::compact_state_agg::compact_state_agg_finally_fn_outer(st(s), NUL).map(stored) }
    pub fn agg(rows: &[R], int: bool) -> Option<A> { fin(feed(rows, int, false)) }
    /// the model: maximal runs of equal state, in time order
    pub fn runs(rows: &[R]) -> Vec<(usize, i64, i64)> {
        let mut v: Vec<(i64, usize)> = rows.iter().filter_map(|r| r.1.map(|k| (r.0, k))).collect();
        v.sort();
        let mut o: Vec<(usize, i64, i64)> = vec![];
        for (t, k) in v {
            match o.last_mut() {
                Some(l) if l.0 == k => l.2 = t,
                Some(l) => { l.2 = t; o.push((k, t, t)) }
                None => o.push((k, t, t)),
            }
        }
        o
    }
    pub fn sums(t: &[(usize, i64, i64)]) -> Vec<(usize, i64)> {
        let mut v: Vec<(usize, i64)> = vec![];
        for k in 0..8 {
            if t.iter().any(|x| x.0 == k) { v.push((k, t.iter().filter(|x| x.0 == k).map(|x| x.2 - x.1).sum())) }
        }
        v
    }
    pub fn within(t: &[(usize, i64, i64)], k: usize, a: i64, b: i64) -> i64 {
        t.iter().filter(|x| x.0 == k).map(|x| (x.2.min(b) - x.1.max(a)).max(0)).sum()
    }
    fn key(s: String) -> usize { TXT.iter().position(|t| *t == s).unwrap_or_else(|| panic!("state {s:?} never occurred")) }
    fn ikey(s: i64) -> usize { INT.iter().position(|t| *t == s).unwrap_or_else(|| panic!("state {s} never occurred")) }
    fn same_sums(mut got: Vec<(usize, i64)>, want: &[(usize, i64)], what: &str) {
        got.sort();
        assert!(got == want, "{what}: durations {got:?}, expected {want:?}");
    }
    pub fn line<'a>(it: impl Iterator<Item = (String, timescaledb_toolkit::verif::TimestampTz, timescaledb_toolkit::verif::TimestampTz)>) -> Vec<(usize, i64, i64)> {
        it.map(|(s, a, b)| (key(s), us(a), us(b))).collect()
    }
    pub fn iline(it: impl Iterator<Item = (i64, timescaledb_toolkit::verif::TimestampTz, timescaledb_toolkit::verif::TimestampTz)>) -> Vec<(usize, i64, i64)> {
        it.map(|(s, a, b)| (ikey(s), us(a), us(b))).collect()
    }
    pub fn spans(it: impl Iterator<Item = (timescaledb_toolkit::verif::TimestampTz, timescaledb_toolkit::verif::TimestampTz)>) -> Vec<(i64, i64)> { it.map(|(a, b)| (us(a), us(b))).collect() }
    pub fn of(t: &[(usize, i64, i64)], k: usize) -> Vec<(i64, i64)> { t.iter().filter(|x| x.0 == k).map(|x| (x.1, x.2)).collect() }
    /// every observer agrees with the timeline
    pub fn check(g: &A, want: &[(usize, i64, i64)], int: bool, what: &str) {
        let g = || stored(g.clone());
        let got = if int { iline(state_int_timeline(g())) } else { line(state_timeline(g())) };
        assert!(got == want, "{what}: timeline {got:?}, expected {want:?}");
        let got = if int { iline(arrow_state_agg_state_int_timeline(g(), acc0!(AccessorStateIntTimeline))) } else { line(arrow_state_agg_state_timeline(g(), acc0!(AccessorStateTimeline))) };
        assert!(got == want, "{what}: timeline by accessor");
        let d = sums(want);
        if int {
            same_sums(into_values_tl_int(g()).map(|(s, d)| (ikey(s), iv_us(d))).collect(), &d, what);
            same_sums(arrow_state_agg_into_int_values(g(), acc0!(AccessorIntoIntValues)).map(|(s, d)| (ikey(s), iv_us(d))).collect(), &d, what);
        } else {
            same_sums(into_values_tl(g()).map(|(s, d)| (key(s), iv_us(d))).collect(), &d, what);
            same_sums(arrow_state_agg_into_values(g(), acc0!(AccessorIntoValues)).map(|(s, d)| (key(s), iv_us(d))).collect(), &d, what);
        }
        let (first, last) = (want[0].1, want[want.len() - 1].2);
        for k in 0..8 {
            let e = d.iter().find(|x| x.0 == k).map(|x| x.1).unwrap_or(0);
            let got = if int { [duration_in_tl_int(Some(g()), INT[k]), arrow_state_agg_duration_in_int(g(), acc::duration_int(INT[k]))] }
                else { [duration_in_tl(Some(g()), txt(k)), arrow_state_agg_duration_in_string(g(), stored(acc::duration(txt(k))))] }.map(iv_us);
            assert!(got == [e, e], "{what}: duration in state {k} is {got:?}, expected {e}");
            let p = of(want, k);
            if int { assert!(spans(state_int_periods(g(), INT[k])) == p && spans(arrow_state_agg_state_periods_int(g(), acc::periods_int(INT[k]))) == p, "{what}: periods"); }
            else { assert!(spans(state_periods(g(), txt(k))) == p && spans(arrow_state_agg_state_periods_string(g(), stored(acc::periods(txt(k))))) == p, "{what}: periods"); }
            let a = first - 3 + any_in(0, (last - first) as u64 + 6) as i64;
            let len = if any_bool() { None } else { Some(any_in(0, (last - first) as u64 + 6) as i64) };
            let e = within(want, k, a, len.map(|l| a + l).unwrap_or(i64::MAX));
            let got = if int { [duration_in_range_int(Some(g()), INT[k], ts(a), len.map(iv)), arrow_state_agg_duration_in_range_int(g(), acc::range_int(INT[k], ts(a), len.map(iv)))] }
                else { [duration_in_range(Some(g()), txt(k), ts(a), len.map(iv)), arrow_state_agg_duration_in_range_string(g(), stored(acc::range(txt(k), ts(a), len.map(iv))))] }.map(iv_us);
            assert!(got == [e, e], "{what}: duration in state {k} from {a} for {len:?} is {got:?}, expected {e}");
        }
        for t in want.iter().flat_map(|x| [x.1, x.2 - 1, x.1 + 1]).chain([first - 1, last + 5]) {
            let e = want.iter().filter(|x| x.1 <= t).last().map(|x| x.0);
            let got = if int { [verif::state_at_int(g(), ts(t)), arrow_state_agg_state_at_int(g(), acc::at_int(ts(t)))].map(|o| o.map(ikey)) }
                else { [verif::state_at(g(), ts(t)), arrow_state_agg_state_at_string(g(), acc::at(ts(t)))].map(|o| o.map(key)) };
            assert!(got == [e, e], "{what}: state at {t} is {got:?}, expected {e:?}");
        }
    }
    pub fn ccheck(g: &C, want: &[(usize, i64, i64)], int: bool, what: &str) {
        let g = || stored(g.clone());
        let d = sums(want);
        if int { same_sums(into_int_values(g()).map(|(s, d)| (ikey(s), iv_us(d))).collect(), &d, what) }
        else { same_sums(into_values(g()).map(|(s, d)| (key(s), iv_us(d))).collect(), &d, what) }
        for k in 0..8 {
            let e = d.iter().find(|x| x.0 == k).map(|x| x.1).unwrap_or(0);
            let got = iv_us(if int { duration_in_int(Some(g()), INT[k]) } else { duration_in(Some(g()), txt(k)) });
            assert!(got == e, "{what}: duration in state {k} of the compact aggregate is {got}, expected {e}");
        }
    }
    /// rows at distinct times (some repeated with the same state), in any order
    pub fn rows(n: u64, from: i64) -> Vec<R> {
        let m = any_in(1, 8);
        let mut t = from;
        let mut v: Vec<R> = vec![];
        for _ in 0..any_in(1, n) {
            t += any_in(1, 20) as i64;
            v.push((t, if any_in(0, 7) == 0 { None } else { Some(any_in(0, m - 1) as usize) }));
            if any_in(0, 7) == 0 { v.push(*v.last().unwrap()) }
        }
        v
    }
    pub fn shuffled(v: &[R]) -> Vec<R> {
        let mut v = v.to_vec();
        if any_bool() { for i in (1..v.len()).rev() { let j = any_in(0, i as u64) as usize; v.swap(i, j) } }
        v
    }
    pub fn pos(rows: &[R]) -> Vec<R> { rows.iter().filter(|r| r.1.is_some()).copied().collect() }
}

executed! {
    // merging two parts of one or two records with integer states, over the full range of times and states
    fn merge_parts() { merged(any_bool(), any_in(1, 2) as usize, any_in(1, 2) as usize) }
    // what one aggregate says about its rows, in any order of arrival, in parallel parts, through storage and back
    fn single_aggregate() {
        use ex::*;
        let (int, r) = (any_bool(), rows(9, any_in(0, 40) as i64 - 20));
        let want = runs(&r);
        let s = shuffled(&r);
        let (g, c) = (agg(&s, int), cfin(feed(&s, int, true)));
        if want.is_empty() { assert!(g.is_none() && c.is_none()); return }
        check(&g.unwrap(), &want, int, "aggregate");
        ccheck(&c.unwrap(), &want, int, "aggregate");
        check(&fin(partial(&s, int, false)).unwrap(), &want, int, "parallel aggregate");
        ccheck(&cfin(partial(&s, int, true)).unwrap(), &want, int, "parallel aggregate");
    }
    // the final function does not change the state: called again, also after more rows, as over a window frame
    fn finalized_twice() {
        use ex::*;
        let (int, r) = (any_bool(), rows(9, 0));
        let s = shuffled(&r);
        let k = any_in(0, s.len() as u64) as usize;
        for compact in [false, true] {
            let mut x = feed(&s[..k], int, compact);
            let Some(d) = x.as_ref().map(|s| pgrx::IntoDatum::into_datum(unsafe { std::ptr::read(s) })) else { continue };
            for _ in 0..2 {
                let x = Some(pgrx::Internal::from(d));
                if compact { ccheck(&cfin(x).unwrap(), &runs(&s[..k]), int, "first final") } else { check(&fin(x).unwrap(), &runs(&s[..k]), int, "first final") }
            }
            for y in &s[k..] { x = step(x, y, int, compact) }
            if compact { ccheck(&cfin(x).unwrap(), &runs(&s), int, "final after more rows") } else { check(&fin(x).unwrap(), &runs(&s), int, "final after more rows") }
        }
    }
    // two states at one time are refused
    fn conflicts_refused() {
        use ex::*;
        let (int, mut r) = (any_bool(), pos(&rows(6, 0)));
        assume(!r.is_empty());
        let x = r[any_in(0, r.len() as u64 - 1) as usize];
        r.push((x.0, Some((x.1.unwrap() + 1) % 8)));
        let r = shuffled(&r);
        assert!(errs(|| { agg(&r, int); }) && errs(|| { cfin(feed(&r, int, true)); }), "two states at the same time");
    }
    // rolling up consecutive parts, in any order, is aggregating everything at once
    fn rollup_is_one_aggregate() {
        use ex::*;
        let (int, r) = (any_bool(), rows(12, 0));
        let mut parts: Vec<Vec<R>> = vec![vec![]];
        for (i, x) in r.iter().enumerate() {
            if any_in(0, 2) == 0 && (i == 0 || r[i - 1].0 != x.0) { parts.push(vec![]) }
            parts.last_mut().unwrap().push(*x);
        }
        let want = runs(&r);
        for i in (1..parts.len()).rev() { let j = any_in(0, i as u64) as usize; parts.swap(i, j) }
        let split = any_in(0, parts.len() as u64) as usize;
        // parts shipped between workers are merged before they are sent, so they must not interleave
        let ship = any_bool();
        if ship { parts.sort_by_key(|p| p.iter().map(|x| x.0).min()); if any_bool() { parts[..split].reverse() } }
        let half = |compact: bool, p: &[Vec<R>]| {
            let mut s = None;
            for x in p {
                s = if compact { rollup::compact_state_agg_rollup_trans(st(s), cfin(feed(x, int, true)), NUL) } else { rollup::state_agg_rollup_trans(st(s), agg(x, int), NUL) }
            }
            if ship { s.map(|s| rollup::state_agg_rollup_deserialize(rollup::state_agg_rollup_serialize(s), none()).unwrap()) } else { s }
        };
        for compact in [false, true] {
            let s = rollup::state_agg_rollup_combine(st(half(compact, &parts[..split])), st(half(compact, &parts[split..])), NUL);
            let d = s.map(|s| pgrx::IntoDatum::into_datum(s));
            for _ in 0..2 {
                let s = d.map(pgrx::Internal::from);
                if compact {
                    let g = roll::compact_finish(st(s), NUL);
                    if want.is_empty() { assert!(g.is_none()) } else { ccheck(&g.unwrap(), &want, int, "rollup") }
                } else {
                    let g = roll::finish(st(s), NUL);
                    if want.is_empty() { assert!(g.is_none()) } else { check(&g.unwrap(), &want, int, "rollup") }
                }
            }
        }
        // overlapping aggregates are refused
        let p = pos(&r);
        if p.len() > 2 && p[0].0 < p[1].0 && p[1].0 < p[2].0 {
            let (a, b) = (agg(&[p[0], p[2]], int), agg(&[p[1]], int));
            let s = rollup::state_agg_rollup_trans(none(), a, NUL);
            let s = rollup::state_agg_rollup_trans(st(s), b, NUL);
            assert!(errs(|| { roll::finish(st(s), NUL); }), "overlapping aggregates");
        }
    }
    // a bucket completed with the last state of the previous one, and held to the bucket's end
    fn interpolated() {
        use ex::*;
        let int = any_bool();
        let r1 = pos(&rows(5, 0));
        let at = r1.iter().map(|x| x.0).max().unwrap_or(0);
        let start = at + any_in(0, 15) as i64;
        let r2 = pos(&rows(5, start - 1));
        assume(!r2.is_empty());
        let (p, g) = (if any_in(0, 3) == 0 { None } else { agg(&r1, int) }, agg(&r2, int).unwrap());
        let (cp, c) = (p.as_ref().and(cfin(feed(&r1, int, true))), cfin(feed(&r2, int, true)).unwrap());
        let (first, last) = (r2[0].0, r2.iter().map(|x| x.0).max().unwrap());
        let end = if any_bool() { last + any_in(0, 20) as i64 } else { start + any_in(0, (last - start) as u64) as i64 };
        let len = end - start;
        let mut t = runs(&r2);
        if let (Some(_), true) = (&p, start < first) {
            let k = runs(&r1).last().unwrap().0;
            if t[0].0 == k { t[0].1 = start } else { t.insert(0, (k, start, first)) }
        }
        if end > last { t.last_mut().unwrap().2 = end }
        let (a, p) = (|| Some(stored(g.clone())), || p.clone().map(stored));
        let (s, d) = (|| ts(start), || iv(len));
        let got = if int { [iline(interpolated_state_int_timeline(a(), s(), d(), p())), iline(arrow_state_agg_interpolated_state_int_timeline(a(), stored(acc::i_int_timeline(s(), d(), p()))))] }
            else { [line(interpolated_state_timeline(a(), s(), d(), p())), line(arrow_state_agg_interpolated_state_timeline(a(), stored(acc::i_timeline(s(), d(), p()))))] };
        assert!(got[0] == t && got[1] == t, "interpolated timeline {got:?}, expected {t:?}");
        for k in 0..8 {
            let e = of(&t, k);
            let got = if int { [spans(interpolated_state_periods_int(a(), INT[k], s(), d(), p())), spans(arrow_state_agg_interpolated_state_periods_int(a(), stored(acc::i_periods_int(INT[k], s(), d(), p()))))] }
                else { [spans(interpolated_state_periods(a(), txt(k), s(), d(), p())), spans(arrow_state_agg_interpolated_state_periods_string(a(), stored(acc::i_periods(txt(k), s(), d(), p()))))] };
            assert!(got[0] == e && got[1] == e, "interpolated periods of {k}: {got:?}, expected {e:?}");
            let e = within(&t, k, start, end);
            let got = if int { [interpolated_duration_in_tl_int(a(), INT[k], s(), d(), p()), arrow_state_agg_interpolated_duration_in_int(a(), stored(acc::i_duration_int(INT[k], s(), d(), p())))] }
                else { [interpolated_duration_in_tl(a(), txt(k), s(), d(), p()), arrow_state_agg_interpolated_duration_in_string(a(), stored(acc::i_duration(txt(k), s(), d(), p())))] }.map(iv_us);
            assert!(got == [e, e], "interpolated duration in {k} is {got:?}, expected {e}");
            if end >= last {
                let got = iv_us(if int { interpolated_duration_in_int(Some(stored(c.clone())), INT[k], s(), d(), cp.clone().map(stored)) } else { interpolated_duration_in(Some(stored(c.clone())), txt(k), s(), d(), cp.clone().map(stored)) });
                assert!(got == e, "interpolated duration in {k} of the compact aggregate is {got}, expected {e}");
            }
        }
    }
}
