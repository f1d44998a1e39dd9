//! C11: statistical summaries: the stored sums are the power sums and central moments of the values, under
//! adding, removing, combining, un-combining and shifting; the statistics are the textbook functions of them.
//! Real-arithmetic obligations: the real generic code runs on symbolic reals (sym.rs).
use crate::shim::*;
use stats_agg::stats1d::StatsSummary1D as S1;
use stats_agg::stats2d::StatsSummary2D as S2;
use stats_agg::XYPair;
harnesses! {
    // counting and emptiness, machine arithmetic
    fn counts() {
        let (mut s, mut t) = (S1::<f64>::new(), S2::<f64>::new());
        assert!(s.n == 0 && s.count() == 0 && t.n == 0 && t.count() == 0, "new summaries are empty");
        assert!(s.sum().is_none() && s.avg().is_none() && s.var_pop().is_none() && s.var_samp().is_none(), "statistics of nothing");
        assert!(t.sum().is_none() && t.avg().is_none() && t.var_pop().is_none() && t.var_samp().is_none() && t.slope().is_none() && t.intercept().is_none() && t.corr().is_none()
            && t.covar_pop().is_none() && t.covar_samp().is_none() && t.determination_coeff().is_none() && t.sum_squares().is_none() && t.sumxy().is_none(), "statistics of nothing");
        let (x, y) = (any_f64(), any_f64());
        assert!(s.accum(x).is_ok() && t.accum(XYPair { x, y }).is_ok(), "one value never overflows");
        assert!(s.n == 1 && t.n == 1, "one value");
        if x.is_finite() && y.is_finite() {
            assert!(s.sx == x && s.sx2 == 0.0 && s.sx3 == 0.0 && s.sx4 == 0.0, "moments of one value");
            assert!(t.sx == x && t.sy == y && t.sx2 == 0.0 && t.sy2 == 0.0 && t.sxy == 0.0, "moments of one pair");
        } else {
            assert!(x.is_finite() || (s.sx2.is_nan() && t.sx2.is_nan() && t.sxy.is_nan()), "an infinite value has no moments");
            assert!(y.is_finite() || (t.sy2.is_nan() && t.sxy.is_nan()), "an infinite value has no moments");
        }
        reach!(x.is_finite() && !y.is_finite(), "one infinite");
    }
    fn empty_is_neutral() {
        let e = S1::<f64>::new();
        let s = S1 { n: 5, sx: any_f64(), sx2: any_f64(), sx3: any_f64(), sx4: any_f64() };
        let same = |a: S1<f64>, b: S1<f64>| a.n == b.n && a.sx.to_bits() == b.sx.to_bits() && a.sx2.to_bits() == b.sx2.to_bits() && a.sx3.to_bits() == b.sx3.to_bits() && a.sx4.to_bits() == b.sx4.to_bits();
        assert!(same(e.combine(s).unwrap(), s) && same(s.combine(e).unwrap(), s), "combining with an empty summary");
        assert!(same(s.remove_combined(e).unwrap(), s), "removing an empty summary");
        assert!(same(e.combine(e).unwrap(), e), "combining empty summaries");
        assert!(s.remove_combined(s).unwrap().n == 0, "removing everything");
    }
}
#[cfg(not(kani))]
mod ex {
    use super::*;
    // rounding after a removal is relative to what was removed
    thread_local! { pub static BIG: std::cell::Cell<f64> = const { std::cell::Cell::new(1.0) }; }
    pub fn scale(v: &[(f64, f64)]) { BIG.with(|b| b.set(v.iter().fold(1.0f64, |a, p| a.max(p.0.abs()).max(p.1.abs())))) }
    pub fn val() -> f64 { match any_in(0, 4) { 0 => any_in(0, 3) as f64, 1 => any_in(0, 100) as f64 - 50.0, 2 => any_in(0, 20) as f64 / 4.0, 3 => -(any_in(0, 9) as f64), _ => any_in(0, 1000) as f64 } }
    pub fn vals(lo: u64, hi: u64) -> Vec<(f64, f64)> { (0..any_in(lo, hi)).map(|_| (val(), val())).collect() }
    pub fn mom(v: &[f64], k: i32) -> f64 { let m = v.iter().sum::<f64>() / v.len() as f64; v.iter().map(|x| (x - m).powi(k)).sum() }
    pub fn near(a: f64, b: f64, scale: f64) -> bool { (a - b).abs() <= 1e-9 * (1.0 + scale) }
    pub fn check1(s: &S1<f64>, v: &[f64]) {
        let n = v.len();
        assert!(s.n == n as u64 && s.count() == n as i64, "number of values");
        if n == 0 { assert!(s.sx == 0.0 && s.sx2 == 0.0 && s.sum().is_none() && s.avg().is_none() && s.stddev_pop().is_none(), "no values"); return }
        let big = v.iter().fold(BIG.with(|b| b.get()), |a, x| a.max(x.abs()));
        let sc = |k: i32| n as f64 * (2.0 * big).powi(k);
        assert!(near(s.sx, v.iter().sum(), sc(1)), "sum");
        assert!(near(s.sx2, mom(v, 2), sc(2)), "second moment");
        assert!(near(s.sx3, mom(v, 3), sc(3)), "third moment");
        assert!(near(s.sx4, mom(v, 4), sc(4)), "fourth moment");
        assert!(near(s.avg().unwrap(), v.iter().sum::<f64>() / n as f64, big) && s.sum() == Some(s.sx), "average and sum");
        assert!(near(s.var_pop().unwrap(), s.sx2 / n as f64, sc(2)), "population variance");
        if n > 1 { assert!(near(s.var_samp().unwrap(), s.sx2 / (n - 1) as f64, sc(2)), "sample variance");
            if s.sx2 > 1e-2 * big * big {
                let (p, q) = (s.stddev_pop().unwrap(), s.stddev_samp().unwrap());
                assert!(near(p * p, s.sx2 / n as f64, sc(2)) && near(q * q, s.sx2 / (n - 1) as f64, sc(2)), "standard deviations");
                let r = |a: f64, b: f64| (a - b).abs() <= 1e-6 * (1.0 + b.abs());
                assert!(r(s.skewness_pop().unwrap(), s.sx3 / n as f64 / p.powi(3)) && r(s.skewness_samp().unwrap(), s.sx3 / (n - 1) as f64 / q.powi(3)), "skewness");
                assert!(r(s.kurtosis_pop().unwrap(), s.sx4 / n as f64 / p.powi(4)) && r(s.kurtosis_samp().unwrap(), s.sx4 / (n - 1) as f64 / q.powi(4)), "kurtosis");
            }
        }
    }
    pub fn check2(s: &S2<f64>, v: &[(f64, f64)]) {
        let n = v.len();
        let (x, y): (Vec<f64>, Vec<f64>) = v.iter().copied().unzip();
        check1(&S1 { n: s.n, sx: s.sx, sx2: s.sx2, sx3: s.sx3, sx4: s.sx4 }, &x);
        check1(&S1 { n: s.n, sx: s.sy, sx2: s.sy2, sx3: s.sy3, sx4: s.sy4 }, &y);
        if n == 0 { assert!(s.sxy == 0.0 && s.slope().is_none() && s.corr().is_none() && s.x_intercept().is_none(), "no pairs"); return }
        let big = x.iter().chain(&y).fold(BIG.with(|b| b.get()), |a, x| a.max(x.abs()));
        let (mx, my) = (x.iter().sum::<f64>() / n as f64, y.iter().sum::<f64>() / n as f64);
        let sxy: f64 = v.iter().map(|p| (p.0 - mx) * (p.1 - my)).sum();
        assert!(near(s.sxy, sxy, n as f64 * 4.0 * big * big), "co-moment");
        let r = |a: f64, b: f64| (a - b).abs() <= 1e-6 * (1.0 + b.abs() + big * big);
        assert!(r(s.covar_pop().unwrap(), s.sxy / n as f64) && s.covar_samp().is_none() == (n == 1), "covariance");
        if n > 1 { assert!(r(s.covar_samp().unwrap(), s.sxy / (n - 1) as f64), "sample covariance"); }
        let p = s.avg().unwrap(); assert!(r(p.x, mx) && r(p.y, my), "averages");
        let w = s.sum().unwrap(); assert!(w.x == s.sx && w.y == s.sy, "sums");
        if s.sx2 == 0.0 { assert!(s.slope().is_none() && s.intercept().is_none() && s.corr().is_none(), "no slope for one x"); }
        if s.sx2 > 1e-2 * big * big {
            let b = s.sxy / s.sx2;
            assert!(r(s.slope().unwrap(), b) && r(s.intercept().unwrap(), my - b * mx), "regression line");
            if s.sy2 > 1e-2 * big * big {
                assert!(r(s.corr().unwrap(), s.sxy / (s.sx2.sqrt() * s.sy2.sqrt())) && r(s.determination_coeff().unwrap(), s.sxy * s.sxy / s.sx2 / s.sy2), "correlation");
                if b.abs() > 1e-1 { assert!(r(s.x_intercept().unwrap(), -(my - b * mx) / b), "x intercept"); }
            }
        }
        if s.sx2 == 0.0 && n > 1 { assert!(r(s.x_intercept().unwrap(), mx), "vertical line"); }
    }
    pub fn s1(v: &[(f64, f64)]) -> S1<f64> { S1::new_from_vec(v.iter().map(|p| p.0).collect()).unwrap() }
    pub fn s2(v: &[(f64, f64)]) -> S2<f64> { S2::new_from_vec(v.iter().map(|p| XYPair { x: p.0, y: p.1 }).collect()).unwrap() }
    pub fn xs(v: &[(f64, f64)]) -> Vec<f64> { v.iter().map(|p| p.0).collect() }
}
executed! {
    fn add_history() {
        use ex::*;
        scale(&[]);
        let v = vals(0, 30);
        check1(&s1(&v), &xs(&v));
        check2(&s2(&v), &v);
    }
    fn combine_parts() {
        use ex::*;
        scale(&[]);
        let (a, b, c) = (vals(0, 12), vals(0, 12), vals(0, 4));
        let all = [a.clone(), b.clone(), c.clone()].concat();
        check1(&s1(&a).combine(s1(&b)).unwrap().combine(s1(&c)).unwrap(), &xs(&all));
        check2(&s2(&a).combine(s2(&b).combine(s2(&c)).unwrap()).unwrap(), &all);
    }
    fn remove_values() {
        use ex::*;
        let v = vals(1, 20);
        scale(&v);
        let k = any_in(1, v.len() as u64) as usize;
        let (mut s, mut t) = (Some(s1(&v)), Some(s2(&v)));
        for i in 0..k {
            s = s.and_then(|s| s.remove(v[i].0));
            if let Some(s) = &s { check1(s, &xs(&v[i + 1..])); }
            t = t.and_then(|t| t.remove(XYPair { x: v[i].0, y: v[i].1 }));
            if let Some(t) = &t { check2(t, &v[i + 1..]); }
        }
        assert!(s1(&v).remove(f64::INFINITY).is_none() && s1(&v).remove(f64::NAN).is_none(), "removing an infinity recomputes");
    }
    fn remove_parts() {
        use ex::*;
        let (a, b) = (vals(0, 12), vals(0, 12));
        let all = [a.clone(), b.clone()].concat();
        scale(&all);
        if let Some(s) = s1(&all).remove_combined(s1(&b)) { check1(&s, &xs(&a)); }
        if let Some(s) = s2(&all).remove_combined(s2(&b)) { check2(&s, &a); }
    }
    fn shift() {
        use ex::*;
        scale(&[]);
        let v = vals(0, 12);
        let (dx, dy) = (val(), val());
        let mut s = s2(&v);
        s.offset(XYPair { x: dx, y: dy }).unwrap();
        check2(&s, &v.iter().map(|p| (p.0 + dx, p.1 + dy)).collect::<Vec<_>>());
    }
    fn extended_precision_agrees() {
        use ex::*;
        scale(&[]);
        use stats_agg::TwoFloat;
        let v = vals(0, 20);
        let mut s = S1::<TwoFloat>::new();
        let mut t = S2::<TwoFloat>::new();
        for p in &v { s.accum(p.0.into()).unwrap(); t.accum(XYPair { x: p.0.into(), y: p.1.into() }).unwrap(); }
        let s: S1<f64> = s.into();
        let t: S2<f64> = t.into();
        check1(&s, &xs(&v));
        check2(&t, &v);
        let u: S1<TwoFloat> = s.into();
        let w: S1<f64> = u.into();
        assert!(w == s, "conversion there and back");
    }
    fn infinities() {
        use ex::*;
        scale(&[]);
        let mut v = vals(0, 6);
        let special = [f64::INFINITY, f64::NEG_INFINITY, f64::NAN][any_in(0, 2) as usize];
        v.insert(any_in(0, v.len() as u64) as usize, (special, 1.0));
        let (s, t) = (s1(&v), s2(&v));
        assert!(s.n == v.len() as u64 && t.n == s.n, "number of values");
        assert!(if special.is_nan() { s.sx.is_nan() } else { s.sx == special }, "sum with an infinity");
        assert!(s.sx2.is_nan() && t.sx2.is_nan() && t.sxy.is_nan(), "no moments with an infinity");
        assert!(t.sy2.is_finite() && near(t.sy, v.iter().map(|p| p.1).sum(), 1e4), "the other coordinate is unaffected");
        // finite values that overflow are reported
        let mut o = S1::new_from_vec(vec![f64::MAX / 2.0]).unwrap();
        assert!(o.accum(-f64::MAX).is_err(), "overflow is reported");
    }
}

// ---- obligations over the reals ----
#[cfg(not(kani))]
pub mod real {
    use super::*;
    use crate::sym::*;
    const N: u64 = 1_000_003;
    const M: u64 = 7_000_000_019;
    fn bases() { count(N, "n"); count(M, "m"); }
    fn p(b: R, k: usize) -> R { let mut r = int(1); for _ in 0..k { r = r * b } r }
    /// count and power sums of a multiset of pairs
    #[derive(Clone, Copy)]
    struct W { k: u64, n: R, x: [R; 4], y: [R; 4], xy: R }
    fn generic(k: u64, n: &str, t: &str) -> W {
        let v = |s: &str| var(&format!("{t}{s}"));
        W { k, n: var(n), x: [v("x1"), v("x2"), v("x3"), v("x4")], y: [v("y1"), v("y2"), v("y3"), v("y4")], xy: v("xy") }
    }
    fn of(v: &[(R, R)]) -> W {
        let s = |f: &dyn Fn(&(R, R)) -> R| v.iter().map(f).fold(int(0), |a, b| a + b);
        W { k: v.len() as u64, n: int(v.len() as i128), x: [1, 2, 3, 4].map(|k| s(&|q| p(q.0, k))), y: [1, 2, 3, 4].map(|k| s(&|q| p(q.1, k))), xy: s(&|q| q.0 * q.1) }
    }
    fn plus(a: W, b: W) -> W {
        let z = |i: usize| (a.x[i] + b.x[i], a.y[i] + b.y[i]);
        W { k: a.k + b.k, n: a.n + b.n, x: [z(0).0, z(1).0, z(2).0, z(3).0], y: [z(0).1, z(1).1, z(2).1, z(3).1], xy: a.xy + b.xy }
    }
    /// central moments from power sums
    fn cm(n: R, s: [R; 4]) -> [R; 4] {
        let [a, b, c, d] = s;
        [a, b - a * a / n, c - int(3) * a * b / n + int(2) * p(a, 3) / p(n, 2),
         d - int(4) * a * c / n + int(6) * a * a * b / p(n, 2) - int(3) * p(a, 4) / p(n, 3)]
    }
    fn s1(w: W) -> S1<R> { if w.k == 0 { return S1::new() } let m = cm(w.n, w.x); S1 { n: w.k, sx: m[0], sx2: m[1], sx3: m[2], sx4: m[3] } }
    fn s2(w: W) -> S2<R> {
        if w.k == 0 { return S2::new() }
        let (m, o) = (cm(w.n, w.x), cm(w.n, w.y));
        S2 { n: w.k, sx: m[0], sx2: m[1], sx3: m[2], sx4: m[3], sy: o[0], sy2: o[1], sy3: o[2], sy4: o[3], sxy: w.xy - w.x[0] * w.y[0] / w.n }
    }
    fn eq1(name: &str, g: &S1<R>, w: W) {
        fact(&format!("{name}: number of values"), g.n == w.k);
        let s = s1(w);
        for (f, a, b) in [("sum", g.sx, s.sx), ("second moment", g.sx2, s.sx2), ("third moment", g.sx3, s.sx3), ("fourth moment", g.sx4, s.sx4)] { vc(&format!("{name}: {f}"), a, b) }
    }
    fn eq2(name: &str, g: &S2<R>, w: W) {
        fact(&format!("{name}: number of values"), g.n == w.k);
        let s = s2(w);
        for (f, a, b) in [("x sum", g.sx, s.sx), ("x second moment", g.sx2, s.sx2), ("x third moment", g.sx3, s.sx3), ("x fourth moment", g.sx4, s.sx4),
            ("y sum", g.sy, s.sy), ("y second moment", g.sy2, s.sy2), ("y third moment", g.sy3, s.sy3), ("y fourth moment", g.sy4, s.sy4), ("co-moment", g.sxy, s.sxy)] { vc(&format!("{name}: {f}"), a, b) }
    }
    fn pt(i: usize) -> (R, R) { (var(&format!("px{i}")), var(&format!("py{i}"))) }
    fn pts(n: usize) -> Vec<(R, R)> { (0..n).map(pt).collect() }
    /// the multisets the obligations range over: an arbitrary one of n values, and every one of 0..=3 values
    fn cases(base: u64, n: &str, t: &str) -> Vec<(String, W)> {
        let mut r = vec![(format!("any {n}"), generic(base, n, t))];
        for k in 0..=3usize { r.push((format!("{n}={k}"), of(&(0..k).map(|i| (var(&format!("{t}px{i}")), var(&format!("{t}py{i}")))).collect::<Vec<_>>()))) }
        r
    }
    pub fn all() {
        for c in 0..5 { paths(|_| { bases(); let (l, w) = cases(N, "n", "s").swap_remove(c);
            let q = pt(9);
            let z = plus(w, of(&[q]));
            let mut s = s1(w); let mut t = s2(w);
            fact(&format!("add ({l}): accepted"), s.accum(q.0).is_ok() && t.accum(XYPair { x: q.0, y: q.1 }).is_ok());
            eq1(&format!("add 1d ({l})"), &s, z); eq2(&format!("add 2d ({l})"), &t, z);
        }); }
        for c in 0..5 { paths(|_| { bases(); let (l, w) = cases(N, "n", "s").swap_remove(c);
            let q = pt(9);
            let z = plus(w, of(&[q]));
            // None asks for a recomputation and is always allowed
            if let Some(s) = s1(z).remove(q.0) { eq1(&format!("remove 1d ({l})"), &s, w) }
        });
        paths(|_| { bases(); let (l, w) = cases(N, "n", "s").swap_remove(c);
            let q = pt(9);
            let z = plus(w, of(&[q]));
            if let Some(t) = s2(z).remove(XYPair { x: q.0, y: q.1 }) { eq2(&format!("remove 2d ({l})"), &t, w) }
        }); }
        for c in 0..5 { for d in 0..5 {
            let get = || { bases(); let (l, w) = cases(N, "n", "s").swap_remove(c); let (k, v) = cases(M, "m", "t").swap_remove(d); (format!("{l}, {k}"), w, v) };
            paths(|_| { let (l, w, v) = get();
                match s1(w).combine(s1(v)) { Ok(s) => eq1(&format!("combine 1d ({l})"), &s, plus(w, v)), Err(_) => fact(&format!("combine 1d ({l}): accepted"), false) }
                match s2(w).combine(s2(v)) { Ok(s) => eq2(&format!("combine 2d ({l})"), &s, plus(w, v)), Err(_) => fact(&format!("combine 2d ({l}): accepted"), false) } });
            paths(|_| { let (l, w, v) = get();
                if let Some(s) = s1(plus(w, v)).remove_combined(s1(v)) { eq1(&format!("un-combine 1d ({l})"), &s, w) } });
            paths(|_| { let (l, w, v) = get();
                if let Some(s) = s2(plus(w, v)).remove_combined(s2(v)) { eq2(&format!("un-combine 2d ({l})"), &s, w) } });
        } }
        for c in 0..5 { paths(|_| { bases(); let (l, w) = cases(N, "n", "s").swap_remove(c);
            let (cx, cy) = pt(8);
            // power sums of the shifted values
            let sh = |s: [R; 4], c: R| { let n = w.n; [s[0] + n * c, s[1] + int(2) * c * s[0] + n * c * c,
                s[2] + int(3) * c * s[1] + int(3) * c * c * s[0] + n * p(c, 3),
                s[3] + int(4) * c * s[2] + int(6) * c * c * s[1] + int(4) * p(c, 3) * s[0] + n * p(c, 4)] };
            let z = W { x: sh(w.x, cx), y: sh(w.y, cy), xy: w.xy + cx * w.y[0] + cy * w.x[0] + w.n * cx * cy, ..w };
            let mut t = s2(w);
            fact(&format!("shift ({l}): accepted"), t.offset(XYPair { x: cx, y: cy }).is_ok());
            eq2(&format!("shift ({l})"), &t, z);
        }); }
        // statistics of an arbitrary summary (the fields are free symbols)
        let st1 = || { bases(); S1 { n: N, sx: var("sx"), sx2: var("sx2"), sx3: var("sx3"), sx4: var("sx4") } };
        let st2 = || { bases(); S2 { n: N, sx: var("sx"), sx2: var("sx2"), sx3: var("sx3"), sx4: var("sx4"), sy: var("sy"), sy2: var("sy2"), sy3: var("sy3"), sy4: var("sy4"), sxy: var("sxy") } };
        let n = || var("n");
        use num_traits::Float;
        let opt = |name: &str, g: Option<R>, w: R| match g { Some(g) => vc(name, g, w), None => fact(&format!("{name}: defined"), false) };
        paths(|_| { let s = st1();
            let (vp, vs) = (s.sx2 / n(), s.sx2 / (n() - int(1)));
            opt("1d average", s.avg(), s.sx / n()); opt("1d sum", s.sum(), s.sx);
            opt("1d population variance", s.var_pop(), vp); opt("1d sample variance", s.var_samp(), vs);
            opt("1d population deviation", s.stddev_pop(), vp.sqrt()); opt("1d sample deviation", s.stddev_samp(), vs.sqrt());
            opt("1d population skewness", s.skewness_pop(), s.sx3 / n() / p(vp.sqrt(), 3)); opt("1d sample skewness", s.skewness_samp(), s.sx3 / (n() - int(1)) / p(vs.sqrt(), 3));
            opt("1d population kurtosis", s.kurtosis_pop(), s.sx4 / n() / p(vp.sqrt(), 4)); opt("1d sample kurtosis", s.kurtosis_samp(), s.sx4 / (n() - int(1)) / p(vs.sqrt(), 4));
        });
        paths(|_| { let s = st2();
            let pair = |name: &str, g: Option<XYPair<R>>, f: &dyn Fn(R, R, R, R) -> R| match g {
                Some(g) => { vc(&format!("{name} of x"), g.x, f(s.sx, s.sx2, s.sx3, s.sx4)); vc(&format!("{name} of y"), g.y, f(s.sy, s.sy2, s.sy3, s.sy4)) }
                None => fact(&format!("{name}: defined"), false) };
            let q = || n() - int(1);
            pair("average", s.avg(), &|a, _, _, _| a / n()); pair("sum", s.sum(), &|a, _, _, _| a); pair("sum of squares", s.sum_squares(), &|_, b, _, _| b);
            pair("population variance", s.var_pop(), &|_, b, _, _| b / n()); pair("sample variance", s.var_samp(), &|_, b, _, _| b / q());
            pair("population deviation", s.stddev_pop(), &|_, b, _, _| (b / n()).sqrt()); pair("sample deviation", s.stddev_samp(), &|_, b, _, _| (b / q()).sqrt());
            pair("population skewness", s.skewness_pop(), &|_, b, c, _| c / n() / p((b / n()).sqrt(), 3)); pair("sample skewness", s.skewness_samp(), &|_, b, c, _| c / q() / p((b / q()).sqrt(), 3));
            pair("population kurtosis", s.kurtosis_pop(), &|_, b, _, d| d / n() / p((b / n()).sqrt(), 4)); pair("sample kurtosis", s.kurtosis_samp(), &|_, b, _, d| d / q() / p((b / q()).sqrt(), 4));
            opt("sum of products", s.sumxy(), s.sxy); opt("population covariance", s.covar_pop(), s.sxy / n()); opt("sample covariance", s.covar_samp(), s.sxy / q());
        });
        // undefined exactly for a vertical line (or, for the correlation, a horizontal one)
        let z = |r: R| r == int(0);
        let same = |name: &str, g: Option<R>, w: Option<R>| match (g, w) { (Some(g), Some(w)) => vc(name, g, w), (g, w) => fact(&format!("{name}: defined"), g.is_some() == w.is_some()) };
        paths(|_| { let s = st2(); same("slope", s.slope(), if z(s.sx2) { None } else { Some(s.sxy / s.sx2) }) });
        paths(|_| { let s = st2(); same("intercept", s.intercept(), if z(s.sx2) { None } else { Some((s.sy - s.sx * s.sxy / s.sx2) / n()) }) });
        paths(|_| { let s = st2(); same("correlation", s.corr(), if z(s.sx2) || z(s.sy2) { None } else { Some(s.sxy / (s.sx2 * s.sy2).sqrt()) }) });
        // 1 for a horizontal line
        paths(|_| { let s = st2(); same("determination coefficient", s.determination_coeff(), if z(s.sx2) { None } else if z(s.sy2) { Some(int(1)) } else { Some(s.sxy * s.sxy / (s.sx2 * s.sy2)) }) });
        // where the line crosses 0; the common x of a vertical line, none for a horizontal one
        paths(|_| { let s = st2(); same("x intercept", s.x_intercept(), if z(s.sx2) { Some(s.sx / n()) } else if z(s.sy2) { None } else { Some(s.sx / n() - s.sy * s.sx2 / s.sxy / n()) }) });
        dump();
    }
}
