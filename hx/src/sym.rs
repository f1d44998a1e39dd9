//! A symbolic real number: the real, generic code runs on terms, and the terms it returns are turned into
//! verification conditions over the reals (bin/realvc.py discharges them).  Comparisons between terms fork the
//! path; a count k close to a registered base count stands for that symbol plus the difference.
#![cfg(not(kani))]
use std::cell::RefCell;
use std::num::FpCategory;
use std::ops::*;

#[derive(Clone, Copy)]
pub struct R(pub u32);
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum N { C(String), V(String), B(char, u32, u32), Sqrt(u32), Fun(&'static str, u32) }
pub struct Ctx { pub nodes: Vec<N>, pub ids: std::collections::BTreeMap<String, u32>, pub preset: Vec<bool>, pub at: usize, pub path: Vec<(char, u32, u32, bool)>, pub counts: Vec<(u64, String)> }
thread_local! { pub static X: RefCell<Ctx> = const { RefCell::new(Ctx { nodes: vec![], ids: std::collections::BTreeMap::new(), preset: vec![], at: 0, path: vec![], counts: vec![] }) }; }
fn mk(n: N) -> R { X.with(|x| { let mut x = x.borrow_mut(); let k = format!("{n:?}");
    if let Some(i) = x.ids.get(&k) { return R(*i) }
    x.nodes.push(n); let i = x.nodes.len() as u32 - 1; x.ids.insert(k, i); R(i) }) }
pub fn var(s: &str) -> R { mk(N::V(s.into())) }
pub fn int(i: i128) -> R { mk(N::C(i.to_string())) }
fn bin(c: char, a: R, b: R) -> R { mk(N::B(c, a.0, b.0)) }
/// a count that stands for a symbol
pub fn count(base: u64, name: &str) { X.with(|x| x.borrow_mut().counts.push((base, name.into()))) }
fn of_count(k: i128) -> R {
    let cs = X.with(|x| x.borrow().counts.clone());
    if k.abs() < 1000 || cs.is_empty() { return int(k) }
    // every combination of 0, 1 or -1 times each base
    let n = cs.len();
    let mut best: Option<(Vec<i128>, i128)> = None;
    for m in 0..3usize.pow(n as u32) {
        let co: Vec<i128> = (0..n).map(|i| [0, 1, -1][m / 3usize.pow(i as u32) % 3]).collect();
        let d = k - co.iter().zip(&cs).map(|(c, b)| c * b.0 as i128).sum::<i128>();
        if best.as_ref().is_none_or(|b| d.abs() < b.1.abs()) { best = Some((co, d)) }
    }
    let (co, d) = best.unwrap();
    if d.abs() >= 1000 { return int(k) }
    let mut r = int(d);
    for (c, b) in co.iter().zip(&cs) { if *c != 0 { r = r + int(*c) * var(&b.1) } }
    r
}
fn decide(c: char, a: R, b: R) -> bool {
    X.with(|x| {
        let mut x = x.borrow_mut();
        // asked before on this path
        if let Some(t) = x.path.iter().find(|t| (t.0, t.1, t.2) == (c, a.0, b.0) || (c == '=' && (t.0, t.1, t.2) == (c, b.0, a.0))) { return t.3 }
        let v = x.preset.get(x.at).copied().unwrap_or(false);
        x.at += 1;
        x.path.push((c, a.0, b.0, v));
        v
    })
}
/// run `f` once per path (at most 64), collecting what `f` yields per path
pub fn paths(mut f: impl FnMut(&str)) {
    let mut todo = vec![vec![]];
    let mut k = 0;
    while let Some(p) = todo.pop() {
        X.with(|x| { let mut x = x.borrow_mut(); x.preset = p.clone(); x.at = 0; x.path.clear(); x.counts.clear(); });
        let label = p.iter().map(|b| if *b { '1' } else { '0' }).collect::<String>();
        f(&label);
        let taken: Vec<bool> = X.with(|x| x.borrow().path.iter().map(|t| t.3).collect());
        for i in p.len()..taken.len() { let mut q = taken[..i].to_vec(); q.push(!taken[i]); todo.push(q) }
        k += 1;
        assert!(k < 64, "too many paths");
    }
}
impl std::fmt::Debug for R { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "#{}", self.0) } }
impl PartialEq for R { fn eq(&self, o: &R) -> bool { self.0 == o.0 || decide('=', *self, *o) } }
impl PartialOrd for R {
    fn partial_cmp(&self, o: &R) -> Option<std::cmp::Ordering> {
        use std::cmp::Ordering::*;
        Some(if *self == *o { Equal } else if decide('<', *self, *o) { Less } else { Greater })
    }
    fn lt(&self, o: &R) -> bool { decide('<', *self, *o) }
    fn gt(&self, o: &R) -> bool { decide('<', *o, *self) }
    fn le(&self, o: &R) -> bool { !decide('<', *o, *self) }
    fn ge(&self, o: &R) -> bool { !decide('<', *self, *o) }
}
macro_rules! ops { ($($t:ident $f:ident $ta:ident $fa:ident $c:literal),*) => {$(
    impl $t for R { type Output = R; fn $f(self, o: R) -> R { bin($c, self, o) } }
    impl $ta for R { fn $fa(&mut self, o: R) { *self = bin($c, *self, o) } }
)*} }
ops!(Add add AddAssign add_assign '+', Sub sub SubAssign sub_assign '-', Mul mul MulAssign mul_assign '*', Div div DivAssign div_assign '/', Rem rem RemAssign rem_assign '%');
impl Neg for R { type Output = R; fn neg(self) -> R { int(0) - self } }
impl From<f64> for R {
    fn from(v: f64) -> R {
        if v.is_nan() { return mk(N::V("nan".into())) }
        if v.is_infinite() { return mk(N::V(if v > 0.0 { "inf".into() } else { "ninf".into() })) }
        if v == v.trunc() && v.abs() < 9e15 { return of_count(v as i128) }
        // the literal as written, as a decimal
        mk(N::C(format!("{v:?}")))
    }
}
impl stats_agg::FloatLike for R { fn from_u64(n: u64) -> R { of_count(n as i128) } }
impl num_traits::Zero for R { fn zero() -> R { int(0) } fn is_zero(&self) -> bool { *self == int(0) } }
impl num_traits::One for R { fn one() -> R { int(1) } }
impl num_traits::Num for R { type FromStrRadixErr = (); fn from_str_radix(_: &str, _: u32) -> Result<R, ()> { Err(()) } }
impl num_traits::ToPrimitive for R { fn to_i64(&self) -> Option<i64> { None } fn to_u64(&self) -> Option<u64> { None } }
impl num_traits::NumCast for R {
    fn from<T: num_traits::ToPrimitive>(n: T) -> Option<R> { if let Some(u) = n.to_u64() { if n.to_f64() == Some(u as f64) { return Some(of_count(u as i128)) } } n.to_f64().map(<R as From<f64>>::from) }
}
fn pow(b: R, n: u32) -> R { let mut r = int(1); for _ in 0..n { r = r * b } r }
macro_rules! no { ($($f:ident($($a:ident: $t:ty),*) -> $r:ty;)*) => {$( fn $f(self $(, $a: $t)*) -> $r { $(let _ = $a;)* panic!(concat!("not symbolic: ", stringify!($f))) } )*} }
impl num_traits::Float for R {
    fn nan() -> R { mk(N::V("nan".into())) }
    fn infinity() -> R { mk(N::V("inf".into())) }
    fn neg_infinity() -> R { mk(N::V("ninf".into())) }
    fn neg_zero() -> R { int(0) }
    fn min_value() -> R { panic!("not symbolic") }
    fn min_positive_value() -> R { panic!("not symbolic") }
    fn max_value() -> R { panic!("not symbolic") }
    // the interpretation is over finite reals
    fn is_nan(self) -> bool { false }
    fn is_infinite(self) -> bool { false }
    fn is_finite(self) -> bool { true }
    fn is_normal(self) -> bool { true }
    fn classify(self) -> FpCategory { FpCategory::Normal }
    fn abs(self) -> R { mk(N::Fun("abs", self.0)) }
    fn is_sign_positive(self) -> bool { !decide('<', self, int(0)) }
    fn is_sign_negative(self) -> bool { decide('<', self, int(0)) }
    fn mul_add(self, a: R, b: R) -> R { self * a + b }
    fn recip(self) -> R { int(1) / self }
    fn powi(self, n: i32) -> R { if n >= 0 { pow(self, n as u32) } else { int(1) / pow(self, (-n) as u32) } }
    fn powf(self, n: R) -> R { X.with(|x| x.borrow().nodes[n.0 as usize].clone()); panic!("not symbolic: powf") }
    fn sqrt(self) -> R { mk(N::Sqrt(self.0)) }
    fn max(self, o: R) -> R { if self > o { self } else { o } }
    fn min(self, o: R) -> R { if self < o { self } else { o } }
    no! { floor() -> R; ceil() -> R; round() -> R; trunc() -> R; fract() -> R; signum() -> R; exp() -> R; exp2() -> R; ln() -> R; log(b: R) -> R; log2() -> R; log10() -> R;
        abs_sub(o: R) -> R; cbrt() -> R; hypot(o: R) -> R; sin() -> R; cos() -> R; tan() -> R; asin() -> R; acos() -> R; atan() -> R; atan2(o: R) -> R; sin_cos() -> (R, R);
        exp_m1() -> R; ln_1p() -> R; sinh() -> R; cosh() -> R; tanh() -> R; asinh() -> R; acosh() -> R; atanh() -> R; integer_decode() -> (u64, i16, i8); }
}

// ---- verification conditions ----
thread_local! { pub static VCS: RefCell<Vec<String>> = const { RefCell::new(vec![]) }; }
/// under the current path, `got` equals `want`
pub fn vc(name: &str, got: R, want: R) {
    let p = X.with(|x| x.borrow().path.iter().map(|(c, a, b, v)| format!("[\"{c}\",{a},{b},{v}]")).collect::<Vec<_>>().join(","));
    VCS.with(|v| v.borrow_mut().push(format!("{{\"vc\":\"{name}\",\"got\":{},\"want\":{},\"path\":[{p}]}}", got.0, want.0)));
}
/// a structural fact (a count, presence of a result) that must hold on this path
pub fn fact(name: &str, ok: bool) {
    let (t, f) = (int(1), int(ok as i128));
    vc(name, f, t)
}
pub fn dump() {
    X.with(|x| for (i, n) in x.borrow().nodes.iter().enumerate() {
        println!("{}", match n {
            N::C(s) => format!("{{\"id\":{i},\"c\":\"{s}\"}}"),
            N::V(s) => format!("{{\"id\":{i},\"v\":\"{s}\"}}"),
            N::B(c, a, b) => format!("{{\"id\":{i},\"op\":\"{c}\",\"a\":{a},\"b\":{b}}}"),
            N::Sqrt(a) => format!("{{\"id\":{i},\"op\":\"sqrt\",\"a\":{a}}}"),
            N::Fun(f, a) => format!("{{\"id\":{i},\"op\":\"{f}\",\"a\":{a}}}"),
        });
    });
    VCS.with(|v| for s in v.borrow().iter() { println!("{s}") });
}
