//! C24: lambda expressions.
use crate::shim::*;

harnesses! {}

#[cfg(not(kani))]
mod ex {
    use super::*;
    use crate::sql::*;
    use pgrx::{InOutFuncs, StringInfo};
    use std::cmp::Ordering;
    use timescaledb_toolkit::time_vector::{timevector_final, timevector_tstz_f64_trans, verif::pipeline::{lam::*, *}};

    #[derive(Clone, Copy, PartialEq, Debug)]
    pub enum T { F, B, I, S, Hidden } // double, boolean, interval, timestamp
    #[derive(Clone, Debug)]
    pub enum E {
        Value, Time, Num(f64, String), TimeC(i64), IvC(i64), Var(usize), Neg(Box<E>), Not(Box<E>),
        Bin(&'static str, Box<E>, Box<E>), Fun(&'static str, Vec<E>), Tup(Vec<E>), Let(usize, Box<E>, Box<E>),
    }
    #[derive(Clone, Debug)]
    pub enum V { F(f64), B(bool), I(i64), S(i64), Tup(Vec<V>) }
    impl V {
        fn f(&self) -> f64 { match self { V::F(x) => *x, _ => panic!() } }
        fn b(&self) -> bool { match self { V::B(x) => *x, _ => panic!() } }
        fn i(&self) -> i64 { match self { V::I(x) | V::S(x) => *x, _ => panic!() } }
        fn cmp(&self, o: &V) -> Option<Ordering> { match (self, o) {
            (V::F(a), V::F(b)) => a.partial_cmp(b), (V::B(a), V::B(b)) => a.partial_cmp(b), (V::I(a), V::I(b)) | (V::S(a), V::S(b)) => a.partial_cmp(b),
            (V::Tup(a), V::Tup(b)) => { for (x, y) in a.iter().zip(b) { match x.cmp(y) { Some(Ordering::Equal) => {} r => return r } } a.len().partial_cmp(&b.len()) } _ => panic!() } }
        fn eq(&self, o: &V) -> bool { match (self, o) { (V::F(a), V::F(b)) => a == b, (V::Tup(a), V::Tup(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.eq(y)), _ => self.cmp(o) == Some(Ordering::Equal) } }
    }
    pub struct Env<'a> { pub value: f64, pub time: i64, pub vars: &'a [E], pub memo: Vec<Option<V>>, pub steps: usize }
    const FUN1: &[(&str, fn(f64) -> f64)] = &[("abs", f64::abs), ("cbrt", f64::cbrt), ("ceil", f64::ceil), ("floor", f64::floor), ("ln", f64::ln), ("log10", f64::log10), ("round", f64::round),
        ("sign", f64::signum), ("sqrt", f64::sqrt), ("trunc", f64::trunc), ("acos", f64::acos), ("asin", f64::asin), ("atan", f64::atan), ("cos", f64::cos), ("sin", f64::sin), ("tan", f64::tan),
        ("sinh", f64::sinh), ("cosh", f64::cosh), ("tanh", f64::tanh), ("asinh", f64::asinh), ("acosh", f64::acosh), ("atanh", f64::atanh)];
    /// what the expression means; also counts the parts that have to be evaluated
    pub fn eval(e: &E, v: &mut Env) -> V {
        let r = match e {
            E::Value => V::F(v.value), E::Time => V::S(v.time), E::Num(x, _) => V::F(*x), E::TimeC(t) => V::S(*t), E::IvC(i) => V::I(*i),
            E::Var(i) => { if v.memo[*i].is_none() { let vars = v.vars; let r = eval(&vars[*i], v); v.memo[*i] = Some(r) } v.memo[*i].clone().unwrap() }

            E::Let(_, _, b) => return eval(b, v),
            E::Neg(a) => V::F(-eval(a, v).f()), E::Not(a) => V::B(!eval(a, v).b()),
            E::Tup(l) => V::Tup(l.iter().map(|e| eval(e, v)).collect()),
            E::Fun(f, l) => { let a: Vec<f64> = l.iter().map(|e| eval(e, v).f()).collect();
                V::F(match *f { "pi" => std::f64::consts::PI, "log" => a[0].log(a[1]), "atan2" => a[0].atan2(a[1]), f => FUN1.iter().find(|g| g.0 == f).unwrap().1(a[0]) }) }
            E::Bin(op, a, b) => {
                let x = eval(a, v);
                if *op == "and" && !x.b() || *op == "or" && x.b() { v.steps += 1; return x }
                let y = eval(b, v);
                match *op {
                    "and" | "or" => y,
                    "=" => V::B(x.eq(&y)), "!=" | "<>" => V::B(!x.eq(&y)),
                    "<" => V::B(x.cmp(&y) == Some(Ordering::Less)), ">" => V::B(x.cmp(&y) == Some(Ordering::Greater)),
                    "<=" => V::B(matches!(x.cmp(&y), Some(Ordering::Less | Ordering::Equal))), ">=" => V::B(matches!(x.cmp(&y), Some(Ordering::Greater | Ordering::Equal))),
                    _ => match (&x, &y) {
                        (V::F(x), V::F(y)) => V::F(match *op { "+" => x + y, "-" => x - y, "*" => x * y, "/" => x / y, _ => x.powf(*y) }),
                        (V::S(t), V::I(i)) => V::S(if *op == "+" { t.wrapping_add(*i) } else { t.wrapping_sub(*i) }),
                        (V::I(t), V::I(i)) => V::I(if *op == "+" { t.wrapping_add(*i) } else { t.wrapping_sub(*i) }),
                        (V::I(i), V::F(f)) | (V::F(f), V::I(i)) => V::I((if *op == "*" { *i as f64 * f } else { *i as f64 / f }).round_ties_even() as i64),
                        _ => panic!(),
                    },
                }
            }
        };
        v.steps += 1;
        r
    }
    fn prec(e: &E) -> u8 { match e {
        E::Bin(o, ..) => match *o { "or" => 1, "and" => 2, "=" | "!=" | "<>" | "<" | "<=" | ">" | ">=" => 3, "+" | "-" => 4, "*" | "/" => 5, _ => 6 },
        E::Neg(_) | E::Not(_) => 7, E::Tup(_) => 0, _ => 8 } }
    fn sp(must: bool) -> &'static str { match any_in(0, 5) { 0 => "  ", 1 => "\n", 2 => "\t ", 3 if !must => "", _ => " " } }
    fn word(s: &str) -> String { match any_in(0, 3) { 0 => s.to_uppercase(), _ => s.to_string() } }
    fn show(e: &E, o: &mut String) {
        let sub = |c: &E, paren: bool, o: &mut String| { if paren || any_in(0, 9) == 0 { o.push('('); o.push_str(sp(false)); show(c, o); o.push_str(sp(false)); o.push(')') } else { show(c, o) } };
        match e {
            E::Value => o.push_str(&word("$value")), E::Time => o.push_str(&word("$time")), E::Num(_, s) => o.push_str(s),
            E::TimeC(t) => o.push_str(&format!("'{t}'t")), E::IvC(t) => o.push_str(&format!("'{t}'i")), E::Var(i) => o.push_str(&format!("$x{i}_")),
            E::Let(i, d, b) => { o.push('('); o.push_str(sp(false)); o.push_str(&format!("let $x{i}_ =")); o.push_str(sp(false)); show(d, o); o.push(';'); show(b, o); o.push(')') }
            E::Neg(c) => { o.push('-'); o.push_str(sp(false)); sub(c, prec(c) < 7, o) }
            E::Not(c) => { o.push_str(&word("not")); o.push_str(sp(true)); sub(c, prec(c) < 7, o) }
            E::Tup(l) => for (i, c) in l.iter().enumerate() { if i > 0 { o.push(','); o.push_str(sp(false)) } sub(c, prec(c) == 0, o) },
            E::Fun(f, l) => { o.push_str(f); o.push_str(sp(false)); o.push('('); for (i, c) in l.iter().enumerate() { if i > 0 { o.push(',') } sub(c, prec(c) == 0, o) } if !l.is_empty() && any_in(0, 5) == 0 { o.push(',') } o.push(')') }
            E::Bin(op, a, b) => {
                let p = prec(e);
                let right = p == 6;
                sub(a, prec(a) < p || right && prec(a) == p, o);
                o.push_str(sp(*op == "and" || *op == "or"));
                o.push_str(&word(op));
                o.push_str(sp(*op == "and" || *op == "or"));
                sub(b, prec(b) < p || !right && prec(b) == p, o);
            }
        }
    }
    fn num() -> E {
        let s = match any_in(0, 6) { 0 => any_in(0, 1000).to_string(), 1 => format!("{}.{:02}", any_in(0, 9), any_in(0, 99)), 2 => format!("{}.", any_in(0, 9)), 3 => format!("{}e{}", any_in(0, 9), any_in(0, 3)), 4 => format!("{}.5E-{}", any_in(0, 9), any_in(0, 3)), 5 => format!("+{}", any_in(0, 9)), _ => any_in(0, 3).to_string() };
        // the value, digit by digit
        let (m, ex) = s.trim_start_matches('+').split_once(['e', 'E']).map(|(m, e)| (m.to_string(), e.parse::<i32>().unwrap())).unwrap_or((s.trim_start_matches('+').to_string(), 0));
        let (i, f) = m.split_once('.').unwrap_or((&m, ""));
        let whole: f64 = format!("{i}{f}").bytes().fold(0.0, |a, d| a * 10.0 + (d - b'0') as f64);
        let ten = ex - f.len() as i32;
        E::Num(if ten >= 0 { whole * 10f64.powi(ten) } else { whole / 10f64.powi(-ten) }, s)
    }
    fn any_of(t: T, depth: u64, vars: &mut Vec<(T, E)>) -> E {
        if depth == 0 || any_in(0, 6) == 0 {
            let known: Vec<usize> = (0..vars.len()).filter(|i| vars[*i].0 == t).collect();
            if !known.is_empty() && any_bool() { return E::Var(known[any_in(0, known.len() as u64 - 1) as usize]) }
            return match t {
                T::F => if any_bool() { E::Value } else { num() },
                T::S => if any_bool() { E::Time } else { E::TimeC(any_in(0, 60) as i64 - 20) },
                T::I => E::IvC(any_in(0, 40) as i64 - 20),
                T::B => E::Bin(["<", "<=", "=", "!=", "<>", ">", ">="][any_in(0, 6) as usize], E::Value.into(), num().into()),
                T::Hidden => unreachable!(),
            };
        }
        let d = depth - 1;
        // a variable of its own within parentheses
        if any_in(0, 11) == 0 {
            let k = [T::F, T::B, T::I, T::S][any_in(0, 3) as usize];
            let def = any_of(k, d, vars);
            let i = vars.len();
            vars.push((k, def.clone()));
            let body = any_of(t, d, vars);
            vars[i].0 = T::Hidden;
            return E::Let(i, def.into(), body.into());
        }
        macro_rules! sub { ($t:expr) => { Box::new(any_of($t, d, vars)) } }
        match t {
            T::F => match any_in(0, 8) {
                0 => E::Neg(sub!(T::F)), 1 => { let f = FUN1[any_in(0, FUN1.len() as u64 - 1) as usize].0; E::Fun(f, vec![*sub!(T::F)]) }
                2 => match any_in(0, 2) { 0 => E::Fun("pi", vec![]), 1 => E::Fun("log", vec![*sub!(T::F), *sub!(T::F)]), _ => E::Fun("atan2", vec![*sub!(T::F), *sub!(T::F)]) },
                n => E::Bin(["+", "-", "*", "/", "^", "-"][n as usize - 3], sub!(T::F), sub!(T::F)),
            },
            T::B => match any_in(0, 6) {
                0 => E::Not(sub!(T::B)), 1 => E::Bin("and", sub!(T::B), sub!(T::B)), 2 => E::Bin("or", sub!(T::B), sub!(T::B)),
                n => { let op = ["<", "<=", "=", "!=", "<>", ">", ">="][any_in(0, 6) as usize];
                    if n == 6 {
                        let ts: Vec<T> = (0..any_in(2, 4)).map(|_| [T::F, T::S, T::I][any_in(0, 2) as usize]).collect();
                        let mut l: Vec<E> = ts.iter().map(|t| any_of(*t, d, vars)).collect();
                        let r: Vec<E> = ts.iter().enumerate().map(|(i, t)| if any_bool() { let e = any_of(*t, 0, &mut vec![]); l[i] = e.clone(); e } else { any_of(*t, d, vars) }).collect();
                        E::Bin(op, Box::new(E::Tup(l)), Box::new(E::Tup(r)))
                    }
                    else { let t = [T::F, T::S, T::I, T::B][any_in(0, 3) as usize]; E::Bin(op, sub!(t), sub!(t)) } }
            },
            T::S => E::Bin(["+", "-"][any_in(0, 1) as usize], sub!(T::S), sub!(T::I)),
            T::Hidden => unreachable!(),
            T::I => match any_in(0, 3) { 0 | 1 => E::Bin(["+", "-"][any_in(0, 1) as usize], sub!(T::I), sub!(T::I)), 2 => if any_bool() { E::Bin("*", sub!(T::I), sub!(T::F)) } else { E::Bin("*", sub!(T::F), sub!(T::I)) }, _ => E::Bin("/", sub!(T::I), sub!(T::F)) },
        }
    }
    pub fn lambda(s: &str) -> Lambda<'static> { InOutFuncs::input(&std::ffi::CString::new(s).unwrap()) }
    fn near(a: f64, b: f64) -> bool { a == b || a.is_nan() && b.is_nan() || (a - b).abs() <= 1e-12 * b.abs() }

    /// a text with what it means: the variables and the expression
    fn written(kinds: &[u64]) -> (String, Vec<E>, E) {
        let mut vars: Vec<(T, E)> = vec![];
        let nlets = any_in(0, 3);
        let mut text = String::new();
        let depth = any_in(1, 4);
        for _ in 0..nlets {
            let t = [T::F, T::B, T::I, T::S][any_in(0, 3) as usize];
            let e = any_of(t, depth, &mut vars);
            let i = vars.len();
            text.push_str(&format!("let $x{i}_ = "));
            show(&e, &mut text);
            text.push(';');
            text.push_str(sp(false));
            vars.push((t, e));
        }
        let want = kinds[any_in(0, kinds.len() as u64 - 1) as usize];
        let e = match want { 0 => any_of(T::F, depth, &mut vars), 1 => any_of(T::B, depth, &mut vars), 2 => any_of(T::S, depth, &mut vars), 3 => any_of(T::I, depth, &mut vars),
            _ => E::Tup(vec![any_of(T::S, depth, &mut vars), any_of(T::F, depth, &mut vars)]) };
        // a tuple is read with or without parentheses around it
        if want == 4 && any_bool() { text.push('('); show(&e, &mut text); text.push(')') } else { show(&e, &mut text) }
        (text, vars.into_iter().map(|v| v.1).collect(), e)
    }
    pub fn means() {
        let (text, defs, e) = written(&[0, 1, 2, 3, 4]);
        let l = lambda(&text);
        let l = if any_bool() { stored(l) } else { l };
        for _ in 0..3 {
            let value = match any_in(0, 9) { 0 => f64::NAN, 1 => f64::INFINITY, _ => any_in(0, 40) as f64 / 4.0 - 5.0 };
            let time = any_in(0, 100) as i64 - 50;
            let mut env = Env { value, time, vars: &defs, memo: vec![None; defs.len()], steps: 0 };
            let w = eval(&e, &mut env);
            let say = format!("{text} at value {value}, time {time}");
            match &w {
                V::F(x) => { let g = f64_lambda(l.clone(), ts(time), value); assert!(near(g, *x), "{say}: {g} instead of {x}") }
                V::B(x) => { let g = bool_lambda(l.clone(), ts(time), value); assert!(g == *x, "{say}: {g} instead of {x}") }
                V::S(x) => { let g = us(ttz_lambda(l.clone(), ts(time), value)); assert!(g == *x, "{say}: {g} instead of {x}") }
                V::I(x) => { let g = iv_us(interval_lambda(l.clone(), ts(time), value)); assert!(g == *x, "{say}: {g} instead of {x}") }
                V::Tup(x) => { let g: Vec<_> = point_lambda(l.clone(), ts(time), value).map(|(t, v)| (us(t), v)).collect(); assert!(g.len() == 1 && g[0].0 == x[0].i() && near(g[0].1, x[1].f()), "{say}: {g:?} instead of {w:?}") }
            }
            let n = trace_lambda(l.clone(), ts(time), value).count();
            assert!(n == env.steps, "{say}: {n} steps instead of {}", env.steps);
        }
        let mut b = StringInfo::new();
        l.output(&mut b);
        assert!(b.to_string() == text, "read back: {b} instead of {text}");
    }
    /// map and filter evaluate the expression at every point anew
    pub fn over_points() {
        let (text, defs, e) = written(&[0, 1, 1, 4]);
        let l = lambda(&text);
        let l = if any_bool() { stored(l) } else { l };
        let (mut s, mut t, mut pts) = (None, any_in(0, 100) as i64 - 50, vec![]);
        for _ in 0..any_in(1, 6) {
            let value = match any_in(0, 9) { 0 => f64::NAN, 1 => f64::INFINITY, _ => any_in(0, 40) as f64 / 4.0 - 5.0 };
            s = timevector_tstz_f64_trans(st(s), Some(ts(t)), Some(value), NUL);
            pts.push((t, value));
            t += any_in(0, 20) as i64;
        }
        let tv = timevector_final(st(s), NUL).unwrap();
        let mut want = vec![];
        let mut filter = false;
        for &(time, value) in &pts {
            let mut env = Env { value, time, vars: &defs, memo: vec![None; defs.len()], steps: 0 };
            match eval(&e, &mut env) {
                V::F(x) => want.push((time, x)),
                V::B(x) => { filter = true; if x { want.push((time, value)) } }
                V::Tup(x) => want.push((x[0].i(), x[1].f())),
                _ => panic!(),
            }
        }
        let p = if filter { filter_lambda_pipeline_element(l) } else { map_lambda_pipeline_element(l) };
        let got: Vec<(i64, f64)> = arrow_run_pipeline(tv, p).iter().map(|p| (p.ts, p.val)).collect();
        assert!(got.len() == want.len() && got.iter().zip(&want).all(|(g, w)| g.0 == w.0 && near(g.1, w.1)), "{text} over {pts:?}: {got:?} instead of {want:?}");
    }
    pub fn refused() {
        for s in ["", "$value +", "$value $value", "$x", "let $x = 1; $y", "let $x = 1; let $x = 2; $x", "let $x = $x; $x", "sin()", "sin(1, 2)", "atan2(1)", "pi(1)", "nosuch(1)", "1 and 2", "not 1", "-$time", "-(1 < 2)", "$value + $time", "$time + $time", "$time - $time",
            "$time * 2", "'1'i ^ 2", "1 / '1'i", "$value = $time", "$value < '1'i", "(1, 2) = (1, 2, 3)", "1 < (2 < 3)", "(1", "1)", "'1't + 1", "'1'i + $time", "let $x = 1", "$value == 1", "'a'"] {
            assert!(errs(|| { lambda(s); }), "{s:?} is accepted");
        }
        let at = |s: &str| lambda(s);
        assert!(errs(|| { f64_lambda(at("1 < 2"), ts(0), 1.0); }) && errs(|| { bool_lambda(at("1"), ts(0), 1.0); }) && errs(|| { ttz_lambda(at("1"), ts(0), 1.0); })
            && errs(|| { interval_lambda(at("$time"), ts(0), 1.0); }) && errs(|| { point_lambda(at("(1, $time)"), ts(0), 1.0); }) && errs(|| { point_lambda(at("($time, 1, 2)"), ts(0), 1.0); }));
    }
}

executed! {
    fn means() { ex::means() }
    fn over_points() { ex::over_points() }
    fn refused() { ex::refused() }
}
