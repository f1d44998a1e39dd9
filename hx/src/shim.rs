//! Symbolic-input shim.  Under Kani every `any_*` is a fully symbolic value and `assume` is a
//! precondition.  Natively the same contract bodies run on concrete values, either a replayed
//! counterexample (`replay`) or generated ones (`search`).
#![allow(dead_code)]

#[cfg(kani)]
mod imp {
    pub fn any_u8() -> u8 { kani::any() }
    pub fn any_u16() -> u16 { kani::any() }
    pub fn any_u32() -> u32 { kani::any() }
    pub fn any_u64() -> u64 { kani::any() }
    pub fn any_usize() -> usize { kani::any() }
    pub fn any_i32() -> i32 { kani::any() }
    pub fn any_i64() -> i64 { kani::any() }
    pub fn any_f64() -> f64 { f64::from_bits(kani::any::<u64>()) }
    pub fn any_bool() -> bool { kani::any() }
    pub fn assume(c: bool) { kani::assume(c) }
}

#[cfg(not(kani))]
mod imp {
    use std::cell::RefCell;
    pub struct AssumeFailed;
    pub enum Source {
        Bytes(std::collections::VecDeque<Vec<u8>>),
        Random(u64),
    }
    thread_local! {
        pub static SRC: RefCell<Source> = RefCell::new(Source::Random(1));
        pub static LOG: RefCell<Vec<Vec<u8>>> = const { RefCell::new(Vec::new()) };
    }
    fn rnd(s: &mut u64) -> u64 {
        // splitmix64
        *s = s.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = *s;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    fn gen_int(s: &mut u64, bits: u32) -> u64 {
        let r = rnd(s);
        let v = match r % 16 {
            0..=7 => rnd(s) % 6,
            8 => (rnd(s) % 6).wrapping_neg(),
            9 => rnd(s) % 70,
            10 => (1u64 << (rnd(s) % bits as u64)).wrapping_add(rnd(s) % 5).wrapping_sub(2),
            11 => (1u64 << (bits - 1)).wrapping_add(rnd(s) % 5).wrapping_sub(2),
            12 => rnd(s) >> (rnd(s) % 64),
            13 => rnd(s) % 1000,
            _ => rnd(s),
        };
        if bits == 64 { v } else { v & ((1u64 << bits) - 1) }
    }
    fn gen_f64(s: &mut u64) -> f64 {
        let r = rnd(s);
        match r % 20 {
            0..=9 => (rnd(s) % 7) as f64 - 3.0,
            10 => (rnd(s) % 2000) as f64 / 8.0 - 100.0,
            11 => f64::INFINITY,
            12 => f64::NEG_INFINITY,
            13 => f64::NAN,
            14 => -0.0,
            15 => 1e308,
            16 => 1e-308 * (rnd(s) % 5) as f64,
            17 => f64::from_bits(rnd(s)),
            18 => (rnd(s) as i64) as f64,
            _ => (rnd(s) as i64) as f64 / 1e12,
        }
    }
    fn next(n: usize, f: impl FnOnce(&mut u64) -> Vec<u8>) -> Vec<u8> {
        let v = SRC.with(|c| match &mut *c.borrow_mut() {
            Source::Bytes(q) => q.pop_front().unwrap_or_else(|| vec![0; n]),
            Source::Random(s) => f(s),
        });
        LOG.with(|l| l.borrow_mut().push(v.clone()));
        let mut v = v;
        v.resize(n, 0);
        v
    }
    macro_rules! ints { ($($f:ident $t:ty, $n:expr);*) => {$(
        pub fn $f() -> $t {
            let b = next($n, |s| (gen_int(s, ($n * 8) as u32)).to_le_bytes()[..$n].to_vec());
            <$t>::from_le_bytes(b[..$n].try_into().unwrap())
        })*}
    }
    ints!(any_u8 u8,1; any_u16 u16,2; any_u32 u32,4; any_u64 u64,8; any_usize usize,8; any_i32 i32,4; any_i64 i64,8);
    pub fn any_f64() -> f64 {
        let b = next(8, |s| gen_f64(s).to_bits().to_le_bytes().to_vec());
        f64::from_bits(u64::from_le_bytes(b[..8].try_into().unwrap()))
    }
    pub fn any_bool() -> bool {
        next(1, |s| vec![(rnd(s) & 1) as u8])[0] & 1 == 1
    }
    pub fn assume(c: bool) {
        if !c {
            std::panic::resume_unwind(Box::new(AssumeFailed))
        }
    }
}
pub use imp::*;

/// An integer in lo..=hi (a precondition, not a sample, under Kani).
pub fn any_in(lo: u64, hi: u64) -> u64 {
    #[cfg(kani)]
    {
        let v: u64 = any_u64();
        assume(lo <= v && v <= hi);
        v
    }
    #[cfg(not(kani))]
    {
        let v = any_u64();
        if lo <= v && v <= hi { v } else {
            // natively: fold into range so that search wastes nothing; replayed values are in range
            let span = hi.wrapping_sub(lo).wrapping_add(1);
            if span == 0 { v } else { lo + v % span }
        }
    }
}

/// A time with room for sums and differences: any i64 within +-2^60.
pub fn any_time() -> i64 {
    let v = any_i64();
    #[cfg(kani)]
    { assume(-(1 << 60) <= v && v <= 1 << 60); v }
    #[cfg(not(kani))]
    { if v.unsigned_abs() <= 1 << 60 { v } else { v >> 4 } }
}
/// A positive distance up to 2^60.
pub fn any_gap() -> i64 { any_in(1, 1 << 60) as i64 }

/// A small double: 0 or +-m*2^e with an 8-bit significand and -4 <= e < 4 (sums of a few are exact).
pub fn any_f64_small() -> f64 {
    let b = any_u16();
    if b & 7 == 7 { return 0.0; }
    let (s, e, m) = ((b >> 15) as u64, (b & 7) as u64, ((b >> 3) & 0xff) as u64);
    f64::from_bits((s << 63) | ((1019 + e) << 52) | (m << 44))
}

/// One of 0, +-1, +-1.5, +-2, +-3: few input bits, so that the SAT back end decides arithmetic on several of them.
pub fn any_f64_tiny() -> f64 {
    let b = any_u8();
    if b & 16 != 0 { return 0.0; }
    f64::from_bits((((b >> 3) & 1) as u64) << 63 | (1023 + ((b >> 1) & 1) as u64) << 52 | ((b & 1) as u64) << 51)
}

/// Non-vacuity: under Kani a reachability obligation (must be SATISFIED).
#[macro_export]
macro_rules! reach {
    ($c:expr, $m:literal) => {
        #[cfg(kani)]
        kani::cover!($c, $m);
        #[cfg(not(kani))]
        let _ = &$c;
    };
}

/// Declares contract harnesses: each is a Kani proof and a natively runnable check.
#[macro_export]
macro_rules! harnesses {
    ($( $(#[$m:meta])* fn $n:ident() $b:block )*) => {
        $( #[cfg_attr(kani, kani::proof)] $(#[cfg_attr(kani, $m)])* pub fn $n() $b )*
        pub const LIST: &[(&str, fn())] = &[ $( (concat!(module_path!(), "::", stringify!($n)), $n as fn()) ),* ];
    };
}

/// Contracts on functions outside the deductive back end's reach (hash maps, serde, growth): executed
/// on the real code over generated inputs with a fixed bound; never counted as proved.
#[macro_export]
macro_rules! executed {
    ($( fn $n:ident() $b:block )*) => {
        $( #[cfg(not(kani))] pub fn $n() $b )*
        #[cfg(not(kani))]
        pub const XLIST: &[(&str, fn())] = &[ $( (concat!(module_path!(), "::", stringify!($n)), $n as fn()) ),* ];
    };
}

#[cfg(not(kani))]
pub mod native {
    use super::imp::*;
    use std::panic::{catch_unwind, AssertUnwindSafe};

    pub enum Out { Ok, Assume, Fail(String) }

    fn run(f: fn()) -> Out {
        LOG.with(|l| l.borrow_mut().clear());
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(()) => Out::Ok,
            Err(e) => {
                if e.is::<AssumeFailed>() { return Out::Assume }
                let m = MSG.with(|m| m.borrow_mut().take()).unwrap_or_default();
                Out::Fail(m)
            }
        }
    }
    thread_local! { static MSG: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) }; }

    fn hex(v: &[Vec<u8>]) -> String {
        v.iter().map(|b| b.iter().map(|x| format!("{x:02x}")).collect::<String>()).collect::<Vec<_>>().join(",")
    }
    fn unhex(s: &str) -> Vec<Vec<u8>> {
        s.trim().split(',').filter(|x| !x.is_empty())
            .map(|w| (0..w.len() / 2).map(|i| u8::from_str_radix(&w[2 * i..2 * i + 2], 16).unwrap()).collect())
            .collect()
    }

    /// usage: replay HARNESS HEXVALUES | search HARNESS SECONDS SEED | list
    pub fn main(contracts: &[&[(&str, fn())]], executed: &[&[(&str, fn())]]) {
        let all: Vec<_> = contracts.iter().chain(executed.iter()).collect();
        let args: Vec<String> = std::env::args().collect();
        std::panic::set_hook(Box::new(|i| {
            let p = i.payload();
            let s = p.downcast_ref::<&str>().map(|s| s.to_string())
                .or_else(|| p.downcast_ref::<String>().cloned()).unwrap_or_default();
            let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            MSG.with(|m| *m.borrow_mut() = Some(format!("{s} at {l}")));
        }));
        let find = |n: &str| all.iter().flat_map(|l| l.iter()).find(|(m, _)| *m == n || m.ends_with(&format!("::{n}"))).map(|x| x.1);
        match args.get(1).map(|s| s.as_str()) {
            Some("list") => {
                for (n, _) in contracts.iter().flat_map(|l| l.iter()) { println!("{n}") }
                for (n, _) in executed.iter().flat_map(|l| l.iter()) { println!("executed {n}") }
            }
            Some("replay") => {
                let f = find(&args[2]).expect("no such harness");
                SRC.with(|s| *s.borrow_mut() = Source::Bytes(unhex(args.get(3).map(|s| s.as_str()).unwrap_or("")).into()));
                match run(f) {
                    Out::Ok => println!("REPLAY-OK"),
                    Out::Assume => println!("REPLAY-ASSUME"),
                    Out::Fail(m) => { println!("REPLAY-FAIL {}", m.replace('\n', " ")); std::process::exit(1) }
                }
            }
            Some("run") => {
                // run HARNESS MAXCASES SECONDS SEED: a fixed number of cases
                let f = find(&args[2]).expect("no such harness");
                let cases: u64 = args[3].parse().unwrap();
                let secs: f64 = args[4].parse().unwrap();
                let seed: u64 = args[5].parse().unwrap();
                let t0 = std::time::Instant::now();
                let (mut n, mut ok) = (0u64, 0u64);
                while ok < cases && n < 50 * cases && t0.elapsed().as_secs_f64() < secs {
                    n += 1;
                    SRC.with(|s| *s.borrow_mut() = Source::Random(seed.wrapping_mul(0x1000003).wrapping_add(n)));
                    match run(f) {
                        Out::Ok => ok += 1,
                        Out::Assume => {}
                        Out::Fail(m) => {
                            let v = LOG.with(|l| hex(&l.borrow()));
                            println!("SEARCH-FAIL n={n} ok={ok} values={v} msg={}", m.replace('\n', " "));
                            std::process::exit(1)
                        }
                    }
                }
                println!("RUN-OK n={n} ok={ok}");
            }
            Some("search") => {
                let f = find(&args[2]).expect("no such harness");
                let secs: f64 = args[3].parse().unwrap();
                let seed: u64 = args[4].parse().unwrap();
                let t0 = std::time::Instant::now();
                let (mut n, mut ok) = (0u64, 0u64);
                while t0.elapsed().as_secs_f64() < secs {
                    n += 1;
                    SRC.with(|s| *s.borrow_mut() = Source::Random(seed.wrapping_mul(0x1000003).wrapping_add(n)));
                    match run(f) {
                        Out::Ok => ok += 1,
                        Out::Assume => {}
                        Out::Fail(m) => {
                            let v = LOG.with(|l| hex(&l.borrow()));
                            println!("SEARCH-FAIL n={n} ok={ok} values={v} msg={}", m.replace('\n', " "));
                            std::process::exit(1)
                        }
                    }
                }
                println!("SEARCH-NONE n={n} ok={ok}");
            }
            _ => eprintln!("usage: replay|search|list"),
        }
    }
}
