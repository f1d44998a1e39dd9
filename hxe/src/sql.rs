//! Calling the SQL-level functions the way the executor does.
use pgrx::pg_sys::{Datum, FunctionCallInfo};
use pgrx::Internal;
use timescaledb_toolkit::verif::{Interval, TimestampTz};
pub const NUL: FunctionCallInfo = std::ptr::null_mut();
/// a second reference to the same transition state
pub fn dup(s: &Internal) -> Internal { Internal::from(pgrx::IntoDatum::into_datum(unsafe { std::ptr::read(s) })) }
pub fn none() -> Internal { Internal::from(None) }
pub fn st(s: Option<Internal>) -> Internal { s.unwrap_or_else(none) }
pub fn ts(t: i64) -> TimestampTz { TimestampTz::from(t) }
pub fn us(t: TimestampTz) -> i64 { i64::from(t) }
pub fn iv(t: i64) -> Interval { Interval::from(crate::pgstub::interval(t)) }
pub fn iv_us(t: Interval) -> i64 { crate::pgstub::interval_us(t.0) }
pub fn elem(d: Datum, oid: u32) -> pgrx::AnyElement { unsafe { pgrx::FromDatum::from_polymorphic_datum(d, false, pgrx::pg_sys::Oid::from(oid)).unwrap() } }
/// through the stored representation and back, as when a value is written to a table and read again
pub fn stored<T: pgrx::IntoDatum + pgrx::FromDatum>(v: T) -> T { unsafe { T::from_datum(v.into_datum().unwrap(), false).unwrap() } }
/// does the call report an error?
pub fn errs(f: impl FnOnce()) -> bool { std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_err() }
/// an accessor, e.g. acc0!(AccessorUptime), acc0!(AccessorApproxPercentile, percentile: 0.5)
macro_rules! acc0 { ($t:ident $(, $f:ident : $v:expr)*) => { paste::paste! {
    timescaledb_toolkit::accessors::$t::from(timescaledb_toolkit::accessors::[<$t Data>] { header: 0, version: 1, padding: [0; 3] $(, $f: $v)* })
} } }
/// the functions of one aggregate
pub struct Agg<'a, R> {
    pub trans: &'a dyn Fn(Internal, &R) -> Option<Internal>,
    pub combine: &'a dyn Fn(Internal, Internal) -> Option<Internal>,
    /// handed to another worker: serialized and deserialized
    pub moved: &'a dyn Fn(Internal) -> Option<Internal>,
    pub fin: &'a dyn Fn(Internal),
    /// PostgreSQL combines into the first state, and the second was moved; some combine functions rely on it
    pub strict: bool,
}
/// one of the histories by which the executor may come from rows to a transition state:
/// any number of workers, moved or not, combined on either side, finalised before the last row or not
pub fn history<R>(rows: &[R], a: &Agg<R>) -> Option<Internal> {
    use crate::shim::{any_bool, any_in};
    let k = any_in(0, 3) as usize;
    let mut e: Vec<usize> = (0..k).map(|_| any_in(0, rows.len() as u64) as usize).chain([0, rows.len()]).collect();
    e.sort();
    let mut r: Option<Internal> = None;
    for (i, w) in e.windows(2).enumerate() {
        let mut s: Option<Internal> = None;
        for x in &rows[w[0]..w[1]] {
            s = (a.trans)(st(s), x);
            if any_in(0, 7) == 0 { if let Some(s) = &s { (a.fin)(dup(s)) } }
        }
        if k > 0 && (a.strict || any_bool()) { if let Some(x) = s.take() { s = (a.moved)(x) } }
        r = if i == 0 && any_bool() { s } else if a.strict || any_in(0, 3) > 0 { (a.combine)(st(r), st(s)) } else { (a.combine)(st(s), st(r)) };
        if any_in(0, 3) == 0 { if let Some(s) = &r { (a.fin)(dup(s)) } }
    }
    r
}
/// written as text and read again
pub fn through_text<T: pgrx::InOutFuncs>(v: T) -> T {
    let mut s = pgrx::StringInfo::new();
    v.output(&mut s);
    let t: &'static std::ffi::CStr = Box::leak(std::ffi::CString::new(s.as_str().unwrap()).unwrap().into_boxed_c_str());
    T::input(t)
}
