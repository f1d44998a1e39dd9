//! Stand-ins for the few Postgres entry points the code under test reaches when it runs outside a server:
//! memory comes from malloc and is never freed, there is no error stack.
#![allow(non_upper_case_globals, static_mut_refs, non_snake_case)]
use std::ffi::c_void;
#[repr(C)] pub struct Ctx { pad: [usize; 64] }
static mut CTX: Ctx = Ctx { pad: [0; 64] };
#[unsafe(no_mangle)] pub static mut CurrentMemoryContext: *mut c_void = std::ptr::null_mut();
#[unsafe(no_mangle)] pub static mut TopMemoryContext: *mut c_void = std::ptr::null_mut();
#[unsafe(no_mangle)] pub static mut ErrorContext: *mut c_void = std::ptr::null_mut();
#[unsafe(no_mangle)] pub static mut PG_exception_stack: *mut c_void = std::ptr::null_mut();
#[unsafe(no_mangle)] pub static mut error_context_stack: *mut c_void = std::ptr::null_mut();
#[unsafe(no_mangle)] pub static mut InterruptHoldoffCount: u32 = 0;
#[unsafe(no_mangle)] pub static mut QueryCancelHoldoffCount: u32 = 0;
#[unsafe(no_mangle)] pub static mut CritSectionCount: u32 = 0;
fn mem(n: usize) -> *mut c_void {
    // 8-aligned, zeroed, never given back; 16 bytes in front hold the size and a mark
    let l = std::alloc::Layout::from_size_align(n.max(8) + 16, 16).unwrap();
    unsafe { let p = std::alloc::alloc_zeroed(l) as *mut u64; *p = n as u64; *p.add(1) = LIVE; p.add(2) as *mut c_void }
}
const LIVE: u64 = 0x5afe_0000_a110_c8ed;
const FREED: u64 = 0xdead_0000_f4ee_d000;
pub fn init() { unsafe { let p = &raw mut CTX as *mut c_void; CurrentMemoryContext = p; TopMemoryContext = p; ErrorContext = p } }
#[unsafe(no_mangle)] pub extern "C-unwind" fn palloc(n: usize) -> *mut c_void { mem(n) }
#[unsafe(no_mangle)] pub extern "C-unwind" fn palloc0(n: usize) -> *mut c_void { mem(n) }
#[unsafe(no_mangle)] pub extern "C-unwind" fn MemoryContextAlloc(_: *mut c_void, n: usize) -> *mut c_void { mem(n) }
#[unsafe(no_mangle)] pub extern "C-unwind" fn MemoryContextAllocZero(_: *mut c_void, n: usize) -> *mut c_void { mem(n) }
#[unsafe(no_mangle)] pub extern "C-unwind" fn MemoryContextAllocExtended(_: *mut c_void, n: usize, _: i32) -> *mut c_void { mem(n) }
#[unsafe(no_mangle)] pub extern "C-unwind" fn MemoryContextRegisterResetCallback(_: *mut c_void, _: *mut c_void) {}
#[unsafe(no_mangle)] pub unsafe extern "C-unwind" fn pfree(p: *mut c_void) {
    unsafe {
        let h = (p as *mut u64).sub(2);
        if *h.add(1) == FREED { panic!("memory freed twice") }
        if *h.add(1) != LIVE { panic!("freed memory that was not allocated by palloc") }
        *h.add(1) = FREED;
        std::ptr::write_bytes(p as *mut u8, 0xdd, *h as usize); // a later use reads rubbish
    }
}
#[unsafe(no_mangle)] pub extern "C-unwind" fn pg_detoast_datum(p: *mut c_void) -> *mut c_void { p }
#[unsafe(no_mangle)] pub extern "C-unwind" fn pg_detoast_datum_packed(p: *mut c_void) -> *mut c_void { p }
#[unsafe(no_mangle)] pub unsafe extern "C-unwind" fn pg_detoast_datum_copy(p: *mut c_void) -> *mut c_void {
    unsafe { // a one-byte header becomes a four-byte one
        let n = pgrx::varsize_any_exhdr(p.cast()) + 4;
        let q = mem(n);
        pgrx::set_varsize_4b(q.cast(), n as i32);
        std::ptr::copy_nonoverlapping(pgrx::vardata_any(p.cast()) as *const u8, (q as *mut u8).add(4), n - 4);
        q
    }
}
#[unsafe(no_mangle)] pub extern "C-unwind" fn pg_re_throw() { panic!("postgres re-throw") }
#[unsafe(no_mangle)] pub extern "C-unwind" fn message_level_is_interesting(_: i32) -> bool { false }
// the error machinery: reached only when a report below ERROR is emitted or an error is rethrown to Postgres
macro_rules! nil { ($($n:ident)*) => { $( #[unsafe(no_mangle)] pub extern "C-unwind" fn $n() -> usize { 0 } )* } }
nil!(errstart errcode errmsg errdetail errhint errcontext_msg errfinish CopyErrorData FlushErrorState FreeErrorData errstart_cold);

// ------------------------------------------------------------------------------------------------------------------
// What the server's type system, function manager and string buffers do, for the handful of types the contracts use.
use pgrx::pg_sys;
use pg_sys::{Datum, FunctionCallInfo, FunctionCallInfoBaseData, NullableDatum, Oid, TypeCacheEntry};

unsafe fn arg(f: FunctionCallInfo, i: usize) -> Datum {
    unsafe { let p: *mut NullableDatum = std::ptr::addr_of_mut!((*f).args).cast(); (*p.add(i)).value }
}
unsafe fn call2(f: unsafe extern "C-unwind" fn(FunctionCallInfo) -> Datum, a: Datum, b: Datum) -> Datum {
    unsafe {
        let fc = mem(std::mem::size_of::<FunctionCallInfoBaseData>() + 2 * std::mem::size_of::<NullableDatum>()) as FunctionCallInfo;
        (*fc).nargs = 2;
        let p: *mut NullableDatum = std::ptr::addr_of_mut!((*fc).args).cast();
        *p = NullableDatum { value: a, isnull: false };
        *p.add(1) = NullableDatum { value: b, isnull: false };
        f(fc)
    }
}
#[unsafe(no_mangle)] pub unsafe extern "C-unwind" fn DirectFunctionCall2Coll(f: Option<unsafe extern "C-unwind" fn(FunctionCallInfo) -> Datum>, _: Oid, a: Datum, b: Datum) -> Datum {
    unsafe { call2(f.unwrap(), a, b) }
}
/// timestamptz + interval, in UTC, without month arithmetic
#[unsafe(no_mangle)] pub unsafe extern "C-unwind" fn timestamptz_pl_interval(f: FunctionCallInfo) -> Datum {
    unsafe {
        let i: *const pg_sys::Interval = arg(f, 1).cast_mut_ptr();
        assert!((*i).month == 0, "stub: intervals with months");
        Datum::from((arg(f, 0).value() as i64).wrapping_add((*i).time).wrapping_add((*i).day as i64 * 86_400_000_000))
    }
}
#[unsafe(no_mangle)] pub unsafe extern "C-unwind" fn interval_justify_hours(f: FunctionCallInfo) -> Datum {
    unsafe {
        let i: *const pg_sys::Interval = arg(f, 0).cast_mut_ptr();
        let r = mem(std::mem::size_of::<pg_sys::Interval>()) as *mut pg_sys::Interval;
        let d = 86_400_000_000;
        let (mut day, mut time) = ((*i).day as i64 + (*i).time / d, (*i).time % d);
        if day > 0 && time < 0 { time += d; day -= 1 } else if day < 0 && time > 0 { time -= d; day += 1 }
        *r = pg_sys::Interval { time, day: day as i32, month: (*i).month };
        Datum::from(r)
    }
}
fn fmix(mut k: u64) -> u64 { k ^= k >> 33; k = k.wrapping_mul(0xff51afd7ed558ccd); k ^= k >> 33; k = k.wrapping_mul(0xc4ceb9fe1a85ec53); k ^ (k >> 33) }
unsafe fn vbytes<'a>(d: Datum) -> &'a [u8] {
    unsafe { let p = d.cast_mut_ptr::<pg_sys::varlena>(); std::slice::from_raw_parts(pgrx::vardata_any(p) as *const u8, pgrx::varsize_any_exhdr(p)) }
}
unsafe extern "C-unwind" fn hash_word(f: FunctionCallInfo) -> Datum { unsafe { Datum::from(fmix(arg(f, 0).value() as u64)) } }
unsafe extern "C-unwind" fn hash_text(f: FunctionCallInfo) -> Datum {
    unsafe { let mut h = 7u64; for b in vbytes(arg(f, 0)) { h = fmix(h ^ *b as u64).wrapping_add(0x9E3779B97F4A7C15) } Datum::from(h) }
}
unsafe extern "C-unwind" fn eq_word(f: FunctionCallInfo) -> Datum { unsafe { Datum::from((arg(f, 0).value() == arg(f, 1).value()) as usize) } }
unsafe extern "C-unwind" fn eq_f8(f: FunctionCallInfo) -> Datum {
    unsafe { let (a, b) = (f64::from_bits(arg(f, 0).value() as u64), f64::from_bits(arg(f, 1).value() as u64)); Datum::from((a == b || (a.is_nan() && b.is_nan())) as usize) }
}
unsafe extern "C-unwind" fn hash_f8(f: FunctionCallInfo) -> Datum {
    unsafe { let a = f64::from_bits(arg(f, 0).value() as u64); Datum::from(fmix(if a == 0.0 { 0 } else if a.is_nan() { 1 } else { a.to_bits() })) }
}
unsafe extern "C-unwind" fn eq_text(f: FunctionCallInfo) -> Datum { unsafe { Datum::from((vbytes(arg(f, 0)) == vbytes(arg(f, 1))) as usize) } }
thread_local! { static TYPES: std::cell::RefCell<std::collections::HashMap<u32, usize>> = std::cell::RefCell::new(Default::default()); }
#[unsafe(no_mangle)] pub unsafe extern "C-unwind" fn lookup_type_cache(oid: Oid, _: i32) -> *mut TypeCacheEntry {
    TYPES.with(|t| *t.borrow_mut().entry(oid.to_u32()).or_insert_with(|| unsafe {
        let e = mem(std::mem::size_of::<TypeCacheEntry>()) as *mut TypeCacheEntry;
        (*e).type_id = oid;
        // oid -> (length, by value, alignment)
        let (len, val, al) = match oid.to_u32() {
            16 | 18 => (1, true, b'c'), 21 => (2, true, b's'), 23 | 26 | 700 | 1082 => (4, true, b'i'),
            20 | 701 | 1114 | 1184 => (8, true, b'd'), 1186 => (16, false, b'd'), 1266 => (12, false, b'd'), 829 => (6, false, b'i'), 2950 => (16, false, b'c'), 600 => (16, false, b'd'),
            17 | 25 | 1043 => (-1, false, b'i'), o => panic!("stub: no type {o}"),
        };
        (*e).typlen = len; (*e).typbyval = val; (*e).typalign = al as _; (*e).typcollation = Oid::INVALID;
        if val || len == -1 {
            (*e).hash_extended_proc_finfo.fn_addr = Some(if len == -1 { hash_text } else if oid.to_u32() == 701 { hash_f8 } else { hash_word });
            (*e).eq_opr_finfo.fn_addr = Some(if len == -1 { eq_text } else if oid.to_u32() == 701 { eq_f8 } else { eq_word });
        }
        e as usize
    }) as *mut TypeCacheEntry)
}
/// a text datum
pub fn text(s: &str) -> Datum {
    unsafe {
        let p = mem(s.len() + 4) as *mut u8;
        pgrx::set_varsize_4b(p.cast(), (s.len() + 4) as i32);
        std::ptr::copy_nonoverlapping(s.as_ptr(), p.add(4), s.len());
        Datum::from(p)
    }
}
pub fn text_of(d: Datum) -> String { unsafe { String::from_utf8(vbytes(d).to_vec()).unwrap() } }
/// an interval datum of that many microseconds
pub fn interval(us: i64) -> Datum {
    unsafe {
        let r = mem(std::mem::size_of::<pg_sys::Interval>()) as *mut pg_sys::Interval;
        *r = pg_sys::Interval { time: us, day: 0, month: 0 };
        Datum::from(r)
    }
}
pub fn interval_us(d: Datum) -> i64 { unsafe { let i: *const pg_sys::Interval = d.cast_mut_ptr(); assert!((*i).month == 0); (*i).time + (*i).day as i64 * 86_400_000_000 } }

/// a call frame whose arguments have these types
pub fn fcinfo(types: &[u32]) -> FunctionCallInfo {
    ARGS.with(|a| *a.borrow_mut() = types.to_vec());
    unsafe {
        let fc = mem(std::mem::size_of::<FunctionCallInfoBaseData>() + 8 * std::mem::size_of::<NullableDatum>()) as FunctionCallInfo;
        (*fc).flinfo = mem(std::mem::size_of::<pg_sys::FmgrInfo>()) as *mut pg_sys::FmgrInfo;
        (*fc).nargs = types.len() as i16;
        fc
    }
}
thread_local! { static ARGS: std::cell::RefCell<Vec<u32>> = const { std::cell::RefCell::new(vec![]) }; }
#[unsafe(no_mangle)] pub extern "C-unwind" fn get_fn_expr_argtype(_: *mut pg_sys::FmgrInfo, n: i32) -> Oid { ARGS.with(|a| Oid::from(a.borrow()[n as usize])) }
#[unsafe(no_mangle)] pub extern "C-unwind" fn AggCheckCallContext(_: FunctionCallInfo, c: *mut *mut c_void) -> i32 { unsafe { if !c.is_null() { *c = CurrentMemoryContext } } 1 }

// string buffers
#[unsafe(no_mangle)] pub unsafe extern "C-unwind" fn makeStringInfo() -> *mut pg_sys::StringInfoData {
    unsafe {
        let p = mem(std::mem::size_of::<pg_sys::StringInfoData>()) as *mut pg_sys::StringInfoData;
        (*p).data = mem(64) as _; (*p).maxlen = 64; p
    }
}
#[unsafe(no_mangle)] pub unsafe extern "C-unwind" fn enlargeStringInfo(p: *mut pg_sys::StringInfoData, n: i32) {
    unsafe {
        let need = (*p).len + n + 1;
        if need > (*p).maxlen {
            let q = mem(2 * need as usize) as *mut std::ffi::c_char;
            std::ptr::copy_nonoverlapping((*p).data, q, (*p).len as usize + 1);
            (*p).data = q; (*p).maxlen = 2 * need;
        }
    }
}
#[unsafe(no_mangle)] pub unsafe extern "C-unwind" fn appendBinaryStringInfo(p: *mut pg_sys::StringInfoData, d: *const std::ffi::c_char, n: i32) {
    unsafe {
        enlargeStringInfo(p, n);
        std::ptr::copy_nonoverlapping(d, (*p).data.add((*p).len as usize), n as usize);
        (*p).len += n;
        *(*p).data.add((*p).len as usize) = 0;
    }
}
#[unsafe(no_mangle)] pub unsafe extern "C-unwind" fn resetStringInfo(p: *mut pg_sys::StringInfoData) { unsafe { (*p).len = 0; *(*p).data = 0 } }
#[unsafe(no_mangle)] pub extern "C-unwind" fn GetDatabaseEncoding() -> i32 { pg_sys::pg_enc::PG_UTF8 as i32 }
// text input and output of the element types
#[unsafe(no_mangle)] pub unsafe extern "C-unwind" fn getTypeOutputInfo(t: Oid, f: *mut Oid, v: *mut bool) { unsafe { *f = t; *v = false } }
#[unsafe(no_mangle)] pub unsafe extern "C-unwind" fn getTypeInputInfo(t: Oid, f: *mut Oid, p: *mut Oid) { unsafe { *f = t; *p = t } }
#[unsafe(no_mangle)] pub unsafe extern "C-unwind" fn fmgr_info(f: Oid, i: *mut pg_sys::FmgrInfo) { unsafe { (*i).fn_oid = f; (*i).fn_addr = if f.to_u32() == MAP_FN { Some(map_fn) } else { None } } }
#[unsafe(no_mangle)] pub unsafe extern "C-unwind" fn OutputFunctionCall(i: *mut pg_sys::FmgrInfo, d: Datum) -> *mut std::ffi::c_char {
    let s = unsafe { match (*i).fn_oid.to_u32() {
        20 | 1184 => (d.value() as i64).to_string(), 23 => (d.value() as i32).to_string(), 701 => format!("{:?}", f64::from_bits(d.value() as u64)),
        25 => text_of(d), o => panic!("stub: output of {o}") } };
    unsafe { let p = mem(s.len() + 1) as *mut u8; std::ptr::copy_nonoverlapping(s.as_ptr(), p, s.len()); p.cast() }
}
#[unsafe(no_mangle)] pub unsafe extern "C-unwind" fn InputFunctionCall(i: *mut pg_sys::FmgrInfo, s: *mut std::ffi::c_char, _: Oid, _: i32) -> Datum {
    unsafe {
        let s = std::ffi::CStr::from_ptr(s).to_str().unwrap();
        match (*i).fn_oid.to_u32() {
            20 | 1184 => Datum::from(s.parse::<i64>().unwrap()), 23 => Datum::from(s.parse::<i32>().unwrap()), 701 => Datum::from(s.parse::<f64>().unwrap().to_bits()),
            25 => text(s), o => panic!("stub: input of {o}") }
    }
}
// function 9001 is "fn(double precision) RETURNS double precision": 2x + 1
pub const MAP_FN: u32 = 9001;
unsafe extern "C-unwind" fn map_fn(f: FunctionCallInfo) -> Datum { unsafe { (*f).isnull = false; Datum::from((f64::from_bits(arg(f, 0).value() as u64) * 2.0 + 1.0).to_bits()) } }
#[unsafe(no_mangle)] pub unsafe extern "C-unwind" fn get_func_signature(_: Oid, a: *mut *mut Oid, n: *mut i32) -> Oid {
    let f8 = pg_sys::FLOAT8OID;
    unsafe { let p = mem(std::mem::size_of::<Oid>()) as *mut Oid; *p = f8; *a = p; *n = 1 }
    f8
}
// timestamps and intervals in lambda expressions: the texts here are plain counts of microseconds, the arithmetic is that of intervals without days and months
#[unsafe(no_mangle)] pub unsafe extern "C-unwind" fn DirectFunctionCall3Coll(f: Option<unsafe extern "C-unwind" fn(FunctionCallInfo) -> Datum>, _: Oid, a: Datum, b: Datum, _: Datum) -> Datum { unsafe { call2(f.unwrap(), a, b) } }
unsafe fn int_of(f: FunctionCallInfo) -> i64 { unsafe { std::ffi::CStr::from_ptr(arg(f, 0).cast_mut_ptr()).to_str().unwrap().trim().parse().unwrap_or_else(|_| panic!("invalid input syntax")) } }
unsafe fn ivl(f: FunctionCallInfo, i: usize) -> i64 { unsafe { interval_us(arg(f, i)) } }
unsafe fn flt(f: FunctionCallInfo, i: usize) -> f64 { unsafe { f64::from_bits(arg(f, i).value() as u64) } }
#[unsafe(no_mangle)] pub unsafe extern "C-unwind" fn timestamptz_in(f: FunctionCallInfo) -> Datum { unsafe { Datum::from(int_of(f)) } }
#[unsafe(no_mangle)] pub unsafe extern "C-unwind" fn interval_in(f: FunctionCallInfo) -> Datum { unsafe { interval(int_of(f)) } }
#[unsafe(no_mangle)] pub unsafe extern "C-unwind" fn timestamptz_mi_interval(f: FunctionCallInfo) -> Datum { unsafe { Datum::from((arg(f, 0).value() as i64).wrapping_sub(ivl(f, 1))) } }
#[unsafe(no_mangle)] pub unsafe extern "C-unwind" fn interval_pl(f: FunctionCallInfo) -> Datum { unsafe { interval(ivl(f, 0).wrapping_add(ivl(f, 1))) } }
#[unsafe(no_mangle)] pub unsafe extern "C-unwind" fn interval_mi(f: FunctionCallInfo) -> Datum { unsafe { interval(ivl(f, 0).wrapping_sub(ivl(f, 1))) } }
#[unsafe(no_mangle)] pub unsafe extern "C-unwind" fn interval_mul(f: FunctionCallInfo) -> Datum { unsafe { interval((ivl(f, 0) as f64 * flt(f, 1)).round_ties_even() as i64) } }
#[unsafe(no_mangle)] pub unsafe extern "C-unwind" fn interval_div(f: FunctionCallInfo) -> Datum { unsafe { interval((ivl(f, 0) as f64 / flt(f, 1)).round_ties_even() as i64) } }
#[unsafe(no_mangle)] pub unsafe extern "C-unwind" fn interval_cmp(f: FunctionCallInfo) -> Datum { unsafe { Datum::from(ivl(f, 0).cmp(&ivl(f, 1)) as i32 as usize) } }
#[unsafe(no_mangle)] pub unsafe extern "C-unwind" fn interval_eq(f: FunctionCallInfo) -> Datum { unsafe { Datum::from((ivl(f, 0) == ivl(f, 1)) as usize) } }
// timestamps of points in text: a count of microseconds between the calls
use std::ffi::{c_char, c_int};
#[unsafe(no_mangle)] pub static mut DateStyle: c_int = 1;
#[unsafe(no_mangle)] pub unsafe extern "C-unwind" fn timestamp2tm(t: i64, _: *mut c_int, tm: *mut pg_sys::pg_tm, fsec: *mut i32, _: *mut *const c_char, _: *mut c_void) -> c_int {
    unsafe { (*tm).tm_year = (t >> 40) as i32; (*tm).tm_mon = ((t >> 20) & 0xfffff) as i32; *fsec = (t & 0xfffff) as i32 }
    0
}
unsafe fn put(s: &str, b: *mut c_char) { unsafe { std::ptr::copy_nonoverlapping(s.as_ptr(), b.cast(), s.len()); *b.add(s.len()) = 0 } }
unsafe fn of_tm(tm: *const pg_sys::pg_tm, fsec: i32) -> i64 { unsafe { ((*tm).tm_year as i64) << 40 | ((*tm).tm_mon as i64) << 20 | fsec as i64 } }
#[unsafe(no_mangle)] pub unsafe extern "C-unwind" fn EncodeDateTime(tm: *mut pg_sys::pg_tm, fsec: i32, _: bool, _: c_int, _: *const c_char, _: c_int, b: *mut c_char) { unsafe { put(&of_tm(tm, fsec).to_string(), b) } }
#[unsafe(no_mangle)] pub unsafe extern "C-unwind" fn EncodeSpecialTimestamp(t: i64, b: *mut c_char) { unsafe { put(if t == i64::MAX { "infinity" } else { "-infinity" }, b) } }
#[unsafe(no_mangle)] pub unsafe extern "C-unwind" fn ParseDateTime(s: *const c_char, w: *mut c_char, n: usize, field: *mut *mut c_char, _: *mut c_int, _: c_int, nf: *mut c_int) -> c_int {
    unsafe { let s = std::ffi::CStr::from_ptr(s).to_str().unwrap(); assert!(s.len() < n); put(s, w); *field = w; *nf = 1 }
    0
}
#[unsafe(no_mangle)] pub unsafe extern "C-unwind" fn DecodeDateTime(field: *mut *mut c_char, _: *mut c_int, _: c_int, dtype: *mut c_int, tm: *mut pg_sys::pg_tm, fsec: *mut i32, _: *mut c_int, _: *mut c_void) -> c_int {
    unsafe {
        match std::ffi::CStr::from_ptr(*field).to_str().unwrap() {
            "infinity" => *dtype = pg_sys::DTK_LATE as c_int,
            "-infinity" => *dtype = pg_sys::DTK_EARLY as c_int,
            s => match s.parse::<i64>() { Ok(t) => { *dtype = pg_sys::DTK_DATE as c_int; timestamp2tm(t, std::ptr::null_mut(), tm, fsec, std::ptr::null_mut(), std::ptr::null_mut()); } Err(_) => return -1 },
        }
    }
    0
}
#[unsafe(no_mangle)] pub unsafe extern "C-unwind" fn tm2timestamp(tm: *mut pg_sys::pg_tm, fsec: i32, _: *mut c_int, r: *mut i64) -> c_int { unsafe { *r = of_tm(tm, fsec) } 0 }
#[unsafe(no_mangle)] pub extern "C-unwind" fn DateTimeParseError(_: c_int, _: *mut c_void, _: *const c_char, _: *const c_char, _: *mut c_void) { panic!("invalid input syntax for timestamp") }
