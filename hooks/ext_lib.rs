// exposes private items to the contracts in /verif (only with --cfg tsdbtk_verif)
pub use crate::duration::DurationUnit;
pub use crate::raw::{bytea, text, tstzrange, AnyElement as RawAnyElement, Interval, TimestampTz};
pub use crate::palloc::{Inner, InternalAsValue, ToInternal};
pub use crate::datum_utils::DatumStore;
pub use crate::raw::regproc;
/// as a value laid out in memory, the form in which the aggregates read it
pub fn laid_out(s: DatumStore<'static>) -> DatumStore<'static> {
    use flat_serialize::FlatSerializable;
    let mut v = Vec::new();
    s.fill_vec(&mut v);
    let mut w = vec![0u64; v.len() / 8 + 1];
    unsafe {
        let p = w.as_mut_ptr() as *mut u8;
        std::ptr::copy_nonoverlapping(v.as_ptr(), p, v.len());
        let w = std::slice::from_raw_parts(w.leak().as_ptr() as *const u8, v.len());
        DatumStore::try_ref(w).unwrap().0
    }
}
pub fn ron_text(s: &DatumStore<'_>) -> String { ron::to_string(s).unwrap() }
pub fn ron_store(t: &str) -> DatumStore<'static> { laid_out(ron::from_str::<DatumStore<'static>>(t).unwrap()) }
/// a type as it is written in the text and the binary form of a state, and read back
pub fn type_back(oid: u32) -> (u32, u32) {
    use crate::serialization::ShortTypeId;
    let t = ShortTypeId(pgrx::pg_sys::Oid::from(oid));
    let a: ShortTypeId = ron::from_str(&ron::to_string(&t).unwrap()).unwrap();
    let b: ShortTypeId = bincode::deserialize(&bincode::serialize(&t).unwrap()).unwrap();
    (a.0.to_u32(), b.0.to_u32())
}
