// exposes private items to the contracts in /verif (only with --cfg tsdbtk_verif)
use super::*;
pub fn fin(s: Internal) -> Option<HyperLogLog<'static>> { super::hyperloglog_final(s, std::ptr::null_mut()) }
/// precision, whether sparse, element type, collation and the registers, packed
pub fn parts(h: &HyperLogLog<'_>) -> (u8, bool, u32, u32, Vec<u8>) {
    match &h.log {
        Storage::Sparse { num_compressed, precision, compressed, element_type, collation, .. } => {
            let mut l = HLL::<HashableDatum, ()>::from_sparse_parts(compressed.slice(), *num_compressed, *precision, ());
            (*precision, true, element_type.0.to_u32(), collation.0.to_u32(), dense(&mut l))
        }
        Storage::Dense { precision, registers, element_type, collation } => (*precision, false, element_type.0.to_u32(), collation.0.to_u32(), registers.slice().to_vec()),
    }
}
fn dense(l: &mut HLL<'_, HashableDatum, ()>) -> Vec<u8> {
    match l.to_parts() { HyperLogLogStorage::Sparse(s) => s.immutable_to_dense().registers.bytes().to_vec(), HyperLogLogStorage::Dense(d) => d.registers.bytes().to_vec() }
}
/// the estimate of these packed registers
pub fn dense_count(b: &[u8], p: u8) -> i64 { HLL::<HashableDatum, ()>::from_dense_parts(b, p, ()).immutable_estimate_count() as i64 }
pub fn build_from(size: i32, oid: u32, data: Vec<Datum>) -> HyperLogLog<'static> { HyperLogLog::build_from(size, Oid::from(oid), None, data.into_iter()) }
/// a dense sketch of these registers
pub fn of_dense(p: u8, oid: u32, r: &[u8]) -> HyperLogLog<'static> {
    let registers = r.to_vec();
    unsafe { flatten!(HyperLogLog { log: Storage::Dense { element_type: ShortTypeId(Oid::from(oid)), collation: PgCollationId(Oid::INVALID), precision: p, registers: registers.into() } }) }
}
