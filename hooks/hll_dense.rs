// exposes private items to the contracts in /verif (only with --cfg tsdbtk_verif)
use super::Storage;
pub fn idx_count_from_hash(s: &Storage<'_>, hash: u64) -> (usize, u8) { s.idx_count_from_hash(hash) }
pub fn idx_count_from_encoded(s: &Storage<'_>, e: crate::sparse::Encoded) -> (usize, u8) { s.idx_count_from_encoded(e) }
