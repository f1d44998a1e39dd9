// exposes private items to the contracts in /verif (only with --cfg tsdbtk_verif)
use crate::sparse::Encoded;
pub fn from_hash(hash: u64, p: u8) -> Encoded { Encoded::from_hash(hash, p) }
