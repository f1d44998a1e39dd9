// exposes private items to the contracts in /verif (only with --cfg tsdbtk_verif)
use super::*;
pub fn fin(s: Internal) -> Option<TDigest<'static>> { super::tdigest_final(s, std::ptr::null_mut()) }
pub fn compound_final(s: Internal) -> Option<TDigest<'static>> { super::tdigest_compound_final(s, std::ptr::null_mut()) }
pub fn compound_serialize(s: Internal) -> Option<crate::raw::bytea> { super::tdigest_compound_serialize(s, std::ptr::null_mut()) }
/// size and centroids
pub fn parts(d: &TDigest<'_>) -> (u32, Vec<(f64, u64)>) { (d.max_buckets, d.centroids.iter().map(|c| (c.mean(), c.weight())).collect()) }
