// exposes private items to the contracts in /verif (only with --cfg tsdbtk_verif)
use super::*;
pub fn fin(s: Internal) -> Option<UddSketch<'static>> { super::uddsketch_final(s, std::ptr::null_mut()) }
/// size, number of buckets, compactions, and the buckets
pub fn parts(s: &UddSketch<'_>) -> (u32, u32, u64, Vec<(SketchHashKey, u64)>) { (s.max_buckets, s.num_buckets, s.compactions, s.keys().zip(s.counts()).collect()) }
