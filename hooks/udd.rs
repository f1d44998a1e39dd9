// exposes private items to the contracts in /verif (only with --cfg tsdbtk_verif)
use super::SketchHashKey;
pub fn compact_key(k: SketchHashKey) -> SketchHashKey { k.compact_key() }
pub fn key(v: f64, gamma: f64) -> SketchHashKey { super::key(v, gamma) }
pub fn bucket_to_value(alpha: f64, gamma: f64, k: SketchHashKey) -> f64 { super::bucket_to_value(alpha, gamma, k) }
