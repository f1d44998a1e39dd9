// exposes private items to the contracts in /verif (only with --cfg tsdbtk_verif)
pub use super::count_min_sketch as agg;
