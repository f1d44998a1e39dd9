// exposes private items to the contracts in /verif (only with --cfg tsdbtk_verif)
use super::*;
pub use super::{max_float::*, max_int::*, max_time::*, min_float::*, min_int::*, min_time::*};
pub use super::{max_by_float::*, max_by_int::*, max_by_time::*, min_by_float::*, min_by_int::*, min_by_time::*};
pub fn new<T: Ord>(capacity: usize, first: T) -> NMostTransState<T> { NMostTransState::new(capacity, first) }
pub fn entry<T: Ord>(s: &mut NMostTransState<T>, v: T) { s.new_entry(v) }
pub fn sorted<T: Ord + Clone>(s: &NMostTransState<T>) -> Vec<T> { s.heap.clone().into_sorted_vec() }
pub fn heap<T: Ord>(s: &NMostTransState<T>) -> &[T] { s.heap.as_slice() }
