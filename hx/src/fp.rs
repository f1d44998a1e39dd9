//! Floating-point helpers for contracts: "the same number" up to NaN payload.
pub fn same(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}
/// equal as numbers (so -0.0 == 0.0), or both NaN
pub fn eqn(a: f64, b: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan())
}
