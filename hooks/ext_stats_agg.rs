// exposes private items to the contracts in /verif (only with --cfg tsdbtk_verif)
use super::{StatsSummary1D as S1, StatsSummary2D as S2};
const NUL: pgrx::pg_sys::FunctionCallInfo = std::ptr::null_mut();
pub fn fin1(s: pgrx::Internal) -> Option<S1> { super::stats1d_final(s, NUL) }
pub fn fin2(s: pgrx::Internal) -> Option<S2> { super::stats2d_final(s, NUL) }
pub fn tf_fin1(s: pgrx::Internal) -> Option<S1> { super::stats1d_tf_final(s, NUL) }
pub fn tf_fin2(s: pgrx::Internal) -> Option<S2> { super::stats2d_tf_final(s, NUL) }
pub fn count1(s: S1) -> i64 { super::stats1d_num_vals(s) }
pub fn sum1(s: S1) -> Option<f64> { super::stats1d_sum(s) }
pub fn average1(s: S1) -> Option<f64> { super::stats1d_average(s) }
pub fn moments1(s: &S1) -> (u64, [f64; 4]) { (s.n, [s.sx, s.sx2, s.sx3, s.sx4]) }
pub fn moments2(s: &S2) -> (u64, [f64; 4], [f64; 4], f64) { (s.n, [s.sx, s.sx2, s.sx3, s.sx4], [s.sy, s.sy2, s.sy3, s.sy4], s.sxy) }
/// variance, deviation, skewness and kurtosis by that method
pub fn stats1(s: impl Fn() -> S1, m: &str) -> [Option<f64>; 4] { [super::stats1d_variance(Some(s()), m), super::stats1d_stddev(Some(s()), m), super::stats1d_skewness(s(), m), super::stats1d_kurtosis(s(), m)] }
pub fn of_nothing(m: &str) -> [Option<f64>; 3] { [super::stats1d_variance(None, m), super::stats1d_stddev(None, m), super::stats2d_covar(None, m)] }
pub fn stats2(s: impl Fn() -> S2, m: &str) -> ([Option<f64>; 4], [Option<f64>; 4], Option<f64>) {
    ([super::stats2d_variance_x(Some(s()), m), super::stats2d_stddev_x(Some(s()), m), super::stats2d_skewness_x(s(), m), super::stats2d_kurtosis_x(s(), m)],
     [super::stats2d_variance_y(Some(s()), m), super::stats2d_stddev_y(Some(s()), m), super::stats2d_skewness_y(s(), m), super::stats2d_kurtosis_y(s(), m)],
     super::stats2d_covar(Some(s()), m))
}
pub fn count2(s: S2) -> i64 { super::stats2d_num_vals(s) }
/// average and sum of x and of y
pub fn sums2(s: impl Fn() -> S2) -> [Option<f64>; 4] { [super::stats2d_average_x(s()), super::stats2d_sum_x(s()), super::stats2d_average_y(s()), super::stats2d_sum_y(s())] }
/// slope, intercept, correlation, determination coefficient, x intercept
pub fn line(s: impl Fn() -> S2) -> [Option<f64>; 5] { [super::stats2d_slope(s()), super::stats2d_intercept(s()), super::stats2d_corr(s()), super::stats2d_determination_coeff(s()), super::stats2d_x_intercept(s())] }
