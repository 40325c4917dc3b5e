//! Stand-in for approx: only the repository's own tests use it.
#[macro_export]
macro_rules! assert_abs_diff_eq {
    ($a:expr, $b:expr) => { assert!(($a - $b).abs() <= f64::EPSILON) };
    ($a:expr, $b:expr, epsilon = $e:expr) => { assert!(($a - $b).abs() <= $e) };
}
