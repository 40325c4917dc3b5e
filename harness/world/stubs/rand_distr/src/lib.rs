//! Stand-in for rand_distr: only the repository's own tests use it.
use rand::Rng;
pub trait Distribution<T> {
    fn sample<R: Rng + ?Sized>(&self, r: &mut R) -> T;
}
pub struct Normal(f64, f64);
impl Normal {
    pub fn new(mean: f64, std: f64) -> Result<Self, ()> {
        Ok(Normal(mean, std))
    }
}
impl Distribution<f64> for Normal {
    fn sample<R: Rng + ?Sized>(&self, r: &mut R) -> f64 {
        let (a, b): (f64, f64) = (r.gen(), r.gen());
        self.0 + self.1 * (-2.0 * (1.0 - a).ln()).sqrt() * (std::f64::consts::TAU * b).cos()
    }
}
