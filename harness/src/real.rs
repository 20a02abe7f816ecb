//! The two built-in element types.
use rustdct::DctNum;
pub trait Real: DctNum {
    const EPS: f64;
    const MAX: f64;
    const MIN_POS: f64;
    const NAME: &'static str;
    fn of(x: f64) -> Self;
    fn f(self) -> f64;
    fn bits(self) -> u64;
    fn nan() -> Self;
    fn inf() -> Self;
}
impl Real for f32 {
    const EPS: f64 = f32::EPSILON as f64;
    const MAX: f64 = f32::MAX as f64;
    const MIN_POS: f64 = f32::MIN_POSITIVE as f64;
    const NAME: &'static str = "f32";
    fn of(x: f64) -> f32 { x as f32 }
    fn f(self) -> f64 { self as f64 }
    fn bits(self) -> u64 { self.to_bits() as u64 }
    fn nan() -> f32 { f32::NAN }
    fn inf() -> f32 { f32::INFINITY }
}
impl Real for f64 {
    const EPS: f64 = f64::EPSILON;
    const MAX: f64 = f64::MAX;
    const MIN_POS: f64 = f64::MIN_POSITIVE;
    const NAME: &'static str = "f64";
    fn of(x: f64) -> f64 { x }
    fn f(self) -> f64 { self }
    fn bits(self) -> u64 { self.to_bits() }
    fn nan() -> f64 { f64::NAN }
    fn inf() -> f64 { f64::INFINITY }
}
pub fn to_f64<T: Real>(v: &[T]) -> Vec<f64> { v.iter().map(|x| x.f()).collect() }
pub fn of_f64<T: Real>(v: &[f64]) -> Vec<T> { v.iter().map(|x| T::of(*x)).collect() }
/// bit equality where every NaN counts as the same value (payloads are not specified)
pub fn same_bits<T: Real>(a: &[T], b: &[T]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.bits() == y.bits() || (x.f().is_nan() && y.f().is_nan()))
}
pub fn first_diff<T: Real>(a: &[T], b: &[T]) -> String {
    if a.len() != b.len() { return format!("lengths {} vs {}", a.len(), b.len()); }
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        if x.bits() != y.bits() && !(x.f().is_nan() && y.f().is_nan()) {
            return format!("index {i}: {:e} vs {:e}", x.f(), y.f());
        }
    }
    "none".into()
}
