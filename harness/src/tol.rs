//! Error bounds. All are of the form C * eps * (norm of the input), see DESIGN.md "Tolerances".
use crate::real::Real;
use crate::refer::{errs, norm1, norm2};
use crate::runner::Obs;

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Class {
    /// FFT-like error growth: |err|_2 <= C eps (1+log2 n) sqrt(n) |x|_2
    Fast,
    /// direct summation: every bin within (n+16) eps |x|_1, and for noise-like inputs |err|_2 <= C eps n |x|_2
    Naive,
}

/// Bounds in units of eps (1+log2 n) sqrt(n) |x|_2 (L2) resp. eps (1+log2 n) |x|_2 (bin). For f32 the oracle (f64) is
/// exact; for f64 the oracle's own FFT error is part of what is measured. Structured inputs get more room: the errors
/// of a prime-size FFT add up coherently on smooth inputs. Largest values seen on the clean tree: see evidence `maxima`.
pub fn c_fast_l2<T: Real>(noise: bool) -> f64 {
    match (T::EPS > 1e-10, noise) {
        (true, true) => 0.8,
        (true, false) => 2.0,
        (false, true) => 3.0,
        (false, false) => 40.0,
    }
}
pub fn c_fast_bin<T: Real>() -> f64 {
    if T::EPS > 1e-10 { 4.0 } else { 12.0 }
}
pub const C_NAIVE_L2: f64 = 3.0;

/// Check `out` against the definition `want` for input x (both as exact f64); returns a message on violation.
/// `noise`: the input is unstructured, so the statistical per-bin bound applies too.
/// `gain`: extra factor for multi-stage compositions.
pub fn check<T: Real>(
    obs: &mut Obs, label: &str, class: Class, x: &[f64], out: &[T], want: &[f64], noise: bool, gain: f64,
) -> Result<(), String> {
    let n = x.len().max(out.len());
    let nf = n as f64;
    let o: Vec<f64> = out.iter().map(|v| v.f()).collect();
    let (l2, mx, at) = errs(&o, want);
    let (x2, x1) = (norm2(x), norm1(x));
    let lg = 1.0 + nf.log2();
    let under = T::MIN_POS * T::EPS * 64.0 * nf * nf; // gradual underflow of intermediates
    let desc = |name: &str, got: f64, bound: f64| {
        format!(
            "{label}: {name} error {got:.3e} exceeds {bound:.3e} (|x|_2={x2:.3e}); worst bin {at}: got {:e}, definition {:e}",
            o.get(at).copied().unwrap_or(f64::NAN), want.get(at).copied().unwrap_or(f64::NAN)
        )
    };
    if out.len() != want.len() {
        return Err(format!("{label}: {} outputs instead of {}", out.len(), want.len()));
    }
    let tag = if class == Class::Fast { "fast" } else { "naive" };
    if x2 > 0.0 && x2 > under * 1e3 {
        let unit = match class {
            Class::Fast => T::EPS * lg * nf.sqrt() * x2,
            Class::Naive => T::EPS * nf * x2,
        };
        if noise || class == Class::Fast {
            obs.max(&format!("l2_ratio.{tag}.{}.{}", T::NAME, if noise { "noise" } else { "structured" }), l2 / unit, || label.to_string());
        }
        if noise && class == Class::Fast {
            obs.max(&format!("bin_ratio.{tag}.{}", T::NAME), mx / (T::EPS * lg * x2), || label.to_string());
        }
    }
    match class {
        Class::Fast => {
            let b = gain * c_fast_l2::<T>(noise) * T::EPS * lg * nf.sqrt() * x2 + under;
            if !(l2 <= b) {
                return Err(desc("L2", l2, b));
            }
            if noise {
                let b = gain * c_fast_bin::<T>() * T::EPS * lg * x2 + under;
                if !(mx <= b) {
                    return Err(desc("bin", mx, b));
                }
            }
        }
        Class::Naive => {
            let b = gain * (nf + 16.0) * T::EPS * x1 + under;
            if !(mx <= b) {
                return Err(desc("bin", mx, b));
            }
            if noise {
                let b = gain * C_NAIVE_L2 * T::EPS * (nf + 8.0) * x2 + under;
                if !(l2 <= b) {
                    return Err(desc("L2", l2, b));
                }
            }
        }
    }
    Ok(())
}
