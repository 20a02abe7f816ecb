//! The oracle: transforms straight from their definitions, sharing no code with rustdct.
use crate::kinds::{Def, Kind};
use rustdct::rustfft::num_complex::Complex;
use rustdct::rustfft::{Fft, FftPlanner};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;
use std::sync::Arc;

/// cos/sin of 2 pi j / p for integer j < p, octant-reduced so that every entry is correctly rounded to ~0.5 ulp
pub fn exact_trig(j: u128, p: u128) -> (f64, f64) {
    let j = j % p;
    // eighths: angle = 2 pi j/p ; write 8j = o*p + r
    let o = (8 * j) / p;
    let r = 8 * j - o * p; // angle = o*pi/4 + (r/p)*pi/4
    let quarter = std::f64::consts::FRAC_PI_4;
    let (s, c) = if o % 2 == 0 {
        (quarter * (r as f64 / p as f64)).sin_cos()
    } else {
        // reflect: angle within octant = pi/4 - (p-r)/p*pi/4
        (quarter * ((p - r) as f64 / p as f64)).sin_cos()
    };
    // even octants: small angle t from axis o/2; odd octants: t back from the next axis
    match o {
        0 => (c, s),
        1 => (s, c),
        2 => (-s, c),
        3 => (-c, s),
        4 => (-c, -s),
        5 => (-s, -c),
        6 => (s, -c),
        _ => (c, -s),
    }
}

fn two_sum(a: f64, b: f64) -> (f64, f64) {
    let s = a + b;
    let t = s - a;
    (s, (a - (s - t)) + (b - t))
}
/// compensated dot-product accumulator
#[derive(Clone, Copy, Default)]
pub struct Acc(f64, f64);
impl Acc {
    #[inline]
    pub fn mul_add(&mut self, a: f64, b: f64) {
        let p = a * b;
        let e = a.mul_add(b, -p);
        let (s, t) = two_sum(self.0, p);
        self.0 = s;
        self.1 += t + e;
    }
    pub fn get(self) -> f64 {
        self.0 + self.1
    }
}

pub struct Table {
    p: usize,
    c: Vec<f64>,
    s: Vec<f64>,
}
impl Table {
    pub fn new(p: usize) -> Table {
        let (mut c, mut s) = (Vec::with_capacity(p), Vec::with_capacity(p));
        for j in 0..p {
            let (x, y) = exact_trig(j as u128, p as u128);
            c.push(x);
            s.push(y);
        }
        Table { p, c, s }
    }
}

thread_local! {
    static TABLES: RefCell<HashMap<usize, Rc<Table>>> = RefCell::new(HashMap::new());
    static FFTS: RefCell<(FftPlanner<f64>, HashMap<usize, Arc<dyn Fft<f64>>>)> = RefCell::new((FftPlanner::new(), HashMap::new()));
}
pub fn table(p: usize) -> Rc<Table> {
    TABLES.with(|t| {
        let mut t = t.borrow_mut();
        if t.len() > 64 {
            t.clear();
        }
        t.entry(p).or_insert_with(|| Rc::new(Table::new(p))).clone()
    })
}
fn fft(p: usize) -> Arc<dyn Fft<f64>> {
    FFTS.with(|t| {
        let mut t = t.borrow_mut();
        if t.1.len() > 64 {
            *t = (FftPlanner::new(), HashMap::new());
        }
        let (pl, m) = &mut *t;
        m.entry(p).or_insert_with(|| pl.plan_fft_forward(p)).clone()
    })
}

/// one output bin by compensated summation of the definition
pub fn bin_with(t: &Table, d: &Def, x: &[f64], k: usize) -> f64 {
    let n = x.len();
    let bk = (d.b.0 * k + d.b.1) % d.p;
    let step = (d.a.0 * bk) % d.p;
    let mut idx = (d.a.1 * bk) % d.p;
    let tab = if d.sine { &t.s } else { &t.c };
    debug_assert_eq!(t.p, d.p);
    let mut acc = Acc::default();
    for i in 0..n {
        acc.mul_add(x[i] * d.weight(i, n), tab[idx]);
        idx += step;
        if idx >= d.p {
            idx -= d.p;
        }
    }
    acc.get()
}
pub fn bin(kind: Kind, x: &[f64], k: usize) -> f64 {
    let d = kind.def(x.len());
    bin_with(&table(d.p), &d, x, k)
}
pub fn direct(kind: Kind, x: &[f64]) -> Vec<f64> {
    let d = kind.def(x.len());
    let t = table(d.p);
    (0..x.len()).map(|k| bin_with(&t, &d, x, k)).collect()
}

/// generic definition sum through one zero-padded FFT of length p (used for long inputs)
pub fn via_fft_def(d: &Def, x: &[f64], nout: usize) -> Vec<f64> {
    let p = d.p;
    // scale to avoid overflow of intermediate values
    let m = x.iter().fold(0f64, |a, b| a.max(b.abs()));
    let sc = if m > 1e200 || (m < 1e-200 && m > 0.0) { m } else { 1.0 };
    let mut z = vec![Complex::new(0f64, 0f64); p];
    for (i, v) in x.iter().enumerate() {
        z[(d.a.0 * i + d.a.1) % p].re += v / sc * d.weight(i, x.len());
    }
    let f = fft(p);
    f.process(&mut z);
    (0..nout)
        .map(|k| {
            let c = z[(d.b.0 * k + d.b.1) % p];
            sc * if d.sine { -c.im } else { c.re }
        })
        .collect()
}
pub fn via_fft(kind: Kind, x: &[f64]) -> Vec<f64> {
    via_fft_def(&kind.def(x.len()), x, x.len())
}

pub const DIRECT_MAX: usize = 320;
pub fn reference(kind: Kind, x: &[f64]) -> Vec<f64> {
    if x.len() <= DIRECT_MAX {
        direct(kind, x)
    } else {
        via_fft(kind, x)
    }
}

/// MDCT: out[k] = sum_{i<2n} w x cos(pi/n (i + 1/2 + n/2)(k + 1/2))
pub fn mdct_def(n: usize) -> Def {
    Def { sine: false, a: (2, 1 + n), b: (2, 1), p: 8 * n, half_first: false, half_last: false }
}
pub fn mdct(window: &[f64], x: &[f64], n: usize) -> Vec<f64> {
    assert!(x.len() == 2 * n && window.len() == 2 * n);
    let wx: Vec<f64> = x.iter().zip(window).map(|(a, b)| a * b).collect();
    let d = mdct_def(n);
    if n <= DIRECT_MAX {
        let t = table(d.p);
        (0..n).map(|k| bin_with(&t, &d, &wx, k)).collect()
    } else {
        via_fft_def(&d, &wx, n)
    }
}
/// the increments the inverse adds: 2n values
pub fn imdct(window: &[f64], x: &[f64], n: usize) -> Vec<f64> {
    assert!(x.len() == n && window.len() == 2 * n);
    let m = mdct_def(n);
    let d = Def { a: m.b, b: m.a, ..m };
    let y = if n <= DIRECT_MAX {
        let t = table(d.p);
        (0..2 * n).map(|k| bin_with(&t, &d, x, k)).collect()
    } else {
        via_fft_def(&d, x, 2 * n)
    };
    y.iter().zip(window).map(|(a, b)| a * b).collect()
}

pub fn norm2(x: &[f64]) -> f64 {
    let m = x.iter().fold(0f64, |a, b| a.max(b.abs()));
    if m == 0.0 || !m.is_finite() {
        return m;
    }
    m * x.iter().map(|v| (v / m) * (v / m)).sum::<f64>().sqrt()
}
pub fn norm1(x: &[f64]) -> f64 {
    x.iter().map(|v| v.abs()).sum()
}

/// Error of `out` against `want`: (L2, Linf, index of Linf); NaN anywhere gives infinity.
pub fn errs(out: &[f64], want: &[f64]) -> (f64, f64, usize) {
    let mut mx = 0f64;
    let mut at = 0;
    let mut d = Vec::with_capacity(out.len());
    for i in 0..out.len() {
        let e = (out[i] - want[i]).abs();
        let e = if e.is_nan() { f64::INFINITY } else { e };
        if e > mx {
            mx = e;
            at = i;
        }
        d.push(e);
    }
    (norm2(&d), mx, at)
}

/// The two evaluations of the definition and libm must agree (a broken oracle must not decide anything).
pub fn self_test() {
    let mut r = crate::rng::Rng::new(77);
    for kind in crate::kinds::ALL {
        for n in [2usize, 3, 5, 8, 17, 30, 64] {
            let x: Vec<f64> = (0..n).map(|_| r.sym()).collect();
            let (a, b) = (direct(kind, &x), via_fft(kind, &x));
            let e = errs(&a, &b).1;
            assert!(e < 1e-13 * n as f64, "HARNESS: oracle disagreement {kind:?} {n} {e:e}");
            let d = kind.def(n);
            for k in 0..n {
                let mut s = 0.0;
                for i in 0..n {
                    let ang = 2.0 * std::f64::consts::PI * ((d.a.0 * i + d.a.1) * (d.b.0 * k + d.b.1)) as f64 / d.p as f64;
                    s += x[i] * d.weight(i, n) * if d.sine { ang.sin() } else { ang.cos() };
                }
                assert!((s - a[k]).abs() < 1e-11 * n as f64, "HARNESS: oracle vs libm {kind:?} {n} {k}");
            }
            // definition of the inverse at the documented scale
            let back = direct(kind.inverse(), &a);
            for i in 0..n {
                let y = back[i] * 2.0 / kind.inverse_l(n);
                assert!((y - x[i]).abs() < 1e-12 * n as f64, "HARNESS: inverse {kind:?} {n} {i}: {y} {}", x[i]);
            }
        }
    }
}

/// one bin straight from the definition with exactly reduced angles (no table): for long inputs
pub fn spot_bin(kind: Kind, x: &[f64], k: usize) -> f64 {
    let n = x.len();
    let d = kind.def(n);
    let bk = (d.b.0 * k + d.b.1) as u128;
    let mut acc = Acc::default();
    for i in 0..n {
        let (c, s) = exact_trig((d.a.0 * i + d.a.1) as u128 * bk, d.p as u128);
        acc.mul_add(x[i] * d.weight(i, n), if d.sine { s } else { c });
    }
    acc.get()
}
