//! Input families. Every value is representable in T, so the oracle sees exactly the data the code sees.
use crate::real::Real;
use crate::rng::Rng;

pub const FAMILIES: [&str; 27] = [
    "white", "pos", "imp", "const", "alt", "ramp", "cos", "sparse", "quant", "mixed", "huge", "tiny", "ends", "zeros",
    "step", "decay", "negpow",
    "palin", "antipalin", "fronthalf", "backhalf", "evens", "odds", "signs", "periodic", "runs", "ints",
];

/// `arg` selects the impulse position etc.; `None` = random
pub fn gen<T: Real>(family: &str, n: usize, arg: Option<usize>, r: &mut Rng) -> Vec<T> {
    let mut v = vec![0f64; n];
    if n == 0 {
        return vec![];
    }
    match family {
        "white" => v.iter_mut().for_each(|x| *x = r.sym()),
        "pos" => v.iter_mut().for_each(|x| *x = 0.5 + r.unit()),
        "imp" => {
            let k = arg.unwrap_or_else(|| r.below(n)) % n;
            v[k] = if r.chance(1, 2) { 1.0 } else { -1.0 - r.unit() };
        }
        "const" => {
            let c = r.sym() + 1.5;
            v.iter_mut().for_each(|x| *x = c)
        }
        "alt" => v.iter_mut().enumerate().for_each(|(i, x)| *x = if i % 2 == 0 { 1.25 } else { -1.25 }),
        "ramp" => v.iter_mut().enumerate().for_each(|(i, x)| *x = (i as f64 + 1.0) / n as f64),
        "cos" => {
            let f = r.unit() * std::f64::consts::PI;
            let p = r.unit() * 6.0;
            v.iter_mut().enumerate().for_each(|(i, x)| *x = (f * i as f64 + p).cos())
        }
        "sparse" => {
            for _ in 0..r.range(1, 4) {
                let k = r.below(n);
                v[k] = r.sym() * 3.0;
            }
            if v.iter().all(|x| *x == 0.0) {
                v[0] = 1.0
            }
        }
        "quant" => v.iter_mut().for_each(|x| *x = r.below(7) as f64 - 3.0),
        "mixed" => v.iter_mut().for_each(|x| *x = r.sym() * 10f64.powf(r.sym() * 6.0)),
        "huge" => {
            let s = T::MAX / (64.0 * (n as f64 + 2.0).powf(1.5));
            v.iter_mut().for_each(|x| *x = s * r.sym())
        }
        "tiny" => {
            let s = T::MIN_POS * 1e6 * (n as f64 + 1.0);
            v.iter_mut().for_each(|x| *x = s * r.sym())
        }
        "ends" => {
            v[0] = r.sym() + 2.0;
            v[n - 1] = r.sym() - 2.0;
        }
        "zeros" => {}
        "step" => {
            let k = r.below(n);
            v.iter_mut().skip(k).for_each(|x| *x = 1.0)
        }
        "decay" => v.iter_mut().enumerate().for_each(|(i, x)| *x = 0.9f64.powi(i.min(2000) as i32) * r.sym()),
        "negpow" => v.iter_mut().for_each(|x| *x = -(2f64.powi(r.below(9) as i32 - 4))),
        "palin" | "antipalin" => {
            let s = if family == "palin" { 1.0 } else { -1.0 };
            for i in 0..(n + 1) / 2 {
                let x = r.sym();
                v[i] = x;
                v[n - 1 - i] = x * if 2 * i + 1 == n { 1.0 } else { s };
            }
        }
        "fronthalf" => v.iter_mut().take((n + 1) / 2).for_each(|x| *x = r.sym()),
        "backhalf" => v.iter_mut().skip(n / 2).for_each(|x| *x = r.sym()),
        "evens" => v.iter_mut().step_by(2).for_each(|x| *x = r.sym()),
        "odds" => v.iter_mut().skip(1).step_by(2).for_each(|x| *x = r.sym()),
        "signs" => v.iter_mut().for_each(|x| *x = if r.chance(1, 2) { 1.0 } else { -1.0 }),
        "periodic" => {
            let p = r.range(1, n.min(64));
            let base: Vec<f64> = (0..p).map(|_| r.sym()).collect();
            v.iter_mut().enumerate().for_each(|(i, x)| *x = base[i % p])
        }
        "runs" => {
            let mut c = r.sym();
            v.iter_mut().for_each(|x| {
                if r.chance(1, 8) {
                    c = if r.chance(1, 3) { 0.0 } else { r.sym() }
                }
                *x = c
            })
        }
        "ints" => v.iter_mut().for_each(|x| *x = r.below(65_536) as f64 - 32_768.0),
        f => panic!("HARNESS: family {f}"),
    }
    v.into_iter().map(|x| T::of(x)).collect()
}
