//! C04: MDCT and IMDCT equal their definition; the forward overwrites, the inverse accumulates, inputs stay as they are.
use dctmon::algos::{self, is_prime, Opts};
use dctmon::inputs;
use dctmon::real::*;
use dctmon::refer;
use dctmon::rng::{hash_str, Rng};
use dctmon::runner::*;
use dctmon::tol::{self, Class};
use dctmon::{by_t, ensure};
use rustdct::mdct::{window_fn, Mdct};
use rustdct::DctPlanner;
use std::sync::Arc;

#[global_allocator]
static A: dctmon::alloc::Counting = dctmon::alloc::Counting;

fn exec(c: &Case, obs: &mut Obs) -> Res {
    by_t!(c.s("t"), T => exec_t::<T>(c, obs))
}

fn window<T: Real>(name: &str, n: usize, r: &mut Rng) -> Vec<T> {
    match name {
        "mp3" => window_fn::mp3(2 * n),
        "mp3i" => window_fn::mp3_invertible(2 * n),
        "vorbis" => window_fn::vorbis(2 * n),
        "vorbisi" => window_fn::vorbis_invertible(2 * n),
        "one" => window_fn::one(2 * n),
        "onei" => window_fn::invertible(2 * n),
        "asym" => inputs::gen("white", 2 * n, None, r),
        "imp" => inputs::gen("imp", 2 * n, None, r),
        "mixed" => inputs::gen("mixed", 2 * n, None, r),
        "half" => (0..2 * n).map(|i| if i < n { T::one() } else { T::zero() }).collect(),
        w => panic!("HARNESS: window {w}"),
    }
}
const WINDOWS: [&str; 10] = ["mp3", "mp3i", "vorbis", "vorbisi", "one", "onei", "asym", "imp", "mixed", "half"];
const INPUTS: [&str; 12] = ["white", "white", "imp", "const", "alt", "ramp", "mixed", "ends", "step", "quant", "zeros", "sparse"];

fn exec_t<T: Real>(c: &Case, obs: &mut Obs) -> Res {
    let n = c.u("n");
    let mut r = Rng::new(c.seed() ^ hash_str("mdct"));
    let wname = c.s("w");
    let w: Vec<T> = window(wname, n, &mut r);
    let wf = to_f64(&w);
    let wc = w.clone();
    let wfn = move |len: usize| {
        assert!(len == wc.len(), "window function asked for {len} values instead of {}", wc.len());
        wc
    };
    let inst: Arc<dyn Mdct<T>> = match c.s("alg") {
        "plan" => DctPlanner::new().plan_mdct(n, wfn),
        a => algos::mdct(n, a, &mut r, if n > 300 { Opts::fast_only() } else { Opts::small() }, wfn).inst,
    };
    ensure!(inst.len() == n, "mdct planned for {n} reports {}", inst.len());
    let class = if c.s("alg") == "plan" && n > 64 { Class::Fast } else { Class::Naive };
    let slen = inst.get_scratch_len();
    let mut scratch: Vec<T> = vec![T::zero(); slen];
    let reps = if n <= 512 { 4 } else if n < 100_000 { 2 } else { 1 };
    for rep in 0..reps {
        let f = *r.pick(&INPUTS);
        let what = format!("n={n} {} window={wname} alg={} input={f}", T::NAME, c.s("alg"));
        // forward
        let x: Vec<T> = inputs::gen(f, 2 * n, None, &mut r);
        let xf = to_f64(&x);
        let (a, b) = (x[..n].to_vec(), x[n..].to_vec());
        // whatever the output held
        let fill = *r.pick(&["zero", "nan", "inf", "big", "noise"]);
        let mut out: Vec<T> = filler(fill, n, &mut r);
        inst.process_mdct_with_scratch(&a, &b, &mut out, &mut scratch);
        ensure!(same_bits(&a, &x[..n]) && same_bits(&b, &x[n..]), "mdct {what}: input buffers modified");
        let wx: Vec<f64> = xf.iter().zip(&wf).map(|(p, q)| p * q).collect();
        let want = refer::mdct(&wf, &xf, n);
        let gain = if class == Class::Fast { 2.0 } else { 8.0 };
        tol::check::<T>(obs, &format!("mdct {what} output held {fill}"), class, &wx, &out, &want, f == "white" && class == Class::Fast, gain)?;
        obs.eval(hash_str(&format!("f{what}{rep}{}", c.seed())), xf.iter().any(|v| *v != 0.0));
        obs.count("forward", 1);
        obs.count(&format!("output_held.{fill}"), 1);
        if n > refer::DIRECT_MAX && class == Class::Fast && f == "white" {
            let k = r.below(n);
            let mut acc = refer::Acc::default();
            for i in 0..2 * n {
                acc.mul_add(wx[i], refer::exact_trig(((2 * i + 1 + n) * (2 * k + 1)) as u128, 8 * n as u128).0);
            }
            let b = 2.0 * tol::c_fast_bin::<T>() * T::EPS * (1.0 + (n as f64).log2()) * refer::norm2(&wx);
            ensure!((acc.get() - out[k].f()).abs() <= b, "mdct {what}: bin {k} is {:e}, definition {:e}", out[k].f(), acc.get());
            obs.count("spot_bins", 1);
        }
        // inverse into zeroed outputs
        let y: Vec<T> = inputs::gen(f, n, None, &mut r);
        let yf = to_f64(&y);
        let yc = y.clone();
        let (mut oa, mut ob) = (vec![T::zero(); n], vec![T::zero(); n]);
        inst.process_imdct_with_scratch(&yc, &mut oa, &mut ob, &mut scratch);
        ensure!(same_bits(&y, &yc), "imdct {what}: input buffer modified");
        let inc: Vec<T> = oa.iter().chain(&ob).copied().collect();
        let want = refer::imdct(&wf, &yf, n);
        // windows may be much larger than 1
        let wmax = wf.iter().fold(0f64, |m, v| m.max(v.abs())).max(1.0);
        let scaled: Vec<f64> = yf.iter().map(|v| v * wmax).collect();
        tol::check::<T>(obs, &format!("imdct {what}"), class, &scaled, &inc, &want, f == "white" && wmax < 2.0 && class == Class::Fast, gain)?;
        obs.eval(hash_str(&format!("i{what}{rep}{}", c.seed())), yf.iter().any(|v| *v != 0.0));
        obs.count("inverse", 1);
        // inverse onto existing contents: exactly one addition per element
        let fill = *r.pick(&["noise", "big", "inf", "nan", "neg"]);
        let (pa, pb): (Vec<T>, Vec<T>) = if fill == "neg" {
            // exact cancellation: adding the increments to their negation must give zero
            (oa.iter().map(|v| -*v).collect(), ob.iter().map(|v| -*v).collect())
        } else {
            (filler(fill, n, &mut r), filler(fill, n, &mut r))
        };
        let (mut qa, mut qb) = (pa.clone(), pb.clone());
        inst.process_imdct_with_scratch(&yc, &mut qa, &mut qb, &mut scratch);
        for i in 0..2 * n {
            let (p, d, q) = if i < n { (pa[i], oa[i], qa[i]) } else { (pb[i - n], ob[i - n], qb[i - n]) };
            let s = p.f() + d.f();
            let okay = if !s.is_finite() || !p.f().is_finite() {
                (s.is_nan() && q.f().is_nan()) || q.f() == s
            } else {
                (q.f() - s).abs() <= 2.0 * T::EPS * (p.f().abs() + d.f().abs()) + T::MIN_POS
            };
            ensure!(okay, "imdct {what}: output element {i} held {:e}, increment {:e}, now {:e} (must accumulate)", p.f(), d.f(), q.f());
        }
        obs.count("accumulations_checked", 2 * n as u64);
        obs.count(&format!("accumulate_onto.{fill}"), 1);
    }
    obs.set("lengths", n);
    obs.set("window_alg", format_args!("{wname}/{}", c.s("alg")));
    Ok(())
}

fn filler<T: Real>(kind: &str, n: usize, r: &mut Rng) -> Vec<T> {
    (0..n)
        .map(|_| match kind {
            "zero" => T::zero(),
            "nan" => T::nan(),
            "inf" => if r.chance(1, 2) { T::inf() } else { -T::inf() },
            "big" => T::of(r.sym() * 1e20),
            _ => T::of(r.sym()),
        })
        .collect()
}

fn cases(tier: Tier, seed: u64) -> Vec<Case> {
    refer::self_test();
    let mut r = Rng::new(seed ^ 0xc04);
    let mut v = vec![];
    let mut push = |n: usize, w: &str, alg: &str, t: &str, s: u64| {
        v.push(Case::new().with("n", n).with("w", w).with("alg", alg).with("t", t).with("s", s >> 16));
    };
    for n in (2..=tier.q(3000, 8000)).step_by(2) {
        for t in ["f64", "f32"] {
            for _ in 0..2 {
                let w = *r.pick(&WINDOWS);
                push(n, w, "plan", t, r.u64());
            }
            if n <= tier.q(160, 500) {
                let w = *r.pick(&WINDOWS);
                push(n, w, "naive", t, r.u64());
                for _ in 0..8 {
                    let w = *r.pick(&WINDOWS);
                    push(n, w, "dct4", t, r.u64());
                }
            }
        }
    }
    for w in WINDOWS {
        for n in [2usize, 4, 6, 8, 10, 12, 16, 18, 32, 34, 62, 64, 66, 128, 256] {
            for alg in ["plan", "naive", "dct4"] {
                for t in ["f64", "f32"] {
                    push(n, w, alg, t, r.u64());
                }
            }
        }
    }
    for e in 8..=tier.q(16, 19) {
        for d in [-2i64, 0, 2] {
            push(((1i64 << e) + d) as usize, *r.pick(&WINDOWS), "plan", if r.chance(1, 2) { "f32" } else { "f64" }, r.u64());
        }
    }
    for n in [140_000usize, 300_000, 1 << 18, 600_000, 1 << 20, 1_100_000] {
        for _ in 0..tier.q(1, 3) {
            push(n + 2 * r.below(3000), *r.pick(&WINDOWS), "plan", if r.chance(1, 2) { "f32" } else { "f64" }, r.u64());
        }
        push(n, *r.pick(&WINDOWS), "plan", if r.chance(1, 2) { "f32" } else { "f64" }, r.u64());
    }
    for _ in 0..tier.q(60, 1500) {
        let mut n = r.logrange(1200, tier.q(40000, 200000));
        if r.chance(1, 2) {
            while !is_prime(n) {
                n += 1
            }
        }
        push(2 * n, *r.pick(&WINDOWS), "plan", if r.chance(1, 2) { "f32" } else { "f64" }, r.u64());
    }
    v.sort_by_key(|c| std::cmp::Reverse(c.u("n")));
    v
}

fn main() {
    dctmon::runner::main(Prop {
        id: "C04",
        rule: "case = (length n, window, algorithm: planned / naive / via a random DCT4 composition, type, seed): forward onto an output holding zeros/NaN/inf/noise, inverse onto zeros compared with the definition, inverse onto existing contents (noise, 1e20, inf, NaN, exact negation) checked element by element as one addition, inputs compared bit for bit; non-trivial = nonzero input",
        cases,
        exec,
        threads: 0,
        minima: &[("evaluations", 10000), ("window_alg", 30), ("accumulations_checked", 1000000), ("spot_bins", 100)],
    })
}
