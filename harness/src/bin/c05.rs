//! C05: window contracts and perfect reconstruction of overlap-add streams.
use dctmon::algos::{self, Opts};
use dctmon::inputs;
use dctmon::real::*;
use dctmon::refer;
use dctmon::rng::{hash_str, Rng};
use dctmon::runner::*;
use dctmon::{by_t, ensure};
use rustdct::mdct::{window_fn, Mdct};
use rustdct::DctPlanner;
use std::sync::Arc;

#[global_allocator]
static A: dctmon::alloc::Counting = dctmon::alloc::Counting;

const NAMES: [&str; 6] = ["mp3", "mp3i", "vorbis", "vorbisi", "one", "onei"];

fn win<T: Real>(name: &str) -> fn(usize) -> Vec<T> {
    match name {
        "mp3" => window_fn::mp3,
        "mp3i" => window_fn::mp3_invertible,
        "vorbis" => window_fn::vorbis,
        "vorbisi" => window_fn::vorbis_invertible,
        "one" => window_fn::one,
        "onei" => window_fn::invertible,
        w => panic!("HARNESS: window {w}"),
    }
}
/// published formula; sin through exactly reduced angles. len = 2n
fn formula(name: &str, i: usize, len: usize) -> f64 {
    // sin(pi (i+1/2)/len) = sin(2 pi (2i+1)/(4 len))
    let s = refer::exact_trig((2 * i + 1) as u128, 4 * len as u128).1;
    let n = len as f64 / 2.0;
    match name {
        "mp3" => s,
        "mp3i" => s * (2.0 / n).sqrt(),
        "vorbis" => (std::f64::consts::FRAC_PI_2 * s * s).sin(),
        "vorbisi" => (std::f64::consts::FRAC_PI_2 * s * s).sin() * (2.0 / n).sqrt(),
        "one" => 1.0,
        _ => (1.0 / n).sqrt(),
    }
}
/// w[i]^2 + w[i+n]^2
fn pb(name: &str, n: usize) -> f64 {
    match name {
        "mp3" | "vorbis" => 1.0,
        "one" => 2.0,
        _ => 2.0 / n as f64,
    }
}
/// factor to apply after overlap-add
fn rescale(name: &str, n: usize) -> f64 {
    match name {
        "mp3" | "vorbis" => 2.0 / n as f64,
        "one" => 1.0 / n as f64,
        _ => 1.0,
    }
}

fn exec(c: &Case, obs: &mut Obs) -> Res {
    match c.s("op") {
        "win" => by_t!(c.s("t"), T => window_case::<T>(c, obs)),
        _ => by_t!(c.s("t"), T => stream_case::<T>(c, obs)),
    }
}

fn window_case<T: Real>(c: &Case, obs: &mut Obs) -> Res {
    let n = c.u("n");
    let len = 2 * n;
    for name in NAMES {
        let w: Vec<T> = win::<T>(name)(len);
        ensure!(w.len() == len, "window {name} of length {len} has {} values", w.len());
        let w = to_f64(&w);
        let scale = pb(name, n).sqrt();
        for i in 0..len {
            let f = formula(name, i, len);
            ensure!((w[i] - f).abs() <= 4.0 * T::EPS * f.abs() + 8.0 * f64::EPSILON * scale, "window {name}({len})[{i}] = {:e}, formula {f:e} ({})", w[i], T::NAME);
            let m = w[len - 1 - i];
            ensure!((w[i] - m).abs() <= (4.0 * T::EPS) * f.abs() + 8.0 * f64::EPSILON * scale, "window {name}({len}) not symmetric at {i}: {:e} vs {m:e}", w[i]);
        }
        for i in 0..n {
            let s = w[i] * w[i] + w[i + n] * w[i + n];
            ensure!((s - pb(name, n)).abs() <= 8.0 * T::EPS * pb(name, n), "window {name}({len}): Princen-Bradley sum at {i} is {s:e}, not {:e}", pb(name, n));
        }
        obs.eval(hash_str(&format!("w{name}{len}{}", T::NAME)), true);
        obs.count("window_values_checked", len as u64);
        obs.set("windows", format_args!("{name}/{}/{len}", T::NAME));
    }
    Ok(())
}

fn stream_case<T: Real>(c: &Case, obs: &mut Obs) -> Res {
    let n = c.u("n");
    let name = c.s("w");
    let blocks = c.u("blocks");
    let mut r = Rng::new(c.seed() ^ hash_str("tdac"));
    let mut planner = DctPlanner::<T>::new();
    let fwd: Arc<dyn Mdct<T>> = planner.plan_mdct(n, win::<T>(name));
    // the decoder may be a different instance, even a different algorithm, with the same window
    let inv: Arc<dyn Mdct<T>> = match r.below(3) {
        0 => fwd.clone(),
        1 => DctPlanner::new().plan_mdct(n, win::<T>(name)),
        _ if n <= 200 => algos::mdct(n, if r.chance(1, 3) { "naive" } else { "dct4" }, &mut r, Opts::small(), win::<T>(name)).inst,
        _ => planner.plan_mdct(n, win::<T>(name)),
    };
    let f = *r.pick(&["white", "white", "cos", "step", "ramp", "mixed", "quant", "imp"]);
    let total = n * (blocks + 1);
    let x: Vec<T> = inputs::gen(f, total, None, &mut r);
    let mut out = vec![T::zero(); total];
    let mut scratch = vec![T::zero(); fwd.get_scratch_len().max(inv.get_scratch_len())];
    let mut spec: Vec<Vec<T>> = vec![];
    for b in 0..blocks {
        let mut s = vec![T::zero(); n];
        fwd.process_mdct_with_scratch(&x[b * n..(b + 1) * n], &x[(b + 1) * n..(b + 2) * n], &mut s, &mut scratch);
        spec.push(s);
    }
    // overlap-add, in order or (results add up) in any order
    let mut order: Vec<usize> = (0..blocks).collect();
    if r.chance(1, 3) {
        r.shuffle(&mut order)
    }
    for b in order {
        let (oa, ob) = out[b * n..(b + 2) * n].split_at_mut(n);
        inv.process_imdct_with_scratch(&spec[b], oa, ob, &mut scratch);
    }
    let sc = rescale(name, n);
    let mut worst = (0.0, 0);
    let mut frac = 0.0;
    // the error of a sample is bounded by the energy of the blocks that touch it
    let e2: Vec<f64> = (0..=blocks).map(|b| refer::norm2(&to_f64(&x[b * n..(b + 1) * n]))).collect();
    let lg = 1.0 + (n as f64).log2();
    let k = if n <= 200 { (n as f64 + 16.0) * 1.5 } else { 60.0 * lg };
    for b in 1..blocks {
        let near = e2[b - 1] + e2[b] + e2[b + 1];
        for i in b * n..(b + 1) * n {
            let e = (out[i].f() * sc - x[i].f()).abs();
            let bound = k * T::EPS * near / if f == "white" && n > 200 { (n as f64).sqrt() / 4.0 } else { 1.0 };
            ensure!(e <= bound, "stream {name} n={n} blocks={blocks} {} input={f}: sample {i} reconstructed as {:e} instead of {:e} (bound {bound:e})", T::NAME, out[i].f() * sc, x[i].f());
            if bound > 0.0 && e / bound > frac {
                frac = e / bound
            }
            if near > 0.0 && e / (T::EPS * near) > worst.0 {
                worst = (e / (T::EPS * near), i);
            }
        }
    }
    obs.max(&format!("sample_error_over_eps_block_norm.{}", T::NAME), worst.0, || c.to_string());
    obs.max("fraction_of_bound", frac, || c.to_string());
    obs.eval(c.hash(), blocks >= 2);
    obs.count("blocks", blocks as u64);
    obs.count("interior_samples_checked", ((blocks.max(1) - 1) * n) as u64);
    obs.set("stream_lengths", format_args!("{name}/{n}"));
    Ok(())
}

fn cases(tier: Tier, seed: u64) -> Vec<Case> {
    refer::self_test();
    let mut r = Rng::new(seed ^ 0xc05);
    let mut v = vec![];
    for n in 1..=tier.q(4000, 12000) {
        for t in ["f64", "f32"] {
            v.push(Case::new().with("op", "win").with("n", n).with("t", t));
        }
    }
    for e in 10..=tier.q(19, 23) {
        for d in [-1i64, 0, 1] {
            v.push(Case::new().with("op", "win").with("n", (1i64 << e) + d).with("t", if r.chance(1, 2) { "f32" } else { "f64" }));
        }
    }
    for _ in 0..tier.q(1000, 5000) {
        v.push(Case::new().with("op", "win").with("n", r.logrange(1500, 100_000)).with("t", if r.chance(1, 2) { "f32" } else { "f64" }));
    }
    let mut ns: Vec<usize> = (1..=tier.q(700, 2000)).map(|x| 2 * x).collect();
    for _ in 0..tier.q(400, 2000) {
        ns.push(2 * r.logrange(300, tier.q(10_000, 60_000)));
    }
    for n in ns {
        for w in NAMES {
            let blocks = if n > 2000 { r.range(2, 6) } else { r.range(2, 24) };
            v.push(Case::new().with("op", "stream").with("n", n).with("w", w).with("blocks", blocks).with("t", if r.chance(1, 2) { "f32" } else { "f64" }).with("s", r.u64() >> 16));
        }
    }
    for w in NAMES {
        for _ in 0..tier.q(2, 12) {
            v.push(Case::new().with("op", "stream").with("n", 2 * r.logrange(10_000, tier.q(300_000, 1_500_000))).with("w", w).with("blocks", 3).with("t", if r.chance(1, 2) { "f32" } else { "f64" }).with("s", r.u64() >> 16));
        }
    }
    // long streams through one pair of instances
    for _ in 0..tier.q(60, 400) {
        v.push(Case::new().with("op", "stream").with("n", 2 * r.range(1, 600)).with("w", r.pick(&NAMES)).with("blocks", r.range(500, 2000)).with("t", if r.chance(1, 2) { "f32" } else { "f64" }).with("s", r.u64() >> 16));
    }
    r.shuffle(&mut v);
    v
}

fn main() {
    dctmon::runner::main(Prop {
        id: "C05",
        rule: "window cases: all six built-in windows at one length and type, every value against the published formula, symmetry and the Princen-Bradley sum; stream cases: (window, n, number of blocks, type, seed) forward MDCT of every block, overlap-added inverse (same or different instance/algorithm, any block order), every interior sample compared; non-trivial = at least one interior block",
        cases,
        exec,
        threads: 0,
        minima: &[("evaluations", 10000), ("windows", 8000), ("stream_lengths", 1500), ("interior_samples_checked", 1000000)],
    })
}
