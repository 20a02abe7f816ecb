//! C14: linear at every magnitude; bad samples are never hidden.
use dctmon::algos;
use dctmon::any::*;
use dctmon::inputs;
use dctmon::kinds::*;
use dctmon::real::*;
use dctmon::refer::norm2;
use dctmon::rng::{hash_str, Rng};
use dctmon::runner::*;
use dctmon::{by_t, ensure};
use rustdct::DctPlanner;

#[global_allocator]
static A: dctmon::alloc::Counting = dctmon::alloc::Counting;

/// |T(u) - expected|_2 <= K eps (1+log2 n) sqrt(n) |inputs|_2 + floor; direct summation gets sqrt(n) more room
const K_FAST: f64 = 5.0;
const K_SMALL: f64 = 8.0;

fn exec(c: &Case, obs: &mut Obs) -> Res {
    by_t!(c.s("t"), T => exec_t::<T>(c, obs))
}

fn build<T: Real>(c: &Case, n: usize, r: &mut Rng) -> Any<T> {
    let (fam, alg) = (c.s("fam"), c.s("alg"));
    if fam == "mdct" {
        // windows of ordinary size, sometimes with exact zeros in them
        let mut w: Vec<T> = inputs::gen("white", 2 * n, None, r);
        if r.chance(1, 3) {
            for _ in 0..r.range(1, n) {
                let k = r.below(2 * n);
                w[k] = T::zero();
            }
        } else if r.chance(1, 2) {
            w = rustdct::mdct::window_fn::mp3(2 * n);
        }
        let f = move |l: usize| {
            assert!(l == w.len(), "window length");
            w
        };
        if alg == "plan" {
            return Any::M(DctPlanner::new().plan_mdct(n, f), format!("planned mdct {n}"));
        }
        let b = algos::mdct(n, alg, r, opts_for(n), f);
        return Any::M(b.inst, b.desc);
    }
    make(fam, n, alg, r, opts_for(n))
}

/// outputs start at zero (IMDCT adds to them)
fn go<T: Real>(a: &Any<T>, op: Op, x: &[T]) -> Vec<f64> {
    let mut out = vec![T::zero(); a.out_len(op)];
    a.call_into(op, x, &mut out, &mut vec![T::zero(); a.scratch_len()]);
    to_f64(&out)
}

struct Ctx<'a> {
    what: String,
    eps: f64,
    quantum: f64,
    n: usize,
    slow: bool,
    c: &'a Case,
}
impl Ctx<'_> {
    fn cmp(&self, obs: &mut Obs, name: &str, got: &[f64], want: &[f64], size: f64) -> Res {
        let nf = self.n.max(2) as f64;
        let lg = 1.0 + nf.log2();
        let unit = self.eps * lg * nf.sqrt() * size * if self.slow { nf.sqrt() / lg } else { 1.0 };
        let floor = 32.0 * self.quantum * nf.powf(1.5) * lg;
        let e = norm2(&got.iter().zip(want).map(|(a, b)| a - b).collect::<Vec<_>>());
        let k = if self.slow { K_SMALL } else { K_FAST };
        if unit > floor {
            obs.max(&format!("ratio.{}.{}", if self.slow { "direct" } else { "fast" }, if self.eps > 1e-10 { "f32" } else { "f64" }), e / unit, || format!("{name} {} {}", self.what, self.c));
        } else {
            obs.max("underflow_floor_fraction", e / floor, || format!("{name} {} {}", self.what, self.c));
        }
        ensure!(e <= k * unit + floor, "{}: {name}: deviation {e:.3e} exceeds {:.3e} (input size {size:.3e})", self.what, k * unit + floor);
        Ok(())
    }
}

fn exec_t<T: Real>(c: &Case, obs: &mut Obs) -> Res {
    let n = c.u("n");
    let mut r = Rng::new(c.seed() ^ hash_str("lin"));
    let a: Any<T> = build(c, n, &mut r);
    let quantum = T::MIN_POS * T::EPS;
    for op in a.ops() {
        let m = a.in_len(op);
        let slow = n <= 64 || c.s("alg") == "naive" || a.desc().contains("naive") || a.desc().contains("user") || a.desc().contains("dft")
            || matches!(c.s("fam"), "d5" | "s5" | "d67" | "d8" | "s8");
        let ctx = Ctx { what: format!("{} {op:?} ({})", a.desc(), T::NAME), eps: T::EPS, quantum, n, slow, c };
        // zero in, zero out
        let z: Vec<T> = (0..m).map(|_| if r.chance(1, 2) { T::zero() } else { -T::zero() }).collect();
        let out = go(&a, op, &z);
        if let Some(k) = out.iter().position(|v| *v != 0.0) {
            return Err(format!("{}: zero input gives {:e} at output {k}", ctx.what, out[k]));
        }
        obs.count("zero_inputs", 1);
        // one base signal of ordinary size, then the same signal at other magnitudes
        let fam = *r.pick(&["white", "white", "pos", "const", "quant", "imp", "alt", "ends", "step", "negpow"]);
        let x: Vec<T> = inputs::gen(fam, m, None, &mut r);
        let xf = to_f64(&x);
        let base = go(&a, op, &x);
        let x2 = norm2(&xf);
        let (bmin, bmax) = (quantum.log2() as i32, T::MAX.log2() as i32);
        let head = (64.0 * (m as f64 + 2.0).powf(1.5) * 8.0).log2().ceil() as i32;
        let mut exps = vec![bmax - head, bmin + 23, bmin + 30, bmin + 45, 1 - (1.0 / T::EPS).log2() as i32, -30, -20, -10, 10, 20, 40, bmax / 2, bmin / 2, -1];
        for _ in 0..4 {
            exps.push(r.range(0, (bmax - head - bmin) as usize) as i32 + bmin);
        }
        for e in exps {
            let s = 2f64.powi(e);
            let sgn = if r.chance(1, 2) { 1.0 } else { -1.0 };
            let y: Vec<T> = xf.iter().map(|v| T::of(v * s * sgn)).collect();
            if y.iter().any(|v| !v.f().is_finite()) {
                continue;
            }
            let got = go(&a, op, &y);
            let want: Vec<f64> = base.iter().map(|v| v * s * sgn).collect();
            // rounding of subnormal inputs is part of the input
            ctx.cmp(obs, &format!("input {fam} scaled by {sgn}*2^{e}"), &got, &want, x2 * s)?;
            obs.eval(hash_str(&format!("{c}{op:?}{e}")), x2 > 0.0);
            obs.count("scaled_inputs", 1);
            obs.set("magnitudes", format_args!("{}{e}", T::NAME));
        }
        // superposition of signals of unlike size and shape
        for _ in 0..3 {
            let (f1, f2) = (*r.pick(&inputs::FAMILIES), *r.pick(&inputs::FAMILIES));
            if f1 == "huge" || f2 == "huge" {
                continue;
            }
            let u: Vec<T> = inputs::gen(f1, m, None, &mut r);
            let v: Vec<T> = inputs::gen(f2, m, None, &mut r);
            let k = 2f64.powi(r.range(0, 40) as i32 - 20) * (1.0 + r.unit());
            let k = T::of(k).f();
            let w: Vec<T> = u.iter().zip(&v).map(|(p, q)| T::of(p.f() + q.f() * k)).collect();
            let (tu, tv, tw) = (go(&a, op, &u), go(&a, op, &v), go(&a, op, &w));
            let want: Vec<f64> = tu.iter().zip(&tv).map(|(p, q)| p + q * k).collect();
            let size = norm2(&to_f64(&u)) + k.abs() * norm2(&to_f64(&v));
            ctx.cmp(obs, &format!("superposition of {f1} and {k:.2e} x {f2}"), &tw, &want, size.max(T::MIN_POS))?;
            obs.eval(hash_str(&format!("{c}{op:?}{f1}{f2}{k}")), size > 0.0);
            obs.count("superpositions", 1);
        }
        // bad samples
        let every = m <= 40 || (m <= 420 && r.chance(1, 3));
        let mut pos: Vec<usize> = if every { (0..m).collect() } else { vec![0, 1, m / 2, m / 2 - 1, m - 1, m - 2] };
        while !every && pos.len() < c.u("bad") {
            pos.push(r.below(m));
        }
        for k in pos {
            for bad in [T::nan(), T::inf(), -T::inf()] {
                if m > 40 && r.chance(1, 2) {
                    continue;
                }
                let mut y: Vec<T> = match r.below(3) {
                    0 => vec![T::zero(); m],
                    1 => x.clone(),
                    _ => inputs::gen("mixed", m, None, &mut r),
                };
                y[k] = bad;
                if r.chance(1, 6) {
                    let j = r.below(m);
                    y[j] = *r.pick(&[T::nan(), T::inf(), -T::inf()]);
                }
                let out = go(&a, op, &y);
                ensure!(out.iter().any(|v| !v.is_finite()), "{}: input with {:e} at {k} gives only finite outputs", ctx.what, bad.f());
                obs.eval(hash_str(&format!("{c}{op:?}{k}{}", bad.f())), true);
                obs.count("bad_samples", 1);
            }
        }
        obs.set("op_algorithm_length", format_args!("{op:?}/{}/{n}", c.s("alg")));
    }
    Ok(())
}

fn cases(tier: Tier, seed: u64) -> Vec<Case> {
    let mut r = Rng::new(seed ^ 0xc14);
    let mut v = vec![];
    let mut push = |fam: &str, n: usize, alg: &str, t: &str, bad: usize, s: u64| {
        v.push(Case::new().with("fam", fam).with("n", n).with("alg", alg).with("t", t).with("bad", bad).with("s", s >> 16));
    };
    for fam in FAMS {
        for n in fam.min_len()..=tier.q(700, 2500) {
            if !fam.fast() && n > tier.q(120, 300) {
                continue;
            }
            for t in ["f64", "f32"] {
                push(fam.name(), n, "plan", t, 16, r.u64());
            }
            for top in algos::tops(fam, n) {
                if n <= tier.q(140, 200) {
                    for t in ["f64", "f32"] {
                        push(fam.name(), n, top, t, 16, r.u64());
                    }
                }
            }
        }
        for _ in 0..tier.q(6, 60) {
            let n = if fam.fast() { r.logrange(20_000, tier.q(400_000, 2_000_000)) } else { r.logrange(120, tier.q(1200, 4000)) };
            push(fam.name(), n, "plan", if r.chance(1, 2) { "f32" } else { "f64" }, 6, r.u64());
        }
        if fam.fast() {
            for _ in 0..tier.q(60, 1500) {
                let n = r.logrange(400, tier.q(10_000, 80_000));
                let n = if r.chance(1, 4) { n.next_power_of_two() } else { n };
                push(fam.name(), n, "plan", if r.chance(1, 2) { "f32" } else { "f64" }, 12, r.u64());
            }
        }
    }
    for n in (2..=tier.q(400, 1000)).step_by(2) {
        for alg in ["plan", "dct4", "naive"] {
            if n <= 100 || alg != "naive" {
                for t in ["f64", "f32"] {
                    push("mdct", n, alg, t, 16, r.u64());
                }
            }
        }
    }
    for _ in 0..tier.q(40, 800) {
        push("mdct", 2 * r.logrange(100, tier.q(3000, 30_000)), "plan", if r.chance(1, 2) { "f32" } else { "f64" }, 12, r.u64());
    }
    for _ in 0..tier.q(6, 60) {
        push("mdct", 2 * r.logrange(10_000, tier.q(150_000, 800_000)), "plan", if r.chance(1, 2) { "f32" } else { "f64" }, 6, r.u64());
    }
    v.sort_by_key(|c| std::cmp::Reverse(c.u("n")));
    v
}

fn main() {
    dctmon::runner::main(Prop {
        id: "C14",
        rule: "an instance (planned or a random composition) and operation: all-zero input (mixed signs of zero) must give exactly zero; one signal is repeated at 18 magnitudes from the smallest subnormals to just below overflow, negated at random, and must give the scaled output; sums of signals of unlike size and shape must give the sum; NaN, +inf and -inf at every position (n<=40, a third of the lengths to 420) or 12-16 positions, over zero, ordinary and mixed backgrounds, must give at least one non-finite output. Non-trivial = nonzero input",
        cases,
        exec,
        threads: 0,
        minima: &[("evaluations", 200000), ("zero_inputs", 5000), ("scaled_inputs", 80000), ("superpositions", 15000), ("bad_samples", 100000), ("magnitudes", 500), ("op_algorithm_length", 3000)],
    })
}
