//! C15: user-defined number types get the same transforms, computed entirely in the type.
use dctmon::algos;
use dctmon::any::*;
use dctmon::inputs;
use dctmon::kinds::*;
use dctmon::numtypes::*;
use dctmon::refer;
use dctmon::rng::{hash_str, Rng};
use dctmon::runner::*;
use dctmon::ensure;
use rustdct::mdct::window_fn;
use rustdct::{DctNum, DctPlanner};

#[global_allocator]
static A: dctmon::alloc::Counting = dctmon::alloc::Counting;

/// |err|_2 <= K eps (1+log2 n) sqrt(n) |x|_2; direct summation: K eps n |x|_2
const K: f64 = 8.0;

const TYPES: [&str; 10] = ["Aligned32", "Aligned64", "Scrambled32", "Scrambled64", "Lanes17", "Lanes2", "Pair64", "Dual", "DualV", "DD"];

fn exec(c: &Case, obs: &mut Obs) -> Res {
    match c.s("t") {
        "Aligned32" => multi::<Aligned32>(c, obs),
        "Aligned64" => multi::<Aligned64>(c, obs),
        "Scrambled32" => multi::<Scrambled32>(c, obs),
        "Scrambled64" => multi::<Scrambled64>(c, obs),
        "Lanes2" => multi::<Lanes2>(c, obs),
        "Pair64" => multi::<Pair64>(c, obs),
        "DualV" => multi::<DualV>(c, obs),
        "Lanes17" => multi::<Lanes17>(c, obs),
        "Dual" => multi::<Dual>(c, obs),
        "DD" => dd(c, obs),
        "Form" => form(c, obs),
        t => panic!("HARNESS: type {t}"),
    }
}

fn build<T: DctNum>(c: &Case, r: &mut Rng) -> (Any<T>, Vec<f64>) {
    let (fam, n, alg) = (c.s("fam"), c.u("n"), c.s("alg"));
    if fam == "mdct" {
        let vorbis = r.chance(1, 2);
        let w: Vec<f64> = if vorbis { window_fn::vorbis(2 * n) } else { window_fn::mp3(2 * n) };
        let f = move |l: usize| -> Vec<T> { if vorbis { window_fn::vorbis(l) } else { window_fn::mp3(l) } };
        let a = if alg == "plan" {
            Any::M(DctPlanner::new().plan_mdct(n, f), format!("planned mdct {n}"))
        } else {
            let b = algos::mdct(n, alg, r, opts_for(n), f);
            Any::M(b.inst, b.desc)
        };
        return (a, w);
    }
    (make(fam, n, alg, r, opts_for(n)), vec![])
}
fn want(op: Op, x: &[f64], w: &[f64], n: usize) -> Vec<f64> {
    match op {
        Op::K(k) => refer::reference(k, x),
        Op::Fwd => refer::mdct(w, x, n),
        Op::Inv => refer::imdct(w, x, n),
    }
}
fn run<T: DctNum>(a: &Any<T>, op: Op, x: &[T], r: &mut Rng) -> Vec<T> {
    if let (Any::D(i, _), Op::K(k), true) = (a, op, r.chance(1, 2)) {
        let mut b = x.to_vec();
        i.run_alloc(k, &mut b);
        return b;
    }
    let mut out = vec![T::zero(); a.out_len(op)];
    a.call_into(op, x, &mut out, &mut vec![T::zero(); a.scratch_len()]);
    out
}
fn slow<T: DctNum>(c: &Case, a: &Any<T>, n: usize) -> bool {
    n <= 64 || c.s("alg") == "naive" || ["naive", "user", "dft"].iter().any(|s| a.desc().contains(s)) || matches!(c.s("fam"), "d5" | "s5" | "d67" | "d8" | "s8")
}
fn unit(eps: f64, n: usize, slow: bool, size: f64) -> f64 {
    let nf = n.max(2) as f64;
    eps * size * if slow { nf.max(4.0) } else { nf.sqrt() * (1.0 + nf.log2()) }
}

fn multi<T: Multi>(c: &Case, obs: &mut Obs) -> Res {
    let n = c.u("n");
    let mut r = Rng::new(c.seed() ^ hash_str("num"));
    let (a, w) = build::<T>(c, &mut r);
    ensure!(a.len() == n, "{} ({}) has length {}", a.desc(), T::NAME, a.len());
    let slow = slow(c, &a, n);
    for op in a.ops() {
        let m = a.in_len(op);
        // independent signals, of very unlike size
        let comps: Vec<Vec<f64>> = (0..T::L)
            .map(|_| {
                let f = *r.pick(&["white", "white", "pos", "imp", "ends", "zeros", "quant", "decay"]);
                let s = if T::L > 1 { 2f64.powi(r.below(41) as i32 - 20) } else { 1.0 };
                inputs::gen::<f32>(f, m, None, &mut r).iter().map(|v| *v as f64 * s).collect()
            })
            .collect();
        let x: Vec<T> = (0..m).map(|i| T::put(&comps.iter().map(|c| c[i]).collect::<Vec<_>>())).collect();
        let out = run(&a, op, &x, &mut r);
        for (l, xl) in comps.iter().enumerate() {
            let got: Vec<f64> = out.iter().map(|v| v.comp(l)).collect();
            let exp = want(op, xl, &w, n);
            let (e, _, at) = refer::errs(&got, &exp);
            let size = refer::norm2(xl);
            let u = unit(T::EPS, m, slow, size);
            let label = format!("{} {op:?} in {} component {l}", a.desc(), T::NAME);
            if size > 0.0 {
                obs.max(&format!("ratio.{}.{}", T::NAME, if slow { "direct" } else { "fast" }), e / u, || format!("{label} {c}"));
            }
            ensure!(e <= K * u + 1e-300, "{label}: L2 error {e:.3e} exceeds {:.3e}; output {at} is {:e}, definition {:e}", K * u, got[at], exp[at]);
            obs.eval(hash_str(&format!("{c}{op:?}{l}")), size > 0.0 && n >= 2);
        }
        obs.count(&format!("type.{}", T::NAME), 1);
        obs.set("op_algorithm_length", format_args!("{op:?}/{}/{n}", c.s("alg")));
    }
    Ok(())
}

/// double-double: a perturbation far below f64 resolution must come through exactly linearly
fn dd(c: &Case, obs: &mut Obs) -> Res {
    let n = c.u("n");
    let mut r = Rng::new(c.seed() ^ hash_str("dd"));
    let (a, w) = build::<DD>(c, &mut r);
    let slow = slow(c, &a, n);
    for op in a.ops() {
        let m = a.in_len(op);
        let x: Vec<f64> = inputs::gen::<f64>("white", m, None, &mut r);
        let s = 1e-20;
        let d: Vec<f64> = inputs::gen::<f64>(if r.chance(1, 2) { "white" } else { "imp" }, m, None, &mut r).iter().map(|v| v * s).collect();
        let x0: Vec<DD> = x.iter().map(|v| DD { hi: *v, lo: 0.0 }).collect();
        let x1: Vec<DD> = x0.iter().zip(&d).map(|(p, q)| *p + DD { hi: *q, lo: 0.0 }).collect();
        let (o0, o1) = (run(&a, op, &x0, &mut r), run(&a, op, &x1, &mut r));
        let label = format!("{} {op:?} in double-double", a.desc());
        let (sx, sd) = (refer::norm2(&x), refer::norm2(&d));
        let hi: Vec<f64> = o0.iter().map(|v| v.hi).collect();
        let exp = want(op, &x, &w, n);
        let (e, _, at) = refer::errs(&hi, &exp);
        let u = unit(f64::EPSILON, m, slow, sx);
        obs.max("ratio.DD", e / u, || format!("{label} {c}"));
        ensure!(e <= K * u, "{label}: L2 error {e:.3e} exceeds {:.3e}; output {at} is {:e}, definition {:e}", K * u, hi[at], exp[at]);
        let diff: Vec<f64> = o0.iter().zip(&o1).map(|(p, q)| (*q - *p).hi).collect();
        let expd = want(op, &d, &w, n);
        let (e, _, at) = refer::errs(&diff, &expd);
        let u = unit(f64::EPSILON, m, slow, sd) + unit(1e-31, m, slow, sx) * 4.0;
        obs.max("ratio.DD.perturbation", e / u, || format!("{label} {c}"));
        ensure!(e <= K * u, "{label}: a perturbation of relative size 1e-20 comes out wrong, L2 error {e:.3e} exceeds {:.3e}; output {at} moved by {:e}, should move by {:e}", K * u, diff[at], expd[at]);
        obs.eval(hash_str(&format!("{c}{op:?}")), n >= 2);
        obs.count("type.DD", 1);
        obs.set("op_algorithm_length", format_args!("{op:?}/{}/{n}", c.s("alg")));
    }
    Ok(())
}

/// linear forms: one run yields the matrix; multiplying data by data or data-dependent constants shows
fn form(c: &Case, obs: &mut Obs) -> Res {
    let n = c.u("n");
    let mut r = Rng::new(c.seed() ^ hash_str("form"));
    Form::reset();
    let (a, w) = build::<Form>(c, &mut r);
    for op in a.ops() {
        let m = a.in_len(op);
        let x: Vec<Form> = (0..m).map(Form::input).collect();
        let out: Vec<FormData> = run(&a, op, &x, &mut r).into_iter().map(|f| f.get()).collect();
        for i in 0..m {
            let mut e = vec![0.0; m];
            e[i] = 1.0;
            let exp = want(op, &e, &w, n);
            for (k, o) in out.iter().enumerate() {
                let b = 64.0 * (m as f64 + 4.0) * f64::EPSILON;
                ensure!((o.v[i] - exp[k]).abs() <= b, "{} {op:?}: coefficient of input {i} in output {k} is {:e}, definition {:e}", a.desc(), o.v[i], exp[k]);
                obs.max("coefficient_error", (o.v[i] - exp[k]).abs(), || c.to_string());
            }
            obs.eval(hash_str(&format!("{c}{op:?}{i}")), true);
        }
        for (k, o) in out.iter().enumerate() {
            ensure!(o.c == 0.0, "{} {op:?}: output {k} contains the constant {:e}", a.desc(), o.c);
        }
        obs.count("matrices", 1);
        obs.set("op_algorithm_length", format_args!("{op:?}/{}/{n}", c.s("alg")));
    }
    Ok(())
}

fn cases(tier: Tier, seed: u64) -> Vec<Case> {
    refer::self_test();
    let mut r = Rng::new(seed ^ 0xc15);
    let mut v = vec![];
    let mut push = |fam: &str, n: usize, alg: &str, t: &str, s: u64| {
        v.push(Case::new().with("fam", fam).with("n", n).with("alg", alg).with("t", t).with("s", s >> 16));
    };
    for fam in FAMS {
        for n in fam.min_len()..=tier.q(260, 700) {
            if !fam.fast() && n > tier.q(60, 150) {
                continue;
            }
            for t in TYPES {
                if n <= 70 || r.chance(1, 2) {
                    push(fam.name(), n, "plan", t, r.u64());
                }
            }
            for top in algos::tops(fam, n) {
                if n <= tier.q(64, 140) {
                    for _ in 0..tier.q(10, 24) {
                        push(fam.name(), n, top, *r.pick(&TYPES), r.u64());
                    }
                }
            }
            if n <= FORM {
                for alg in algos::tops(fam, n).into_iter().chain(["plan", "plan"]) {
                    for _ in 0..tier.q(6, 24) {
                        push(fam.name(), n, alg, "Form", r.u64());
                    }
                }
            }
        }
        if fam.fast() {
            for _ in 0..tier.q(4, 40) {
                let n = r.logrange(3000, tier.q(150_000, 1_100_000));
                push(fam.name(), n, "plan", *r.pick(&["Scrambled32", "Scrambled64", "Pair64", "Dual"]), r.u64());
            }
            for _ in 0..tier.q(250, 2000) {
                let n = r.logrange(130, tier.q(3000, 20_000));
                let n = if r.chance(1, 4) { n.next_power_of_two() } else { n };
                push(fam.name(), n, "plan", *r.pick(&TYPES), r.u64());
            }
        }
    }
    for n in (2..=tier.q(200, 400)).step_by(2) {
        for alg in ["plan", "dct4", "naive"] {
            for t in TYPES {
                if n <= 30 || (r.chance(1, 4) && (alg != "naive" || n <= 100)) {
                    push("mdct", n, alg, t, r.u64());
                }
            }
            if 2 * n <= FORM {
                for _ in 0..4 {
                    push("mdct", n, alg, "Form", r.u64());
                }
            }
        }
    }
    v.sort_by_key(|c| std::cmp::Reverse(c.u("n")));
    v
}

fn main() {
    dctmon::runner::main(Prop {
        id: "C15",
        rule: "case = (family, length, algorithm or random composition, number type): over-aligned f32 (32 bytes) and f64 (64), numbers of 4 and 8 bytes in a scrambled representation, 17 and 2 f32 lanes, 2 f64 lanes, dual numbers comparing in full or by value only: each component carries its own signal (sizes 2^-20..2^20 apart) and must come out as the definition of that component alone; double-double: also a 1e-20 relative perturbation must come through; linear forms (n<=24; handles into an arena): one run gives the whole matrix, multiplying two data values panics. Non-trivial = n>=2 and nonzero component",
        cases,
        exec,
        threads: 0,
        minima: &[("evaluations", 20000), ("matrices", 1000), ("type.DD", 900), ("type.Dual", 900), ("type.Aligned32", 900), ("type.Aligned64", 900), ("type.Lanes17", 900), ("type.Lanes2", 900), ("type.Pair64", 900), ("type.DualV", 900), ("type.Scrambled32", 900), ("type.Scrambled64", 900), ("op_algorithm_length", 1500)],
    })
}
