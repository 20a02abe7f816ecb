//! C07: results do not depend on what the scratch held or how long it is; any sequence may share one scratch.
use dctmon::algos;
use dctmon::any::*;
use dctmon::inputs;
use dctmon::kinds::*;
use dctmon::real::*;
use dctmon::rng::{hash_str, Rng};
use dctmon::runner::*;
use dctmon::{by_t, ensure};

#[global_allocator]
static A: dctmon::alloc::Counting = dctmon::alloc::Counting;

/// equal as numbers (a sign of zero is not a difference), NaN equals NaN
fn same<T: Real>(a: &[T], b: &[T]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.f() == y.f() || (x.f().is_nan() && y.f().is_nan()))
}

const FILLS: [&str; 8] = ["nan", "inf", "max", "rand", "one", "sub", "mixbad", "firstnan"];
fn fill<T: Real>(kind: &str, s: &mut [T], r: &mut Rng) {
    for (i, x) in s.iter_mut().enumerate() {
        *x = match kind {
            "nan" => T::nan(),
            "inf" => if r.chance(1, 2) { T::inf() } else { -T::inf() },
            "max" => T::of(T::MAX * r.sym()),
            "rand" => T::of(r.sym()),
            "one" => T::of(1.0),
            "sub" => T::of(T::MIN_POS * r.sym()),
            "firstnan" => if i == 0 { T::nan() } else { T::zero() },
            _ => match r.below(4) {
                0 => T::nan(),
                1 => T::inf(),
                2 => T::zero(),
                _ => T::of(r.sym() * 1e10),
            },
        }
    }
}

fn exec(c: &Case, obs: &mut Obs) -> Res {
    match c.s("op") {
        "one" => by_t!(c.s("t"), T => one::<T>(c, obs)),
        _ => by_t!(c.s("t"), T => chain::<T>(c, obs)),
    }
}

fn one<T: Real>(c: &Case, obs: &mut Obs) -> Res {
    let n = c.u("n");
    let mut r = Rng::new(c.seed() ^ hash_str("scr"));
    let a: Any<T> = make(c.s("fam"), n, c.s("alg"), &mut r, opts_for(n));
    let need = a.scratch_len();
    let what = format!("{} ({})", a.desc(), T::NAME);
    for op in a.ops() {
        let f = *r.pick(&["white", "pos", "imp", "ends", "quant", "zeros"]);
        let x: Vec<T> = inputs::gen(f, a.in_len(op), None, &mut r);
        let base = a.call(op, &x, &mut vec![T::zero(); need]);
        if let (Any::D(i, _), Op::K(k)) = (&a, op) {
            let mut b = x.clone();
            i.run_alloc(k, &mut b);
            ensure!(same(&b, &base), "{what} {op:?}: allocating call differs from scratch call: {}", first_diff(&b, &base));
            obs.count("allocating_vs_scratch", 1);
        }
        for fk in FILLS {
            let extra = *r.pick(&[0usize, 0, 0, 1, 2, 3, 7, need, need + 1, 1000]);
            let off = r.below(4);
            let mut mem = vec![T::zero(); need + extra + off];
            fill(fk, &mut mem, &mut r);
            let out = a.call(op, &x, &mut mem[off..]);
            ensure!(same(&out, &base), "{what} {op:?} input={f}: result depends on the scratch ({fk}, {extra} longer than the advertised {need}): {}", first_diff(&out, &base));
            ensure!(a.scratch_len() == need, "{what}: advertised scratch length changed from {need} to {}", a.scratch_len());
            // again, with whatever this call left behind
            if fk == "nan" || r.chance(1, 3) {
                let out = a.call(op, &x, &mut mem[off..]);
                ensure!(same(&out, &base), "{what} {op:?} input={f}: result depends on the scratch left by its own previous call: {}", first_diff(&out, &base));
                obs.count("leftover_scratch_calls", 1);
            }
            // again, with parts of what this call left behind overwritten
            if need > 0 && r.chance(1, 2) {
                let k = *r.pick(&["nan", "rand", "max", "one"]);
                match r.below(3) {
                    0 => {
                        let i = off + r.below(need);
                        fill(k, &mut mem[i..i + 1], &mut r);
                    }
                    1 => {
                        let (i, j) = (r.below(need), r.below(need));
                        fill(k, &mut mem[off + i.min(j)..=off + i.max(j)], &mut r);
                    }
                    _ => {
                        for _ in 0..r.range(1, 1 + need / 2) {
                            let i = off + r.below(need);
                            fill(k, &mut mem[i..i + 1], &mut r);
                        }
                    }
                }
                let out = a.call(op, &x, &mut mem[off..]);
                ensure!(same(&out, &base), "{what} {op:?} input={f}: result depends on scratch left by its own previous call and partly overwritten ({k}): {}", first_diff(&out, &base));
                obs.count("patched_leftover_calls", 1);
            }
            obs.eval(hash_str(&format!("{what}{op:?}{fk}{}", c.seed())), need > 0);
            obs.count(&format!("fill.{fk}"), 1);
            if extra > 0 {
                obs.count("longer_scratch_calls", 1);
            }
        }
        obs.set("op_length", format_args!("{op:?}/{}/{n}", c.s("alg")));
    }
    Ok(())
}

/// one scratch buffer through a random sequence of calls on a pool of instances
fn chain<T: Real>(c: &Case, obs: &mut Obs) -> Res {
    let mut r = Rng::new(c.seed() ^ hash_str("chain"));
    let mut pool: Vec<Any<T>> = vec![];
    for _ in 0..r.range(2, 9) {
        let (fam, n, alg) = random_request(&mut r, 2, c.u("hi"));
        pool.push(make(fam, n, alg, &mut r, opts_for(n)));
    }
    let mut scratch = vec![T::zero(); pool.iter().map(|a| a.scratch_len()).max().unwrap() + r.below(5)];
    let lens: Vec<usize> = pool.iter().map(|a| a.scratch_len()).collect();
    let mut trail = vec![];
    for step in 0..c.u("steps") {
        let i = r.below(pool.len());
        let a = &pool[i];
        let op = *r.pick(&a.ops());
        let f = *r.pick(&["white", "white", "imp", "const", "mixed", "huge"]);
        let mut x: Vec<T> = inputs::gen(f, a.in_len(op), None, &mut r);
        if r.chance(1, 10) {
            // poison: the scratch will be full of NaN afterwards
            let k = r.below(x.len());
            x[k] = T::nan();
        }
        let base = a.call(op, &x, &mut vec![T::zero(); lens[i]]);
        let out = a.call(op, &x, &mut scratch);
        trail.push(format!("{}:{op:?}", a.desc()));
        ensure!(same(&out, &base), "step {step}: {} ({}) {op:?} differs from a call with fresh scratch: {}; previous calls on this scratch: {}",
            a.desc(), T::NAME, first_diff(&out, &base), trail.iter().rev().skip(1).take(4).cloned().collect::<Vec<_>>().join(" <- "));
        ensure!(a.scratch_len() == lens[i], "{}: advertised scratch length changed", a.desc());
        obs.eval(hash_str(&format!("{c}{step}")), lens[i] > 0 && step > 0);
        obs.count("chain_calls", 1);
    }
    obs.count("chains", 1);
    Ok(())
}

fn cases(tier: Tier, seed: u64) -> Vec<Case> {
    let mut r = Rng::new(seed ^ 0xc07);
    let mut v = vec![];
    let mut push = |fam: &str, n: usize, alg: &str, t: &str, s: u64| {
        v.push(Case::new().with("op", "one").with("fam", fam).with("n", n).with("alg", alg).with("t", t).with("s", s >> 16));
    };
    for fam in FAMS {
        for n in fam.min_len()..=tier.q(1200, 3000) {
            if !fam.fast() && n > 100 {
                continue;
            }
            for t in ["f64", "f32"] {
                push(fam.name(), n, "plan", t, r.u64());
            }
            for top in algos::tops(fam, n) {
                if n <= tier.q(140, 250) || (top == "sr" && n <= 4096) {
                    for _ in 0..if top == "sr" { 12 } else { 4 } {
                        push(fam.name(), n, top, if r.chance(1, 2) { "f32" } else { "f64" }, r.u64());
                    }
                }
            }
        }
        for _ in 0..tier.q(20, 200) {
            let n = if fam.fast() { r.logrange(10_000, tier.q(150_000, 1_200_000)) } else { r.logrange(100, tier.q(1100, 4000)) };
            push(fam.name(), n, "plan", if r.chance(1, 2) { "f32" } else { "f64" }, r.u64());
        }
        if fam.fast() {
            for _ in 0..tier.q(60, 2000) {
                let n = r.logrange(600, tier.q(10_000, 60_000));
                let n = if r.chance(1, 4) { n.next_power_of_two() } else { n };
                push(fam.name(), n, "plan", if r.chance(1, 2) { "f32" } else { "f64" }, r.u64());
            }
        }
    }
    for n in (2..=tier.q(300, 1500)).step_by(2) {
        for alg in ["plan", "dct4", "naive"] {
            if n <= 100 || alg == "plan" {
                push("mdct", n, alg, if r.chance(1, 2) { "f32" } else { "f64" }, r.u64());
            }
        }
    }
    for _ in 0..tier.q(80, 1000) {
        push("mdct", 2 * r.logrange(150, tier.q(40_000, 300_000)), "plan", if r.chance(1, 2) { "f32" } else { "f64" }, r.u64());
    }
    for _ in 0..tier.q(2000, 20_000) {
        v.push(Case::new().with("op", "chain").with("hi", if r.chance(1, 12) { 2500 } else { 150 }).with("steps", r.range(20, 120)).with("t", if r.chance(1, 2) { "f32" } else { "f64" }).with("s", r.u64() >> 16));
    }
    r.shuffle(&mut v);
    v
}

fn main() {
    dctmon::runner::main(Prop {
        id: "C07",
        rule: "one: an instance (planned or a random composition) at one length and type; each of its operations runs with scratch holding NaN, infinities, overflow-size values, noise, subnormals, mixtures and its own leftovers, at lengths advertised+{0,1,2,3,7,need,need+1,1000} and slice offsets 0..3; every output must equal the zero-scratch result and the allocating call. chain: 2-9 instances share one scratch buffer through a random call sequence (some calls poisoned with NaN). Non-trivial = the instance advertises a non-empty scratch",
        cases,
        exec,
        threads: 0,
        minima: &[("evaluations", 40000), ("op_length", 3000), ("chain_calls", 10000), ("leftover_scratch_calls", 5000), ("patched_leftover_calls", 10000), ("longer_scratch_calls", 10000)],
    })
}
