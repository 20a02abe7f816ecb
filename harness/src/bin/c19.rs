//! C19: planning and calls need little stack, whatever the length.
use dctmon::algos;
use dctmon::any::*;
use dctmon::inputs;
use dctmon::kinds::*;
use dctmon::real::*;
use dctmon::rng::{hash_str, Rng};
use dctmon::runner::*;
use dctmon::stack::{self, stack_used};
use dctmon::{by_t, ensure};
use rustdct::mdct::window_fn;
use rustdct::DctPlanner;

#[global_allocator]
static A: dctmon::alloc::Counting = dctmon::alloc::Counting;

/// bytes of stack a call may reach (clean tree: 3 KiB), and a plan, a construction, a refusal or a drop (27 KiB, all of it
/// rustfft's planner and the unwinder)
fn limit(group: &str) -> usize {
    if group == "call" { 32 << 10 } else { 64 << 10 }
}

/// measure f; panics are part of it
fn small<R>(what: impl FnOnce() -> String, group: &str, key: u64, obs: &mut Obs, f: impl FnOnce() -> R) -> Result<Result<R, String>, String> {
    // the first measurement in a thread may include lazy set-up
    let (res, used) = stack_used(|| caught(f));
    let what = what();
    obs.max(&format!("stack_bytes.{group}"), used as f64, || what.clone());
    ensure!(used <= limit(group), "{what} reached {used}{} bytes of stack, {} are enough for every length", if used >= stack::SPAN { " or more" } else { "" }, limit(group));
    obs.eval(key ^ hash_str(&what), true);
    obs.count(&format!("measured.{group}"), 1);
    Ok(res)
}

fn use_it<T: Real>(a: &Any<T>, key: u64, r: &mut Rng, obs: &mut Obs) -> Res {
    for op in a.ops() {
        let f = *r.pick(&inputs::FAMILIES);
        let x: Vec<T> = inputs::gen(f, a.in_len(op), None, r);
        let mut out = vec![T::of(0.5); a.out_len(op)];
        let mut scratch = vec![T::of(0.25); a.scratch_len()];
        let what = || format!("{} {op:?} ({})", a.desc(), T::NAME);
        small(what, "call", key, obs, || a.call_into(op, &x, &mut out, &mut scratch))?.map_err(|m| format!("{}: panicked: {m}", what()))?;
        if let (Any::D(i, _), Op::K(k), true) = (a, op, r.chance(1, 4)) {
            small(|| format!("{} allocating", what()), "call", key, obs, || i.run_alloc(k, &mut out))?.map_err(|m| format!("{}: panicked: {m}", what()))?;
        }
        if r.chance(1, 8) {
            let mut wrong = vec![T::of(0.5); a.out_len(op) + 1];
            let n = a.len();
            let res = small(|| format!("{} refused", what()), "refusal", key, obs, || match (a, op) {
                (Any::D(i, _), Op::K(k)) => i.run(k, &mut wrong, &mut scratch),
                (Any::M(m, _), Op::Fwd) => m.process_mdct_with_scratch(&x[..n], &x[n..], &mut wrong, &mut scratch),
                (Any::M(m, _), _) => {
                    let (p, q) = wrong.split_at_mut(n);
                    m.process_imdct_with_scratch(&x, p, q, &mut scratch)
                }
                _ => panic!("HARNESS: op"),
            })?;
            ensure!(res.is_err(), "{}: a buffer one too long was accepted", what());
        }
    }
    obs.max("length", a.len() as f64, || a.desc().to_string());
    Ok(())
}

fn exec(c: &Case, obs: &mut Obs) -> Res {
    by_t!(c.s("t"), T => exec_t::<T>(c, obs))
}
fn exec_t<T: Real>(c: &Case, obs: &mut Obs) -> Res {
    let (fam, n) = (c.s("fam"), c.u("n"));
    let key = c.hash();
    let mut r = Rng::new(c.seed());
    let mut p = DctPlanner::<T>::new();
    let a: Any<T> = match c.s("alg") {
        "plan" if fam == "mdct" => {
            let w = r.below(6);
            let what = format!("planning mdct {n} with window {w} ({})", T::NAME);
            let m = small(|| what.clone(), "plan", key, obs, || match w {
                0 => p.plan_mdct(n, window_fn::one),
                1 => p.plan_mdct(n, window_fn::mp3),
                2 => p.plan_mdct(n, window_fn::mp3_invertible),
                3 => p.plan_mdct(n, window_fn::vorbis),
                4 => p.plan_mdct(n, window_fn::vorbis_invertible),
                _ => p.plan_mdct(n, window_fn::invertible),
            })?.map_err(|m| format!("{what}: panicked: {m}"))?;
            Any::M(m, format!("planned mdct {n}"))
        }
        "plan" => {
            let k = *r.pick(Fam::parse(fam).kinds());
            let what = format!("planning {} {n} ({})", k.name(), T::NAME);
            let i = small(|| what.clone(), "plan", key, obs, || plan_kind(&mut p, k, n))?.map_err(|m| format!("{what}: panicked: {m}"))?;
            Any::D(i, format!("planned {} {n}", k.name()))
        }
        alg => {
            let what = format!("building {fam} {alg} {n} ({})", T::NAME);
            small(|| what.clone(), "build", key, obs, || make::<T>(fam, n, alg, &mut r, opts_for(n)))?.map_err(|m| format!("{what}: panicked: {m}"))?
        }
    };
    use_it(&a, key, &mut r, obs)?;
    if c.s("alg") == "plan" {
        // asking again, another family at the same length, and a refusal
        let k = *r.pick(&ALL);
        if n <= 300 || k.family().fast() {
            small(|| format!("planning {} {n} next ({})", k.name(), T::NAME), "plan", key, obs, || plan_kind(&mut p, k, n.max(k.min_len())))?.map_err(|m| format!("panicked: {m}"))?;
        }
        let res = small(|| format!("plan_mdct({}) refused", n | 1), "refusal", key, obs, || p.plan_mdct(n | 1, window_fn::one))?;
        ensure!(res.is_err(), "plan_mdct({}) was accepted", n | 1);
    }
    let what = format!("dropping {} and its planner", a.desc());
    small(|| what, "drop", key, obs, move || {
        drop(p);
        drop(a)
    })?.ok();
    Ok(())
}

fn cases(tier: Tier, seed: u64) -> Vec<Case> {
    stack::self_test();
    let mut r = Rng::new(seed ^ 0xc19);
    let mut v = vec![];
    let mut push = |fam: &str, n: usize, alg: &str, r: &mut Rng| {
        let n = if fam == "mdct" { (n + 1) / 2 * 2 } else { n.max(Fam::parse(fam).min_len()) };
        v.push(Case::new().with("fam", fam).with("n", n).with("alg", alg).with("t", if r.chance(1, 2) { "f32" } else { "f64" }).with("s", r.u64() >> 16));
    };
    for fam in ["d1", "s1", "t23", "t4", "s67", "d5", "s5", "d67", "d8", "s8", "mdct"] {
        let fast = fam == "mdct" || Fam::parse(fam).fast();
        for n in 1..=tier.q(if fast { 1100 } else { 220 }, if fast { 5000 } else { 800 }) {
            push(fam, n.max(2), "plan", &mut r);
        }
        if fast {
            for e in 11..=tier.q(20, 22) {
                push(fam, 1 << e, "plan", &mut r);
                for _ in 0..tier.q(3, 12) {
                    push(fam, (1 << e) + r.below(1 << e), "plan", &mut r);
                }
            }
        } else {
            for n in [500, 1024, 2049, 4100, 9000] {
                push(fam, n, "plan", &mut r);
            }
        }
    }
    for _ in 0..tier.q(6000, 60_000) {
        let (fam, n, alg) = random_request(&mut r, 2, 300);
        let n = if fam == "mdct" { n } else { n.max(Fam::parse(fam).min_len()) };
        if alg == "plan" || fam == "mdct" || algos::tops(Fam::parse(fam), n).contains(&alg) {
            push(fam, n, alg, &mut r);
        }
    }
    v.sort_by_key(|c| std::cmp::Reverse(c.u("n")));
    v
}

fn main() {
    dctmon::runner::main(Prop {
        id: "C19",
        rule: "the megabyte of stack below each planner request, construction, process call (accepted and refused) and drop is painted before it and inspected after it; the deepest byte reached must lie within 32 KiB for process calls and 64 KiB for the rest, at every length up to 2^20 and beyond and for random compositions. Non-trivial = every measured call",
        cases,
        exec,
        threads: 0,
        minima: &[("evaluations", 30000), ("measured.call", 25000), ("measured.plan", 6000), ("measured.refusal", 3000), ("measured.build", 2000), ("measured.drop", 8000)],
    })
}
