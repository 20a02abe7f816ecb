//! C13: O(n log n) work per call and for planning, O(n) memory, one constant for all lengths.
use dctmon::alloc::{self, heap};
use dctmon::any::*;
use dctmon::inputs;
use dctmon::kinds::*;
use dctmon::numtypes::{ops, set_fuel, Counted, FUEL_TIMES};
use dctmon::rng::{hash_str, Rng};
use dctmon::runner::*;
use dctmon::{by_t, ensure};
use rustdct::mdct::window_fn;
use rustdct::{DctNum, DctPlanner};

#[global_allocator]
static A: dctmon::alloc::Counting = dctmon::alloc::Counting;


/// numeric operations of one call <= OPS * n (1 + log2 n) + 400; about 2.5 times the worst length of the clean tree
/// (types 1 and DST6/7 run FFTs of twice the length)
fn ops_limit(op: Op) -> f64 {
    match op {
        Op::K(Kind::Dct1 | Kind::Dst1) => 145.0,
        Op::K(Kind::Dst6 | Kind::Dst7) => 160.0,
        _ => 72.0,
    }
}
/// arithmetic operations and constants made while planning <= PLAN * n (1 + log2 n) + 2000
const PLAN: f64 = 90.0;
/// heap bytes of planner and instance, at most (live / peak / in total requested), <= MEM * (n + 64) * size + 16 KiB
const MEM: f64 = 128.0;
/// advertised scratch <= SCRATCH * (n + 8)
const SCRATCH: f64 = 64.0;

/// what the calls are given: an input family must not have a slow path
const DATA: [&str; 18] = ["white", "zero", "nan", "inf", "onenan", "oneinf", "sub", "huge", "const", "alt", "imp", "palin", "antipalin", "periodic", "ints", "runs", "fronthalf", "evens"];

fn nlogn(n: usize) -> f64 {
    let n = n as f64;
    n * (1.0 + n.log2())
}
fn plan<T: DctNum>(p: &mut DctPlanner<T>, what: &str, n: usize) -> Any<T> {
    if what == "mdct" {
        Any::M(p.plan_mdct(n, window_fn::mp3), String::new())
    } else {
        Any::D(plan_kind(p, Kind::parse(what), n), String::new())
    }
}

fn exec(c: &Case, obs: &mut Obs) -> Res {
    match c.s("t") {
        "counted" => counted(c, obs),
        t => by_t!(t, T => memory::<T>(c, obs)),
    }
}

/// run with an operation limit far beyond the bound
fn limited<R>(bound: f64, what: impl FnOnce() -> String, f: impl FnOnce() -> R) -> Result<R, String> {
    set_fuel(Some(FUEL_TIMES * bound as u64));
    let res = caught(f);
    set_fuel(None);
    res.map_err(|m| format!("{}: {m} ({bound:.0})", what()))
}

fn counted(c: &Case, obs: &mut Obs) -> Res {
    let (what, n) = (c.s("what"), c.u("n"));
    let mut r = Rng::new(c.seed() ^ hash_str("ops"));
    let mut p = DctPlanner::<Counted>::new();
    let bound = PLAN * nlogn(n) + 2000.0;
    let o0 = ops();
    let a = limited(bound, || format!("planning {what} of length {n}"), || plan(&mut p, what, n))?;
    let o1 = ops();
    let work = (o1.since(&o0).total() + o1.since(&o0).konst) as f64;
    if n > 100 {
        obs.max("planning.work_per_nlogn", work / nlogn(n), || c.to_string());
    }
    ensure!(work <= bound, "planning {what} of length {n} took {work} numeric operations, the O(n log n) bound is {bound:.0}");
    obs.eval(hash_str(&format!("p{c}")), n > 64);
    // asking again
    let o1 = ops();
    limited(bound, || format!("planning {what} of length {n} again"), || drop(plan(&mut p, what, n)))?;
    let o2 = ops().since(&o1);
    let again = (o2.total() + o2.konst) as f64;
    ensure!(again <= bound, "planning {what} of length {n} again took {again} numeric operations, the O(n log n) bound is {bound:.0}");
    for op in a.ops() {
        let bound = ops_limit(op) * nlogn(n) + 400.0;
        let mut out = vec![Counted(0.0); a.out_len(op)];
        let mut scratch = vec![Counted(0.0); a.scratch_len()];
        for f in DATA {
            if n > 600 && f != "white" && !r.chance(1, 10) || n <= 600 && f != "white" && r.chance(1, 2) {
                continue;
            }
            let x: Vec<Counted> = match f {
                "zero" => vec![Counted(0.0); a.in_len(op)],
                "nan" => vec![Counted(f64::NAN); a.in_len(op)],
                "inf" => vec![Counted(f64::INFINITY); a.in_len(op)],
                "sub" => vec![Counted(1e-310); a.in_len(op)],
                "onenan" | "oneinf" | "huge" => {
                    let mut x: Vec<Counted> = inputs::gen::<f64>("white", a.in_len(op), None, &mut r).into_iter().map(Counted).collect();
                    let i = r.below(x.len());
                    x[i] = Counted(match f { "onenan" => f64::NAN, "oneinf" => f64::NEG_INFINITY, _ => 1e307 });
                    x
                }
                f => inputs::gen::<f64>(f, a.in_len(op), None, &mut r).into_iter().map(Counted).collect(),
            };
            let o0 = ops();
            limited(bound, || format!("{op:?} planned (as {what}) at length {n}, input {f}"), || a.call_into(op, &x, &mut out, &mut scratch))?;
            let d = ops().since(&o0);
            let work = (d.total() + d.konst) as f64;
            if n > 100 {
                obs.max(&format!("call.{}.work_per_nlogn", if let Op::K(k) = op { k.name() } else if op == Op::Fwd { "mdct" } else { "imdct" }), work / nlogn(n), || c.to_string());
            }
            ensure!(work <= bound, "{op:?} planned (as {what}) at length {n}, input {f}: one call took {work} numeric operations ({} additions, {} multiplications), the O(n log n) bound is {bound:.0}", d.add, d.mul);
            ensure!(work >= n as f64 * 0.2 || n < 4, "HARNESS: {op:?} at {n} did only {work} operations; the number type is not being used");
            obs.eval(hash_str(&format!("{c}{op:?}{f}")), n > 64);
            obs.set("data", f);
            obs.count("measured_calls", 1);
            obs.count("numeric_operations", d.total());
        }
        if let (Any::D(i, _), Op::K(k), true) = (&a, op, r.chance(1, 8)) {
            let o0 = ops();
            limited(bound, || format!("{op:?} planned (as {what}) at length {n}, allocating call"), || i.run_alloc(k, &mut out))?;
            let d = ops().since(&o0);
            let work = (d.total() + d.konst) as f64;
            ensure!(work <= bound + a.scratch_len() as f64, "{op:?} planned (as {what}) at length {n}, allocating call: {work} numeric operations, the O(n log n) bound is {bound:.0}");
            obs.eval(hash_str(&format!("a{c}{op:?}")), n > 64);
        }
        obs.set("op_length", format_args!("{op:?}/{n}"));
    }
    Ok(())
}

fn memory<T: DctNum>(c: &Case, obs: &mut Obs) -> Res {
    let (what, n) = (c.s("what"), c.u("n"));
    let size = std::mem::size_of::<T>() as f64;
    let bound = MEM * (n as f64 + 64.0) * size + 16384.0;
    alloc::reset_peak();
    let h0 = heap();
    let mut p = DctPlanner::<T>::new();
    let a = plan(&mut p, what, n);
    let h1 = heap();
    let live = (h1.live_bytes - h0.live_bytes) as f64;
    let peak = (h1.peak_bytes - h0.live_bytes) as f64;
    let total = (h1.requested - h0.requested) as f64;
    if n > 400 {
        for (k, v) in [("live", live), ("peak", peak), ("requested", total)] {
            obs.max(&format!("memory.{k}.{}_per_element", c.s("t")), v / size / n as f64, || c.to_string());
        }
        obs.max("memory.scratch_per_length", a.scratch_len() as f64 / n as f64, || c.to_string());
    }
    for (k, v) in [("holds", live), ("needed at the peak of planning", peak), ("requested in all", total)] {
        ensure!(v <= bound, "{what} of length {n}: planner and instance {k} {v} heap bytes, the O(n) bound is {bound:.0}");
    }
    let s = a.scratch_len() as f64;
    ensure!(s <= SCRATCH * (n as f64 + 8.0), "{what} of length {n} advertises {s} scratch values, the O(n) bound is {:.0}", SCRATCH * (n as f64 + 8.0));
    obs.eval(hash_str(&format!("m{c}")), n > 64);
    obs.count("memory_measurements", 1);
    Ok(())
}

const WHAT: [&str; 11] = ["dct1", "dct2", "dct3", "dct4", "dst1", "dst2", "dst3", "dst4", "dst6", "dst7", "mdct"];

pub fn is_prime(n: usize) -> bool {
    n >= 2 && (2..).take_while(|d| d * d <= n).all(|d| n % d != 0)
}
fn prime_from(mut n: usize) -> usize {
    while !is_prime(n) {
        n += 1
    }
    n
}

fn cases(tier: Tier, seed: u64) -> Vec<Case> {
    alloc::self_test();
    let mut r = Rng::new(seed ^ 0xc13);
    let mut v = vec![];
    let mut push = |what: &str, n: usize, t: &str, s: u64| {
        let n = if what == "mdct" { (n + 1) / 2 * 2 } else { n.max(2) };
        v.push(Case::new().with("what", what).with("n", n).with("t", t).with("s", s >> 16));
    };
    for what in WHAT {
        // one method per family is enough for the dense sweep: the others share the instance
        let dense = matches!(what, "dct1" | "dct2" | "dct4" | "dst1" | "dst6" | "mdct");
        for n in 2..=tier.q(if dense { 2600 } else { 300 }, if dense { 9000 } else { 2000 }) {
            if what == "mdct" && n % 2 == 1 {
                continue;
            }
            push(what, n, "counted", r.u64());
            if n <= 600 || r.chance(1, 4) {
                push(what, n, *r.pick(&["f32", "f64"]), r.u64());
            }
        }
        for i in 0..tier.q(40, 400) {
            let n = r.logrange(2600, tier.q(40_000, 300_000));
            // lengths n, and lengths whose inner FFT is of a special form
            let n = match i % 10 {
                0 => prime_from(n),
                1 => 2 * prime_from(n / 2),
                2 => prime_from(2 * n).saturating_sub(1) / 2,
                3 => prime_from(n) - 1,
                4 => prime_from(n) + 1,
                5 => n.next_power_of_two() + r.below(3) - 1,
                6 => { let p = prime_from((n as f64).sqrt() as usize); p * p }
                7 => 3usize.pow((n as f64).log(3.0) as u32) * r.range(1, 2),
                8 => 4 * prime_from(n / 4),
                _ => n,
            };
            push(what, n, "counted", r.u64());
            for t in ["f32", "f64"] {
                push(what, n, t, r.u64());
            }
        }
        for e in 12..=tier.q(16, 20) {
            push(what, 1 << e, "counted", r.u64());
            push(what, 1 << e, "f64", r.u64());
        }
        for n in tier.q(1, 2) as u32..=tier.q(1, 2) as u32 {
            push(what, prime_from(250_000 * n as usize), "counted", r.u64());
            push(what, prime_from(250_000 * n as usize), "f32", r.u64());
        }
    }
    v.sort_by_key(|c| std::cmp::Reverse(c.u("n")));
    v
}

fn main() {
    dctmon::runner::main(Prop {
        id: "C13",
        rule: "instances planned over a number type that counts every addition, multiplication, division, negation and constant: planning (first and repeated) and each call (noise, zeros, NaN, infinities, one bad sample, subnormals, huge, constant, impulses, symmetric, periodic, sparse, ...) stay below fixed multiples of n(1+log2 n), the same for every length (dense sweep, primes, 2p, p^2, p-1, p+1, (p-1)/2, 3^k, powers of two and neighbours); heap bytes of planning and the advertised scratch stay below fixed multiples of n for f32 and f64. Non-trivial = n>64",
        cases,
        exec,
        threads: 0,
        minima: &[("evaluations", 60000), ("measured_calls", 40000), ("op_length", 15000), ("memory_measurements", 8000)],
    })
}
