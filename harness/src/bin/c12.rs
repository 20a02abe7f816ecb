//! C12: scratch-taking calls never touch the heap; allocating calls allocate the scratch once and free it.
use dctmon::algos::{self, Opts};
use dctmon::alloc::{self, heap};
use dctmon::any::*;
use dctmon::inputs;
use dctmon::kinds::*;
use dctmon::real::*;
use dctmon::rng::{hash_str, Rng};
use dctmon::runner::*;
use dctmon::{by_t, ensure};
use rustdct::DctNum;

#[global_allocator]
static A: dctmon::alloc::Counting = dctmon::alloc::Counting;


fn exec(c: &Case, obs: &mut Obs) -> Res {
    use dctmon::numtypes::*;
    match c.s("t") {
        "lanes17" => other::<Lanes17>(c, obs),
        "lanes2" => other::<Lanes2>(c, obs),
        "aligned64" => other::<Aligned64>(c, obs),
        "plain32" => other::<Plain32>(c, obs),
        "dual" => other::<Dual>(c, obs),
        "unit" => other::<Unit>(c, obs),
        t => by_t!(t, T => exec_t::<T>(c, obs)),
    }
}
const OTHERS: [&str; 6] = ["lanes17", "lanes2", "aligned64", "plain32", "dual", "unit"];

/// the same for number types of the user's own
fn other<T: DctNum>(c: &Case, obs: &mut Obs) -> Res {
    let n = c.u("n");
    let mut r = Rng::new(c.seed() ^ hash_str("heap2"));
    let a: Any<T> = make(c.s("fam"), n, c.s("alg"), &mut r, opts(n));
    let need = a.scratch_len();
    let what = format!("{} ({})", a.desc(), c.s("t"));
    for op in a.ops() {
        let x: Vec<T> = (0..a.in_len(op)).map(|_| T::from_f64(r.sym()).unwrap()).collect();
        let (o, so) = (r.below(4), r.below(4));
        let mut out = vec![T::zero(); a.out_len(op) + o];
        let mut scratch = vec![T::zero(); need + so];
        for rep in 0..c.u("reps") {
            let h0 = heap();
            a.call_into(op, &x, &mut out[o..], &mut scratch[so..]);
            let h1 = heap();
            let (na, nf, nr) = (h1.allocs - h0.allocs, h1.frees - h0.frees, h1.reallocs - h0.reallocs);
            ensure!(na + nf + nr == 0, "{what}: {op:?} with scratch made {na} allocations, {nf} deallocations, {nr} reallocations ({} bytes requested; call {rep})", h1.requested - h0.requested);
            if let (Any::D(i, _), Op::K(k)) = (&a, op) {
                out[o..].copy_from_slice(&x);
                let h0 = heap();
                i.run_alloc(k, &mut out[o..]);
                let h1 = heap();
                let (na, nb) = (h1.allocs - h0.allocs, h1.requested - h0.requested);
                let size = (need * std::mem::size_of::<T>()) as u64;
                ensure!(na <= 1 && h1.reallocs == h0.reallocs && (na == 0 || nb == size),
                    "{what}: allocating {op:?} made {na} allocations of {nb} bytes and {} reallocations; the advertised scratch is {size} bytes", h1.reallocs - h0.reallocs);
                ensure!(h1.live_bytes == h0.live_bytes && h1.live_blocks == h0.live_blocks, "{what}: allocating {op:?} kept {} bytes", h1.live_bytes - h0.live_bytes);
            }
            obs.eval(hash_str(&format!("o{what}{op:?}{rep}")), n >= 2);
            obs.count("calls_in_other_types", 1);
        }
    }
    Ok(())
}

/// compositions without the user-written parts (those allocate themselves)
fn opts(n: usize) -> Opts {
    Opts { naive_max: if n > 300 { 0 } else { 300 }, mock_max: 0, user: None }
}

fn exec_t<T: Real>(c: &Case, obs: &mut Obs) -> Res {
    let n = c.u("n");
    let reps = c.u("reps");
    let mut r = Rng::new(c.seed() ^ hash_str("heap"));
    let a: Any<T> = make(c.s("fam"), n, c.s("alg"), &mut r, opts(n));
    let need = a.scratch_len();
    let what = format!("{} ({})", a.desc(), T::NAME);
    let mut ops = a.ops();
    r.shuffle(&mut ops);
    for op in ops {
        // slices that start anywhere in their blocks
        let (oo, os) = (r.below(4), r.below(4));
        let mut out = vec![T::zero(); a.out_len(op) + oo];
        let out = &mut out[oo..];
        let mut scratch = vec![T::zero(); os + need + *r.pick(&[0usize, 0, 0, 1, 2, 7, 64, 1000, need])];
        let scratch = &mut scratch[os..];
        let alloc_first = r.chance(1, 2);
        for rep in 0..reps {
            let f = if rep == 0 { "white" } else { *r.pick(&inputs::FAMILIES) };
            let mut x: Vec<T> = inputs::gen(f, a.in_len(op), None, &mut r);
            if rep > 0 && r.chance(1, 4) {
                let k = r.below(x.len());
                x[k] = *r.pick(&[T::nan(), T::inf(), -T::inf(), T::zero(), T::of(T::MIN_POS / 4.0)]);
            }
            if rep > 0 && r.chance(1, 8) {
                // rejected calls do not change what later ones do
                let l = a.out_len(op) - 1;
                let _ = caught(|| match (&a, op) {
                    (Any::D(i, _), Op::K(k)) => i.run(k, &mut out[..l], scratch),
                    (Any::M(m, _), Op::Fwd) => m.process_mdct_with_scratch(&x[..n], &x[n..], &mut out[..l], scratch),
                    _ => {}
                });
                clear_last_panic();
                obs.count("calls_rejected_in_between", 1);
            }
            for turn in 0..2 {
                if (turn == 0) == alloc_first {
                    if let (Any::D(i, _), Op::K(k)) = (&a, op) {
                        out.copy_from_slice(&x);
                        alloc::reset_peak();
                        let h0 = heap();
                        i.run_alloc(k, out);
                        let h1 = heap();
                        let (na, nb) = (h1.allocs - h0.allocs, h1.requested - h0.requested);
                        ensure!(na <= 1 && h1.reallocs == h0.reallocs,
                            "{what}: allocating {op:?} made {na} allocations and {} reallocations (call {rep}, input {f})", h1.reallocs - h0.reallocs);
                        ensure!(na == 0 || nb == (need * std::mem::size_of::<T>()) as u64,
                            "{what}: allocating {op:?} allocated {nb} bytes, advertised scratch is {} bytes", need * std::mem::size_of::<T>());
                        ensure!(h1.frees - h0.frees == na && h1.live_bytes == h0.live_bytes && h1.live_blocks == h0.live_blocks,
                            "{what}: allocating {op:?} kept {} bytes in {} blocks", h1.live_bytes - h0.live_bytes, h1.live_blocks - h0.live_blocks);
                        if rep < 3000 {
                            obs.eval(hash_str(&format!("alloc{what}{op:?}{rep}{}", c.seed())), need > 0);
                        }
                        obs.count("allocating_calls", 1);
                        obs.count("allocations_seen_in_allocating_calls", na);
                    }
                } else {
                    let h0 = heap();
                    a.call_into(op, &x, out, scratch);
                    let h1 = heap();
                    let (na, nf, nr) = (h1.allocs - h0.allocs, h1.frees - h0.frees, h1.reallocs - h0.reallocs);
                    ensure!(na + nf + nr == 0, "{what}: {op:?} with scratch made {na} allocations, {nf} deallocations, {nr} reallocations ({} bytes requested; call {rep}, input {f})", h1.requested - h0.requested);
                    if rep < 3000 {
                        obs.eval(hash_str(&format!("scratch{what}{op:?}{rep}{}", c.seed())), n >= 2);
                    }
                    obs.count("scratch_calls", 1);
                }
            }
        }
        obs.set("op_algorithm_length", format_args!("{op:?}/{}/{n}", c.s("alg")));
    }
    Ok(())
}

fn cases(tier: Tier, seed: u64) -> Vec<Case> {
    alloc::self_test();
    let mut r = Rng::new(seed ^ 0xc12);
    let mut v = vec![];
    let mut push = |fam: &str, n: usize, alg: &str, t: &str, reps: usize, s: u64| {
        v.push(Case::new().with("fam", fam).with("n", n).with("alg", alg).with("t", t).with("reps", reps).with("s", s >> 16));
    };
    for fam in FAMS {
        for n in fam.min_len()..=tier.q(3000, 9000) {
            if !fam.fast() && n > tier.q(200, 700) {
                continue;
            }
            for t in ["f64", "f32"] {
                push(fam.name(), n, "plan", t, if n < 40 { 4 } else { 2 }, r.u64());
            }
            for top in algos::tops(fam, n) {
                if n <= tier.q(200, 600) {
                    for t in ["f64", "f32", "f64", "f32"] {
                        push(fam.name(), n, top, t, 2, r.u64());
                    }
                }
            }
        }
        if fam.fast() {
            for _ in 0..tier.q(300, 3000) {
                let n = r.logrange(1200, tier.q(60_000, 600_000));
                let n = if r.chance(1, 4) { n.next_power_of_two() } else { n };
                push(fam.name(), n, "plan", if r.chance(1, 2) { "f32" } else { "f64" }, 1, r.u64());
            }
            for e in 11..=tier.q(17, 21) {
                for t in ["f64", "f32"] {
                    push(fam.name(), 1 << e, "plan", t, 1, r.u64());
                }
            }
            for _ in 0..3 {
                let n = r.logrange(150_000, tier.q(1_400_000, 4_000_000));
                push(fam.name(), n, "plan", if r.chance(1, 2) { "f32" } else { "f64" }, 1, r.u64());
            }
            for &p in &[8191usize, 10007, 16411, 32771, 65537] {
                push(fam.name(), p, "plan", if r.chance(1, 2) { "f32" } else { "f64" }, 1, r.u64());
            }
        } else {
            for _ in 0..tier.q(8, 60) {
                push(fam.name(), r.logrange(200, tier.q(2500, 8000)), "plan", "f32", 1, r.u64());
            }
        }
        for n in fam.min_len()..=tier.q(260, 800) {
            if n <= 40 || n.is_power_of_two() || r.chance(1, 4) {
                for t in OTHERS {
                    push(fam.name(), n, "plan", t, 2, r.u64());
                    if n <= 66 {
                        for top in algos::tops(fam, n) {
                            push(fam.name(), n, top, t, 1, r.u64());
                        }
                    }
                }
            }
        }
        // many calls on one instance
        for _ in 0..tier.q(10, 100) {
            let n = r.logrange(2, 300);
            push(fam.name(), n, "plan", if r.chance(1, 2) { "f32" } else { "f64" }, tier.q(1500, 6000), r.u64());
        }
        // more calls than a 16-bit counter holds
        for _ in 0..tier.q(2, 10) {
            let n = r.logrange(2, 40);
            push(fam.name(), n, "plan", if r.chance(1, 2) { "f32" } else { "f64" }, tier.q(67_000, 140_000), r.u64());
        }
    }
    for n in (2..=tier.q(1500, 4000)).step_by(2) {
        for alg in ["plan", "dct4", "naive"] {
            if n <= 140 || alg == "plan" {
                for t in ["f64", "f32"] {
                    push("mdct", n, alg, t, 2, r.u64());
                }
            }
        }
    }
    for n in (2..=tier.q(260, 600)).step_by(2) {
        for t in OTHERS {
            if n <= 20 || n.is_power_of_two() || r.chance(1, 5) {
                push("mdct", n, *r.pick(&["plan", "dct4", "naive"]), t, 2, r.u64());
            }
        }
    }
    for reps in [1500, 1500, 67_000] {
        push("mdct", 2 * r.logrange(1, 40), "plan", if r.chance(1, 2) { "f32" } else { "f64" }, reps, r.u64());
    }
    for _ in 0..tier.q(60, 2000) {
        push("mdct", 2 * r.logrange(300, tier.q(15_000, 100_000)), "plan", if r.chance(1, 2) { "f32" } else { "f64" }, 1, r.u64());
    }
    r.shuffle(&mut v);
    v
}

fn main() {
    dctmon::runner::main(Prop {
        id: "C12",
        rule: "an instance (planned, or a random composition of library and rustfft parts) runs each operation with caller scratch and, for transforms, in the allocating form, from the very first call on and repeatedly with varied inputs (noise, constants, sparse, extreme magnitudes, NaN, infinities, subnormals), on slices that start anywhere in their blocks, in f32, f64 and six user-defined number types, with rejected calls in between; a counting global allocator reads the calling thread's heap events before and after each call. Non-trivial = n>=2, resp. non-empty advertised scratch",
        cases,
        exec,
        threads: 0,
        minima: &[("evaluations", 50000), ("scratch_calls", 40000), ("allocating_calls", 20000), ("allocations_seen_in_allocating_calls", 5000), ("op_algorithm_length", 6000), ("calls_in_other_types", 20000), ("calls_rejected_in_between", 10000)],
    })
}
