//! C06: transform followed by its inverse type is the identity at the documented scale.
use dctmon::inputs;
use dctmon::kinds::*;
use dctmon::real::*;
use dctmon::refer;
use dctmon::rng::{hash_str, Rng};
use dctmon::runner::*;
use dctmon::{by_t, ensure};
use rustdct::DctPlanner;

#[global_allocator]
static A: dctmon::alloc::Counting = dctmon::alloc::Counting;

fn exec(c: &Case, obs: &mut Obs) -> Res {
    by_t!(c.s("t"), T => exec_t::<T>(c, obs))
}

fn exec_t<T: Real>(c: &Case, obs: &mut Obs) -> Res {
    let n = c.u("n");
    let mut r = Rng::new(c.seed() ^ hash_str("inv"));
    let kinds: Vec<Kind> = match c.opt("kind") {
        Some(k) => vec![Kind::parse(k)],
        None => Fam::parse(c.s("fam")).kinds().to_vec(),
    };
    let mut planner = DctPlanner::<T>::new();
    for kind in kinds {
        let a = plan_kind(&mut planner, kind, n);
        let b = if n < 100_000 && r.chance(1, 2) {
            plan_kind(&mut DctPlanner::new(), kind.inverse(), n)
        } else {
            plan_kind(&mut planner, kind.inverse(), n)
        };
        ensure!(a.len() == n && b.len() == n, "{} n={n}: planned lengths {} and {}", kind.name(), a.len(), b.len());
        let fs: &[&str] = if n > 20000 { &["white"] } else { &["white", "mixed", "step", "cos", "quant", "huge"] };
        let f = if r.chance(1, 2) { "white" } else { *r.pick(fs) };
        let x: Vec<T> = inputs::gen(f, n, None, &mut r);
        let mut y = x.clone();
        let mut s = vec![T::zero(); a.scratch_len().max(b.scratch_len())];
        a.run(kind, &mut y, &mut s);
        if f == "huge" {
            // keep the second pass in range
            for v in y.iter_mut() {
                *v = *v * T::of(1.0 / (n as f64 * 64.0))
            }
        }
        b.run(kind.inverse(), &mut y, &mut s);
        let sc = 2.0 / kind.inverse_l(n) * if f == "huge" { n as f64 * 64.0 } else { 1.0 };
        let xf = to_f64(&x);
        let back: Vec<f64> = y.iter().map(|v| v.f() * sc).collect();
        let (l2, mx, at) = refer::errs(&back, &xf);
        let (nf, x2) = (n as f64, refer::norm2(&xf));
        let lg = 1.0 + nf.log2();
        let naive = !kind.family().fast() || n <= 64;
        let unit = if naive { T::EPS * (nf + 8.0).sqrt() } else { T::EPS * lg };
        // structured data through direct summation: worst case instead of random-walk error
        let c2 = if f == "white" { if naive { 8.0 } else { 3.0 } } else if naive { 4.0 * (nf + 8.0).sqrt() } else { 60.0 };
        let label = format!("{} then {} n={n} {} input={f}", kind.name(), kind.inverse().name(), T::NAME);
        obs.max(&format!("roundtrip_ratio.{}.{}.{}", if naive { "naive" } else { "fast" }, T::NAME, if f == "white" { "white" } else { "other" }), l2 / (unit * x2), || label.clone());
        ensure!(l2 <= c2 * unit * x2, "{label}: reconstruction error {l2:.3e} of norm {x2:.3e} (bound {:.3e}); worst sample {at}: {:e} instead of {:e}", c2 * unit * x2, back[at], xf[at]);
        if f == "white" && !naive {
            let b = 40.0 * unit * x2 / nf.sqrt();
            ensure!(mx <= b, "{label}: sample {at} is {:e} instead of {:e} (bound {b:.3e})", back[at], xf[at]);
        }
        obs.eval(hash_str(&format!("{label}{}", c.seed())), n >= 2);
        obs.count(&format!("kind.{}", kind.name()), 1);
        obs.set("kind_type_length", format_args!("{}/{}/{n}", kind.name(), T::NAME));
        if n > 1_000_000 {
            obs.count("roundtrips_beyond_a_million", 1);
            obs.set("huge_lengths", n);
        }
    }
    Ok(())
}

fn cases(tier: Tier, seed: u64) -> Vec<Case> {
    refer::self_test();
    let mut r = Rng::new(seed ^ 0xc06);
    let mut v = vec![];
    for fam in FAMS {
        let top = if fam.fast() { tier.q(5000, 14000) } else { tier.q(700, 2000) };
        for n in fam.min_len()..=top {
            for t in ["f64", "f32"] {
                v.push(Case::new().with("fam", fam.name()).with("n", n).with("t", t).with("s", r.u64() >> 16));
            }
        }
        for _ in 0..tier.q(150, 3000) {
            let n = r.logrange(top, if fam.fast() { 200_000 } else { tier.q(2500, 8000) });
            v.push(Case::new().with("fam", fam.name()).with("n", n).with("t", if r.chance(1, 2) { "f32" } else { "f64" }).with("s", r.u64() >> 16));
        }
    }
    // beyond a million, one kind per case: powers of two, primes, odd composites
    let huge = [1usize << 20, 1_000_003, 1_048_577, (1 << 21) - 1, 1_440_000, 1 << 21, 1_000_001, 1_200_007, 1_999_993, 1 << 22, 3_000_017, 1 << 23];
    let kinds = [Kind::Dct1, Kind::Dst1, Kind::Dct2, Kind::Dct3, Kind::Dst2, Kind::Dst3, Kind::Dct4, Kind::Dst4, Kind::Dst6, Kind::Dst7];
    for (i, k) in kinds.iter().enumerate() {
        for j in 0..tier.q(5, 12) {
            let n = huge[if tier == Tier::Quick { (i * 3 + j * 5 + seed as usize) % 9 } else { j }];
            v.push(Case::new().with("kind", k.name()).with("n", n).with("t", if (i + j + seed as usize) % 2 == 0 { "f64" } else { "f32" }).with("s", r.u64() >> 16));
        }
    }
    v.sort_by_key(|c| std::cmp::Reverse(c.u("n")));
    v
}

fn main() {
    dctmon::runner::main(Prop {
        id: "C06",
        rule: "case = (family or kind, n, type, seed): plan the kind and its inverse type (same or separate planner), transform seeded data forth and back, multiply by 2/L, compare every sample; lengths exhaustive up to a few thousand, random to 2*10^5, and chosen ones beyond 10^6 (powers of two, primes, odd); non-trivial = n>=2",
        cases,
        exec,
        threads: 0,
        minima: &[("evaluations", 20000), ("kind_type_length", 15000), ("roundtrips_beyond_a_million", 20)],
    })
}
