//! C01 and C02: every planned transform equals its definition.
use dctmon::inputs;
use dctmon::kinds::*;
use dctmon::real::*;
use dctmon::refer;
use dctmon::rng::{hash_str, Rng};
use dctmon::runner::*;
use dctmon::tol::{self, Class};
use dctmon::{by_t, ensure};
use rustdct::DctPlanner;

pub fn fam_class(f: Fam, n: usize) -> Class {
    // small sizes of the fast families may be computed by direct summation
    if f.fast() && n > 64 { Class::Fast } else { Class::Naive }
}

/// lengths that select different algorithms or stress index arithmetic
pub fn special_lengths(max: usize) -> Vec<usize> {
    let mut v = vec![];
    let mut p = 1usize;
    while p <= max {
        for d in [-2i64, -1, 0, 1, 2] {
            let n = p as i64 + d;
            if n >= 1 && n as usize <= max {
                v.push(n as usize)
            }
        }
        for m in [3usize, 5, 7, 9, 11, 15, 25, 127] {
            if p * m <= max {
                v.push(p * m)
            }
        }
        p *= 2;
    }
    for x in [
        2187usize, 2310, 3125, 4999, 5003, 6561, 7919, 9973, 10007, 10080, 16381, 16411, 19683, 21845, 32749, 32771, 44100,
        48000, 65521, 65537, 99991, 100003, 104729, 131071, 131101, 196613, 262139, 524287, 524309, 1000003, 1048573,
    ] {
        if x <= max {
            v.push(x)
        }
    }
    v.sort();
    v.dedup();
    v
}

pub fn exec(c: &Case, obs: &mut Obs) -> Res {
    if c.s("t") == "vast" {
        return heavy(c.u("n") as f64 * 180e-9, || vast(c, obs));
    }
    by_t!(c.s("t"), T => if c.u("n") > 500_000 { heavy(c.u("n") as f64 * 520e-9, || exec_t::<T>(c, obs)) } else { exec_t::<T>(c, obs) })
}

/// lengths beyond 2^24, where an f32 no longer counts: one instance, each of its kinds, a few bins straight from the
/// definition
fn vast(c: &Case, obs: &mut Obs) -> Res {
    let fam = Fam::parse(c.s("fam"));
    let n = c.u("n");
    let mut r = Rng::new(c.seed() ^ hash_str("vast"));
    let inst = plan_kind(&mut DctPlanner::<f32>::new(), fam.kinds()[0], n);
    ensure!(inst.len() == n, "{} planned for n={n} reports length {}", fam.name(), inst.len());
    let x: Vec<f32> = inputs::gen("white", n, None, &mut r);
    let xf = to_f64(&x);
    let x2 = refer::norm2(&xf);
    let bound = tol::c_fast_bin::<f32>() * f32::EPS * (1.0 + (n as f64).log2()) * x2;
    let mut scratch = vec![0.0f32; inst.scratch_len()];
    let mut buf = x.clone();
    for &kind in fam.kinds() {
        buf.copy_from_slice(&x);
        inst.run(kind, &mut buf, &mut scratch);
        let (out2, want2) = (buf.iter().map(|v| (*v as f64).powi(2)).sum::<f64>().sqrt(), x2 * (n as f64 / 2.0).sqrt());
        ensure!((out2 / want2 - 1.0).abs() < 0.01, "{} n={n} f32: |output|_2 is {out2:e}, by Parseval it must be near {want2:e}", kind.name());
        for k in [0, n - 1, n - 1 - r.below(3000), n / 2 + r.below(n / 2), r.below(n), r.below(1000)] {
            let w = refer::spot_bin(kind, &xf, k);
            ensure!((buf[k] as f64 - w).abs() <= bound, "{} n={n} f32: bin {k} is {:e}, definition {w:e}", kind.name(), buf[k]);
            obs.eval(hash_str(&format!("{c}{k}")), true);
            obs.count("vast_bins", 1);
        }
    }
    obs.set("lengths", n);
    Ok(())
}
/// even, odd and power-of-two lengths beyond 2^24
fn vast_cases(fams: &[Fam], tier: Tier, seed: u64, v: &mut Vec<Case>) {
    let mut r = Rng::new(seed ^ 0x7a57);
    for i in 0..tier.q(1, 4) {
        for &fam in fams {
            let base = (1 << 24) + 4 + 2 * r.below(50_000);
            let mut lens = vec![base + (i + r.below(2)) % 2];
            match fam {
                Fam::T4 => lens = vec![base, base + 1],
                Fam::T23 if i == 0 => lens.push(1 << 25),
                _ => {}
            }
            for n in lens {
                v.insert(0, Case::new().with("fam", fam.name()).with("n", n).with("t", "vast").with("s", r.u64() >> 16));
            }
        }
    }
}

fn exec_t<T: Real>(c: &Case, obs: &mut Obs) -> Res {
    let fam = Fam::parse(c.s("fam"));
    let n = c.u("n");
    let mut r = Rng::new(c.seed() ^ hash_str("def"));
    let mut planner = DctPlanner::<T>::new();
    let kinds = fam.kinds();
    let mut order: Vec<Kind> = kinds.to_vec();
    r.shuffle(&mut order);
    for kind in order {
        if r.chance(1, 3) {
            planner = DctPlanner::new();
        }
        let inst = plan_kind(&mut planner, kind, n);
        ensure!(inst.len() == n, "{} planned for n={n} ({}) reports length {}", kind.name(), T::NAME, inst.len());
        let mut runs: Vec<(String, Vec<T>)> = vec![];
        let nin = if n <= 4096 { 3 } else if n <= 40000 || (n < 2_000_000 && fam.fast() && r.chance(1, 3)) { 1 } else { 0 };
        runs.push(("white".into(), inputs::gen("white", n, None, &mut r)));
        for _ in 0..nin {
            let f = *r.pick(&inputs::FAMILIES);
            runs.push((f.into(), inputs::gen(f, n, None, &mut r)));
        }
        if n <= 48 {
            for k in 0..n {
                runs.push((format!("imp{k}"), inputs::gen("imp", n, Some(k), &mut r)));
            }
        }
        let mut scratch: Vec<T> = vec![T::zero(); inst.scratch_len()];
        for (j, (fname, x)) in runs.iter().enumerate() {
            let xf = to_f64(x);
            let mut buf = x.clone();
            if (r.u64() ^ j as u64) & 1 == 0 {
                inst.run_alloc(kind, &mut buf);
                obs.count("calls.allocating", 1);
            } else {
                inst.run(kind, &mut buf, &mut scratch);
                obs.count("calls.with_scratch", 1);
            }
            let noise = matches!(fname.as_str(), "white" | "quant" | "huge" | "tiny");
            let want = refer::reference(kind, &xf);
            let label = format!("{} n={n} {} input={fname}", kind.name(), T::NAME);
            tol::check::<T>(obs, &label, fam_class(fam, n), &xf, &buf, &want, noise, 1.0)?;
            if n > refer::DIRECT_MAX && noise {
                // independent of any FFT: a few bins straight from the definition
                let x2 = refer::norm2(&xf);
                let bins = if n > 50000 { 1 } else { 2 };
                for b in 0..bins {
                    let k = if b == 0 && r.chance(1, 3) { n - 1 } else { r.below(n) };
                    let w = refer::spot_bin(kind, &xf, k);
                    let bound = tol::c_fast_bin::<T>() * T::EPS * (1.0 + (n as f64).log2()) * x2
                        * if fam.fast() { 1.0 } else { (n as f64).sqrt() };
                    ensure!((buf[k].f() - w).abs() <= bound, "{label}: bin {k} is {:e}, definition {w:e}", buf[k].f());
                    obs.count("spot_bins", 1);
                }
            }
            obs.eval(hash_str(&format!("{label} {}", c.seed())), n >= 2 && xf.iter().any(|v| *v != 0.0));
            obs.count(&format!("kind.{}", kind.name()), 1);
            obs.count(&format!("input.{}", if fname.starts_with("imp") { "imp" } else { fname }), 1);
            obs.count("output_values_checked", n as u64);
            obs.set("kind_type_length", format_args!("{}/{}/{n}", kind.name(), T::NAME));
            obs.set("lengths", n);
        }
    }
    Ok(())
}

fn build(fams: &[Fam], tier: Tier, seed: u64, exh: usize, special_max: usize, randoms: usize, rand_max: usize) -> Vec<Case> {
    let mut r = Rng::new(seed.wrapping_mul(0x1234567).wrapping_add(exh as u64));
    let mut v = vec![];
    let mut push = |fam: Fam, n: usize, t: &str, r: &mut Rng| {
        if n >= fam.min_len() {
            v.push(Case::new().with("fam", fam.name()).with("n", n).with("t", t).with("s", r.u64() >> 16));
        }
    };
    for &fam in fams {
        for n in 1..=exh {
            for t in ["f64", "f32"] {
                push(fam, n, t, &mut r);
            }
        }
        for n in special_lengths(special_max) {
            if n > exh {
                for t in ["f64", "f32"] {
                    push(fam, n, t, &mut r);
                }
            }
        }
        for _ in 0..randoms {
            let n = r.logrange(exh + 1, rand_max);
            let t = if r.chance(1, 2) { "f32" } else { "f64" };
            push(fam, n, t, &mut r);
        }
    }
    let _ = tier;
    // biggest first so that the tail of the run is short cases
    v.sort_by_key(|c| std::cmp::Reverse(c.u("n")));
    v
}

/// one case per (family, length) for lengths where 16-bit, 20-bit or cache-blocked index arithmetic would give way
fn giants(fams: &[Fam], lens: &[usize], seed: u64, v: &mut Vec<Case>) {
    let mut r = Rng::new(seed ^ 0x61a47);
    for &fam in fams {
        for &n in lens {
            let n = n + if n % 1000 == 999 { r.below(5000) } else { 0 };
            let t = if r.chance(1, 2) { "f32" } else { "f64" };
            v.push(Case::new().with("fam", fam.name()).with("n", n).with("t", t).with("s", r.u64() >> 16));
        }
    }
    v.sort_by_key(|c| std::cmp::Reverse(c.u("n")));
}

pub fn cases_c01(tier: Tier, seed: u64) -> Vec<Case> {
    refer::self_test();
    let fams = [Fam::D1, Fam::S1, Fam::T23, Fam::T4];
    let mut v = build(
        &fams,
        tier,
        seed,
        tier.q(2300, 9000),
        tier.q(1 << 18, 1 << 21),
        tier.q(120, 3000),
        tier.q(30_000, 400_000),
    );
    let quick = [300_999, 524_289, 1 << 19, 700_999, 1 << 20, 1_048_577, 1_100_999, 1_500_007, 1 << 21, 2_200_999];
    let more = [2_097_169, 3_000_017, 3_500_999, 1 << 22, 4_194_319, 5_000_999, 6_291_456, 8_388_593, 1 << 23];
    giants(&fams, &quick, seed, &mut v);
    if tier == Tier::Thorough {
        giants(&fams, &more, seed, &mut v);
    }
    vast_cases(&fams, tier, seed, &mut v);
    v
}
pub fn cases_c02(tier: Tier, seed: u64) -> Vec<Case> {
    refer::self_test();
    let mut v = build(&[Fam::S67], tier, seed, tier.q(1300, 7000), tier.q(1 << 16, 1 << 20), tier.q(100, 2000), tier.q(30_000, 300_000));
    v.extend(build(
        &[Fam::D5, Fam::S5, Fam::D67, Fam::D8, Fam::S8],
        tier,
        seed,
        tier.q(400, 1500),
        tier.q(1030, 4100),
        tier.q(20, 300),
        tier.q(1500, 6000),
    ));
    let quick = [66_999, 131_071, 131_099, 200_999, 300_007, 524_288, 700_999, 1_048_573, 1_100_999];
    let more = [1 << 20, 1_500_007, 2_200_999, 1 << 21, 4_194_301];
    giants(&[Fam::S67], &quick, seed, &mut v);
    // direct summation beyond 2^16 points: one call per kind
    let slow = [Fam::D5, Fam::S5, Fam::D67, Fam::D8, Fam::S8];
    giants(&slow, &[66_999], seed, &mut v);
    if tier == Tier::Thorough {
        giants(&[Fam::S67], &more, seed, &mut v);
        giants(&slow, &[33_999, 66_999, 80_999, 131_999], seed + 1, &mut v);
    }
    vast_cases(&[Fam::S67], tier, seed, &mut v);
    v
}

pub fn main_c01() {
    main(Prop {
        id: "C01",
        rule: "case = (planner family, length n, element type, seed): plan each kind of the family, run several seeded inputs (white noise, every unit impulse for n<=48, constants, alternating, ramps, cosines, sparse, mixed/huge/tiny magnitudes...) through the allocating or scratch form and compare all n outputs with the definition evaluated independently; non-trivial = n>=2 and input not all zero; distinct = by kind, length, type, input and seed",
        cases: cases_c01,
        exec,
        threads: 0,
        minima: &[("evaluations", 20000), ("kind_type_length", 15000), ("spot_bins", 1000)],
    })
}
pub fn main_c02() {
    main(Prop {
        id: "C02",
        rule: "as C01, for types 5-8: DST6/7 (FFT based) exhaustively over lengths, the O(n^2) kinds exhaustively over small lengths plus special and random larger ones; non-trivial = n>=2 and input not all zero; distinct = by kind, length, type, input and seed",
        cases: cases_c02,
        exec,
        threads: 0,
        minima: &[("evaluations", 15000), ("kind_type_length", 9000), ("spot_bins", 500)],
    })
}
