//! Random valid compositions of the public algorithms.
use crate::kinds::*;
use crate::mocks::*;
use crate::rng::Rng;
use rustdct::algorithm::type2and3_butterflies::*;
use rustdct::algorithm::*;
use rustdct::mdct::*;
use rustdct::rustfft::algorithm::{BluesteinsAlgorithm, Dft, RadersAlgorithm};
use rustdct::rustfft::{Fft, FftDirection, FftPlanner, FftPlannerScalar};
use rustdct::{DctNum, DctPlanner, TransformType2And3, TransformType4};
use std::sync::Arc;

/// what may appear inside a composition
#[derive(Clone, Copy)]
pub struct Opts {
    /// direct-summation parts allowed up to this length
    pub naive_max: usize,
    /// user-written inner transforms allowed up to this length
    pub mock_max: usize,
    /// every inner part is user-written and insists on this much scratch
    pub user: Option<usize>,
}
impl Opts {
    pub fn small() -> Opts {
        Opts { naive_max: 300, mock_max: 200, user: None }
    }
    pub fn fast_only() -> Opts {
        Opts { naive_max: 0, mock_max: 0, user: None }
    }
}

pub struct Built<X> {
    pub inst: X,
    pub desc: String,
    /// contains direct summation (error bound class)
    pub naive: bool,
}

/// scratch a user-written part insists on: none, any, and around every small multiple of its length
fn demand(n: usize, r: &mut Rng) -> usize {
    match r.below(8) {
        0 => 0,
        1 => 1,
        2 => r.below(3 * n + 8),
        3 => 5 * n + 3,
        _ => (*r.pick(&[n / 2, n, 2 * n, 2 * n, 3 * n, 4 * n]) + r.below(6)).saturating_sub(2),
    }
}

pub fn is_prime(n: usize) -> bool {
    n >= 2 && (2..).take_while(|d| d * d <= n).all(|d| n % d != 0)
}

pub fn fft_source<T: DctNum>(n: usize, r: &mut Rng, o: Opts) -> Built<Arc<dyn Fft<T>>> {
    let dir = FftDirection::Forward;
    if let Some(d) = o.user {
        return Built { inst: Arc::new(MockFft::new(n, dir, d)), desc: format!("userfft({n},scratch={d})"), naive: true };
    }
    loop {
        match r.below(6) {
            0 | 1 => return Built { inst: FftPlanner::new().plan_fft_forward(n), desc: format!("rustfft({n})"), naive: false },
            2 => return Built { inst: FftPlannerScalar::new().plan_fft_forward(n), desc: format!("scalarfft({n})"), naive: false },
            3 if n <= o.naive_max => return Built { inst: Arc::new(Dft::new(n, dir)), desc: format!("dft({n})"), naive: true },
            4 if n <= o.mock_max => {
                let d = demand(n, r);
                return Built { inst: Arc::new(MockFft::new(n, dir, d)), desc: format!("userfft({n},scratch={d})"), naive: true };
            }
            5 if n > 2 && n <= o.naive_max.max(64) => {
                if is_prime(n) && r.chance(1, 2) {
                    let inner = FftPlannerScalar::new().plan_fft_forward(n - 1);
                    return Built { inst: Arc::new(RadersAlgorithm::new(inner)), desc: format!("rader({n})"), naive: false };
                }
                let m = (2 * n - 1).next_power_of_two();
                let inner = FftPlannerScalar::new().plan_fft_forward(m);
                return Built { inst: Arc::new(BluesteinsAlgorithm::new(n, inner)), desc: format!("bluestein({n})"), naive: false };
            }
            _ => {}
        }
    }
}

pub fn has_butterfly(n: usize) -> bool {
    [2, 3, 4, 8, 16].contains(&n)
}
pub fn butterfly<T: DctNum>(n: usize) -> Arc<dyn TransformType2And3<T>> {
    match n {
        2 => Arc::new(Type2And3Butterfly2::new()),
        3 => Arc::new(Type2And3Butterfly3::new()),
        4 => Arc::new(Type2And3Butterfly4::new()),
        8 => Arc::new(Type2And3Butterfly8::new()),
        16 => Arc::new(Type2And3Butterfly16::new()),
        _ => panic!("HARNESS: butterfly {n}"),
    }
}

/// the unsafe in-place entry points of the butterflies, in contract
pub fn butterfly_unsafe<T: DctNum>(kind: Kind, buf: &mut [T]) {
    butterfly_unsafe_long(kind, buf.len(), buf)
}
/// the butterfly of length n on a buffer of at least n
pub fn butterfly_unsafe_long<T: DctNum>(kind: Kind, n: usize, buf: &mut [T]) {
    assert!(buf.len() >= n, "HARNESS: butterfly");
    macro_rules! go {
        ($b:expr) => {{
            let b = $b;
            // SAFETY: the buffer is at least as long as the butterfly
            unsafe {
                match kind {
                    Kind::Dct2 => b.process_inplace_dct2(buf),
                    Kind::Dct3 => b.process_inplace_dct3(buf),
                    Kind::Dst2 => b.process_inplace_dst2(buf),
                    Kind::Dst3 => b.process_inplace_dst3(buf),
                    _ => panic!("HARNESS: butterfly kind"),
                }
            }
        }};
    }
    match n {
        2 => go!(Type2And3Butterfly2::<T>::new()),
        3 => go!(Type2And3Butterfly3::<T>::new()),
        4 => go!(Type2And3Butterfly4::<T>::new()),
        8 => go!(Type2And3Butterfly8::<T>::new()),
        16 => go!(Type2And3Butterfly16::<T>::new()),
        n => panic!("HARNESS: butterfly {n}"),
    }
}

/// `top`: force the outermost algorithm (None = random)
pub fn t23<T: DctNum>(n: usize, r: &mut Rng, o: Opts, top: Option<&str>) -> Built<Arc<dyn TransformType2And3<T>>> {
    loop {
        let pick = match top {
            Some(t) => t,
            None if o.user.is_some() => "user",
            None => ["naive", "fft", "sr", "sr", "bf", "user", "plan"][r.below(7)],
        };
        match pick {
            "naive" if n <= o.naive_max || top.is_some() => {
                return Built { inst: Arc::new(Type2And3Naive::new(n)), desc: format!("naive23({n})"), naive: true }
            }
            "fft" => {
                let f = fft_source(n, r, o);
                return Built { inst: Arc::new(Type2And3ConvertToFft::new(f.inst)), desc: format!("fft23[{}]", f.desc), naive: f.naive };
            }
            "sr" if n >= 4 && n.is_power_of_two() => {
                let h = t23(n / 2, r, o, None);
                let q = t23(n / 4, r, o, None);
                return Built {
                    inst: Arc::new(Type2And3SplitRadix::new(h.inst, q.inst)),
                    desc: format!("splitradix{n}[{},{}]", h.desc, q.desc),
                    naive: h.naive || q.naive,
                };
            }
            "bf" if has_butterfly(n) => return Built { inst: butterfly(n), desc: format!("butterfly{n}"), naive: false },
            "user" if n <= o.mock_max => {
                let d = o.user.unwrap_or_else(|| demand(n, r));
                if o.user.is_none() && r.chance(1, 3) {
                    let i = t23(n, r, o, None);
                    return Built { inst: Arc::new(Nested23(i.inst, d)), desc: format!("allocating23[{},scratch={d}]", i.desc), naive: i.naive };
                }
                return Built { inst: Arc::new(MockDct::type23(n, d)), desc: format!("user23({n},scratch={d})"), naive: true };
            }
            "plan" => return Built { inst: DctPlanner::new().plan_dct2(n), desc: format!("planned23({n})"), naive: false },
            p => {
                if top.is_some() {
                    panic!("HARNESS: no {p} at {n}")
                }
            }
        }
    }
}

pub fn t4<T: DctNum>(n: usize, r: &mut Rng, o: Opts, top: Option<&str>) -> Built<Arc<dyn TransformType4<T>>> {
    loop {
        let pick = match top {
            Some(t) => t,
            None if o.user.is_some() => "user",
            None => ["naive", "even", "even", "odd", "odd", "user", "plan"][r.below(7)],
        };
        match pick {
            "naive" if n <= o.naive_max || top.is_some() => {
                return Built { inst: Arc::new(Type4Naive::new(n)), desc: format!("naive4({n})"), naive: true }
            }
            "even" if n % 2 == 0 => {
                let i = t23(n / 2, r, o, None);
                return Built { inst: Arc::new(Type4ConvertToType3Even::new(i.inst)), desc: format!("even4[{}]", i.desc), naive: i.naive };
            }
            "odd" if n % 2 == 1 => {
                let f = fft_source(n, r, o);
                return Built { inst: Arc::new(Type4ConvertToFftOdd::new(f.inst)), desc: format!("odd4[{}]", f.desc), naive: f.naive };
            }
            "user" if n <= o.mock_max => {
                let d = o.user.unwrap_or_else(|| demand(n, r));
                if o.user.is_none() && r.chance(1, 3) {
                    let i = t4(n, r, o, None);
                    return Built { inst: Arc::new(Nested4(i.inst, d)), desc: format!("allocating4[{},scratch={d}]", i.desc), naive: i.naive };
                }
                return Built { inst: Arc::new(MockDct::type4(n, d)), desc: format!("user4({n},scratch={d})"), naive: true };
            }
            "plan" => return Built { inst: DctPlanner::new().plan_dct4(n), desc: format!("planned4({n})"), naive: n < 7 },
            p => {
                if top.is_some() {
                    panic!("HARNESS: no {p} at {n}")
                }
            }
        }
    }
}

/// outermost algorithms of a family that exist at length n
pub fn tops(fam: Fam, n: usize) -> Vec<&'static str> {
    match fam {
        Fam::T23 => {
            let mut v = vec!["naive", "fft"];
            if n >= 4 && n.is_power_of_two() {
                v.push("sr")
            }
            if has_butterfly(n) {
                v.push("bf")
            }
            v
        }
        Fam::T4 => vec!["naive", if n % 2 == 0 { "even" } else { "odd" }],
        Fam::D1 | Fam::S1 | Fam::S67 => vec!["naive", "fft"],
        _ => vec!["naive"],
    }
}

pub fn compose<T: DctNum>(fam: Fam, n: usize, top: &str, r: &mut Rng, o: Opts) -> Built<Inst<T>> {
    match (fam, top) {
        (Fam::T23, t) => {
            let b = t23(n, r, o, Some(t));
            Built { inst: Inst::T23(b.inst), desc: b.desc, naive: b.naive }
        }
        (Fam::T4, t) => {
            let b = t4(n, r, o, Some(t));
            Built { inst: Inst::T4(b.inst), desc: b.desc, naive: b.naive }
        }
        (Fam::D1, "fft") => {
            let f = fft_source(2 * (n - 1), r, o);
            Built { inst: Inst::D1(Arc::new(Dct1ConvertToFft::new(f.inst))), desc: format!("dct1fft[{}]", f.desc), naive: f.naive }
        }
        (Fam::S1, "fft") => {
            let f = fft_source(2 * (n + 1), r, o);
            Built { inst: Inst::S1(Arc::new(Dst1ConvertToFft::new(f.inst))), desc: format!("dst1fft[{}]", f.desc), naive: f.naive }
        }
        (Fam::S67, "fft") => {
            let f = fft_source(2 * n + 1, r, o);
            Built { inst: Inst::S67(Arc::new(Dst6And7ConvertToFft::new(f.inst))), desc: format!("dst67fft[{}]", f.desc), naive: f.naive }
        }
        (_, "naive") => Built { inst: naive(fam, n), desc: format!("naive-{}({n})", fam.name()), naive: true },
        (_, t) => panic!("HARNESS: top {t}"),
    }
}

/// top: "naive" or "dct4"
pub fn mdct<T: DctNum, F: FnOnce(usize) -> Vec<T>>(n: usize, top: &str, r: &mut Rng, o: Opts, w: F) -> Built<Arc<dyn Mdct<T>>> {
    match top {
        "naive" => Built { inst: Arc::new(MdctNaive::new(n, w)), desc: format!("naive-mdct({n})"), naive: true },
        _ => {
            let i = t4(n, r, o, None);
            Built { inst: Arc::new(MdctViaDct4::new(i.inst, w)), desc: format!("mdct4[{}]", i.desc), naive: i.naive }
        }
    }
}
