//! The sixteen transform kinds, their textbook definitions as data, and typed handles on instances.
use rustdct::algorithm::*;
use rustdct::mdct::Mdct;
use rustdct::rustfft::Length;
use rustdct::{DctNum, DctPlanner, TransformType2And3, TransformType4, Dct6And7, Dst6And7};
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Kind {
    Dct1, Dct2, Dct3, Dct4, Dct5, Dct6, Dct7, Dct8,
    Dst1, Dst2, Dst3, Dst4, Dst5, Dst6, Dst7, Dst8,
}
use Kind::*;

pub const ALL: [Kind; 16] = [
    Dct1, Dct2, Dct3, Dct4, Dct5, Dct6, Dct7, Dct8, Dst1, Dst2, Dst3, Dst4, Dst5, Dst6, Dst7, Dst8,
];

/// out[k] = sum_i w(i) x[i] f(2 pi (a1 i + a0)(b1 k + b0) / p), f = cos or sin
#[derive(Clone, Copy, Debug)]
pub struct Def {
    pub sine: bool,
    pub a: (usize, usize),
    pub b: (usize, usize),
    pub p: usize,
    pub half_first: bool,
    pub half_last: bool,
}

impl Def {
    pub fn weight(&self, i: usize, n: usize) -> f64 {
        if (self.half_first && i == 0) || (self.half_last && i + 1 == n) { 0.5 } else { 1.0 }
    }
}

impl Kind {
    pub fn name(self) -> &'static str {
        match self {
            Dct1 => "dct1", Dct2 => "dct2", Dct3 => "dct3", Dct4 => "dct4",
            Dct5 => "dct5", Dct6 => "dct6", Dct7 => "dct7", Dct8 => "dct8",
            Dst1 => "dst1", Dst2 => "dst2", Dst3 => "dst3", Dst4 => "dst4",
            Dst5 => "dst5", Dst6 => "dst6", Dst7 => "dst7", Dst8 => "dst8",
        }
    }
    pub fn parse(s: &str) -> Kind {
        *ALL.iter().find(|k| k.name() == s).unwrap_or_else(|| panic!("HARNESS: kind {s}"))
    }
    pub fn min_len(self) -> usize {
        if self == Dct1 { 2 } else { 1 }
    }
    pub fn family(self) -> Fam {
        match self {
            Dct1 => Fam::D1, Dst1 => Fam::S1,
            Dct2 | Dct3 | Dst2 | Dst3 => Fam::T23,
            Dct4 | Dst4 => Fam::T4,
            Dct5 => Fam::D5, Dst5 => Fam::S5,
            Dct6 | Dct7 => Fam::D67, Dst6 | Dst7 => Fam::S67,
            Dct8 => Fam::D8, Dst8 => Fam::S8,
        }
    }
    pub fn inverse(self) -> Kind {
        match self {
            Dct2 => Dct3, Dct3 => Dct2, Dst2 => Dst3, Dst3 => Dst2,
            Dct6 => Dct7, Dct7 => Dct6, Dst6 => Dst7, Dst7 => Dst6,
            k => k,
        }
    }
    /// T^-1(T(x)) = (l/2) x
    pub fn inverse_l(self, n: usize) -> f64 {
        let n = n as f64;
        match self {
            Dct1 => n - 1.0,
            Dst1 => n + 1.0,
            Dct2 | Dct3 | Dct4 | Dst2 | Dst3 | Dst4 => n,
            Dct5 | Dct6 | Dct7 | Dst8 => n - 0.5,
            Dst5 | Dst6 | Dst7 | Dct8 => n + 0.5,
        }
    }
    pub fn def(self, n: usize) -> Def {
        let d = |sine, a, b, p, hf, hl| Def { sine, a, b, p, half_first: hf, half_last: hl };
        match self {
            Dct1 => d(false, (1, 0), (1, 0), 2 * (n - 1), true, true),
            Dct2 => d(false, (2, 1), (1, 0), 4 * n, false, false),
            Dct3 => d(false, (1, 0), (2, 1), 4 * n, true, false),
            Dct4 => d(false, (2, 1), (2, 1), 8 * n, false, false),
            Dct5 => d(false, (1, 0), (1, 0), 2 * n - 1, true, false),
            Dct6 => d(false, (2, 1), (1, 0), 4 * n - 2, false, true),
            Dct7 => d(false, (1, 0), (2, 1), 4 * n - 2, true, false),
            Dct8 => d(false, (2, 1), (2, 1), 8 * n + 4, false, false),
            Dst1 => d(true, (1, 1), (1, 1), 2 * (n + 1), false, false),
            Dst2 => d(true, (2, 1), (1, 1), 4 * n, false, false),
            Dst3 => d(true, (1, 1), (2, 1), 4 * n, false, true),
            Dst4 => d(true, (2, 1), (2, 1), 8 * n, false, false),
            Dst5 => d(true, (1, 1), (1, 1), 2 * n + 1, false, false),
            Dst6 => d(true, (2, 1), (1, 1), 4 * n + 2, false, false),
            Dst7 => d(true, (1, 1), (2, 1), 4 * n + 2, false, false),
            Dst8 => d(true, (2, 1), (2, 1), 8 * n - 4, false, true),
        }
    }
}

/// One planner method = one family = one instance type.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Fam { D1, S1, T23, T4, D5, S5, D67, S67, D8, S8 }
pub const FAMS: [Fam; 10] = [
    Fam::D1, Fam::S1, Fam::T23, Fam::T4, Fam::D5, Fam::S5, Fam::D67, Fam::S67, Fam::D8, Fam::S8,
];
impl Fam {
    pub fn name(self) -> &'static str {
        match self {
            Fam::D1 => "d1", Fam::S1 => "s1", Fam::T23 => "t23", Fam::T4 => "t4", Fam::D5 => "d5",
            Fam::S5 => "s5", Fam::D67 => "d67", Fam::S67 => "s67", Fam::D8 => "d8", Fam::S8 => "s8",
        }
    }
    pub fn parse(s: &str) -> Fam {
        *FAMS.iter().find(|k| k.name() == s).unwrap_or_else(|| panic!("HARNESS: fam {s}"))
    }
    pub fn kinds(self) -> &'static [Kind] {
        match self {
            Fam::D1 => &[Dct1], Fam::S1 => &[Dst1],
            Fam::T23 => &[Dct2, Dct3, Dst2, Dst3],
            Fam::T4 => &[Dct4, Dst4],
            Fam::D5 => &[Dct5], Fam::S5 => &[Dst5],
            Fam::D67 => &[Dct6, Dct7], Fam::S67 => &[Dst6, Dst7],
            Fam::D8 => &[Dct8], Fam::S8 => &[Dst8],
        }
    }
    pub fn min_len(self) -> usize {
        if self == Fam::D1 { 2 } else { 1 }
    }
    /// planned with an O(n log n) algorithm
    pub fn fast(self) -> bool {
        matches!(self, Fam::D1 | Fam::S1 | Fam::T23 | Fam::T4 | Fam::S67)
    }
}

pub enum Inst<T: DctNum> {
    D1(Arc<dyn rustdct::Dct1<T>>),
    S1(Arc<dyn rustdct::Dst1<T>>),
    T23(Arc<dyn TransformType2And3<T>>),
    T4(Arc<dyn TransformType4<T>>),
    D5(Arc<dyn rustdct::Dct5<T>>),
    S5(Arc<dyn rustdct::Dst5<T>>),
    D67(Arc<dyn Dct6And7<T>>),
    S67(Arc<dyn Dst6And7<T>>),
    D8(Arc<dyn rustdct::Dct8<T>>),
    S8(Arc<dyn rustdct::Dst8<T>>),
}
impl<T: DctNum> Clone for Inst<T> {
    fn clone(&self) -> Self {
        match self {
            Inst::D1(x) => Inst::D1(x.clone()), Inst::S1(x) => Inst::S1(x.clone()),
            Inst::T23(x) => Inst::T23(x.clone()), Inst::T4(x) => Inst::T4(x.clone()),
            Inst::D5(x) => Inst::D5(x.clone()), Inst::S5(x) => Inst::S5(x.clone()),
            Inst::D67(x) => Inst::D67(x.clone()), Inst::S67(x) => Inst::S67(x.clone()),
            Inst::D8(x) => Inst::D8(x.clone()), Inst::S8(x) => Inst::S8(x.clone()),
        }
    }
}

/// Some transforms of the family are requested through different planner methods (plan_dct2/dct3/dst2/dst3):
/// ask through the method of `kind`.
pub fn plan_kind<T: DctNum>(p: &mut DctPlanner<T>, kind: Kind, n: usize) -> Inst<T> {
    match kind {
        Dct1 => Inst::D1(p.plan_dct1(n)),
        Dct2 => Inst::T23(p.plan_dct2(n)),
        Dct3 => Inst::T23(p.plan_dct3(n)),
        Dct4 => Inst::T4(p.plan_dct4(n)),
        Dct5 => Inst::D5(p.plan_dct5(n)),
        Dct6 => Inst::D67(p.plan_dct6(n)),
        Dct7 => Inst::D67(p.plan_dct7(n)),
        Dct8 => Inst::D8(p.plan_dct8(n)),
        Dst1 => Inst::S1(p.plan_dst1(n)),
        Dst2 => Inst::T23(p.plan_dst2(n)),
        Dst3 => Inst::T23(p.plan_dst3(n)),
        Dst4 => Inst::T4(p.plan_dst4(n)),
        Dst5 => Inst::S5(p.plan_dst5(n)),
        Dst6 => Inst::S67(p.plan_dst6(n)),
        Dst7 => Inst::S67(p.plan_dst7(n)),
        Dst8 => Inst::S8(p.plan_dst8(n)),
    }
}

macro_rules! each {
    ($s:expr, $x:ident => $e:expr) => {
        match $s {
            Inst::D1($x) => $e, Inst::S1($x) => $e, Inst::T23($x) => $e, Inst::T4($x) => $e,
            Inst::D5($x) => $e, Inst::S5($x) => $e, Inst::D67($x) => $e, Inst::S67($x) => $e,
            Inst::D8($x) => $e, Inst::S8($x) => $e,
        }
    };
}

impl<T: DctNum> Inst<T> {
    pub fn fam(&self) -> Fam {
        match self {
            Inst::D1(_) => Fam::D1, Inst::S1(_) => Fam::S1, Inst::T23(_) => Fam::T23, Inst::T4(_) => Fam::T4,
            Inst::D5(_) => Fam::D5, Inst::S5(_) => Fam::S5, Inst::D67(_) => Fam::D67, Inst::S67(_) => Fam::S67,
            Inst::D8(_) => Fam::D8, Inst::S8(_) => Fam::S8,
        }
    }
    pub fn kinds(&self) -> &'static [Kind] {
        self.fam().kinds()
    }
    pub fn len(&self) -> usize {
        each!(self, x => Length::len(&**x))
    }
    pub fn scratch_len(&self) -> usize {
        each!(self, x => x.get_scratch_len())
    }
    pub fn addr(&self) -> usize {
        each!(self, x => Arc::as_ptr(x) as *const () as usize)
    }
    pub fn strong(&self) -> usize {
        each!(self, x => Arc::strong_count(x))
    }
    pub fn run(&self, kind: Kind, buf: &mut [T], scratch: &mut [T]) {
        match (self, kind) {
            (Inst::D1(x), Dct1) => x.process_dct1_with_scratch(buf, scratch),
            (Inst::S1(x), Dst1) => x.process_dst1_with_scratch(buf, scratch),
            (Inst::T23(x), Dct2) => x.process_dct2_with_scratch(buf, scratch),
            (Inst::T23(x), Dct3) => x.process_dct3_with_scratch(buf, scratch),
            (Inst::T23(x), Dst2) => x.process_dst2_with_scratch(buf, scratch),
            (Inst::T23(x), Dst3) => x.process_dst3_with_scratch(buf, scratch),
            (Inst::T4(x), Dct4) => x.process_dct4_with_scratch(buf, scratch),
            (Inst::T4(x), Dst4) => x.process_dst4_with_scratch(buf, scratch),
            (Inst::D5(x), Dct5) => x.process_dct5_with_scratch(buf, scratch),
            (Inst::S5(x), Dst5) => x.process_dst5_with_scratch(buf, scratch),
            (Inst::D67(x), Dct6) => x.process_dct6_with_scratch(buf, scratch),
            (Inst::D67(x), Dct7) => x.process_dct7_with_scratch(buf, scratch),
            (Inst::S67(x), Dst6) => x.process_dst6_with_scratch(buf, scratch),
            (Inst::S67(x), Dst7) => x.process_dst7_with_scratch(buf, scratch),
            (Inst::D8(x), Dct8) => x.process_dct8_with_scratch(buf, scratch),
            (Inst::S8(x), Dst8) => x.process_dst8_with_scratch(buf, scratch),
            _ => panic!("HARNESS: kind {kind:?} on {:?}", self.fam()),
        }
    }
    pub fn run_alloc(&self, kind: Kind, buf: &mut [T]) {
        match (self, kind) {
            (Inst::D1(x), Dct1) => x.process_dct1(buf),
            (Inst::S1(x), Dst1) => x.process_dst1(buf),
            (Inst::T23(x), Dct2) => x.process_dct2(buf),
            (Inst::T23(x), Dct3) => x.process_dct3(buf),
            (Inst::T23(x), Dst2) => x.process_dst2(buf),
            (Inst::T23(x), Dst3) => x.process_dst3(buf),
            (Inst::T4(x), Dct4) => x.process_dct4(buf),
            (Inst::T4(x), Dst4) => x.process_dst4(buf),
            (Inst::D5(x), Dct5) => x.process_dct5(buf),
            (Inst::S5(x), Dst5) => x.process_dst5(buf),
            (Inst::D67(x), Dct6) => x.process_dct6(buf),
            (Inst::D67(x), Dct7) => x.process_dct7(buf),
            (Inst::S67(x), Dst6) => x.process_dst6(buf),
            (Inst::S67(x), Dst7) => x.process_dst7(buf),
            (Inst::D8(x), Dct8) => x.process_dct8(buf),
            (Inst::S8(x), Dst8) => x.process_dst8(buf),
            _ => panic!("HARNESS: kind {kind:?} on {:?}", self.fam()),
        }
    }
    /// process with a fresh zeroed scratch of exactly the advertised length
    pub fn apply(&self, kind: Kind, x: &[T]) -> Vec<T> {
        let mut b = x.to_vec();
        let mut s = vec![T::zero(); self.scratch_len()];
        self.run(kind, &mut b, &mut s);
        b
    }
}

/// naive instance of a family
pub fn naive<T: DctNum>(fam: Fam, n: usize) -> Inst<T> {
    match fam {
        Fam::D1 => Inst::D1(Arc::new(Dct1Naive::new(n))),
        Fam::S1 => Inst::S1(Arc::new(Dst1Naive::new(n))),
        Fam::T23 => Inst::T23(Arc::new(Type2And3Naive::new(n))),
        Fam::T4 => Inst::T4(Arc::new(Type4Naive::new(n))),
        Fam::D5 => Inst::D5(Arc::new(Dct5Naive::new(n))),
        Fam::S5 => Inst::S5(Arc::new(Dst5Naive::new(n))),
        Fam::D67 => Inst::D67(Arc::new(Dct6And7Naive::new(n))),
        Fam::S67 => Inst::S67(Arc::new(Dst6And7Naive::new(n))),
        Fam::D8 => Inst::D8(Arc::new(Dct8Naive::new(n))),
        Fam::S8 => Inst::S8(Arc::new(Dst8Naive::new(n))),
    }
}

pub fn run_mdct<T: DctNum>(m: &dyn Mdct<T>, a: &[T], b: &[T], s: Option<&mut [T]>) -> Vec<T> {
    let mut out = vec![T::zero(); m.len()];
    match s {
        Some(s) => m.process_mdct_with_scratch(a, b, &mut out, s),
        None => {
            let mut s = vec![T::zero(); m.get_scratch_len()];
            m.process_mdct_with_scratch(a, b, &mut out, &mut s)
        }
    }
    out
}
