//! "User-written" inner transforms: correct, but demanding about the contract. They require the scratch they
//! advertise (no more, no less is promised), may overwrite all of it, and panic when their contract is broken.
use crate::kinds::Kind;
use crate::refer::exact_trig;
use rustdct::rustfft::num_complex::Complex;
use rustdct::rustfft::{Direction, Fft, FftDirection, Length};
use rustdct::{
    Dct2, Dct3, Dct4, DctNum, Dst2, Dst3, Dst4, RequiredScratch, TransformType2And3, TransformType4,
};

fn garbage<T: DctNum>(i: usize) -> T {
    T::from_f64(if i % 2 == 0 { f64::NAN } else { 1e6 }).unwrap()
}
fn trash<T: DctNum>(s: &mut [T]) {
    for (i, x) in s.iter_mut().enumerate() {
        *x = garbage(i)
    }
}
fn trash_c<T: DctNum>(s: &mut [Complex<T>]) {
    for (i, x) in s.iter_mut().enumerate() {
        *x = Complex { re: garbage(i), im: garbage(i + 1) }
    }
}

pub struct MockFft<T> {
    n: usize,
    dir: FftDirection,
    tw: Vec<Complex<T>>,
    demand: usize,
}
impl<T: DctNum> MockFft<T> {
    /// `demand`: the in-place scratch length (in complex numbers) this FFT insists on
    pub fn new(n: usize, dir: FftDirection, demand: usize) -> Self {
        let sgn = if dir == FftDirection::Forward { -1.0 } else { 1.0 };
        let tw = (0..n)
            .map(|j| {
                let (c, s) = exact_trig(j as u128, n as u128);
                Complex { re: T::from_f64(c).unwrap(), im: T::from_f64(s * sgn).unwrap() }
            })
            .collect();
        MockFft { n, dir, tw, demand }
    }
    fn dft(&self, x: &[Complex<T>], out: &mut [Complex<T>]) {
        for (k, o) in out.iter_mut().enumerate() {
            let mut acc = Complex { re: T::zero(), im: T::zero() };
            let mut idx = 0;
            for v in x {
                acc = acc + *v * self.tw[idx];
                idx += k;
                if idx >= self.n {
                    idx -= self.n
                }
            }
            *o = acc;
        }
    }
    fn check(&self, what: &str, len: usize, scratch: usize, need: usize) {
        assert!(self.n > 0 && len % self.n == 0 && len > 0, "contract: {what} got a buffer of {len} for an FFT of {}", self.n);
        assert!(scratch >= need, "contract: {what} got {scratch} scratch, advertised {need}");
    }
}
impl<T: DctNum> Fft<T> for MockFft<T> {
    fn process_with_scratch(&self, buffer: &mut [Complex<T>], scratch: &mut [Complex<T>]) {
        self.check("inner fft (in place)", buffer.len(), scratch.len(), self.demand);
        let scratch = &mut scratch[..self.demand];
        for chunk in buffer.chunks_exact_mut(self.n) {
            if self.demand >= self.n {
                self.dft(chunk, &mut scratch[..self.n]);
                chunk.copy_from_slice(&scratch[..self.n]);
            } else {
                let x = chunk.to_vec();
                self.dft(&x, chunk);
            }
        }
        trash_c(scratch);
    }
    fn process_outofplace_with_scratch(&self, input: &mut [Complex<T>], output: &mut [Complex<T>], scratch: &mut [Complex<T>]) {
        self.check("inner fft (out of place)", input.len(), scratch.len(), self.demand);
        assert_eq!(input.len(), output.len(), "contract: inner fft output length");
        for (i, o) in input.chunks_exact_mut(self.n).zip(output.chunks_exact_mut(self.n)) {
            self.dft(i, o);
        }
        trash_c(input);
        trash_c(&mut scratch[..self.demand]);
    }
    fn process_immutable_with_scratch(&self, input: &[Complex<T>], output: &mut [Complex<T>], scratch: &mut [Complex<T>]) {
        self.check("inner fft (immutable)", input.len(), scratch.len(), self.demand);
        assert_eq!(input.len(), output.len(), "contract: inner fft output length");
        for (i, o) in input.chunks_exact(self.n).zip(output.chunks_exact_mut(self.n)) {
            self.dft(i, o);
        }
        trash_c(&mut scratch[..self.demand]);
    }
    fn get_inplace_scratch_len(&self) -> usize {
        self.demand
    }
    fn get_outofplace_scratch_len(&self) -> usize {
        self.demand
    }
    fn get_immutable_scratch_len(&self) -> usize {
        self.demand
    }
}
impl<T> Length for MockFft<T> {
    fn len(&self) -> usize {
        self.n
    }
}
impl<T> Direction for MockFft<T> {
    fn fft_direction(&self) -> FftDirection {
        self.dir
    }
}

/// matrix-multiplication inner DCT/DST (types 2, 3 and 4)
pub struct MockDct<T> {
    n: usize,
    demand: usize,
    mats: Vec<(Kind, Vec<T>)>,
}
impl<T: DctNum> MockDct<T> {
    pub fn new(n: usize, demand: usize, kinds: &[Kind]) -> Self {
        let mats = kinds
            .iter()
            .map(|&kind| {
                let d = kind.def(n);
                let mut m = Vec::with_capacity(n * n);
                for k in 0..n {
                    for i in 0..n {
                        let (c, s) = exact_trig(((d.a.0 * i + d.a.1) * (d.b.0 * k + d.b.1)) as u128, d.p as u128);
                        m.push(T::from_f64(d.weight(i, n) * if d.sine { s } else { c }).unwrap());
                    }
                }
                (kind, m)
            })
            .collect();
        MockDct { n, demand, mats }
    }
    pub fn type23(n: usize, demand: usize) -> Self {
        Self::new(n, demand, &[Kind::Dct2, Kind::Dct3, Kind::Dst2, Kind::Dst3])
    }
    pub fn type4(n: usize, demand: usize) -> Self {
        Self::new(n, demand, &[Kind::Dct4, Kind::Dst4])
    }
    fn run(&self, kind: Kind, buffer: &mut [T], scratch: &mut [T]) {
        assert!(buffer.len() == self.n, "contract: inner {} of length {} got a buffer of {}", kind.name(), self.n, buffer.len());
        assert!(scratch.len() >= self.demand, "contract: inner {} got {} scratch, advertised {}", kind.name(), scratch.len(), self.demand);
        let m = &self.mats.iter().find(|m| m.0 == kind).unwrap().1;
        let x = buffer.to_vec();
        trash(buffer);
        for k in 0..self.n {
            let mut acc = T::zero();
            for i in 0..self.n {
                acc = acc + x[i] * m[k * self.n + i];
            }
            buffer[k] = acc;
        }
        trash(&mut scratch[..self.demand]);
    }
}
impl<T: DctNum> RequiredScratch for MockDct<T> {
    fn get_scratch_len(&self) -> usize {
        self.demand
    }
}
impl<T> Length for MockDct<T> {
    fn len(&self) -> usize {
        self.n
    }
}
macro_rules! imp {
    ($tr:ident, $f:ident, $k:ident) => {
        impl<T: DctNum> $tr<T> for MockDct<T> {
            fn $f(&self, buffer: &mut [T], scratch: &mut [T]) {
                self.run(Kind::$k, buffer, scratch)
            }
        }
    };
}
imp!(Dct2, process_dct2_with_scratch, Dct2);
imp!(Dct3, process_dct3_with_scratch, Dct3);
imp!(Dst2, process_dst2_with_scratch, Dst2);
imp!(Dst3, process_dst3_with_scratch, Dst3);
imp!(Dct4, process_dct4_with_scratch, Dct4);
imp!(Dst4, process_dst4_with_scratch, Dst4);
impl<T: DctNum> TransformType2And3<T> for MockDct<T> {}
impl<T: DctNum> TransformType4<T> for MockDct<T> {}

/// a user-written part that passes the work on to another instance through the calls that allocate
pub struct Nested23<T>(pub std::sync::Arc<dyn TransformType2And3<T>>, pub usize);
pub struct Nested4<T>(pub std::sync::Arc<dyn TransformType4<T>>, pub usize);
macro_rules! nested {
    ($s:ident: $($tr:ident $f:ident $g:ident),*) => {
        impl<T: DctNum> RequiredScratch for $s<T> {
            fn get_scratch_len(&self) -> usize {
                self.1
            }
        }
        impl<T> Length for $s<T> {
            fn len(&self) -> usize {
                self.0.len()
            }
        }
        $(impl<T: DctNum> $tr<T> for $s<T> {
            fn $f(&self, buffer: &mut [T], scratch: &mut [T]) {
                assert!(buffer.len() == self.0.len(), "contract: inner part of length {} got a buffer of {}", self.0.len(), buffer.len());
                assert!(scratch.len() >= self.1, "contract: inner part got {} scratch, advertised {}", scratch.len(), self.1);
                self.0.$g(buffer);
                trash(&mut scratch[..self.1]);
            }
        })*
    };
}
nested!(Nested23: Dct2 process_dct2_with_scratch process_dct2, Dct3 process_dct3_with_scratch process_dct3,
    Dst2 process_dst2_with_scratch process_dst2, Dst3 process_dst3_with_scratch process_dst3);
nested!(Nested4: Dct4 process_dct4_with_scratch process_dct4, Dst4 process_dst4_with_scratch process_dst4);
impl<T: DctNum> TransformType2And3<T> for Nested23<T> {}
impl<T: DctNum> TransformType4<T> for Nested4<T> {}

// ---- inner parts that lie: safe code may do this, so it may at worst make the library panic ----------------------------
use std::sync::atomic::{AtomicUsize, Ordering};
pub struct Liar<T> {
    lens: Vec<usize>,
    scratches: Vec<usize>,
    calls: AtomicUsize,
    dir: FftDirection,
    k: T,
}
impl<T: DctNum> Liar<T> {
    /// answers to len() and to the scratch questions come from these lists in turn
    pub fn new(lens: Vec<usize>, scratches: Vec<usize>, dir: FftDirection) -> Self {
        Liar { lens, scratches, calls: AtomicUsize::new(0), dir, k: T::from_f64(0.5).unwrap() }
    }
    fn next(&self) -> usize {
        self.calls.fetch_add(1, Ordering::Relaxed)
    }
    fn mess(&self, a: &mut [T], b: &mut [T]) {
        for x in a.iter_mut().chain(b) {
            *x = *x * self.k + self.k
        }
    }
    fn mess_c(&self, a: &mut [Complex<T>], b: &mut [Complex<T>]) {
        for x in a.iter_mut().chain(b) {
            *x = *x * self.k
        }
    }
}
impl<T> Length for Liar<T> {
    fn len(&self) -> usize {
        let i = self.calls.fetch_add(1, Ordering::Relaxed);
        self.lens[i % self.lens.len()]
    }
}
impl<T> Direction for Liar<T> {
    fn fft_direction(&self) -> FftDirection {
        self.dir
    }
}
impl<T: DctNum> Liar<T> {
    fn scratch(&self) -> usize {
        let i = self.next();
        self.scratches[i % self.scratches.len()]
    }
}
impl<T: DctNum> RequiredScratch for Liar<T> {
    fn get_scratch_len(&self) -> usize {
        self.scratch()
    }
}
impl<T: DctNum> Fft<T> for Liar<T> {
    fn process_with_scratch(&self, b: &mut [Complex<T>], s: &mut [Complex<T>]) {
        self.mess_c(b, s)
    }
    fn process_outofplace_with_scratch(&self, i: &mut [Complex<T>], o: &mut [Complex<T>], s: &mut [Complex<T>]) {
        self.mess_c(i, o);
        self.mess_c(s, &mut [])
    }
    fn process_immutable_with_scratch(&self, i: &[Complex<T>], o: &mut [Complex<T>], s: &mut [Complex<T>]) {
        let m = i.len().min(o.len());
        o[..m].copy_from_slice(&i[..m]);
        self.mess_c(s, o)
    }
    fn get_inplace_scratch_len(&self) -> usize {
        self.scratch()
    }
    fn get_outofplace_scratch_len(&self) -> usize {
        self.scratch()
    }
    fn get_immutable_scratch_len(&self) -> usize {
        self.scratch()
    }
}
macro_rules! lie {
    ($tr:ident, $f:ident) => {
        impl<T: DctNum> $tr<T> for Liar<T> {
            fn $f(&self, buffer: &mut [T], scratch: &mut [T]) {
                self.mess(buffer, scratch)
            }
        }
    };
}
lie!(Dct2, process_dct2_with_scratch);
lie!(Dct3, process_dct3_with_scratch);
lie!(Dst2, process_dst2_with_scratch);
lie!(Dst3, process_dst3_with_scratch);
lie!(Dct4, process_dct4_with_scratch);
lie!(Dst4, process_dst4_with_scratch);
impl<T: DctNum> TransformType2And3<T> for Liar<T> {}
impl<T: DctNum> TransformType4<T> for Liar<T> {}
