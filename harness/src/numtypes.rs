//! User-defined number types satisfying the public numeric trait, used as monitors.
use rustdct::rustfft::num_traits::{FloatConst, FromPrimitive, Num, One, Signed, Zero};
use std::cell::Cell;
use std::fmt::Debug;
use std::ops::{Add, Div, Mul, Neg, Rem, Sub};

pub trait Arith: Copy + Debug + PartialEq + Send + Sync + 'static {
    fn add_(self, o: Self) -> Self;
    fn sub_(self, o: Self) -> Self;
    fn mul_(self, o: Self) -> Self;
    fn div_(self, o: Self) -> Self;
    fn neg_(self) -> Self;
    fn konst(x: f64) -> Self;
    /// a representative real value (comparisons of Signed)
    fn lead(self) -> f64;
}

#[macro_export]
macro_rules! numtype {
    ($t:ty) => {
        $crate::numtype!($t, signed);
        impl Signed for $t {
            fn abs(&self) -> $t { if self.lead() < 0.0 { self.neg_() } else { *self } }
            fn abs_sub(&self, o: &$t) -> $t { if self.lead() <= o.lead() { <$t>::konst(0.0) } else { self.sub_(*o) } }
            fn signum(&self) -> $t { <$t>::konst(self.lead().signum()) }
            fn is_positive(&self) -> bool { self.lead() > 0.0 }
            fn is_negative(&self) -> bool { self.lead() < 0.0 }
        }
    };
    ($t:ty, signed) => {
        impl Add for $t { type Output = $t; #[inline(never)] fn add(self, o: $t) -> $t { self.add_(o) } }
        impl Sub for $t { type Output = $t; #[inline(never)] fn sub(self, o: $t) -> $t { self.sub_(o) } }
        impl Mul for $t { type Output = $t; #[inline(never)] fn mul(self, o: $t) -> $t { self.mul_(o) } }
        impl Div for $t { type Output = $t; #[inline(never)] fn div(self, o: $t) -> $t { self.div_(o) } }
        impl Rem for $t { type Output = $t; fn rem(self, o: $t) -> $t { <$t>::konst(self.lead() % o.lead()) } }
        impl Neg for $t { type Output = $t; #[inline(never)] fn neg(self) -> $t { self.neg_() } }
        impl Zero for $t {
            #[inline] fn zero() -> $t { <$t>::konst(0.0) }
            fn is_zero(&self) -> bool { *self == <$t>::konst(0.0) }
        }
        impl One for $t { #[inline] fn one() -> $t { <$t>::konst(1.0) } }
        impl Num for $t {
            type FromStrRadixErr = ();
            fn from_str_radix(s: &str, _: u32) -> Result<$t, ()> { s.parse().map(<$t>::konst).map_err(|_| ()) }
        }
        impl FromPrimitive for $t {
            fn from_i64(n: i64) -> Option<$t> { Some(<$t>::konst(n as f64)) }
            fn from_u64(n: u64) -> Option<$t> { Some(<$t>::konst(n as f64)) }
            fn from_f32(n: f32) -> Option<$t> { Some(<$t>::konst(n as f64)) }
            fn from_f64(n: f64) -> Option<$t> { Some(<$t>::konst(n)) }
        }
        impl FloatConst for $t {
            fn E() -> $t { <$t>::konst(std::f64::consts::E) }
            fn FRAC_1_PI() -> $t { <$t>::konst(std::f64::consts::FRAC_1_PI) }
            fn FRAC_1_SQRT_2() -> $t { <$t>::konst(std::f64::consts::FRAC_1_SQRT_2) }
            fn FRAC_2_PI() -> $t { <$t>::konst(std::f64::consts::FRAC_2_PI) }
            fn FRAC_2_SQRT_PI() -> $t { <$t>::konst(std::f64::consts::FRAC_2_SQRT_PI) }
            fn FRAC_PI_2() -> $t { <$t>::konst(std::f64::consts::FRAC_PI_2) }
            fn FRAC_PI_3() -> $t { <$t>::konst(std::f64::consts::FRAC_PI_3) }
            fn FRAC_PI_4() -> $t { <$t>::konst(std::f64::consts::FRAC_PI_4) }
            fn FRAC_PI_6() -> $t { <$t>::konst(std::f64::consts::FRAC_PI_6) }
            fn FRAC_PI_8() -> $t { <$t>::konst(std::f64::consts::FRAC_PI_8) }
            fn LN_10() -> $t { <$t>::konst(std::f64::consts::LN_10) }
            fn LN_2() -> $t { <$t>::konst(std::f64::consts::LN_2) }
            fn LOG10_E() -> $t { <$t>::konst(std::f64::consts::LOG10_E) }
            fn LOG2_E() -> $t { <$t>::konst(std::f64::consts::LOG2_E) }
            fn PI() -> $t { <$t>::konst(std::f64::consts::PI) }
            fn SQRT_2() -> $t { <$t>::konst(std::f64::consts::SQRT_2) }
        }
    };
}

// ---- plain newtypes of unusual layout -------------------------------------------------------------------------
macro_rules! scalar {
    ($(#[$m:meta])* $name:ident, $f:ty) => {
        $(#[$m])*
        #[derive(Clone, Copy, Debug, PartialEq)]
        pub struct $name(pub $f);
        impl Arith for $name {
            #[inline] fn add_(self, o: Self) -> Self { $name(self.0 + o.0) }
            #[inline] fn sub_(self, o: Self) -> Self { $name(self.0 - o.0) }
            #[inline] fn mul_(self, o: Self) -> Self { $name(self.0 * o.0) }
            #[inline] fn div_(self, o: Self) -> Self { $name(self.0 / o.0) }
            #[inline] fn neg_(self) -> Self { $name(-self.0) }
            #[inline] fn konst(x: f64) -> Self { $name(x as $f) }
            #[inline] fn lead(self) -> f64 { self.0 as f64 }
        }
        numtype!($name);
    };
}
scalar!(/// over-aligned: 32 bytes for one f32
    #[repr(align(32))] Aligned32, f32);
scalar!(/// over-aligned f64
    #[repr(align(64))] Aligned64, f64);
scalar!(/// an f32 in disguise: rustfft's and any other special-casing by type must not apply
    Plain32, f32);
scalar!(Plain64, f64);

/// a number whose bytes mean nothing to anyone else: zero is not all zero bits, the sign is in the middle, equal
/// sizes to f32 / f64 notwithstanding
macro_rules! scrambled {
    ($name:ident, $f:ty, $u:ty, $rot:expr, $key:expr) => {
        #[derive(Clone, Copy)]
        pub struct $name($u);
        impl $name {
            #[inline] pub fn new(x: $f) -> Self { $name(x.to_bits().rotate_left($rot) ^ $key) }
            #[inline] pub fn get(self) -> $f { <$f>::from_bits((self.0 ^ $key).rotate_right($rot)) }
        }
        impl PartialEq for $name { fn eq(&self, o: &Self) -> bool { self.get() == o.get() } }
        impl Debug for $name { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { self.get().fmt(f) } }
        impl Arith for $name {
            #[inline] fn add_(self, o: Self) -> Self { $name::new(self.get() + o.get()) }
            #[inline] fn sub_(self, o: Self) -> Self { $name::new(self.get() - o.get()) }
            #[inline] fn mul_(self, o: Self) -> Self { $name::new(self.get() * o.get()) }
            #[inline] fn div_(self, o: Self) -> Self { $name::new(self.get() / o.get()) }
            #[inline] fn neg_(self) -> Self { $name::new(-self.get()) }
            #[inline] fn konst(x: f64) -> Self { $name::new(x as $f) }
            #[inline] fn lead(self) -> f64 { self.get() as f64 }
        }
        numtype!($name);
    };
}
scrambled!(Scrambled32, f32, u32, 11, 0x5bd1_e995);
scrambled!(Scrambled64, f64, u64, 23, 0x9e37_79b9_7f4a_7c15);

// ---- lanes ------------------------------------------------------------------------------------------------------
macro_rules! lanes {
    ($(#[$m:meta])* $name:ident, $f:ty, $l:expr, $all:ident) => {
        // abs and signum work by lane; the sign tests ask for any or for all lanes
        $(#[$m])*
        #[derive(Clone, Copy, Debug, PartialEq)]
        pub struct $name(pub [$f; $l]);
        impl $name {
            #[inline]
            fn zip(self, o: Self, f: impl Fn($f, $f) -> $f) -> Self {
                let mut r = self;
                for i in 0..$l { r.0[i] = f(self.0[i], o.0[i]) }
                r
            }
        }
        impl Arith for $name {
            #[inline] fn add_(self, o: Self) -> Self { self.zip(o, |a, b| a + b) }
            #[inline] fn sub_(self, o: Self) -> Self { self.zip(o, |a, b| a - b) }
            #[inline] fn mul_(self, o: Self) -> Self { self.zip(o, |a, b| a * b) }
            #[inline] fn div_(self, o: Self) -> Self { self.zip(o, |a, b| a / b) }
            #[inline] fn neg_(self) -> Self { self.zip(self, |a, _| -a) }
            #[inline] fn konst(x: f64) -> Self { $name([x as $f; $l]) }
            fn lead(self) -> f64 { self.0[0] as f64 }
        }
        numtype!($name, signed);
        impl Signed for $name {
            fn abs(&self) -> $name { self.zip(*self, |a, _| a.abs()) }
            fn abs_sub(&self, o: &$name) -> $name { self.zip(*o, |a, b| if a <= b { 0.0 } else { a - b }) }
            fn signum(&self) -> $name { self.zip(*self, |a, _| a.signum()) }
            fn is_positive(&self) -> bool { self.0.iter().$all(|a| *a > 0.0) }
            fn is_negative(&self) -> bool { self.0.iter().$all(|a| *a < 0.0) }
        }
    };
}
lanes!(Lanes17, f32, 17, any);
lanes!(/// the size of an f64, two signals
    Lanes2, f32, 2, all);
lanes!(/// the size of a complex f64 or an SSE register
    Pair64, f64, 2, any);

/// a dual number as automatic-differentiation crates write it: comparisons (==, is_zero, signs) see the value only
#[derive(Clone, Copy, Debug)]
pub struct DualV {
    pub v: f64,
    pub d: f64,
}
impl PartialEq for DualV {
    fn eq(&self, o: &DualV) -> bool { self.v == o.v }
}
impl Arith for DualV {
    fn add_(self, o: Self) -> Self { DualV { v: self.v + o.v, d: self.d + o.d } }
    fn sub_(self, o: Self) -> Self { DualV { v: self.v - o.v, d: self.d - o.d } }
    fn mul_(self, o: Self) -> Self { DualV { v: self.v * o.v, d: self.d * o.v + self.v * o.d } }
    fn div_(self, o: Self) -> Self { DualV { v: self.v / o.v, d: (self.d * o.v - self.v * o.d) / (o.v * o.v) } }
    fn neg_(self) -> Self { DualV { v: -self.v, d: -self.d } }
    fn konst(x: f64) -> Self { DualV { v: x, d: 0.0 } }
    fn lead(self) -> f64 { self.v }
}
numtype!(DualV);

// ---- dual numbers -------------------------------------------------------------------------------------------------
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Dual {
    pub v: f64,
    pub d: f64,
}
impl Arith for Dual {
    fn add_(self, o: Self) -> Self { Dual { v: self.v + o.v, d: self.d + o.d } }
    fn sub_(self, o: Self) -> Self { Dual { v: self.v - o.v, d: self.d - o.d } }
    fn mul_(self, o: Self) -> Self { Dual { v: self.v * o.v, d: self.d * o.v + self.v * o.d } }
    fn div_(self, o: Self) -> Self { Dual { v: self.v / o.v, d: (self.d * o.v - self.v * o.d) / (o.v * o.v) } }
    fn neg_(self) -> Self { Dual { v: -self.v, d: -self.d } }
    fn konst(x: f64) -> Self { Dual { v: x, d: 0.0 } }
    fn lead(self) -> f64 { self.v }
}
numtype!(Dual);

// ---- double-double ------------------------------------------------------------------------------------------------
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct DD {
    pub hi: f64,
    pub lo: f64,
}
fn two_sum(a: f64, b: f64) -> DD {
    let s = a + b;
    let t = s - a;
    DD { hi: s, lo: (a - (s - t)) + (b - t) }
}
fn two_prod(a: f64, b: f64) -> DD {
    let p = a * b;
    DD { hi: p, lo: a.mul_add(b, -p) }
}
fn norm(hi: f64, lo: f64) -> DD {
    let s = hi + lo;
    DD { hi: s, lo: lo - (s - hi) }
}
impl Arith for DD {
    fn add_(self, o: Self) -> Self {
        let s = two_sum(self.hi, o.hi);
        let t = two_sum(self.lo, o.lo);
        let a = norm(s.hi, s.lo + t.hi);
        norm(a.hi, a.lo + t.lo)
    }
    fn sub_(self, o: Self) -> Self { self.add_(o.neg_()) }
    fn mul_(self, o: Self) -> Self {
        let p = two_prod(self.hi, o.hi);
        norm(p.hi, p.lo + (self.hi * o.lo + self.lo * o.hi))
    }
    fn div_(self, o: Self) -> Self {
        let q1 = self.hi / o.hi;
        let r = self.sub_(o.mul_(DD { hi: q1, lo: 0.0 }));
        let q2 = r.hi / o.hi;
        let r2 = r.sub_(o.mul_(DD { hi: q2, lo: 0.0 }));
        norm(q1, q2).add_(DD { hi: r2.hi / o.hi, lo: 0.0 })
    }
    fn neg_(self) -> Self { DD { hi: -self.hi, lo: -self.lo } }
    fn konst(x: f64) -> Self { DD { hi: x, lo: 0.0 } }
    fn lead(self) -> f64 { self.hi }
}
numtype!(DD);

// ---- linear forms: the whole matrix in one run; refuses to multiply or divide by data --------------------------------
// A Form is a handle into a thread-local arena: what a symbolic or tape-based number type looks like.
pub const FORM: usize = 24;
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct FormData {
    pub c: f64,
    pub v: [f64; FORM],
    pub data: bool,
}
#[derive(Clone, Copy, Debug)]
pub struct Form(u32);
thread_local! {
    static ARENA: std::cell::RefCell<Vec<FormData>> = const { std::cell::RefCell::new(Vec::new()) };
}
impl Form {
    pub fn new(d: FormData) -> Form {
        ARENA.with(|a| {
            let mut a = a.borrow_mut();
            a.push(d);
            Form(a.len() as u32 - 1)
        })
    }
    /// forget every handle of this thread
    pub fn reset() {
        ARENA.with(|a| a.borrow_mut().clear())
    }
    /// handles made since the last reset
    pub fn made() -> usize {
        ARENA.with(|a| a.borrow().len())
    }
    pub fn get(self) -> FormData {
        ARENA.with(|a| *a.borrow().get(self.0 as usize).unwrap_or_else(|| panic!("a number that was never made by the number type was used")))
    }
    pub fn input(i: usize) -> Form {
        let mut d = FormData { c: 0.0, v: [0.0; FORM], data: true };
        d.v[i] = 1.0;
        Form::new(d)
    }
    fn zip(self, o: Self, f: impl Fn(f64, f64) -> f64) -> Self {
        let (mut r, o) = (self.get(), o.get());
        r.c = f(r.c, o.c);
        for i in 0..FORM { r.v[i] = f(r.v[i], o.v[i]) }
        r.data = r.data || o.data;
        Form::new(r)
    }
    fn scale(self, k: f64) -> Self {
        let mut r = self.get();
        r.c *= k;
        for x in r.v.iter_mut() { *x *= k }
        Form::new(r)
    }
}
impl PartialEq for Form {
    fn eq(&self, o: &Form) -> bool { self.get() == o.get() }
}
impl Arith for Form {
    fn add_(self, o: Self) -> Self { self.zip(o, |a, b| a + b) }
    fn sub_(self, o: Self) -> Self { self.zip(o, |a, b| a - b) }
    fn mul_(self, o: Self) -> Self {
        let (s, t) = (self.get(), o.get());
        match (s.data, t.data) {
            (true, true) => panic!("two data values were multiplied: not a linear combination"),
            (true, false) => self.scale(t.c),
            _ => o.scale(s.c),
        }
    }
    fn div_(self, o: Self) -> Self {
        let o = o.get();
        if o.data { panic!("division by a data value: not a linear combination") }
        self.scale(1.0 / o.c)
    }
    fn neg_(self) -> Self { self.scale(-1.0) }
    fn konst(x: f64) -> Self { Form::new(FormData { c: x, v: [0.0; FORM], data: false }) }
    fn lead(self) -> f64 { self.get().c }
}
numtype!(Form);

// ---- operation counter ----------------------------------------------------------------------------------------------
#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub struct Ops {
    pub add: u64,
    pub mul: u64,
    pub other: u64,
    pub konst: u64,
}
impl Ops {
    pub fn total(&self) -> u64 { self.add + self.mul + self.other }
    pub fn since(&self, o: &Ops) -> Ops {
        Ops { add: self.add - o.add, mul: self.mul - o.mul, other: self.other - o.other, konst: self.konst - o.konst }
    }
}
thread_local! {
    /// operations after which the next one panics
    static FUEL: Cell<u64> = const { Cell::new(u64::MAX) };
    static OPS: Cell<Ops> = const { Cell::new(Ops { add: 0, mul: 0, other: 0, konst: 0 }) };
}
pub fn ops() -> Ops { OPS.with(|o| o.get()) }
/// the current thread may do this many more operations and constants; one beyond that panics (a call that is far over its
/// bound need not be waited for)
pub fn set_fuel(f: Option<u64>) {
    FUEL.with(|c| c.set(f.map_or(u64::MAX, |f| { let o = ops(); o.total() + o.konst + f })))
}
fn tick(f: impl FnOnce(&mut Ops)) {
    OPS.with(|c| {
        let mut o = c.get();
        f(&mut o);
        c.set(o);
        if o.total() + o.konst > FUEL.with(|f| f.get()) {
            set_fuel(None);
            panic!("more numeric operations than {FUEL_TIMES} times the O(n log n) bound");
        }
    })
}
pub const FUEL_TIMES: u64 = 3;
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Counted(pub f64);
impl Arith for Counted {
    #[inline] fn add_(self, o: Self) -> Self { tick(|c| c.add += 1); Counted(self.0 + o.0) }
    #[inline] fn sub_(self, o: Self) -> Self { tick(|c| c.add += 1); Counted(self.0 - o.0) }
    #[inline] fn mul_(self, o: Self) -> Self { tick(|c| c.mul += 1); Counted(self.0 * o.0) }
    fn div_(self, o: Self) -> Self { tick(|c| c.other += 1); Counted(self.0 / o.0) }
    #[inline] fn neg_(self) -> Self { tick(|c| c.other += 1); Counted(-self.0) }
    #[inline] fn konst(x: f64) -> Self { tick(|c| c.konst += 1); Counted(x) }
    fn lead(self) -> f64 { self.0 }
}
numtype!(Counted);

/// components: how many independent signals one value carries
pub trait Multi: rustdct::DctNum {
    const L: usize;
    const EPS: f64;
    const NAME: &'static str;
    /// component l of a data value
    fn put(c: &[f64]) -> Self;
    fn comp(&self, l: usize) -> f64;
}
macro_rules! multi_scalar {
    ($t:ident, $f:ident) => {
        impl Multi for $t {
            const L: usize = 1;
            const EPS: f64 = $f::EPSILON as f64;
            const NAME: &'static str = stringify!($t);
            fn put(c: &[f64]) -> Self { $t(c[0] as $f) }
            fn comp(&self, _: usize) -> f64 { self.0 as f64 }
        }
    };
}
multi_scalar!(Aligned32, f32);
multi_scalar!(Aligned64, f64);
multi_scalar!(Plain32, f32);
multi_scalar!(Plain64, f64);
macro_rules! multi_lanes {
    ($t:ident, $f:ident, $l:expr) => {
        impl Multi for $t {
            const L: usize = $l;
            const EPS: f64 = $f::EPSILON as f64;
            const NAME: &'static str = stringify!($t);
            fn put(c: &[f64]) -> Self {
                let mut r = [0.0; $l];
                for i in 0..$l { r[i] = c[i] as $f }
                $t(r)
            }
            fn comp(&self, l: usize) -> f64 { self.0[l] as f64 }
        }
    };
}
multi_lanes!(Lanes17, f32, 17);
multi_lanes!(Lanes2, f32, 2);
multi_lanes!(Pair64, f64, 2);
macro_rules! multi_scrambled {
    ($t:ident, $f:ident) => {
        impl Multi for $t {
            const L: usize = 1;
            const EPS: f64 = $f::EPSILON as f64;
            const NAME: &'static str = stringify!($t);
            fn put(c: &[f64]) -> Self { $t::new(c[0] as $f) }
            fn comp(&self, _: usize) -> f64 { self.get() as f64 }
        }
    };
}
multi_scrambled!(Scrambled32, f32);
multi_scrambled!(Scrambled64, f64);
impl Multi for DualV {
    const L: usize = 2;
    const EPS: f64 = f64::EPSILON;
    const NAME: &'static str = "DualV";
    fn put(c: &[f64]) -> Self { DualV { v: c[0], d: c[1] } }
    fn comp(&self, l: usize) -> f64 { if l == 0 { self.v } else { self.d } }
}
impl Multi for Dual {
    const L: usize = 2;
    const EPS: f64 = f64::EPSILON;
    const NAME: &'static str = "Dual";
    fn put(c: &[f64]) -> Self { Dual { v: c[0], d: c[1] } }
    fn comp(&self, l: usize) -> f64 { if l == 0 { self.v } else { self.d } }
}

// ---- hooked numbers: something happens in the middle of a transform ---------------------------------------------------
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Hook {
    Off,
    /// only count operations
    Count,
    /// panic at operation `at`
    Panic { at: u64 },
    /// the same, conversions from primitive numbers and constants included (planning does mostly those)
    CountAll,
    PanicAll { at: u64 },
    /// run the registered action at operation `at`
    Nest { at: u64 },
    /// give way to other threads now and then; record who ran
    Yield { seed: u64 },
}
/// who ran when, among the threads of one case (relaxed: it must not order anything)
#[derive(Default)]
pub struct Trace {
    pub last: std::sync::atomic::AtomicU32,
    pub switches: std::sync::atomic::AtomicU64,
    pub ops: std::sync::atomic::AtomicU64,
    pub signature: std::sync::atomic::AtomicU64,
}
pub struct HookState {
    pub hook: Hook,
    pub count: u64,
    pub me: u32,
    pub trace: Option<std::sync::Arc<Trace>>,
    pub action: Option<Box<dyn FnMut()>>,
}
thread_local! {
    static HOOK: std::cell::RefCell<HookState> = const { std::cell::RefCell::new(HookState { hook: Hook::Off, count: 0, me: 0, trace: None, action: None }) };
}
/// operations seen since set_hook
pub fn hook_count() -> u64 { HOOK.with(|h| h.borrow().count) }
pub fn set_hook(hook: Hook) {
    HOOK.with(|h| {
        let mut h = h.borrow_mut();
        h.hook = hook;
        h.count = 0;
    })
}
pub fn set_action(f: Option<Box<dyn FnMut()>>) { HOOK.with(|h| h.borrow_mut().action = f) }
pub fn set_trace(me: u32, t: Option<std::sync::Arc<Trace>>) {
    HOOK.with(|h| {
        let mut h = h.borrow_mut();
        h.me = me;
        h.trace = t;
    })
}
fn hooked_konst() {
    if HOOK.with(|h| matches!(h.borrow().hook, Hook::CountAll | Hook::PanicAll { .. })) {
        hooked()
    }
}
fn hooked() {
    use std::sync::atomic::Ordering::Relaxed;
    enum Do { Nothing, Panic, Nest(Option<Box<dyn FnMut()>>), Yield }
    let what = HOOK.with(|h| {
        let mut h = h.borrow_mut();
        if h.hook == Hook::Off {
            return Do::Nothing;
        }
        let c = h.count;
        h.count += 1;
        match h.hook {
            Hook::Panic { at } | Hook::PanicAll { at } if at == c => {
                h.hook = Hook::Off;
                Do::Panic
            }
            Hook::Nest { at } if at == c => {
                h.hook = Hook::Off;
                Do::Nest(h.action.take())
            }
            Hook::Yield { seed } => {
                if let Some(t) = &h.trace {
                    t.ops.fetch_add(1, Relaxed);
                    if t.last.swap(h.me, Relaxed) != h.me {
                        t.switches.fetch_add(1, Relaxed);
                        let s = t.signature.load(Relaxed);
                        t.signature.store((s ^ (h.me as u64 + c)).wrapping_mul(0x100000001b3).rotate_left(23), Relaxed);
                    }
                }
                if crate::rng::mix(seed ^ c) % 11 == 0 { Do::Yield } else { Do::Nothing }
            }
            _ => Do::Nothing,
        }
    });
    match what {
        Do::Nothing => {}
        Do::Panic => panic!("injected panic inside a numeric operation"),
        Do::Yield => std::thread::yield_now(),
        Do::Nest(mut f) => {
            if let Some(f) = f.as_mut() {
                f()
            }
            set_action(f);
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Hooked(pub f64);
impl Arith for Hooked {
    fn add_(self, o: Self) -> Self { hooked(); Hooked(self.0 + o.0) }
    fn sub_(self, o: Self) -> Self { hooked(); Hooked(self.0 - o.0) }
    fn mul_(self, o: Self) -> Self { hooked(); Hooked(self.0 * o.0) }
    fn div_(self, o: Self) -> Self { hooked(); Hooked(self.0 / o.0) }
    fn neg_(self) -> Self { hooked(); Hooked(-self.0) }
    fn konst(x: f64) -> Self { hooked_konst(); Hooked(x) }
    fn lead(self) -> f64 { self.0 }
}
numtype!(Hooked);

// ---- a number without any size ----------------------------------------------------------------------------------------
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Unit;
impl Arith for Unit {
    fn add_(self, _: Self) -> Self { Unit }
    fn sub_(self, _: Self) -> Self { Unit }
    fn mul_(self, _: Self) -> Self { Unit }
    fn div_(self, _: Self) -> Self { Unit }
    fn neg_(self) -> Self { Unit }
    fn konst(_: f64) -> Self { Unit }
    fn lead(self) -> f64 { 0.0 }
}
numtype!(Unit);
