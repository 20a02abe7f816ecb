//! Case scheduling, panic capture, crash slots, observation counters and the result file.
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fmt;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Case(pub Vec<(String, String)>);

impl Case {
    pub fn new() -> Case {
        Case(vec![])
    }
    pub fn with(mut self, k: &str, v: impl fmt::Display) -> Case {
        self.0.push((k.to_string(), v.to_string()));
        self
    }
    pub fn parse(s: &str) -> Case {
        Case(
            s.split_whitespace()
                .map(|p| {
                    let (k, v) = p.split_once('=').unwrap_or_else(|| panic!("HARNESS: bad case token {p}"));
                    (k.to_string(), v.to_string())
                })
                .collect(),
        )
    }
    pub fn opt(&self, k: &str) -> Option<&str> {
        self.0.iter().find(|x| x.0 == k).map(|x| x.1.as_str())
    }
    pub fn s(&self, k: &str) -> &str {
        self.opt(k).unwrap_or_else(|| panic!("HARNESS: case lacks {k}: {self}"))
    }
    pub fn u(&self, k: &str) -> usize {
        self.s(k).parse().unwrap_or_else(|_| panic!("HARNESS: case {k} not a number: {self}"))
    }
    pub fn seed(&self) -> u64 {
        self.opt("s").map(|x| x.parse().expect("HARNESS: seed")).unwrap_or(0)
    }
    pub fn hash(&self) -> u64 {
        crate::rng::hash_str(&self.to_string())
    }
}
impl fmt::Display for Case {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        for (i, (k, v)) in self.0.iter().enumerate() {
            if i > 0 {
                write!(f, " ")?;
            }
            write!(f, "{k}={v}")?;
        }
        Ok(())
    }
}

/// What the monitors saw.
#[derive(Default)]
pub struct Obs {
    pub evals: u64,
    pub nontrivial: HashSet<u64>,
    pub counts: BTreeMap<String, u64>,
    pub sets: BTreeMap<String, BTreeSet<String>>,
    pub maxes: BTreeMap<String, (f64, String)>,
    pub notes: Vec<String>,
}
impl Obs {
    pub fn count(&mut self, k: &str, by: u64) {
        if let Some(c) = self.counts.get_mut(k) {
            *c += by
        } else {
            self.counts.insert(k.to_string(), by);
        }
    }
    pub fn set(&mut self, k: &str, v: impl fmt::Display) {
        let s = self.sets.entry(k.to_string()).or_default();
        if s.len() < 200_000 {
            s.insert(v.to_string());
        }
    }
    pub fn max(&mut self, k: &str, v: f64, what: impl FnOnce() -> String) {
        match self.maxes.get_mut(k) {
            Some(m) => {
                if v > m.0 {
                    *m = (v, what())
                }
            }
            None => {
                self.maxes.insert(k.to_string(), (v, what()));
            }
        }
    }
    /// one decided evaluation; `key` identifies it, `nontrivial` by the property's rule
    pub fn eval(&mut self, key: u64, nontrivial: bool) {
        self.evals += 1;
        if nontrivial {
            self.nontrivial.insert(key);
        }
    }
    fn merge(&mut self, o: Obs) {
        self.evals += o.evals;
        self.nontrivial.extend(o.nontrivial);
        for (k, v) in o.counts {
            *self.counts.entry(k).or_default() += v
        }
        for (k, v) in o.sets {
            self.sets.entry(k).or_default().extend(v)
        }
        for (k, v) in o.maxes {
            self.max(&k, v.0, || v.1)
        }
        if self.notes.len() < 200 {
            self.notes.extend(o.notes)
        }
    }
}

pub type Res = Result<(), String>;
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    /// the complete case list for this tier and seed
    pub cases: fn(Tier, u64) -> Vec<Case>,
    pub exec: fn(&Case, &mut Obs) -> Res,
    /// worker threads (0 = all cores)
    pub threads: usize,
    /// (counter or set name, minimum) — below it the run decided nothing
    pub minima: &'static [(&'static str, u64)],
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    pub fn q(self, quick: usize, thorough: usize) -> usize {
        if self == Tier::Quick { quick } else { thorough }
    }
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let at = i.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = format!("{msg}{at}"));
    }));
}
/// forget the last message (it lives on the heap)
pub fn clear_last_panic() {
    LAST_PANIC.with(|p| *p.borrow_mut() = String::new())
}
pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}
/// Run code of the library that may panic.
pub fn caught<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| last_panic())
}

static HEAVY: Mutex<f64> = Mutex::new(0.0);
static LIGHTER: std::sync::Condvar = std::sync::Condvar::new();
/// Run a case that will hold about `gb` gigabytes once that many of the 14 are free.
pub fn heavy<R>(gb: f64, f: impl FnOnce() -> R) -> R {
    struct Back(f64);
    impl Drop for Back {
        fn drop(&mut self) {
            *HEAVY.lock().unwrap_or_else(|e| e.into_inner()) -= self.0;
            LIGHTER.notify_all();
        }
    }
    let mut used = HEAVY.lock().unwrap_or_else(|e| e.into_inner());
    while *used > 0.0 && *used + gb > 14.0 {
        used = LIGHTER.wait(used).unwrap_or_else(|e| e.into_inner());
    }
    *used += gb;
    drop(used);
    let _back = Back(gb);
    f()
}

enum Outcome {
    Ok,
    Violation(String),
    Harness(String),
}
fn exec_one(p: &Prop, c: &Case, obs: &mut Obs) -> Outcome {
    match caught(|| (p.exec)(c, obs)) {
        Ok(Ok(())) => Outcome::Ok,
        Ok(Err(m)) if m.starts_with("HARNESS") => Outcome::Harness(m),
        Ok(Err(m)) => Outcome::Violation(m),
        Err(m) if m.contains("HARNESS") => Outcome::Harness(m),
        Err(m) => Outcome::Violation(format!("unexpected panic: {m}")),
    }
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub const SLOT: usize = 1024;

/// a case that makes no progress for this many seconds (0 = off) is reported as stuck: every case is finite and takes seconds
pub static WATCHDOG: AtomicU64 = AtomicU64::new(270);

/// `noop` and `miri` command lines: the given cases one after another, narrated on stdout
pub fn main_miri(p: Prop, miri_cases: fn(Tier, u64) -> Vec<Case>) -> ! {
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("noop") => std::process::exit(0),
        Some("miri") => {}
        _ => main(p),
    }
    quiet_panics();
    let tier = if arg(&args, "--tier").as_deref() == Some("thorough") { Tier::Thorough } else { Tier::Quick };
    let num = |k: &str, d: usize| arg(&args, k).map(|s| s.parse().unwrap()).unwrap_or(d);
    let (shard, shards) = (num("--shard", 0), num("--shards", 1));
    let budget = num("--budget", 1_000_000) as f64;
    let t0 = Instant::now();
    let mut obs = Obs::default();
    for (i, c) in miri_cases(tier, num("--seed", 1) as u64).iter().enumerate() {
        if i % shards != shard {
            continue;
        }
        if t0.elapsed().as_secs_f64() > budget {
            obs.count("cases_left_out_for_time", 1);
            continue;
        }
        obs.count("cases", 1);
        println!("CASE {c}");
        match exec_one(&p, c, &mut obs) {
            Outcome::Ok => {}
            Outcome::Violation(m) => {
                println!("VIOLATED on {c}\n  {m}");
                std::process::exit(1)
            }
            Outcome::Harness(m) => {
                println!("{m} [{c}]");
                std::process::exit(3)
            }
        }
    }
    for (k, v) in &obs.counts {
        println!("COUNT {k}={v}");
    }
    for (k, v) in &obs.sets {
        println!("COUNT distinct.{k}={}", v.len());
    }
    println!("DONE evaluations={} distinct={}", obs.evals, obs.nontrivial.len());
    std::process::exit(0)
}

fn arg(args: &[String], k: &str) -> Option<String> {
    args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned())
}

pub fn main(p: Prop) -> ! {
    let args: Vec<String> = std::env::args().collect();
    quiet_panics();
    crate::alloc::fill_fresh_memory();
    if args.get(1).map(|s| s.as_str()) == Some("replay") {
        let c = Case::parse(&args[2..].join(" "));
        let mut obs = Obs::default();
        match exec_one(&p, &c, &mut obs) {
            Outcome::Ok => {
                println!("held: {} evaluations on {c}", obs.evals);
                std::process::exit(0)
            }
            Outcome::Violation(m) => {
                println!("VIOLATED on {c}\n  {m}");
                std::process::exit(1)
            }
            Outcome::Harness(m) => {
                println!("{m}");
                std::process::exit(3)
            }
        }
    }
    let tier = if arg(&args, "--tier").as_deref() == Some("thorough") { Tier::Thorough } else { Tier::Quick };
    let seed: u64 = arg(&args, "--seed").map(|s| s.parse().unwrap()).unwrap_or(1);
    let out = arg(&args, "--out");
    let cap: f64 = arg(&args, "--cap").map(|s| s.parse().unwrap()).unwrap_or(600.0);
    let slots = arg(&args, "--slots").map(|f| {
        std::fs::OpenOptions::new().write(true).create(true).truncate(true).open(f).expect("HARNESS: slots")
    });
    let t0 = Instant::now();
    let cases = (p.cases)(tier, seed);
    let threads = if p.threads == 0 {
        std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(16)
    } else {
        p.threads
    };
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let viol: Mutex<Vec<(String, String)>> = Mutex::new(vec![]);
    let harness: Mutex<Option<String>> = Mutex::new(None);
    let total = Mutex::new(Obs::default());
    let executed = AtomicUsize::new(0);
    let started: Vec<Mutex<Option<(Instant, usize)>>> = (0..threads).map(|_| Mutex::new(None)).collect();
    let live = AtomicUsize::new(threads);
    let first_viol: Mutex<Option<Instant>> = Mutex::new(None);
    std::thread::scope(|s| {
        {
            // ends the run when a case makes no progress, and soon after a violation was found (what is broken may also be slow)
            let (started, live, cases, out, p, viol, first_viol, stop) = (&started, &live, &cases, &out, &p, &viol, &first_viol, &stop);
            s.spawn(move || {
                let limit = WATCHDOG.load(Ordering::Relaxed) as f64 * if tier == Tier::Thorough { 6.0 } else { 1.0 };
                let end = |found: &[(String, String)]| -> ! {
                    let v: Vec<String> = found.iter().map(|(c, m)| format!("{{\"case\": {}, \"message\": {}}}", js(c), js(m))).collect();
                    let o = format!(
                        "{{\"cases_planned\": {}, \"cases_executed\": 0, \"evaluations\": 0, \"distinct_nontrivial\": 0, \"counts\": {{}}, \"distinct\": {{}}, \"maxima\": {{}}, \"threads\": {threads}, \"wall_s\": {:.2}, \"rule\": {}, \"samples\": [], \"harness_error\": null, \"missing\": [], \"violations\": [{}]}}\n",
                        cases.len(), t0.elapsed().as_secs_f64(), js(p.rule), v.join(", "));
                    match out {
                        Some(f) => std::fs::write(f, o).expect("HARNESS: out"),
                        None => print!("{o}"),
                    }
                    std::process::exit(1);
                };
                while live.load(Ordering::Relaxed) > 0 {
                    std::thread::sleep(std::time::Duration::from_millis(100));
                    if let Some(t) = *first_viol.lock().unwrap() {
                        if t.elapsed().as_secs_f64() > 10.0 {
                            stop.store(true, Ordering::Relaxed);
                        }
                        if t.elapsed().as_secs_f64() > 25.0 {
                            let v = viol.lock().unwrap().clone();
                            end(&v);
                        }
                    }
                    for w in started {
                        let Some((t, i)) = *w.lock().unwrap() else { continue };
                        if limit > 0.0 && t.elapsed().as_secs_f64() > limit {
                            let mut v = viol.lock().unwrap().clone();
                            v.push((cases[i].to_string(), format!("no progress for {limit} s: the calls block each other or never end")));
                            end(&v);
                        }
                    }
                }
            });
        }
        for tid in 0..threads {
            let (started, live) = (&started, &live);
            let (cases, next, stop, viol, harness, total, executed, slots, p, first_viol) =
                (&cases, &next, &stop, &viol, &harness, &total, &executed, &slots, &p, &first_viol);
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(s, move || {
                    let mut obs = Obs::default();
                    loop {
                        if stop.load(Ordering::Relaxed) || t0.elapsed().as_secs_f64() > cap {
                            break;
                        }
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= cases.len() {
                            break;
                        }
                        let c = &cases[i];
                        if let Some(f) = slots {
                            let mut b = c.to_string().into_bytes();
                            b.resize(SLOT, b'\n');
                            let _ = f.write_at(&b, (tid * SLOT) as u64);
                        }
                        *started[tid].lock().unwrap() = Some((Instant::now(), i));
                        let outcome = exec_one(p, c, &mut obs);
                        *started[tid].lock().unwrap() = None;
                        match outcome {
                            Outcome::Ok => {}
                            Outcome::Violation(m) => {
                                let mut v = viol.lock().unwrap();
                                v.push((c.to_string(), m));
                                first_viol.lock().unwrap().get_or_insert_with(Instant::now);
                                if v.len() >= 8 {
                                    stop.store(true, Ordering::Relaxed)
                                }
                            }
                            Outcome::Harness(m) => {
                                *harness.lock().unwrap() = Some(format!("{m} [{c}]"));
                                stop.store(true, Ordering::Relaxed)
                            }
                        }
                        executed.fetch_add(1, Ordering::Relaxed);
                        if let Some(f) = slots {
                            let _ = f.write_at(&[b'\n'; SLOT], (tid * SLOT) as u64);
                        }
                    }
                    total.lock().unwrap().merge(obs);
                    live.fetch_sub(1, Ordering::Relaxed);
                })
                .expect("HARNESS: spawn");
        }
    });
    let obs = total.into_inner().unwrap();
    let viol = viol.into_inner().unwrap();
    let harness = harness.into_inner().unwrap();
    let ex = executed.load(Ordering::Relaxed);
    let mut missing = vec![];
    for (k, min) in p.minima {
        let have = if *k == "evaluations" {
            obs.evals
        } else {
            obs.counts.get(*k).copied().or_else(|| obs.sets.get(*k).map(|s| s.len() as u64)).unwrap_or(0)
        };
        if have < *min {
            missing.push(format!("{k}: {have} < {min}"));
        }
    }
    // result file
    let mut o = String::from("{\n");
    o.push_str(&format!("\"cases_planned\": {}, \"cases_executed\": {}, \"evaluations\": {}, \"distinct_nontrivial\": {},\n", cases.len(), ex, obs.evals, obs.nontrivial.len()));
    o.push_str(&format!("\"rule\": {},\n\"threads\": {},\n", js(p.rule), threads));
    o.push_str("\"counts\": {");
    o.push_str(&obs.counts.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", "));
    o.push_str("},\n\"distinct\": {");
    o.push_str(&obs.sets.iter().map(|(k, v)| format!("{}: {}", js(k), v.len())).collect::<Vec<_>>().join(", "));
    o.push_str("},\n\"maxima\": {");
    o.push_str(
        &obs.maxes
            .iter()
            .map(|(k, v)| format!("{}: {{\"value\": {}, \"at\": {}}}", js(k), if v.0.is_finite() { format!("{:.6e}", v.0) } else { "null".into() }, js(&v.1)))
            .collect::<Vec<_>>()
            .join(", "),
    );
    o.push_str("},\n\"samples\": [");
    let mut r = crate::rng::Rng::new(seed ^ 0x5a);
    let mut sam: Vec<String> = (0..5.min(cases.len())).map(|_| js(&cases[r.below(ex.max(1).min(cases.len()))].to_string())).collect();
    sam.extend(obs.notes.iter().take(10).map(|n| js(n)));
    o.push_str(&sam.join(",\n  "));
    o.push_str("],\n\"violations\": [");
    o.push_str(&viol.iter().map(|(c, m)| format!("{{\"case\": {}, \"message\": {}}}", js(c), js(m))).collect::<Vec<_>>().join(",\n  "));
    o.push_str("],\n\"missing\": [");
    o.push_str(&missing.iter().map(|m| js(m)).collect::<Vec<_>>().join(", "));
    o.push_str(&format!("],\n\"harness_error\": {},\n\"wall_s\": {:.2}\n}}\n", harness.as_ref().map(|h| js(h)).unwrap_or("null".into()), t0.elapsed().as_secs_f64()));
    if let Some(f) = out {
        let mut f = std::fs::File::create(f).expect("HARNESS: out");
        f.write_all(o.as_bytes()).unwrap();
    } else {
        print!("{o}");
    }
    std::process::exit(if !viol.is_empty() {
        1
    } else if harness.is_some() || !missing.is_empty() {
        3
    } else {
        0
    })
}

/// Dispatch on the element type named in the case.
#[macro_export]
macro_rules! by_t {
    ($t:expr, $T:ident => $e:expr) => {
        match $t {
            "f32" => { type $T = f32; $e }
            "f64" => { type $T = f64; $e }
            o => panic!("HARNESS: type {o}"),
        }
    };
}
