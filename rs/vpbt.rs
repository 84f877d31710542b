// A small property-based testing engine over choice tapes.
//
// A case is a pure function of a tape of bounded choices. While generating, the
// choices come from a PRNG seeded with (VP_SEED, property name, case index) and are
// recorded; a failing case is shrunk by editing the recorded tape (deleting blocks,
// zeroing and halving choices) and re-running; the shrunk tape is the replay file.
#![allow(dead_code)]
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex, OnceLock};
use std::time::{Duration, Instant};

pub type Res = Result<(), String>;

pub struct Tape {
    pub data: Vec<u64>,
    pos: usize,
    state: Option<u64>,
}

fn splitmix(state: &mut u64) -> u64 {
    *state = state.wrapping_add(0x9e3779b97f4a7c15);
    let mut z = *state;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

impl Tape {
    pub fn random(seed: u64) -> Self {
        Tape { data: vec![], pos: 0, state: Some(seed) }
    }
    pub fn replay(data: Vec<u64>) -> Self {
        Tape { data, pos: 0, state: None }
    }
    /// A choice in 0..n. Zero is the simplest choice.
    pub fn draw(&mut self, n: u64) -> u64 {
        assert!(n > 0);
        let v = match self.state {
            Some(ref mut s) => {
                let v = splitmix(s) % n;
                self.data.push(v);
                v
            }
            None => {
                let v = if self.pos < self.data.len() { self.data[self.pos] } else { 0 };
                v.min(n - 1)
            }
        };
        self.pos += 1;
        v
    }
    pub fn used(&self) -> usize {
        self.pos
    }
    pub fn below(&mut self, n: usize) -> usize {
        self.draw(n as u64) as usize
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.draw((hi - lo + 1) as u64) as i64
    }
    pub fn bool(&mut self) -> bool {
        self.draw(2) == 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len());
        &xs[i]
    }
    /// Any f64, weighted towards simple numbers; shrinks towards 0.
    pub fn f64(&mut self) -> f64 {
        match self.draw(8) {
            0 => self.draw(20) as f64,
            1 => self.range(-1000, 1000) as f64 * 0.125,
            2 => self.range(-1_000_000, 1_000_000) as f64 * 0.001,
            3 => {
                let s = [
                    0.0, -0.0, 1.0, -1.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::MIN_POSITIVE, -f64::MIN_POSITIVE,
                    f64::MAX, f64::MIN, f64::EPSILON, 5e-324, -5e-324, 1e300, -1e300, 1e-300, f32::MAX as f64, 1e-40, 0.5, 2.0, 3.0,
                    f64::MIN_POSITIVE / 2.0, 1.0 + f64::EPSILON, 9007199254740993.0, 0.1,
                ];
                *self.pick(&s)
            }
            4 => f64::from_bits(self.draw(u64::MAX)),
            5 => {
                let m = 1.0 + self.draw(1 << 52) as f64 / (1u64 << 52) as f64;
                let e = self.range(-60, 60) as i32;
                let s = if self.bool() { -1.0 } else { 1.0 };
                s * m * 2f64.powi(e)
            }
            6 => {
                let e = self.range(-320, 308);
                let m = self.range(1, 9999);
                format!("{}{}e{}", if self.bool() { "-" } else { "" }, m, e - 3).parse().unwrap()
            }
            _ => self.range(-9, 9) as f64,
        }
    }
    pub fn f32(&mut self) -> f32 {
        match self.draw(7) {
            0 => self.draw(20) as f32,
            1 => self.range(-1000, 1000) as f32 * 0.125,
            2 => self.range(-1_000_000, 1_000_000) as f32 * 0.001,
            3 => {
                let s = [
                    0.0, -0.0, 1.0, -1.0, f32::INFINITY, f32::NEG_INFINITY, f32::NAN, f32::MIN_POSITIVE, -f32::MIN_POSITIVE,
                    f32::MAX, f32::MIN, f32::EPSILON, 1e-45, -1e-45, 1e30, -1e30, 1e-30, 0.5, 2.0, 3.0, 16777217.0, 0.1,
                    1.0 + f32::EPSILON,
                ];
                *self.pick(&s)
            }
            4 => f32::from_bits(self.draw(1 << 32) as u32),
            5 => {
                let m = 1.0 + self.draw(1 << 23) as f32 / (1u64 << 23) as f32;
                let e = self.range(-40, 40) as i32;
                let s = if self.bool() { -1.0 } else { 1.0 };
                s * m * 2f32.powi(e)
            }
            _ => self.range(-9, 9) as f32,
        }
    }
}

#[derive(Default)]
pub struct Ctx {
    pub desc: String,
    pub nontrivial: bool,
    pub class: &'static str,
}

impl Ctx {
    pub fn note(&mut self, s: impl AsRef<str>) {
        if !self.desc.is_empty() {
            self.desc.push_str("; ");
        }
        self.desc.push_str(s.as_ref());
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn class(&mut self, c: &'static str) {
        self.class = c;
    }
}

pub type Case = fn(&mut Tape, &mut Ctx) -> Res;

pub struct Prop {
    pub name: &'static str,
    /// Relative share of the cases
    pub weight: u64,
    pub run: Case,
}

/// A case that runs for longer than this does not finish. (Ordinary ones take well below a millisecond.)
const CASE_SECONDS: u64 = 40;
/// When the current case started, in milliseconds since START; 0 if none is running.
static STARTED: AtomicU64 = AtomicU64::new(0);
static START: OnceLock<Instant> = OnceLock::new();

/// Ends the process with what report says once a case runs for too long.
fn watch(report: impl Fn() -> String + Send + 'static) {
    let start = *START.get_or_init(Instant::now);
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        let started = STARTED.load(Ordering::Relaxed);
        if started != 0 && start.elapsed().as_millis() as u64 > started + CASE_SECONDS * 1000 {
            println!("{}", report());
            std::process::exit(0);
        }
    });
}

fn run_case(case: Case, tape: &mut Tape) -> (Ctx, Res) {
    if let Some(start) = START.get() {
        STARTED.store(start.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
    }
    let r = run_case_unwatched(case, tape);
    STARTED.store(0, Ordering::Relaxed);
    r
}

fn run_case_unwatched(case: Case, tape: &mut Tape) -> (Ctx, Res) {
    let mut ctx = Ctx::default();
    let r = catch_unwind(AssertUnwindSafe(|| case(tape, &mut ctx)));
    match r {
        Ok(r) => (ctx, r),
        Err(e) => {
            let msg = if let Some(s) = e.downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = e.downcast_ref::<String>() {
                s.clone()
            } else {
                "panic".to_string()
            };
            (ctx, Err(format!("panic: {msg}")))
        }
    }
}

fn shrink(case: Case, mut best: Vec<u64>) -> Vec<u64> {
    let mut budget = 4000;
    let mut fails = |data: &Vec<u64>, budget: &mut i32| -> bool {
        *budget -= 1;
        if *budget < 0 {
            return false;
        }
        let mut t = Tape::replay(data.clone());
        run_case(case, &mut t).1.is_err()
    };
    let mut improved = true;
    while improved && budget > 0 {
        improved = false;
        let mut block = best.len().max(1);
        while block >= 1 {
            let mut i = 0;
            while i < best.len() {
                let mut cand = best.clone();
                let end = (i + block).min(cand.len());
                cand.drain(i..end);
                if fails(&cand, &mut budget) {
                    best = cand;
                    improved = true;
                } else {
                    i += block;
                }
            }
            block /= 2;
        }
        for i in 0..best.len() {
            if best[i] == 0 {
                continue;
            }
            let mut cand = best.clone();
            cand[i] = 0;
            if fails(&cand, &mut budget) {
                best = cand;
                improved = true;
                continue;
            }
            let mut lo = 0;
            let mut hi = best[i];
            while hi - lo > 1 {
                let mid = lo + (hi - lo) / 2;
                let mut cand = best.clone();
                cand[i] = mid;
                if fails(&cand, &mut budget) {
                    hi = mid;
                    best = cand;
                    improved = true;
                } else {
                    lo = mid;
                }
            }
        }
    }
    while best.last() == Some(&0) {
        best.pop();
    }
    best
}

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || c as u32 == 127 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn main(props: Vec<Prop>) {
    std::panic::set_hook(Box::new(|_| {}));
    let env = |k: &str| std::env::var(k).ok();
    if let Some(name) = env("VP_REPLAY") {
        let text = env("VP_TAPE").unwrap_or_default();
        let p = props.iter().find(|p| p.name == name).expect("no such property");
        let mut t = match text.strip_prefix("seed:") {
            // (a case that ended the process, which cannot be shrunk in it)
            Some(seed) => Tape::random(seed.parse().unwrap()),
            None => Tape::replay(text.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()),
        };
        watch(|| format!("VP_REPLAY_RESULT fail does not finish within {CASE_SECONDS} s"));
        let (ctx, r) = run_case(p.run, &mut t);
        println!("case: {} [{}] {}", p.name, ctx.class, ctx.desc);
        match r {
            Ok(()) => println!("VP_REPLAY_RESULT pass"),
            Err(e) => println!("VP_REPLAY_RESULT fail {e}"),
        }
        return;
    }
    let seed: u64 = env("VP_SEED").and_then(|x| x.parse().ok()).unwrap_or(1);
    let cases: u64 = env("VP_CASES").and_then(|x| x.parse().ok()).unwrap_or(1000);
    let trace = env("VP_TRACE").is_some();
    let total_weight: u64 = props.iter().map(|p| p.weight).sum();
    let mut evaluations = 0u64;
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut classes: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = vec![];
    let mut failures: Vec<String> = vec![];
    // What to report if the current case never finishes: the failures so far and the case, or the
    // failure that is being shrunk
    let current: Arc<Mutex<(Vec<String>, &'static str, u64, Option<String>, u64)>> = Arc::new(Mutex::new((vec![], "", 0, None, 0)));
    let shared = current.clone();
    watch(move || {
        let c = shared.lock().unwrap();
        let mut failures = c.0.clone();
        failures.push(match &c.3 {
            Some(message) => format!("{{\"prop\":{},\"tape\":\"seed:{}\",\"desc\":\"(not shrunk)\",\"message\":{}}}", esc(c.1), c.2, esc(message)),
            None => format!("{{\"prop\":{},\"tape\":\"seed:{}\",\"desc\":\"(not shrunk)\",\"message\":\"does not finish within {CASE_SECONDS} s\"}}", esc(c.1), c.2),
        });
        format!("VP_SUMMARY {{\"evaluations\":{},\"distinct_nontrivial\":0,\"classes\":{{}},\"samples\":[],\"failures\":[{}]}}", c.4, failures.join(","))
    });
    for p in props.iter() {
        let n = (cases * p.weight).div_ceil(total_weight);
        for i in 0..n {
            let mut s = seed ^ hash_str(p.name).rotate_left(17) ^ i.wrapping_mul(0x2545f4914f6cdd1d);
            let s = splitmix(&mut s);
            if trace {
                eprintln!("VP_AT {} {s}", p.name);
            }
            let mut tape = Tape::random(s);
            {
                let mut c = current.lock().unwrap();
                (c.1, c.2, c.3, c.4) = (p.name, s, None, evaluations);
            }
            let (ctx, r) = run_case(p.run, &mut tape);
            evaluations += 1;
            *classes.entry(format!("{}{}{}", p.name, if ctx.class.is_empty() { "" } else { "/" }, ctx.class)).or_insert(0) += 1;
            if ctx.nontrivial {
                distinct.insert(hash_str(&format!("{}:{}", p.name, ctx.desc)));
                if (i == n / 2 || i == n - 1) && samples.len() < 40 {
                    samples.push(format!("{}: {}", p.name, ctx.desc));
                }
            }
            if let Err(e) = &r {
                current.lock().unwrap().3 = Some(e.clone());
                let best = shrink(p.run, tape.data.clone());
                let mut t = Tape::replay(best.clone());
                let (ctx, r) = run_case(p.run, &mut t);
                let (best, ctx, r) = if r.is_err() {
                    (best, ctx, r)
                } else {
                    let mut t = Tape::replay(tape.data.clone());
                    let (ctx, r) = run_case(p.run, &mut t);
                    (tape.data.clone(), ctx, r)
                };
                let msg = match r {
                    Err(e) => e,
                    Ok(()) => "NOT REPRODUCIBLE".to_string(),
                };
                let tape = best.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
                failures.push(format!(
                    "{{\"prop\":{},\"tape\":{},\"desc\":{},\"message\":{}}}",
                    esc(p.name), esc(&tape), esc(&ctx.desc), esc(&msg)
                ));
                current.lock().unwrap().0 = failures.clone();
                break;
            }
        }
    }
    let cl: Vec<String> = classes.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
    let sm: Vec<String> = samples.iter().map(|s| esc(s)).collect();
    println!(
        "VP_SUMMARY {{\"evaluations\":{},\"distinct_nontrivial\":{},\"classes\":{{{}}},\"samples\":[{}],\"failures\":[{}]}}",
        evaluations, distinct.len(), cl.join(","), sm.join(","), failures.join(",")
    );
}

// ---- comparing floats: bit equality, except that any NaN equals any NaN

pub trait Same {
    fn same(&self, other: &Self) -> bool;
    fn show(&self) -> String;
}
impl Same for f64 {
    fn same(&self, o: &f64) -> bool {
        self.to_bits() == o.to_bits() || (self.is_nan() && o.is_nan())
    }
    fn show(&self) -> String {
        format!("{:?}", self)
    }
}
impl Same for f32 {
    fn same(&self, o: &f32) -> bool {
        self.to_bits() == o.to_bits() || (self.is_nan() && o.is_nan())
    }
    fn show(&self) -> String {
        format!("{:?}", self)
    }
}
impl Same for bool {
    fn same(&self, o: &bool) -> bool {
        self == o
    }
    fn show(&self) -> String {
        format!("{self}")
    }
}
impl Same for Option<std::cmp::Ordering> {
    fn same(&self, o: &Self) -> bool {
        self == o
    }
    fn show(&self) -> String {
        format!("{self:?}")
    }
}
impl<T: Same> Same for Vec<T> {
    fn same(&self, o: &Self) -> bool {
        self.len() == o.len() && self.iter().zip(o.iter()).all(|(a, b)| a.same(b))
    }
    fn show(&self) -> String {
        format!("[{}]", self.iter().map(|x| x.show()).collect::<Vec<_>>().join(" "))
    }
}

pub fn expect_same<T: Same>(what: &str, got: T, want: T) -> Res {
    if got.same(&want) {
        Ok(())
    } else {
        Err(format!("{what}: got {} want {}", got.show(), want.show()))
    }
}

/// Storage types the harness generates values for
pub trait Storage: Same + Copy + Clone + Default + std::fmt::Debug + std::fmt::Display + 'static {
    const NAME: &'static str;
    fn gen(t: &mut Tape) -> Self;
    fn scaled_one() -> Self;
}
impl Storage for f64 {
    const NAME: &'static str = "f64";
    fn gen(t: &mut Tape) -> Self {
        t.f64()
    }
    fn scaled_one() -> Self {
        1.0
    }
}
impl Storage for f32 {
    const NAME: &'static str = "f32";
    fn gen(t: &mut Tape) -> Self {
        t.f32()
    }
    fn scaled_one() -> Self {
        1.0
    }
}
macro_rules! vec_storage {
    ($ty:ty, $name:literal, $n:literal, $f:ty, $g:ident) => {
        #[cfg(feature = "glam")]
        impl Same for $ty {
            fn same(&self, o: &Self) -> bool {
                self.to_array().iter().zip(o.to_array().iter()).all(|(a, b)| a.same(b))
            }
            fn show(&self) -> String {
                format!("{:?}", self.to_array())
            }
        }
        #[cfg(feature = "glam")]
        impl Storage for $ty {
            const NAME: &'static str = $name;
            fn gen(t: &mut Tape) -> Self {
                let mut a = [0.0 as $f; $n];
                for x in a.iter_mut() {
                    *x = t.$g();
                }
                <$ty>::from_array(a)
            }
            fn scaled_one() -> Self {
                <$ty>::ONE
            }
        }
    };
}
vec_storage!(::glam::Vec2, "Vec2", 2, f32, f32);
vec_storage!(::glam::DVec2, "DVec2", 2, f64, f64);
vec_storage!(::glam::Vec3, "Vec3", 3, f32, f32);
vec_storage!(::glam::DVec3, "DVec3", 3, f64, f64);

/// The distance in representable numbers, for tolerances stated in ulps
pub fn ulps64(a: f64, b: f64) -> u64 {
    if a.is_nan() && b.is_nan() {
        return 0;
    }
    if a.is_nan() || b.is_nan() {
        return u64::MAX;
    }
    let key = |x: f64| {
        let b = x.to_bits() as i64;
        if b < 0 { i64::MIN.wrapping_sub(b) } else { b }
    };
    (key(a) as i128 - key(b) as i128).unsigned_abs().min(u64::MAX as u128) as u64
}
pub fn ulps32(a: f32, b: f32) -> u64 {
    if a.is_nan() && b.is_nan() {
        return 0;
    }
    if a.is_nan() || b.is_nan() {
        return u64::MAX;
    }
    let key = |x: f32| {
        let b = x.to_bits() as i32;
        (if b < 0 { i32::MIN.wrapping_sub(b) } else { b }) as i64
    };
    (key(a) - key(b)).unsigned_abs()
}

/// Equality up to a number of units in the last place, component by component.
pub trait Close: Same {
    fn close(&self, o: &Self, ulps: u64) -> bool;
}
impl Close for f64 {
    fn close(&self, o: &Self, ulps: u64) -> bool {
        (*self == 0.0 && *o == 0.0) || ulps64(*self, *o) <= ulps
    }
}
impl Close for f32 {
    fn close(&self, o: &Self, ulps: u64) -> bool {
        (*self == 0.0 && *o == 0.0) || ulps32(*self, *o) <= ulps
    }
}
macro_rules! vec_close {
    ($($ty:ty),*) => {
        $(
            #[cfg(feature = "glam")]
            impl Close for $ty {
                fn close(&self, o: &Self, ulps: u64) -> bool {
                    self.to_array().iter().zip(o.to_array().iter()).all(|(a, b)| a.close(b, ulps))
                }
            }
        )*
    };
}
vec_close!(::glam::Vec2, ::glam::DVec2, ::glam::Vec3, ::glam::DVec3);

pub fn expect_close<T: Close>(what: &str, got: T, want: T, ulps: u64) -> Res {
    if got.close(&want, ulps) {
        Ok(())
    } else {
        Err(format!("{what}: got {} want {} (to within {ulps} ulp)", got.show(), want.show()))
    }
}
