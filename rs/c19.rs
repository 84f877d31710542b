// C19: random quantities follow the requested range exactly.
#![allow(incomplete_features)]
#![feature(generic_const_exprs, adt_const_params)]
#[path = "vpbt.rs"]
mod vpbt;
#[path = "sys.rs"]
mod sys;
use rand::distributions::uniform::{UniformFloat, UniformSampler};
use rand::distributions::{Distribution, Uniform};
use rand::{Rng, RngCore};
use std::panic::{catch_unwind, AssertUnwindSafe};
use vpbt::*;

/// A generator whose whole state is visible, including degenerate ones
#[derive(Clone, PartialEq, Debug)]
struct Gen {
    state: u64,
    kind: u64,
    calls: u64,
}
impl RngCore for Gen {
    fn next_u32(&mut self) -> u32 {
        (self.next_u64() >> 32) as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.calls += 1;
        match self.kind {
            0 => u64::MAX,
            1 => 0,
            2 => {
                // alternates between the extremes
                self.state = !self.state;
                self.state
            }
            _ => {
                self.state = self.state.wrapping_add(0x9e3779b97f4a7c15);
                let mut z = self.state;
                z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
                z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
                z ^ (z >> 31)
            }
        }
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for b in dest {
            *b = self.next_u64() as u8;
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
impl Gen {
    fn new(t: &mut Tape) -> Gen {
        let kind = t.draw(8);
        Gen { state: t.draw(u64::MAX), kind, calls: 0 }
    }
}

fn attempt<T>(f: impl FnOnce() -> T) -> Option<T> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}

macro_rules! props {
    ($mod:ident, $S:ident, $sys:path, $D:ident) => {
        mod $mod {
            use super::*;
            use $sys as s;
            type Q = s::dimensions::$D<$S>;

            /// The limits of a range, mostly a valid one
            fn limits(t: &mut Tape, c: &mut Ctx) -> ($S, $S) {
                let a = <$S as Storage>::gen(t);
                let b = match t.draw(8) {
                    0 => <$S as Storage>::gen(t),
                    1 => $S::from_bits(a.to_bits().wrapping_add(1)),
                    2 => $S::from_bits(a.to_bits().wrapping_add(3)),
                    3 => a * 2.0,
                    4 => a,
                    _ => a + (t.draw(100_000) as $S) * 0.013,
                };
                let (a, b) = if a > b && t.below(8) > 0 { (b, a) } else { (a, b) };
                // (rand itself does not terminate in reasonable time on ranges that are only
                // few representable numbers wide)
                let ulp = a.abs().max(b.abs()) * $S::EPSILON;
                let b = if a < b && b - a < ulp * (if $S::DIGITS > 6 { 2f64.powi(40) } else { 256.0 }) as $S { a } else { b };
                c.note(format!("from {} to {}", a.show(), b.show()));
                c.class(if a < b && (b - a).is_finite() { "valid" } else if a == b { "empty" } else { "invalid" });
                if a < b && (b - a).is_finite() {
                    c.nontrivial();
                }
                (a, b)
            }

            fn compare(what: &str, got: Option<(Vec<$S>, Gen)>, want: Vec<Option<(Vec<$S>, Gen)>>) -> Res {
                let mut errors = String::new();
                for w in want {
                    match (&got, &w) {
                        (None, None) => return Ok(()),
                        (Some((g, s)), Some((w, s2))) if g.same(w) && s == s2 => return Ok(()),
                        _ => errors = format!("{what}: got {got:?} want {w:?}"),
                    }
                }
                Err(errors)
            }

            pub fn half_open(t: &mut Tape, c: &mut Ctx) -> Res {
                let (a, b) = limits(t, c);
                let start = Gen::new(t);
                let n = 1 + t.below(4);
                c.note(format!("{n} samples of {start:?}"));
                let q = Q::new_unchecked;
                let raw = |f: &dyn Fn(&mut Gen) -> Vec<$S>| attempt(|| {
                    let mut g = start.clone();
                    let v = f(&mut g);
                    (v, g)
                });
                let many = raw(&|g| {
                    let u = Uniform::<$S>::new(a, b);
                    (0..n).map(|_| u.sample(g)).collect()
                });
                // (a single sample is drawn until it lies in the range, so the generator must not be constant)
                let varying = Gen { kind: start.kind.max(2), ..start.clone() };
                let raw_varying = |f: &dyn Fn(&mut Gen) -> Vec<$S>| attempt(|| {
                    let mut g = varying.clone();
                    let v = f(&mut g);
                    (v, g)
                });
                let single = raw_varying(&|g| (0..n).map(|_| g.gen_range(a..b)).collect());
                let many_varying = raw_varying(&|g| {
                    let u = Uniform::<$S>::new(a, b);
                    (0..n).map(|_| u.sample(g)).collect()
                });
                let sampler = raw(&|g| {
                    let u = UniformFloat::<$S>::new(a, b);
                    (0..n).map(|_| u.sample(g)).collect()
                });
                compare("(the harness)", sampler.clone(), vec![many.clone()])?;
                let got = raw_varying(&|g| (0..n).map(|_| g.gen_range(q(a)..q(b)).value_unchecked()).collect());
                // (what lies in the range, whatever the generator does)
                if let Some((v, _)) = &got {
                    for x in v {
                        if !(*x >= a && *x < b) {
                            return Err(format!("{} outside of [{}, {})", x.show(), a.show(), b.show()));
                        }
                    }
                }
                // (single samples may take either of the two ways that rand provides)
                let refused = a >= b || a.is_nan() || b.is_nan();
                if refused && got.is_some() {
                    return Err("empty range accepted".to_string());
                }
                compare("gen_range", got, vec![many_varying, single])?;
                let uniform = raw(&|g| {
                    let u = Uniform::new(q(a), q(b));
                    (0..n).map(|_| u.sample(g).value_unchecked()).collect()
                });
                if let Some((v, _)) = &uniform {
                    for x in v {
                        if !(*x >= a && *x < b) {
                            return Err(format!("{} outside of [{}, {})", x.show(), a.show(), b.show()));
                        }
                    }
                }
                compare("Uniform::new", uniform, vec![many.clone()])?;
                compare("Uniform::new of references", raw(&|g| {
                    let u = Uniform::new(&q(a), &q(b));
                    (0..n).map(|_| g.sample(&u).value_unchecked()).collect()
                }), vec![many.clone()])?;
                compare("Uniform::from", raw(&|g| {
                    let u = Uniform::from(q(a)..q(b));
                    g.sample_iter(u).take(n).map(|x: Q| x.value_unchecked()).collect()
                }), vec![many.clone()])?;
                let copy = raw(&|g| {
                    let u = Uniform::new(q(a), q(b));
                    let v = u;
                    (0..n).map(|i| if i % 2 == 0 { u.sample(g) } else { v.clone().sample(g) }.value_unchecked()).collect()
                });
                compare("copies of the distribution", copy, vec![many])
            }

            pub fn inclusive(t: &mut Tape, c: &mut Ctx) -> Res {
                let (a, b) = limits(t, c);
                let start = Gen::new(t);
                let n = 1 + t.below(4);
                c.note(format!("{n} samples of {start:?}, inclusive"));
                let q = Q::new_unchecked;
                let raw = |f: &dyn Fn(&mut Gen) -> Vec<$S>| attempt(|| {
                    let mut g = start.clone();
                    let v = f(&mut g);
                    (v, g)
                });
                let many = raw(&|g| {
                    let u = Uniform::<$S>::new_inclusive(a, b);
                    (0..n).map(|_| u.sample(g)).collect()
                });
                let single = raw(&|g| (0..n).map(|_| g.gen_range(a..=b)).collect());
                let got = raw(&|g| (0..n).map(|_| g.gen_range(q(a)..=q(b)).value_unchecked()).collect());
                if let Some((v, _)) = &got {
                    for x in v {
                        if !(*x >= a && *x <= b) {
                            return Err(format!("{} outside of [{}, {}]", x.show(), a.show(), b.show()));
                        }
                    }
                }
                compare("gen_range", got, vec![many.clone(), single])?;
                compare("Uniform::new_inclusive", raw(&|g| {
                    let u = Uniform::new_inclusive(q(a), q(b));
                    (0..n).map(|_| u.sample(g).value_unchecked()).collect()
                }), vec![many.clone()])?;
                compare("Uniform::new_inclusive of references", raw(&|g| {
                    let u = Uniform::new_inclusive(&q(a), q(b));
                    (0..n).map(|_| u.sample(g).value_unchecked()).collect()
                }), vec![many.clone()])?;
                compare("Uniform::from", raw(&|g| {
                    let u = Uniform::from(q(a)..=q(b));
                    g.sample_iter(u).take(n).map(|x: Q| x.value_unchecked()).collect()
                }), vec![many])
            }
        }
    };
}
props!(f64_length, f64, crate::sys, Length);
props!(f32_odd, f32, crate::sys, Odd);
props!(f64_none, f64, crate::sys, Dimensionless);
props!(f64_si, f64, diman::si, Energy);
props!(f32_si, f32, diman::si, Time);

fn main() {
    macro_rules! all {
        ($($m:ident)*) => {
            vec![$(
                Prop { name: concat!(stringify!($m), " half-open"), weight: 2, run: $m::half_open },
                Prop { name: concat!(stringify!($m), " inclusive"), weight: 1, run: $m::inclusive },
            )*]
        };
    }
    vpbt::main(all!(f64_length f32_odd f64_none f64_si f32_si));
}
