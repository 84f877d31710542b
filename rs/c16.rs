// C16: comparisons, min/max/clamp and sign predicates agree with the stored values.
#![allow(incomplete_features)]
#![feature(generic_const_exprs, adt_const_params)]
#[path = "vpbt.rs"]
mod vpbt;
#[path = "sys.rs"]
mod sys;
use vpbt::*;

/// A value related to another one: the same, its negation, a neighbour or a new one
trait Relate: Storage {
    fn relate(self, t: &mut Tape) -> Self;
}
impl Relate for f64 {
    fn relate(self, t: &mut Tape) -> f64 {
        match t.draw(6) {
            0 => f64::gen(t),
            1 => self,
            2 => -self,
            3 => f64::from_bits(self.to_bits().wrapping_add(1)),
            4 => f64::from_bits(self.to_bits().wrapping_sub(1)),
            _ => self * 2.0,
        }
    }
}
impl Relate for f32 {
    fn relate(self, t: &mut Tape) -> f32 {
        match t.draw(6) {
            0 => f32::gen(t),
            1 => self,
            2 => -self,
            3 => f32::from_bits(self.to_bits().wrapping_add(1)),
            4 => f32::from_bits(self.to_bits().wrapping_sub(1)),
            _ => self * 2.0,
        }
    }
}

macro_rules! check {
    ($($name:literal : $got:expr => $want:expr;)*) => {
        $( expect_same($name, $got, $want)?; )*
    };
}

/// min/max: which zero is returned for zeros of different signs is not specified
fn minmax<S: Storage + PartialEq>(what: &str, got: S, want: S) -> Res {
    if got == want { Ok(()) } else { expect_same(what, got, want) }
}

macro_rules! float_props {
    ($mod:ident, $S:ty, $sys:path, $D:ident) => {
        mod $mod {
            use super::*;
            use $sys as s;
            type Q = s::dimensions::$D<$S>;
            type N = s::dimensions::Dimensionless<$S>;

            fn pair(t: &mut Tape, c: &mut Ctx) -> ($S, $S) {
                let a = <$S as Storage>::gen(t);
                let b = a.relate(t);
                c.note(format!("{} and {}", a.show(), b.show()));
                if !a.same(&b) || a.is_nan() {
                    c.nontrivial();
                }
                c.class(match a.partial_cmp(&b) {
                    None => "unordered",
                    Some(std::cmp::Ordering::Equal) => "equal",
                    _ => "ordered",
                });
                (a, b)
            }

            pub fn quantities(t: &mut Tape, c: &mut Ctx) -> Res {
                let (a, b) = pair(t, c);
                let q = Q::new_unchecked;
                let (x, y) = (q(a), q(b));
                check! {
                    "Q == Q": x == y => a == b;
                    "Q != Q": x != y => a != b;
                    "Q < Q": x < y => a < b;
                    "Q <= Q": x <= y => a <= b;
                    "Q > Q": x > y => a > b;
                    "Q >= Q": x >= y => a >= b;
                    "Q cmp Q": x.partial_cmp(&y) => a.partial_cmp(&b);
                    "Q == &Q": x == &y => a == b;
                    "Q != &Q": x != &y => a != b;
                    "Q < &Q": x < &y => a < b;
                    "Q <= &Q": x <= &y => a <= b;
                    "Q > &Q": x > &y => a > b;
                    "Q >= &Q": x >= &y => a >= b;
                    "Q cmp &Q": x.partial_cmp(&&y) => a.partial_cmp(&b);
                    "&Q == Q": &x == y => a == b;
                    "&Q != Q": &x != y => a != b;
                    "&Q < Q": &x < y => a < b;
                    "&Q <= Q": &x <= y => a <= b;
                    "&Q > Q": &x > y => a > b;
                    "&Q >= Q": &x >= y => a >= b;
                    "&Q cmp Q": (&x).partial_cmp(&y) => a.partial_cmp(&b);
                    "&Q == &Q": &x == &y => a == b;
                    "&Q != &Q": &x != &y => a != b;
                    "&Q < &Q": &x < &y => a < b;
                    "&Q <= &Q": &x <= &y => a <= b;
                    "&Q > &Q": &x > &y => a > b;
                    "&Q >= &Q": &x >= &y => a >= b;
                    "&Q cmp &Q": (&x).partial_cmp(&&y) => a.partial_cmp(&b);
                    "slices": [x, y] == [q(b), q(a)] => [a, b] == [b, a];
                    "tuples": (x, y) < (q(b), q(a)) => (a, b) < (b, a);
                    "options": Some(x).partial_cmp(&Some(y)) => Some(a).partial_cmp(&Some(b));
                }
                Ok(())
            }

            pub fn numbers(t: &mut Tape, c: &mut Ctx) -> Res {
                let (a, b) = pair(t, c);
                let n = N::new_unchecked;
                check! {
                    "N == S": n(a) == b => a == b;
                    "N != S": n(a) != b => a != b;
                    "N < S": n(a) < b => a < b;
                    "N <= S": n(a) <= b => a <= b;
                    "N > S": n(a) > b => a > b;
                    "N >= S": n(a) >= b => a >= b;
                    "N cmp S": n(a).partial_cmp(&b) => a.partial_cmp(&b);
                    "S == N": a == n(b) => a == b;
                    "S != N": a != n(b) => a != b;
                    "S < N": a < n(b) => a < b;
                    "S <= N": a <= n(b) => a <= b;
                    "S > N": a > n(b) => a > b;
                    "S >= N": a >= n(b) => a >= b;
                    "S cmp N": a.partial_cmp(&n(b)) => a.partial_cmp(&b);
                    "N == N": n(a) == n(b) => a == b;
                    "N < N": n(a) < n(b) => a < b;
                    "N >= &N": n(a) >= &n(b) => a >= b;
                }
                minmax("N.min(S)", n(a).min(b).value(), a.min(b))?;
                minmax("N.max(S)", n(a).max(b).value(), a.max(b))
            }

            pub fn choosing(t: &mut Tape, c: &mut Ctx) -> Res {
                let (a, b) = pair(t, c);
                let d = match t.draw(3) {
                    0 => a.relate(t),
                    1 => b.relate(t),
                    _ => <$S as Storage>::gen(t),
                };
                c.note(d.show());
                let q = Q::new_unchecked;
                let (x, y) = (q(a), q(b));
                minmax("min", x.min(y).value_unchecked(), a.min(b))?;
                minmax("max", x.max(y).value_unchecked(), a.max(b))?;
                if a <= b {
                    minmax("clamp", q(d).clamp(x, y).value_unchecked(), d.clamp(a, b))?;
                    let n = N::new_unchecked;
                    minmax("N.clamp", n(d).clamp(n(a), n(b)).value(), d.clamp(a, b))?;
                    minmax("N.clamp(S)", n(d).clamp(a, b).value(), d.clamp(a, b))?;
                } else {
                    // (the limits are out of order or NaN: refused like the float operation does)
                    let r = std::panic::catch_unwind(|| q(d).clamp(q(a), q(b)));
                    let raw = std::panic::catch_unwind(|| d.clamp(a, b));
                    if r.is_err() != raw.is_err() {
                        return Err("clamp with invalid limits".to_string());
                    }
                }
                Ok(())
            }

            pub fn predicates(t: &mut Tape, c: &mut Ctx) -> Res {
                let a = <$S as Storage>::gen(t);
                c.note(a.show());
                if a != 1.0 && a != 0.0 {
                    c.nontrivial();
                }
                let q = Q::new_unchecked(a);
                let n = N::new_unchecked(a);
                check! {
                    "is_positive": q.is_positive() => a > 0.0;
                    "is_positive_or_zero": q.is_positive_or_zero() => a >= 0.0;
                    "is_negative": q.is_negative() => a < 0.0;
                    "is_negative_or_zero": q.is_negative_or_zero() => a <= 0.0;
                    "is_nan": q.is_nan() => a != a;
                    "N.is_positive": n.is_positive() => a > 0.0;
                    "N.is_negative": n.is_negative() => a < 0.0;
                    "N.is_positive_or_zero": n.is_positive_or_zero() => a >= 0.0;
                    "N.is_negative_or_zero": n.is_negative_or_zero() => a <= 0.0;
                    "N.is_nan": n.is_nan() => a != a;
                    "abs": q.abs().value_unchecked() => a.abs();
                    "N.abs": n.abs().value() => a.abs();
                    "zero": Q::zero().value_unchecked() => 0.0;
                    "N.zero": N::zero().value() => 0.0;
                }
                Ok(())
            }

            /// Sorting, extrema and counting by comparison of a whole collection
            pub fn collections(t: &mut Tape, c: &mut Ctx) -> Res {
                let len = t.below(8);
                let mut v: Vec<$S> = vec![];
                for i in 0..len {
                    let x = if i == 0 { <$S as Storage>::gen(t) } else { v[i - 1].relate(t) };
                    v.push(if x.is_nan() { 1.5 } else { x });
                }
                c.note(v.show());
                if len > 2 {
                    c.nontrivial();
                }
                let mut q: Vec<Q> = v.iter().map(|x| Q::new_unchecked(*x)).collect();
                let mut raw = v.clone();
                q.sort_by(|a, b| a.partial_cmp(b).unwrap());
                raw.sort_by(|a, b| a.partial_cmp(b).unwrap());
                let got: Vec<$S> = q.iter().map(|x| x.value_unchecked()).collect();
                expect_same("sorted", got, raw.clone())?;
                if let Some(first) = v.first() {
                    let f = Q::new_unchecked(*first);
                    expect_same("below", vec![q.iter().filter(|x| **x < f).count() as f64], vec![raw.iter().filter(|x| **x < *first).count() as f64])?;
                    let m = q.iter().copied().reduce(|a, b| a.max(b)).unwrap();
                    minmax("maximum", m.value_unchecked(), raw.iter().copied().reduce(|a, b| a.max(b)).unwrap())?;
                }
                Ok(())
            }
        }
    };
}
float_props!(f64_len, f64, crate::sys, Length);
float_props!(f32_odd, f32, crate::sys, Odd);
float_props!(f64_si, f64, diman::si, Force);
float_props!(f32_si, f32, diman::si, Velocity);

macro_rules! vec_props {
    ($mod:ident, $V:ident, $D:ident) => {
        #[cfg(feature = "glam")]
        mod $mod {
            use super::*;
            use glam::*;
            pub fn equality(t: &mut Tape, c: &mut Ctx) -> Res {
                let a = <$V as Storage>::gen(t);
                let mut arr = a.to_array();
                if t.bool() {
                    let i = t.below(arr.len());
                    arr[i] = arr[i].relate(t);
                    c.nontrivial();
                }
                let b = <$V>::from_array(arr);
                c.note(format!("{} and {}", a.show(), b.show()));
                c.class(if a == b { "equal" } else { "different" });
                type Q = sys::dimensions::$D<$V>;
                type N = sys::dimensions::Dimensionless<$V>;
                let (x, y) = (Q::new_unchecked(a), Q::new_unchecked(b));
                let (n, m) = (N::new_unchecked(a), N::new_unchecked(b));
                check! {
                    "Q == Q": x == y => a == b;
                    "Q != Q": x != y => a != b;
                    "Q == &Q": x == &y => a == b;
                    "&Q == Q": &x == y => a == b;
                    "&Q != &Q": &x != &y => a != b;
                    "N == S": n == b => a == b;
                    "N != S": n != b => a != b;
                    "S == N": a == m => a == b;
                    "S != N": a != m => a != b;
                    "zero": Q::zero().value_unchecked() == <$V>::ZERO => true;
                    "abs": x.abs().value_unchecked().to_array().to_vec() => a.abs().to_array().to_vec();
                }
                Ok(())
            }
        }
    };
}
vec_props!(vec2, Vec2, Velocity);
vec_props!(dvec2, DVec2, Odd);
vec_props!(vec3, Vec3, InvTime);
vec_props!(dvec3, DVec3, Length);

fn main() {
    let mut p: Vec<Prop> = vec![];
    macro_rules! floats {
        ($($m:ident)*) => {
            $(
                p.push(Prop { name: concat!(stringify!($m), " quantities"), weight: 4, run: $m::quantities });
                p.push(Prop { name: concat!(stringify!($m), " numbers"), weight: 4, run: $m::numbers });
                p.push(Prop { name: concat!(stringify!($m), " choosing"), weight: 4, run: $m::choosing });
                p.push(Prop { name: concat!(stringify!($m), " predicates"), weight: 3, run: $m::predicates });
                p.push(Prop { name: concat!(stringify!($m), " collections"), weight: 2, run: $m::collections });
            )*
        };
    }
    floats!(f64_len f32_odd f64_si f32_si);
    #[cfg(feature = "glam")]
    {
        p.push(Prop { name: "vec2 equality", weight: 2, run: vec2::equality });
        p.push(Prop { name: "dvec2 equality", weight: 2, run: dvec2::equality });
        p.push(Prop { name: "vec3 equality", weight: 2, run: vec3::equality });
        p.push(Prop { name: "dvec3 equality", weight: 2, run: dvec3::equality });
    }
    vpbt::main(p);
}
