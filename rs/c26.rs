// C26: any history of mutations leaves quantities equal to mirrored raw values.
#![allow(incomplete_features)]
#![feature(generic_const_exprs, adt_const_params)]
#[path = "vpbt.rs"]
mod vpbt;
#[path = "sys.rs"]
mod sys;
use vpbt::*;

/// The state: a collection of quantities, one of another dimension, numbers, and
/// the raw values they mirror. Every step changes both and all of it is compared.
macro_rules! history {
    ($mod:ident, $S:ty, $F:ident, $gen:ident, $sys:path, $D:ident, $E:ident, $unit:ident, $factor:expr, [$($class:ident)?], { $($extra:tt)* }) => {
        mod $mod {
            use super::*;
            #[allow(unused_imports)]
            use core::ops::*;
            use $sys as s;
            type Q = s::dimensions::$D<$S>;
            type C = s::dimensions::$D<$F>;
            type O = s::dimensions::$E<$F>;
            type N = s::dimensions::Dimensionless<$F>;

            #[derive(Clone)]
            struct State {
                q: Vec<Q>,
                other: O,
                number: N,
                boxed: Box<Q>,
            }
            #[derive(Clone)]
            struct Mirror {
                q: Vec<$S>,
                other: $F,
                number: $F,
                boxed: $S,
            }

            fn compare(s: &State, m: &Mirror) -> Res {
                expect_same("quantities", s.q.iter().map(|x| x.value_unchecked()).collect::<Vec<_>>(), m.q.clone())?;
                expect_same("other quantity", s.other.value_unchecked(), m.other)?;
                expect_same("number", s.number.value(), m.number)?;
                expect_same("boxed quantity", s.boxed.value_unchecked(), m.boxed)
            }

            fn plain(x: $F) -> $F {
                if x.is_finite() { x } else { 1.5 }
            }

            pub fn run(t: &mut Tape, c: &mut Ctx) -> Res {
                let n = 2 + t.below(4);
                let mut raw: Vec<$S> = (0..n).map(|_| <$S as Storage>::gen(t)).collect();
                if t.below(4) > 0 {
                    // mostly without infinities, which soon turn everything into NaN
                    for x in raw.iter_mut() {
                        *x = tame(*x);
                    }
                }
                let mut m = Mirror { other: plain(t.$gen()), number: plain(t.$gen()), boxed: raw[0], q: raw };
                let mut s = State {
                    q: m.q.iter().map(|x| Q::new_unchecked(*x)).collect(),
                    other: O::new_unchecked(m.other),
                    number: N::new_unchecked(m.number),
                    boxed: Box::new(Q::new_unchecked(m.boxed)),
                };
                c.note(m.q.show());
                let steps = t.below(14);
                if steps > 3 {
                    c.nontrivial();
                }
                let mut log: Vec<(Vec<Q>, Vec<$S>)> = vec![];
                for _ in 0..steps {
                    let i = t.below(n);
                    let j = t.below(n);
                    let x = t.$gen();
                    let v = <$S as Storage>::gen(t);
                    let op = t.below(46);
                    c.note(format!("{op}({i},{j},{})", x.show()));
                    let qj = s.q[j];
                    let rj = m.q[j];
                    match op {
                        0 => { s.q[i] += qj; m.q[i] += rj; }
                        1 => { s.q[i] += &qj; m.q[i] += rj; }
                        2 => { s.q[i] -= qj; m.q[i] -= rj; }
                        3 => { s.q[i] -= &qj; m.q[i] -= rj; }
                        4 => { scale(&mut s.q[i], x); m.q[i] *= x; }
                        5 => { unscale(&mut s.q[i], x); m.q[i] /= x; }
                        6 => { s.q[i] *= s.number; m.q[i] *= m.number; }
                        7 => { let k = s.number; s.q[i] /= &k; m.q[i] /= m.number; }
                        8 => { s.q[i] = s.q[i] + qj * x; m.q[i] = m.q[i] + rj * x; }
                        9 => { s.q[i] = &s.q[i] - &(x * qj); m.q[i] = m.q[i] - x * rj; }
                        10 => { s.q[i] = -qj; m.q[i] = -rj; }
                        11 => { s.q.swap(i, j); m.q.swap(i, j); }
                        12 => { s.q[i] = s.q.iter().copied().sum(); let mut sum = <$S>::default(); for y in &m.q { sum += *y; } m.q[i] = sum; }
                        13 => { for y in s.q.iter_mut() { *y += qj; } for y in m.q.iter_mut() { *y += rj; } }
                        14 => { for mut y in s.q.iter_mut() { MulAssign::mul_assign(&mut y, s.number); } for y in m.q.iter_mut() { *y *= m.number; } }
                        15 => { s.q[i] = qj * s.other / s.other; m.q[i] = rj * m.other / m.other; }
                        16 => { s.q[i] = s.other * qj / s.other; m.q[i] = m.other * rj / m.other; }
                        17 => { let mut y = &mut s.q[i]; AddAssign::add_assign(&mut y, qj); m.q[i] += rj; }
                        18 => { let mut y = &mut s.q[i]; SubAssign::sub_assign(&mut y, &qj); m.q[i] -= rj; }
                        19 => { let y = std::mem::replace(&mut s.q[i], *s.boxed); *s.boxed = y; let y = std::mem::replace(&mut m.q[i], m.boxed); m.boxed = y; }
                        20 => { *s.boxed += s.q[i] + qj; m.boxed += m.q[i] + rj; }
                        21 => { *s.boxed -= &(s.q[i] - &qj); m.boxed -= m.q[i] - rj; }
                        22 => { s.other *= s.number; m.other *= m.number; }
                        23 => { s.other /= x; m.other /= x; }
                        24 => { s.number += x; m.number += x; }
                        25 => { s.number -= &x; m.number -= x; }
                        26 => { s.number = x - s.number; m.number = x - m.number; }
                        27 => { s.number = s.other / O::new_unchecked(x); m.number = m.other / x; }
                        28 => { let mut y = x; y *= s.number; s.other = O::new_unchecked(y); let mut y = x; y *= m.number; m.other = y; }
                        29 => { let mut y = x; y -= s.number; s.number = y.into(); let mut y = x; y -= m.number; m.number = y; }
                        30 => { s.q[i] = Q::zero(); m.q[i] = Default::default(); }
                        31 => { s.q[i] = Q::default(); m.q[i] = Default::default(); }
                        32 => { s.q[i] = qj.min(s.q[i]); m.q[i] = rj.min(m.q[i]); }
                        33 => { s.q[i] = qj.max(s.q[i]); m.q[i] = rj.max(m.q[i]); }
                        34 => { s.q[i] = qj.abs(); m.q[i] = rj.abs(); }
                        35 => { s.q[i] = Q::new_unchecked(v); m.q[i] = v; }
                        36 => {
                            // aliases through copies: later changes do not show in the copy
                            log.push((s.q.clone(), m.q.clone()));
                        }
                        37 => { s.q[i] += v * s::units::$unit; m.q[i] += v * ($factor as $F); }
                        38 => { let sum: Q = s.q.iter().filter(|y| **y == qj).copied().sum(); s.q[i] = sum; let mut w = <$S>::default(); for y in &m.q { if *y == rj { w += *y; } } m.q[i] = w; }
                        39 => { let (a, b) = s.q.split_at_mut(1); a[0] += b[0]; b[0] -= a[0]; let (a, b) = m.q.split_at_mut(1); a[0] += b[0]; b[0] -= a[0]; }
                        40 => { s.q[i] = (s.q[i] + qj) / s.number; m.q[i] = (m.q[i] + rj) / m.number; }
                        41 => { s.q[i] = s.number * (&s.q[i] + qj); m.q[i] = m.number * (m.q[i] + rj); }
                        42 => { s.q.rotate_left(i); m.q.rotate_left(i); }
                        43 => { let mut y = s.q[i]; y += y; y -= s.q[j]; s.q[j] = y; let mut y = m.q[i]; y += y; y -= m.q[j]; m.q[j] = y; }
                        44 => { s.number = s.other.value_unchecked().into(); m.number = m.other; }
                        _ => { special(&mut s, &mut m, i, j, x, v)?; }
                    }
                    // (the sign of a zero sum is not specified)
                    if op == 12 || op == 38 || op == 30 || op == 31 {
                        for (a, b) in s.q.iter_mut().zip(m.q.iter_mut()) {
                            if a.value_unchecked() == *b {
                                *b = a.value_unchecked();
                            }
                        }
                    }
                    // (which of two zeros of different sign is the smaller one is not specified)
                    if (op == 32 || op == 33) && s.q[i].value_unchecked() == m.q[i] {
                        m.q[i] = s.q[i].value_unchecked();
                    }
                    // construction through a unit: up to rounding
                    if op == 37 {
                        expect_close("adding a value with a unit", s.q[i].value_unchecked(), m.q[i], 1 << 8).or_else(|e| {
                            let d = s.q[i].value_unchecked() - m.q[i];
                            if small(d, v) { Ok(()) } else { Err(e) }
                        })?;
                        m.q[i] = s.q[i].value_unchecked();
                    }
                    compare(&s, &m)?;
                }
                for (a, b) in log {
                    expect_same("copies taken earlier", a.iter().map(|x| x.value_unchecked()).collect::<Vec<_>>(), b)?;
                }
                Ok(())
            }

            $($extra)*
        }
    };
}

macro_rules! scalar_extra {
    ($($name:ident, $S:ident, $sys:path, $D:ident, $E:ident, $unit:ident, $factor:expr;)*) => {
        $(history! {
            $name, $S, $S, $S, $sys, $D, $E, $unit, $factor, [], {
                fn scale(q: &mut Q, x: $S) {
                    *q *= x;
                }
                fn unscale(q: &mut Q, x: $S) {
                    *q /= &x;
                }
                fn tame(x: $S) -> $S {
                    if x.is_finite() && x.abs() < 1e9 { x } else { 2.25 }
                }
                fn small(d: $S, v: $S) -> bool {
                    // cancellation: the error is relative to what was added
                    d.abs() <= 8.0 * $S::EPSILON * (v * $factor as $S).abs() || d.is_nan() || (v * $factor as $S).abs() > $S::MAX / 2.0
                        || (v * $factor as $S).abs() < $S::MIN_POSITIVE * 1e3
                }
                fn special(s: &mut State, m: &mut Mirror, i: usize, j: usize, x: $S, v: $S) -> Res {
                    // sorting, clamping, counting, conversion to a unit and back
                    if m.q.iter().all(|y| !y.is_nan()) {
                        s.q.sort_by(|a, b| b.partial_cmp(a).unwrap());
                        m.q.sort_by(|a, b| b.partial_cmp(a).unwrap());
                        expect_same("sorted", s.q.iter().map(|y| y.value_unchecked()).collect::<Vec<_>>(), m.q.clone())?;
                    }
                    let lim = x.abs();
                    if !lim.is_nan() {
                        s.q[i] = s.q[i].clamp(C::new_unchecked(-lim), C::new_unchecked(lim));
                        m.q[i] = m.q[i].clamp(-lim, lim);
                    }
                    s.number = s.q[i].value_in(s::units::$unit).into();
                    m.number = m.q[i] / $factor as $S;
                    expect_close("value_in", s.number.value(), m.number, 4)?;
                    m.number = s.number.value();
                    s.q[j] = s.number * s::units::$unit;
                    m.q[j] = m.number * $factor as $S;
                    expect_close("value_in and back", s.q[j].value_unchecked(), m.q[j], 4)?;
                    m.q[j] = s.q[j].value_unchecked();
                    if s.q[i] < C::new_unchecked(v) {
                        s.q[i] += C::new_unchecked(v);
                    }
                    if m.q[i] < v {
                        m.q[i] += v;
                    }
                    Ok(())
                }
            }
        })*
    };
}
scalar_extra! {
    f64_length, f64, crate::sys, Length, Time, foot, 0.3048;
    f32_energy, f32, crate::sys, Energy, Length, kilojoule, 1000.0;
    f64_odd, f64, crate::sys, Odd, InvTime, oddu, 3.5;
    f64_si, f64, diman::si, Velocity, Mass, kilometers_per_second, 1000.0;
    f32_si, f32, diman::si, Time, Energy, hours, 3600.0;
}

macro_rules! vector_extra {
    ($($name:ident, $V:ident, $F:ident, [$($set:ident, $get:ident, $k:literal);*], $sys:path, $D:ident, $E:ident, $unit:ident, $factor:expr;)*) => {
        $(
        #[cfg(feature = "glam")]
        history! {
            $name, glam::$V, $F, $F, $sys, $D, $E, $unit, $factor, [], {
                fn scale(q: &mut Q, x: $F) {
                    *q = *q * x;
                }
                fn unscale(q: &mut Q, x: $F) {
                    *q = &*q / x;
                }
                fn tame(x: glam::$V) -> glam::$V {
                    let mut a = x.to_array();
                    for y in a.iter_mut() {
                        if !y.is_finite() || y.abs() > 1e9 {
                            *y = 2.25;
                        }
                    }
                    glam::$V::from_array(a)
                }
                fn small(d: glam::$V, v: glam::$V) -> bool {
                    d.to_array().iter().zip(v.to_array()).all(|(d, v)| {
                        let v = v * $factor as $F;
                        d.abs() <= 8.0 * $F::EPSILON * v.abs() || d.is_nan() || v.abs() > $F::MAX / 2.0 || v.abs() < $F::MIN_POSITIVE * 1e3
                    })
                }
                fn special(s: &mut State, m: &mut Mirror, i: usize, j: usize, x: $F, v: glam::$V) -> Res {
                    // component writes, in turn from a number, another component and a unit
                    match (i + 2 * j) % 3 {
                        $($k => {
                            s.q[i].$set(C::new_unchecked(x));
                            m.q[i].$get = x;
                            let y = s.q[j].$get();
                            let z = y + s.q[i].$get();
                            s.q[i].$set(z);
                            m.q[i].$get = m.q[j].$get + m.q[i].$get;
                        })*
                        _ => {
                            let y = s.q[i].y();
                            s.q[j].set_x(y);
                            let x = s.q[j].x();
                            s.q[j].set_y(-x);
                            m.q[j].x = m.q[i].y;
                            m.q[j].y = -m.q[j].x;
                        }
                    }
                    // scaling by components, sums of elementwise products
                    s.q[i] *= v;
                    m.q[i] *= v;
                    s.q[j] /= &v;
                    m.q[j] /= v;
                    s.other = s.other + s.other * (s.q[i].x() / s.q[i].x());
                    m.other = m.other + m.other * (m.q[i].x / m.q[i].x);
                    Ok(())
                }
            }
        })*
    };
}
vector_extra! {
    vec2, Vec2, f32, [set_x, x, 0; set_y, y, 1], crate::sys, Velocity, Time, kmh, (1.0 / 3.6);
    dvec2, DVec2, f64, [set_x, x, 0; set_y, y, 1], crate::sys, Length, Odd, foot, 0.3048;
    vec3, Vec3, f32, [set_x, x, 0; set_y, y, 1; set_z, z, 2], crate::sys, Length, Time, foot, 0.3048;
    dvec3, DVec3, f64, [set_x, x, 0; set_y, y, 1; set_z, z, 2], crate::sys, Energy, InvTime, kilojoule, 1000.0;
    si_vec3, Vec3, f32, [set_x, x, 0; set_y, y, 1; set_z, z, 2], diman::si, Length, Mass, kilometers, 1000.0;
    si_dvec3, DVec3, f64, [set_x, x, 0; set_y, y, 1; set_z, z, 2], diman::si, Velocity, Time, kilometers_per_second, 1000.0;
    si_vec2, Vec2, f32, [set_x, x, 0; set_y, y, 1], diman::si, Force, Mass, kilonewton, 1000.0;
    si_dvec2, DVec2, f64, [set_x, x, 0; set_y, y, 1], diman::si, Length, Time, kilometers, 1000.0;
}

fn main() {
    let mut p: Vec<Prop> = vec![];
    macro_rules! all {
        ($($m:ident)*) => {
            $( p.push(Prop { name: stringify!($m), weight: 1, run: $m::run }); )*
        };
    }
    all!(f64_length f32_energy f64_odd f64_si f32_si);
    #[cfg(feature = "glam")]
    all!(vec2 dvec2 vec3 dvec3 si_vec3 si_dvec3 si_vec2 si_dvec2);
    vpbt::main(p);
}
