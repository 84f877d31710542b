// C09: conversion factors are represented exactly over the whole f64 range.
#![allow(incomplete_features)]
#![feature(generic_const_exprs, adt_const_params)]
#[path = "vpbt.rs"]
mod vpbt;
#[path = "sys.rs"]
mod sys;
use sys::Magnitude;
use vpbt::*;

/// Any finite f64, with all exponents (including subnormals) equally likely
fn finite(t: &mut Tape) -> f64 {
    let x = match t.below(4) {
        0 => {
            let e = t.draw(2047);
            let m = match t.below(4) {
                0 => 0,
                1 => 1,
                2 => (1 << 52) - 1,
                _ => t.draw(1 << 52),
            };
            let s = t.draw(2);
            f64::from_bits(s << 63 | e << 52 | m)
        }
        1 => {
            // around powers of two and the subnormal border
            let e = t.range(-1074, 1023);
            let base = if e < -1022 { f64::from_bits(1u64 << (e + 1074)) } else { f64::from_bits(((e + 1023) as u64) << 52) };
            let d = t.range(-2, 2);
            let x = f64::from_bits((base.to_bits() as i64 + d).max(0) as u64);
            if t.bool() { -x } else { x }
        }
        _ => t.f64(),
    };
    if x.is_finite() { x } else { 1.5 }
}

fn round_trip(t: &mut Tape, c: &mut Ctx) -> Res {
    let x = finite(t);
    c.note(format!("{x:e}"));
    c.class(if x == 0.0 {
        "zero"
    } else if !x.is_normal() {
        "subnormal"
    } else if x.abs() < 1e-292 {
        "tiny"
    } else if x.abs() > 1e292 {
        "huge"
    } else {
        "ordinary"
    });
    if x != 0.0 {
        c.nontrivial();
    }
    expect_same("decode(encode(x))", Magnitude::from_f64(x).into_f64(), x)?;
    expect_same("decode32(encode(x))", Magnitude::from_f64(x).into_f32(), x as f32)?;
    let twice = Magnitude::from_f64(Magnitude::from_f64(x).into_f64());
    if twice != Magnitude::from_f64(x) {
        return Err(format!("encoding {x:e} again gives another magnitude"));
    }
    if Magnitude::from_f64(x).is_one() != (x == 1.0) {
        return Err(format!("is_one of {x:e}"));
    }
    Ok(())
}

fn distinct(t: &mut Tape, c: &mut Ctx) -> Res {
    let x = finite(t);
    let y = match t.below(3) {
        0 => finite(t),
        1 => {
            let y = f64::from_bits(x.to_bits() ^ (1 << t.draw(64)));
            if y.is_finite() { y } else { -x }
        }
        _ => {
            let y = f64::from_bits(x.to_bits().wrapping_add(1));
            if y.is_finite() { y } else { -x }
        }
    };
    c.note(format!("{x:e} {y:e}"));
    c.nontrivial();
    let same = x.to_bits() == y.to_bits();
    if (Magnitude::from_f64(x) == Magnitude::from_f64(y)) != same {
        return Err(format!("encodings of {x:e} and {y:e} are {}", if same { "different" } else { "equal" }));
    }
    Ok(())
}

fn arithmetic(t: &mut Tape, c: &mut Ctx) -> Res {
    let a = finite(t);
    let b = finite(t);
    c.note(format!("{a:e} {b:e}"));
    let (m, n) = (Magnitude::from_f64(a), Magnitude::from_f64(b));
    let finite = |x: f64| x.is_finite();
    if finite(a * b) && a * b != 0.0 {
        c.nontrivial();
        expect_close("M * M", (m * n).into_f64(), a * b, 1)?;
        expect_close("M * f64", (m * b).into_f64(), a * b, 1)?;
    }
    expect_close("f64 * M", a * n, a * b, 1)?;
    if finite(a / b) && a / b != 0.0 {
        c.nontrivial();
        expect_close("M / M", (m / n).into_f64(), a / b, 1)?;
        expect_close("M / f64", (m / b).into_f64(), a / b, 1)?;
    }
    expect_close("f64 / M", a / n, a / b, 1)?;
    Ok(())
}

fn arithmetic32(t: &mut Tape, c: &mut Ctx) -> Res {
    let a = finite(t);
    let b = t.f32();
    c.note(format!("{a:e} {b:e}"));
    let m = Magnitude::from_f64(a);
    let a = a as f32;
    if !a.is_finite() || !a.is_normal() {
        return Ok(());
    }
    c.nontrivial();
    expect_close("f32 * M", b * m, b * a, 2)?;
    expect_close("f32 / M", b / m, b / a, 2)?;
    let p = a * b;
    if p.is_finite() && p.is_normal() {
        expect_close("M * f32", (m * b).into_f32(), p, 2)?;
    }
    let p = a / b;
    if p.is_finite() && p.is_normal() {
        expect_close("M / f32", (m / b).into_f32(), p, 2)?;
    }
    Ok(())
}

fn main() {
    vpbt::main(vec![
        Prop { name: "round trip", weight: 4, run: round_trip },
        Prop { name: "distinct", weight: 2, run: distinct },
        Prop { name: "f64 arithmetic", weight: 3, run: arithmetic },
        Prop { name: "f32 arithmetic", weight: 2, run: arithmetic32 },
    ]);
}
