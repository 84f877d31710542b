// C18: powers and roots compute the value that matches their dimension.
#![allow(incomplete_features)]
#![feature(generic_const_exprs, adt_const_params)]
#[path = "vpbt.rs"]
mod vpbt;
#[path = "sys.rs"]
mod sys;
use vpbt::*;

/// Equal up to rounding; results that are too small to have full precision only have
/// to be that small
trait Near: Storage {
    fn near(what: &str, got: Self, want: Self, steps: u32) -> Res;
}
macro_rules! near {
    ($S:ident) => {
        impl Near for $S {
            fn near(what: &str, got: $S, want: $S, steps: u32) -> Res {
                let ok = got.same(&want)
                    || (got == 0.0 && want == 0.0)
                    || (got.abs() < $S::MIN_POSITIVE && want.abs() < $S::MIN_POSITIVE && (got - want).abs() <= $S::MIN_POSITIVE)
                    || (got - want).abs() <= (steps + 2) as $S * 2.0 * $S::EPSILON * want.abs()
                    // (at the upper end of the range rounding decides between the largest numbers and infinity)
                    || (got.abs().min(want.abs()) > $S::MAX * (0.999999 - (steps + 2) as $S * 2.0 * $S::EPSILON) && got.is_sign_positive() == want.is_sign_positive());
                if ok {
                    Ok(())
                } else {
                    Err(format!("{what}: got {} want {}", got.show(), want.show()))
                }
            }
        }
    };
}
near!(f64);
near!(f32);

fn same_dim(what: &str, got: [f64; 4], want: [f64; 4]) -> Res {
    if got == want { Ok(()) } else { Err(format!("{what}: dimension {got:?} want {want:?}")) }
}

macro_rules! powi_checks {
    ($S:ident, $q:ident, $x:ident, $exps:expr, $D:ident, $($n:literal)*) => {
        $({
            let r = $q.powi::<$n>();
            let n: i32 = $n;
            <$S as Near>::near(concat!("powi ", stringify!($n)), r.value_unchecked(), reference($x, n), n.unsigned_abs())?;
            same_dim(concat!("powi ", stringify!($n)), sys::dim(&r), $exps.map(|e| e * n as f64))?;
        })*
    };
}

macro_rules! props {
    ($mod:ident, $S:ident, $gen:ident, $D:ident, $e:expr) => {
        mod $mod {
            use super::*;
            type Q = sys::dimensions::$D<$S>;
            type N = sys::dimensions::Dimensionless<$S>;
            const E: [f64; 4] = $e;

            fn value(t: &mut Tape, c: &mut Ctx) -> $S {
                let x = if t.bool() { t.$gen() } else { (t.range(-40_000, 40_000) as f64 / 1000.0) as $S };
                c.note(x.show());
                if x != 0.0 && x != 1.0 && !x.is_nan() {
                    c.nontrivial();
                }
                x
            }

            /// x^n with the intermediate results in a wider range
            fn reference(x: $S, n: i32) -> $S {
                if n == 0 {
                    return 1.0;
                }
                if !(x.is_finite()) || x == 0.0 {
                    return x.powi(n);
                }
                // mantissa and exponent separately
                let bits = (x.abs() as f64).log2().floor() as i32;
                let m = (x.abs() as f64) / 2f64.powi(bits / 2) / 2f64.powi(bits - bits / 2);
                let p = m.powi(n);
                let e = bits * n;
                let mut r = p;
                let mut left = e.clamp(-6000, 6000);
                while left != 0 {
                    let s = left.clamp(-500, 500);
                    r *= 2f64.powi(s);
                    left -= s;
                }
                let r = r as $S;
                if x < 0.0 && n % 2 != 0 { -r } else { r }
            }

            /// Powers of many factors, of values whose powers stay in the range
            pub fn large_powers(t: &mut Tape, c: &mut Ctx) -> Res {
                let spread: f64 = *t.pick(&[1.0, 8.0, 64.0, 128.0, 256.0, 1000.0]);
                let u = t.range(-130_000, 130_000) as f64 / 1000.0 / spread;
                let x = if t.below(8) == 0 { value(t, c) } else { (2f64.powf(u) * if t.bool() { -1.0 } else { 1.0 }) as $S };
                c.note(x.show());
                if x != 0.0 && x.abs() != 1.0 && !x.is_nan() {
                    c.nontrivial();
                }
                let q = Q::new_unchecked(x);
                powi_checks!($S, q, x, E, $D, 8 13 16 17 31 32 63 64 100 127 128 129 200 255 256 257 300 511 1000 -5 -7 -8 -16 -31 -32 -64 -65 -100 -127 -128 -129 -200 -255 -256 -257 -300 -1000);
                Ok(())
            }

            pub fn powers(t: &mut Tape, c: &mut Ctx) -> Res {
                let x = value(t, c);
                let q = Q::new_unchecked(x);
                let sq = q.squared();
                <$S as Near>::near("squared", sq.value_unchecked(), x * x, 1)?;
                same_dim("squared", sys::dim(&sq), E.map(|e| 2.0 * e))?;
                let cu = q.cubed();
                <$S as Near>::near("cubed", cu.value_unchecked(), reference(x, 3), 2)?;
                same_dim("cubed", sys::dim(&cu), E.map(|e| 3.0 * e))?;
                powi_checks!($S, q, x, E, $D, 0 1 2 3 4 5 7 10 -1 -2 -3 -4 -6);
                // (nested powers, powers of references and of numbers)
                let r = &q;
                let nested = r.squared().cubed();
                same_dim("squared cubed", sys::dim(&nested), E.map(|e| 6.0 * e))?;
                let n = N::new_unchecked(x);
                <$S as Near>::near("number squared", n.squared().value(), x * x, 1)?;
                <$S as Near>::near("number cubed", n.cubed().value(), reference(x, 3), 2)?;
                let pow: N = n.powi::<-2>();
                <$S as Near>::near("number to the -2", pow.value(), reference(x, -2), 2)?;
                expect_same("operand", q.value_unchecked(), x)
            }

            #[cfg(feature = "roots")]
            pub fn roots(t: &mut Tape, c: &mut Ctx) -> Res {
                let x = value(t, c);
                type Q6 = sys::dimensions::Hyper<$S>;
                type Q2 = sys::dimensions::Area<$S>;
                type L = sys::dimensions::Length<$S>;
                type A = sys::dimensions::InvArea<$S>;
                let q6 = Q6::new_unchecked(x);
                <$S as Near>::near("sqrt", q6.sqrt().value_unchecked(), x.sqrt(), 1)?;
                same_dim("sqrt", sys::dim(&q6.sqrt()), [3.0, 0.0, 0.0, 0.0])?;
                <$S as Near>::near("cbrt", q6.cbrt().value_unchecked(), x.cbrt(), 2)?;
                same_dim("cbrt", sys::dim(&q6.cbrt()), [2.0, 0.0, 0.0, 0.0])?;
                let s: L = Q2::new_unchecked(x).sqrt();
                <$S as Near>::near("sqrt of an area", s.value_unchecked(), x.sqrt(), 1)?;
                let l: L = sys::dimensions::Volume::<$S>::new_unchecked(x).cbrt();
                <$S as Near>::near("cbrt of a volume", l.value_unchecked(), x.cbrt(), 2)?;
                let i: sys::dimensions::InvLength<$S> = A::new_unchecked(x).sqrt();
                <$S as Near>::near("sqrt of an inverse area", i.value_unchecked(), x.sqrt(), 1)?;
                let n = N::new_unchecked(x);
                let r: N = n.sqrt();
                <$S as Near>::near("sqrt of a number", r.value(), x.sqrt(), 1)?;
                let r: N = n.cbrt();
                <$S as Near>::near("cbrt of a number", r.value(), x.cbrt(), 2)?;
                // roots of powers, in type and value
                let small = (x.abs() as f64) > 1e-12 && (x.abs() as f64) < 1e12;
                let l = L::new_unchecked(x);
                let abs: L = l.squared().sqrt();
                let back: L = l.cubed().cbrt();
                if small {
                    <$S as Near>::near("sqrt of a square", abs.value_unchecked(), x.abs(), 4)?;
                    <$S as Near>::near("cbrt of a cube", back.value_unchecked(), x, 4)?;
                }
                let general = Q::new_unchecked(x);
                let _: Q = general.squared().sqrt();
                let _: Q = general.cubed().cbrt();
                same_dim("sqrt of a square", sys::dim(&general.squared().sqrt()), E)?;
                same_dim("cbrt of a cube", sys::dim(&general.cubed().cbrt()), E)?;
                #[cfg(feature = "rational")]
                {
                    let r = general.sqrt();
                    <$S as Near>::near("root of any dimension", r.value_unchecked(), x.sqrt(), 1)?;
                    same_dim("root of any dimension", sys::dim(&r), E.map(|e| e / 2.0))?;
                    let r = general.cbrt();
                    <$S as Near>::near("cubic root of any dimension", r.value_unchecked(), x.cbrt(), 2)?;
                    let thirds: Q = r.cubed();
                    same_dim("cube of a cubic root", sys::dim(&thirds), E)?;
                    let halves: Q = general.sqrt().squared();
                    same_dim("square of a square root", sys::dim(&halves), E)?;
                    let sixth: Q = general.sqrt().cbrt().powi::<6>();
                    same_dim("sixth power of a sixth root", sys::dim(&sixth), E)?;
                }
                Ok(())
            }
        }
    };
}
props!(f64_length, f64, f64, Length, [1.0, 0.0, 0.0, 0.0]);
props!(f32_velocity, f32, f32, Velocity, [1.0, -1.0, 0.0, 0.0]);
props!(f64_odd, f64, f64, Odd, [0.0, -3.0, 2.0, 1.0]);
props!(f32_energy, f32, f32, Energy, [2.0, -2.0, 1.0, 0.0]);

macro_rules! si_props {
    ($f:ident, $S:ident) => {
        fn $f(t: &mut Tape, c: &mut Ctx) -> Res {
            use diman::si::dimensions::*;
            let x = <$S as Storage>::gen(t);
            c.note(x.show());
            if x != 0.0 && x != 1.0 {
                c.nontrivial();
            }
            let a: Area<$S> = Length::<$S>::new_unchecked(x).squared();
            <$S as Near>::near("area", a.value_unchecked(), x * x, 1)?;
            let v: Volume<$S> = Length::<$S>::new_unchecked(x).cubed();
            <$S as Near>::near("volume", v.value_unchecked(), x.powi(3), 2)?;
            let f: Frequency<$S> = Time::<$S>::new_unchecked(x).powi::<-1>();
            <$S as Near>::near("frequency", f.value_unchecked(), 1.0 / x, 1)?;
            #[cfg(feature = "roots")]
            {
                let l: Length<$S> = Area::<$S>::new_unchecked(x).sqrt();
                <$S as Near>::near("side", l.value_unchecked(), x.sqrt(), 1)?;
                let l: Length<$S> = Volume::<$S>::new_unchecked(x).cbrt();
                <$S as Near>::near("edge", l.value_unchecked(), x.cbrt(), 2)?;
            }
            Ok(())
        }
    };
}
si_props!(si_f64, f64);
si_props!(si_f32, f32);

fn main() {
    let mut p: Vec<Prop> = vec![];
    macro_rules! floats {
        ($($m:ident)*) => {
            $(
                p.push(Prop { name: concat!(stringify!($m), " powers"), weight: 2, run: $m::powers });
                p.push(Prop { name: concat!(stringify!($m), " large powers"), weight: 1, run: $m::large_powers });
                #[cfg(feature = "roots")]
                p.push(Prop { name: concat!(stringify!($m), " roots"), weight: 2, run: $m::roots });
            )*
        };
    }
    floats!(f64_length f32_velocity f64_odd f32_energy);
    p.push(Prop { name: "SI f64", weight: 1, run: si_f64 });
    p.push(Prop { name: "SI f32", weight: 1, run: si_f32 });
    vpbt::main(p);
}
