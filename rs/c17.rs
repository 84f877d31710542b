// C17: dimensionless math functions equal the float functions of the same name.
#![allow(incomplete_features)]
#![feature(generic_const_exprs, adt_const_params)]
#[path = "vpbt.rs"]
mod vpbt;
#[path = "sys.rs"]
mod sys;
use core::ops::Deref;
use vpbt::*;

/// With libm the functions are compared to the ones of std, to within the accuracy
/// that is common to the two libraries.
#[cfg(feature = "roots")]
trait Near {
    fn near(what: &str, got: Self, want: Self) -> Res;
}
#[cfg(feature = "roots")]
macro_rules! near {
    ($S:ty, $rel:literal, $abs:literal, $ulps:ident) => {
        impl Near for $S {
            fn near(what: &str, got: $S, want: $S) -> Res {
                let exact = !cfg!(feature = "libm");
                // (libm does not report the domain error of acosh everywhere)
                if !exact && what.starts_with("acosh") && want.is_nan() {
                    return Ok(());
                }
                let ok = if exact { got.same(&want) || $ulps(got, want) <= 1 } else { got.same(&want) || (got - want).abs() <= $rel * want.abs() + $abs };
                if ok {
                    Ok(())
                } else {
                    Err(format!("{what}: got {} want {}", got.show(), want.show()))
                }
            }
        }
    };
}
#[cfg(feature = "roots")]
near!(f64, 1e-8, 1e-14, ulps64);
#[cfg(feature = "roots")]
near!(f32, 4e-5, 3e-7, ulps32);

#[cfg(feature = "roots")]
macro_rules! functions {
    ($S:ident, $N:ident, $n:ident, $x:ident, $($f:ident)*) => {
        $({
            let got: $N = $n.$f();
            <$S as Near>::near(stringify!($f), got.value(), <$S>::$f($x))?;
            let r: &$N = &$n;
            let got: $N = r.$f();
            <$S as Near>::near(concat!(stringify!($f), " of a reference"), got.value(), <$S>::$f($x))?;
        })*
    };
}

macro_rules! props {
    ($mod:ident, $S:ident, $sys:path) => {
        mod $mod {
            use super::*;
            use $sys as s;
            type N = s::dimensions::Dimensionless<$S>;

            /// Arguments in the interesting range of the function, or anything
            #[cfg(feature = "roots")]
            fn argument(t: &mut Tape, c: &mut Ctx) -> $S {
                let x = match t.draw(5) {
                    0 => (t.range(-2000, 2000) as f64 / 1000.0) as $S,
                    1 => (t.range(-100_000, 100_000) as f64 / 1300.0) as $S,
                    2 => (t.draw(1000) as f64 * 0.001) as $S,
                    3 => (1.0 + t.range(-1000, 1000) as f64 * 1e-5) as $S,
                    _ => <$S as Storage>::gen(t),
                };
                c.note(x.show());
                if x != 0.0 && x != 1.0 && !x.is_nan() {
                    c.nontrivial();
                }
                x
            }

            #[cfg(feature = "roots")]
            pub fn functions(t: &mut Tape, c: &mut Ctx) -> Res {
                let x = argument(t, c);
                let n = N::new_unchecked(x);
                functions!($S, N, n, x, log2 ln log10 exp exp2 ceil floor sin cos tan asin acos atan sinh cosh tanh asinh acosh atanh exp_m1 ln_1p);
                expect_same("argument", n.value(), x)
            }

            pub fn access(t: &mut Tape, c: &mut Ctx) -> Res {
                let x = <$S as Storage>::gen(t);
                c.note(x.show());
                c.nontrivial();
                let n = N::new_unchecked(x);
                expect_same("value", n.value(), x)?;
                expect_same("value_ref", *n.value_ref(), x)?;
                expect_same("deref", *n, x)?;
                expect_same("Deref::deref", *n.deref(), x)?;
                let from: N = N::from(x);
                expect_same("from", from.value_unchecked(), x)?;
                let into: N = x.into();
                expect_same("into", into.value_unchecked(), x)?;
                if n.value_ref() as *const $S as usize != &n as *const N as usize || n.deref() as *const $S as usize != &n as *const N as usize {
                    return Err("value_ref or deref does not refer to the quantity itself".to_string());
                }
                // methods of the stored number through deref
                expect_same("to_bits", vec![(*n).to_bits() as f64], vec![x.to_bits() as f64])?;
                expect_same("is_infinite", n.is_infinite(), x.is_infinite())?;
                expect_same("is_finite", n.is_finite(), x.is_finite())?;
                // a ratio of two quantities is a number again
                type L = s::dimensions::Length<$S>;
                let y = <$S as Storage>::gen(t);
                let ratio = L::new_unchecked(x) / L::new_unchecked(y);
                expect_same("ratio", ratio.value(), x / y)?;
                expect_same("ratio", *(L::new_unchecked(x) / L::new_unchecked(y)), x / y)?;
                #[cfg(feature = "roots")]
                {
                    <$S as Near>::near("function of a ratio", ratio.exp().value(), (x / y).exp())?;
                    <$S as Near>::near("function of a product", (L::new_unchecked(x) * (1.0 as $S / L::new_unchecked(y))).cos().value(), (x * (1.0 / y)).cos())?;
                }
                Ok(())
            }
        }
    };
}

props!(f64_sys, f64, crate::sys);
props!(f32_sys, f32, crate::sys);
props!(f64_si, f64, diman::si);
props!(f32_si, f32, diman::si);

macro_rules! vec_access {
    ($f:ident, $V:ident) => {
        #[cfg(feature = "glam")]
        fn $f(t: &mut Tape, c: &mut Ctx) -> Res {
            let x = <glam::$V as Storage>::gen(t);
            c.note(x.show());
            c.nontrivial();
            type N = sys::dimensions::Dimensionless<glam::$V>;
            let n = N::from(x);
            expect_same("value", n.value(), x)?;
            expect_same("value_ref", *n.value_ref(), x)?;
            expect_same("deref", *n, x)?;
            expect_same("new_unchecked", N::new_unchecked(x).value(), x)?;
            expect_same("component", (*n).x, x.x)
        }
    };
}
vec_access!(vec2, Vec2);
vec_access!(dvec2, DVec2);
vec_access!(vec3, Vec3);
vec_access!(dvec3, DVec3);

fn main() {
    let mut p: Vec<Prop> = vec![];
    macro_rules! floats {
        ($($m:ident)*) => {
            $(
                #[cfg(feature = "roots")]
                p.push(Prop { name: concat!(stringify!($m), " functions"), weight: 4, run: $m::functions });
                p.push(Prop { name: concat!(stringify!($m), " access"), weight: 1, run: $m::access });
            )*
        };
    }
    floats!(f64_sys f32_sys f64_si f32_si);
    #[cfg(feature = "glam")]
    {
        p.push(Prop { name: "vec2", weight: 1, run: vec2 });
        p.push(Prop { name: "dvec2", weight: 1, run: dvec2 });
        p.push(Prop { name: "vec3", weight: 1, run: vec3 });
        p.push(Prop { name: "dvec3", weight: 1, run: dvec3 });
    }
    vpbt::main(p);
}
