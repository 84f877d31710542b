// C04: unit multiplication, division and value_in convert by the unit's exact factor.
#![allow(incomplete_features)]
#![feature(generic_const_exprs, adt_const_params)]
#[path = "vpbt.rs"]
mod vpbt;
#[path = "sys.rs"]
mod sys;
use sys::units::*;
use sys::constants::*;
use sys::*;
use vpbt::*;

const ULPS: u64 = 4;

fn check<S: Close, const D: Dimension>(what: &str, got: Quantity<S, D>, dims: [f64; 4], want: S) -> Res {
    if exps(&D) != dims {
        return Err(format!("{what}: dimension {:?} want {:?}", exps(&D), dims));
    }
    expect_close(what, got.value_unchecked(), want, ULPS)
}

fn add(a: [f64; 4], b: [f64; 4]) -> [f64; 4] {
    std::array::from_fn(|i| a[i] + b[i])
}
fn sub(a: [f64; 4], b: [f64; 4]) -> [f64; 4] {
    std::array::from_fn(|i| a[i] - b[i])
}

/// The factor that the unit carries, after comparing it with the documented one
fn factor<U: Into<Magnitude>>(u: U, want: f64) -> Result<f64, String> {
    let f = u.into().into_f64();
    if (f - want).abs() > 4e-16 * want.abs() {
        return Err(format!("conversion factor {f:e} want {want:e}"));
    }
    Ok(f)
}

const NONE: [f64; 4] = [0.0; 4];
const VEL: [f64; 4] = [1.0, -1.0, 0.0, 0.0];

// The forms that are offered for every storage type
macro_rules! forms {
    (vector, $what:expr, $u:expr, $F:expr, $dims:expr, $S:ty, $Fl:ty, $a:ident) => {{
        let a: $S = $a;
        let f = $F as $Fl;
        let q = dimensions::Velocity::<$S>::new_unchecked;
        let what = |s: &str| format!("{} with u = {}", s, $what);
        check(&what("x * u"), a * $u, $dims, a * f)?;
        check(&what("u * x"), $u * a, $dims, f * a)?;
        check(&what("x / u"), a / $u, sub(NONE, $dims), a / f)?;
        check(&what("u / x"), $u / a, $dims, f / a)?;
        check(&what("u / q"), $u / q(a), sub($dims, VEL), f / a)?;
    }};
    // ... and those for scalars only
    (scalar, $what:expr, $u:expr, $F:expr, $dims:expr, $S:ty, $Fl:ty, $a:ident) => {{
        forms!(vector, $what, $u, $F, $dims, $S, $Fl, $a);
        let a: $S = $a;
        let f = $F as $Fl;
        let q = dimensions::Velocity::<$S>::new_unchecked;
        let what = |s: &str| format!("{} with u = {}", s, $what);
        check(&what("u.new(x)"), $u.new(a), $dims, a * f)?;
        check(&what("q * u"), q(a) * $u, add(VEL, $dims), a * f)?;
        check(&what("u * q"), $u * q(a), add(VEL, $dims), a * f)?;
        check(&what("q / u"), q(a) / $u, sub(VEL, $dims), a / f)?;
        let y = a * f;
        expect_close(&what("(x * u).value_in(u)"), (a * $u).value_in($u), y / f, ULPS)?;
        expect_close(&what("(u * x).value_in(magnitude)"), ($u * a).value_in(Magnitude::from($u)), y / f, ULPS)?;
    }};
}

macro_rules! unit_props {
    ($kind:ident, $mod:ident, $S:ty, $Fl:ty, [$($u:ident $dims:expr, $f:expr;)*], [$($ul:ident $ulf:expr, $ur:ident $urf:expr, $ud:expr, $vd:expr;)*]) => {
        pub mod $mod {
            use super::*;
            pub fn single(t: &mut Tape, c: &mut Ctx) -> Res {
                let a = <$S as Storage>::gen(t);
                let fns: &[(&'static str, fn($S) -> Res)] = &[
                    $((stringify!($u), |a: $S| {
                        let f = factor($u, $f).map_err(|e| format!("{}: {e}", stringify!($u)))?;
                        forms!($kind, stringify!($u), $u, f, $dims, $S, $Fl, a);
                        Ok(())
                    }),)*
                ];
                let (name, f) = t.pick(fns);
                c.note(format!("unit {name} value {}", a.show()));
                c.class(name);
                if !a.same(&Default::default()) && *name != "meter" && *name != "second" {
                    c.nontrivial();
                }
                f(a)
            }
            pub fn composite(t: &mut Tape, c: &mut Ctx) -> Res {
                let a = <$S as Storage>::gen(t);
                let fns: &[(&'static str, fn($S) -> Res)] = &[
                    $((concat!(stringify!($ul), ", ", stringify!($ur)), |a: $S| {
                        let fl = factor($ul, $ulf)?;
                        let fr = factor($ur, $urf)?;
                        let (dl, dr): ([f64; 4], [f64; 4]) = ($ud, $vd);
                        forms!($kind, concat!(stringify!($ul), " * ", stringify!($ur)), ($ul * $ur), fl * fr, add(dl, dr), $S, $Fl, a);
                        forms!($kind, concat!(stringify!($ul), " / ", stringify!($ur)), ($ul / $ur), fl / fr, sub(dl, dr), $S, $Fl, a);
                        Ok(())
                    }),)*
                ];
                let (name, f) = t.pick(fns);
                c.note(format!("units {name} value {}", a.show()));
                if !a.same(&Default::default()) {
                    c.nontrivial();
                }
                f(a)
            }
        }
    };
}

const L: [f64; 4] = [1.0, 0.0, 0.0, 0.0];
const T: [f64; 4] = [0.0, 1.0, 0.0, 0.0];
const M: [f64; 4] = [0.0, 0.0, 1.0, 0.0];
const I: [f64; 4] = [0.0, 0.0, 0.0, 1.0];
const E: [f64; 4] = [2.0, -2.0, 1.0, 0.0];

macro_rules! all_units {
    ($kind:ident, $mod:ident, $S:ty, $Fl:ty) => {
        unit_props!($kind, $mod, $S, $Fl, [
            meter L, 1.0;
            metre L, 1.0;
            kilometer L, 1e3;
            micrometre L, 1e-6;
            attometer L, 1e-18;
            exametre L, 1e18;
            second T, 1.0;
            millisecond T, 1e-3;
            kilogram M, 1.0;
            ampere I, 1.0;
            foot L, 0.3048;
            hour T, 3600.0;
            kmh VEL, 1000.0 / 3600.0;
            joule E, 1.0;
            megajoule E, 1e6;
            third M, 1.0 / 3.0;
            anti L, -2.5;
            big L, 1.5e35;
            tiny L, 7.25e-36;
            percent NONE, 0.01;
            dozen NONE, 12.0;
            perms [0.0, -1.0, 0.0, 0.0], 1000.0;
            oddu [0.0, -3.0, 2.0, 1.0], 3.5;
            nosymbol T, 17.5;
            CLIGHT VEL, 299792458.0;
            RATIO NONE, 2.75;
        ], [
            meter 1.0, second 1.0, L, T;
            kilometer 1000.0, hour 3600.0, L, T;
            foot 0.3048, millisecond 0.001, L, T;
            anti -2.5, third 1.0 / 3.0, L, M;
            kmh 1000.0 / 3600.0, kmh 1000.0 / 3600.0, VEL, VEL;
            joule 1.0, oddu 3.5, E, [0.0, -3.0, 2.0, 1.0];
            percent 0.01, dozen 12.0, NONE, NONE;
            perms 1000.0, ampere 1.0, [0.0, -1.0, 0.0, 0.0], I;
            CLIGHT 299792458.0, megajoule 1e6, VEL, E;
            RATIO 2.75, nosymbol 17.5, NONE, T;
        ]);
    };
}
all_units!(scalar, f64s, f64, f64);
all_units!(scalar, f32s, f32, f32);
#[cfg(feature = "glam")]
all_units!(vector, vec2s, glam::Vec2, f32);
#[cfg(feature = "glam")]
all_units!(vector, dvec2s, glam::DVec2, f64);
#[cfg(feature = "glam")]
all_units!(vector, vec3s, glam::Vec3, f32);
#[cfg(feature = "glam")]
all_units!(vector, dvec3s, glam::DVec3, f64);

// Factors near the ends of the ranges of f32 and f64, where reciprocals and roundings to f32 leave the range
mod extreme {
    use crate::vpbt::*;
    use crate::{add, factor, sub, I, L, M, NONE, T, ULPS, VEL};
    diman::unit_system!(
        quantity_type Quantity;
        dimension_type Dimension;
        dimension Length;
        dimension Time;
        dimension Mass;
        dimension Current;
        dimension Velocity = Length / Time;
        #[base(Length)] #[symbol(m)] unit meter;
        #[base(Time)] #[symbol(s)] unit second;
        #[base(Mass)] #[symbol(kg)] unit kilogram;
        #[base(Current)] #[symbol(A)] unit ampere;
        unit huge: Length = 2.5e38 meter;
        unit vast: Time = -1.1e38 * second;
        unit small: Length = 3.5e-39 meter;
        unit subnormal: Mass = 7e-43 kilogram;
        unit ratio_high: Velocity = 3.4e19 meter / second;
        unit ratio_low: Velocity = 0.5e-38 meter / second;
        unit speck = 1.5e-38;
        unit almost: Current = 0.99999994 ampere;
        unit enormous: Length = 1.5e308 meter;
        unit minuscule: Length = 2.5e-308 meter;
        unit denormal: Time = 4e-312 second;
        unit uneven: Mass = 1.0000000000000002 kilogram;
    );
    use units::*;
    fn exps(d: &Dimension) -> [f64; 4] {
        #[cfg(not(feature = "rational"))]
        return [d.length as f64, d.time as f64, d.mass as f64, d.current as f64];
        #[cfg(feature = "rational")]
        return [&d.length, &d.time, &d.mass, &d.current].map(|r| r.num() as f64 / r.denom() as f64);
    }
    fn check<S: Close, const D: Dimension>(what: &str, got: Quantity<S, D>, dims: [f64; 4], want: S) -> Res {
        if exps(&D) != dims {
            return Err(format!("{what}: dimension {:?} want {:?}", exps(&D), dims));
        }
        expect_close(what, got.value_unchecked(), want, ULPS)
    }
    macro_rules! extremes {
        ($kind:ident, $mod:ident, $S:ty, $Fl:ty, $($u:ident $dims:expr, $f:expr;)*) => {
            unit_props!($kind, $mod, $S, $Fl, [
                huge L, 2.5e38;
                vast T, -1.1e38;
                small L, 3.5e-39;
                subnormal M, 7e-43;
                ratio_high VEL, 3.4e19;
                ratio_low VEL, 0.5e-38;
                speck NONE, 1.5e-38;
                almost I, 0.99999994;
                $($u $dims, $f;)*
            ], [
                speck 1.5e-38, huge 2.5e38, NONE, L;
                small 3.5e-39, vast -1.1e38, L, T;
                ratio_high 3.4e19, almost 0.99999994, VEL, I;
            ]);
        };
    }
    extremes!(scalar, f64s, f64, f64, enormous L, 1.5e308; minuscule L, 2.5e-308; denormal T, 4e-312; uneven M, 1.0000000000000002;);
    extremes!(scalar, f32s, f32, f32,);
    #[cfg(feature = "glam")]
    extremes!(vector, vec3s, glam::Vec3, f32,);
    #[cfg(feature = "glam")]
    extremes!(vector, dvec2s, glam::DVec2, f64, enormous L, 1.5e308; minuscule L, 2.5e-308; denormal T, 4e-312; uneven M, 1.0000000000000002;);
}

// value_in between different units, and construction undone by value_in
macro_rules! round_trips {
    ($name:ident, $S:ident) => {
        fn $name(t: &mut Tape, c: &mut Ctx) -> Res {
            let a = t.$S();
            c.note(format!("{}", a.show()));
            if !(a.abs() > 1e-20 && a.abs() < 1e20) {
                return Ok(());
            }
            c.nontrivial();
            let ok = |what: &str, got: $S, want: $S| -> Res {
                if ((got - want) / want).abs() > 16.0 * $S::EPSILON {
                    return Err(format!("{what}: got {got:e} want {want:e}"));
                }
                Ok(())
            };
            macro_rules! back {
                ($u:ident) => {
                    ok(concat!("x ", stringify!($u), " back"), (a * $u).value_in($u), a)?;
                    ok(concat!("-> ", stringify!($u), " back"), ($u.new(a)).value_in($u), a)?;
                    ok(concat!("q / u * u for ", stringify!($u)), (dimensions::Velocity::<$S>::new_unchecked(a) / $u * $u).value_unchecked(), a)?;
                };
            }
            back!(kilometer); back!(foot); back!(hour); back!(kmh); back!(anti); back!(joule); back!(third); back!(percent);
            back!(perms); back!(oddu); back!(CLIGHT); back!(nosymbol);
            ok("km in m", (a * kilometer).value_in(meter), a * 1000.0)?;
            ok("ft in km", (a * foot).value_in(kilometer), a * 0.0003048)?;
            ok("h in ms", (a * hour).value_in(millisecond), a * 3600000.0)?;
            ok("kmh in ft / h", (a * kmh).value_in(foot / hour), a / 0.0003048)?;
            ok("km / h in kmh", ((kilometer / hour) * a).value_in(kmh), a)?;
            ok("hour / (time in hours)", (hour / dimensions::Time::<$S>::new_unchecked(a * 3600.0)).value(), 1.0 / a)?;
            Ok(())
        }
    };
}

round_trips!(convert64, f64);
round_trips!(convert32, f32);

fn main() {
    #[allow(unused_mut)]
    let mut props = vec![
        Prop { name: "f64", weight: 3, run: f64s::single },
        Prop { name: "f64 composite", weight: 2, run: f64s::composite },
        Prop { name: "f32", weight: 3, run: f32s::single },
        Prop { name: "f32 composite", weight: 2, run: f32s::composite },
        Prop { name: "f64 extremes", weight: 2, run: extreme::f64s::single },
        Prop { name: "f64 extremes composite", weight: 1, run: extreme::f64s::composite },
        Prop { name: "f32 extremes", weight: 2, run: extreme::f32s::single },
        Prop { name: "f32 extremes composite", weight: 1, run: extreme::f32s::composite },
        Prop { name: "f64 conversion", weight: 1, run: convert64 },
        Prop { name: "f32 conversion", weight: 1, run: convert32 },
    ];
    #[cfg(feature = "glam")]
    props.extend([
        Prop { name: "Vec2", weight: 2, run: vec2s::single },
        Prop { name: "Vec2 composite", weight: 1, run: vec2s::composite },
        Prop { name: "DVec2", weight: 2, run: dvec2s::single },
        Prop { name: "DVec2 composite", weight: 1, run: dvec2s::composite },
        Prop { name: "Vec3", weight: 2, run: vec3s::single },
        Prop { name: "Vec3 composite", weight: 1, run: vec3s::composite },
        Prop { name: "DVec3", weight: 2, run: dvec3s::single },
        Prop { name: "Vec3 extremes", weight: 1, run: extreme::vec3s::single },
        Prop { name: "DVec2 extremes", weight: 1, run: extreme::dvec2s::single },
        Prop { name: "DVec3 composite", weight: 1, run: dvec3s::composite },
    ]);
    vpbt::main(props);
}
