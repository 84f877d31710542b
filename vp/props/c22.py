"""C22: the predefined SI module matches the SI.

The reference is an independent table of the SI (written from the SI brochure and the
definitions of the accepted units, not from src/si.rs). The check enumerates every name
(units, plural and alternative spellings, with every metric prefix), every symbol and every
named dimension, each with generated values."""
import os
from fractions import Fraction as F

from .. import core

# exponents in the order length, time, mass, temperature, current, amount, luminous intensity
L, T, M, K, I, N, J = [tuple(int(i == j) for j in range(7)) for i in range(7)]


def mul(*ds):
    return tuple(sum(x) for x in zip(*ds))


def power(d, n):
    return tuple(n * x for x in d)


def dim(l=0, t=0, m=0, k=0, i=0, n=0, j=0):
    return (l, t, m, k, i, n, j)


PREFIXES = [
    ("exa", "E", 18), ("peta", "P", 15), ("tera", "T", 12), ("giga", "G", 9), ("mega", "M", 6), ("kilo", "k", 3),
    ("hecto", "h", 2), ("deca", "da", 1), ("deci", "d", -1), ("centi", "c", -2), ("milli", "m", -3), ("micro", "μ", -6),
    ("nano", "n", -9), ("pico", "p", -12), ("femto", "f", -15), ("atto", "a", -18),
]

PI = F("3.14159265358979323846264338327950288")
NONE = dim()
FORCE = dim(1, -2, 1)
ENERGY = dim(2, -2, 1)
VOLT = dim(2, -3, 1, 0, -1)
# (names, symbol, prefixes, factor, dimension)
UNITS = [
    (["meter", "meters", "metre", "metres"], "m", "all", F(1), L),
    (["second", "seconds"], "s", "all", F(1), T),
    (["kilogram", "kilograms"], "kg", "", F(1), M),
    (["gram", "grams"], "g", "not kilo", F(1, 1000), M),
    (["ampere", "amperes"], "A", "all", F(1), I),
    (["kelvin", "kelvins"], "K", "all", F(1), K),
    (["mole", "moles"], "mol", "all", F(1), N),
    (["candela", "candelas"], "cd", "all", F(1), J),
    (["radian", "radians"], "rad", "all", F(1), NONE),
    (["steradian", "steradians"], "sr", "all", F(1), NONE),
    (["hertz"], "Hz", "all", F(1), dim(t=-1)),
    (["newton", "newtons"], "N", "all", F(1), FORCE),
    (["pascal", "pascals"], "Pa", "all", F(1), dim(-1, -2, 1)),
    (["joule", "joules"], "J", "all", F(1), ENERGY),
    (["watt", "watts"], "W", "all", F(1), dim(2, -3, 1)),
    (["coulomb", "coulombs"], "C", "all", F(1), dim(t=1, i=1)),
    (["volt", "volts"], "V", "all", F(1), VOLT),
    (["farad", "farads"], "F", "all", F(1), dim(-2, 4, -1, 0, 2)),
    (["ohm", "ohms"], "Ω", "all", F(1), dim(2, -3, 1, 0, -2)),
    (["siemens"], "S", "all", F(1), dim(-2, 3, -1, 0, 2)),
    (["weber", "webers"], "Wb", "all", F(1), dim(2, -2, 1, 0, -1)),
    (["tesla", "teslas"], "T", "all", F(1), dim(0, -2, 1, 0, -1)),
    (["henry", "henrys"], "H", "all", F(1), dim(2, -2, 1, 0, -2)),
    (["lumen", "lumens"], "lm", "all", F(1), J),
    (["lux"], "lx", "all", F(1), dim(l=-2, j=1)),
    (["becquerel", "becquerels"], "Bq", "all", F(1), dim(t=-1)),
    (["gray", "grays"], "Gy", "all", F(1), dim(2, -2)),
    (["sievert", "sieverts"], "Sv", "all", F(1), dim(2, -2)),
    (["katal", "katals"], "kat", "all", F(1), dim(t=-1, n=1)),
    (["minute", "minutes"], "min", "", F(60), T),
    (["hour", "hours"], "h", "", F(3600), T),
    (["day", "days"], "day", "", F(86400), T),
    (["astronomicalunit", "astronomicalunits"], "au", "", F(149597870700), L),
    (["degree", "degrees"], "deg", "", PI / 180, NONE),
    (["arcminute", "arcminutes"], None, "", PI / 180 / 60, NONE),
    (["arcsecond", "arcseconds"], None, "", PI / 180 / 3600, NONE),
    (["are", "ares"], None, "", F(100), dim(2)),
    (["hectare", "hectares"], "ha", "", F(10000), dim(2)),
    (["litre", "litres"], "l", "all", F(1, 1000), dim(3)),
    (["tonne", "tonnes"], None, "all", F(1000), M),
    (["dalton", "daltons"], "Da", "", F("1.66053906660e-27"), M),
    (["electronvolt", "electronvolts"], "eV", "all", F("1.602176634e-19"), ENERGY),
    (["joule_per_kilogram", "joules_per_kilogram"], None, "all", F(1), dim(2, -2)),
    (["joule_per_kilogram_kelvin", "joules_per_kilogram_kelvin"], None, "all", F(1), dim(2, -2, 0, -1)),
    (["meter_per_second", "meters_per_second"], None, "all", F(1), dim(1, -1)),
    (["square_meter", "square_meters", "square_metre", "square_metres"], None, "", F(1), dim(2)),
    (["cubic_meter", "cubic_meters", "cubic_metre", "cubic_metres"], None, "", F(1), dim(3)),
]

DIMENSIONS = dict(
    Length=L, Time=T, Mass=M, Temperature=K, Current=I, AmountOfSubstance=N, LuminousIntensity=J, Dimensionless=NONE,
    Angle=NONE, SolidAngle=NONE, Area=dim(2), Volume=dim(3), Wavenumber=dim(-1), Frequency=dim(t=-1), Velocity=dim(1, -1),
    Acceleration=dim(1, -2), Jerk=dim(1, -3), FlowRate=dim(3, -1), Momentum=dim(1, -1, 1), Force=FORCE, Energy=ENERGY,
    Power=dim(2, -3, 1), Pressure=dim(-1, -2, 1), Action=dim(2, -1, 1), MassDensity=dim(-3, 0, 1), MomentOfInertia=dim(2, 0, 1),
    AngularMomentum=dim(2, -1, 1), Torque=dim(2, -2, 1), EnergyDensity=dim(-1, -2, 1), MassFlow=dim(0, -1, 1),
    ElectricCharge=dim(t=1, i=1), Voltage=VOLT, Capacitance=dim(-2, 4, -1, 0, 2), ElectricResistance=dim(2, -3, 1, 0, -2),
    Resistivity=dim(3, -3, 1, 0, -2), ElectricConductance=dim(-2, 3, -1, 0, 2), Conductivity=dim(-3, 3, -1, 0, 2),
    MagneticFluxDensity=dim(0, -2, 1, 0, -1), MagneticFlux=dim(2, -2, 1, 0, -1), MagneticFieldStrength=dim(l=-1, i=1),
    Inductance=dim(2, -2, 1, 0, -2), ElectricChargeDensity=dim(l=-3, t=1, i=1), CurrentDensity=dim(l=-2, i=1),
    ElectricDipoleMoment=dim(l=1, t=1, i=1), ElectricQuadrupoleMoment=dim(l=2, t=1, i=1), MagneticDipoleMoment=dim(l=2, i=1),
    ElectricFieldStrength=dim(1, -3, 1, 0, -1), ElectricDisplacementFieldStrength=dim(l=-2, t=1, i=1),
    ElectricPermittivity=dim(-3, 4, -1, 0, 2), MagneticPermeability=dim(1, -2, 1, 0, -2), Polarizability=dim(0, 4, -1, 0, 2),
    ElectricMobility=dim(0, 2, -1, 0, 1), Entropy=dim(2, -2, 1, -1), HeatCapacity=dim(2, -2, 1, -1),
    SpecificHeatCapacity=dim(2, -2, 0, -1), ThermalConductivity=dim(1, -3, 1, -1), ThermalTransmittance=dim(0, -3, 1, -1),
    MolarMass=dim(m=1, n=-1), MolarVolume=dim(l=3, n=-1), CatalyticActivity=dim(t=-1, n=1), Molarity=dim(l=-3, n=1),
    Molality=dim(m=-1, n=1), ChemicalPotential=dim(2, -2, 1, 0, 0, -1), MolarHeatCapacity=dim(2, -2, 1, -1, 0, -1),
    LuminousFlux=J, Illuminance=dim(l=-2, j=1), Irradiance=dim(0, -3, 1), Activity=dim(t=-1), AbsorbedDose=dim(2, -2),
    EquivalentDose=dim(2, -2), SpecificActivity=dim(0, -1, -1), DynamicViscosity=dim(-1, -1, 1), KinematicViscosity=dim(2, -1),
    MomentumDensity=dim(-2, -1, 1), SpecificEnergy=dim(2, -2), MassFlux=dim(-2, -1, 1), EnergyFlux=dim(0, -3, 1),
)


def names():
    """(name, symbol or None, factor, dimension, plain name?)"""
    out = []
    for ns, sym, pre, factor, d in UNITS:
        for k, n in enumerate(ns):
            out.append((n, sym if k == 0 else None, factor, d))
            for pname, psym, e in PREFIXES:
                if pre == "all" or (pre == "not kilo" and pname != "kilo"):
                    f = factor * F(10) ** e
                    out.append((pname + n, psym + sym if sym and k == 0 else None, f, d))
    return out


def fl(x):
    return repr(float(x))


SOURCE = r'''
#![allow(incomplete_features)]
#![feature(generic_const_exprs, adt_const_params)]
#[path = "%(rs)s/vpbt.rs"]
mod vpbt;
use diman::si::*;
use vpbt::*;

struct Unit {
    name: &'static str,
    symbol: Option<&'static str>,
    factor: f64,
    exps: [i32; 7],
    /// value times unit, with what the unit makes of it
    f64: fn(f64) -> (f64, f64, Dimension, String, Quantity<f64, { Dimension::none() }>),
    f32: fn(f32) -> (f32, f32, Dimension),
    parse: fn(&str) -> Result<f64, String>,
}

// Dimensions are compared with products of powers of quantities of the base dimensions
// (the fields of a dimension are private to the module that declares it).
fn dim<S, const D: Dimension>(_: &Quantity<S, D>) -> Dimension {
    D
}
fn reference(e: [i32; 7]) -> Dimension {
    use dimensions::*;
    match e {
%(refs)s
        _ => unreachable!(),
    }
}
fn parse<const D: Dimension>(_: &Quantity<f64, D>, s: &str) -> Result<f64, String> {
    serde_yaml::from_str::<Quantity<f64, D>>(s).map(|x| x.value_unchecked()).map_err(|e| e.to_string())
}

macro_rules! unit {
    ($name:ident, $symbol:expr, $factor:expr, $exps:expr) => {
        Unit {
            name: stringify!($name),
            symbol: $symbol,
            factor: $factor,
            exps: $exps,
            f64: |x| {
                let q = x * units::$name;
                let r = (x * units::$name) / (1.0f64 * units::$name);
                (q.value_unchecked(), q.value_in(units::$name), dim(&q), format!("{:?}", q), r)
            },
            f32: |x| {
                let q = x * units::$name;
                (q.value_unchecked(), q.value_in(units::$name), dim(&q))
            },
            parse: |s| parse(&(1.0f64 * units::$name), s),
        }
    };
}
struct Named {
    name: &'static str,
    exps: [i32; 7],
    got: Dimension,
}
macro_rules! dimension {
    ($name:ident, $exps:expr) => {
        Named { name: stringify!($name), exps: $exps, got: dim(&dimensions::$name::<f64>::new_unchecked(1.0)) }
    };
}

fn units() -> Vec<Unit> {
    vec![
%(units)s
    ]
}
fn named() -> Vec<Named> {
    vec![
%(dims)s
    ]
}
// dimension -> symbols that may stand for it in text
fn symbols(e: [i32; 7]) -> &'static [&'static str] {
    match e {
%(symbols)s
        _ => &[],
    }
}
const BASE: [&str; 7] = ["m", "s", "kg", "K", "A", "mol", "cd"];

fn same_dim(what: &str, got: Dimension, want: [i32; 7]) -> Res {
    if got == reference(want) { Ok(()) } else { Err(format!("{what}: the dimension is not {want:?} (length, time, mass, temperature, current, amount, luminous intensity)")) }
}

fn check(u: &Unit, x: f64, c: &mut Ctx) -> Res {
    c.note(format!("{} {}", x.show(), u.name));
    if x != 0.0 && x.is_finite() {
        c.nontrivial();
    }
    let (stored, back, e, text, one) = (u.f64)(x);
    same_dim(u.name, e, u.exps)?;
    // (the factor of a prefixed or derived unit is a product of a few factors)
    let want = x * u.factor;
    if x == 0.0 || want.abs() > 1e-290 {
        expect_close(u.name, stored, want, 8)?;
        if want.is_finite() {
            expect_close("value_in", back, x, 8)?;
        }
    }
    if x != 0.0 && want.is_finite() && want.abs() > 1e-290 {
        expect_close("ratio to one unit", one.value(), x, 8)?;
    }
    let y = x as f32;
    let (stored32, back32, e) = (u.f32)(y);
    same_dim(u.name, e, u.exps)?;
    let want = y as f64 * u.factor;
    if u.factor.abs() > 1e-36 && want.abs() < 3e38 && (y == 0.0 || want.abs() > 1e-30) && y.is_finite() {
        expect_close(u.name, stored32, want as f32, 4)?;
        expect_close("value_in", back32, y, 8)?;
    }
    // the text shows the stored value and a coherent symbol
    let number = format!("{}", stored);
    let rest = text.strip_prefix(&number).ok_or_else(|| format!("text {text:?} of {number}"))?;
    let syms = symbols(u.exps);
    let ok = if u.exps == [0; 7] {
        rest.is_empty() || syms.iter().any(|s| rest == format!(" {s}"))
    } else if syms.iter().any(|s| rest == format!(" {s}")) {
        true
    } else if syms.iter().any(|s| !s.starts_with('k')) {
        // (a coherent unit has a symbol; a prefixed one like kL may be rounded)
        false
    } else {
        let mut got: Vec<&str> = rest.split(' ').filter(|x| !x.is_empty()).collect();
        let mut want: Vec<String> = vec![];
        for (b, n) in BASE.iter().zip(u.exps) {
            if n == 1 {
                want.push(b.to_string());
            } else if n != 0 {
                want.push(format!("{b}^{n}"));
            }
        }
        got.sort();
        want.sort();
        got == want
    };
    if !ok {
        return Err(format!("{} is shown as {text:?}", u.name));
    }
    if let Some(sym) = u.symbol {
        if x.is_finite() {
            let s = format!("{x:?} {sym}");
            let got = (u.parse)(&s)?;
            let want = x * u.factor;
            if x == 0.0 || want.abs() > 1e-290 {
                expect_close(&format!("reading {s:?}"), got, want, 8)?;
            }
            let got = (u.parse)(&format!("{x:?} {sym}^2 {sym}^-1"))?;
            if u.factor.abs() > 1e-100 && want.abs() > 1e-200 && want.abs() < 1e200 {
                expect_close(&format!("reading {s:?} with exponents"), got, want, 16)?;
            }
        }
    }
    Ok(())
}

thread_local! {
    static UNITS: Vec<Unit> = units();
}
fn value(t: &mut Tape) -> f64 {
    if t.below(3) == 0 { t.f64() } else { t.range(-100_000, 100_000) as f64 * 0.017 }
}
fn one(t: &mut Tape, c: &mut Ctx) -> Res {
    UNITS.with(|us| {
        let i = t.below(us.len());
        check(&us[i], value(t), c)
    })
}
/// Every unit of the table with one value
fn sweep(t: &mut Tape, c: &mut Ctx) -> Res {
    UNITS.with(|us| {
        let x = value(t);
        c.note(format!("every unit with {x:?}"));
        c.nontrivial();
        let mut quiet = Ctx::default();
        us.iter().try_for_each(|u| check(u, x, &mut quiet))
    })
}
fn catalogue(t: &mut Tape, c: &mut Ctx) -> Res {
    let ns = named();
    let i = t.below(ns.len());
    // all of them in every case; the case only says which is first
    for k in 0..ns.len() {
        let n = &ns[(i + k) %% ns.len()];
        if k == 0 {
            c.note(n.name);
            c.nontrivial();
        }
        same_dim(n.name, n.got.clone(), n.exps)?;
    }
    expect_close("PI", vec_pi(), std::f64::consts::PI, 0)
}
fn vec_pi() -> f64 {
    let x: dimensions::Dimensionless<f64> = 1.0f64 * constants::PI;
    x.value()
}
fn main() {
    vpbt::main(vec![
        Prop { name: "units", weight: 60, run: one },
        Prop { name: "sweep", weight: 1, run: sweep },
        Prop { name: "dimensions", weight: 1, run: catalogue },
    ]);
}
'''


BASE_DIMENSIONS = ["Length", "Time", "Mass", "Temperature", "Current", "AmountOfSubstance", "LuminousIntensity"]


def source():
    ns = names()
    units = []
    for n, sym, f, d in ns:
        s = f'Some("{sym}")' if sym else "None"
        units.append(f"        unit!({n}, {s}, {fl(f)}, {list(d)}),")
    syms = {}
    for n, sym, f, d in ns:
        if sym and f == 1:
            syms.setdefault(d, []).append(sym)
    refs = []
    for d in sorted(set(x[3] for x in ns) | set(DIMENSIONS.values())):
        e = " * ".join(f"{b}::new_unchecked(1.0f64).powi::<{n}>()" for b, n in zip(BASE_DIMENSIONS, d) if n)
        refs.append(f"        {list(d)} => dim(&({e or 'Dimensionless::new_unchecked(1.0f64)'})),")
    dims = [f"        dimension!({n}, {list(d)})," for n, d in DIMENSIONS.items()]
    sy = [f"        {list(d)} => &{str(v).replace(chr(39), chr(34))}," for d, v in syms.items()]
    return SOURCE % dict(rs=core.RS, units="\n".join(units), dims="\n".join(dims), symbols="\n".join(sy), refs="\n".join(refs)), len(ns)


RULE = (
    "every name of the reference table (units, aliases, prefixes) in turn with a generated value: stored value, dimension, value_in, f32, printed text and, "
    "if it has a symbol, the text read back; non-trivial if the value is finite and not zero"
)


def run(rep):
    src, n = source()
    path = os.path.join(core.BUILD, "gen", "c22.rs")
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(src)
    rep.extra["names_in_the_reference_table"] = n
    rep.extra["dimensions_in_the_reference_table"] = len(DIMENSIONS)
    core.value_check(rep, path, ["int", "rat"], core.scale(n * 6, n * 200))
