// C14: deserialization accepts exactly the well-formed quantity texts.
#![allow(incomplete_features)]
#![feature(generic_const_exprs, adt_const_params)]
#[path = "vpbt.rs"]
mod vpbt;
#[path = "sys.rs"]
mod sys;
use glam::*;
use serde::de::DeserializeOwned;
use sys::{Dimension, Quantity};
use vpbt::*;

const N: usize = 7;
type Dims = [i64; N];

/// A symbol, its factor and its dimensions, written down independently of the system
#[derive(Clone)]
struct Sym {
    name: String,
    factor: f64,
    dims: Dims,
}

struct Table {
    syms: Vec<Sym>,
    bases: Vec<&'static str>,
}

const PREFIXES: &[(&str, f64)] = &[
    ("E", 1e18), ("P", 1e15), ("T", 1e12), ("G", 1e9), ("M", 1e6), ("k", 1e3), ("h", 1e2), ("da", 1e1), ("d", 1e-1), ("c", 1e-2), ("m", 1e-3),
    ("μ", 1e-6), ("n", 1e-9), ("p", 1e-12), ("f", 1e-15), ("a", 1e-18),
];

fn dims(l: i64, t: i64, m: i64, i: i64) -> Dims {
    [l, t, m, i, 0, 0, 0]
}

fn custom() -> Table {
    let mut syms = vec![];
    let mut sym = |n: &str, f: f64, d: Dims| syms.push(Sym { name: n.into(), factor: f, dims: d });
    sym("m", 1.0, dims(1, 0, 0, 0));
    sym("s", 1.0, dims(0, 1, 0, 0));
    sym("kg", 1.0, dims(0, 0, 1, 0));
    sym("A", 1.0, dims(0, 0, 0, 1));
    sym("ms", 1e-3, dims(0, 1, 0, 0));
    sym("ks", 1e3, dims(0, 1, 0, 0));
    sym("ft", 0.3048, dims(1, 0, 0, 0));
    sym("h", 3600.0, dims(0, 1, 0, 0));
    sym("kmh", 1000.0 / 3600.0, dims(1, -1, 0, 0));
    sym("J", 1.0, dims(2, -2, 1, 0));
    for (p, f) in PREFIXES {
        sym(&format!("{p}m"), *f, dims(1, 0, 0, 0));
        sym(&format!("{p}J"), *f, dims(2, -2, 1, 0));
    }
    sym("third", 1.0 / 3.0, dims(0, 0, 1, 0));
    sym("anti", -2.5, dims(1, 0, 0, 0));
    sym("big", 1.5e35, dims(1, 0, 0, 0));
    sym("tiny", 7.25e-36, dims(1, 0, 0, 0));
    sym("pct", 0.01, dims(0, 0, 0, 0));
    sym("dozen", 12.0, dims(0, 0, 0, 0));
    sym("perms", 1000.0, dims(0, -1, 0, 0));
    sym("oddu", 3.5, dims(0, -3, 2, 1));
    Table { syms, bases: vec!["m", "s", "kg", "A"] }
}

fn si() -> Table {
    let mut syms = vec![];
    // length, time, mass, current, temperature, amount, luminosity
    let mut sym = |prefixed: bool, n: &str, f: f64, d: Dims| {
        syms.push(Sym { name: n.into(), factor: f, dims: d });
        if prefixed {
            for (p, pf) in PREFIXES {
                syms.push(Sym { name: format!("{p}{n}"), factor: f * pf, dims: d });
            }
        }
    };
    sym(true, "m", 1.0, [1, 0, 0, 0, 0, 0, 0]);
    sym(true, "s", 1.0, [0, 1, 0, 0, 0, 0, 0]);
    sym(true, "g", 1e-3, [0, 0, 1, 0, 0, 0, 0]);
    sym(true, "A", 1.0, [0, 0, 0, 1, 0, 0, 0]);
    sym(true, "K", 1.0, [0, 0, 0, 0, 1, 0, 0]);
    sym(true, "mol", 1.0, [0, 0, 0, 0, 0, 1, 0]);
    sym(true, "cd", 1.0, [0, 0, 0, 0, 0, 0, 1]);
    sym(true, "N", 1.0, [1, -2, 1, 0, 0, 0, 0]);
    sym(true, "J", 1.0, [2, -2, 1, 0, 0, 0, 0]);
    sym(true, "W", 1.0, [2, -3, 1, 0, 0, 0, 0]);
    sym(true, "Pa", 1.0, [-1, -2, 1, 0, 0, 0, 0]);
    sym(true, "Hz", 1.0, [0, -1, 0, 0, 0, 0, 0]);
    sym(true, "C", 1.0, [0, 1, 0, 1, 0, 0, 0]);
    sym(true, "V", 1.0, [2, -3, 1, -1, 0, 0, 0]);
    sym(true, "F", 1.0, [-2, 4, -1, 2, 0, 0, 0]);
    sym(false, "h", 3600.0, [0, 1, 0, 0, 0, 0, 0]);
    Table { syms, bases: vec!["m", "s", "kg", "A", "K", "mol", "cd"] }
}

impl Table {
    fn get(&self, name: &str) -> Option<&Sym> {
        self.syms.iter().find(|s| s.name == name)
    }
}

// ---- exact fractions for the exponents

fn gcd(a: i64, b: i64) -> i64 {
    if b == 0 { a.abs() } else { gcd(b, a % b) }
}
#[derive(Clone, Copy, PartialEq, Debug)]
struct Frac(i64, i64);
impl Frac {
    fn new(n: i64, d: i64) -> Frac {
        let g = gcd(n, d).max(1) * d.signum();
        Frac(n / g, d / g)
    }
    fn add(self, o: Frac) -> Frac {
        Frac::new(self.0 * o.1 + o.0 * self.1, self.1 * o.1)
    }
    fn scale(self, n: i64) -> Frac {
        Frac::new(self.0 * n, self.1)
    }
    fn text(self) -> String {
        if self.1 == 1 { format!("{}", self.0) } else { format!("{}/{}", self.0, self.1) }
    }
    fn f64(self) -> f64 {
        self.0 as f64 / self.1 as f64
    }
}

// ---- reading

trait Value: Storage + Close {
    const COMPONENTS: usize; // 0 for scalars
    const SINGLE: bool;
    fn build(c: &[f64], factor: f64) -> Self;
}
impl Value for f64 {
    const COMPONENTS: usize = 0;
    const SINGLE: bool = false;
    fn build(c: &[f64], factor: f64) -> Self {
        c[0] * factor
    }
}
impl Value for f32 {
    const COMPONENTS: usize = 0;
    const SINGLE: bool = true;
    fn build(c: &[f64], factor: f64) -> Self {
        c[0] as f32 * factor as f32
    }
}
macro_rules! vector {
    ($t:ty, $n:literal, $f:ty, $single:literal) => {
        impl Value for $t {
            const COMPONENTS: usize = $n;
            const SINGLE: bool = $single;
            fn build(c: &[f64], factor: f64) -> Self {
                let a: [$f; $n] = std::array::from_fn(|i| c[i] as $f);
                <$t>::from_array(a) * (factor as $f)
            }
        }
    };
}
vector!(Vec2, 2, f32, true);
vector!(DVec2, 2, f64, false);
vector!(Vec3, 3, f32, true);
vector!(DVec3, 3, f64, false);

type Read<S> = fn(&str, Format) -> Result<S, String>;

#[derive(Clone, Copy, PartialEq)]
enum Format {
    Json,
    Yaml,
    Str,
    Owned,
    /// the text itself is the document
    RawJson,
    RawYaml,
    /// a format that hands numbers to the reader as numbers
    Number,
}

fn read_as<Q: DeserializeOwned>(text: &str, f: Format) -> Result<Q, String> {
    use serde::de::value::{Error, StrDeserializer, StringDeserializer};
    use serde::de::IntoDeserializer;
    match f {
        Format::Json => serde_json::from_str(&serde_json::to_string(text).unwrap()).map_err(|e| e.to_string()),
        Format::Yaml => serde_yaml::from_str(&serde_json::to_string(text).unwrap()).map_err(|e| e.to_string()),
        Format::Str => {
            let d: StrDeserializer<Error> = text.into_deserializer();
            Q::deserialize(d).map_err(|e| e.to_string())
        }
        Format::Owned => {
            let d: StringDeserializer<Error> = text.to_string().into_deserializer();
            Q::deserialize(d).map_err(|e| e.to_string())
        }
        Format::Number => {
            if let Ok(n) = text.parse::<u64>() {
                let d: serde::de::value::U64Deserializer<Error> = n.into_deserializer();
                Q::deserialize(d).map_err(|e| e.to_string())
            } else if let Ok(n) = text.parse::<i64>() {
                let d: serde::de::value::I64Deserializer<Error> = n.into_deserializer();
                Q::deserialize(d).map_err(|e| e.to_string())
            } else {
                let d: serde::de::value::F64Deserializer<Error> = text.parse::<f64>().unwrap().into_deserializer();
                Q::deserialize(d).map_err(|e| e.to_string())
            }
        }
        Format::RawJson => serde_json::from_str(text).map_err(|e| e.to_string()),
        Format::RawYaml => serde_yaml::from_str(text).map_err(|e| e.to_string()),
    }
}

/// The types that texts are read as: their dimensions (times six) and the reader
struct Target<S> {
    name: &'static str,
    dims: [Frac; N],
    read: Read<S>,
}

// (the storage types are listed, since the impls of the crate are per storage type)
macro_rules! target_list {
    ($fname:ident, $S:ty, $sys:ident, [$($d:ident [$($x:expr),*];)*]) => {
        fn $fname() -> Vec<Target<$S>> {
            vec![$(
                Target {
                    name: stringify!($d),
                    dims: [$(Frac($x, 1)),*],
                    read: |t, f| read_as::<$sys::dimensions::$d<$S>>(t, f).map(|q| q.value_unchecked()),
                },
            )*]
        }
    };
}
use diman::si as si_sys;
macro_rules! both_targets {
    ($custom:ident, $si:ident, $S:ty) => {
        target_list!($custom, $S, sys, [
            Length [1, 0, 0, 0, 0, 0, 0];
            Time [0, 1, 0, 0, 0, 0, 0];
            Mass [0, 0, 1, 0, 0, 0, 0];
            Dimensionless [0, 0, 0, 0, 0, 0, 0];
            Velocity [1, -1, 0, 0, 0, 0, 0];
            Energy [2, -2, 1, 0, 0, 0, 0];
            InvArea [-2, 0, 0, 0, 0, 0, 0];
            Odd [0, -3, 2, 1, 0, 0, 0];
            Hyper [6, 0, 0, 0, 0, 0, 0];
        ]);
        target_list!($si, $S, si_sys, [
            Length [1, 0, 0, 0, 0, 0, 0];
            Force [1, -2, 1, 0, 0, 0, 0];
            Dimensionless [0, 0, 0, 0, 0, 0, 0];
            Voltage [2, -3, 1, -1, 0, 0, 0];
            Entropy [2, -2, 1, 0, -1, 0, 0];
            MolarMass [0, 0, 1, 0, 0, -1, 0];
        ]);
    };
}
both_targets!(custom_f64, si_f64, f64);
both_targets!(custom_f32, si_f32, f32);
both_targets!(custom_vec2, si_vec2, Vec2);
both_targets!(custom_dvec2, si_dvec2, DVec2);
both_targets!(custom_vec3, si_vec3, Vec3);
both_targets!(custom_dvec3, si_dvec3, DVec3);

#[cfg(feature = "rational")]
mod roots {
    use super::*;
    const fn d<S: Copy, const D: Dimension>(_: &Quantity<S, D>) -> Dimension {
        D
    }
    pub const HALF: Dimension = d(&sys::dimensions::Length::<f64>::new_unchecked(0.0)).div_2();
    pub const THIRD: Dimension = d(&sys::dimensions::Energy::<f64>::new_unchecked(0.0)).div_3();
    macro_rules! list {
        ($f:ident, $S:ty) => {
            pub fn $f() -> Vec<Target<$S>> {
                vec![
                    Target {
                        name: "sqrt(Length)",
                        dims: [Frac(1, 2), Frac(0, 1), Frac(0, 1), Frac(0, 1), Frac(0, 1), Frac(0, 1), Frac(0, 1)],
                        read: |t, f| read_as::<Quantity<$S, { HALF }>>(t, f).map(|q| q.value_unchecked()),
                    },
                    Target {
                        name: "cbrt(Energy)",
                        dims: [Frac(2, 3), Frac(-2, 3), Frac(1, 3), Frac(0, 1), Frac(0, 1), Frac(0, 1), Frac(0, 1)],
                        read: |t, f| read_as::<Quantity<$S, { THIRD }>>(t, f).map(|q| q.value_unchecked()),
                    },
                ]
            }
        };
    }
    list!(f64s, f64);
    list!(f32s, f32);
    list!(dvec2s, DVec2);
}

// ---- generating texts

#[derive(Clone)]
struct Doc {
    components: Vec<(String, f64)>,
    units: Vec<(String, Option<Frac>)>,
}

const SEPARATORS: &[&str] = &[" ", " ", " ", "  ", "\t", " \t ", "\n", " \r\n"];

fn number(t: &mut Tape) -> (String, f64) {
    let s = match t.below(9) {
        0 => format!("{}", t.draw(100)),
        1 => format!("{:?}", t.range(-1000, 1000) as f64 * 0.25),
        2 => format!("{}", t.range(-1_000_000, 1_000_000)),
        3 => format!("{}e{}", t.range(-99, 99), t.range(-12, 12)),
        4 => format!("{}.{}E{}", t.range(-99, 99), t.draw(1000), t.range(-5, 5)),
        5 => format!("{}", t.f32()),
        6 => format!("-{}.{:03}", t.draw(10), t.draw(1000)),
        7 => format!("{:.6}", t.range(-1000, 1000) as f64 / 7.0),
        _ => format!("0.{}", t.draw(1_000_000_000)),
    };
    let v = s.parse::<f64>().unwrap();
    (s, v)
}

fn exponent(t: &mut Tape, rational: bool) -> Option<Frac> {
    if t.below(16) == 0 {
        let n = *t.pick(&[10i64, 40, 100, 127, 128, 129, 200, 255, 256, 1000, 32768, 100_000]);
        return Some(Frac(if t.bool() { -n } else { n }, 1));
    }
    match t.below(if rational { 8 } else { 6 }) {
        0 | 1 => None,
        2 => Some(Frac(1, 1)),
        3 => Some(Frac(t.range(2, 3), 1)),
        4 => Some(Frac(-t.range(1, 3), 1)),
        5 => Some(Frac(t.range(-1, 1), 1)),
        6 => Some(Frac(t.range(-3, 3), t.range(2, 4))),
        _ => Some(Frac(t.range(-2, 4), 2)),
    }
}

impl Doc {
    fn generate(t: &mut Tape, table: &Table, target: &[Frac; N], components: usize, rational: bool) -> Doc {
        let comps = (0..components.max(1)).map(|_| number(t)).collect();
        let mut units: Vec<(String, Option<Frac>)> = vec![];
        let n = t.below(5);
        for _ in 0..n {
            let s = t.pick(&table.syms);
            let mut e = exponent(t, rational);
            if s.factor < 0.0 && e.map_or(false, |e| Frac::new(e.0, e.1).1 != 1) {
                e = None;
            }
            units.push((s.name.clone(), e));
        }
        let mut doc = Doc { components: comps, units };
        // complete the dimension with base units
        let have = doc.dims(table);
        for (i, base) in table.bases.iter().enumerate() {
            let missing = target[i].add(have[i].scale(-1));
            if missing.0 == 0 {
                continue;
            }
            let whole = missing.1 == 1;
            if whole && t.below(4) == 0 && missing.0.abs() <= 4 {
                // spelled out one by one
                for _ in 0..missing.0.abs() {
                    doc.units.push((base.to_string(), if missing.0 > 0 { None } else { Some(Frac(-1, 1)) }));
                }
            } else if whole && missing.0 == 1 && t.bool() {
                doc.units.push((base.to_string(), None));
            } else {
                doc.units.push((base.to_string(), Some(missing)));
            }
        }
        // shuffle
        for i in (1..doc.units.len()).rev() {
            let j = t.below(i + 1);
            doc.units.swap(i, j);
        }
        doc
    }
    fn dims(&self, table: &Table) -> [Frac; N] {
        let mut d = [Frac(0, 1); N];
        for (s, e) in self.units.iter() {
            let s = table.get(s).unwrap();
            let e = e.unwrap_or(Frac(1, 1));
            for i in 0..N {
                d[i] = d[i].add(Frac::new(e.0 * s.dims[i], e.1));
            }
        }
        d
    }
    fn factor(&self, table: &Table) -> f64 {
        let mut f = 1.0;
        for (s, e) in self.units.iter() {
            let s = table.get(s).unwrap();
            let e = e.map_or(Frac(1, 1), |e| Frac::new(e.0, e.1));
            f *= if e.1 == 1 { s.factor.powi(e.0 as i32) } else { s.factor.powf(e.f64()) };
        }
        f
    }
    /// How far the factors on the way to the total factor can be from one, as a power of ten
    fn spread(&self, table: &Table) -> f64 {
        self.units.iter().map(|(s, e)| (table.get(s).unwrap().factor.abs().log10() * e.unwrap_or(Frac(1, 1)).f64()).abs()).sum()
    }
    fn unit_texts(&self) -> Vec<String> {
        self.units
            .iter()
            .map(|(s, e)| match e {
                None => s.clone(),
                Some(Frac(n, 1)) => format!("{s}^{n}"),
                Some(Frac(n, d)) => format!("{s}^{n}/{d}"),
            })
            .collect()
    }
    fn number_text(&self, vector: bool, t: &mut Tape) -> String {
        let c: Vec<&str> = self.components.iter().map(|c| c.0.as_str()).collect();
        if vector {
            let sep: &str = *t.pick(SEPARATORS);
            format!("({})", c.join(sep))
        } else {
            c[0].to_string()
        }
    }
    fn text(&self, vector: bool, t: &mut Tape) -> String {
        let mut s = self.number_text(vector, t);
        for u in self.unit_texts() {
            s.push_str(*t.pick(SEPARATORS));
            s.push_str(&u);
        }
        if t.below(6) == 0 {
            s = format!("{}{s}{}", t.pick(SEPARATORS), t.pick(SEPARATORS));
        }
        s
    }
}

fn expect_value<S: Value>(text: &str, got: Result<S, String>, comps: &[f64], factor: f64, spread: f64, steps: u64) -> Res {
    let got = got.map_err(|e| format!("{text:?} is rejected: {e}"))?;
    let want = S::build(comps, factor);
    let limit = if S::SINGLE { 1e30 } else { 1e280 };
    if !(factor.abs() < limit && factor.abs() > 1.0 / limit && spread < 250.0) {
        return Ok(());
    }
    // the factor may be evaluated in another order
    let tolerance = if S::SINGLE { 8 } else { 64 + 2 * steps };
    expect_close(&format!("{text:?}"), got, want, tolerance)
}

const FORMATS: &[Format] = &[Format::Json, Format::Yaml, Format::Str, Format::Owned];

fn accepts<S: Value>(t: &mut Tape, c: &mut Ctx, table: Table, targets: Vec<Target<S>>, rational: bool) -> Res {
    let target = t.pick(&targets);
    let doc = Doc::generate(t, &table, &target.dims, S::COMPONENTS, rational);
    let text = doc.text(S::COMPONENTS > 0, t);
    let format = *t.pick(FORMATS);
    c.note(format!("{text:?} as {}<{}>", target.name, S::NAME));
    c.class("well-formed");
    if doc.units.len() > 1 {
        c.nontrivial();
    }
    if doc.dims(&table) != target.dims {
        return Err("generator: wrong dimension".into());
    }
    let comps: Vec<f64> = doc.components.iter().map(|c| c.1).collect();
    expect_value(&text, (target.read)(&text, format), &comps, doc.factor(&table), doc.spread(&table), doc.units.iter().map(|u| u.1.map_or(1, |e| e.0.unsigned_abs())).sum())
}

fn rejects<S: Value>(t: &mut Tape, c: &mut Ctx, table: Table, targets: Vec<Target<S>>, rational: bool) -> Res {
    let target = t.pick(&targets);
    let vector = S::COMPONENTS > 0;
    let doc = Doc::generate(t, &table, &target.dims, S::COMPONENTS, rational);
    let good = doc.text(vector, t);
    let num = doc.number_text(vector, t);
    let units = doc.unit_texts();
    let join = |n: &str, u: &[String]| {
        let mut s = n.to_string();
        for u in u {
            s.push(' ');
            s.push_str(u);
        }
        s
    };
    let insert = |t: &mut Tape, extra: &str| {
        let mut u = units.clone();
        let i = t.below(u.len() + 1);
        u.insert(i, extra.to_string());
        join(&num, &u)
    };
    let base = t.pick(&table.bases).to_string();
    let mut kinds: Vec<(&'static str, String)> = vec![];
    // another dimension
    kinds.push(("extra unit", insert(t, &base)));
    let e = *t.pick(&[-3i64, -2, -1, 2, 3, 5]);
    kinds.push(("extra power", insert(t, &format!("{base}^{e}"))));
    let needed: Vec<usize> = (0..units.len()).filter(|i| {
        let (s, e) = &doc.units[*i];
        e.map_or(true, |e| e.0 != 0) && table.get(s).unwrap().dims != [0; N]
    }).collect();
    if !needed.is_empty() {
        let i = *t.pick(&needed);
        let mut u = units.clone();
        u.remove(i);
        kinds.push(("missing unit", join(&num, &u)));
        let mut u = units.clone();
        u[i] = format!("{}{}", doc.units[i].0, match doc.units[i].1 {
            None => "^2".to_string(),
            Some(e) => format!("^{}", e.add(Frac(1, 1)).text()),
        });
        kinds.push(("other exponent", join(&num, &u)));
        let mut u = units.clone();
        u[i] = format!("{}^", doc.units[i].0);
        kinds.push(("empty exponent", join(&num, &u)));
        let bad = *t.pick(&["x", "1.5", "2^1", "^1", "--1", "1e2", "99999999999999999999", "1/", "/2", "1/0", "1/2/3", "0x1", "(1)", "one"]);
        let mut u = units.clone();
        u[i] = format!("{}^{bad}", doc.units[i].0);
        kinds.push(("bad exponent", join(&num, &u)));
        if !rational {
            let mut u = units.clone();
            u[i] = format!("{}^1/1", doc.units[i].0);
            kinds.push(("rational exponent", join(&num, &u)));
        }
    }
    // unknown symbols
    let bad = loop {
        let b = match t.below(4) {
            0 => t.pick(&["parsec", "q", "Meter", "meter", "kilogram", "second", "kkg", "mm2", "m.", "m-1", "m*s", "m/s", "^2", "^", "%", "metre"]).to_string(),
            1 => format!("{}{}", t.pick(&table.syms).name, t.pick(&["2", "q", "_", "z"])),
            2 => format!("{}{}", t.pick(&["y", "x", "Q"]), t.pick(&table.syms).name),
            _ => t.pick(&table.syms).name.to_uppercase(),
        };
        if table.get(&b).is_none() && !si_extra(&b) {
            break b;
        }
    };
    kinds.push(("unknown symbol", insert(t, &bad)));
    kinds.push(("unknown symbol with exponent 0", insert(t, &format!("{bad}^0"))));
    // numbers
    kinds.push(("no number", join("", &units).trim().to_string()));
    kinds.push(("empty", String::new()));
    kinds.push(("blank", "   ".to_string()));
    let bad = *t.pick(&["1,5", "abc", "1e", "--1", "1_000", "0x10", "1.2.3", "e5", ".", "-", "1f64", "1;", "½", "1'000"]);
    if vector {
        let mut cs: Vec<String> = doc.components.iter().map(|c| c.0.clone()).collect();
        let i = t.below(cs.len());
        let old = std::mem::replace(&mut cs[i], bad.to_string());
        kinds.push(("bad component", join(&format!("({})", cs.join(" ")), &units)));
        cs[i] = old;
        let mut more = cs.clone();
        more.insert(i, "1".into());
        kinds.push(("too many components", join(&format!("({})", more.join(" ")), &units)));
        let mut less = cs.clone();
        less.remove(i);
        kinds.push(("too few components", join(&format!("({})", less.join(" ")), &units)));
        kinds.push(("no components", join("()", &units)));
        kinds.push(("no brackets", join(&cs.join(" "), &units)));
        kinds.push(("no opening bracket", join(&format!("{})", cs.join(" ")), &units)));
        kinds.push(("no closing bracket", join(&format!("({}", cs.join(" ")), &units)));
        kinds.push(("doubled brackets", join(&format!("(({}))", cs.join(" ")), &units)));
        kinds.push(("doubled opening bracket", join(&format!("(({})", cs.join(" ")), &units)));
        kinds.push(("doubled closing bracket", join(&format!("({}))", cs.join(" ")), &units)));
        kinds.push(("inner bracket", join(&format!("({} ({})", cs[0], cs[1..].join(" ")), &units)));
        kinds.push(("square brackets", join(&format!("[{}]", cs.join(" ")), &units)));
        kinds.push(("commas", join(&format!("({})", cs.join(", ")), &units)));
        kinds.push(("swapped brackets", join(&format!("){}(", cs.join(" ")), &units)));
        kinds.push(("junk before", format!("{} {good}", t.pick(&["5", "m", "x", "-", "((", "1 m"]))));
        kinds.push(("junk just before", format!("{}{good}", t.pick(&["5", "m", "-", "2*"]))));
        kinds.push(("scalar", join(&cs[0], &units)));
    } else {
        kinds.push(("bad number", join(bad, &units)));
        kinds.push(("two numbers", join(&format!("{num} {num}"), &units)));
        kinds.push(("number last", format!("{} {num}", join("", &units).trim()).trim().to_string()));
        if units.is_empty() {
            kinds.pop();
        }
        kinds.push(("bracketed", join(&format!("({num})"), &units)));
        kinds.push(("vector", join(&format!("({num} {num})"), &units)));
        kinds.push(("junk before", format!("{} {good}", t.pick(&["m", "x", "-", "(", "about"]))));
    }
    let junk = *t.pick(&[")", "(", "^", "^2", "5", "1.0", ";", "# m", "* m", "/ s", "per s", "m s", "(1 2)", "(1 2 3)", "\u{0}", "é", "$"]);
    if junk != "m s" {
        kinds.push(("junk after", format!("{good} {junk}")));
    }
    let (kind, text) = t.pick(&kinds).clone();
    let format = *t.pick(FORMATS);
    c.class(kind);
    c.note(format!("{text:?} as {}<{}>", target.name, S::NAME));
    c.nontrivial();
    match (target.read)(&text, format) {
        Err(_) => Ok(()),
        Ok(v) => Err(format!("{text:?} ({kind}) is accepted as {}<{}> = {}", target.name, S::NAME, v.show())),
    }
}

/// Symbols of the SI system that are not in the reference table above
fn si_extra(s: &str) -> bool {
    use diman::si::dimensions::*;
    // (only used to keep the unknown symbols unknown: whether a symbol of the SI exists is C22)
    let t = format!("1 {s}^0");
    read_as::<Dimensionless<f64>>(&t, Format::Str).is_ok()
}

// Bare numbers are accepted exactly for dimensionless quantities
fn bare<S: Value>(t: &mut Tape, c: &mut Ctx, targets: Vec<Target<S>>) -> Res {
    let target = t.pick(&targets);
    let (text, v) = match t.below(4) {
        0 => {
            let n = t.range(-(1 << 61), 1 << 61) >> t.draw(62);
            (format!("{n}"), n as f64)
        }
        1 => {
            let n = t.draw(u64::MAX) >> t.draw(63);
            (format!("{n}"), n as f64)
        }
        2 => {
            let x = t.range(-1_000_000, 1_000_000) as f64 / 8.0;
            (format!("{x:?}"), x)
        }
        _ => {
            let x = t.f64();
            let x = if x.is_finite() { x } else { 2.5 };
            (format!("{x:e}"), x)
        }
    };
    let text = if text.contains('e') && !text.contains('.') { text.replace('e', ".0e") } else { text };
    let format = *t.pick(&[Format::Number, Format::RawYaml, Format::Str]);
    c.note(format!("{text} as {}<{}>", target.name, S::NAME));
    c.nontrivial();
    let r = (target.read)(&text, format);
    if target.dims == [Frac(0, 1); N] && S::COMPONENTS == 0 {
        c.class("dimensionless");
        let got = r.map_err(|e| format!("bare number {text} is rejected: {e}"))?;
        let want = if S::SINGLE { S::build(&[v as f32 as f64], 1.0) } else { S::build(&[v], 1.0) };
        expect_close(&text, got, want, 2)
    } else {
        c.class("other");
        match r {
            Err(_) => Ok(()),
            Ok(x) => Err(format!("bare number {text} is accepted as {}<{}> = {}", target.name, S::NAME, x.show())),
        }
    }
}

// Arbitrary strings of the characters that matter: no panic, and scalars are accepted
// exactly if a reference reader accepts them
fn arbitrary<S: Value>(t: &mut Tape, c: &mut Ctx, table: Table, targets: Vec<Target<S>>, rational: bool) -> Res {
    let target = t.pick(&targets);
    let pieces = [
        "1", "2", "-1", "0", "1.5", " ", " ", " ", "m", "s", "kg", "A", "km", "^", "^-1", "^2", "(", ")", "(1 2)", "(1 2 3)", "e", "-", ".", "/", "^1/2",
        "NaN", "inf", "h", "J", "\t", "é", "μm", "3", "m s^-1", "^2147483647", "^-2147483648", "\u{3000}", "^1/2147483647", "J^2147483647", "^-1/2147483648",
    ];
    let n = t.below(9);
    let mut text = String::new();
    if S::COMPONENTS > 0 && t.below(3) > 0 {
        text.push_str(if S::COMPONENTS == 2 { "(1 2)" } else { "(1 2 3)" });
    }
    for _ in 0..n {
        text.push_str(*t.pick(&pieces));
    }
    c.note(format!("{text:?} as {}<{}>", target.name, S::NAME));
    c.nontrivial();
    let r = (target.read)(&text, *t.pick(FORMATS));
    // also as documents of their own, for panics only
    let _ = (target.read)(&text, Format::RawYaml);
    let _ = (target.read)(&text, Format::RawJson);
    if S::COMPONENTS > 0 {
        return Ok(());
    }
    let mut tokens = text.split_whitespace();
    let model = (|| -> Option<(f64, [i128; N], bool)> {
        let v = tokens.next()?.parse::<f64>().ok()?;
        let mut d = [0i128; N];
        for tok in tokens {
            let (name, e) = match tok.split_once('^') {
                None => (tok, (1i128, 1i128)),
                Some((n, e)) => {
                    let int = |s: &str| -> Option<i128> {
                        let digits = s.strip_prefix('-').unwrap_or(s);
                        if digits.is_empty() || !digits.bytes().all(|b| b.is_ascii_digit()) {
                            return None;
                        }
                        s.parse().ok()
                    };
                    match e.split_once('/') {
                        Some((a, b)) if rational => (n, (int(a)?, int(b).filter(|b| *b > 0)?)),
                        Some(_) => return None,
                        None => (n, (int(e)?, 1)),
                    }
                }
            };
            let s = table.get(name)?;
            for i in 0..N {
                // scaled by a multiple of all the denominators that occur
                d[i] += e.0 * s.dims[i] as i128 * (2 * 2147483647 / e.1);
            }
        }
        Some((v, d, true))
    })();
    let want = model.map_or(false, |(_, d, _)| (0..N).all(|i| d[i] * target.dims[i].1 as i128 == target.dims[i].0 as i128 * 2 * 2147483647));
    if text.contains('+') {
        return Ok(());
    }
    // exponents beyond the range of the exponent type may be refused
    if r.is_err() && want && text.contains("21474836") {
        return Ok(());
    }
    if r.is_ok() != want {
        return Err(format!("{text:?} as {}<{}>: accepted = {}, well-formed = {want}", target.name, S::NAME, r.is_ok()));
    }
    Ok(())
}

const RATIONAL: bool = cfg!(feature = "rational");

macro_rules! props {
    ($($w:literal $S:ident, $custom:ident, $si:ident;)*) => {
        vec![$(
            Prop { name: concat!("custom ", stringify!($S)), weight: 3 * $w, run: |t, c| accepts::<$S>(t, c, custom(), $custom(), RATIONAL) },
            Prop { name: concat!("SI ", stringify!($S)), weight: 2 * $w, run: |t, c| accepts::<$S>(t, c, si(), $si(), RATIONAL) },
            Prop { name: concat!("malformed custom ", stringify!($S)), weight: 4 * $w, run: |t, c| rejects::<$S>(t, c, custom(), $custom(), RATIONAL) },
            Prop { name: concat!("malformed SI ", stringify!($S)), weight: $w, run: |t, c| rejects::<$S>(t, c, si(), $si(), RATIONAL) },
            Prop { name: concat!("bare ", stringify!($S)), weight: $w, run: |t, c| { let targets = if t.bool() { $custom() } else { $si() }; bare::<$S>(t, c, targets) } },
            Prop { name: concat!("arbitrary ", stringify!($S)), weight: 2 * $w, run: |t, c| arbitrary::<$S>(t, c, custom(), $custom(), RATIONAL) },
        )*]
    };
}

fn main() {
    #[allow(unused_mut)]
    let mut props = props!(
        3 f64, custom_f64, si_f64;
        2 f32, custom_f32, si_f32;
        1 Vec2, custom_vec2, si_vec2;
        1 DVec2, custom_dvec2, si_dvec2;
        1 Vec3, custom_vec3, si_vec3;
        1 DVec3, custom_dvec3, si_dvec3;
    );
    #[cfg(feature = "rational")]
    props.extend([
        Prop { name: "roots f64", weight: 3, run: |t, c| accepts::<f64>(t, c, custom(), roots::f64s(), true) },
        Prop { name: "roots f32", weight: 2, run: |t, c| accepts::<f32>(t, c, custom(), roots::f32s(), true) },
        Prop { name: "roots DVec2", weight: 1, run: |t, c| accepts::<DVec2>(t, c, custom(), roots::dvec2s(), true) },
        Prop { name: "malformed roots f64", weight: 3, run: |t, c| rejects::<f64>(t, c, custom(), roots::f64s(), true) },
    ]);
    vpbt::main(props);
}
