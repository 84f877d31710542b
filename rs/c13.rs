// C13: serialization round-trips every quantity.
#![allow(incomplete_features)]
#![feature(generic_const_exprs, adt_const_params)]
#[path = "vpbt.rs"]
mod vpbt;
#[path = "sys.rs"]
mod sys;
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use vpbt::*;

// A system with underived dimensions only, in which no derived unit has a symbol, with
// names and symbols close to what the text format uses
mod odd {
    diman::unit_system!(
        quantity_type Amount;
        dimension_type Kind;
        dimension E;
        dimension Inf;
        dimension NaN;
        dimension Ninf = Inf^-2;
        dimension Far = E^130 * Inf^-301;
        #[base(E)]
        #[symbol(e)]
        unit ee;
        #[base(Inf)]
        #[symbol(inf)]
        unit infs;
        #[base(NaN)]
        #[symbol(NaN)]
        unit nans;
        #[symbol(e5)]
        unit e_five: E = 1e5 * ee;
        unit plain = ee * infs;
    );
}

#[derive(Serialize, Deserialize, Debug)]
struct Nested<T> {
    first: T,
    maybe: Option<T>,
    none: Option<T>,
    list: Vec<T>,
    map: BTreeMap<String, T>,
    tuple: (T, u8, T),
    boxed: Box<Choice<T>>,
}
#[derive(Serialize, Deserialize, Debug)]
enum Choice<T> {
    A(T),
    B { x: T },
    #[allow(dead_code)]
    C,
}

/// Serializes in every format and reads back as `T`
fn through<T: Serialize + DeserializeOwned>(x: &T) -> Result<Vec<(&'static str, String, Result<T, String>)>, String> {
    let mut out = vec![];
    let s = serde_json::to_string(x).map_err(|e| format!("to json: {e}"))?;
    out.push(("json", s.clone(), serde_json::from_str::<T>(&s).map_err(|e| e.to_string())));
    out.push(("json bytes", s.clone(), serde_json::from_slice::<T>(s.as_bytes()).map_err(|e| e.to_string())));
    let v = serde_json::to_value(x).map_err(|e| format!("to json value: {e}"))?;
    out.push(("json value", v.to_string(), serde_json::from_value::<T>(v).map_err(|e| e.to_string())));
    let s = serde_yaml::to_string(x).map_err(|e| format!("to yaml: {e}"))?;
    out.push(("yaml", s.clone(), serde_yaml::from_str::<T>(&s).map_err(|e| e.to_string())));
    let v = serde_yaml::to_value(x).map_err(|e| format!("to yaml value: {e}"))?;
    out.push(("yaml value", s, serde_yaml::from_value::<T>(v).map_err(|e| e.to_string())));
    Ok(out)
}

macro_rules! system {
    ($mod:ident, $sys:path, $Q:ident, $Dim:ident, [$($proto:ident = $e:expr;)*], [$($wrong:ident;)*], [$($nest:ident;)*]) => {
        mod $mod {
            use super::*;
            use $sys as s;
            use s::{$Q, $Dim};

            pub fn round_trip<S: Storage, const D: $Dim>(_proto: $Q<S, D>, t: &mut Tape, c: &mut Ctx) -> Res
            where
                $Q<S, D>: Serialize + DeserializeOwned,
            {
                let x = S::gen(t);
                c.note(format!("value {}", x.show()));
                let q = $Q::<S, D>::new_unchecked(x);
                for (format, text, r) in through(&q)? {
                    if format == "yaml" {
                        c.note(text.trim());
                    }
                    let r = r.map_err(|e| format!("{format}: {text:?} does not read back: {e}"))?;
                    expect_same(&format!("{format}: {text:?}"), r.value_unchecked(), x)?;
                }
                if !x.same(&S::default()) {
                    c.nontrivial();
                }
                // no other dimension accepts the text
                let text = serde_json::to_string(&q).unwrap();
                let yaml = serde_yaml::to_string(&q).unwrap();
                // (vector texts are not numbers, so they are rejected whatever the dimension)
                let scalar = S::NAME == "f64" || S::NAME == "f32";
                $({
                    type W = s::dimensions::$wrong<f64>;
                    let accepted = serde_json::from_str::<W>(&text).is_ok();
                    let accepted_yaml = serde_yaml::from_str::<W>(&yaml).is_ok();
                    let want = scalar && same(&W::new_unchecked(0.0), &q);
                    if accepted != want || accepted_yaml != want {
                        return Err(format!("reading {text} as f64 of dimension {}: accepted = {accepted} / {accepted_yaml}", stringify!($wrong)));
                    }
                })*
                Ok(())
            }

            pub fn nested<S: Storage, const D: $Dim>(_proto: $Q<S, D>, t: &mut Tape, c: &mut Ctx) -> Res
            where
                $Q<S, D>: Serialize + DeserializeOwned,
            {
                let x = S::gen(t);
                c.note(format!("value {}", x.show()));
                let q = $Q::<S, D>::new_unchecked(x);
                let y = S::gen(t);
                c.note(format!("and {}", y.show()));
                if !x.same(&y) {
                    c.nontrivial();
                }
                let p = $Q::<S, D>::new_unchecked(y);
                let n = Nested {
                    first: q.clone(), maybe: Some(p.clone()), none: None, list: vec![p.clone(), q.clone(), p.clone()],
                    map: [("a".to_string(), q.clone()), ("b c".to_string(), p.clone())].into_iter().collect(),
                    tuple: (p.clone(), 3, q.clone()),
                    boxed: Box::new(if t.bool() { Choice::A(p.clone()) } else { Choice::B { x: p.clone() } }),
                };
                for (format, text, r) in through(&n)? {
                    let r = r.map_err(|e| format!("{format}: nested {text:?} does not read back: {e}"))?;
                    let b = match *r.boxed {
                        Choice::A(x) | Choice::B { x } => x,
                        Choice::C => return Err("wrong variant".into()),
                    };
                    if r.none.is_some() || r.maybe.is_none() || r.list.len() != 3 || r.map.len() != 2 || r.tuple.1 != 3 {
                        return Err(format!("{format}: nested structure changed: {text:?}"));
                    }
                    let got: Vec<S> = [
                        r.first, r.maybe.unwrap(), r.list[0].clone(), r.list[1].clone(), r.list[2].clone(), r.map["a"].clone(), r.map["b c"].clone(),
                        r.tuple.0, r.tuple.2, b,
                    ].into_iter().map(|q| q.value_unchecked()).collect();
                    expect_same(&format!("{format}: nested {text:?}"), got, vec![x, y, y, x, y, x, y, y, x, y])?;
                }
                Ok(())
            }

            fn same<S, T, const A: $Dim, const B: $Dim>(_: &$Q<S, A>, _: &$Q<T, B>) -> bool {
                A.equals(B)
            }

            pub fn any<S: Storage>(t: &mut Tape, c: &mut Ctx) -> Res
            where
                $($Q<S, { $proto }>: Serialize + DeserializeOwned,)*
            {
                let cases: &[(&'static str, fn(&mut Tape, &mut Ctx) -> Res)] = &[
                    $((stringify!($proto), |t, c| round_trip($Q::<S, { $proto }>::new_unchecked(S::scaled_one()), t, c)),)*
                    $((concat!("nested ", stringify!($nest)), |t, c| nested($Q::<S, { $nest }>::new_unchecked(S::scaled_one()), t, c)),)*
                ];
                let (name, f) = t.pick(cases);
                c.note(format!("{} {}", S::NAME, name));
                c.class(name);
                f(t, c)
            }
            $(pub const $proto: $Dim = $e;)*
            #[allow(dead_code)]
            const fn dim_of<S: Copy, const D: $Dim>(_: &$Q<S, D>) -> $Dim {
                D
            }
        }
    };
}

system!(custom, crate::sys, Quantity, Dimension, [
    NONE = dim_of(&s::dimensions::Dimensionless::<f64>::new_unchecked(0.0));
    LENGTH = dim_of(&s::dimensions::Length::<f64>::new_unchecked(0.0));
    AREA = dim_of(&s::dimensions::Area::<f64>::new_unchecked(0.0));
    VELOCITY = dim_of(&s::dimensions::Velocity::<f64>::new_unchecked(0.0));
    INV_TIME = dim_of(&s::dimensions::InvTime::<f64>::new_unchecked(0.0));
    INV_AREA = dim_of(&s::dimensions::InvArea::<f64>::new_unchecked(0.0));
    ENERGY = dim_of(&s::dimensions::Energy::<f64>::new_unchecked(0.0));
    ODD = dim_of(&s::dimensions::Odd::<f64>::new_unchecked(0.0));
    HYPER = dim_of(&s::dimensions::Hyper::<f64>::new_unchecked(0.0));
    CURRENT = dim_of(&s::dimensions::Current::<f64>::new_unchecked(0.0));
    UNNAMED_A = dim_of(&<diman::Product<s::dimensions::Energy<f64>, s::dimensions::Odd<f64>>>::new_unchecked(0.0));
    UNNAMED_B = dim_of(&<diman::Quotient<s::dimensions::Hyper<f64>, s::dimensions::Odd<f64>>>::new_unchecked(0.0));
], [Dimensionless; Length; Velocity; InvTime; Energy; Odd;], [NONE; VELOCITY; UNNAMED_A;]);

system!(si, diman::si, Quantity, Dimension, [
    NONE = dim_of(&s::dimensions::Dimensionless::<f64>::new_unchecked(0.0));
    LENGTH = dim_of(&s::dimensions::Length::<f64>::new_unchecked(0.0));
    FORCE = dim_of(&s::dimensions::Force::<f64>::new_unchecked(0.0));
    VELOCITY = dim_of(&s::dimensions::Velocity::<f64>::new_unchecked(0.0));
    FREQUENCY = dim_of(&s::dimensions::Frequency::<f64>::new_unchecked(0.0));
    ENERGY = dim_of(&s::dimensions::Energy::<f64>::new_unchecked(0.0));
    PRESSURE = dim_of(&s::dimensions::Pressure::<f64>::new_unchecked(0.0));
    CHARGE = dim_of(&s::dimensions::ElectricCharge::<f64>::new_unchecked(0.0));
    TEMPERATURE = dim_of(&s::dimensions::Temperature::<f64>::new_unchecked(0.0));
    MASS = dim_of(&s::dimensions::Mass::<f64>::new_unchecked(0.0));
    UNNAMED_A = dim_of(&<diman::Product<s::dimensions::Energy<f64>, s::dimensions::Temperature<f64>>>::new_unchecked(0.0));
    UNNAMED_B = dim_of(&<diman::Quotient<s::dimensions::Mass<f64>, s::dimensions::Volume<f64>>>::new_unchecked(0.0));
], [Dimensionless; Length; Force; Frequency; Mass;], [FORCE;]);

system!(oddly, crate::odd, Amount, Kind, [
    EE = dim_of(&s::dimensions::E::<f64>::new_unchecked(0.0));
    INF = dim_of(&s::dimensions::Inf::<f64>::new_unchecked(0.0));
    NAN = dim_of(&s::dimensions::NaN::<f64>::new_unchecked(0.0));
    NINF = dim_of(&s::dimensions::Ninf::<f64>::new_unchecked(0.0));
    FAR = dim_of(&s::dimensions::Far::<f64>::new_unchecked(0.0));
    BOTH = dim_of(&<diman::Product<s::dimensions::E<f64>, s::dimensions::NaN<f64>>>::new_unchecked(0.0));
    INV = dim_of(&<diman::Quotient<s::dimensions::Ninf<f64>, s::dimensions::E<f64>>>::new_unchecked(0.0));
], [E; Inf; NaN; Far;], [INF;]);


#[cfg(feature = "rational")]
system!(rational, crate::sys, Quantity, Dimension, [
    SQRT_LENGTH = dim_of(&s::dimensions::Length::<f64>::new_unchecked(0.0)).div_2();
    CBRT_ENERGY = dim_of(&s::dimensions::Energy::<f64>::new_unchecked(0.0)).div_3();
    SIXTH = dim_of(&s::dimensions::Odd::<f64>::new_unchecked(0.0)).div_3().div_2().mul(5);
    LARGE = dim_of(&s::dimensions::Odd::<f64>::new_unchecked(0.0)).mul(1001).div_2().div_2().div_2();
    BACK = dim_of(&s::dimensions::InvArea::<f64>::new_unchecked(0.0)).div_2().mul(2);
], [Dimensionless; Length; InvArea; Energy;], [SIXTH;]);

fn main() {
    macro_rules! props {
        ($($m:ident $w:expr, $S:ty;)*) => {
            vec![$(Prop { name: concat!(stringify!($m), " ", stringify!($S)), weight: $w, run: $m::any::<$S> },)*]
        };
    }
    use glam::*;
    #[allow(unused_mut)]
    let mut props = props!(
        custom 3, f64; custom 3, f32; custom 2, Vec2; custom 2, DVec2; custom 2, Vec3; custom 2, DVec3;
        si 3, f64; si 3, f32; si 2, Vec2; si 2, DVec2; si 2, Vec3; si 2, DVec3;
        oddly 2, f64; oddly 2, f32; oddly 1, Vec2; oddly 1, DVec2; oddly 1, Vec3; oddly 1, DVec3;
    );
    #[cfg(feature = "rational")]
    props.extend(props!(
        rational 3, f64; rational 3, f32; rational 1, Vec2; rational 1, DVec2; rational 1, Vec3; rational 1, DVec3;
    ));
    vpbt::main(props);
}
