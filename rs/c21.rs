// C21: HDF5 storage preserves quantities.
#![allow(incomplete_features)]
#![feature(generic_const_exprs, adt_const_params)]
#[path = "vpbt.rs"]
mod vpbt;
#[path = "sys.rs"]
mod sys;
use hdf5::types::{FloatSize, TypeDescriptor};
use hdf5::H5Type;
use std::cell::Cell;
use vpbt::*;

thread_local! {
    // an in-memory file that is never written to disk
    static FILE: hdf5::File = hdf5::File::with_options()
        .with_fapl(|f| f.core_options(1 << 20, false))
        .create("vp-in-memory.h5")
        .unwrap();
    static COUNT: Cell<u64> = const { Cell::new(0) };
}

trait Flat: Storage {
    type F: Storage + H5Type;
    type Raw: H5Type + Copy;
    fn raw(self) -> Self::Raw;
    fn cooked(r: Self::Raw) -> Self;
    fn floats(self) -> Vec<Self::F>;
    fn descriptor() -> TypeDescriptor;
}
macro_rules! scalar {
    ($S:ident, $size:ident) => {
        impl Flat for $S {
            type F = $S;
            type Raw = $S;
            fn raw(self) -> $S {
                self
            }
            fn cooked(r: $S) -> $S {
                r
            }
            fn floats(self) -> Vec<$S> {
                vec![self]
            }
            fn descriptor() -> TypeDescriptor {
                TypeDescriptor::Float(FloatSize::$size)
            }
        }
    };
}
scalar!(f64, U8);
scalar!(f32, U4);
macro_rules! vector {
    ($V:ty, $F:ident, $n:literal, $size:ident) => {
        impl Flat for $V {
            type F = $F;
            type Raw = [$F; $n];
            fn raw(self) -> [$F; $n] {
                self.to_array()
            }
            fn cooked(r: [$F; $n]) -> Self {
                <$V>::from_array(r)
            }
            fn floats(self) -> Vec<$F> {
                self.to_array().to_vec()
            }
            fn descriptor() -> TypeDescriptor {
                TypeDescriptor::FixedArray(Box::new(TypeDescriptor::Float(FloatSize::$size)), $n)
            }
        }
    };
}
vector!(glam::Vec2, f32, 2, U4);
vector!(glam::DVec2, f64, 2, U8);
vector!(glam::Vec3, f32, 3, U4);
vector!(glam::DVec3, f64, 3, U8);

fn err(e: hdf5::Error) -> String {
    format!("HDF5 error: {e}")
}

macro_rules! props {
    ($mod:ident, $S:ty, $sys:path, $D:ident, $E:ident) => {
        mod $mod {
            use super::*;
            use $sys as s;
            type Q = s::dimensions::$D<$S>;
            type Raw = <$S as Flat>::Raw;

            #[derive(Clone, Copy, hdf5::H5Type)]
            #[repr(C)]
            struct Particle {
                id: i32,
                position: Q,
                weight: s::dimensions::$E<<$S as Flat>::F>,
            }

            fn values(t: &mut Tape, c: &mut Ctx) -> Vec<$S> {
                let n = t.below(7);
                let v: Vec<$S> = (0..n).map(|_| <$S as Storage>::gen(t)).collect();
                c.note(v.show());
                if n > 1 {
                    c.nontrivial();
                }
                v
            }

            fn in_group(f: impl FnOnce(&hdf5::Group) -> Res) -> Res {
                FILE.with(|file| {
                    let name = COUNT.with(|c| {
                        c.set(c.get() + 1);
                        format!("g{}", c.get())
                    });
                    let g = file.create_group(&name).map_err(err)?;
                    let r = f(&g);
                    drop(g);
                    file.unlink(&name).map_err(err)?;
                    r
                })
            }

            pub fn datasets(t: &mut Tape, c: &mut Ctx) -> Res {
                let v = values(t, c);
                let q: Vec<Q> = v.iter().map(|x| Q::new_unchecked(*x)).collect();
                in_group(|g| {
                    // quantities written and read as quantities and as raw values
                    let ds = g.new_dataset_builder().with_data(&q[..]).create("q").map_err(err)?;
                    let back: Vec<Q> = ds.read_raw().map_err(err)?;
                    expect_same("read back", back.iter().map(|x| x.value_unchecked()).collect::<Vec<_>>(), v.clone())?;
                    let raw: Vec<Raw> = ds.read_raw().map_err(err)?;
                    expect_same("read as raw values", raw.iter().map(|x| <$S as Flat>::cooked(*x)).collect::<Vec<_>>(), v.clone())?;
                    let desc = ds.dtype().map_err(err)?.to_descriptor().map_err(err)?;
                    if desc != <$S as Flat>::descriptor() {
                        return Err(format!("the dataset has type {desc:?} instead of {:?}", <$S as Flat>::descriptor()));
                    }
                    // raw values read as quantities
                    let raws: Vec<Raw> = v.iter().map(|x| x.raw()).collect();
                    let ds = g.new_dataset::<Raw>().shape([v.len()]).create("raw").map_err(err)?;
                    ds.write_raw(&raws[..]).map_err(err)?;
                    let back: Vec<Q> = ds.read_raw().map_err(err)?;
                    expect_same("raw values read as quantities", back.iter().map(|x| x.value_unchecked()).collect::<Vec<_>>(), v.clone())?;
                    // a dataset of the quantity's type that is written to later
                    let ds = g.new_dataset::<Q>().shape([v.len()]).create("later").map_err(err)?;
                    ds.write(&q[..]).map_err(err)?;
                    let back: Vec<Q> = ds.read_raw().map_err(err)?;
                    expect_same("written later", back.iter().map(|x| x.value_unchecked()).collect::<Vec<_>>(), v.clone())?;
                    ds.write_raw(&raws[..]).map_err(err)?;
                    let back: Vec<Q> = ds.read_raw().map_err(err)?;
                    expect_same("written as raw values", back.iter().map(|x| x.value_unchecked()).collect::<Vec<_>>(), v.clone())
                })
            }

            pub fn scalars(t: &mut Tape, c: &mut Ctx) -> Res {
                let x = <$S as Storage>::gen(t);
                let w = <<$S as Flat>::F as Storage>::gen(t);
                c.note(format!("{} {}", x.show(), w.show()));
                c.nontrivial();
                in_group(|g| {
                    let ds = g.new_dataset::<Q>().create("scalar").map_err(err)?;
                    ds.write_scalar(&Q::new_unchecked(x)).map_err(err)?;
                    let back: Q = ds.read_scalar().map_err(err)?;
                    expect_same("scalar dataset", back.value_unchecked(), x)?;
                    let raw: Raw = ds.read_scalar().map_err(err)?;
                    expect_same("scalar dataset as raw value", <$S as Flat>::cooked(raw), x)?;
                    let at = g.new_attr::<Q>().create("attribute").map_err(err)?;
                    at.write_scalar(&Q::new_unchecked(x)).map_err(err)?;
                    let back: Q = at.read_scalar().map_err(err)?;
                    expect_same("attribute", back.value_unchecked(), x)?;
                    // compounds with quantities as members
                    let p = Particle { id: 7, position: Q::new_unchecked(x), weight: s::dimensions::$E::new_unchecked(w) };
                    let ds = g.new_dataset_builder().with_data(&[p, p]).create("particles").map_err(err)?;
                    let back: Vec<Particle> = ds.read_raw().map_err(err)?;
                    if back.len() != 2 || back[1].id != 7 {
                        return Err("compound".to_string());
                    }
                    expect_same("member of a compound", back[1].position.value_unchecked(), x)?;
                    expect_same("member of a compound", back[0].weight.value_unchecked(), w)
                })
            }

            pub fn descriptor(_: &mut Tape, c: &mut Ctx) -> Res {
                c.note("type descriptor");
                c.nontrivial();
                let d = Q::type_descriptor();
                if d != <$S as Flat>::descriptor() || d.size() != std::mem::size_of::<Q>() {
                    return Err(format!("type descriptor {d:?}"));
                }
                if <$S as Flat>::Raw::type_descriptor() != d {
                    return Err(format!("type descriptor {d:?} is not that of the raw value"));
                }
                Ok(())
            }
        }
    };
}
props!(f64_length, f64, crate::sys, Length, Odd);
props!(f32_energy, f32, crate::sys, Energy, Length);
props!(vec2, glam::Vec2, crate::sys, Velocity, Time);
props!(dvec2, glam::DVec2, crate::sys, Odd, Mass);
props!(vec3, glam::Vec3, crate::sys, Length, Velocity);
props!(dvec3, glam::DVec3, crate::sys, InvTime, Energy);
props!(si_f64, f64, diman::si, Energy, Mass);
props!(si_f32, f32, diman::si, Mass, Length);
props!(si_vec2, glam::Vec2, diman::si, Force, Mass);
props!(si_dvec2, glam::DVec2, diman::si, Force, Time);
props!(si_vec3, glam::Vec3, diman::si, Velocity, Mass);
props!(si_dvec3, glam::DVec3, diman::si, Acceleration, Mass);

fn main() {
    hdf5::silence_errors(true);
    let mut p: Vec<Prop> = vec![];
    macro_rules! all {
        ($($m:ident)*) => {
            $(
                p.push(Prop { name: concat!(stringify!($m), " datasets"), weight: 40, run: $m::datasets });
                p.push(Prop { name: concat!(stringify!($m), " scalars"), weight: 20, run: $m::scalars });
                p.push(Prop { name: concat!(stringify!($m), " descriptor"), weight: 1, run: $m::descriptor });
            )*
        };
    }
    all!(f64_length f32_energy vec2 dvec2 vec3 dvec3 si_f64 si_f32 si_vec2 si_dvec2 si_vec3 si_dvec3);
    vpbt::main(p);
}
