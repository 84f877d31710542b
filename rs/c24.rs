// C24: a quantity is its stored value and nothing else.
#![allow(incomplete_features)]
#![feature(generic_const_exprs, adt_const_params)]
#[path = "vpbt.rs"]
mod vpbt;
#[path = "sys.rs"]
mod sys;
use std::mem::{align_of, size_of};
use vpbt::*;

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
#[repr(C)]
struct Odd {
    a: u8,
    b: u64,
    c: u16,
}
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
#[repr(align(32))]
struct Aligned(u8);
/// Neither Copy nor Default
#[derive(Debug, PartialEq, Eq, Clone)]
struct Plain(String, Box<u8>);

trait Any: Sized + 'static {
    const NAME: &'static str;
    fn make(t: &mut Tape) -> Self;
    fn eq(&self, other: &Self) -> bool;
    fn text(&self) -> String;
}
macro_rules! any {
    ($($ty:ty, $name:literal, |$t:ident| $make:expr;)*) => {
        $(impl Any for $ty {
            const NAME: &'static str = $name;
            fn make($t: &mut Tape) -> Self {
                $make
            }
            fn eq(&self, other: &Self) -> bool {
                self == other
            }
            fn text(&self) -> String {
                format!("{:?}", self)
            }
        })*
    };
}
any! {
    u8, "u8", |t| t.draw(256) as u8;
    i16, "i16", |t| t.draw(65536) as i16;
    u32, "u32", |t| t.draw(1 << 32) as u32;
    i64, "i64", |t| t.draw(u64::MAX) as i64;
    i128, "i128", |t| (t.draw(u64::MAX) as i128) << 63 | t.draw(u64::MAX) as i128;
    usize, "usize", |t| t.draw(u64::MAX) as usize;
    bool, "bool", |t| t.bool();
    char, "char", |t| char::from_u32(t.draw(0xd800) as u32).unwrap();
    (), "()", |_t| ();
    [u16; 5], "[u16; 5]", |t| [0; 5].map(|_| t.draw(65536) as u16);
    (u8, u64), "(u8, u64)", |t| (t.draw(256) as u8, t.draw(u64::MAX));
    Option<std::num::NonZeroU32>, "Option<NonZeroU32>", |t| std::num::NonZeroU32::new(t.draw(9) as u32);
    Odd, "Odd", |t| Odd { a: t.draw(256) as u8, b: t.draw(u64::MAX), c: t.draw(65536) as u16 };
    Aligned, "Aligned", |t| Aligned(t.draw(256) as u8);
    String, "String", |t| format!("{}", t.draw(100000));
    Vec<u8>, "Vec<u8>", |t| (0..t.draw(9)).map(|x| x as u8).collect();
    Box<u64>, "Box<u64>", |t| Box::new(t.draw(u64::MAX));
    Plain, "Plain", |t| Plain(format!("{}", t.draw(1000)), Box::new(t.draw(256) as u8));
}
macro_rules! any_float {
    ($($ty:ty)*) => {
        $(impl Any for $ty {
            const NAME: &'static str = <$ty as Storage>::NAME;
            fn make(t: &mut Tape) -> Self {
                <$ty as Storage>::gen(t)
            }
            fn eq(&self, other: &Self) -> bool {
                self.same(other)
            }
            fn text(&self) -> String {
                self.show()
            }
        })*
    };
}
any_float!(f32 f64);
#[cfg(feature = "glam")]
any_float!(glam::Vec2 glam::DVec2 glam::Vec3 glam::DVec3);

fn ok(what: &str, b: bool) -> Res {
    if b { Ok(()) } else { Err(what.to_string()) }
}

fn bytes<T>(x: &T) -> Vec<u8> {
    unsafe { std::slice::from_raw_parts(x as *const T as *const u8, size_of::<T>()) }.to_vec()
}

macro_rules! layout {
    ($fname:ident, $sys:path, $($D:ident)*) => {
        fn $fname<S: Any>(t: &mut Tape, c: &mut Ctx) -> Res {
            use $sys as s;
            let x = S::make(t);
            c.note(format!("{}: {}", S::NAME, x.text()));
            c.nontrivial();
            $({
                type Q<S> = s::dimensions::$D<S>;
                ok("size", size_of::<Q<S>>() == size_of::<S>())?;
                ok("alignment", align_of::<Q<S>>() == align_of::<S>())?;
                ok("size of an option", size_of::<Option<Q<S>>>() >= size_of::<S>())?;
                ok("size of an array", size_of::<[Q<S>; 3]>() == size_of::<[S; 3]>())?;
            })*
            Ok(())
        }
    };
}
layout!(layout_sys, crate::sys, Dimensionless Length Energy Odd InvArea);
layout!(layout_si, diman::si, Dimensionless Length Energy Force Voltage);

macro_rules! access {
    ($fname:ident, $sys:path, $D:ident) => {
        fn $fname<S: Any>(t: &mut Tape, c: &mut Ctx) -> Res {
            use $sys as s;
            type Q<S> = s::dimensions::$D<S>;
            let n = 1 + t.below(4);
            let mut values: Vec<S> = vec![];
            let mut copies: Vec<S> = vec![];
            // (the same values twice, also for types that cannot be cloned)
            for _ in 0..n {
                let before = t.used();
                values.push(S::make(t));
                let drawn = t.data.get(before..t.used()).map(|x| x.to_vec());
                match drawn {
                    Some(d) => copies.push(S::make(&mut Tape::replay(d))),
                    None => return Ok(()),
                }
            }
            c.note(format!("{}: {}", S::NAME, values.iter().map(|x| x.text()).collect::<Vec<_>>().join(" ")));
            c.nontrivial();
            let q: Vec<Q<S>> = values.into_iter().map(|x| Q::<S>::new_unchecked(x)).collect();
            for (x, y) in q.iter().zip(&copies) {
                ok("value_unchecked_ref", x.value_unchecked_ref().eq(y))?;
                ok("address", x.value_unchecked_ref() as *const S as usize == x as *const Q<S> as usize)?;
            }
            // the buffer reinterpreted
            let raw: &[S] = unsafe { std::slice::from_raw_parts(q.as_ptr() as *const S, q.len()) };
            for (x, y) in raw.iter().zip(&copies) {
                ok("reinterpreted buffer of quantities", x.eq(y))?;
            }
            let back: &[Q<S>] = unsafe { std::slice::from_raw_parts(copies.as_ptr() as *const Q<S>, copies.len()) };
            for (x, y) in back.iter().zip(raw) {
                ok("reinterpreted buffer of values", x.value_unchecked_ref().eq(y))?;
            }
            for (x, y) in q.into_iter().zip(copies) {
                ok("value_unchecked", x.value_unchecked().eq(&y))?;
                let text = y.text();
                ok("inverse", Q::<S>::new_unchecked(y).value_unchecked().text() == text)?;
            }
            Ok(())
        }
    };
}
access!(access_sys, crate::sys, Velocity);
access!(access_sys_none, crate::sys, Dimensionless);
access!(access_si, diman::si, Force);

macro_rules! copies {
    ($fname:ident, $sys:path, $D:ident) => {
        fn $fname<S: Any + Copy + Default>(t: &mut Tape, c: &mut Ctx) -> Res {
            use $sys as s;
            type Q<S> = s::dimensions::$D<S>;
            let x = S::make(t);
            c.note(format!("{}: {}", S::NAME, x.text()));
            c.nontrivial();
            let q = Q::<S>::new_unchecked(x);
            let p = q;
            let r = q.clone();
            ok("copy", p.value_unchecked().eq(&x) && q.value_unchecked_ref().eq(&x))?;
            ok("clone", r.value_unchecked().eq(&x))?;
            ok("default", Q::<S>::default().value_unchecked().eq(&S::default()))?;
            Ok(())
        }
    };
}
copies!(copies_sys, crate::sys, Odd);
copies!(copies_si, diman::si, Energy);

/// Clone calls the storage type's clone, and dropping drops it once
fn ownership(t: &mut Tape, c: &mut Ctx) -> Res {
    use std::rc::Rc;
    let n = t.below(5);
    c.note(format!("{n} clones"));
    c.nontrivial();
    let rc = Rc::new(5u8);
    let q = sys::dimensions::Energy::<Rc<u8>>::new_unchecked(rc.clone());
    let clones: Vec<_> = (0..n).map(|_| q.clone()).collect();
    ok("clones", Rc::strong_count(&rc) == n + 2)?;
    drop(clones);
    ok("dropped", Rc::strong_count(&rc) == 2)?;
    let inner = q.value_unchecked();
    ok("moved out", Rc::strong_count(&rc) == 2 && Rc::ptr_eq(&inner, &rc))
}

/// The bits of floats are kept, including the payload of NaN
macro_rules! bits {
    ($fname:ident, $S:ident, $B:ident, $max:expr) => {
        fn $fname(t: &mut Tape, c: &mut Ctx) -> Res {
            let b = match t.draw(4) {
                0 => (<$S>::NAN.to_bits() as u64 | t.draw(1 << 20)) as $B,
                1 => (<$S>::INFINITY.to_bits() as u64 + 1 + t.draw(1 << 20)) as $B,
                _ => t.draw($max) as $B,
            };
            c.note(format!("{} bits {b:x}", stringify!($S)));
            c.nontrivial();
            let x = <$S>::from_bits(b);
            let want = x.to_bits();
            let q = sys::dimensions::Odd::<$S>::new_unchecked(x);
            ok("bytes", bytes(&q) == bytes(&x))?;
            ok("bits", q.value_unchecked().to_bits() == want && q.clone().value_unchecked_ref().to_bits() == want)?;
            let z: sys::dimensions::Odd<$S> = unsafe { std::mem::transmute(x) };
            ok("transmuted", z.value_unchecked().to_bits() == want)?;
            let p = diman::si::dimensions::Mass::<$S>::new_unchecked(x);
            ok("SI", p.value_unchecked().to_bits() == want && bytes(&p) == bytes(&x))?;
            let n = sys::dimensions::Dimensionless::<$S>::new_unchecked(x);
            ok("number", n.value().to_bits() == want && n.value_ref().to_bits() == want)?;
            let v = vec![q, q, q];
            let raw: &[$S] = unsafe { std::slice::from_raw_parts(v.as_ptr() as *const $S, 3) };
            ok("buffer", raw.iter().all(|y| y.to_bits() == want))
        }
    };
}
bits!(bits_f64, f64, u64, u64::MAX);
bits!(bits_f32, f32, u32, 1u64 << 32);

// construction in constants
const C1: sys::dimensions::Length<f64> = sys::dimensions::Length::new_unchecked(1.5);
static C2: sys::dimensions::Odd<[u8; 3]> = sys::dimensions::Odd::new_unchecked([1, 2, 3]);
const C3: diman::si::dimensions::Force<&str> = diman::si::dimensions::Force::new_unchecked("text");
fn constants(_: &mut Tape, c: &mut Ctx) -> Res {
    c.note("constants");
    c.nontrivial();
    ok("const", C1.value_unchecked() == 1.5 && C2.value_unchecked_ref() == &[1, 2, 3] && C3.value_unchecked() == "text")?;
    fn is_copy<T: Copy + Clone + Default + Send + Sync + Unpin + 'static>() {}
    is_copy::<sys::dimensions::Energy<f64>>();
    is_copy::<diman::si::dimensions::Energy<f32>>();
    fn is_eq<T: Eq>() {}
    is_eq::<sys::dimensions::Energy<i32>>();
    ok("integers compare", sys::dimensions::Energy::<i32>::new_unchecked(5) == sys::dimensions::Energy::<i32>::new_unchecked(5))
}

fn main() {
    let mut p: Vec<Prop> = vec![];
    macro_rules! generic {
        ($($S:ty, $name:literal;)*) => {
            $(
                p.push(Prop { name: concat!($name, " layout"), weight: 1, run: layout_sys::<$S> });
                p.push(Prop { name: concat!($name, " SI layout"), weight: 1, run: layout_si::<$S> });
                p.push(Prop { name: concat!($name, " access"), weight: 10, run: access_sys::<$S> });
                p.push(Prop { name: concat!($name, " number access"), weight: 5, run: access_sys_none::<$S> });
                p.push(Prop { name: concat!($name, " SI access"), weight: 5, run: access_si::<$S> });
            )*
        };
    }
    generic! {
        u8, "u8"; i16, "i16"; u32, "u32"; i64, "i64"; i128, "i128"; usize, "usize"; bool, "bool"; char, "char"; (), "unit";
        [u16; 5], "array"; (u8, u64), "tuple"; Option<std::num::NonZeroU32>, "option"; Odd, "struct"; Aligned, "aligned";
        String, "String"; Vec<u8>, "Vec"; Box<u64>, "Box"; Plain, "not copy"; f32, "f32"; f64, "f64";
    }
    #[cfg(feature = "glam")]
    generic! { glam::Vec2, "Vec2"; glam::DVec2, "DVec2"; glam::Vec3, "Vec3"; glam::DVec3, "DVec3"; }
    macro_rules! copied {
        ($($S:ty, $name:literal;)*) => {
            $(
                p.push(Prop { name: concat!($name, " copies"), weight: 5, run: copies_sys::<$S> });
                p.push(Prop { name: concat!($name, " SI copies"), weight: 3, run: copies_si::<$S> });
            )*
        };
    }
    copied! {
        u8, "u8"; i16, "i16"; u32, "u32"; i64, "i64"; i128, "i128"; usize, "usize"; bool, "bool"; char, "char"; (), "unit";
        [u16; 5], "array"; (u8, u64), "tuple"; Option<std::num::NonZeroU32>, "option"; Odd, "struct"; Aligned, "aligned";
        f32, "f32"; f64, "f64";
    }
    #[cfg(feature = "glam")]
    copied! { glam::Vec2, "Vec2"; glam::DVec2, "DVec2"; glam::Vec3, "Vec3"; glam::DVec3, "DVec3"; }
    p.push(Prop { name: "ownership", weight: 5, run: ownership });
    p.push(Prop { name: "f64 bits", weight: 40, run: bits_f64 });
    p.push(Prop { name: "f32 bits", weight: 40, run: bits_f32 });
    p.push(Prop { name: "constants", weight: 1, run: constants });
    vpbt::main(p);
}
