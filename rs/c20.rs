// C20: MPI transfer preserves quantities.
#![allow(incomplete_features)]
#![feature(generic_const_exprs, adt_const_params)]
#[path = "vpbt.rs"]
mod vpbt;
#[path = "sys.rs"]
mod sys;
use mpi::collective::{CommunicatorCollectives, Root, SystemOperation};
use mpi::datatype::{Buffer, BufferMut, Equivalence};
use mpi::point_to_point as p2p;
use mpi::raw::AsRaw;
use mpi::topology::{Communicator, SimpleCommunicator};
use std::ffi::CString;
use vpbt::*;

thread_local! {
    static WORLD: SimpleCommunicator = SimpleCommunicator::world();
}

/// Storage types and how their values look as a list of floats
trait Flat: Storage {
    type F: Storage + Equivalence + PartialEq;
    const N: usize;
    fn flat(&self) -> Vec<Self::F>;
}
macro_rules! flat {
    ($V:ty, $F:ident, $n:literal) => {
        impl Flat for $V {
            type F = $F;
            const N: usize = $n;
            fn flat(&self) -> Vec<$F> {
                self.to_array().to_vec()
            }
        }
    };
}
impl Flat for f64 {
    type F = f64;
    const N: usize = 1;
    fn flat(&self) -> Vec<f64> {
        vec![*self]
    }
}
impl Flat for f32 {
    type F = f32;
    const N: usize = 1;
    fn flat(&self) -> Vec<f32> {
        vec![*self]
    }
}
flat!(glam::Vec2, f32, 2);
flat!(glam::DVec2, f64, 2);
flat!(glam::Vec3, f32, 3);
flat!(glam::DVec3, f64, 3);

fn flat_all<S: Flat>(v: &[S]) -> Vec<S::F> {
    v.iter().flat_map(|x| x.flat()).collect()
}

fn external<B: Buffer + ?Sized>(b: &B) -> Result<Vec<u8>, String> {
    let repr = CString::new("external32").unwrap();
    let dt = b.as_datatype();
    let mut size: mpi::ffi::MPI_Aint = 0;
    let mut pos: mpi::ffi::MPI_Aint = 0;
    unsafe {
        mpi::ffi::MPI_Pack_external_size(repr.as_ptr(), b.count(), dt.as_raw(), &mut size);
        if size < 0 || size > 1 << 20 {
            return Err(format!("external size {size}"));
        }
        let mut out = vec![0u8; size as usize];
        mpi::ffi::MPI_Pack_external(repr.as_ptr(), b.pointer(), b.count(), dt.as_raw(), out.as_mut_ptr() as *mut _, size, &mut pos);
        out.truncate(pos as usize);
        Ok(out)
    }
}

fn equal_bytes(what: &str, a: &[u8], b: &[u8]) -> Res {
    if a == b { Ok(()) } else { Err(format!("{what}: {a:?} instead of {b:?}")) }
}

macro_rules! props {
    ($mod:ident, $S:ty, $sys:path, $D:ident, $E:ident) => {
        mod $mod {
            use super::*;
            use $sys as s;
            type Q = s::dimensions::$D<$S>;
            type F = <$S as Flat>::F;

            #[derive(Clone, Copy, mpi::traits::Equivalence)]
            struct Particle {
                id: i32,
                position: Q,
                weight: s::dimensions::$E<F>,
                flag: u8,
                momentum: s::dimensions::$E<$S>,
            }

            fn values(t: &mut Tape, c: &mut Ctx) -> Vec<$S> {
                let n = t.below(7);
                let v: Vec<$S> = (0..n).map(|_| <$S as Storage>::gen(t)).collect();
                c.note(v.show());
                if n > 1 {
                    c.nontrivial();
                }
                v
            }

            fn raw(q: &[Q]) -> Vec<$S> {
                q.iter().map(|x| x.value_unchecked()).collect()
            }

            fn flat_mut(b: &mut Vec<$S>) -> Vec<F> {
                flat_all(b)
            }

            pub fn packing(t: &mut Tape, c: &mut Ctx) -> Res {
                let v = values(t, c);
                let canary = <$S as Storage>::gen(t);
                WORLD.with(|world| {
                    let q: Vec<Q> = v.iter().map(|x| Q::new_unchecked(*x)).collect();
                    let floats = flat_all(&v);
                    // the packed form is that of the stored floats
                    let packed = world.pack(&q[..]);
                    let packed_floats = world.pack(&floats[..]);
                    equal_bytes("packed quantities", &packed, &packed_floats)?;
                    equal_bytes("external form", &external(&q[..])?, &external(&floats[..])?)?;
                    // unpacking writes exactly the buffer
                    let mut back = vec![Q::new_unchecked(canary); v.len() + 2];
                    let pos = unsafe { world.unpack_into(&packed, &mut back[1..v.len() + 1], 0) };
                    expect_same("unpacked length", vec![pos as f64], vec![packed.len() as f64])?;
                    let mut want = vec![canary];
                    want.extend(&v);
                    want.push(canary);
                    expect_same("unpacked quantities", raw(&back), want)?;
                    // floats unpacked as quantities and quantities unpacked as floats
                    let mut back = vec![Q::new_unchecked(canary); v.len() + 2];
                    unsafe { world.unpack_into(&packed_floats, &mut back[1..v.len() + 1], 0) };
                    expect_same("floats unpacked as quantities", raw(&back[1..v.len() + 1]), v.clone())?;
                    let mut fback = vec![<F as Default>::default(); floats.len()];
                    unsafe { world.unpack_into(&packed, &mut fback[..], 0) };
                    expect_same("quantities unpacked as floats", fback, floats.clone())?;
                    // one at a time, at increasing positions
                    let mut out = vec![0u8; packed.len() + 64];
                    let mut at = 0;
                    for x in &q {
                        at = world.pack_into(x, &mut out, at);
                    }
                    equal_bytes("packed one by one", &out[..at as usize], &packed)?;
                    let mut at = 0;
                    for x in &v {
                        let mut y = Q::new_unchecked(canary);
                        at = unsafe { world.unpack_into(&out, &mut y, at) };
                        expect_same("unpacked one by one", y.value_unchecked(), *x)?;
                    }
                    expect_same("operands", raw(&q), v.clone())?;
                    let _ = flat_mut(&mut v.clone());
                    Ok(())
                })
            }

            pub fn messages(t: &mut Tape, c: &mut Ctx) -> Res {
                let v = values(t, c);
                let canary = <$S as Storage>::gen(t);
                WORLD.with(|world| {
                    let me = world.process_at_rank(world.rank());
                    let q: Vec<Q> = v.iter().map(|x| Q::new_unchecked(*x)).collect();
                    let floats = flat_all(&v);
                    let mut back = vec![Q::new_unchecked(canary); v.len() + 2];
                    p2p::send_receive_into(&q[..], &me, &mut back[1..v.len() + 1], &me);
                    let mut want = vec![canary];
                    want.extend(&v);
                    want.push(canary);
                    expect_same("received quantities", raw(&back), want)?;
                    let mut fback = vec![<F as Default>::default(); floats.len()];
                    p2p::send_receive_into(&q[..], &me, &mut fback[..], &me);
                    expect_same("quantities received as floats", fback, floats.clone())?;
                    let mut back = vec![Q::new_unchecked(canary); v.len()];
                    p2p::send_receive_into(&floats[..], &me, &mut back[..], &me);
                    expect_same("floats received as quantities", raw(&back), v.clone())?;
                    // collectives
                    if let Some(x) = q.first() {
                        let mut y = *x;
                        me.broadcast_into(&mut y);
                        expect_same("broadcast", y.value_unchecked(), v[0])?;
                        let mut all = vec![Q::new_unchecked(canary); 1];
                        world.all_gather_into(x, &mut all[..]);
                        expect_same("gathered", all[0].value_unchecked(), v[0])?;
                        let (got, _) = p2p::send_receive::<Q, Q, _, _>(x, &me, &me);
                        expect_same("a single message", got.value_unchecked(), v[0])?;
                    }
                    let mut all = vec![Q::new_unchecked(canary); v.len()];
                    world.all_gather_into(&q[..], &mut all[..]);
                    expect_same("gathered slice", raw(&all), v.clone())
                })
            }

            pub fn structs(t: &mut Tape, c: &mut Ctx) -> Res {
                let n = t.below(4);
                let mut v = vec![];
                for i in 0..n {
                    let (a, b, m) = (<$S as Storage>::gen(t), <F as Storage>::gen(t), <$S as Storage>::gen(t));
                    c.note(format!("{} {} {}", a.show(), b.show(), m.show()));
                    c.nontrivial();
                    v.push(Particle {
                        id: i as i32 - 1,
                        position: Q::new_unchecked(a),
                        weight: s::dimensions::$E::<F>::new_unchecked(b),
                        flag: t.draw(256) as u8,
                        momentum: s::dimensions::$E::<$S>::new_unchecked(m),
                    });
                }
                WORLD.with(|world| {
                    let zero = Particle {
                        id: 77,
                        position: Q::new_unchecked(Default::default()),
                        weight: s::dimensions::$E::<F>::new_unchecked(Default::default()),
                        flag: 99,
                        momentum: s::dimensions::$E::<$S>::new_unchecked(Default::default()),
                    };
                    let packed = world.pack(&v[..]);
                    let mut back = vec![zero; v.len() + 1];
                    unsafe { world.unpack_into(&packed, &mut back[..v.len()], 0) };
                    let me = world.process_at_rank(world.rank());
                    let mut sent = vec![zero; v.len() + 1];
                    p2p::send_receive_into(&v[..], &me, &mut sent[..v.len()], &me);
                    v.push(zero);
                    for got in [back, sent] {
                        for (x, y) in got.iter().zip(&v) {
                            if x.id != y.id || x.flag != y.flag {
                                return Err("other members of the struct changed".to_string());
                            }
                            expect_same("position", x.position.value_unchecked(), y.position.value_unchecked())?;
                            expect_same("weight", x.weight.value_unchecked(), y.weight.value_unchecked())?;
                            expect_same("momentum", x.momentum.value_unchecked(), y.momentum.value_unchecked())?;
                        }
                    }
                    Ok(())
                })
            }

            pub fn datatype(_: &mut Tape, c: &mut Ctx) -> Res {
                c.note("size and extent");
                c.nontrivial();
                let dt = Q::equivalent_datatype();
                let mut size = 0;
                let (mut lb, mut extent) = (0, 0);
                let (mut tlb, mut textent) = (0, 0);
                unsafe {
                    mpi::ffi::MPI_Type_size(dt.as_raw(), &mut size);
                    mpi::ffi::MPI_Type_get_extent(dt.as_raw(), &mut lb, &mut extent);
                    mpi::ffi::MPI_Type_get_true_extent(dt.as_raw(), &mut tlb, &mut textent);
                }
                let want = std::mem::size_of::<$S>() as f64;
                expect_same(
                    "size, lower bound, extent",
                    vec![size as f64, lb as f64, extent as f64, tlb as f64, textent as f64],
                    vec![want, 0.0, want, 0.0, want],
                )
            }
        }
    };
}
props!(f64_length, f64, crate::sys, Length, Odd);
props!(f32_energy, f32, crate::sys, Energy, Length);
props!(vec2, glam::Vec2, crate::sys, Velocity, Time);
props!(dvec2, glam::DVec2, crate::sys, Odd, Mass);
props!(vec3, glam::Vec3, crate::sys, Length, Velocity);
props!(dvec3, glam::DVec3, crate::sys, InvTime, Energy);
props!(si_f64, f64, diman::si, Energy, Mass);
props!(si_f32, f32, diman::si, Mass, Length);
props!(si_vec2, glam::Vec2, diman::si, Force, Mass);
props!(si_dvec2, glam::DVec2, diman::si, Force, Time);
props!(si_vec3, glam::Vec3, diman::si, Velocity, Mass);
props!(si_dvec3, glam::DVec3, diman::si, Acceleration, Mass);

/// Reductions interpret the transferred values as numbers
macro_rules! reduction {
    ($f:ident, $S:ident, $sys:path, $D:ident) => {
        fn $f(t: &mut Tape, c: &mut Ctx) -> Res {
            use $sys as s;
            type Q = s::dimensions::$D<$S>;
            let n = t.below(5);
            let a: Vec<$S> = (0..n).map(|_| <$S as Storage>::gen(t)).collect();
            let b: Vec<$S> = (0..n).map(|_| <$S as Storage>::gen(t)).collect();
            c.note(format!("{} and {}", a.show(), b.show()));
            if n > 0 {
                c.nontrivial();
            }
            let q = |v: &[$S]| -> Vec<Q> { v.iter().map(|x| Q::new_unchecked(*x)).collect() };
            for op in [SystemOperation::sum(), SystemOperation::max(), SystemOperation::min()] {
                let (x, mut y) = (q(&a), q(&b));
                mpi::collective::reduce_local_into(&x[..], &mut y[..], &op);
                let mut want = b.clone();
                mpi::collective::reduce_local_into(&a[..], &mut want[..], &op);
                expect_same("reduction", y.iter().map(|x| x.value_unchecked()).collect::<Vec<_>>(), want)?;
            }
            let (x, mut y) = (q(&a), q(&b));
            mpi::collective::reduce_local_into(&x[..], &mut y[..], SystemOperation::sum());
            let want: Vec<$S> = a.iter().zip(&b).map(|(x, y)| x + y).collect();
            expect_same("sum", y.iter().map(|x| x.value_unchecked()).collect::<Vec<_>>(), want)
        }
    };
}
reduction!(reduce_f64, f64, crate::sys, Odd);
reduction!(reduce_f32, f32, crate::sys, Velocity);
reduction!(reduce_si_f64, f64, diman::si, Force);
reduction!(reduce_si_f32, f32, diman::si, Length);

fn main() {
    let (_universe, _) = mpi::initialize_with_threading(mpi::Threading::Single).unwrap();
    let mut p: Vec<Prop> = vec![];
    macro_rules! all {
        ($($m:ident)*) => {
            $(
                p.push(Prop { name: concat!(stringify!($m), " packing"), weight: 40, run: $m::packing });
                p.push(Prop { name: concat!(stringify!($m), " messages"), weight: 40, run: $m::messages });
                p.push(Prop { name: concat!(stringify!($m), " structs"), weight: 20, run: $m::structs });
                p.push(Prop { name: concat!(stringify!($m), " datatype"), weight: 1, run: $m::datatype });
            )*
        };
    }
    all!(f64_length f32_energy vec2 dvec2 vec3 dvec3 si_f64 si_f32 si_vec2 si_dvec2 si_vec3 si_dvec3);
    p.push(Prop { name: "f64 reduction", weight: 20, run: reduce_f64 });
    p.push(Prop { name: "f32 reduction", weight: 20, run: reduce_f32 });
    p.push(Prop { name: "SI f64 reduction", weight: 20, run: reduce_si_f64 });
    p.push(Prop { name: "SI f32 reduction", weight: 20, run: reduce_si_f32 });
    vpbt::main(p);
}
