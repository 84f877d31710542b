// C15: vector methods act on the right components with the right dimension.
#![allow(incomplete_features)]
#![feature(generic_const_exprs, adt_const_params)]
#[path = "vpbt.rs"]
mod vpbt;
#[path = "sys.rs"]
mod sys;
use glam::*;
use vpbt::*;

const ULPS: u64 = 2;

fn zero_ok(what: &str, x: f64) -> Res {
    if x == 0.0 { Ok(()) } else { Err(format!("{what}: other component is {x} instead of 0")) }
}

macro_rules! vector_props {
    ($mod:ident, $sys:path, $V:ident, $F:ident, $gen:ident, [$($c:ident $i:expr, $new:ident, $set:ident;)*], [$D:ident $dd:expr, $Other:ident $do:expr], $dim:expr) => {
        mod $mod {
            use super::*;
            use $sys as s;
            type Q = s::dimensions::$D<$V>;
            type C = s::dimensions::$D<$F>;
            type O = s::dimensions::$Other<$V>;

            fn parts(q: &Q) -> Vec<$F> {
                q.value_unchecked_ref().to_array().to_vec()
            }

            pub fn components(t: &mut Tape, c: &mut Ctx) -> Res {
                let v = <$V as Storage>::gen(t);
                let x = t.$gen();
                c.note(format!("{} with {}", v.show(), x.show()));
                if !v.same(&Default::default()) {
                    c.nontrivial();
                }
                let q = Q::new_unchecked(v);
                let a = v.to_array();
                let s = C::new_unchecked(x);
                // construction from all components
                let comps: Vec<C> = a.iter().map(|x| C::new_unchecked(*x)).collect();
                let built = new(&comps);
                expect_same("new", built.value_unchecked(), v)?;
                $(
                    // reading
                    let got: C = q.$c();
                    expect_same(stringify!($c), got.value_unchecked(), a[$i])?;
                    // writing
                    let mut w = q;
                    w.$set(s);
                    let mut want = a;
                    want[$i] = x;
                    expect_same(stringify!($set), parts(&w), want.to_vec())?;
                    expect_same(concat!(stringify!($set), " then ", stringify!($c)), w.$c().value_unchecked(), x)?;
                    // construction along an axis
                    let got: Q = Q::$new(s);
                    for (j, y) in got.value_unchecked().to_array().into_iter().enumerate() {
                        if j == $i {
                            expect_same(stringify!($new), y, x)?;
                        } else {
                            zero_ok(stringify!($new), y as f64)?;
                        }
                    }
                )*
                expect_same("unchanged", parts(&q), a.to_vec())
            }

            fn new(c: &[C]) -> Q {
                vector_props!(@new $V, c)
            }

            pub fn functions(t: &mut Tape, c: &mut Ctx) -> Res {
                let v = <$V as Storage>::gen(t);
                let w = if t.below(8) == 0 { v } else { <$V as Storage>::gen(t) };
                c.note(format!("{} and {}", v.show(), w.show()));
                if !v.same(&w) && !v.same(&Default::default()) {
                    c.nontrivial();
                }
                let (p, q) = (Q::new_unchecked(v), Q::new_unchecked(w));
                let o = O::new_unchecked(w);
                let n = s::dimensions::Dimensionless::<$V>::new_unchecked(w);
                let zero: Q = Q::zero();
                expect_same("zero", zero.value_unchecked(), <$V>::ZERO)?;
                let r: Q = p.min(q);
                expect_same("min", r.value_unchecked(), v.min(w))?;
                let r: Q = p.max(q);
                expect_same("max", r.value_unchecked(), v.max(w))?;
                let r: Q = p.abs();
                expect_same("abs", r.value_unchecked(), v.abs())?;
                let r: C = p.length();
                expect_close("length", r.value_unchecked(), v.length(), ULPS)?;
                let r: C = p.distance(&q);
                expect_close("distance", r.value_unchecked(), v.distance(w), ULPS)?;
                let r: diman::Product<C, C> = p.distance_squared(&q);
                expect_close("distance_squared", r.value_unchecked(), v.distance_squared(w), ULPS)?;
                let r: s::dimensions::Dimensionless<$V> = p.normalize();
                expect_close("normalize", r.value(), v.normalize(), ULPS)?;
                let r: diman::Product<C, C> = p.dot(q);
                expect_close("dot", r.value_unchecked(), v.dot(w), ULPS)?;
                let r: diman::Product<C, s::dimensions::$Other<$F>> = p.dot(o);
                expect_close("dot of another dimension", r.value_unchecked(), v.dot(w), ULPS)?;
                let r: diman::Product<s::dimensions::$Other<$F>, C> = o.dot(p);
                expect_close("dot from another dimension", r.value_unchecked(), w.dot(v), ULPS)?;
                let r: C = p.dot(n);
                expect_close("dot with a dimensionless vector", r.value_unchecked(), v.dot(w), ULPS)?;
                let r: C = n.dot(p);
                expect_close("dot of a dimensionless vector", r.value_unchecked(), w.dot(v), ULPS)?;
                let r: s::dimensions::Dimensionless<$F> = n.length();
                expect_close("length of a dimensionless vector", r.value(), w.length(), ULPS)?;
                // (the dimensions once more, independently of the type aliases)
                let dim: &dyn Fn([f64; 4], [f64; 4], &str) -> Res = &|got, want, what| {
                    if got == want { Ok(()) } else { Err(format!("{what}: dimension {got:?} want {want:?}")) }
                };
                let twice = |d: [f64; 4]| d.map(|x| 2.0 * x);
                let add = |a: [f64; 4], b: [f64; 4]| std::array::from_fn(|i| a[i] + b[i]);
                dim($dim(&p.length()), $dd, "length")?;
                dim($dim(&p.distance(&q)), $dd, "distance")?;
                dim($dim(&p.distance_squared(&q)), twice($dd), "distance_squared")?;
                dim($dim(&p.dot(q)), twice($dd), "dot")?;
                dim($dim(&p.dot(o)), add($dd, $do), "dot")?;
                expect_same("left operand", p.value_unchecked(), v)?;
                expect_same("right operand", q.value_unchecked(), w)
            }

            pub fn history(t: &mut Tape, c: &mut Ctx) -> Res {
                let mut v = <$V as Storage>::gen(t);
                let mut q = Q::new_unchecked(v);
                c.note(v.show());
                let steps = t.below(6);
                for _ in 0..steps {
                    let x = t.$gen();
                    let s = C::new_unchecked(x);
                    let which = t.below(4);
                    c.note(format!("{which}: {}", x.show()));
                    c.nontrivial();
                    let mut a = v.to_array();
                    match which {
                        $($i => {
                            q.$set(s);
                            a[$i] = x;
                        })*
                        _ => {
                            q = q.max(Q::zero()) + q.min(Q::zero());
                            a = (v.max(<$V>::ZERO) + v.min(<$V>::ZERO)).to_array();
                        }
                    }
                    v = <$V>::from_array(a);
                    expect_same("after the step", q.value_unchecked(), v)?;
                }
                Ok(())
            }
        }
    };
    (@new Vec2, $c:ident) => { Q::new($c[0], $c[1]) };
    (@new DVec2, $c:ident) => { Q::new($c[0], $c[1]) };
    (@new Vec3, $c:ident) => { Q::new($c[0], $c[1], $c[2]) };
    (@new DVec3, $c:ident) => { Q::new($c[0], $c[1], $c[2]) };
}
macro_rules! two { ($m:ident, $sys:path, $V:ident, $F:ident, $d:tt, $dim:expr) => {
    vector_props!($m, $sys, $V, $F, $F, [x 0, new_x, set_x; y 1, new_y, set_y;], $d, $dim);
} }
macro_rules! three { ($m:ident, $sys:path, $V:ident, $F:ident, $d:tt, $dim:expr) => {
    vector_props!($m, $sys, $V, $F, $F, [x 0, new_x, set_x; y 1, new_y, set_y; z 2, new_z, set_z;], $d, $dim);
} }
// (the dimensions of the SI are compared through the type aliases only)
fn si_dim<Q>(_: &Q) -> [f64; 4] {
    [0.0; 4]
}
fn sys_dim<S, const D: sys::Dimension>(q: &sys::Quantity<S, D>) -> [f64; 4] {
    sys::dim(q)
}
two!(vec2, crate::sys, Vec2, f32, [Velocity [1.0, -1.0, 0.0, 0.0], Energy [2.0, -2.0, 1.0, 0.0]], sys_dim);
two!(dvec2, crate::sys, DVec2, f64, [Length [1.0, 0.0, 0.0, 0.0], Time [0.0, 1.0, 0.0, 0.0]], sys_dim);
three!(vec3, crate::sys, Vec3, f32, [Odd [0.0, -3.0, 2.0, 1.0], InvTime [0.0, -1.0, 0.0, 0.0]], sys_dim);
three!(dvec3, crate::sys, DVec3, f64, [Velocity [1.0, -1.0, 0.0, 0.0], Mass [0.0, 0.0, 1.0, 0.0]], sys_dim);
two!(si_vec2, diman::si, Vec2, f32, [Length [0.0; 4], Force [0.0; 4]], si_dim);
two!(si_dvec2, diman::si, DVec2, f64, [Velocity [0.0; 4], Voltage [0.0; 4]], si_dim);
three!(si_vec3, diman::si, Vec3, f32, [Force [0.0; 4], Length [0.0; 4]], si_dim);
three!(si_dvec3, diman::si, DVec3, f64, [Acceleration [0.0; 4], Mass [0.0; 4]], si_dim);

fn main() {
    macro_rules! props {
        ($($m:ident)*) => {
            vec![$(
                Prop { name: concat!(stringify!($m), " components"), weight: 2, run: $m::components },
                Prop { name: concat!(stringify!($m), " functions"), weight: 2, run: $m::functions },
                Prop { name: concat!(stringify!($m), " histories"), weight: 1, run: $m::history },
            )*]
        };
    }
    vpbt::main(props!(vec2 dvec2 vec3 dvec3 si_vec2 si_dvec2 si_vec3 si_dvec3));
}
