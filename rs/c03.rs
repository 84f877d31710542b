// C03: arithmetic on quantities equals arithmetic on the stored values.
#![allow(incomplete_features)]
#![feature(generic_const_exprs, adt_const_params)]
#[path = "vpbt.rs"]
mod vpbt;
#[path = "sys.rs"]
mod sys;
use core::ops::*;
use vpbt::*;

macro_rules! check {
    ($($name:literal : $got:expr => $want:expr;)*) => {
        $( expect_same($name, $got, $want)?; )*
    };
}

macro_rules! interesting {
    ($c:ident, $a:ident, $b:ident) => {
        $c.note(format!("a={} b={}", $a.show(), $b.show()));
        if !$a.same(&$b) && !$a.same(&Default::default()) && !$b.same(&Default::default()) {
            $c.nontrivial();
        }
    };
}

// Every operator form between operands of one storage type
macro_rules! same_storage {
    ($fname:ident, $m:path, $D1:ident, $D2:ident, $S:ty) => {
        fn $fname(t: &mut Tape, c: &mut Ctx) -> Res {
            use $m as m;
            let a = <$S as Storage>::gen(t);
            let b = <$S as Storage>::gen(t);
            interesting!(c, a, b);
            type L = m::dimensions::$D1<$S>;
            type T = m::dimensions::$D2<$S>;
            type N = m::dimensions::Dimensionless<$S>;
            let l = L::new_unchecked;
            let tt = T::new_unchecked;
            let n = N::new_unchecked;
            check! {
                "Q + Q": (l(a) + l(b)).value_unchecked() => a + b;
                "Q + &Q": (l(a) + &l(b)).value_unchecked() => a + b;
                "&Q + Q": (&l(a) + l(b)).value_unchecked() => a + b;
                "&Q + &Q": (&l(a) + &l(b)).value_unchecked() => a + b;
                "Q - Q": (l(a) - l(b)).value_unchecked() => a - b;
                "Q - &Q": (l(a) - &l(b)).value_unchecked() => a - b;
                "&Q - Q": (&l(a) - l(b)).value_unchecked() => a - b;
                "&Q - &Q": (&l(a) - &l(b)).value_unchecked() => a - b;
                "Q * Q": (l(a) * tt(b)).value_unchecked() => a * b;
                "Q * &Q": (l(a) * &tt(b)).value_unchecked() => a * b;
                "&Q * Q": (&l(a) * tt(b)).value_unchecked() => a * b;
                "&Q * &Q": (&l(a) * &tt(b)).value_unchecked() => a * b;
                "Q / Q": (l(a) / tt(b)).value_unchecked() => a / b;
                "Q / &Q": (l(a) / &tt(b)).value_unchecked() => a / b;
                "&Q / Q": (&l(a) / tt(b)).value_unchecked() => a / b;
                "&Q / &Q": (&l(a) / &tt(b)).value_unchecked() => a / b;
                "Q / Q same": (l(a) / l(b)).value_unchecked() => a / b;
                "Q * Q same": (l(a) * l(b)).value_unchecked() => a * b;
                "Q * N": (l(a) * n(b)).value_unchecked() => a * b;
                "N * Q": (n(a) * l(b)).value_unchecked() => a * b;
                "N / Q": (n(a) / l(b)).value_unchecked() => a / b;
                "N * N": (n(a) * n(b)).value_unchecked() => a * b;
                "Q += Q": { let mut x = l(a); x += l(b); x.value_unchecked() } => { let mut x = a; x += b; x };
                "Q += &Q": { let mut x = l(a); x += &l(b); x.value_unchecked() } => { let mut x = a; x += b; x };
                "Q -= Q": { let mut x = l(a); x -= l(b); x.value_unchecked() } => { let mut x = a; x -= b; x };
                "Q -= &Q": { let mut x = l(a); x -= &l(b); x.value_unchecked() } => { let mut x = a; x -= b; x };
                "&mut Q += Q": { let mut x = l(a); { let mut r = &mut x; r.add_assign(l(b)); AddAssign::add_assign(&mut r, l(b)); } x.value_unchecked() }
                    => { let mut x = a; x += b; x += b; x };
                "&mut Q += &Q": { let mut x = l(a); { let mut r = &mut x; AddAssign::add_assign(&mut r, &l(b)); } x.value_unchecked() } => { let mut x = a; x += b; x };
                "&mut Q -= Q": { let mut x = l(a); { let mut r = &mut x; SubAssign::sub_assign(&mut r, l(b)); } x.value_unchecked() } => { let mut x = a; x -= b; x };
                "&mut Q -= &Q": { let mut x = l(a); { let mut r = &mut x; SubAssign::sub_assign(&mut r, &l(b)); } x.value_unchecked() } => { let mut x = a; x -= b; x };
                "Q *= N": { let mut x = l(a); x *= n(b); x.value_unchecked() } => { let mut x = a; x *= b; x };
                "Q *= &N": { let mut x = l(a); x *= &n(b); x.value_unchecked() } => { let mut x = a; x *= b; x };
                "Q /= N": { let mut x = l(a); x /= n(b); x.value_unchecked() } => { let mut x = a; x /= b; x };
                "Q /= &N": { let mut x = l(a); x /= &n(b); x.value_unchecked() } => { let mut x = a; x /= b; x };
                "&mut Q *= N": { let mut x = l(a); { let mut r = &mut x; MulAssign::mul_assign(&mut r, n(b)); } x.value_unchecked() } => { let mut x = a; x *= b; x };
                "&mut Q *= &N": { let mut x = l(a); { let mut r = &mut x; MulAssign::mul_assign(&mut r, &n(b)); } x.value_unchecked() } => { let mut x = a; x *= b; x };
                "&mut Q /= N": { let mut x = l(a); { let mut r = &mut x; DivAssign::div_assign(&mut r, n(b)); } x.value_unchecked() } => { let mut x = a; x /= b; x };
                "&mut Q /= &N": { let mut x = l(a); { let mut r = &mut x; DivAssign::div_assign(&mut r, &n(b)); } x.value_unchecked() } => { let mut x = a; x /= b; x };
                "Q *= S": { let mut x = l(a); x *= b; x.value_unchecked() } => { let mut x = a; x *= b; x };
                "Q *= &S": { let mut x = l(a); x *= &b; x.value_unchecked() } => { let mut x = a; x *= b; x };
                "Q /= S": { let mut x = l(a); x /= b; x.value_unchecked() } => { let mut x = a; x /= b; x };
                "Q /= &S": { let mut x = l(a); x /= &b; x.value_unchecked() } => { let mut x = a; x /= b; x };
                "S *= N": { let mut x = a; x *= n(b); x } => { let mut x = a; x *= b; x };
                "S *= &N": { let mut x = a; x *= &n(b); x } => { let mut x = a; x *= b; x };
                "S /= N": { let mut x = a; x /= n(b); x } => { let mut x = a; x /= b; x };
                "S /= &N": { let mut x = a; x /= &n(b); x } => { let mut x = a; x /= b; x };
                "S += N": { let mut x = a; x += n(b); x } => { let mut x = a; x += b; x };
                "S += &N": { let mut x = a; x += &n(b); x } => { let mut x = a; x += b; x };
                "S -= N": { let mut x = a; x -= n(b); x } => { let mut x = a; x -= b; x };
                "S -= &N": { let mut x = a; x -= &n(b); x } => { let mut x = a; x -= b; x };
                "N += S": { let mut x = n(a); x += b; x.value() } => { let mut x = a; x += b; x };
                "N += &S": { let mut x = n(a); x += &b; x.value() } => { let mut x = a; x += b; x };
                "N -= S": { let mut x = n(a); x -= b; x.value() } => { let mut x = a; x -= b; x };
                "N -= &S": { let mut x = n(a); x -= &b; x.value() } => { let mut x = a; x -= b; x };
                "&mut N += S": { let mut x = n(a); { let mut r = &mut x; AddAssign::add_assign(&mut r, b); } x.value() } => { let mut x = a; x += b; x };
                "&mut N += &S": { let mut x = n(a); { let mut r = &mut x; AddAssign::add_assign(&mut r, &b); } x.value() } => { let mut x = a; x += b; x };
                "&mut N -= S": { let mut x = n(a); { let mut r = &mut x; SubAssign::sub_assign(&mut r, b); } x.value() } => { let mut x = a; x -= b; x };
                "&mut N -= &S": { let mut x = n(a); { let mut r = &mut x; SubAssign::sub_assign(&mut r, &b); } x.value() } => { let mut x = a; x -= b; x };
                "N + S": (n(a) + b).value() => a + b;
                "N + &S": (n(a) + &b).value() => a + b;
                "&N + S": (&n(a) + b).value() => a + b;
                "&N + &S": (&n(a) + &b).value() => a + b;
                "N - S": (n(a) - b).value() => a - b;
                "N - &S": (n(a) - &b).value() => a - b;
                "&N - S": (&n(a) - b).value() => a - b;
                "&N - &S": (&n(a) - &b).value() => a - b;
                "S + N": (a + n(b)).value() => a + b;
                "S + &N": (a + &n(b)).value() => a + b;
                "&S + N": (&a + n(b)).value() => a + b;
                "&S + &N": (&a + &n(b)).value() => a + b;
                "S - N": (a - n(b)).value() => a - b;
                "S - &N": (a - &n(b)).value() => a - b;
                "&S - N": (&a - n(b)).value() => a - b;
                "&S - &N": (&a - &n(b)).value() => a - b;
                "Q * S": (l(a) * b).value_unchecked() => a * b;
                "Q * &S": (l(a) * &b).value_unchecked() => a * b;
                "&Q * S": (&l(a) * b).value_unchecked() => a * b;
                "&Q * &S": (&l(a) * &b).value_unchecked() => a * b;
                "Q / S": (l(a) / b).value_unchecked() => a / b;
                "Q / &S": (l(a) / &b).value_unchecked() => a / b;
                "&Q / S": (&l(a) / b).value_unchecked() => a / b;
                "&Q / &S": (&l(a) / &b).value_unchecked() => a / b;
                "S * Q": (a * l(b)).value_unchecked() => a * b;
                "S * &Q": (a * &l(b)).value_unchecked() => a * b;
                "&S * Q": (&a * l(b)).value_unchecked() => a * b;
                "&S * &Q": (&a * &l(b)).value_unchecked() => a * b;
                "S / Q": (a / l(b)).value_unchecked() => a / b;
                "S / &Q": (a / &l(b)).value_unchecked() => a / b;
                "&S / Q": (&a / l(b)).value_unchecked() => a / b;
                "&S / &Q": (&a / &l(b)).value_unchecked() => a / b;
                "S * N": (a * n(b)).value_unchecked() => a * b;
                "N / S": (n(a) / b).value_unchecked() => a / b;
                "-Q": (-l(a)).value_unchecked() => -a;
                "-N": (-n(a)).value() => -a;
            }
            // operands are unchanged
            let (x, y) = (l(a), tt(b));
            let _ = &x * &y;
            let _ = &x / &y;
            let _ = &x + &x;
            expect_same("left operand after &Q op &Q", x.value_unchecked(), a)?;
            expect_same("right operand after &Q op &Q", y.value_unchecked(), b)?;
            Ok(())
        }
    };
}

macro_rules! sums {
    ($fname:ident, $m:path, $D1:ident, $S:ty) => {
        fn $fname(t: &mut Tape, c: &mut Ctx) -> Res {
            use $m as m;
            let len = t.below(8);
            let xs: Vec<$S> = (0..len).map(|_| <$S as Storage>::gen(t)).collect();
            c.note(format!("sum of {}", xs.show()));
            if len > 1 {
                c.nontrivial();
            }
            // The sum of the stored values, added from left to right. (Sum of floats
            // starts from -0.0 or 0.0 depending on the standard library, so the sign of
            // a zero sum is not compared.)
            let mut want: $S = Default::default();
            for x in xs.iter() {
                want += *x;
            }
            let got: m::dimensions::$D1<$S> = xs.iter().map(|x| <m::dimensions::$D1<$S>>::new_unchecked(*x)).sum();
            let zero: $S = Default::default();
            expect_same("sum", got.value_unchecked() + zero, want + zero)?;
            let got: m::dimensions::Dimensionless<$S> = xs.iter().map(|x| <m::dimensions::Dimensionless<$S>>::from(*x)).sum();
            expect_same("dimensionless sum", got.value() + zero, want + zero)
        }
    };
}

// Vector quantities with scalars
#[cfg(feature = "glam")]
macro_rules! mixed_storage {
    ($fname:ident, $m:path, $D1:ident, $D2:ident, $V:ty, $S:ty) => {
        fn $fname(t: &mut Tape, c: &mut Ctx) -> Res {
            use $m as m;
            let a = <$V as Storage>::gen(t);
            let b = <$S as Storage>::gen(t);
            c.note(format!("a={} b={}", a.show(), b.show()));
            if b != 0.0 && b != 1.0 && !a.same(&Default::default()) {
                c.nontrivial();
            }
            let v = m::dimensions::$D1::<$V>::new_unchecked;
            let vn = m::dimensions::Dimensionless::<$V>::new_unchecked;
            let s = m::dimensions::$D2::<$S>::new_unchecked;
            let n = m::dimensions::Dimensionless::<$S>::new_unchecked;
            check! {
                "V * q": (v(a) * s(b)).value_unchecked() => a * b;
                "V * &q": (v(a) * &s(b)).value_unchecked() => a * b;
                "&V * q": (&v(a) * s(b)).value_unchecked() => a * b;
                "&V * &q": (&v(a) * &s(b)).value_unchecked() => a * b;
                "q * V": (s(b) * v(a)).value_unchecked() => b * a;
                "q * &V": (s(b) * &v(a)).value_unchecked() => b * a;
                "&q * V": (&s(b) * v(a)).value_unchecked() => b * a;
                "&q * &V": (&s(b) * &v(a)).value_unchecked() => b * a;
                "V / q": (v(a) / s(b)).value_unchecked() => a / b;
                "V / &q": (v(a) / &s(b)).value_unchecked() => a / b;
                "&V / q": (&v(a) / s(b)).value_unchecked() => a / b;
                "&V / &q": (&v(a) / &s(b)).value_unchecked() => a / b;
                "q / V": (s(b) / v(a)).value_unchecked() => b / a;
                "V * s": (v(a) * b).value_unchecked() => a * b;
                "V * &s": (v(a) * &b).value_unchecked() => a * b;
                "&V * s": (&v(a) * b).value_unchecked() => a * b;
                "&V * &s": (&v(a) * &b).value_unchecked() => a * b;
                "V / s": (v(a) / b).value_unchecked() => a / b;
                "&V / &s": (&v(a) / &b).value_unchecked() => a / b;
                "V / &s": (v(a) / &b).value_unchecked() => a / b;
                "&V / s": (&v(a) / b).value_unchecked() => a / b;
                "s * V": (b * v(a)).value_unchecked() => b * a;
                "&s * V": (&b * v(a)).value_unchecked() => b * a;
                "s * &V": (b * &v(a)).value_unchecked() => b * a;
                "&s * &V": (&b * &v(a)).value_unchecked() => b * a;
                "s / V": (b / v(a)).value_unchecked() => b / a;
                "&s / &V": (&b / &v(a)).value_unchecked() => b / a;
                "v * q": (a * s(b)).value_unchecked() => a * b;
                "&v * q": (&a * s(b)).value_unchecked() => a * b;
                "v * &q": (a * &s(b)).value_unchecked() => a * b;
                "&v * &q": (&a * &s(b)).value_unchecked() => a * b;
                "v / q": (a / s(b)).value_unchecked() => a / b;
                "v / &q": (a / &s(b)).value_unchecked() => a / b;
                "&v / q": (&a / s(b)).value_unchecked() => a / b;
                "&v / &q": (&a / &s(b)).value_unchecked() => a / b;
                "q * v": (s(b) * a).value_unchecked() => b * a;
                "q * &v": (s(b) * &a).value_unchecked() => b * a;
                "&q * v": (&s(b) * a).value_unchecked() => b * a;
                "q / v": (s(b) / a).value_unchecked() => b / a;
                "V *= n": { let mut x = v(a); x *= n(b); x.value_unchecked() } => { let mut x = a; x *= b; x };
                "V *= &n": { let mut x = v(a); x *= &n(b); x.value_unchecked() } => { let mut x = a; x *= b; x };
                "V /= n": { let mut x = v(a); x /= n(b); x.value_unchecked() } => { let mut x = a; x /= b; x };
                "V /= &n": { let mut x = v(a); x /= &n(b); x.value_unchecked() } => { let mut x = a; x /= b; x };
                "&mut V *= n": { let mut x = v(a); { let mut r = &mut x; MulAssign::mul_assign(&mut r, n(b)); } x.value_unchecked() } => { let mut x = a; x *= b; x };
                "&mut V /= &n": { let mut x = v(a); { let mut r = &mut x; DivAssign::div_assign(&mut r, &n(b)); } x.value_unchecked() } => { let mut x = a; x /= b; x };
                "Vn * n": (vn(a) * n(b)).value() => a * b;
            }
            Ok(())
        }
    };
}

macro_rules! for_scalar {
    ($same:ident, $same_si:ident, $sum:ident, $S:ty) => {
        same_storage!($same, crate::sys, Length, Time, $S);
        same_storage!($same_si, diman::si, Energy, Velocity, $S);
        sums!($sum, crate::sys, Velocity, $S);
    };
}
for_scalar!(f64_sys, f64_si, f64_sum, f64);
for_scalar!(f32_sys, f32_si, f32_sum, f32);
#[cfg(feature = "glam")]
mod vectors {
    use super::*;
    use glam::*;
    pub(super) mod inner {
        use super::super::*;
        use glam::*;
        for_scalar!(vec2_sys, vec2_si, vec2_sum, Vec2);
        for_scalar!(dvec2_sys, dvec2_si, dvec2_sum, DVec2);
        for_scalar!(vec3_sys, vec3_si, vec3_sum, Vec3);
        for_scalar!(dvec3_sys, dvec3_si, dvec3_sum, DVec3);
        mixed_storage!(mix_vec2, crate::sys, Length, Time, Vec2, f32);
        mixed_storage!(mix_dvec2, crate::sys, Length, Time, DVec2, f64);
        mixed_storage!(mix_vec3, diman::si, Length, Mass, Vec3, f32);
        mixed_storage!(mix_dvec3, diman::si, Force, Length, DVec3, f64);
        pub fn props(props: &mut Vec<Prop>) {
            props.extend([
                Prop { name: "Vec2", weight: 2, run: vec2_sys },
                Prop { name: "Vec2 SI", weight: 1, run: vec2_si },
                Prop { name: "Vec2 sum", weight: 1, run: vec2_sum },
                Prop { name: "DVec2", weight: 2, run: dvec2_sys },
                Prop { name: "DVec2 SI", weight: 1, run: dvec2_si },
                Prop { name: "DVec2 sum", weight: 1, run: dvec2_sum },
                Prop { name: "Vec3", weight: 2, run: vec3_sys },
                Prop { name: "Vec3 SI", weight: 1, run: vec3_si },
                Prop { name: "Vec3 sum", weight: 1, run: vec3_sum },
                Prop { name: "DVec3", weight: 2, run: dvec3_sys },
                Prop { name: "DVec3 SI", weight: 1, run: dvec3_si },
                Prop { name: "DVec3 sum", weight: 1, run: dvec3_sum },
                Prop { name: "Vec2 with f32", weight: 2, run: mix_vec2 },
                Prop { name: "DVec2 with f64", weight: 2, run: mix_dvec2 },
                Prop { name: "Vec3 with f32", weight: 2, run: mix_vec3 },
                Prop { name: "DVec3 with f64", weight: 2, run: mix_dvec3 },
            ]);
        }
    }
}

fn main() {
    #[allow(unused_mut)]
    let mut props = vec![
        Prop { name: "f64", weight: 3, run: f64_sys },
        Prop { name: "f64 SI", weight: 2, run: f64_si },
        Prop { name: "f64 sum", weight: 1, run: f64_sum },
        Prop { name: "f32", weight: 3, run: f32_sys },
        Prop { name: "f32 SI", weight: 2, run: f32_si },
        Prop { name: "f32 sum", weight: 1, run: f32_sum },
    ];
    #[cfg(feature = "glam")]
    vectors::inner::props(&mut props);
    vpbt::main(props);
}
