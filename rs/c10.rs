// C10: rational exponents behave as canonical fractions.
#![allow(incomplete_features)]
#![feature(generic_const_exprs, adt_const_params)]
#[path = "vpbt.rs"]
mod vpbt;
#[path = "sys.rs"]
mod sys;
use diman_lib::ratio::Ratio;
use vpbt::*;

#[derive(Clone, Copy, PartialEq, Debug)]
struct Frac(i128, i128);

fn gcd(a: i128, b: i128) -> i128 {
    if b == 0 { a.abs() } else { gcd(b, a % b) }
}
impl Frac {
    fn new(n: i128, d: i128) -> Frac {
        assert!(d != 0);
        let g = gcd(n, d).max(1) * d.signum();
        Frac(n / g, d / g)
    }
    fn small(&self) -> bool {
        self.0.abs() < 1 << 30 && self.1 < 1 << 30
    }
    fn text(&self) -> String {
        if self.1 == 1 { format!("{}", self.0) } else { format!("{}/{}", self.0, self.1) }
    }
}

fn agree(what: &str, r: Ratio, f: Frac) -> Res {
    if (r.num() as i128, r.denom() as i128) != (f.0, f.1) {
        return Err(format!("{what}: got {}/{} want {}/{}", r.num(), r.denom(), f.0, f.1));
    }
    if r.to_string() != f.text() {
        return Err(format!("{what}: prints as {} want {}", r, f.text()));
    }
    if r != Ratio::new(f.0 as i64, f.1 as i64) {
        return Err(format!("{what}: differs from {}", f.text()));
    }
    Ok(())
}

fn draw(t: &mut Tape) -> (i64, i64) {
    let big = if t.below(4) == 0 { 30000 } else { 12 };
    let n = t.range(-big, big);
    let d = t.range(-big, big);
    (n, if d == 0 { 1 } else { d })
}

fn chains(t: &mut Tape, c: &mut Ctx) -> Res {
    let (n, d) = draw(t);
    let mut r = Ratio::new(n, d);
    let mut f = Frac::new(n as i128, d as i128);
    c.note(format!("new({n}, {d})"));
    agree("new", r, f)?;
    let steps = 1 + t.below(8);
    for _ in 0..steps {
        let (n, d) = draw(t);
        let s = if t.below(4) == 0 { Ratio::int(n) } else { Ratio::new(n, d) };
        let g = if s == Ratio::int(n) { Frac::new(s.num() as i128, s.denom() as i128) } else { Frac::new(n as i128, d as i128) };
        agree("operand", s, g)?;
        if !f.small() {
            break;
        }
        let (op, r2, f2) = match t.below(8) {
            0 => ("+", r.add(s), Frac::new(f.0 * g.1 + g.0 * f.1, f.1 * g.1)),
            1 => ("-", r.sub(s), Frac::new(f.0 * g.1 - g.0 * f.1, f.1 * g.1)),
            2 => ("*", r.mul(s), Frac::new(f.0 * g.0, f.1 * g.1)),
            3 => ("op *", r * s, Frac::new(f.0 * g.0, f.1 * g.1)),
            4 => ("neg", r.neg(), Frac::new(-f.0, f.1)),
            5 => ("op neg", -r, Frac::new(-f.0, f.1)),
            6 => {
                let mut x = r;
                x += s;
                ("+=", x, Frac::new(f.0 * g.1 + g.0 * f.1, f.1 * g.1))
            }
            _ => {
                if g.0 == 0 {
                    continue;
                }
                ("/", r.div(s), Frac::new(f.0 * g.1, f.1 * g.0))
            }
        };
        c.note(format!("{op} {}", g.text()));
        if f2.1 != 1 || f.1 != 1 {
            c.nontrivial();
        }
        // equality is that of the fractions
        if (r == s) != (f == g) {
            return Err(format!("{} == {}: {}", f.text(), g.text(), r == s));
        }
        agree(op, r2, f2)?;
        r = r2;
        f = f2;
    }
    Ok(())
}

// The dimension type of a unit system does the same arithmetic per base dimension
fn dimensions(t: &mut Tape, c: &mut Ctx) -> Res {
    let mut gen = || -> [(i64, i64); 4] {
        std::array::from_fn(|_| {
            let d = t.range(1, 6);
            (t.range(-6, 6), d)
        })
    };
    let (mut e, other) = (gen(), gen());
    let model = |e: [(i64, i64); 4]| e.map(|(n, d)| Frac::new(n as i128, d as i128));
    let mut f = model(e);
    let g = model(other);
    let mut d = sys::mkdim(e);
    c.note(format!("{e:?} with {other:?}"));
    let steps = t.below(7);
    for _ in 0..steps {
        let o = sys::mkdim(other);
        if !f.iter().all(|x| x.0.abs() < 1 << 20 && x.1 < 1 << 20) {
            break;
        }
        let zip = |h: &dyn Fn(Frac, Frac) -> Frac| std::array::from_fn(|i| h(f[i], g[i]));
        let (op, d2, f2): (_, _, [Frac; 4]) = match t.below(8) {
            0 => ("add", d.add(o), zip(&|a, b| Frac::new(a.0 * b.1 + b.0 * a.1, a.1 * b.1))),
            1 => ("sub", d.sub(o), zip(&|a, b| Frac::new(a.0 * b.1 - b.0 * a.1, a.1 * b.1))),
            2 => ("neg", d.neg(), zip(&|a, _| Frac::new(-a.0, a.1))),
            3 => ("mul 2", d.mul(2), zip(&|a, _| Frac::new(2 * a.0, a.1))),
            4 => {
                let n = t.range(-5, 5) as i32;
                c.note(format!("n={n}"));
                ("mul n", d.mul(n), zip(&|a, _| Frac::new(n as i128 * a.0, a.1)))
            }
            5 => ("div_2", d.div_2(), zip(&|a, _| Frac::new(a.0, 2 * a.1))),
            6 => ("div_3", d.div_3(), zip(&|a, _| Frac::new(a.0, 3 * a.1))),
            _ => ("mul 3", d.mul(3), zip(&|a, _| Frac::new(3 * a.0, a.1))),
        };
        c.note(op);
        c.nontrivial();
        let got = sys::fractions(&d2);
        for i in 0..4 {
            if (got[i].0 as i128, got[i].1 as i128) != (f2[i].0, f2[i].1) {
                return Err(format!("{op}: exponent {i} is {}/{} want {}", got[i].0, got[i].1, f2[i].text()));
            }
        }
        e = f2.map(|x| (x.0 as i64, x.1 as i64));
        // as types, dimensions are equal if and only if all fractions are
        let canonical = sys::mkdim(e);
        if canonical != d2 {
            return Err(format!("{op}: differs from the same dimension written as {e:?}"));
        }
        let k = 1 + t.below(4) as i64;
        let scaled = sys::mkdim(e.map(|(n, d)| (n * k, d * k)));
        if scaled != d2 {
            return Err(format!("{op}: differs from the same dimension written as a multiple of {e:?}"));
        }
        let (x, y) = (sys::mkdim(e), sys::mkdim(other));
        if (x == y) != (f2 == g) || sys::mkdim(e).equals(sys::mkdim(other)) != (f2 == g) {
            return Err(format!("equality of {e:?} and {other:?}"));
        }
        d = d2;
        f = f2;
    }
    Ok(())
}

fn main() {
    vpbt::main(vec![
        Prop { name: "chains of operations", weight: 3, run: chains },
        Prop { name: "dimensions", weight: 2, run: dimensions },
    ]);
}
