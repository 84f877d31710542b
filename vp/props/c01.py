"""C01: dimensionally inconsistent programs never compile.

Every ill-typed program has a twin that differs in the dimension of one operand only and
that must compile; a program counts as evidence only if its twin compiles."""
import hashlib
from fractions import Fraction

from .. import batch, core, model, prog, tape
from .c02 import by_world

RULE = (
    "a function over a generated unit system that uses operands of generated dimensions and shapes (parameters, products, quotients, powers, roots, units) in one of some "
    "hundred operator forms, with one dimension changed so that it does not fit; non-trivial if its twin with the fitting dimension compiles"
)
WORLDS = 24

# forms for two operands a and b of the same dimension {TA}; {ta} is b's wrong (or right) type
SAME = {
    "add": "let _ = a + b;", "add-ref": "let _ = a + &b;", "ref-add": "let _ = &a + b;", "ref-add-ref": "let _ = &a + &b;",
    "sub": "let _ = a - b;", "sub-ref": "let _ = a - &b;", "ref-sub": "let _ = &a - b;", "ref-sub-ref": "let _ = &a - &b;",
    "add-assign": "let mut a = a; a += b;", "add-assign-ref": "let mut a = a; a += &b;", "mut-add-assign": "let mut a = a; let mut r = &mut a; r += b;",
    "mut-add-assign-ref": "let mut a = a; let mut r = &mut a; r += &b;", "deref-add-assign": "let mut v = vec![a]; for x in v.iter_mut() { *x += b; }",
    "sub-assign": "let mut a = a; a -= b;", "sub-assign-ref": "let mut a = a; a -= &b;", "mut-sub-assign": "let mut a = a; let mut r = &mut a; r -= b;",
    "mut-sub-assign-ref": "let mut a = a; let mut r = &mut a; r -= &b;",
    "array": "let _ = [a, b];", "vec-push": "let mut v = vec![a]; v.push(b);", "if": "let _ = if std::env::args().count() > 1 { a } else { b };",
    "match": "let _ = match std::env::args().count() { 0 => a, _ => b };", "assign": "let mut a = a; a = b; let _ = a;", "swap": "let (mut a, mut b) = (a, b); std::mem::swap(&mut a, &mut b);",
    "replace": "let mut a = a; let _ = std::mem::replace(&mut a, b);", "option": "let _ = Some(a).unwrap_or(b);", "argument": "fn f(_: {TA}) {} f(a); f(b);",
    "ref-argument": "fn f(_: &{TA}) {} f(&a); f(&b);", "field": "struct F { x: {TA} } let mut f = F { x: a }; f.x = b; let _ = f.x;", "tuple": "let _: ({TA}, {TA}) = (a, b);",
    "annotation": "let _: {TA} = a; let _: {TA} = b;", "return": "fn f(b: {TB}) -> {TA} { b } let _ = (a, f(b));", "closure": "let f = |x: {TA}| x; let _ = (f(a), f(b));",
    "generic": "fn f<const X: {D}>(_: {Q}<{S}, X>, _: {Q}<{S}, X>) {} f(a, b);", "generic-type": "fn f<T>(_: T, _: T) {} f(a, b);",
    "fold": "let _ = [b, b].iter().fold(a, |s, x| s + x);", "sum": "let _: {TA} = [b, b].into_iter().sum(); let _ = a;", "iter-chain": "let _ = [a].into_iter().chain([b]).count();",
    "result": "let _: Result<{TA}, {TA}> = if std::env::args().count() > 1 { Ok(a) } else { Err(b) };", "slice": "let mut s = [a, a]; s.copy_from_slice(&[b, b]);",
    "neg-add": "let _ = -a + -b;", "scaled-add": "let _ = {N} * a + b * {N};", "default": "let mut x = <{TA}>::default(); x += b; let _ = (x, a);", "product-then-add": "let _ = (a * {N}) - (b / {N});",
    "transmuted-ref": "let x: &{TA} = &b; let _ = (x, a);", "range-bounds": "let _ = a..b;", "unchecked": "let mut x = <{TA}>::new_unchecked({N1}); x -= b; let _ = (x, a);", "abs-add": "let _ = a.abs() + b.abs();",
}
SCALAR = {
    "eq": "let _ = a == b;", "ne": "let _ = a != b;", "lt": "let _ = a < b;", "le": "let _ = a <= b;", "gt": "let _ = a > b;", "ge": "let _ = a >= b;",
    "eq-ref": "let _ = a == &b;", "ref-eq": "let _ = &a == b;", "ref-eq-ref": "let _ = &a == &b;", "lt-ref": "let _ = a < &b;", "ref-lt": "let _ = &a < b;", "ref-lt-ref": "let _ = &a < &b;",
    "partial-cmp": "let _ = a.partial_cmp(&b);", "assert-eq": "assert_eq!(a, b);", "min": "let _ = a.min(b);", "max": "let _ = a.max(b);", "clamp-low": "let _ = a.clamp(b, a);",
    "clamp-high": "let _ = a.clamp(a, b);", "contains": "let _ = (a..a).contains(&b);", "slice-contains": "let _ = [a, a].contains(&b);", "sort": "let mut v = vec![a]; v.sort_by(|x, _| x.partial_cmp(&b).unwrap());",
    "position": "let _ = [a].iter().position(|x| *x > b);", "zero": "let _ = a + <{TB}>::zero();", "eq-slices": "let _ = [a] == [b];", "eq-options": "let _ = Some(a) == Some(b);",
}
VECTOR = {
    "vec-min": "let _ = a.min(b);", "vec-max": "let _ = a.max(b);", "distance": "let _ = a.distance(&b);", "distance-squared": "let _ = a.distance_squared(&b);",
    "component-add": "let _ = a.x() + b.y();", "length-add": "let _ = a.length() + b.length();", "set-x": "let mut a = a; a.set_x(b.x());", "set-y": "let mut a = a; a.set_y(b.y());", "zero-vec": "let _ = a + <{TB}>::zero();",
    "vec-eq": "let _ = a == b;", "normalize-times": "let mut v = a.normalize() * b.length(); v += a;", "new-x": "let mut v = <{TA}>::new_x(b.x()); v += a;", "new-y": "let _: {TA} = <{TA}>::new_y(b.y()); let _ = a;",
    "dot-annotated": "let a: {TA} = a; let b: {TB} = b; let p = a.dot(a); let mut q = a.length() * b.length(); q += p;", "new": "let _ = <{TA}>::new({COMPONENTS}); let _ = a;", "distance-annotated": "let mut x = a.length(); x += b.distance(&b);",
}
VECTOR3 = {"set-z": "let mut a = a; a.set_z(b.z());", "component-z": "let _ = a.z() - b.x();", "new-z": "let _: {TA} = <{TA}>::new_z(b.x()); let _ = a;"}
RAND = {
    "gen-range": "use rand::Rng; let _ = rand::rngs::mock::StepRng::new(1, 1).gen_range(a..b);", "gen-range-inclusive": "use rand::Rng; let _ = rand::rngs::mock::StepRng::new(1, 1).gen_range(a..=b);",
    "uniform": "let _ = rand::distributions::Uniform::new(a, b);", "uniform-inclusive": "let _ = rand::distributions::Uniform::new_inclusive(a, b);",
    "uniform-sample": "use rand::distributions::Distribution; let u = rand::distributions::Uniform::new(a, a); let mut x = u.sample(&mut rand::rngs::mock::StepRng::new(1, 1)); x += b;",
    "gen-range-result": "use rand::Rng; let mut x = rand::rngs::mock::StepRng::new(1, 1).gen_range(a..a); x += b;",
}
# forms in which b must be dimensionless; a has any dimension
NUMBER = {
    "add-number": "let _ = b + {N1};", "number-add": "let _ = {N1} + b;", "sub-number": "let _ = b - {N1};", "number-sub": "let _ = {N1} - b;", "add-number-ref": "let _ = b + &{N1};", "ref-add-number": "let _ = &b + {N1};",
    "ref-add-number-ref": "let _ = &b + &{N1};", "number-ref-add": "let _ = &{N1} + b;", "number-add-ref": "let _ = {N1} + &b;", "number-ref-sub-ref": "let _ = &{N1} - &b;", "ref-sub-number": "let _ = &b - {N1};",
    "add-assign-number": "let mut b = b; b += {N1};", "sub-assign-number-ref": "let mut b = b; b -= &{N1};", "mut-add-assign-number": "let mut b = b; let mut r = &mut b; r += {N1};",
    "number-add-assign": "let mut s = {N1}; s += b;", "number-sub-assign": "let mut s = {N1}; s -= b;", "number-add-assign-ref": "let mut s = {N1}; s += &b;", "number-sub-assign-ref": "let mut s = {N1}; s -= &b;",
    "mul-assign": "let mut a = a; a *= b;", "div-assign": "let mut a = a; a /= b;", "mul-assign-ref": "let mut a = a; a *= &b;", "div-assign-ref": "let mut a = a; a /= &b;",
    "mut-mul-assign": "let mut a = a; let mut r = &mut a; r *= b;", "mut-div-assign-ref": "let mut a = a; let mut r = &mut a; r /= &b;",
    "number-mul-assign": "let mut s = {N1}; s *= b;", "number-div-assign": "let mut s = {N1}; s /= b;", "number-mul-assign-ref": "let mut s = {N1}; s *= &b;", "number-div-assign-ref": "let mut s = {N1}; s /= &b;",
    "value": "let _: {S} = b.value();", "value-ref": "let _: &{S} = b.value_ref();", "deref": "let _: {S} = *b;", "deref-coercion": "fn f(_: &{S}) {} f(&b);", "from": "let _ = <{TB}>::from({N1});",
    "into": "let _: {TB} = ({N1}).into();", "into-argument": "fn f(_: impl Into<{TB}>) {} f({N1});",
}
NUMBER_SCALAR = {
    "eq-number": "let _ = b == {N1};", "number-eq": "let _ = {N1} == b;", "lt-number": "let _ = b < {N1};", "number-lt": "let _ = {N1} < b;", "ne-number": "let _ = b != {N1};", "ge-number": "let _ = b >= {N1};",
    "number-gt": "let _ = {N1} > b;", "partial-cmp-number": "let _ = b.partial_cmp(&{N1});", "number-partial-cmp": "let _ = ({N1}).partial_cmp(&b);", "number-ne": "let _ = {N1} != b;",
    "min-number": "let _ = b.min({N1});", "max-number": "let _ = b.max({N1});", "clamp-number": "let _ = b.clamp({N1}, {N1});",
}
for f in "log2 ln log10 exp exp2 ceil floor sin cos tan asin acos atan sinh cosh tanh asinh acosh atanh exp_m1 ln_1p".split():
    NUMBER_SCALAR[f] = "let _ = b.%s();" % f
# numbers where the wrong one has a dimension and the right one has none
UNITS = {
    "value-in": "let _ = b.value_in({U});", "value-in-composite": "let _ = b.value_in({U} * {V});", "value-in-quotient": "let _ = b.value_in({U} / {V});", "value-in-generic": "fn f<const X: {D}>(q: {Q}<{S}, X>) -> {S} { q.value_in({U}) } let _ = f(b);",
    "value-in-magnitude-unit": "let u = {U}; let _ = b.value_in(u);",
    "unit-annotation": "let mut x: {TB} = {N1} * {U}; x += b;", "new-annotation": "let mut x: {TB} = {U}.new({N1}); x += b;", "unit-mul-add": "let _ = b + {U} * {N1};", "unit-quotient-annotation": "let mut x: {TB} = {N1} * ({U} / {V}); x += b;",
    "unit-product-annotation": "let mut x: {TB} = {N1} * ({U} * {V}); x += b;", "inverse-unit-annotation": "let mut x: {TB} = {N1} / {U}; x += b;", "unit-comparison": "let _ = b < {N1} * {U};", "unit-div-annotation": "let mut x: {TB} = {U} / {N1}; x += b;",
}
ROOTS = {"sqrt": (2, "let _ = b.sqrt();"), "cbrt": (3, "let _ = b.cbrt();"), "sqrt-of-sqrt": (4, "let _ = b.sqrt().sqrt();"), "sqrt-annotated": (2, "let _ = -b.sqrt();"), "cbrt-ref": (3, "let _ = (&b).cbrt();")}


def perturb(g, t, dim):
    """Another dimension"""
    w = g.w
    for _ in range(5):
        k = t.draw(6)
        b = t.pick(w.bases)
        if k <= 1:
            d = model.dmul(dim, {b: Fraction(t.pick([1, -1, 2, -2]))})
        elif k == 2:
            d = model.dpow(dim, -1)
        elif k == 3:
            c = t.pick(w.bases)
            d = dict(dim)
            d[b], d[c] = dim.get(c, Fraction(0)), dim.get(b, Fraction(0))
            d = {k: v for k, v in d.items() if v}
        elif k == 4:
            d = {} if t.chance(1, 2) else model.dpow(dim, Fraction(t.pick([2, 3])))
        else:
            d = model.dmul(dim, {b: Fraction(t.pick([1, -1]), t.pick([1, 2, 3]) if w.rational else 1)})
        if model.dkey(d) != model.dkey(dim) and not prog.out_of_range(d):
            return d
    return model.dmul(dim, {w.bases[0]: Fraction(1) if dim.get(w.bases[0], 0) < 6 else Fraction(-1)})


def two(g, t, template, dim_good, dim_bad, dim_a, **subst):
    """The bad and the good function for a template"""
    out = []
    saved = list(g.params)
    depth = t.pick([0, 1, 1, 2])
    state = t.data[:], t.pos
    a = g.of(dim_a, depth=depth) if dim_a is not None else None
    params = list(g.params)
    for dim in (dim_bad, dim_good):
        g.params = list(params)
        b = g.of(dim, depth=t.pick([0, 1, 1, 2]))
        if a is not None and (dim is dim_good or t.chance(1, 4)) and not prog.sure(a, b):
            b = g.name(b)
        code = ""
        if "a" in template["vars"]:
            code += f"        let a = {a.code};\n"
        code += f"        let b = {b.code};\n"
        text = template["code"]
        types = dict(TA=g.w.explicit(g.st, dim_a if dim_a is not None else {}), TB=g.w.explicit(g.st, dim), Q=g.w.q, D=g.w.d, S=g.st, N=g.number("f64" if g.st[0] in "Df" and g.st != "f32" else "f32"), N1=g.number(g.st))
        types.update(subst)
        if g.st[-1] in "23" and "Vec" in g.st:
            types["COMPONENTS"] = ", ".join(["a.x()", "b.y()", "a.x()"][: int(g.st[-1])])
        for k, v in types.items():
            text = text.replace("{" + k + "}", v)
        out.append((list(g.params), code + "        " + text + "\n", dim))
    g.params = saved
    return out


def make_gen(cfg):
    def gen(t):
        n = t.draw(core.scale(WORLDS, WORLDS * 4))
        w = prog.world(n, cfg, "c01")
        vectors = cfg in ("int", "rat")
        st = t.pick(["f64", "f64", "f32"] + (["DVec2", "Vec3", "DVec3", "Vec2"] if vectors else []))
        g = prog.Gen(t, w, st)
        scalar = st in ("f32", "f64")
        kinds = ["same", "same", "number", "units"] + ([] if w.rational or not scalar else ["roots"]) + (["rand"] if vectors and scalar else [])
        kind = t.pick(kinds)
        subst = {}
        dim_a = None
        if kind in ("same", "rand"):
            table = dict(SAME)
            table.update(SCALAR if scalar else VECTOR)
            if st.endswith("3"):
                table.update(VECTOR3)
            if kind == "rand":
                table = RAND
            name = t.pick(sorted(table))
            code = table[name]
            dim_a = g.dim()
            good = dim_a
            bad = perturb(g, t, good)
        elif kind == "number":
            table = dict(NUMBER)
            if scalar:
                table.update(NUMBER_SCALAR)
            name = t.pick(sorted(table))
            code = table[name]
            if not scalar and name in ("mul-assign", "div-assign", "mul-assign-ref", "div-assign-ref", "mut-mul-assign", "mut-div-assign-ref"):
                pass
            dim_a, good = g.dim(), {}
            bad = perturb(g, t, good)
        elif kind == "units":
            name = t.pick(sorted(UNITS if scalar else {k: v for k, v in UNITS.items() if not k.startswith(("unit-mul", "unit-comp", "unit-div", "new-", "value-in"))}))
            code = UNITS[name]
            names = list(w.units)
            u, v = t.pick(names), t.pick(names)
            subst = dict(U=u, V=v)
            good = dict(w.units[u][0])
            if "composite" in name or "unit-product" in name:
                good = model.dmul(good, w.units[v][0])
            elif "value-in-quotient" in name or "unit-quotient" in name:
                good = model.dmul(good, w.units[v][0], -1)
            elif "inverse" in name:
                good = model.dpow(good, -1)
            bad = perturb(g, t, good)
        else:
            name = t.pick(sorted(ROOTS))
            k, code = ROOTS[name]
            good = model.dpow(g.dim(), k)
            for _ in range(4):
                bad = model.dmul(good, {t.pick(w.bases): Fraction(t.pick([1, -1, 5, -5, 7]))})
                if t.chance(1, 2):
                    bad = model.dmul(bad, {t.pick(w.bases): Fraction(t.pick([1, 2]))})
                if any(v % k for v in bad.values()):
                    break
            else:
                bad = model.dmul(good, {w.bases[0]: Fraction(1)})
        if prog.out_of_range(good):
            good = {}
            bad, kind, name, code, dim_a, subst = {w.bases[0]: Fraction(1)}, "same", "add", SAME["add"], {}, {}
        vs = "ab" if dim_a is not None else "b"
        (pb, cb, db), (pg, cg, dg) = two(g, t, dict(code=code, vars=vs), good, bad, dim_a, **subst)
        return tape.Case(
            world=n, w=w, cfg=cfg, name=name, bad=function(pb, cb, vectors), good=function(pg, cg, vectors), cls=f"{cfg}:{kind}",
            desc=f"{name}: b is {model.show_dim(db)}, {model.show_dim(dg)} would fit\n{w.system.text()}{function(pb, cb, vectors)}",
        )

    return gen


def function(params, code, vectors):
    ps = ", ".join(f"{n}: {ty}" for n, ty, _, _ in params)
    glam = "    use glam::{DVec2, DVec3, Vec2, Vec3};\n" if vectors else ""
    name = "p" + hashlib.sha1((ps + code).encode()).hexdigest()[:12]
    # (exported, so that code is generated for it)
    return f"    use super::*;\n{glam}    #[export_name = \"{name}\"]\n    pub fn p({ps}) {{\n{code}    }}\n"


def evaluate(cases):
    def one(w, cs):
        # equal functions would have the same exported name
        bad = batch.rejected(w.cfg, uniq([c.bad for c in cs]), w.prelude(), size=24)
        good = batch.accepted(w.cfg, uniq([c.good for c in cs]), w.prelude(), size=24, emit="metadata", run=False)
        out = []
        for c, b, g in zip(cs, bad, good):
            c.twin = g.ok
            c.twin_errors = g.errors
            out.append((f"accepted-{c.name}", "a program that is dimensionally inconsistent compiles") if b.ok and g.ok else None)
        return out

    return by_world(cases, one)


def uniq(sources):
    return [s.replace('#[export_name = "p', f'#[export_name = "q{i}_') for i, s in enumerate(sources)]


def run(rep):
    n = {"lint": (1300, 20000), "lrat": (800, 12000), "int": (500, 8000), "rat": (300, 5000)}
    lame = []
    for cfg in core.usable(rep, list(n)):
        kept = []

        def ev(cases):
            r = evaluate(cases)
            if not kept:
                kept.extend(cases)
            return r

        before = len(rep.distinct)
        tape.run(rep, f"programs-{cfg}", core.scale(*n[cfg]), make_gen(cfg), ev)
        for c in kept:
            if not c.twin:
                # not evidence
                rep.distinct.discard(hashlib.sha1(c.desc.encode()).digest())
                lame.append(c)
    rep.extra["twins_rejected"] = len(lame)
    return lame


def replay(f):
    return tape.replay(f, make_gen(f["part"].split("-")[1]), evaluate)
