"""C02: every consistent expression compiles with exactly its algebraic dimension."""
import os
import re
from fractions import Fraction

from .. import batch, core, model, prog, tape

RULE = (
    "a function over a generated unit system with some statements: expressions of all operator forms over parameters of generated dimensions, units, constants and numbers, "
    "with and without annotation, compound assignments, comparisons, containers; the program prints the dimension of every result and is compared with a Fraction model; "
    "non-trivial if it uses at least two kinds of operations on quantities that have a dimension"
)
WORLDS = 24


def statement(g, t, k):
    """(code, E) that leaves a variable x{k}"""
    e = g.expr(t.pick([1, 2, 3, 3]))
    x = f"x{k}"
    f = t.draw(10)
    st = e.st
    if f <= 2:
        return f"let {x} = {e.code};", e
    if f == 3:
        return f"let {x}: {g.w.named(t, st, e.dim)} = {e.code};", e
    if f == 4:
        # Product and Quotient
        a, b = g.param(g.dim()), g.param(g.dim(), st if st in ("f32", "f64") else g.st)
        ta, tb = g.w.named(t, a.st, a.dim), g.w.named(t, b.st, b.dim)
        g.heads.add("alias type")
        if t.chance(1, 2):
            return f"let {x}: diman::Product<{ta}, {tb}> = {a.code} * {b.code};", prog.E(x, model.dmul(a.dim, b.dim), prog.op("add", a, b), a.st)
        return f"let {x}: diman::Quotient<{ta}, {tb}> = {a.code} / {b.code};", prog.E(x, model.dmul(a.dim, b.dim, -1), prog.op("sub", a, b), a.st)
    if f == 5:
        o = g.fit(e, g.of(e.dim, st, 2))
        g.heads.add("assign")
        r = "&" if t.chance(1, 2) else ""
        g.subtracts = True
        return f"let mut {x} = {e.code}; {x} {t.pick(['+=', '-='])} {r}{o.code};", e
    if f == 6:
        fl = st if st in ("f32", "f64") else ("f64" if st.startswith("D") else "f32")
        g.heads.add("assign")
        o = t.pick(["*=", "/="])
        if t.chance(1, 2) and st == fl:
            n = g.of({}, st, 2)
            n = n if n.shape == prog.LIT else g.name(n)
            return f"let mut {x} = {e.code}; {x} {o} {t.pick(['', '&'])}{n.code};", e
        if st == fl:
            return f"let mut {x} = {e.code}; {x} {o} {t.pick(['', '&'])}{g.number(fl)};", e
        return f"let {x} = {e.code};", e
    if f == 7:
        o = g.fit(e, g.of(e.dim, st, 2))
        g.heads.add("compare")
        if st in ("f32", "f64"):
            c = t.pick(["<", "<=", "==", "!=", ">", ">="])
            forms = [f"{e.code} {c} {o.code}", f"&{e.code} {c} &{o.code}"]
            cond = t.pick(forms)
            o2 = g.fit(e, g.of(e.dim, st, 1))
            return f"let {x} = if {cond} {{ {e.code} }} else {{ {o2.code} }};", prog.E(x, e.dim, ("amb",), st)
        return f"let {x} = [{e.code}, {o.code}][1];", prog.E(x, e.dim, ("amb",), st)
    if f == 8:
        o = g.fit(e, g.of(e.dim, st, 1))
        ty = g.w.named(t, st, e.dim)
        g.heads.add("container")
        if t.chance(1, 2):
            return f"let {x}: {ty} = [{e.code}, {o.code}].into_iter().sum();", prog.E(x, e.dim, prog.LIT, st)
        return f"let {x} = vec![{e.code}, {o.code}].pop().unwrap();", prog.E(x, e.dim, ("amb",), st)
    ty = g.w.named(t, st, e.dim)
    g.heads.add("function")
    return f"fn f{k}(x: {ty}) -> {ty} {{ x }} let {x} = f{k}({e.code});", prog.E(x, e.dim, prog.LIT, st)


def make_gen(cfg):
    def gen(t):
        n = t.draw(core.scale(WORLDS, WORLDS * 4))
        w = prog.world(n, cfg)
        vectors = cfg in ("int", "rat")
        g = prog.Gen(t, w, t.pick(["f64", "f64", "f32"] + (["DVec2", "Vec3", "DVec3", "Vec2"] if vectors else [])), vectors=vectors)
        lines, results = [], []
        for k in range(1 + t.draw(5)):
            code, e = statement(g, t, k)
            if prog.out_of_range(e.dim):
                continue
            lines.append(code)
            results.append((k, e))
        return tape.Case(world=n, w=w, g=g, lines=lines, results=results, cfg=cfg, desc=desc(w, g, lines), nontrivial=len(g.heads - {"unit"}) >= 2, cls=g.st)

    return gen


def desc(w, g, lines):
    return w.system.text() + g.signature("p") + " {\n    " + "\n    ".join(lines) + "\n}"


def as_number(e):
    return "{x}.value_unchecked()" if e.st in ("f32", "f64") else "{x}.value_unchecked().x"


def source(c):
    show = "".join(f"        show({k}, vp_dim(&x{k}), {as_number(e).format(x=f'x{k}')});\n" for k, e in c.results)
    body = "".join(f"        {l}\n" for l in c.lines)
    glam = "    use glam::{DVec2, DVec3, Vec2, Vec3};\n" if c.g.vectors else ""
    return f"    use super::*;\n{glam}    {c.g.signature('p')} {{\n{body}{show}    }}\n    pub fn report() {{ p({c.g.arguments()}) }}\n"


def by_world(cases, f):
    """f(world, cases of that world) -> results, run for every world"""
    groups = {}
    for i, c in enumerate(cases):
        groups.setdefault(c.world, []).append(i)
    out = [None] * len(cases)

    def one(item):
        n, idx = item
        return idx, f(cases[idx[0]].w, [cases[i] for i in idx])

    with batch.concurrent.futures.ThreadPoolExecutor(core.JOBS) as ex:
        for idx, res in ex.map(one, groups.items()):
            for i, r in zip(idx, res):
                out[i] = r
    return out


def judge(c, r):
    if not r.ok:
        return "rejected", "a consistent program is rejected: " + r.error_text()
    if r.panic is not None:
        return "panic", r.panic
    got = model.parse_report(r.out)
    for k, e in c.results:
        want = model.want_exps(c.w.system, e.dim)
        have = got.get(f"x{k}", (None,))[0]
        if have != want:
            return "dimension", f"x{k} in {c.lines[[j for j, _ in c.results].index(k)]!r} has the exponents {have} of {c.w.bases}, want {model.show_dim(e.dim)}"
    return None


def evaluate(cases):
    return by_world(cases, lambda w, cs: [judge(c, r) for c, r in zip(cs, batch.accepted(w.cfg, [source(c) for c in cs], w.prelude(), size=20))])


def run(rep):
    n = {"lint": (2400, 24000), "lrat": (1500, 16000), "int": (400, 6000), "rat": (300, 5000)}
    for cfg in core.usable(rep, list(n)):
        tape.run(rep, f"programs-{cfg}", core.scale(*n[cfg]), make_gen(cfg), evaluate)
    limits(rep)


# ------------------------------------------------------- the limits of rustc

LIMIT_SYSTEM = """diman::unit_system!(
    quantity_type Quantity;
    dimension_type Dimension;
    dimension Length;
    dimension Time;
    dimension Velocity = Length / Time;
    dimension Acceleration = Length / Time^2;
    #[base(Length)] #[symbol(m)] unit meter;
    #[base(Time)] #[symbol(s)] unit second;
);
use dimensions::*;
"""
LIMITS = {
    "sum-of-swapped-products": "let _ = l * t + t * l;",
    "comparison-of-swapped-products": "let _ = l * t == t * l;",
    "array-of-swapped-products": "let _ = [l * t, t * l];",
    "repeated-quotient-and-quotient-by-product": "let _ = l / t / t + l / (t * t);",
    "products-of-other-factors": "let _ = l * a + v * v;",
    "swapped-units": "let _ = 1.0 * units::meter * units::second + 1.0 * units::second * units::meter;",
    "product-alias-of-swapped-product": "let _: diman::Product<Length<f64>, Time<f64>> = t * l;",
    "swapped-product-in-assignment": "let mut x = l * t; x += t * l;",
    "nested-product": "let _ = (l * t / t) * t + l * t;",
    "quotients-of-other-operands": "let _ = v / l - a * l / l / l;",
}
LIMIT_ARGS = "l: Length<f64>, t: Time<f64>, v: Velocity<f64>, a: Acceleration<f64>"


def limit_source(code):
    return f"    use super::*;\n    pub fn p({LIMIT_ARGS}) {{ {code} }}\n"


def limit_results():
    r = batch.accepted("lint", [limit_source(x) for x in LIMITS.values()], LIMIT_SYSTEM, size=4, emit="metadata", run=False)
    return dict(zip(LIMITS, r))


def limits(rep):
    """Consistent programs that rustc is known to reject (listed in known_findings.txt)."""
    for (name, code), r in zip(LIMITS.items(), limit_results().values()):
        rep.case(f"{LIMIT_ARGS}: {code}", True, "limits", sample=True)
        if not r.ok:
            mismatch = all(e[1] in ("E0308", "E0271", "E0277", "E0369") for e in r.errors)
            rep.fail(f"limit:{name}" if mismatch else f"limit-{name}-other-error", f"{code} is rejected: {r.error_text()}", code, kind="tape", part="limits", tape=name)


def replay(f):
    if f["part"] == "limits":
        r = limit_results()[f["tape"]]
        print(r.error_text() or "pass")
        return 0 if r.ok else 1
    cfg = f["part"].split("-")[1]
    return tape.replay(f, make_gen(cfg), evaluate)
