"""C11: rational-dimensions is a conservative extension."""
import re

from .. import batch, core, model, prog, tape
from . import c01, c02, c10

RULE = (
    "a unit system, an expression program over one, or an ill-dimensioned program, generated for integer exponents and built in both modes: the reported dimensions, factors, "
    "results, texts and re-read values are compared, ill-dimensioned programs must be rejected in both; "
    "and programs and systems over rational exponents with roots and fractional powers, whose dimensions must be the exact fractions; non-trivial as for C05, C02, C01 and C10"
)


def rationalise(code):
    """The same code with the exponents of written-out dimensions as fractions."""
    return re.sub(r"\b(Dimension|Kind) \{ ([^}]*) \}", lambda m: f"{m.group(1)} {{ " + re.sub(r": (-?\d+)", r": Exponent::new(\1, 1)", m.group(2)) + " }", code)


def both(n, f):
    """f(cfg) for the two modes at the same time"""
    with batch.concurrent.futures.ThreadPoolExecutor(2) as ex:
        return list(ex.map(f, ["lint", "lrat"]))


# ------------------------------------------------------------------- systems


def gen_systems(t):
    s = model.gen_system(t, rational=False)
    return tape.Case(system=s, desc=s.text(), nontrivial=sum(1 for d in s.defs if d.expr is not None) >= 2, cls="system")


def compare_numbers(a, b, rel):
    if a != a or b != b:
        return (a != a) == (b != b)
    return a == b or abs(a - b) <= rel * max(abs(a), abs(b))


def evaluate_systems(cases):
    def one(cfg):
        return batch.accepted(cfg, [c.system.text() + model.observer(c.system, cfg == "lrat") for c in cases])

    out = []
    for c, a, b in zip(cases, *both(2, one)):
        if not a.ok:
            out.append(None)  # (not a system without rational-dimensions: C05 and C07)
            continue
        if not b.ok:
            out.append(("system-rejected", "a system compiles without rational-dimensions only: " + b.error_text()))
            continue
        x, y = model.parse_report(a.out or []), model.parse_report(b.out or [])
        bad = [k for k in x if k not in y or x[k][0] != y[k][0] or not compare_numbers(x[k][1], y[k][1], 1e-12 if k.startswith("dimension") else max(1e-12, 8e-16 * float(c.system.rounding(k.split()[1]))))]
        out.append(("definition", f"{bad[0]} is {x[bad[0]]} with integer and {y.get(bad[0])} with rational exponents") if bad or len(x) != len(y) else None)
    return out


# ------------------------------------------------------------------ programs

SHOW = """
pub fn vp_text<const A: {D}>(k: usize, x: {Q}<{S}, A>) {{
    let text = format!("{{:?}}", x);
    println!("text {{k}} {{text}}");
    match serde_json::from_str::<{Q}<{S}, A>>(&serde_json::to_string(&x).unwrap()) {{ Ok(y) => println!("read {{k}} {{:e}}", y.value_unchecked()), Err(_) => println!("refused {{k}}") }}
}}
"""


def prelude(w, rational):
    text = w.prelude() + "".join(SHOW.format(D=w.d, Q=w.q, S=st).replace("vp_text", f"vp_text_{st}") for st in ("f64", "f32"))
    if rational:
        text = text.replace(model.observer(w.system, False).replace("pub fn report()", "pub fn vp_report()"), model.observer(w.system, True).replace("pub fn report()", "pub fn vp_report()"))
    return text


def source(c):
    show = "".join(f"        show({k}, vp_dim(&x{k}), x{k}.value_unchecked()); vp_text_{e.st}({k}, x{k});\n" for k, e in c.results)
    body = "".join(f"        {l}\n" for l in c.lines)
    return f"    use super::*;\n    {c.g.signature('p')} {{\n{body}{show}    }}\n    pub fn report() {{ p({c.g.arguments()}); vp_report(); }}\n"


def evaluate_programs(cases):
    def group(w, cs):
        def one(cfg):
            src = [source(c) for c in cs]
            return batch.accepted(cfg, [rationalise(x) for x in src] if cfg == "lrat" else src, prelude(w, cfg == "lrat"), size=20)

        return [judge(c, a, b) for c, a, b in zip(cs, *both(2, one))]

    return c02.by_world(cases, group)


def judge(c, a, b):
    if not a.ok:
        return None  # (C02)
    if not b.ok:
        return "program-rejected", "a program compiles without rational-dimensions only: " + b.error_text()
    if a.panic != b.panic:
        return "panic", f"integer exponents: {a.panic}, rational exponents: {b.panic}"
    x, y = model.parse_report(a.out), model.parse_report(b.out)
    code = "\n".join(c.lines)
    # (whether results that cancel, or jump, agree, says nothing)
    smooth = not c.g.subtracts and not any(f in code for f in ("sin(", "floor(", "if "))
    ones = {k for k in x if k.startswith("unit ") and (x[k][1] == 1.0) != (y.get(k, (0, 0))[1] == 1.0)}
    for k in x:
        if k not in y or x[k][0] != y[k][0]:
            return "dimension", f"{k} is {x[k]} with integer and {y.get(k)} with rational exponents"
        if k.startswith("x") and smooth and not compare_numbers(x[k][1], y[k][1], 1e-9 if c.g.st == "f64" else 2e-3) and 1e-30 < abs(x[k][1]) < 1e30:
            return "value", f"{k} is {x[k]} with integer and {y[k]} with rational exponents"
    for p, q in zip([l for l in a.out if l.startswith(("text", "read", "refused"))], [l for l in b.out if l.startswith(("text", "read", "refused"))]):
        p, q = p.split(" "), q.split(" ")
        if p[0] != q[0] or (p[0] == "text" and p[3:] != q[3:] and not ones):
            return "text", f"{' '.join(p)} with integer, {' '.join(q)} with rational exponents"
    return None


def gen_programs(t):
    return c02.make_gen("lint")(t)


# ------------------------------------------------------ ill-dimensioned programs


def gen_bad(t):
    for _ in range(30):
        c = c01.make_gen("lint")(t)
        # (roots of any dimension are what rational-dimensions adds)
        if not any(f"{n}()" in c.bad for n in ("sqrt", "cbrt")):
            break
    else:
        c.bad = c.good
    c.cls = "ill-dimensioned"
    return c


def evaluate_bad(cases):
    def group(w, cs):
        def one(cfg):
            f = rationalise if cfg == "lrat" else lambda x: x
            bad = batch.rejected(cfg, c01.uniq([f(c.bad) for c in cs]), prelude(w, cfg == "lrat"), size=24)
            good = batch.accepted(cfg, c01.uniq([f(c.good) for c in cs]), prelude(w, cfg == "lrat"), size=24, emit="metadata", run=False)
            return list(zip(bad, good))

        out = []
        for c, (bi, gi), (br, gr) in zip(cs, *both(2, one)):
            if gi.ok and not gr.ok:
                out.append(("program-rejected", "a program compiles without rational-dimensions only: " + c.good + gr.error_text()))
            elif gi.ok and not bi.ok and br.ok:
                out.append((f"accepted-{c.name}", "an ill-dimensioned program is rejected without rational-dimensions only"))
            else:
                out.append(None)
        return out

    return c02.by_world(cases, group)


# ----------------------------------------------- what rational-dimensions adds


def gen_roots(t):
    """A program over rational exponents that takes roots, judged by the exact dimensions of its results"""
    for _ in range(30):
        c = c02.make_gen("lrat")(t)
        if any(f"{n}()" in l for l in c.lines for n in ("sqrt", "cbrt")):
            break
    c.cls = "roots"
    return c


PARTS = {"roots": (gen_roots, c02.evaluate, (200, 5000)), "fractions": (c10.gen, c10.evaluate, (96, 3000)), "systems": (gen_systems, evaluate_systems, (320, 8000)), "programs": (gen_programs, evaluate_programs, (500, 12000)), "bad": (gen_bad, evaluate_bad, (300, 8000))}


def run(rep):
    if set(core.usable(rep, ["lint", "lrat"])) != {"lint", "lrat"}:
        return
    for name, (gen, ev, n) in PARTS.items():
        tape.run(rep, name, core.scale(*n), gen, ev)


def replay(f):
    gen, ev, _ = PARTS[f["part"]]
    return tape.replay(f, gen, ev)
