"""C09 (programs): extreme conversion factors in unit systems."""
import math
import struct

from .. import batch, core, tape

RULE = (
    "a unit system whose units and constants have literal factors drawn from all finite non-zero bit patterns, written in random notations, and products, quotients and powers of two of them; "
    "adjacent factors must give distinct unit types and the same factor in two notations the same type; non-trivial always"
)


def bits(b):
    return struct.unpack("<d", struct.pack("<Q", b))[0]


def gen_float(t, lo=1, hi=2046):
    e = t.pick([t.range(max(lo, 900), 1150), t.range(lo, hi), t.range(lo, hi), t.range(lo, min(hi, lo + 60)), t.range(max(lo, hi - 5), hi)])
    k = t.draw(4)
    m = {0: 0, 1: (1 << 52) - 1, 2: 1 << t.draw(52)}.get(k, t.draw(1 << 52))
    if lo <= 1 and t.chance(1, 6):
        e, m = 0, m or 1
    return bits(e << 52 | m) * (-1 if t.chance(1, 4) else 1)


def notation(t, x):
    """A literal of exactly this value"""
    k = t.draw(5)
    if k == 0 and x == int(x) and abs(x) < 2.0**63:
        return str(int(x))
    if k == 1:
        return f"{x:.17e}" if t.chance(1, 2) else f"{x:.17E}"
    if k == 2:
        return f"{x:.25e}"
    if k == 3 and 1e-30 < abs(x) < 1e30:
        return f"{x:.80f}"
    r = repr(x)
    return r if any(c in r for c in ".e") else r + ".0"


def op(t, x, y):
    o = t.pick(["*", "/"])
    try:
        v = x * y if o == "*" else x / y
    except (OverflowError, ZeroDivisionError):
        return None
    return (o, v) if v and abs(v) < float("inf") else None


def gen(t):
    values, lines = {}, []
    for k in range(1 + t.draw(5)):
        x = gen_float(t)
        form = t.draw(4)
        text = notation(t, x)
        if form == 3:
            lines.append(f"constant c{k} = {text} * meter;")
            values[f"constants::c{k}"] = (x, 0)
        else:
            lines.append(f"unit u{k}{': Length' if t.chance(1, 2) else ''} = {['{} * meter', 'meter * {}', '{} meter'][form].format(text)};")
            values[f"units::u{k}"] = (x, 0)
    names = list(values)
    for k in range(t.draw(4)):
        a, b = t.pick(names), t.pick(names)
        r = op(t, values[a][0], values[b][0])
        if r:
            lines.append(f"unit p{k} = {a.split('::')[1]} {r[0]} {b.split('::')[1]};")
            values[f"units::p{k}"] = (r[1], 1)
    for k in range(t.draw(3)):
        a = t.pick(names)
        n = t.pick([2, 3, -1, -2])
        try:
            v = values[a][0] ** n
        except (OverflowError, ZeroDivisionError):
            continue
        if 1e-290 < abs(v) < 1e290 and 1e-290 < abs(values[a][0]) < 1e290:
            lines.append(f"unit q{k} = {a.split('::')[1]}^{n};")
            values[f"units::q{k}"] = (v, 8)
    x = gen_float(t, 2, 2045)
    y = math.nextafter(x, x * 2)
    twins = (notation(t, x), notation(t, x), notation(t, y))
    sys = lambda a, b: f"    diman::unit_system!(quantity_type Quantity; dimension_type Dimension; dimension Length; #[base(Length)] #[symbol(m)] unit meter; unit l = {a} * meter; unit r = {b} * meter;);\n    pub fn p() {{ fn same<const A: Magnitude>(_: Unit<{{ Dimension {{ length: 1 }} }}, A>, _: Unit<{{ Dimension {{ length: 1 }} }}, A>) {{}} same(units::l, units::r); }}\n    pub fn report() {{ p() }}\n"
    return tape.Case(lines=t.shuffle(lines), values=values, equal=sys(twins[0], twins[1]), distinct=sys(twins[0], twins[2]), desc="\n".join(lines) + f"\ntwins {twins}", cls="extreme factors")


def source(c):
    body = "".join(f'        put("{n}", {n}, (1.0f64 / {n}).value_unchecked());\n' for n in c.values)
    return (
        "    diman::unit_system!(quantity_type Quantity; dimension_type Dimension; dimension Length; #[base(Length)] #[symbol(m)] unit meter;\n        " + "\n        ".join(c.lines) + ");\n"
        "    fn put<const A: Dimension, const B: Magnitude>(n: &str, u: Unit<A, B>, inv: f64) { println!(\"{n} {} {} {} {}\", B.into_f64().to_bits(), (1.0f64 * u).value_unchecked().to_bits(), Magnitude::from_f64(B.into_f64()) == B, inv.to_bits()); }\n"
        f"    pub fn report() {{\n{body}    }}\n"
    )


def ulps(a, b):
    def key(x):
        i = struct.unpack("<q", struct.pack("<d", x))[0]
        return i if i >= 0 else -(i & (1 << 63) - 1)

    return abs(key(a) - key(b))


def judge(c, r):
    if not r.ok:
        return "rejected", "a system with extreme factors is rejected: " + r.error_text()
    if r.panic:
        return "panic", r.panic
    got = {l.split(" ")[0]: l.split(" ")[1:] for l in r.out}
    for n, (x, tol) in c.values.items():
        if n not in got:
            return "missing", f"{n} is not reported"
        f, one, same, inv = got[n]
        f, one, inv = bits(int(f)), bits(int(one)), bits(int(inv))
        if ulps(f, x) > tol:
            return "factor", f"{n} has the factor {f!r}, the definition gives {x!r}"
        if same != "true":
            return "encoding", f"{n}: the factor {f!r} has another encoding"
        if one != f:
            return "quantity", f"1 * {n} stores {one!r}, the factor is {f!r}"
        if ulps(inv, 1.0 / f if 1.0 / f else 0.0) > 1 and abs(1.0 / f) < float("inf"):
            return "quantity", f"1 / {n} stores {inv!r}, the factor is {f!r}"
    return None


def evaluate(cases):
    got = batch.accepted("lint", [source(c) for c in cases], size=16)
    equal = batch.accepted("lint", [c.equal for c in cases], size=24, emit="metadata", run=False)
    distinct = batch.rejected("lint", [c.distinct for c in cases])
    out = []
    for c, g, e, d in zip(cases, got, equal, distinct):
        r = judge(c, g)
        if r is None and not e.ok:
            r = ("notation", "the same factor in two notations gives two types: " + e.error_text())
        if r is None and d.ok:
            r = ("collision", "adjacent factors give the same unit type")
        out.append(r)
    return out


def run(rep):
    if core.usable(rep, ["lint"]):
        tape.run(rep, "factors", core.scale(240, 6000), gen, evaluate)


def replay(f):
    return tape.replay(f, gen, evaluate)
