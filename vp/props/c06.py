"""C06: prefixes, aliases and symbols expand to exactly the promised units.

Absence of a name is observed in the same program: the name is looked up in a block that
glob-imports the units, inside a block that has a constant of that name and of a type
`Absent`; whichever is found answers."""
from decimal import Decimal

from .. import batch, core, model, tape

RULE = (
    "a unit system whose units have generated prefix lists, skip lists, aliases and symbols; every promised name, every name that prefix x (name or alias) could make, "
    "every promised symbol and every symbol that prefix x symbol could make is looked up; non-trivial if some unit has both prefixes and (aliases or a symbol)"
)


def gen(t):
    s = model.gen_system(t, max_bases=3, max_dims=2, max_units=3, max_constants=1, min_units=1)
    units = [d for d in s.defs if d.kind == "unit"]
    has = [d for d in units if d.all_prefixes() and (d.aliases or d.symbol)]
    kinds = "".join(sorted({("m" if d.metric is not None else "") + ("p" if d.prefixes else "") + ("a" if d.aliases else "") for d in units if d.all_prefixes()}))
    return tape.Case(system=s, desc=s.text(), nontrivial=bool(has), cls=kinds[:12] or "none")


def candidates(s):
    """Names and symbols that are not promised but that prefixes could make."""
    units = s.units()
    taken = set(units)
    symbols = {x[2] for x in units.values() if x[2]}
    names, syms = [], []
    for d in s.defs:
        if d.kind != "unit":
            continue
        for b in [d.name] + d.all_aliases():
            for p in model.PREFIX_NAMES:
                n = p + model.unraw(b)
                if n not in taken:
                    names.append(n)
                # prefixes are not applied twice
            for p in d.all_prefixes()[:2]:
                for q in ("kilo", p):
                    n = q + p + model.unraw(b)
                    if n not in taken:
                        names.append(n)
            for p, (sym, _) in model.PREFIXES.items():
                if d.symbol:
                    x = sym + model.unraw(d.symbol)
                    if x not in symbols:
                        syms.append(x)
        # neither names nor aliases are symbols, neither symbols nor prefixes are names
        for n in [d.name] + d.all_aliases() + [p + d.name for p in d.all_prefixes()[:2]]:
            if model.unraw(n) not in symbols:
                syms.append(model.unraw(n))
        if d.symbol and d.symbol not in taken:
            names.append(d.symbol)
        if d.symbol:
            for a in d.all_aliases()[:1]:
                for p in d.all_prefixes()[:2]:
                    x = model.PREFIXES[p][0] + a
                    if x not in symbols:
                        syms.append(x)
    return list(dict.fromkeys(names)), list(dict.fromkeys(syms))


def source(s):
    names, syms = candidates(s)
    units = s.units()
    dims = {}
    for n, (d, x, sym) in units.items():
        if sym:
            dims.setdefault(model.dkey(d), []).append((sym, n))
    extra = ""
    for key, l in dims.items():
        extra += f"        vp_parse(&(1.0f64 * units::{l[0][1]}), &[{', '.join(chr(34) + x[0] + chr(34) for x in l)}], true);\n"
        extra += f"        vp_parse(&(1.0f64 * units::{l[0][1]}), &[{', '.join(chr(34) + x + chr(34) for x in syms)}], false);\n"
    absent = "".join(f"        const {n}: Absent = Absent;\n" for n in names)
    lookups = "".join(f'            Seen::seen({n}, "{n}");\n' for n in names)
    extra += "        vp_absent();\n"
    q, d = s.quantity, s.dimension
    return s.text() + model.observer(s, False, extra=extra) + f"""
    #[derive(Clone, Copy)]
    pub struct Absent;
    pub trait Seen: Sized {{ fn seen(self, _: &str) {{ }} }}
    impl Seen for Absent {{}}
    impl<const A: {d}, const B: Magnitude> Seen for Unit<A, B> {{ fn seen(self, n: &str) {{ println!("unexpected unit {{n}}"); }} }}
    #[allow(non_upper_case_globals)]
    fn vp_absent() {{
{absent}        {{
            #[allow(unused_imports)]
            use units::*;
{lookups}        }}
    }}
    fn vp_parse<const A: {d}>(_: &{q}<f64, A>, symbols: &[&str], expected: bool) {{
        for s in symbols {{
            match serde_yaml::from_str::<{q}<f64, A>>(&format!("1.5 {{s}}")) {{
                Ok(q) if expected => println!("symbol {{s}}\\t1/1\\t{{:e}}", q.value_unchecked()),
                Err(e) if expected => println!("refused symbol {{s}}: {{e}}"),
                Ok(q) => println!("unexpected symbol {{s}} = {{:e}}", q.value_unchecked()),
                Err(_) => {{}}
            }}
        }}
    }}
"""


def evaluate(cases):
    out = []
    for c, r in zip(cases, batch.accepted("lint", [source(c.system) for c in cases])):
        s = c.system
        if not r.ok:
            out.append(("rejected", "a well-formed system is rejected or a promised unit is missing: " + r.error_text()))
            continue
        if r.panic is not None:
            out.append(("panic", r.panic))
            continue
        m = model.compare_report(s, r.out)
        if m:
            out.append(("unit", m))
            continue
        bad = [l for l in r.out if l.startswith("unexpected unit")]
        if bad:
            out.append(("unexpected-unit", "; ".join(bad[:5])))
            continue
        bad = [l for l in r.out if l.startswith(("unexpected symbol", "refused symbol"))]
        if bad:
            out.append(("symbol", "; ".join(bad[:5])))
            continue
        got = model.parse_report(r.out)
        bad = []
        for n, (d, x, sym) in s.units().items():
            if sym:
                y = got.get(f"symbol {sym}")
                if y is None or not model.close(y[1], x * Decimal("1.5"), max(1e-13, 4e-16 * float(s.rounding(n)))):
                    bad.append(f"1.5 {sym} reads as {y and y[1]!r}, want {float(x) * 1.5!r}")
        out.append(("symbol-value", "; ".join(bad[:5])) if bad else None)
    return out


def run(rep):
    if core.usable(rep, ["lint"]):
        tape.run(rep, "expansion", core.scale(700, 12000), gen, evaluate)


def replay(f):
    return tape.replay(f, gen, evaluate)
