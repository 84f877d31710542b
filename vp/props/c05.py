"""C05: definitions evaluate to their mathematical value."""
from .. import batch, core, model, tape

RULE = "a whole unit system (1-4 base dimensions, derived dimensions, units, constants, attributes) with generated definition expressions in shuffled order; non-trivial if some definition has at least two operators, an exponent other than 1 or parentheses"


def complexity(e):
    n = 0
    for op, f in e:
        n += 1 if op is not None else 0
        if f[0] == "pow":
            n += 2
        elif f[0] == "paren":
            n += 2 + complexity(f[1])
    return n


def gen(rational):
    def g(t):
        s = model.gen_system(t, rational=rational, max_units=10, max_constants=3, max_dims=6, attributes=t.chance(1, 3))
        n = max([complexity(d.expr) for d in s.defs if d.expr] or [0])
        return tape.Case(system=s, desc=s.text(), nontrivial=n >= 2, cls=("rational" if rational else "integer") + (" deep" if n > 5 else ""))

    return g


def evaluate(cfg):
    def ev(cases):
        rational = cfg == "lrat"
        mods = [c.system.text() + model.observer(c.system, rational) for c in cases]
        out = []
        for c, r in zip(cases, batch.accepted(cfg, mods)):
            if not r.ok:
                out.append((f"{cfg}:rejected", "a well-formed system is rejected: " + r.error_text()))
            elif r.panic is not None:
                out.append((f"{cfg}:panic", r.panic))
            else:
                m = model.compare_report(c.system, r.out)
                out.append((f"{cfg}:value", m) if m else None)
        return out

    return ev


PARTS = {f"definitions-{c}": (gen(c == "lrat"), evaluate(c)) for c in ("lint", "lrat")}


def run(rep):
    for c in core.usable(rep, ["lint", "lrat"]):
        tape.run(rep, f"definitions-{c}", core.scale(450, 9000), *PARTS[f"definitions-{c}"])


def replay(f):
    return tape.replay(f, *PARTS[f["part"]])
