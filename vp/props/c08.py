"""C08: an annotation is accepted if and only if it names exactly the dimension of the expression."""
import copy
from fractions import Fraction

from .. import batch, core, model, tape

RULE = (
    "a system with one annotated unit or constant, the annotation being the exact dimension written in another way, a near miss (one exponent changed, a base dimension added, removed, "
    "negated or swapped), another dimension, the dimensionless one, a unit or undefined; the same system without the annotation must compile; non-trivial unless annotation and definition are single identifiers"
)


def spell(t, d, bases, rational):
    """A dimension expression for d, with terms in any order and possibly ones that cancel."""
    terms = []
    for b, e in sorted(d.items()):
        e = Fraction(e)
        parts = [e]
        if t.chance(1, 4):
            k = t.range(-2, 3)
            parts = [e - k, Fraction(k)]
        terms += [(b, p) for p in parts]
    if t.chance(1, 4):
        b = t.pick(bases)
        terms += [(b, Fraction(2)), (b, Fraction(-2))]
    terms = t.shuffle(terms)
    out = []
    for b, e in terms:
        op = None if not out else t.pick(["*", "/", ""])
        if op is None and t.chance(1, 4):
            out.append((None, ("num", "1")))
            op = t.pick(["*", "/"])
        x = -e if op == "/" else e
        if x.denominator != 1:
            f = ("pow", ("id", b), x, f"({x.numerator}/{x.denominator})")
        elif x == 1 and t.chance(1, 2):
            f = ("id", b)
        else:
            f = ("pow", ("id", b), x, str(x))
        out.append((op, f))
    return out or [(None, ("num", "1"))]


def change(t, d, bases):
    d = dict(d)
    kind = t.pick(["exact", "plus", "extra", "missing", "negated", "swapped", "scaled", "dimensionless", "other"])
    if kind == "plus" and d:
        b = t.pick(sorted(d))
        d[b] += t.pick([1, -1, 2])
    elif kind == "extra" or (kind == "plus" and not d):
        b = t.pick(bases)
        d[b] = d.get(b, 0) + t.pick([1, -1, 2])
    elif kind == "missing" and d:
        del d[t.pick(sorted(d))]
    elif kind == "negated":
        d = {k: -v for k, v in d.items()}
    elif kind == "swapped" and len(bases) > 1:
        a, b = t.pick(bases), t.pick(bases)
        d[a], d[b] = d.get(b, Fraction(0)), d.get(a, Fraction(0))
    elif kind == "scaled":
        d = {k: 2 * v for k, v in d.items()}
    elif kind == "dimensionless":
        d = {}
    elif kind == "other":
        d = {b: Fraction(t.range(-2, 2)) for b in bases}
    return kind, {k: v for k, v in d.items() if v}


def gen(rational):
    def g(t):
        s = model.gen_system(t, rational=rational, max_units=4, max_constants=2, max_dims=3, attributes=t.chance(1, 2), annotate=False)
        named = [d for d in s.defs if d.kind != "dimension"]
        if not named:
            s.defs.append(model.Def("constant", "VP_ONE", [(None, ("num", "2"))]))
            named = s.defs[-1:]
            s = model.System(s.defs)
        target = t.pick(named)
        if target.kind == "unit" and t.chance(1, 3) and target.expr:
            # a derived unit without prefixes is the common case
            target.prefixes, target.metric = target.prefixes, target.metric
        have = s.look(target.name)[0]
        kind, want = change(t, have, s.bases())
        special = t.draw(14)
        defs = list(s.defs)
        if special == 13:
            kind, ann, ok = "undefined", "NoSuchDimension", False
        elif special == 12 and len(named) > 1:
            other = t.pick([d for d in named if d is not target])
            kind, ann, ok = "unit", other.name, False
        else:
            ann = "VpAnnotation"
            # directly, or through another derived dimension
            e = spell(t, want, s.bases(), rational)
            if t.chance(1, 4):
                defs.insert(t.draw(len(defs) + 1), model.Def("dimension", "VpAnnotation0", e))
                e = [(None, ("id", "VpAnnotation0"))]
            defs.insert(t.draw(len(defs) + 1), model.Def("dimension", ann, e))
            ok = model.dkey(want) == model.dkey(have)
        plain = model.System(defs).text()
        marked = copy.copy(target)
        marked.annotation = ann
        text = model.System([marked if d is target else d for d in defs]).text()
        return tape.Case(
            plain=plain, text=text, ok=ok, desc=f"{'accept' if ok else 'reject'} ({kind}): " + text, nontrivial=kind not in ("undefined", "unit"),
            cls=("accept " if ok else "reject ") + kind + (" base" if target.base else " prefixed" if target.kind == "unit" and target.all_prefixes() else ""),
        )

    return g


def evaluate(cfg):
    def ev(cases):
        good = [c.text if c.ok else c.plain for c in cases]
        bad = [i for i, c in enumerate(cases) if not c.ok]
        res = [None] * len(cases)
        for i, r in enumerate(batch.accepted(cfg, good, emit="metadata", run=False)):
            if not r.ok:
                res[i] = (f"{cfg}:rejected", ("an exact annotation is rejected: " if cases[i].ok else "the system without the annotation is rejected: ") + r.error_text())
        for i, r in zip(bad, batch.rejected(cfg, [cases[i].text for i in bad])):
            if r.ok and res[i] is None:
                res[i] = (f"{cfg}:accepted", "the annotation is not the dimension of the definition, but it is accepted")
        return res

    return ev


PARTS = {f"annotations-{c}": (gen(c == "lrat"), evaluate(c)) for c in ("lint", "lrat")}


def run(rep):
    for c in core.usable(rep, ["lint", "lrat"]):
        tape.run(rep, f"annotations-{c}", core.scale(400, 8000), *PARTS[f"annotations-{c}"])


def replay(f):
    return tape.replay(f, *PARTS[f["part"]])
