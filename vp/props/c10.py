"""C10 (programs): equal fractions give equal types, unequal fractions distinct types."""
from fractions import Fraction

from .. import batch, core, tape

RULE = (
    "a system with two base dimensions and derived dimensions whose exponents are the same generated fractions, written and computed by different routes (unreduced, negative denominators, sums of parts, quotients, powers and roots in functions, "
    "Exponent::new in types), which must be one type and print one text, and a twin in which one exponent is another fraction, which must be rejected; non-trivial if some exponent is not an integer"
)

BASES = ["Length", "Time"]


def gen_fraction(t):
    return Fraction(t.pick([1, 2, 3, -1, -2, 0, 5, -3, 7, 4, -5]), t.pick([1, 2, 3, 1, 4, 6, 5, 12]))


def written(t, f):
    """num, denom of the same fraction"""
    k = t.pick([1, 1, 2, 3, -1, -2, 10, 12])
    return f.numerator * k, f.denominator * k


def exponent(t, f):
    if f.denominator == 1 and t.chance(1, 2):
        return f"^{f.numerator}"
    n, d = written(t, f)
    return f"^({n}/{d})"


def power(t, b, f):
    """Terms (operator, text) whose product is b^f"""
    k = t.draw(5)
    if k == 1:
        return [("/", b + exponent(t, -f))]
    if k == 2:
        a = gen_fraction(t)
        return [("*", b + exponent(t, a)), ("*", b + exponent(t, f - a))]
    if k == 3:
        a = gen_fraction(t)
        return [("*", b + exponent(t, f + a)), ("/", b + exponent(t, a))]
    if k == 4 and f == 1:
        return [("*", b)]
    return [("*", b + exponent(t, f))]


def definition(t, dims):
    terms = t.shuffle([x for b, f in zip(BASES, dims) for x in power(t, b, f)])
    text = "" if terms[0][0] == "*" else "1"
    for o, x in terms:
        text += x if not text else f" {o} {x}"
    return text


def literal(t, dims):
    return "Dimension { " + ", ".join(f"{b.lower()}: Exponent::new({n}, {d})" for b, (n, d) in zip(BASES, [written(t, f) for f in dims])) + " }"


ROUTES = [
    "x", "x.sqrt().squared()", "x.squared().sqrt()", "x.cubed().cbrt()", "x.cbrt().cubed()", "x.powi::<6>().sqrt().cbrt()", "x.sqrt().sqrt().powi::<4>()", "x * y / y", "x / y * y", "1.0f64 / (1.0f64 / x)", "(x * y).sqrt().squared() / y", "x.cbrt().powi::<-3>().powi::<-1>()",
    "x.cbrt() * x.cbrt() * x.cbrt()", "x.sqrt() * x / x.sqrt()", "y / (y / x)", "(x / y).cbrt().cubed() * y",
]
ROUTES = [r.replace("<-3>", "<{ -3 }>").replace("<-1>", "<{ -1 }>") for r in ROUTES]


def gen(t):
    dims = [gen_fraction(t) for _ in BASES]
    other = list(dims)
    i = t.draw(2)
    f = other[i]
    other[i] = t.pick([x for x in (f + 1, -f, f + Fraction(1, 2), f - Fraction(1, 6), Fraction(f.denominator, f.numerator) if f else Fraction(1), f * 2, f + Fraction(1, f.denominator + 1)) if x != f])
    wild = [gen_fraction(t) for _ in BASES]
    defs = {f"D{k}": definition(t, dims) for k in range(2 + t.draw(3))}
    names = list(defs)

    def ty(k):
        if k == "wrong":
            return "dimensions::Wrong<f64>"
        return t.pick([f"dimensions::{t.pick(names)}<f64>", f"Quantity<f64, {{ {literal(t, dims)} }}>"])

    body = [(ty(0), ty(0), t.pick(ROUTES)) for _ in range(1 + t.draw(3))]
    y = f"dimensions::Wild<f64>"
    lines = [f"dimension {n} = {d};" for n, d in defs.items()]
    lines += [f"dimension Wild = {definition(t, wild)};", f"dimension Wrong = {definition(t, other)};", f"unit u: {t.pick(names)} = 2 * {unit_definition(t, dims)};"]
    lines = t.shuffle(lines)
    head = "    diman::unit_system!(quantity_type Quantity; dimension_type Dimension; dimension Length; dimension Time; #[base(Length)] #[symbol(m)] unit meter; #[base(Time)] #[symbol(s)] unit second;\n        " + "\n        ".join(lines) + ");\n"

    def fns(bad):
        out = ""
        for k, (a, b, r) in enumerate(body):
            if bad and k == 0:
                a, b = ("dimensions::Wrong<f64>", b) if wrong_left else (a, "dimensions::Wrong<f64>")
            out += f"    pub fn f{k}(x: {a}, y: {y}) -> {b} {{ {r} }}\n"
        return out

    wrong_left = t.chance(1, 2)
    report = "".join(f'        println!("{{:?}}", f{k}(<{a}>::new_unchecked(4.0), <{y}>::new_unchecked(2.0)));\n' for k, (a, b, r) in enumerate(body))
    report += "".join(f'        println!("{{:?}}", dimensions::{n}::<f64>::new_unchecked(4.0));\n' for n in names)
    good = head + fns(False) + f"    pub fn report() {{\n{report}    }}\n"
    return tape.Case(good=good, bad=head + fns(True), dims=dims, count=len(body) + len(names), desc="\n".join(lines) + "\n" + fns(False), nontrivial=any(f.denominator > 1 for f in dims), cls=f"denominators {max(f.denominator for f in dims)}")


def unit_definition(t, dims):
    return definition(t, dims).replace("Length", "meter").replace("Time", "second")


def want_text(dims):
    out = []
    for s, f in zip(["m", "s"], dims):
        if f == 1:
            out.append(s)
        elif f:
            out.append(f"{s}^{f.numerator}" + (f"/{f.denominator}" if f.denominator > 1 else ""))
    return out


def judge(c, good, bad):
    if not good.ok:
        return "rejected", "equal fractions are taken for different types: " + good.error_text()
    if good.panic:
        return "panic", good.panic
    if len(good.out) != c.count:
        return "missing", "missing output"
    for l in good.out:
        x, *units = l.split(" ")
        if units != want_text(c.dims):
            return "text", f"the text {l!r} has not the units {want_text(c.dims)}"
        if abs(float(x) - 4.0) > 1e-12:
            return "value", f"{l!r} instead of 4"
    if bad.ok:
        return "accepted", "different fractions are taken for the same type"
    return None


def evaluate(cases):
    good = batch.accepted("lrat", [c.good for c in cases], size=16)
    bad = batch.rejected("lrat", [c.bad for c in cases])
    return [judge(c, g, b) for c, g, b in zip(cases, good, bad)]


def run(rep):
    if core.usable(rep, ["lrat"]):
        tape.run(rep, "fractions", core.scale(240, 6000), gen, evaluate)


def replay(f):
    return tape.replay(f, gen, evaluate)
