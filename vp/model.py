"""A reference model of unit systems: generation, rendering, and evaluation with exact
dimensions (Fractions) and factors with 60 digits (Decimals). Written from diman's README
and the usual rules of arithmetic, not from its code."""
import decimal
from decimal import Decimal
from fractions import Fraction

decimal.getcontext().prec = 60
decimal.getcontext().Emax = 10**6
decimal.getcontext().Emin = -(10**6)

# name -> (symbol, power of ten)
PREFIXES = {
    "exa": ("E", 18), "peta": ("P", 15), "tera": ("T", 12), "giga": ("G", 9), "mega": ("M", 6), "kilo": ("k", 3), "hecto": ("h", 2), "deca": ("da", 1),
    "deci": ("d", -1), "centi": ("c", -2), "milli": ("m", -3), "micro": ("\u03bc", -6), "nano": ("n", -9), "pico": ("p", -12), "femto": ("f", -15), "atto": ("a", -18),
}
PREFIX_NAMES = list(PREFIXES)

DIMENSION_NAMES = [
    "Length", "Time", "Mass", "Current", "Temperature", "AmountOfSubstance", "LuminousIntensity", "Charge", "Information", "Money", "Angle", "Velocity",
    "Area", "Volume", "Energy", "Power", "Force", "Pressure", "Frequency", "Density", "Momentum", "Flux", "Voltage", "Entropy", "Viscosity", "Rate",
    "Dimensionless", "Weight", "Spin", "HTTPLoad", "x_ray", "gauge", "Q10", "AAge",
]
UNIT_NAMES = [
    "meter", "second", "gram", "ampere", "kelvin", "mole", "candela", "coulomb", "byte", "dollar", "radian", "knot", "acre", "litre", "joule", "watt",
    "newton", "pascal", "hertz", "foot", "inch", "mile", "hour", "day", "year", "ounce", "tonne", "parsec", "volt", "ohm", "farad", "weber", "tesla",
    "henry", "lumen", "lux", "barn", "erg", "dyne", "gauss", "Point", "unit_x", "Rod", "l1", "furlong", "stone", "bit", "mach", "angstrom", "bel",
]
ALIAS_NAMES = ["meters", "metre", "metres", "seconds", "grams", "amperes", "kelvins", "moles", "feet", "inches", "hours", "days", "tons", "bytes", "volts", "points_", "Rods", "w2", "zz", "Omega"]
SYMBOLS = ["m", "s", "g", "A", "K", "mol", "cd", "C", "B", "usd", "rad", "kn", "ac", "L", "J", "W", "N", "Pa", "Hz", "ft", "inch", "mi", "h", "d", "yr", "oz", "t", "pc", "V", "Ohm", "F", "Wb", "T", "H", "lm", "lx", "b", "erg", "dyne", "G", "x_1", "Q", "z", "uu", "w", "R", "\u00b5x", "\u03a9", "\u00b0"]
SYMBOLS.remove("\u00b0")  # (not an identifier)
CONSTANT_NAMES = ["SPEED_OF_LIGHT", "PI", "GRAVITY", "PLANCK", "BOLTZMANN", "AVOGADRO", "SOLAR_MASS", "X", "c0", "K1", "HUBBLE", "ALPHA", "electron"]


class OutOfRange(Exception):
    pass


# ------------------------------------------------------------------ dimensions


def dmul(a, b, sign=1):
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0) + sign * v
    return {k: v for k, v in r.items() if v != 0}


def dpow(a, e):
    return {k: v * e for k, v in a.items() if v * e != 0}


def dkey(a):
    return tuple(sorted((k, Fraction(v)) for k, v in a.items()))


def show_dim(d):
    return " ".join(k if v == 1 else f"{k}^{v}" for k, v in sorted(d.items())) or "1"


# ----------------------------------------------------------------- expressions
# expr   = [(operator, factor), ...] with operator None (first), "*", "/" or "" (juxtaposition)
# factor = ("num", text) | ("id", name) | ("pow", factor, Fraction, text) | ("paren", expr)


def render_factor(f):
    if f[0] in ("num", "id"):
        return f[1]
    if f[0] == "pow":
        return f"{render_factor(f[1])}^{f[3]}"
    return f"({render(f[1])})"


def render(e):
    s = ""
    for op, f in e:
        s += {None: "", "*": " * ", "/": " / ", "": " "}[op] + render_factor(f)
    return s


def number(text):
    return Decimal(text.replace("_", ""))


def check_factor(x):
    if x != 0 and not (Decimal("1e-200") < abs(x) < Decimal("1e200")):
        raise OutOfRange
    return x


def check_dim(d):
    for v in d.values():
        if abs(v) > 2000 or v.denominator > 60:
            raise OutOfRange
    return d


def power(x, e):
    if e.denominator == 1:
        return check_factor(x ** int(e))
    if x <= 0:
        raise OutOfRange
    return check_factor((x.ln() * Decimal(e.numerator) / Decimal(e.denominator)).exp())


def eval_factor(f, look):
    if f[0] == "num":
        return {}, number(f[1])
    if f[0] == "id":
        return look(f[1])
    if f[0] == "pow":
        d, x = eval_factor(f[1], look)
        return check_dim(dpow(d, f[2])), power(x, f[2])
    return evaluate(f[1], look)


def evaluate(e, look):
    d, x = {}, Decimal(1)
    for op, f in e:
        d2, x2 = eval_factor(f, look)
        if op == "/":
            d, x = dmul(d, d2, -1), x / x2
        else:
            d, x = dmul(d, d2), x * x2
        check_dim(d)
        check_factor(x)
    return d, x


def rounding(e, look):
    """How many roundings (each worth half a unit in the last place) an evaluation in floating
    point may take; powers multiply those of their base."""
    n = Fraction(0)
    for _, f in e:
        if f[0] == "pow":
            n += abs(f[2]) * (rounding([(None, f[1])], look) + 1)
        elif f[0] == "paren":
            n += rounding(f[1], look)
        else:
            n += look(f[1]) if f[0] == "id" else 1
        n += 1
    return n


def ids(e):
    for _, f in e:
        if f[0] == "pow":
            f = f[1]
        if f[0] == "id":
            yield f[1]
        elif f[0] == "paren":
            yield from ids(f[1])


# -------------------------------------------------------------------- systems


class Def:
    """kind: 'dimension', 'unit' or 'constant'."""

    def __init__(self, kind, name, expr=None, base=None, annotation=None, symbol=None, aliases=(), prefixes=(), metric=None):
        self.kind, self.name, self.expr, self.base, self.annotation, self.symbol = kind, name, expr, base, annotation, symbol
        self.aliases = list(aliases)  # list of lists: one attribute each
        self.prefixes = list(prefixes)  # list of lists
        self.metric = metric  # None or the skip list
        self.attribute_order = None

    def all_prefixes(self):
        return ([p for p in PREFIX_NAMES if p not in self.metric] if self.metric is not None else []) + [p for l in self.prefixes for p in l]

    def all_aliases(self):
        return [a for l in self.aliases for a in l]

    def attributes(self):
        out = []
        if self.base:
            out.append(f"#[base({self.base})]")
        if self.symbol:
            out.append(f"#[symbol({self.symbol})]")
        for a in self.aliases:
            out.append(f"#[alias({', '.join(a)})]")
        if self.metric is not None:
            out.append(f"#[metric_prefixes(skip: {', '.join(self.metric)})]" if self.metric else "#[metric_prefixes]")
        for p in self.prefixes:
            out.append(f"#[prefix({', '.join(p)})]")
        if self.attribute_order:
            out = [out[i % len(out)] for i in sorted(range(len(out)), key=lambda i: self.attribute_order[i % len(self.attribute_order)])]
        return out

    def text(self):
        s = self.kind + " " + self.name
        if self.annotation:
            s += ": " + self.annotation
        if self.expr is not None:
            s += " = " + render(self.expr)
        return "".join(a + " " for a in self.attributes()) + s + ";"

    def names(self):
        """name -> symbol or None, with the power of ten, of all units that this one makes"""
        for p in [None] + self.all_prefixes():
            for a in [None] + self.all_aliases():
                base = a or self.name
                name = unraw_join(p, base)
                sym = None
                if self.symbol and a is None:
                    sym = (PREFIXES[p][0] if p else "") + unraw(self.symbol)
                yield name, sym, PREFIXES[p][1] if p else 0


def unraw(n):
    return n[2:] if n.startswith("r#") else n


def unraw_join(p, n):
    return p + unraw(n) if p else n


class System:
    def __init__(self, defs, quantity="Quantity", dimension="Dimension"):
        self.defs, self.quantity, self.dimension = defs, quantity, dimension
        self._memo = {}
        self._rounding = {}
        self.by_name = {}
        for d in defs:
            self.by_name.setdefault(d.name, d)
        self.generated = {}
        for d in defs:
            if d.kind == "unit":
                for name, sym, e in d.names():
                    self.generated.setdefault(name, (d, e, sym))

    def bases(self):
        return [d.name for d in self.defs if d.kind == "dimension" and d.expr is None]

    def look(self, name):
        if name in self._memo:
            return self._memo[name]
        if name in self.generated:
            d, e, _ = self.generated[name]
            if d.name != name:
                dim, x = self.look(d.name)
                r = dim, check_factor(x * Decimal(10) ** e)
                self._memo[name] = r
                return r
        d = self.by_name[name]
        if d.kind == "dimension" and d.expr is None:
            r = {name: Fraction(1)}, Decimal(1)
        elif d.base:
            r = {d.base: Fraction(1)}, Decimal(1)
        else:
            r = evaluate(d.expr, self.look)
        self._memo[name] = r
        return r

    def rounding(self, name):
        d = self.generated[name][0] if name in self.generated else self.by_name[name]
        if d.name not in self._rounding:
            self._rounding[d.name] = rounding(d.expr, self.rounding) if d.expr else Fraction(0)
        return self._rounding[d.name] + 2

    def units(self):
        """name -> (dimension, factor, symbol)"""
        return {n: self.look(n) + (s,) for n, (d, e, s) in self.generated.items()}

    def constants(self):
        return {d.name: self.look(d.name) for d in self.defs if d.kind == "constant"}

    def dimensions(self):
        return {d.name: self.look(d.name)[0] for d in self.defs if d.kind == "dimension"}

    def text(self, indent=""):
        lines = [f"quantity_type {self.quantity};", f"dimension_type {self.dimension};"] + [d.text() for d in self.defs]
        return "diman::unit_system!(\n" + "".join(f"    {l}\n" for l in lines) + ");\n"


def snake(name):
    """The field of a base dimension: words start at each upper case letter."""
    name = unraw(name)
    words, cur = [], ""
    for c in name:
        if c.isupper() and cur:
            words.append(cur)
            cur = ""
        cur += c
    words.append(cur)
    s = "_".join(w.lower() for w in words)
    return s + "_" if s in KEYWORDS else s


KEYWORDS = set(
    "as break const continue crate dyn else enum extern false fn for if impl in let loop match mod move mut pub ref return self static struct super trait true type unsafe use where while async await abstract become box do final macro override priv typeof unsized virtual yield try Self".split()
)

# ------------------------------------------------------------------ generation

INTS = ["1", "2", "3", "10", "60", "3600", "1000", "1_000", "12", "7", "299792458", "86400", "16", "5", "100"]
FLOATS = ["0.5", "0.3048", "2.54", "1.5e3", "2.5E-3", "1e-9", "6.62607015e-34", "1.0", "4.184", "1e6", "9.80665", "0.001", "1.602176634e-19", "6.02214076e23", "3.25", "1e-3", "0.1", "1_000.5", "12e0", "10.0", "1.0625", "0.9375"]
NEGATIVE = ["-2.5", "-1", "-1e3", "-0.125"]


def gen_number(t):
    k = t.draw(12)
    if k < 5:
        return t.pick(INTS)
    if k < 9:
        return t.pick(FLOATS)
    if k == 9:
        return t.pick(NEGATIVE)
    if k == 10:
        return str(1 + t.draw(100000))
    return f"{t.draw(1000)}.{t.draw(1000):03}{1 + t.draw(9)}e{t.range(-12, 12)}"


def gen_exponent(t, rational):
    """(Fraction, text)"""
    if rational and t.chance(1, 3):
        p, q = t.range(-5, 5), t.pick([1, 2, 3, 4, 6, -2, -3])
        return Fraction(p, q), f"({p}/{q})" if t.chance(1, 3) else f"({p} / {q})"
    e = t.pick([2, 1, 3, -1, -2, 0, -3, 4])
    if t.chance(1, 24):
        e = t.pick([5, -7, 12, -16, 31, 64, -100, 127, 128, -129, 200, 255, 256, -300])
    return Fraction(e), str(e)


def gen_factor(t, atoms, num, rational, depth):
    k = t.draw(10)
    if num and (k == 8 or not atoms):
        text = num(t)
        f = ("num", text)
        if t.chance(1, 8):
            e, s = gen_exponent(t, rational)
            return ("pow", f, e, s)
        return f
    if k == 9 and depth > 0:
        return ("paren", gen_expr(t, atoms, num, rational, depth - 1))
    if not atoms:
        return ("num", "1")
    f = ("id", t.pick(atoms))
    if t.chance(1, 3):
        e, s = gen_exponent(t, rational)
        return ("pow", f, e, s)
    return f


def gen_expr(t, atoms, num, rational=False, depth=2):
    e = [(None, gen_factor(t, atoms, num, rational, depth))]
    while t.chance(1, 2) and len(e) < 6:
        op = t.pick(["*", "/", ""])
        f = gen_factor(t, atoms, num, rational, depth)
        if op == "" and f[0] not in ("id",) and not (f[0] == "pow" and f[1][0] == "id"):
            op = "*"
        e.append((op, f))
    return e


class Names:
    """Distinct names, from pools; generated unit names and symbols are reserved as well."""

    def __init__(self, t):
        self.t = t
        self.used = set()
        self.symbols = set()
        self.fields = set()

    def take(self, pool):
        for _ in range(6):
            n = self.t.pick(pool)
            if n not in self.used:
                break
        i = 2
        base = n
        while n in self.used:
            n = f"{base}{i}"
            i += 1
        self.used.add(n)
        return n

    def dimension(self, pool):
        for _ in range(6):
            n = self.t.pick(pool)
            if n not in self.used and snake(n) not in self.fields:
                break
        i, base = 2, n
        while n in self.used or snake(n) in self.fields:
            n = f"{base}{i}"
            i += 1
        self.used.add(n)
        self.fields.add(snake(n))
        return n


def gen_system(
    t, rational=False, max_bases=4, max_dims=4, max_units=6, max_constants=2, attributes=True, annotate=True, shuffle=True, dimension_pool=DIMENSION_NAMES,
    unit_pool=UNIT_NAMES, constant_pool=CONSTANT_NAMES, alias_pool=ALIAS_NAMES, symbol_pool=SYMBOLS, quantity="Quantity", dimension="Dimension", all_base_units=False, min_units=0, number_of=gen_number, taken=(),
):
    names = Names(t)
    names.used |= {"Unit", "Magnitude", "Exponent"} | {quantity, dimension} | set(taken)
    defs = []

    def make():
        return System(defs, quantity, dimension)

    def add(d):
        """Adds a definition unless its value or names are out of the domain."""
        new = []
        if d.kind == "unit":
            ns = [n for n, _, _ in d.names()]
            syms = [s for _, s, _ in d.names() if s]
            if len(set(ns)) != len(ns) or len(set(syms)) != len(syms):
                return False
            if any(n in names.used and n != d.name and n not in d.all_aliases() for n in ns) or any(s in names.symbols for s in syms):
                return False
        defs.append(d)
        try:
            s = make()
            s.look(d.name)
            if d.kind == "unit":
                for n in ns:
                    s.look(n)
        except (OutOfRange, decimal.DecimalException, ZeroDivisionError):
            defs.pop()
            return False
        if d.kind == "unit":
            names.used |= set(ns)
            names.symbols |= set(syms)
        return True

    dims = []
    for _ in range(1 + t.draw(max_bases)):
        n = names.dimension(dimension_pool)
        defs.append(Def("dimension", n))
        dims.append(n)
    bases = list(dims)
    for _ in range(t.draw(max_dims + 1)):
        n = names.take(dimension_pool)
        e = gen_expr(t, dims, lambda t: t.pick(["1", "1.0", "1"]), rational)
        d = Def("dimension", n, e)
        if not add(d):
            d.expr = [(None, ("id", t.pick(bases))), ("*", ("id", t.pick(bases)))]
            if not add(d):
                continue
        dims.append(n)

    def attribute(d):
        if not attributes:
            return
        if t.chance(1, 3):
            d.aliases = [[names.take(alias_pool) for _ in range(1 + t.draw(2))] for _ in range(1 + t.draw(2))]
        k = t.draw(6)
        if k == 4:
            d.metric = t.subset(PREFIX_NAMES, 1, 5)
        elif k == 5:
            chosen = t.shuffle(t.subset(PREFIX_NAMES, 1, 4)) or ["kilo"]
            cut = t.draw(len(chosen))
            d.prefixes = [chosen[: cut + 1]] + ([chosen[cut + 1:]] if chosen[cut + 1:] else [])
        elif k == 3 and t.chance(1, 2):
            # both attributes: the explicit ones fill what the other skips
            skip = t.subset(PREFIX_NAMES, 1, 4) or ["kilo"]
            d.metric, d.prefixes = skip, [skip[:1]]
        d.attribute_order = [t.draw(100) for _ in range(7)] if t.chance(1, 3) else None

    def symbol():
        for _ in range(8):
            s = t.pick(symbol_pool)
            if s not in names.symbols:
                return s
        i = 2
        while f"{s}{i}" in names.symbols:
            i += 1
        return f"{s}{i}"

    def simplify(d):
        d.aliases, d.prefixes, d.metric = [], [], None

    def annotation(d, dim):
        if annotate and t.chance(1, 2):
            same = [x.name for x in defs if x.kind == "dimension" and dkey(make().look(x.name)[0]) == dkey(dim)]
            if same:
                d.annotation = t.pick(same)

    values = []
    for b in bases:
        if all_base_units or not t.chance(1, 8):
            d = Def("unit", names.take(unit_pool), base=b, symbol=symbol())
            attribute(d)
            while not add(d):
                if d.aliases or d.prefixes or d.metric is not None:
                    simplify(d)
                else:
                    d.symbol = f"{d.symbol}{len(names.symbols)}"
            annotation(d, {b: Fraction(1)})
            values += [n for n, _, _ in d.names()]
    n_units, n_constants = min_units + t.draw(max_units + 1 - min_units), t.draw(max_constants + 1)
    kinds = ["unit"] * n_units + ["constant"] * n_constants
    for kind in t.shuffle(kinds):
        d = Def(kind, names.take(unit_pool if kind == "unit" else constant_pool), gen_expr(t, values, number_of, rational))
        if kind == "unit":
            if t.chance(1, 2):
                d.symbol = symbol()
            attribute(d)
        if not add(d):
            simplify(d)
            if not add(d):
                d.expr = [(None, ("num", t.pick(INTS)))] + ([("*", ("id", t.pick(bases_units(make()))))] if bases_units(make()) else [])
                if d.symbol in names.symbols:
                    d.symbol = None
                if not add(d):
                    continue
        annotation(d, make().look(d.name)[0])
        values += [n for n, _, _ in d.names()] if kind == "unit" else [d.name]
    if shuffle:
        defs = t.shuffle(defs)
    return System(defs, quantity, dimension)


def bases_units(s):
    return [d.name for d in s.defs if d.kind == "unit" and d.base]


# ---------------------------------------------------------------- observation


def observer(system, rational, units=None, dims=None, constants=None, extra=""):
    """Source, to stand in the module of a system, of `report`, which prints the dimension
    and factor of every unit, constant and dimension."""
    fields = [snake(b) for b in system.bases()]
    Q, D = system.quantity, system.dimension
    one = "(d.{0}, 1)" if not rational else "(d.{0}.num(), d.{0}.denom())"
    us = [n for n in (system.units() if units is None else units)]
    cs = [n for n in (system.constants() if constants is None else constants)]
    ds = [n for n in (system.dimensions() if dims is None else dims)]
    body = "".join(f'        vp_print("unit {n}", vp_unit(units::{n}));\n' for n in us)
    body += "".join(f'        vp_print("constant {n}", vp_unit(constants::{n}));\n' for n in cs)
    body += "".join(f'        vp_print("dimension {n}", (vp_dim(&dimensions::{n}::<f64>::new_unchecked(0.0)), 1.0));\n' for n in ds)
    return f"""
    pub fn vp_exps(d: &{D}) -> Vec<(i64, i64)> {{ vec![{', '.join(one.format(f) for f in fields)}] }}
    pub fn vp_unit<const A: {D}, const B: Magnitude>(_: Unit<A, B>) -> (Vec<(i64, i64)>, f64) {{ (vp_exps(&A), B.into_f64()) }}
    pub fn vp_dim<S, const A: {D}>(_: &{Q}<S, A>) -> Vec<(i64, i64)> {{ vp_exps(&A) }}
    pub fn vp_print(what: &str, x: (Vec<(i64, i64)>, f64)) {{ println!("{{what}}\\t{{}}\\t{{:e}}", x.0.iter().map(|x| format!("{{}}/{{}}", x.0, x.1)).collect::<Vec<_>>().join(" "), x.1); }}
    pub fn report() {{
{body}{extra}    }}
"""


def parse_report(lines):
    """'unit name' -> (exponents, value)"""
    out = {}
    for l in lines:
        p = l.split("\t")
        if len(p) == 3:
            out[p[0]] = ([tuple(map(int, x.split("/"))) for x in p[1].split()], float(p[2]))
    return out


def want_exps(system, dim):
    r = []
    for b in system.bases():
        f = Fraction(dim.get(b, 0))
        r.append((f.numerator, f.denominator))
    return r


def close(got, want, rel=1e-13):
    w = float(want)
    if w == 0 or got != got or got in (float("inf"), float("-inf")):
        return got == w
    return abs(Decimal(got) - want) <= Decimal(rel) * abs(want)


def compare_report(system, lines, units=True):
    """None or a message: the reported definitions against the model"""
    got = parse_report(lines)
    want = {}
    if units:
        for n, (d, x, _) in system.units().items():
            want[f"unit {n}"] = (d, x)
    for n, (d, x) in system.constants().items():
        want[f"constant {n}"] = (d, x)
    for n, d in system.dimensions().items():
        want[f"dimension {n}"] = (d, Decimal(1))
    for k, (d, x) in want.items():
        if k not in got:
            return f"{k} is not reported"
        if got[k][0] != want_exps(system, d):
            return f"{k}: exponents {got[k][0]} of {system.bases()}, the definition gives {show_dim(d)}"
        # (definitions with large powers multiply what rounding leaves)
        rel = max(1e-13, 4e-16 * float(system.rounding(k.split()[1]))) if not k.startswith("dimension") else 1e-13
        if not close(got[k][1], x, rel):
            return f"{k}: factor {got[k][1]!r}, the definition gives {float(x)!r}"
    return None
