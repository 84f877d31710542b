"""Expression programs over generated systems, with the dimension of every expression known
from a model (C01, C02, C11).

rustc compares the types of two unnamed results of the same operator by comparing their
operands (see DESIGN.md, the finding of C02), so the model also knows the shape of a type:
("lit",) for a dimension that is written down or named, otherwise the operator and the
shapes of its operands. Where the two sides of a same-dimension operation have the same
operator but other operands, the generated program names the dimension of one side."""
import functools
from fractions import Fraction

from . import core, model, tape

LIT = ("lit",)
MAX_EXP = 12


class E:
    """A quantity expression: code, dimension, shape of the type, storage type."""

    def __init__(self, code, dim, shape, st):
        self.code, self.dim, self.shape, self.st = code, dim, shape, st

    def full(self):
        return (self.shape, model.dkey(self.dim)) if self.shape == LIT else self.shape


def op(head, *args):
    return (head,) + tuple(a.full() if isinstance(a, E) else a for a in args)


def sure(a, b):
    """rustc certainly sees that two types of equal dimension are equal"""
    if a.shape == LIT or b.shape == LIT:
        return True
    if "amb" in (a.shape[0], b.shape[0]):
        return False
    return a.shape[0] != b.shape[0] or a.shape == b.shape


class World:
    """A unit system that stands at the root of a crate, with helpers."""

    def __init__(self, seed, cfg, system=None):
        self.cfg = cfg
        t = tape.Tape(seed=seed)
        self.rational = cfg in ("lrat", "rat")
        self.q, self.d = ("Quantity", "Dimension") if t.chance(1, 2) else ("Amount", "Kind")
        pool = [n for n in model.DIMENSION_NAMES if n not in (self.q, self.d)]
        self.system = system or model.gen_system(
            t, rational=self.rational, max_bases=4, max_dims=4, max_units=5, max_constants=2, attributes=False, quantity=self.q, dimension=self.d, all_base_units=True, min_units=1, dimension_pool=pool)
        s = self.system
        self.q, self.d = s.quantity, s.dimension
        self.bases = s.bases()
        self.units = {f"units::{n}": x[:2] for n, x in s.units().items()}
        self.units.update({f"constants::{n}": x for n, x in s.constants().items()})
        self.dims = s.dimensions()

    def lit(self, dim):
        one = (lambda f: f"{f.numerator}") if not self.rational else (lambda f: f"Exponent::new({f.numerator}, {f.denominator})")
        return f"{self.d} {{ " + ", ".join(f"{model.snake(b)}: {one(Fraction(dim.get(b, 0)))}" for b in self.bases) + " }"

    def explicit(self, st, dim):
        return f"{self.q}<{st}, {{ {self.lit(dim)} }}>"

    def named(self, t, st, dim):
        """A type by name if there is one, otherwise with an explicit dimension."""
        same = [n for n, d in self.dims.items() if model.dkey(d) == model.dkey(dim)]
        if same and t.chance(2, 3):
            return f"dimensions::{t.pick(same)}<{st}>"
        return self.explicit(st, dim)

    def prelude(self):
        s = self.system
        return s.text() + model.observer(s, self.rational).replace("pub fn report()", "pub fn vp_report()") + """
pub fn show<T: std::fmt::LowerExp>(k: usize, dim: Vec<(i64, i64)>, v: T) {
    println!("x{k}\\t{}\\t{:e}", dim.iter().map(|x| format!("{}/{}", x.0, x.1)).collect::<Vec<_>>().join(" "), v);
}
"""


@functools.lru_cache(maxsize=None)
def world(k, cfg, salt=""):
    """The k-th system of this run."""
    return World(tape.case_seed(f"world{salt}-{'r' if cfg in ('lrat', 'rat') else 'i'}", k), cfg)


def out_of_range(dim):
    return any(abs(v) > MAX_EXP or v.denominator > 24 for v in dim.values())


class Gen:
    """Generates expressions; collects the parameters of the function they stand in."""

    def __init__(self, t, w, st="f64", vectors=False, units=True):
        self.t, self.w, self.st = t, w, st
        self.params = []  # (name, type, dim, st)
        self.values = []
        self.subtracts = False
        self.vectors = vectors
        self.use_units = units
        self.heads = set()

    # -- leaves

    def dim(self):
        t, w = self.t, self.w
        k = t.draw(5)
        if k == 0:
            return {t.pick(w.bases): Fraction(1)}
        if k == 1:
            return dict(t.pick(list(w.units.values()))[0]) if w.units else {}
        if k == 2:
            return dict(t.pick(list(w.dims.values())))
        if k == 3 and t.chance(1, 2):
            return {}
        d = {}
        for b in w.bases:
            e = Fraction(t.pick([0, 1, -1, 2, -2, 3, 4, -3]), t.pick([1, 1, 2, 3]) if w.rational else 1)
            if e:
                d[b] = e
        return d

    def param(self, dim, st=None):
        """A parameter with an explicit type of that dimension."""
        st = st or self.st
        for n, _, d, s in self.params:
            if model.dkey(d) == model.dkey(dim) and s == st and self.t.chance(1, 2):
                return E(n, dim, LIT, st)
        n = f"v{len(self.params)}"
        self.params.append((n, self.w.named(self.t, st, dim), dict(dim), st))
        return E(n, dict(dim), LIT, st)

    def number(self, st=None):
        st = st or self.st
        x = self.t.pick(["2.5", "1.0", "0.5", "3.0", "1.25e2", "0.03", "7.0"])
        if st in ("f32", "f64"):
            return f"{x}{st}"
        n = int(st[-1])
        return f"glam::{st}::new({', '.join([x] * n)})"

    def unit(self, fits=None):
        """A unit or composite unit: (code, dim, shape)"""
        t, w = self.t, self.w
        if not w.units or not self.use_units:
            return None
        names = list(w.units)
        a = t.pick(names)
        if t.chance(1, 3):
            b = t.pick(names)
            da, db = w.units[a][0], w.units[b][0]
            ea, eb = E(a, da, LIT, None), E(b, db, LIT, None)
            if t.chance(1, 2):
                return f"({a} * {b})", model.dmul(da, db), op("add", ea, eb)
            return f"({a} / {b})", model.dmul(da, db, -1), op("sub", ea, eb)
        return a, dict(w.units[a][0]), LIT

    def ok(self, e):
        return None if e is None or out_of_range(e.dim) else e

    def ref(self, code):
        return f"&{code}" if self.t.chance(1, 3) else code

    # -- expressions

    def expr(self, depth, st=None):
        for _ in range(6):
            e = self.ok(self.node(depth, st or self.st))
            if e is not None:
                return e
        return self.param(self.dim(), st or self.st)

    def node(self, depth, st):
        t = self.t
        fl = st if st in ("f32", "f64") else ("f64" if st.startswith("D") else "f32")
        vec = fl != st
        k = t.draw(16) if depth > 0 else t.draw(3)
        if k == 0:
            return self.param(self.dim(), st)
        if k in (1, 2):
            u = self.unit()
            if u is None:
                return self.param(self.dim(), st)
            code, d, sh = u
            n = self.number(st)
            form = t.draw(5)
            self.heads.add("unit")
            if form == 0:
                return E(f"({n} * {code})", d, sh, st)
            if form == 1:
                if vec:  # the product of a factor and a vector is not offered by all forms
                    return E(f"({n} * {code})", d, sh, st)
                return E(f"({code} * {n})", d, sh, st)
            if form == 2:
                return E(f"({n} / {code})", model.dpow(d, -1), ("neg", (sh, model.dkey(d)) if sh == LIT else sh), st)
            if form == 3 and not vec:
                return E(f"({code} / {n})", d, sh, st)
            if form == 4 and not vec:
                return E(f"{code}.new({n})", d, sh, st)
            return E(f"({n} * {code})", d, sh, st)
        if k in (3, 4):  # product of quantities
            a, b = self.expr(depth - 1, st), self.expr(depth - 1, fl if vec else st)
            if vec and t.chance(1, 2):
                a, b = b, a
            self.heads.add("*")
            return E(f"({self.ref(a.code)} * {self.ref(b.code)})", model.dmul(a.dim, b.dim), op("add", a, b), st)
        if k in (5, 6):
            a, b = self.expr(depth - 1, st), self.expr(depth - 1, fl)
            self.heads.add("/")
            return E(f"({self.ref(a.code)} / {self.ref(b.code)})", model.dmul(a.dim, b.dim, -1), op("sub", a, b), st)
        if k == 7:  # with a bare value
            form = t.draw(4)
            self.heads.add("bare")
            if form == 0:
                a = self.expr(depth - 1, st)
                return E(f"({self.ref(a.code)} * {self.ref(self.number(fl))})", a.dim, a.shape, st)
            if form == 1:
                a = self.expr(depth - 1, st)
                return E(f"({self.ref(a.code)} / {self.ref(self.number(fl))})", a.dim, a.shape, st)
            if form == 2:
                a = self.expr(depth - 1, fl)
                return E(f"({self.ref(self.number(st))} * {self.ref(a.code)})", a.dim, a.shape, st)
            a = self.expr(depth - 1, fl)
            return E(f"({self.ref(self.number(st))} / {self.ref(a.code)})", model.dpow(a.dim, -1), op("neg", a), st)
        if k == 8:  # with a unit
            u = self.unit()
            if u is None or vec:
                return None
            code, d, sh = u
            ue = E(code, d, sh, None)
            a = self.expr(depth - 1, st)
            form = t.draw(4)
            self.heads.add("q-unit")
            if form == 0:
                return E(f"({a.code} * {code})", model.dmul(a.dim, d), op("add", a, ue), st)
            if form == 1:
                return E(f"({a.code} / {code})", model.dmul(a.dim, d, -1), op("sub", a, ue), st)
            if form == 2:
                return E(f"({code} * {a.code})", model.dmul(a.dim, d), op("add", ue, a), st)
            return E(f"({code} / {a.code})", model.dmul(d, a.dim, -1), op("sub", ue, a), st)
        if k == 9:
            a = self.expr(depth - 1, st)
            self.heads.add("neg")
            return E(f"(-{a.code})", a.dim, a.shape, st)
        if k in (10, 11):  # sum or difference
            a = self.expr(depth - 1, st)
            b = self.of(a.dim, st, depth - 1)
            b = self.fit(a, b)
            o = t.pick(["+", "+", "-"])
            self.subtracts |= o == "-"
            self.heads.add("+")
            return E(f"({self.ref(a.code)} {o} {self.ref(b.code)})", a.dim, a.shape if a.shape == b.shape else ("amb",), st)
        if vec:
            if k == 12:
                a = self.expr(depth - 1, st)
                self.heads.add("method")
                return E(f"{a.code}.{t.pick(['abs()', 'min({0})', 'max({0})']).format(a.code)}", a.dim, a.shape, st)
            if k == 13:
                a = self.expr(depth - 1, fl)
                b = [self.name(x) if x.shape != LIT else x for x in [self.of(a.dim, fl, depth - 1) for _ in range(int(st[-1]))]]
                self.heads.add("new")
                return E(f"<{self.w.named(t, st, a.dim)}>::new({', '.join(x.code for x in b)})", a.dim, LIT, st)
            if k == 14:
                a = self.expr(depth - 1, st)
                self.heads.add("normalize")
                return E(f"{a.code}.normalize()", {}, LIT, st)
            return None
        if self.vectors and t.chance(1, 3):  # a scalar from a vector
            v = ("D" if st == "f64" else "") + t.pick(["Vec2", "Vec3"])
            a = self.expr(depth - 1, v)
            self.heads.add("scalar of vector")
            m = t.draw(4)
            if m == 0:
                return E(f"{a.code}.{t.pick(['x()', 'y()', 'length()'])}", a.dim, a.shape, st)
            if m == 1:
                b = self.expr(depth - 1, v)
                return E(f"{a.code}.dot({b.code})", model.dmul(a.dim, b.dim), op("add", a, b), st)
            b = self.fit(a, self.of(a.dim, v, depth - 1))
            b = b if b.shape == LIT else self.name(b)
            if m == 2:
                return E(f"{a.code}.distance(&{b.code})", a.dim, a.shape if a.shape == LIT else ("amb",), st)
            return E(f"{a.code}.distance_squared(&{b.code})", model.dpow(a.dim, 2), ("amb",), st)
        if k == 12:  # powers
            a = self.expr(depth - 1, st)
            n = t.pick([2, 3, 2, -1, 1, 0, 4, -2, 5])
            if n in (2, 3) and t.chance(1, 2):
                code = f"{a.code}.{'squared' if n == 2 else 'cubed'}()"
            else:
                code = f"{a.code}.powi::<{n if n >= 0 else '{ %d }' % n}>()"
            self.heads.add("pow")
            return E(code, model.dpow(a.dim, Fraction(n)), op("mul", a, n), st)
        if k == 13:  # roots
            n = t.pick([2, 3])
            d = self.dim()
            if not self.w.rational or t.chance(1, 2):
                a = self.of(model.dpow(d, n), st, depth - 1)
            else:
                a = self.expr(depth - 1, st)
            self.heads.add("root")
            return E(f"{a.code}.{'sqrt' if n == 2 else 'cbrt'}()", model.dpow(a.dim, Fraction(1, n)), op(f"div{n}", a), st)
        if k == 14:
            a = self.expr(depth - 1, st)
            m = t.draw(3)
            self.heads.add("method")
            if m == 0:
                return E(f"{a.code}.abs()", a.dim, a.shape, st)
            a = a if a.shape == LIT else self.name(a)
            b = self.of(a.dim, st, depth - 1)
            b = b if b.shape == LIT else self.name(b)
            if m == 1:
                return E(f"{a.code}.{t.pick(['min', 'max'])}({b.code})", a.dim, LIT, st)
            c = self.param(a.dim, st)
            return E(f"{a.code}.clamp({c.code}, {c.code} + {c.code}.abs())", a.dim, LIT, st)
        # dimensionless
        a = self.of({}, st, depth - 1)
        m = t.draw(4)
        self.heads.add("dimensionless")
        if m == 0:
            return E(f"({self.ref(a.code)} + {self.ref(self.number(st))})", {}, LIT, st)
        if m == 1:
            self.subtracts = True
            return E(f"({self.ref(self.number(st))} - {self.ref(a.code)})", {}, LIT, st)
        if m == 2:
            return E(f"{a.code}.{t.pick(['exp', 'sin', 'ln_1p', 'atan', 'floor', 'tanh'])}()", {}, LIT, st)
        b = self.expr(depth - 1, st)
        return E(f"({a.code}.value() * {b.code})", b.dim, b.shape, st)

    def of(self, dim, st=None, depth=1):
        """An expression of the given dimension."""
        t, st = self.t, st or self.st
        fl = st if st in ("f32", "f64") else ("f64" if st.startswith("D") else "f32")
        k = t.draw(8)
        if depth <= 0 or k == 0 or out_of_range(dim):
            return self.param(dim, st)
        if k == 1:
            us = [u for u, (d, _) in self.w.units.items() if model.dkey(d) == model.dkey(dim)] if self.use_units else []
            if us:
                return E(f"({self.number(st)} * {t.pick(us)})", dict(dim), LIT, st)
            k = 2
        if k == 2 or k == 3:
            a = self.expr(depth - 1, st)
            d = model.dmul(dim, a.dim, -1)
            if out_of_range(d):
                return self.param(dim, st)
            b = self.of(d, fl, depth - 1)
            return E(f"({self.ref(a.code)} * {self.ref(b.code)})", dict(dim), op("add", a, b), st)
        if k == 4 or k == 5:
            b = self.expr(depth - 1, fl)
            d = model.dmul(dim, b.dim)
            if out_of_range(d):
                return self.param(dim, st)
            a = self.of(d, st, depth - 1)
            return E(f"({self.ref(a.code)} / {self.ref(b.code)})", dict(dim), op("sub", a, b), st)
        if k == 6:
            a = self.of(model.dpow(dim, -1), fl, depth - 1)
            return E(f"({self.number(st)} / {self.ref(a.code)})", dict(dim), op("neg", a), st)
        if fl != st:
            return self.param(dim, st)
        for n, m in ((2, "squared"), (3, "cubed")):
            if all((v / n).denominator == 1 for v in dim.values()) and t.chance(2, 3):
                a = self.of(model.dpow(dim, Fraction(1, n)), st, depth - 1)
                return E(f"{a.code}.{m}()", dict(dim), op("mul", a, n), st)
        n = t.pick([2, 3])
        d = model.dpow(dim, n)
        if out_of_range(d):
            return self.param(dim, st)
        a = self.of(d, st, depth - 1)
        return E(f"{a.code}.{'sqrt' if n == 2 else 'cbrt'}()", dict(dim), op(f"div{n}", a), st)

    def fit(self, a, b):
        """b, such that it can stand beside a."""
        return b if sure(a, b) else self.name(b)

    def name(self, e):
        return E(f"{{ let x: {self.w.named(self.t, e.st, e.dim)} = {e.code}; x }}".join("()"), e.dim, LIT, e.st)

    # -- the function around it

    def signature(self, name, ret=""):
        ps = ", ".join(f"{n}: {ty}" for n, ty, _, _ in self.params)
        return f"pub fn {name}({ps}){ret}"

    def arguments(self):
        out = []
        for i, (n, ty, d, st) in enumerate(self.params):
            out.append(f"<{ty}>::new_unchecked({self.value(i, st)})")
        return ", ".join(out)

    def value(self, i, st):
        x = 1.0 + 0.375 * i
        if st in ("f32", "f64"):
            return f"{x}{st}"
        n = int(st[-1])
        return f"glam::{st}::new({', '.join(str(x + j) for j in range(n))})"
