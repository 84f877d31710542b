"""C25: unit systems are self-contained: any names, any number, any place."""
import copy
from fractions import Fraction

from .. import batch, core, model, tape

RULE = (
    "a generated system and a consistent renaming of all of its identifiers (types, dimensions, units, aliases, constants, symbols; one-letter, keyword, raw, Unicode, prelude "
    "names), which must report the same dimensions, factors and texts; or two to four generated systems with overlapping names in nested modules, which must report what they "
    "report alone; or a generated system in a module among random imports (globs of glam, serde, rand, std, diman…) and items that share names with what the generated code uses, which must report what the definitions say; or a program that mixes quantities of two equal systems and must be rejected while its twin within one system compiles; non-trivial if the systems have at least two dimensions or units"
)

TYPE_NAMES = (
    "Physical X Y Z T U W V P G H J K N M L R Quantity_ Größe Länge Величина 量 r#type_ Kind Amount Lengths Masses Meter Measurement Phys1 HTTPQ "
    "Scalar Number Value Error Output Target Add Sub Mul Div Neg Sum Clone Debug PartialEq Eq Display Float Uniform Product Quotient si A B C F Q Exp Dimensions Units QuantityType"
).split()
DIM_NAMES = (
    "A B C D E F G I L M N O P Q R S T U V X Y Z a b c d e f k l m n q r s t x y z Type Fn Mod Struct Impl For Loop If Match Move Ref Self_ Static Trait Where While Yield Async Box Dyn In As Do "
    "Länge Größe Ünit Éa Скорость HTTPLoad XMLHttp X2Y x_ _1 __ AB ABc aB a_b a_B Option Some None Result Ok Err String Vec Default Clone Copy Add Sub Mul Div Into From Quantity Dimension "
    "f32 f64 i64 str bool core std diman serde units constants dimensions value num denom int one zero none add sub mul div neg equals self_ other Unit Magnitude DL DR FL FR LHS RHS "
    "r#type r#fn r#match Length Time MassOfThings lengthy Iter Ordering SomeVeryLongDimensionNameWithManyWordsInIt"
).split()
UNIT_NAMES = (
    "a b c d e f g h i j k l m n o p q r s t u v w x y z A B C D E F G L M N S T X Type Fn r#type r#fn r#mod r#match r#in r#as meter_ größe Meile верста ångström 里 x_ _1 __ unit_ "
    "Option Some None Result Ok Err String Vec Default Clone Copy Add Into From f32 f64 i64 str bool core std diman serde units constants dimensions value new zero none mul div one "
    "inf nan NaN e5 E1 union auto macro_rules main test println Quantity Length length METER Meter mEtEr self_ DL FR rhs lhs D1 deci milli kilo mega micro"
).split()
SYMBOLS = (
    "a b c d e f g h i j k l m n o p q r s t u v w x y z A B C D E F G H I J K L M N O P Q R S T U V W X Y Z r#type r#fn r#in r#as inf NaN nan infinity e5 E1 µx Ω Å μ λ 里 ж m2 x_1 _s __ "
    "Option None self_ f64 str kg da mm"
).split()
RESERVED = {"Unit", "Magnitude", "Exponent"}


def unique(t, pool, used, key=lambda x: {x}):
    for _ in range(8):
        n = t.pick(pool)
        if not key(n) & used and model.unraw(n) not in used:
            break
    else:
        i = 2
        base = model.unraw(n)
        while key(f"{base}{i}") & used or f"{base}{i}" in used:
            i += 1
        n = f"{base}{i}"
    used |= key(n)
    return n


def rename(t, s):
    """(renamed system, symbol map) or None if generated names collide"""
    used = set(RESERVED)
    q = unique(t, TYPE_NAMES, used)
    d = unique(t, TYPE_NAMES, used)
    m, symbols = {}, {}
    fields, syms = set(), set()
    dims = [x for x in s.defs if x.kind == "dimension"]
    for x in dims:
        if x.expr is None:
            n = None
            for _ in range(10):
                c = unique(t, DIM_NAMES, set(used))
                if model.snake(c) not in fields:
                    n = c
                    break
            if n is None:
                i = 2
                while f"dim{i}" in used or f"dim{i}" in fields:
                    i += 1
                n = f"dim{i}"
            fields.add(model.snake(n))
            used |= {n, model.unraw(n)}
        else:
            n = unique(t, DIM_NAMES, used)
            used.add(model.unraw(n))
        m[x.name] = n
    defs = []

    def all_names(d, name, aliases):
        ps = d.all_prefixes()
        return {model.unraw(x) for x in [name] + aliases} | {p + model.unraw(x) for x in [name] + aliases for p in ps}

    for x in s.defs:
        if x.kind == "dimension":
            continue
        if x.kind == "constant":
            m[x.name] = unique(t, UNIT_NAMES, used)
            used.add(model.unraw(m[x.name]))
            continue
        n = unique(t, UNIT_NAMES, used, lambda n: all_names(x, n, []))
        aliases = []
        for a in x.all_aliases():
            b = unique(t, UNIT_NAMES, used, lambda n: all_names(x, n, []))
            aliases.append(b)
            m[a] = b
            for p in x.all_prefixes():
                m[p + model.unraw(a)] = p + model.unraw(b)
        m[x.name] = n
        for p in x.all_prefixes():
            m[p + model.unraw(x.name)] = p + model.unraw(n)
        if x.symbol:
            def all_symbols(c):
                return {model.unraw(c)} | {model.PREFIXES[p][0] + model.unraw(c) for p in x.all_prefixes()}
            c = unique(t, SYMBOLS, syms, all_symbols)
            symbols[x.symbol] = c
    for x in s.defs:
        y = copy.copy(x)
        y.name = m[x.name]
        y.expr = substitute(x.expr, m)
        y.base = x.base and m[x.base]
        y.annotation = x.annotation and m[x.annotation]
        y.symbol = x.symbol and symbols[x.symbol]
        y.aliases = [[m[a] for a in l] for l in x.aliases]
        defs.append(y)
    return model.System(defs, q, d), m


def substitute(e, m):
    if e is None:
        return None

    def factor(f):
        if f[0] == "id":
            return ("id", m[f[1]])
        if f[0] == "pow":
            return ("pow", factor(f[1])) + f[2:]
        if f[0] == "paren":
            return ("paren", substitute(f[1], m))
        return f

    return [(o, factor(f)) for o, f in e]


def source(s, rational):
    """The system, with reports that use fully qualified names and unlikely identifiers"""
    round_items = "".join(f'        vp_round({i}, 1.5f64 * units::{n});\n' for i, n in enumerate(s.units()))
    # prelude names may be hidden by the quantity type, so the helpers name what they use
    return "    " + s.text().replace("\n", "\n    ") + f"""
    pub mod vp {{
        use super::{{units, constants, dimensions}};
        type VpQ<VpS, const VPD: super::{s.dimension}> = super::{s.quantity}<VpS, VPD>;
        pub fn exps(d: &super::{s.dimension}) -> ::std::vec::Vec<(i64, i64)> {{ ::std::vec![{', '.join(f'(d.{model.snake(b)}, 1)' if not rational else f'(d.{model.snake(b)}.num(), d.{model.snake(b)}.denom())' for b in s.bases())}] }}
        fn unit<const VPA: super::{s.dimension}, const VPB: super::Magnitude>(_: super::Unit<VPA, VPB>) -> (::std::vec::Vec<(i64, i64)>, f64) {{ (exps(&VPA), VPB.into_f64()) }}
        fn dim<VpS, const VPA: super::{s.dimension}>(_: &super::{s.quantity}<VpS, VPA>) -> ::std::vec::Vec<(i64, i64)> {{ exps(&VPA) }}
        fn print(what: &str, x: (::std::vec::Vec<(i64, i64)>, f64)) {{ ::std::println!("{{what}}\\t{{}}\\t{{:e}}", x.0.iter().map(|x| ::std::format!("{{}}/{{}}", x.0, x.1)).collect::<::std::vec::Vec<_>>().join(" "), x.1); }}
        fn round<const VPD: super::{s.dimension}>(i: usize, q: super::{s.quantity}<f64, VPD>) {{
            let r = q * 2.0f64 - q;
            let back = ::serde_json::from_str::<super::{s.quantity}<f64, VPD>>(&::serde_json::to_string(&r).unwrap()).map(|x| x.value_unchecked());
            ::std::println!("round {{i}} {{:?}}\\u{{1}}{{:?}}", r, back.ok());
        }}
        pub fn report() {{
{''.join(f'            print("unit {n}", unit(units::{n}));{chr(10)}' for n in s.units())}{''.join(f'            print("constant {n}", unit(constants::{n}));{chr(10)}' for n in s.constants())}{''.join(f'            print("dimension {n}", (dim(&dimensions::{n}::<f64>::new_unchecked(0.0)), 1.0));{chr(10)}' for n in s.dimensions())}{round_items.replace('vp_round', 'round')}        }}
    }}
    pub fn report() {{ vp::report() }}
"""


def gen_small(t, rational, **kw):
    return model.gen_system(t, rational=rational, max_bases=3, max_dims=3, max_units=4, max_constants=2, **kw)


# ------------------------------------------------------------------- renaming


def make_renaming(cfg):
    rational = cfg in ("lrat", "rat")

    def gen(t):
        s = gen_small(t, rational)
        r, m = rename(t, s)
        return tape.Case(s=s, r=r, m=m, desc=s.text() + r.text(), nontrivial=len(s.bases()) >= 2 or len(s.units()) >= 2, cls=f"renaming {cfg}")

    def evaluate(cases):
        src = [source(c.s, rational) for c in cases] + [source(c.r, rational) for c in cases]
        res = batch.accepted(cfg, src)
        return [judge(c, a, b) for c, a, b in zip(cases, res[: len(cases)], res[len(cases):])]

    return gen, evaluate


def round_lines(out):
    return [l.split(" ", 2)[2].split("\x01") for l in out if l.startswith("round ")]


def judge(c, a, b):
    if not a.ok:
        return "rejected", "a system is rejected: " + a.error_text()
    if not b.ok:
        return "renamed-rejected", "a renamed system is rejected: " + b.error_text()
    if a.panic or b.panic:
        return "panic", f"{a.panic} / {b.panic}"
    x, y = model.parse_report(a.out), model.parse_report(b.out)
    for k in x:
        what, name = k.split(" ")
        n = f"{what} {c.m[name]}"
        if n not in y or x[k] != y[n]:
            return "definition", f"{k} is {x[k]}, renamed {n} is {y.get(n)}"
    if len(x) != len(y):
        return "definition", "other definitions after the renaming"
    su, ru = c.s.units(), c.r.units()
    left, right = {}, {}
    # which of several equivalent coherent symbols is used depends on the alphabetical order of the names
    groups = {}
    for n in su:
        if su[n][2] and x[f"unit {n}"][1] == 1.0:
            groups.setdefault(tuple(x[f"unit {n}"][0]), []).append(n)
    for g in groups.values():
        for n in g:
            left[su[n][2]] = right[ru[c.m[n]][2]] = f"<{min(g)}>"
    for z in c.s.bases():
        l, r = model.snake(z), model.snake(c.m[z])
        left.setdefault(l, f"<{z}>")
        right.setdefault(r, f"<{z}>")
    p, q = round_lines(a.out), round_lines(b.out)
    if len(p) != len(q) or len(p) != len(su):
        return "text", f"{len(p)} and {len(q)} texts for {len(su)} units"
    def canonical(text, names):
        w = text.split(" ")
        return w[:1] + sorted(names.get(u, "?" + u) + h + e for u, h, e in (z.partition("^") for z in w[1:]))

    for (t1, r1), (t2, r2) in zip(p, q):
        if canonical(t1, left) != canonical(t2, right):
            return "text", f"the text {t1!r} becomes {t2!r} by renaming"
        # (a base dimension without a unit is written as its name, which cannot be read)
        if r1 != r2 and not any(not any(d.base == b for d in c.s.defs) for b in c.s.bases()):
            return "text", f"{t1!r} reads as {r1}, renamed {t2!r} reads as {r2}"
    return None


# ------------------------------------------------------------- several systems


def make_several(cfg):
    rational = cfg == "lrat"

    def gen(t):
        n = 2 + t.draw(3)
        systems = []
        for _ in range(n):
            s = copy.deepcopy(t.pick(systems)) if systems and t.chance(1, 3) else gen_small(t, rational)
            s = model.System(s.defs, *t.pick([("Quantity", "Dimension"), ("Quantity", "Dimension"), ("Qty", "Dim"), ("Dimension", "Quantity")]))
            names = {d.name for d in s.defs}
            if s.quantity in names or s.dimension in names:
                s = model.System(s.defs, "Quantity_", "Dimension_")
            systems.append(s)
        # a tree of modules: parent of each
        parents = [None] + [t.pick([None] + list(range(i))) for i in range(1, n)]
        return tape.Case(systems=systems, parents=parents, desc="\n".join(f"in module s{i} of {'the crate' if p is None else f's{p}'}:\n{s.text()}" for i, (s, p) in enumerate(zip(systems, parents))), cls="several systems")

    def evaluate(cases):
        src = []
        for c in cases:
            def render(i):
                kids = "".join(render(j) for j in range(len(c.systems)) if c.parents[j] == i)
                return f"    pub mod s{i} {{\n{source(c.systems[i], rational)}\n{kids}    }}\n"

            roots = "".join(render(i) for i in range(len(c.systems)) if c.parents[i] is None)
            path = lambda i: (path(c.parents[i]) if c.parents[i] is not None else "") + f"s{i}::"
            calls = "".join(f'        println!("== {i}"); {path(i)}report();\n' for i in range(len(c.systems)))
            src.append(roots + f"    pub fn report() {{\n{calls}    }}\n")
        out = []
        for c, r in zip(cases, batch.accepted(cfg, src, size=3)):
            if not r.ok:
                out.append(("several-rejected", "several systems together are rejected: " + r.error_text()))
                continue
            if r.panic:
                out.append(("panic", r.panic))
                continue
            parts = "\n".join(r.out).split("== ")[1:]
            bad = None
            for i, p in enumerate(parts):
                bad = bad or model.compare_report(c.systems[i], p.split("\n"))
            out.append(("several", bad) if bad or len(parts) != len(c.systems) else None)
        return out

    return gen, evaluate


# ------------------------------------------------------------ mixing systems

MIX = {
    "add": "let _ = a + b;", "ref-add": "let _ = &a + &b;", "sub": "let _ = a - b;", "mul": "let _ = a * b;", "div": "let _ = a / b;", "ref-mul": "let _ = &a * b;", "add-assign": "let mut a = a; a += b;",
    "eq": "let _ = a == b;", "lt": "let _ = a < b;", "assign": "let mut a = a; a = b; let _ = a;", "array": "let _ = [a, b];", "argument": "fn f(_: {P}dimensions::{N}<f64>) {} f(a); f(b);", "annotation": "let x: {P}dimensions::{N}<f64> = b; let _ = (x, a);",
    "min": "let _ = a.min(b);", "clamp": "let _ = a.clamp(a, b);", "value-in": "let _ = (a.value_in({O}units::{U}), b);", "unit-annotation": "let mut x = 1.0f64 * {O}units::{U}; x += a; let _ = b;", "mul-unit": "let _ = (a * {O}units::{U}, b);",
    "unit-mul": "let _ = ({O}units::{U} * a, b);", "div-unit": "let _ = (a / {O}units::{U}, b);", "unit-unit": "let _ = ({P}units::{U} * {O}units::{U}, a, b);", "unit-div": "let _ = ({P}units::{U} / {O}units::{U}, a, b);", "generic": "fn f<T>(_: T, _: T) {} f(a, b);",
    "unit-div-quantity": "let _ = ({O}units::{U} / a, b);", "sum": "let x: {P}dimensions::{N}<f64> = [b].into_iter().sum(); let _ = (x, a);", "mul-assign": "let mut a = a; a *= b / (1.0f64 * {O}units::{U});", "partial-cmp": "let _ = a.partial_cmp(&b);", "into": "let x: {P}dimensions::{N}<f64> = b.into(); let _ = (x, a);",
}


def gen_mix(t):
    s = gen_small(t, False, all_base_units=True)
    name = t.pick(sorted(MIX))
    candidates = [(n, u) for n, d in s.dimensions().items() for u, x in s.units().items() if model.dkey(d) == model.dkey(x[0])]
    n, u = t.pick(candidates)
    dimensionless = t.chance(1, 6)
    nested = t.chance(1, 2)

    def build(other):
        code = MIX[name].replace("{P}", "s1::").replace("{O}", other).replace("{N}", n).replace("{U}", u)
        second = f"    pub mod s2 {{ {s.text()} }}\n"
        first = f"    pub mod s1 {{ {s.text()} {second if nested else ''} }}\n" + ("" if nested else second)
        return first + f"    pub fn p(a: s1::dimensions::{n}<f64>, b: {other}dimensions::{n}<f64>) {{ {code} }}\n"

    return tape.Case(bad=build("s1::s2::" if nested else "s2::"), good=build("s1::"), name=name, desc=build("s1::s2::" if nested else "s2::"), cls="mixing systems")


def evaluate_mix(cases):
    bad = batch.rejected("lint", [c.bad for c in cases], size=16)
    good = batch.accepted("lint", [c.good for c in cases], size=16, emit="metadata", run=False)
    return [(f"mixed-{c.name}", "quantities of two systems are mixed") if b.ok and g.ok else None for c, b, g in zip(cases, bad, good)]


# --------------------------------------------------------------- surroundings

# (what stands in the module of the system, the name it defines: at most one definition per name)
SURROUNDINGS = [
    ("use glam::*;", None), ("use std::io::Result;", "Result"), ("use std::fmt::Result;", "Result"), ("type Result<T> = std::result::Result<T, String>;", "Result"), ("use std::io::Error;", "Error"),
    ("use std::marker::PhantomData;", "PhantomData"), ("use std::ops::*;", None), ("use std::fmt::*;", None), ("use std::fmt::{Debug, Display, Formatter};", "Debug"), ("use serde::*;", None), ("use serde::de;", "de"),
    ("use serde::{Deserialize, Serialize};", "Serialize"), ("use serde::de::*;", None), ("use serde::ser::*;", None), ("use rand::*;", None), ("use rand::prelude::*;", None), ("use rand::Rng;", "Rng"), ("trait Rng {}", "Rng"), ("use rand::distributions::uniform::SampleUniform;", "SampleUniform"),
    ("use rand::distributions::uniform::*;", None), ("use std::str::SplitWhitespace;", "SplitWhitespace"), ("use std::str::*;", None), ("use std::iter::Sum;", "Sum"), ("use std::iter::*;", None), ("use std::cmp::*;", None), ("use std::collections::*;", None),
    ("use std::borrow::Borrow;", "Borrow"), ("use std::borrow::*;", None), ("use std::convert::*;", None), ("use diman::*;", None), ("use diman::si::*;", None), ("use diman::si::units::*;", None), ("use diman::si::dimensions::*;", None), ("use std::option::*;", None), ("use std::string::*;", None),
    ("use hdf5::*;", None), ("use mpi::*;", None), ("use mpi::traits::*;", None), ("use mpi::datatype::*;", None), ("mod core {}", "core"), ("mod std {}", "std"), ("mod serde {}", "serde"), ("mod rand {}", "rand"), ("mod glam {}", "glam"), ("mod mpi {}", "mpi"), ("mod hdf5 {}", "hdf5"),
    ("mod once_cell {}", "once_cell"), ("mod num_traits {}", "num_traits"), ("mod num_traits_libm {}", "num_traits_libm"), ("trait SampleBorrow {}", "SampleBorrow"), ("trait Mul {}", "Mul"), ("trait Div {}", "Div"), ("trait Add {}", "Add"), ("struct QuantityVisitor;", "QuantityVisitor"),
    ("fn read_unit_str() {}", "read_unit_str"), ("type E = u8;", "E"), ("struct S;", "S"), ("struct A;", "A"), ("const D: u8 = 1;", "D"), ("struct Unit_;", "Unit_"), ("use std::time::Duration;", "Duration"), ("use std::rc::*;", None), ("use std::sync::atomic::*;", None), ("use std::hash::*;", None), ("use std::num::*;", None),
    ("use std::io::*;", None), ("use std::io::prelude::*;", None), ("use std::any::*;", None), ("use std::default::*;", None), ("use std::clone::*;", None), ("use std::f64::consts::*;", None), ("use std::f32::consts::PI;", "PI"), ("fn helper(x: f64) -> f64 { x }", "helper"),
]
# the crates that programs of a configuration can name
CRATES = {"lint": {"std", "diman", "serde"}, "lrat": {"std", "diman", "serde"}, "int": {"std", "diman", "serde", "glam", "rand", "mpi", "hdf5"}}


def surround(t, crates):
    picked, names = [], set()
    offered = [x for x in SURROUNDINGS if not x[0].startswith("use ") or x[0][4:].split("::")[0].rstrip(";") in crates]
    for _ in range(1 + t.draw(6)):
        text, name = t.pick(offered)
        if text in picked or name in names:
            continue
        picked.append(text)
        if name:
            names.add(name)
    return [x.replace("use ", "use ::", 1).replace("= std", "= ::std") for x in picked]


def make_surroundings(cfg):
    rational = cfg in ("lrat", "rat")

    def gen(t):
        s = gen_small(t, rational)
        around = surround(t, CRATES[cfg])
        split = t.draw(len(around) + 1)
        return tape.Case(s=s, around=around, split=split, desc=f"surrounded by {' '.join(around)}\n{s.text()}", cls=f"surroundings {cfg}")

    def evaluate(cases):
        src = ["    " + " ".join(c.around[: c.split]) + "\n" + source(c.s, rational) + "    " + " ".join(c.around[c.split:]) + "\n" for c in cases]
        out = []
        for c, r in zip(cases, batch.accepted(cfg, src)):
            if not r.ok:
                out.append(("surrounded", f"the system is rejected next to {' '.join(c.around)}: " + r.error_text()))
            elif r.panic:
                out.append(("panic", r.panic))
            else:
                bad = model.compare_report(c.s, r.out)
                out.append(("surrounded-meaning", f"next to {' '.join(c.around)}: {bad}") if bad else None)
        return out

    return gen, evaluate


# ------------------------------------------------------------- known limits

LIMITS = [(role, n) for role in ("quantity_type", "dimension_type") for n in ("D", "S", "E", "DL", "DR", "LHS", "RHS")] + [("quantity_type", "I"), ("quantity_type", "DE")]


def limit_source(role, n):
    q, d = (n, "Dim") if role == "quantity_type" else ("Qty", n)
    return f"    diman::unit_system!(quantity_type {q}; dimension_type {d}; dimension Length; #[base(Length)] #[symbol(m)] unit meter;);\n    pub fn p() {{ let _: dimensions::Length<f64> = 1.0 * units::meter; }}\n"


def limits(rep):
    for (role, n), r in zip(LIMITS, batch.accepted("lint", [limit_source(*x) for x in LIMITS], size=1, emit="metadata", run=False)):
        rep.case(f"{role} {n}", True, "type parameter names", sample=True)
        if not r.ok:
            rep.fail(f"limit:{role}-{n}", f"{role} {n} is rejected: {r.error_text()}", limit_source(role, n), kind="tape", part="limits", tape=f"{role} {n}")


PARTS = {
    "renaming-lint": (make_renaming("lint"), (150, 4000)), "renaming-lrat": (make_renaming("lrat"), (80, 3000)), "renaming-int": (make_renaming("int"), (48, 1000)),
    "several-lint": (make_several("lint"), (48, 1000)), "several-lrat": (make_several("lrat"), (32, 600)), "surroundings-lint": (make_surroundings("lint"), (64, 2000)), "surroundings-int": (make_surroundings("int"), (96, 3000)), "surroundings-lrat": (make_surroundings("lrat"), (32, 1000)), "mixing-lint": ((gen_mix, evaluate_mix), (160, 3000)),
}


def run(rep):
    ok = core.usable(rep, ["lint", "lrat", "int"])
    for name, ((gen, ev), n) in PARTS.items():
        if name.split("-")[1] in ok:
            tape.run(rep, name, core.scale(*n), gen, ev)
    if "lint" in ok:
        limits(rep)


def replay(f):
    if f["part"] == "limits":
        r = batch.accepted("lint", [limit_source(*f["tape"].split(" "))], size=1, emit="metadata", run=False)[0]
        print(r.error_text() or "pass")
        return 0 if r.ok else 1
    (gen, ev), _ = PARTS[f["part"]]
    return tape.replay(f, gen, ev)
