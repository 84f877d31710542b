"""C07: malformed unit systems are rejected with a diagnostic, never accepted, never a panic."""
from fractions import Fraction

from .. import batch, core, model, tape

RULE = (
    "faults: a generated well-formed system (which must compile) with one to three faults of a catalogue of about 90 injected at generated places; non-trivial always // "
    "soup: a well-formed system with token-level edits, or tokens in any order, which must not make the macro panic; non-trivial if it differs from the original"
)


class Sys:
    """Statements as text, with what faults need to know about the system."""

    def __init__(self, s):
        self.head = [f"quantity_type {s.quantity};", f"dimension_type {s.dimension};"]
        self.statements = [d.text() for d in s.defs]
        self.bases = s.bases()
        self.dims = [d.name for d in s.defs if d.kind == "dimension"]
        self.derived = [d.name for d in s.defs if d.kind == "dimension" and d.expr is not None]
        self.base_units = [(d.name, d.base) for d in s.defs if d.base]
        self.units = [d for d in s.defs if d.kind == "unit"]
        self.unit_names = [d.name for d in self.units]
        self.constants = [d.name for d in s.defs if d.kind == "constant"]
        self.values = list(s.generated) + self.constants
        self.symbols = [x[2] for x in s.generated.values() if x[2]]
        self.n = 0

    def add(self, t, text):
        self.statements.insert(t.draw(len(self.statements) + 1), text)

    def fresh(self, what="vp"):
        self.n += 1
        return f"{what}_{self.n}"

    def text(self):
        return "diman::unit_system!(\n" + "".join(f"    {x}\n" for x in self.head + self.statements) + ");\n"


def value_expr(s, t, name):
    """An expression in which the name occurs."""
    other = t.pick(s.values) if s.values else "2"
    return t.pick([name, f"2 * {name}", f"{other} * {name}", f"{other} / {name}^2", f"({other} {name})", f"3.5 * ({other} / (2 * {name}))", f"{name} / {name}"])


def dim_expr(s, t, name):
    other = t.pick(s.dims)
    return t.pick([name, f"1 / {name}", f"{other} * {name}", f"{other} {name}^2", f"({other} / ({name}))", f"{name} / {name}"])


FAULTS = {}


def fault(f):
    FAULTS[f.__name__] = f
    return f


@fault
def undefined_in_unit(s, t):
    s.add(t, f"unit {s.fresh()} = {value_expr(s, t, 'no_such_unit')};")


@fault
def undefined_in_constant(s, t):
    s.add(t, f"constant VP{s.fresh()} = {value_expr(s, t, 'NO_SUCH')};")


@fault
def undefined_in_dimension(s, t):
    s.add(t, f"dimension Vp{s.fresh('X')} = {dim_expr(s, t, 'NoSuchDimension')};")


@fault
def undefined_used_by_others(s, t):
    a, b, c = s.fresh(), s.fresh(), s.fresh()
    s.add(t, f"#[alias({s.fresh()})] #[metric_prefixes] unit {a} = 2 * no_such_unit;")
    s.add(t, f"unit {b} = 2 * {a};")
    s.add(t, f"#[prefix(kilo)] unit {c} = 2 * kilo{a};")


@fault
def unprefixed_used(s, t):
    """A prefixed name that no attribute generates"""
    a = s.fresh()
    s.add(t, f"#[prefix(milli, kilo)] unit {a} = 2;")
    s.add(t, f"unit {s.fresh()} = {value_expr(s, t, t.pick(['mega', 'centi', 'atto']) + a)};")


@fault
def skipped_prefix_used(s, t):
    a = s.fresh()
    s.add(t, f"#[metric_prefixes(skip: centi, mega)] unit {a} = 2;")
    s.add(t, f"unit {s.fresh()} = {value_expr(s, t, t.pick(['mega', 'centi']) + a)};")


@fault
def symbol_used_as_unit(s, t):
    a = s.fresh()
    s.add(t, f"#[symbol(vpsym{a})] unit {a} = 2;")
    s.add(t, f"unit {s.fresh()} = {value_expr(s, t, 'vpsym' + a)};")


@fault
def undefined_annotation(s, t):
    s.add(t, f"{t.pick(['unit', 'constant'])} {s.fresh()}: NoSuchDimension = 2;")


@fault
def recursive_self(s, t):
    a = s.fresh()
    s.add(t, t.pick([f"unit {a} = {a};", f"unit {a} = 2 * {a}^2;", f"constant {a} = {a};", f"dimension {a} = {a};", f"dimension {a} = {t.pick(s.dims)} * {a};", f"unit {a} = {a} / {a};"]))


@fault
def recursive_cycle(s, t):
    k = 2 + t.draw(3)
    names = [s.fresh() for _ in range(k)]
    kind = t.pick(["unit", "constant", "dimension"])
    for i, n in enumerate(names):
        m = names[(i + 1) % k]
        s.add(t, f"{kind} {n} = {dim_expr(s, t, m) if kind == 'dimension' else value_expr(s, t, m)};")


@fault
def recursive_through_prefix(s, t):
    a, b = s.fresh(), s.fresh()
    s.add(t, t.pick([f"#[prefix(kilo)] unit {a} = 2 * kilo{a};", f"#[alias({b})] unit {a} = 2 * {b};", f"#[metric_prefixes] #[alias({b})] unit {a} = milli{b};"]))


@fault
def duplicate_unit(s, t):
    a = t.pick(s.unit_names) if s.unit_names and t.chance(1, 2) else s.fresh()
    if a not in s.unit_names:
        s.add(t, f"unit {a} = 2;")
    s.add(t, f"unit {a} = {t.pick(['2', '3'])};")


@fault
def duplicate_dimension(s, t):
    s.add(t, t.pick([f"dimension {t.pick(s.dims)};", f"dimension {t.pick(s.dims)} = 1;"]))


@fault
def duplicate_constant(s, t):
    a = t.pick(s.constants) if s.constants else s.fresh()
    if not s.constants:
        s.add(t, f"constant {a} = 2;")
    s.add(t, f"constant {a} = 2;")


@fault
def duplicate_across_kinds(s, t):
    a = s.fresh()
    kinds = [f"unit {a} = 2;", f"constant {a} = 2;", f"dimension {a} = 1;"]
    i = t.draw(3)
    s.add(t, kinds[i])
    s.add(t, kinds[(i + 1 + t.draw(2)) % 3])


@fault
def duplicate_alias(s, t):
    a, b, c = s.fresh(), s.fresh(), s.fresh()
    s.add(t, t.pick([
        f"#[alias({b}, {b})] unit {a} = 2;", f"#[alias({b})] #[alias({b})] unit {a} = 2;", f"#[alias({a})] unit {a} = 2;",
        f"#[alias({b})] unit {a} = 2; #[alias({b})] unit {c} = 2;", f"#[alias({b})] unit {a} = 2; unit {b} = 2;", f"#[alias({b})] unit {a} = 2; constant {b} = 2;",
    ]))


@fault
def duplicate_prefix(s, t):
    a = s.fresh()
    s.add(t, t.pick([
        f"#[prefix(kilo, kilo)] unit {a} = 2;", f"#[prefix(kilo)] #[prefix(milli, kilo)] unit {a} = 2;", f"#[metric_prefixes] #[prefix(milli)] unit {a} = 2;",
        f"#[metric_prefixes(skip: kilo)] #[prefix(kilo, atto)] unit {a} = 2;",
    ]))


@fault
def duplicate_of_prefixed(s, t):
    a, b = s.fresh(), s.fresh()
    p = t.pick(model.PREFIX_NAMES)
    s.add(t, t.pick([f"#[metric_prefixes] unit {a} = 2;", f"#[prefix({p})] unit {a} = 2;", f"#[prefix({p})] #[alias({a})] unit {b} = 2;"]))
    s.add(t, t.pick([f"unit {p}{a} = 2;", f"constant {p}{a} = 2;", f"dimension {p}{a} = 1;"]))


@fault
def duplicate_symbol(s, t):
    a, b = s.fresh(), s.fresh()
    if s.symbols and t.chance(1, 2):
        s.add(t, f"#[symbol({t.pick(s.symbols)})] unit {a} = 2;")
    else:
        s.add(t, f"#[symbol(vpq)] unit {a} = 2;")
        s.add(t, t.pick([f"#[symbol(vpq)] unit {b} = 3;", f"#[symbol(vpq)] #[prefix(kilo)] unit {b} = 3;"]))


@fault
def duplicate_symbol_through_prefix(s, t):
    a, b = s.fresh(), s.fresh()
    p, (sym, _) = t.pick(list(model.PREFIXES.items()))
    s.add(t, f"#[symbol(vpq)] #[prefix({p})] unit {a} = 2;")
    s.add(t, f"#[symbol({sym}vpq)] unit {b} = 3;")


def name_source(s, t, name, keep):
    """A statement that introduces the name: written, as an alias, or generated by a prefix from either."""
    bare = [p for p in model.PREFIX_NAMES if name.startswith(p)]
    ways = ["unit", "constant", "dimension", "alias"] + (["prefix", "prefixed alias", "all prefixes"] if bare else [])
    way = t.pick([w for w in ways if w not in keep])
    if way in ("unit", "constant"):
        return way, f"{way} {name} = {t.pick(['2', '3'])};"
    if way == "dimension":
        return way, f"dimension {name}{t.pick(['', ' = 1'])};"
    u = s.fresh()
    if way == "alias":
        return way, f"#[alias({t.pick([name, s.fresh() + ', ' + name])})] unit {u} = 2;"
    p = bare[0]
    base = name[len(p):]
    if way == "prefix":
        return way, f"#[prefix({p})] unit {base} = 2;"
    if way == "all prefixes":
        return way, f"#[metric_prefixes] unit {base} = 2;"
    return way, f"#[prefix({p})] #[alias({base})] unit {u} = 2;"


@fault
def duplicate_name(s, t):
    """One name from two of the ways in which a name comes into being"""
    name = t.pick(["", t.pick(model.PREFIX_NAMES)]) + s.fresh()
    way, text = name_source(s, t, name, ())
    s.add(t, text)
    # (two ways that go through a prefix would also repeat the name without it, which is fine as another duplicate)
    s.add(t, name_source(s, t, name, () if t.chance(1, 2) else (way,))[1])


@fault
def duplicate_symbol_generated(s, t):
    """Prefixed symbols that are the same though the symbols themselves differ (deca "da" + x = deci "d" + ax),
    on aliases too, and against a base unit's symbol"""
    a, b = s.fresh(), s.fresh()
    deci = t.pick(["#[prefix(deci)]", "#[prefix(kilo, deci)]", "#[metric_prefixes]", "#[metric_prefixes(skip: deca, kilo)]"])
    deca = t.pick(["#[prefix(deca)]", "#[prefix(deca, milli)]", "#[metric_prefixes]", "#[metric_prefixes(skip: deci)]"])
    alias = lambda: t.pick(["", "", f"#[alias({s.fresh()})] "])
    one = f"#[symbol(vpq)] {alias()}{deca} unit {a} = {t.pick(['2', '3'])};"
    two = f"#[symbol(avpq)] {alias()}{deci} unit {b} = {t.pick(['2', '20'])};"
    if t.chance(1, 3):
        d = s.fresh("Vp")
        s.add(t, f"dimension {d};")
        two = f"#[base({d})] #[symbol(avpq)] {deci} unit {b};"
    s.add(t, one)
    s.add(t, two)


@fault
def dimension_in_unit(s, t):
    s.add(t, f"{t.pick(['unit', 'constant'])} {s.fresh()} = {value_expr(s, t, t.pick(s.dims))};")


@fault
def unit_in_dimension(s, t):
    a = s.fresh()
    s.add(t, t.pick([f"unit {a} = 2;", f"constant {a} = 2;", f"#[alias({a})] unit {s.fresh()} = 2;", f"#[prefix(kilo)] unit {a} = 2;"]))
    s.add(t, f"dimension {s.fresh('Vp')} = {dim_expr(s, t, a)};")


@fault
def base_of_unit(s, t):
    a = s.fresh()
    s.add(t, t.pick([f"unit {a} = 2;", f"constant {a} = 2;"]))
    s.add(t, f"#[base({a})] #[symbol(vpb{a})] unit {s.fresh()};")


@fault
def base_of_undefined(s, t):
    a = s.fresh()
    s.add(t, f"#[base(NoSuchDimension)] #[symbol(vpb{a})] unit {a};")


@fault
def base_of_derived(s, t):
    d = t.pick(s.derived) if s.derived else None
    if d is None:
        d = s.fresh("Vp")
        s.add(t, f"dimension {d} = {t.pick(s.dims)}^2;")
    a = s.fresh()
    s.add(t, f"#[base({d})] #[symbol(vpb{a})] unit {a};")


@fault
def second_base_unit(s, t):
    d = t.pick(s.bases)
    a, b = s.fresh(), s.fresh()
    if d not in [x[1] for x in s.base_units]:
        s.add(t, f"#[base({d})] #[symbol(vpb{a})] unit {a};")
    s.add(t, f"#[base({d})] #[symbol(vpb{b})] unit {b}{t.pick(['', ': ' + d])};")


@fault
def base_with_expression(s, t):
    a = s.fresh()
    s.add(t, f"#[base({t.pick(s.bases)})] #[symbol(vpb{a})] unit {a} = {t.pick(['1', '2'] + s.values[:1])};")


@fault
def base_twice(s, t):
    a, d = s.fresh(), s.fresh("Vp")
    s.add(t, f"dimension {d};")
    s.add(t, f"#[base({d})] #[base({t.pick([d] + s.bases)})] #[symbol(vpb{a})] unit {a};")


@fault
def unit_without_definition(s, t):
    a = s.fresh()
    s.add(t, t.pick([f"unit {a};", f"unit {a}: {t.pick(s.dims)};", f"#[symbol(vpb{a})] unit {a};", f"#[alias(vpb{a})] unit {a};", f"#[metric_prefixes] unit {a}: {t.pick(s.bases)};"]))


@fault
def base_unit_without_symbol(s, t):
    d = s.fresh("Vp")
    s.add(t, f"dimension {d};")
    s.add(t, f"#[base({d})] {t.pick(['', '#[metric_prefixes] ', '#[alias(vp_al)] '])}unit {s.fresh()}{t.pick(['', ': ' + d])};")


@fault
def type_missing(s, t):
    del s.head[t.draw(2) if len(s.head) > 1 else 0:][:1]
    if s.head:
        s.head.pop(t.draw(len(s.head)))


@fault
def type_repeated(s, t):
    s.add(t, t.pick(["quantity_type VpOther;", "dimension_type VpOther;", "quantity_type Quantity;", "dimension_type Dimension;"]))


@fault
def unknown_attribute(s, t):
    s.add(t, f"#[{t.pick(['sym(a)', 'prefixes(kilo)', 'metric', 'Base(' + s.dims[0] + ')', 'derive(Clone)', 'allow(unused)', 'doc', 'symbols(a)', 'aliases(vpa)', ''])}] unit {s.fresh()} = 2;")


@fault
def repeated_attribute(s, t):
    a = s.fresh()
    s.add(t, f"{t.pick(['#[symbol(vpa)] #[symbol(vpb)]', '#[symbol(vpa)] #[symbol(vpa)]', '#[metric_prefixes] #[metric_prefixes]', '#[metric_prefixes(skip: kilo)] #[metric_prefixes(skip: kilo)]', '#[symbol(vpa)] #[prefix(kilo)] #[symbol(vpc)]'])} unit {a} = 2;")


@fault
def attribute_without_arguments(s, t):
    s.add(t, f"#[{t.pick(['symbol', 'alias', 'prefix'])}] unit {s.fresh()} = 2;")


@fault
def base_without_arguments(s, t):
    a = s.fresh()
    s.add(t, f"#[{t.pick(['base', 'base()'])}] #[symbol(vpb{a})] unit {a};")


@fault
def malformed_arguments(s, t):
    args = [
        "symbol()", "symbol(vpa vpb)", "symbol(vpa, vpb)", 'symbol("vpa")', "symbol(3)", "symbol(°)" if False else "symbol(%)", "symbol = vpa", "symbol[vpa]", "symbol{vpa}", "symbol(vpa) vpb", "symbol(fn)",
        "alias(3)", "alias(vpa vpb)", 'alias("vpa")', "alias(vpa; vpb)", "alias(,)", "alias(vpa,,vpb)", "alias = vpa", "alias(fn)", "alias(_)",
        "prefix(notaprefix)", "prefix(kilo mega)", "prefix(Kilo)", "prefix(k)", "prefix(3)", "prefix(kilo,,mega)", "prefix(kilo; mega)", 'prefix("kilo")', "prefix(skip: kilo)", "prefix = kilo", "prefix(kilo, nomega)",
        "metric_prefixes(kilo)", "metric_prefixes(skip kilo)", "metric_prefixes(skip: nokilo)", "metric_prefixes(skip = kilo)", "metric_prefixes(skip: kilo mega)", "metric_prefixes(Skip: kilo)", "metric_prefixes(skip: kilo) x",
        "metric_prefixes = kilo", "metric_prefixes(skip: kilo, Mega)", "metric_prefixes(skip)", "metric_prefixes(skip: kilo; mega)", "metric_prefixes(foo: kilo)",
    ]
    s.add(t, f"#[{t.pick(args)}] unit {s.fresh()} = 2;")


@fault
def misplaced_attribute(s, t):
    a = t.pick(["symbol(vpa)", "alias(vpa)", "prefix(kilo)", "metric_prefixes", f"base({s.bases[0]})"])
    b = s.fresh("Vp")
    s.add(t, t.pick([f"#[{a}] dimension {b} = {s.bases[0]}^2;", f"#[{a}] dimension {b};", f"#[{a}] constant {b} = 2;"]))


@fault
def attribute_on_type(s, t):
    i = t.draw(len(s.head)) if s.head else 0
    if not s.head:
        return type_missing(s, t)
    s.head[i] = f"#[{t.pick(['symbol(vpa)', 'metric_prefixes', 'alias(vpa)', 'base(Length)'])}] " + s.head[i]


@fault
def dangling_attribute(s, t):
    s.statements.append(t.pick(["#[symbol(vpa)]", "#[symbol(vpa)] ;", "#", "#[]"]))


@fault
def number_in_dimension(s, t):
    d = t.pick(s.dims)
    x = t.pick(["2", "0", "1.5", "0.0", "-1", "1e3", "1000", "10.0"])
    s.add(t, f"dimension {s.fresh('Vp')} = {t.pick([x, x + ' * ' + d, d + ' * ' + x, d + ' / ' + x, '(' + x + ' * ' + d + ')', x + ' / ' + d, '1 / (' + x + ' ' + d + ')'])};")


@fault
def not_a_number(s, t):
    x = t.pick(['"2"', "true", "'a'", 'b"x"', "b'x'"])
    s.add(t, f"{t.pick(['unit', 'constant'])} {s.fresh()} = {t.pick([x, '2 * ' + x, x + ' * 2'])};")


@fault
def not_a_number_in_dimension(s, t):
    s.add(t, f"dimension {s.fresh('Vp')} = {t.pick(['true', chr(34) + 'a' + chr(34)])};")


@fault
def bad_exponent(s, t):
    v = t.pick(s.values) if s.values else "2"
    e = t.pick([f"^{v}", "^", "^1.5", "^2.0", "^(2)", "^()", "^^2", '^"2"', "^true", "^-", "^2^3", "^(1/)", "^(/2)", "^(1*2)", "^(1/2.0)", "^(1.0/2)", "^(1/2/3)", "^(1/x)", "^+2", "**2"])
    kind = t.pick(["unit", "constant", "dimension"])
    if kind == "dimension":
        v = t.pick(s.dims)
    s.add(t, f"{kind} {s.fresh('Vp')} = {t.pick(['', v + ' * '])}{v}{e};")


@fault
def zero_denominator(s, t):
    v = t.pick(s.values) if s.values else "2"
    kind = t.pick(["unit", "dimension"])
    if kind == "dimension":
        v = t.pick(s.dims)
    s.add(t, f"{kind} {s.fresh('Vp')} = {v}^({t.pick(['1', '0', '-1', '3'])}/0);")


@fault
def rational_exponent(s, t):
    """Refused without rational-dimensions (the rational check takes another fault)."""
    v = t.pick(s.values) if s.values else "2"
    kind = t.pick(["unit", "constant", "dimension"])
    if kind == "dimension":
        v = t.pick(s.dims)
    s.add(t, f"{kind} {s.fresh('Vp')} = {v}^({t.pick(['1/2', '2/1', '-3/2', '1 / 3'])});")


@fault
def bad_expression(s, t):
    v = t.pick(s.values) if s.values else "2"
    e = t.pick(["", f"{v} *", f"{v} /", f"* {v}", f"/ {v}", f"{v} * * {v}", f"{v} / / {v}", f"{v} + {v}", f"{v} - {v}", "()", f"({v}", f"{v} * ()", f"({v} *)", f"({v})^2", f"({v} {v})^-1", "2 3", f"{v} 2", f"{v} (2)", f"{v}, {v}", f"{v} = {v}", f"{v}.{v}", f"{v}()", f"[{v}]", "{2}", f"{v}; *", f"-{v}", f"{v} % 2", f"{v} ^ -", "2 * -", f"#{v}", f"{v}: {s.dims[0]}", "- 2 * -", "::", f"{v}::{v}"])
    if e == f"({v}":
        e = f"({v} * )"
    s.add(t, f"{t.pick(['unit', 'constant'])} {s.fresh()} = {e};")


@fault
def bad_dimension_expression(s, t):
    v = t.pick(s.dims)
    e = t.pick(["", f"{v} *", f"{v} /", f"* {v}", f"{v} + {v}", f"{v} - {v}", "()", f"({v} *)", f"({v})^2", "1 1", f"{v} 1", f"{v}, {v}", f"{v} = {v}", f"-{v}", f"{v}<f64>", f"&{v}", f"{v}?"])
    s.add(t, f"dimension {s.fresh('Vp')} = {e};")


@fault
def bad_statement(s, t):
    v = s.fresh()
    d = t.pick(s.dims)
    s.add(t, t.pick([
        f"unit;", f"unit = 2;", f"unit {v} 2;", f"unit {v}: = 2;", f"unit {v}: {d} 2;", f"unit {v}: 2;", f"unit {v}, vq = 2;", f"unit 3 = 3;", f'unit "{v}" = 3;', f"constant;", f"constant {v};", f"constant {v}: {d};",
        f"constant {v} 2;", f"constant = 2;", f"dimension;", f"dimension = {d};", f"dimension {v}: {d};", f"dimension {v}: {d} = {d};", f"dimension {v} {d};", f"dimension 3;", f"foo {v} = 2;", f"units {v} = 2;", f"Unit {v} = 2;",
        f"{v} = 2;", f"let {v} = 2;", f"const {v} = 2;", f"def unit {v} = 2;", f"unit fn = 2;", f"dimension fn;", "2;", f"unit {v} == 2;", f"unit {v} := 2;", f"unit {v} = 2,;", ";", f"unit {v} = 2;;", f"pub unit {v} = 2;", f"unit {v} =;",
        f"unit _ = 2;", f"unit {v}: {d}: {d} = 2;", f"unit {v}: {d} * {d} = 2;", f"unit {v}: {d}<f64> = 2;", f"quantity_type;", f"dimension_type 3;", f"quantity_type fn;", f"type {v} = {d};", "#[symbol(vpa)];",
    ]))


@fault
def missing_semicolon(s, t):
    # (a statement that does not end before one that starts with a keyword of the macro)
    a, b = s.fresh(), s.fresh()
    i = t.draw(len(s.statements) + 1)
    s.statements.insert(i, t.pick([f"dimension {s.fresh('Vp')} unit {a} = 2;", f"unit {a} = 2 #[symbol(vpa)] unit {b} = 2;", f"constant {a} = 2, constant {b} = 3;", f"unit {a} = 2 constant: {t.pick(s.dims)} = 3;", f"dimension {s.fresh('Vp')} = {t.pick(s.dims)} dimension {s.fresh('Vp')} = {t.pick(s.dims)};"]))


def gen_fault(cfg):
    names = [n for n in FAULTS if not (n == "rational_exponent" and cfg == "lrat") and not (n == "zero_denominator" and cfg == "lint")]

    def g(t):
        base = model.gen_system(t, rational=cfg == "lrat", max_units=4, max_constants=2, max_dims=3)
        s = Sys(base)
        plain = s.text()
        k = 1 + (t.draw(3) if t.chance(1, 4) else 0)
        chosen = [t.pick(names) for _ in range(k)]
        for n in chosen:
            FAULTS[n](s, t)
        return tape.Case(plain=plain, text=s.text(), faults=chosen, desc=" + ".join(chosen) + ":\n" + s.text(), nontrivial=True, cls=chosen[0] if k == 1 else "several faults")

    return g


def panicked(errors):
    for msg, code, rendered in errors:
        if "panicked" in msg or code in ("ICE", "HANG") or "internal compiler error" in msg:
            return rendered or msg
    return None


def evaluate_fault(cfg):
    def ev(cases):
        res = [None] * len(cases)
        # (the system without the fault stands for many others in C05; a third is enough here)
        idx = [i for i in range(len(cases)) if i % 3 == 0 or len(cases) < 30]
        for i, r in zip(idx, batch.accepted(cfg, [cases[i].plain for i in idx], emit="metadata", run=False)):
            if not r.ok:
                res[i] = (f"{cfg}:well-formed-rejected", "the system without the fault is rejected: " + r.error_text())
        for i, r in enumerate(batch.rejected(cfg, [c.text for c in cases])):
            if res[i]:
                continue
            sig = f"{cfg}:{'+'.join(sorted(set(cases[i].faults)))}"
            if r.ok:
                res[i] = (sig + ":accepted", "the malformed system is accepted")
            elif panicked(r.errors):
                res[i] = (sig + ":panic", "the macro panics: " + panicked(r.errors)[:1500])
            elif not r.located:
                res[i] = (sig + ":elsewhere", "no error points at the invocation: " + r.error_text())
        return res

    return ev


TOKENS = (
    ["quantity_type", "dimension_type", "dimension", "unit", "constant", "base", "symbol", "alias", "prefix", "metric_prefixes", "skip", "kilo", "milli", "exa", "fn", "r#fn", "r#in", "Self", "_", "x", "Length", "meter"]
    + ["*", "/", "^", ";", ":", ",", "=", "#", "-", "+", "1", "2", "0.5", "1e3", "-1", "3.0", '"s"', "true", "'c'", "::", "..", "&", "!", "$x" if False else "@", "->", "<", ">", "1u8", "2f32", "0x10", "1_0", "'a"]
)


def words(text):
    import re

    return re.findall(r"[A-Za-z_\u0080-\uffff][\w]*|\d[\w.]*(?:[eE][-+]?\d+)?|\S", text)


def balance(tokens):
    """Closes and drops brackets so that the text is a token tree."""
    out, stack = [], []
    pair = {"(": ")", "[": "]", "{": "}"}
    for x in tokens:
        if x in pair:
            stack.append(pair[x])
        elif x in pair.values():
            if not stack or stack[-1] != x:
                continue
            stack.pop()
        out.append(x)
    return out + stack[::-1]


def gen_soup(cfg):
    def g(t):
        if t.chance(1, 4):
            toks = [t.pick(TOKENS + ["(", ")", "[", "]", "{", "}"] * 2) for _ in range(t.draw(40))]
            if t.chance(1, 2):
                toks = ["quantity_type", "Quantity", ";", "dimension_type", "Dimension", ";", "dimension", "Length", ";"] + toks
            cls = "soup"
        else:
            s = model.gen_system(t, rational=cfg == "lrat", max_units=4, max_constants=2, max_dims=3)
            text = "".join(Sys(s).head) + "".join(d.text() for d in s.defs)
            toks = words(text)
            for _ in range(1 + t.draw(3)):
                i = t.draw(len(toks)) if toks else 0
                op = t.draw(6)
                if not toks:
                    break
                if op == 0:
                    del toks[i]
                elif op == 1:
                    toks.insert(i, t.pick(TOKENS))
                elif op == 2:
                    toks[i] = t.pick(TOKENS)
                elif op == 3:
                    toks.insert(i, toks[t.draw(len(toks))])
                elif op == 4:
                    j = t.draw(len(toks))
                    toks[i], toks[j] = toks[j], toks[i]
                else:
                    toks[i] = toks[t.draw(len(toks))]
            cls = "edited"
        body = " ".join(balance(toks))
        return tape.Case(text=f"diman::unit_system!(\n{body}\n);\n", desc=body[:1200], nontrivial=True, cls=cls)

    return g


def evaluate_soup(cfg):
    def ev(cases):
        res = [None] * len(cases)
        # only what the macro says matters; texts it accepts may still be rejected by rustc
        for i, r in enumerate(batch.outcomes(cfg, [c.text for c in cases])):
            p = panicked(r.errors)
            if p:
                res[i] = (f"{cfg}:soup-panic", "the macro panics: " + p[:1500])
        return res

    return ev


PARTS = {}
for _c in ("lint", "lrat"):
    PARTS[f"faults-{_c}"] = (gen_fault(_c), evaluate_fault(_c))
    PARTS[f"soup-{_c}"] = (gen_soup(_c), evaluate_soup(_c))


def run(rep):
    for c in core.usable(rep, ["lint", "lrat"]):
        tape.run(rep, f"faults-{c}", core.scale(700, 10000), *PARTS[f"faults-{c}"], limit=6)
        tape.run(rep, f"soup-{c}", core.scale(400, 10000), *PARTS[f"soup-{c}"])


def replay(f):
    return tape.replay(f, *PARTS[f["part"]])
