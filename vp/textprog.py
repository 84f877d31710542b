"""Programs about the text form of quantities over generated systems (C12, C13, C14)."""
import struct
from decimal import Decimal
from fractions import Fraction

from . import batch, core, model, tape

FORMATS = ["", ".3", "8.2", "+", "08.2", "#", ".0", "<12", "^+14.1", ">9", "*^20.4"]
NUMBERS = ["1", "0", "2.5", "-1", "1e3", "-0.125", "1e-7", "123456.789", "7", "0.1", "-3E5", "+4", "1e10", "5.", ".5"]
SYSTEM_TYPES = [("Quantity", "Dimension"), ("Amount", "Kind"), ("Qty", "Dim")]


def gen_dim(t, s, rational):
    """A dimension: that of a unit, a base, or arbitrary small exponents."""
    bases = s.bases()
    k = t.draw(6)
    d = {}
    if k == 0:
        d = {t.pick(bases): Fraction(1)}
    elif k in (1, 2) and s.units():
        d = dict(s.look(t.pick(list(s.units())))[0])
    elif k == 3 and s.dimensions():
        d = dict(s.look(t.pick(list(s.dimensions())))[0])
    else:
        for b in bases:
            e = t.pick([0, 1, -1, 2, -2, 3, -3, 4, -7])
            e = Fraction(e, t.pick([1, 1, 2, 3, 6])) if rational else Fraction(e)
            if e:
                d[b] = e
    if t.chance(1, 5):
        b = t.pick(bases)
        d = model.dmul(d, {b: Fraction(t.pick([1, -1, 2]), t.pick([1, 2]) if rational else 1)})
    return d


def gen_bits(t, storage):
    k = t.draw(6)
    if k < 3:
        v = float(t.pick(NUMBERS))
        return struct.unpack("<Q", struct.pack("<d", v))[0] if storage == "f64" else struct.unpack("<I", struct.pack("<f", v))[0]
    special = t.pick(["inf", "-inf", "nan", "-0.0", "1e300", "5e-324", "1e-40", "3.4e38", "0.3333333333333333"])
    if k == 3:
        v = float(special)
        if storage == "f64":
            return struct.unpack("<Q", struct.pack("<d", v))[0]
        return struct.unpack("<I", struct.pack("<f", v if abs(v) < 3.4028e38 or v in (float("inf"), float("-inf")) or v != v else 3.4e38))[0]
    if storage == "f64":
        return t.draw(1 << 32) << 32 | t.draw(1 << 32)
    return t.draw(1 << 32)


def exponents(s, d, rational):
    if rational:
        return ", ".join(f"{model.snake(b)}: Exponent::new({Fraction(d.get(b, 0)).numerator}, {Fraction(d.get(b, 0)).denominator})" for b in s.bases())
    return ", ".join(f"{model.snake(b)}: {int(d.get(b, 0))}" for b in s.bases())


def qty(s, storage, d, rational):
    return f"{s.quantity}<{storage}, {{ {s.dimension} {{ {exponents(s, d, rational)} }} }}>"


def gen_sys(t, rational, **kw):
    q, d = t.pick(SYSTEM_TYPES)
    pool = [n for n in model.DIMENSION_NAMES if n not in ("Qty", "Dim")]
    return model.gen_system(t, rational=rational, max_bases=4, max_dims=2, max_units=5, max_constants=0, quantity=q, dimension=d, dimension_pool=pool, **kw)


class TextCase(tape.Case):
    pass


def make_gen(what, cfg):
    rational = cfg == "lrat"

    def gen(t):
        s = gen_sys(t, rational, all_base_units=what != "debug" or t.chance(3, 4))
        items, desc = [], []
        for i in range(8):
            storage = t.pick(["f64", "f32"])
            d = gen_dim(t, s, rational)
            if what == "read":
                it = gen_text(t, s, storage, rational)
                if it is None:
                    continue
                desc.append(f"{it['text']!r} as {storage} {model.show_dim(it['dim'])}: {it['why'] or 'well-formed'}")
            else:
                other = model.dmul(d, {t.pick(s.bases()): Fraction(t.pick([1, -1, 2, -3]), t.pick([1, 2, 3]) if rational else 1)})
                it = dict(storage=storage, dim=d, bits=gen_bits(t, storage), fmt=t.pick(FORMATS) if what == "debug" else "", other=other)
                desc.append(f"{storage} bits {it['bits']:#x} {model.show_dim(d)} {{:{it['fmt']}?}}")
            items.append(it)
        nt = len(items) > 0 and any(len(i["dim"]) >= 1 for i in items)
        return TextCase(system=s, items=items, cfg=cfg, desc=s.text() + "\n".join(desc), nontrivial=nt, cls=cfg)

    return gen


def gen_text(t, s, storage, rational):
    syms = {x[2]: x for x in s.units().values() if x[2]}
    if not syms:
        return None
    number = t.pick(NUMBERS)
    dim, factor = {}, Decimal(1)
    parts = []
    mag = Decimal(0)
    rounding = Fraction(0)
    named = {x[2]: n for n, x in s.units().items() if x[2]}
    try:
        for _ in range(t.draw(5)):
            sym = t.pick(list(syms))
            k = t.draw(6)
            if k < 3:
                e, text = Fraction(1), sym
            elif rational and k == 5:
                e = Fraction(t.range(-5, 5), t.pick([1, 2, 3, 4, 6]))
                text = f"{sym}^{e.numerator}/{e.denominator}" if e.denominator > 1 or t.chance(1, 2) else f"{sym}^{e.numerator}"
            else:
                e = Fraction(t.range(-4, 4))
                text = f"{sym}^{e}"
            d, x, _ = syms[sym]
            dim = model.dmul(dim, model.dpow(d, e))
            rounding += (abs(e) + 1) * (s.rounding(named[sym]) + 1)
            p = model.power(x, e)
            factor = model.check_factor(factor * p)
            mag = max(mag, abs(Decimal(p).log10()) if p > 0 else abs((-Decimal(p)).log10()), abs(abs(factor).log10()))
            parts.append(text)
    except model.OutOfRange:
        return None
    want = Decimal(number) * factor
    if want != 0 and Decimal(number).is_finite():
        mag = max(mag, abs(abs(want).log10()), abs(abs(Decimal(number)).log10()))
    if mag > (30 if storage == "f32" else 250):
        storage = "f64"
    if mag > 250:
        return None
    sep = t.pick([" ", " ", "  ", "\t"])
    why = None
    k = t.draw(12)
    base = t.pick(s.bases())
    names = {model.unraw(n) for n in s.units()}
    if k == 7:
        dim = model.dmul(dim, {base: Fraction(t.pick([1, -1, 2]), t.pick([1, 2]) if rational else 1)})
        why = "another dimension"
    elif k == 8:
        bad = t.pick([n for n in sorted(names) if n not in syms] + ["qqq", "K\u00b2", "*"])
        if bad in syms:
            return None
        parts.insert(t.draw(len(parts) + 1), bad)
        why = "an unknown symbol"
    elif k == 9:
        bad = t.pick(["{}^", "{}^x", "{}^1^1", "{}^1.5", "{}^2/0", "{}^^2", "^2", "{}*{}", "{}^1/", "{}^/1", "{}^--1"])
        sym = t.pick(list(syms))
        parts.insert(t.draw(len(parts) + 1), bad.replace("{}", sym))
        if parts and bad == "{}*{}" and bad.replace("{}", sym) in syms:
            return None
        dim = model.dmul(dim, syms[sym][0])
        why = "a malformed unit"
    elif k == 10:
        number = t.pick(["", "x", "1,5", "--1", "1.2.3", "1e", "0x10", "1_000", "(1)"])
        if number == "" and not parts:
            pass
        elif number == "":
            # the first token must not be a number itself
            if parts[0].lower() in ("inf", "nan", "infinity"):
                return None
        why = "a malformed number"
    text = sep.join(([number] if number != "" else []) + parts)
    if t.chance(1, 5):
        text = t.pick([" ", "\t"]) + text + t.pick([" ", "  "])
    return dict(storage=storage, dim=dim, text=text, want=want, why=why, rounding=float(rounding))


def rust_str(x):
    return '"' + "".join(c if c.isascii() and c not in '"\\' and c.isprintable() else f"\\u{{{ord(c):x}}}" for c in x) + '"'


def source(c, what):
    s, rational = c.system, c.cfg == "lrat"
    body = ""
    for i, it in enumerate(c.items):
        ty = qty(s, it["storage"], it["dim"], rational)
        if what == "debug":
            body += f"""        {{ let v = {it['storage']}::from_bits({it['bits']}); let q = <{ty}>::new_unchecked(v);
          println!("text {i}\\u{{1}}{{}}\\u{{1}}{{}}", format!("{{:{it['fmt']}}}", v), format!("{{:{it['fmt']}?}}", q)); }}\n"""
        elif what == "write":
            other = qty(s, it["storage"], it["other"], rational)
            body += f"""        {{ let v = {it['storage']}::from_bits({it['bits']}); let q = <{ty}>::new_unchecked(v);
          let same = |r: Option<{it['storage']}>| r.map_or(false, |r| r.to_bits() == v.to_bits() || (r.is_nan() && v.is_nan()));
          let y = serde_yaml::to_string(&q).unwrap(); let j = serde_json::to_string(&Some(vec![q])).unwrap();
          let y1 = serde_yaml::from_str::<{ty}>(&y).map(|q| q.value_unchecked()); let j1 = serde_json::from_str::<Option<Vec<{ty}>>>(&j).map(|q| q.unwrap()[0].value_unchecked());
          if !same(y1.as_ref().ok().copied()) {{ println!("bad {i}\\u{{1}}YAML {{y:?}} reads as {{y1:?}}, was {{v:?}}"); }}
          if !same(j1.as_ref().ok().copied()) {{ println!("bad {i}\\u{{1}}JSON {{j:?}} reads as {{j1:?}}, was {{v:?}}"); }}
          if let Ok(x) = serde_yaml::from_str::<{other}>(&y) {{ println!("bad {i}\\u{{1}}YAML {{y:?}} is read as a quantity of another dimension ({model.show_dim(it['other'])}): {{:?}}", x.value_unchecked()); }}
          if let Ok(x) = serde_json::from_str::<Option<Vec<{other}>>>(&j) {{ println!("bad {i}\\u{{1}}JSON {{j:?}} is read as a quantity of another dimension ({model.show_dim(it['other'])}): {{}}", x.unwrap().len()); }}
        }}\n"""
        else:
            text = rust_str(it["text"])
            body += f"""        {{ let text = {text}; let j = serde_json::to_string(text).unwrap();
          match serde_json::from_str::<{ty}>(&j) {{ Ok(q) => println!("read {i}\\u{{1}}{{:e}}", q.value_unchecked()), Err(_) => println!("refused {i}") }} }}\n"""
    head = s.text() + model.observer(s, rational, dims=[], constants=[], extra="        vp_items();\n" if body else "")
    return head + ("    fn vp_items() {\n" + body + "    }\n" if body else "")


def coherent(s, lines):
    """[(symbol, dimension)] of the units with factor one"""
    got = model.parse_report(lines)
    out = []
    for n, (d, x, sym) in s.units().items():
        if sym and got[f"unit {n}"][1] == 1.0:
            out.append((sym, model.dkey(d)))
    return out


def check_text(s, coh, it, number, text):
    if not text.startswith(number):
        return f"the text {text!r} does not begin with the number {number!r}"
    suffix = text[len(number):]
    dim = it["dim"]
    fitting = [sym for sym, d in coh if d == model.dkey(dim)]
    if fitting:
        if suffix[1:] in fitting and suffix[0] == " ":
            return None
        return f"the text {text!r} should end in one of the units {fitting}"
    if not dim:
        return None if suffix == "" else f"the text {text!r} of a dimensionless quantity has a unit"
    tokens = suffix.split(" ")
    if tokens[0] != "" or len(tokens) != len(dim) + 1:
        return f"the text {text!r} should have {len(dim)} units: {model.show_dim(dim)}"
    left = dict(dim)
    for tok in tokens[1:]:
        sym, hat, e = tok.partition("^")
        try:
            e = Fraction(e) if hat else Fraction(1)
        except (ValueError, ZeroDivisionError):
            return f"the text {text!r} has a malformed exponent"
        if hat and (e == 1 or tok != f"{sym}^{e}"):
            return f"the exponent in {tok!r} is not in its simplest form"
        for b in list(left):
            symbols = [x for x, d in coh if d == model.dkey({b: 1})]
            if left[b] == e and (sym in symbols or (not symbols and sym == model.snake(b))):
                del left[b]
                break
        else:
            return f"the text {text!r} should denote {model.show_dim(dim)}, it has {tok!r}"
    return None


def make_evaluate(what, cfg):
    def evaluate(cases):
        out = []
        cases_ = list(cases)
        for c, r in zip(cases_, batch.accepted(cfg, [source(c, what) for c in cases_])):
            out.append(judge(c, r, what))
        return out

    return evaluate


def judge(c, r, what):
    s = c.system
    if not r.ok:
        return "rejected", "a well-formed program is rejected: " + r.error_text()
    if r.panic is not None:
        return "panic", r.panic
    if what == "debug":
        coh = coherent(s, r.out)
        n = 0
        for l in r.out:
            if l.startswith("text "):
                i, number, text = l[5:].split("\x01")
                n += 1
                m = check_text(s, coh, c.items[int(i)], number, text)
                if m:
                    return "text", m
        if n != len(c.items):
            return "text", f"{n} of {len(c.items)} texts were printed"
        return None
    if what == "write":
        bad = [l.split("\x01")[1] for l in r.out if l.startswith("bad ")]
        return ("round-trip", bad[0]) if bad else None
    seen = 0
    for l in r.out:
        p = l.split("\x01")[0].split(" ")
        if p[0] not in ("read", "refused"):
            continue
        seen += 1
        it = c.items[int(p[1])]
        if p[0] == "refused":
            if not it["why"]:
                return "refused", f"{it['text']!r} is refused as {it['storage']} of {model.show_dim(it['dim'])}"
            continue
        got = float(l.split("\x01")[1])
        if it["why"]:
            return "read", f"{it['text']!r} with {it['why']} is read as {it['storage']} {got!r} of {model.show_dim(it['dim'])}"
        if not model.close(got, it["want"], max(1e-11, 8e-16 * it["rounding"]) if it["storage"] == "f64" else 2e-6):
            return "value", f"{it['text']!r} is read as {got!r}, want {float(it['want'])!r}"
    if seen != len(c.items):
        return "read", f"{seen} of {len(c.items)} texts were read"
    return None


CFGS = ["lint", "lrat"]


def run(rep, what, quick, thorough):
    for cfg in core.usable(rep, CFGS):
        tape.run(rep, f"{what}-{cfg}", core.scale(quick, thorough), make_gen(what, cfg), make_evaluate(what, cfg))


def replay(f, what):
    cfg = f["part"].split("-")[1]
    return tape.replay(f, make_gen(what, cfg), make_evaluate(what, cfg))
