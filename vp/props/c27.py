"""C27: the expansion of a unit system is a function of its text."""
import concurrent.futures
import os
import re
import shutil
import subprocess
import json

from .. import core, model, tape
from . import c07

RULE = (
    "expansion: a generated well-formed system, expanded by several processes, and once more with other whitespace and comments between its tokens; non-trivial if some definition has a dimension with "
    "two or more base dimensions // diagnostics: a generated system with one to five faults, rejected by several processes; non-trivial if it has at least two faults"
)
SIZE = 12


def respace(t, text):
    """The same tokens with other white space, line breaks and comments between them."""
    out = []
    for line in text.split("\n"):
        i = 0
        while i < len(line):
            # (only at spaces, so that no token is split)
            c = line[i]
            if c == " " and not line[i - 1:i] == "'":
                out.append(t.pick([" ", " ", "  ", "\n", "\t", " /* VP */ ", "\n// VP\n", " /* unit VP = 1; */ "]))
            else:
                out.append(c)
            i += 1
        out.append(t.pick(["\n", "\n", "\n\n", " ", "\n// VP meter\n"]))
    return "".join(out)


def gen_expansion(cfg):
    def g(t):
        s = model.gen_system(t, rational=cfg == "lrat", max_units=8, max_constants=3, max_dims=6)
        text = s.text()
        wide = any(len([e for e in d.values() if e]) >= 2 for d in s.dimensions().values()) or any(len([e for e in x[0].values() if e]) >= 2 for x in s.units().values())
        return tape.Case(text=text, other=respace(t, text), desc=text, nontrivial=wide, cls=cfg)

    return g


def gen_diagnostics(cfg):
    names = [n for n in c07.FAULTS if not (n == "rational_exponent" and cfg == "lrat") and not (n == "zero_denominator" and cfg == "lint")]

    def g(t):
        # (the faults that the parser does not stop at show what the passes after it report)
        late = [n for n in names if n.startswith(("undefined", "recursive", "duplicate", "dimension_in", "unit_in", "base_of", "second_base", "type_", "unprefixed", "skipped"))]
        s = c07.Sys(model.gen_system(t, rational=cfg == "lrat", max_units=5, max_constants=2, max_dims=3))
        chosen = [t.pick(late if t.chance(5, 6) else names) for _ in range(1 + t.draw(5))]
        for n in chosen:
            c07.FAULTS[n](s, t)
        return tape.Case(text=s.text(), other=None, desc=" + ".join(chosen) + ":\n" + s.text(), nontrivial=len(chosen) > 1, cls=cfg)

    return g


def rustc(cfg, path, expand):
    args = ["rustc"] + list(core.config(cfg)) + (["-Zunpretty=expanded"] if expand else ["--emit=metadata", "-o", path + ".out"]) + ["--error-format=json", path]
    e = dict(core.env(), CARGO_MANIFEST_DIR=os.path.join(core.RS, "probe"))
    try:
        r = subprocess.run(args, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=200)
    except subprocess.TimeoutExpired:
        return None
    return r


def write(work, name, texts):
    path = os.path.join(work, name + ".rs")
    src = "#![feature(generic_const_exprs, adt_const_params)]\n#![allow(warnings)]\n"
    spans = []
    for i, x in enumerate(texts):
        src += f"pub mod vp_module_{i} {{\n{x}\n}}\n"
        spans.append(src.count("\n"))
    with open(path, "w") as f:
        f.write(src + "fn main() {}\n")
    return path, spans


def bodies(out, n):
    """The expansion of each module, without white space and comments"""
    parts = re.split(r"^pub mod vp_module_(\d+) \{", out, flags=re.M)
    r = [None] * n
    for i, b in zip(parts[1::2], parts[2::2]):
        b = re.sub(r"/\*.*?\*/|//[^\n]*VP[^\n]*", "", b)
        r[int(i)] = re.sub(r"\s+", "", b)
    return r


def first_difference(a, b):
    k = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return f"...{a[max(0, k - 120):k + 160]}... and ...{b[max(0, k - 120):k + 160]}..."


def over(n, one, size):
    chunks = [list(range(i, min(n, i + size))) for i in range(0, n, size)]
    with concurrent.futures.ThreadPoolExecutor(core.JOBS) as ex:
        list(ex.map(one, chunks))


def evaluate_expansion(cfg):
    def ev(cases):
        res = [None] * len(cases)
        work = core.scratch("det")

        def one(idx):
            texts = [cases[i].text for i in idx]
            a, _ = write(work, f"a{idx[0]}", texts)
            b, _ = write(work, f"b{idx[0]}", [cases[i].other for i in idx])
            runs = [rustc(cfg, p, True) for p in (a, a, a, b)]
            if any(r is None or r.returncode != 0 for r in runs):
                if len(idx) > 1:
                    for i in idx:
                        one([i])
                elif any(r is not None and r.returncode == 0 for r in runs):
                    res[idx[0]] = (f"{cfg}:accepted", "the system is expanded by one process or with one spacing only")
                # (a system that is never accepted: C05 and C07)
                return
            outs = [bodies(r.stdout, len(idx)) for r in runs]
            for k, i in enumerate(idx):
                for o in outs[1:3]:
                    if o[k] != outs[0][k]:
                        res[i] = (f"{cfg}:expansion", "two processes expand the same text differently: " + first_difference(outs[0][k], o[k]))
                if not res[i] and outs[3][k] != outs[0][k]:
                    res[i] = (f"{cfg}:spacing", "white space and comments between tokens change the expansion: " + first_difference(outs[0][k], outs[3][k]) + "\n" + cases[i].other)

        try:
            over(len(cases), one, SIZE)
        finally:
            shutil.rmtree(work, ignore_errors=True)
        return res

    return ev


def messages(r, spans, n):
    out = [[] for _ in range(n)]
    for line in r.stderr.splitlines():
        if not line.startswith("{"):
            continue
        m = json.loads(line)
        if not m.get("spans") or m.get("level") != "error":
            continue
        at = min(s["line_start"] for s in m["spans"])
        for k, end in enumerate(spans):
            if at <= end:
                out[k].append(m.get("rendered") or m["message"])
                break
    return out


def evaluate_diagnostics(cfg):
    def ev(cases):
        res = [None] * len(cases)
        work = core.scratch("det")

        def one(idx):
            a, spans = write(work, f"d{idx[0]}", [cases[i].text for i in idx])
            runs = [rustc(cfg, a, True) for _ in range(4)]
            if any(r is None for r in runs):
                return
            outs = [messages(r, spans, len(idx)) for r in runs]
            for k, i in enumerate(idx):
                for o in outs[1:]:
                    if o[k] != outs[0][k] and not res[i]:
                        x = next((x for x in zip(outs[0][k] + [""], o[k] + [""]) if x[0] != x[1]), ("", ""))
                        res[i] = (f"{cfg}:diagnostics", f"two processes reject the same text differently:\n{x[0][:700]}\nand\n{x[1][:700]}")

        try:
            over(len(cases), one, 2 * SIZE)
        finally:
            shutil.rmtree(work, ignore_errors=True)
        return res

    return ev


PARTS = {}
for _c in ("lint", "lrat"):
    PARTS[f"expansion-{_c}"] = (gen_expansion(_c), evaluate_expansion(_c))
    PARTS[f"diagnostics-{_c}"] = (gen_diagnostics(_c), evaluate_diagnostics(_c))


def run(rep):
    for c in core.usable(rep, ["lint", "lrat"]):
        tape.run(rep, f"expansion-{c}", core.scale(400, 6000), *PARTS[f"expansion-{c}"])
        tape.run(rep, f"diagnostics-{c}", core.scale(300, 6000), *PARTS[f"diagnostics-{c}"])


def replay(f):
    return tape.replay(f, *PARTS[f["part"]])
