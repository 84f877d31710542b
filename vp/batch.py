"""Compiling and running many generated modules at once."""
import concurrent.futures
import os
import shutil
import subprocess

from . import core

HEADER = """#![allow(incomplete_features)]
#![feature(generic_const_exprs, adt_const_params)]
"""


class Result:
    """What became of one module: errors (message, code, rendered), or the lines it printed."""

    def __init__(self):
        self.errors = []
        self.out = None
        self.panic = None
        self.located = True  # some error points into the module

    @property
    def ok(self):
        return not self.errors

    def error_text(self):
        return "\n".join(e[2].strip() for e in self.errors[:3])[:3000]


def _write(path, prelude, modules):
    text = HEADER + prelude + "\n"
    spans = []
    line = text.count("\n") + 1
    for i, (k, m) in enumerate(modules):
        body = f"pub mod m{k} {{\n{m}\n}}\n"
        n = body.count("\n")
        spans.append((line, line + n - 1))
        line += n
        text += body
    return text, spans


def _compile(cfg, prelude, modules, workdir, name, emit, run):
    """modules: list of (index, source). Returns (compiled, per-module errors, stray errors, binary)."""
    text, spans = _write(None, prelude, modules)
    main = "fn main() {\n"
    if run:
        main += "    std::panic::set_hook(Box::new(|_| {}));\n"
        for k, _ in modules:
            main += f'    println!("@@ {k}"); if let Err(e) = std::panic::catch_unwind(m{k}::report) {{ println!("@@panic {{}}", e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default().replace("\\n", " ")); }}\n'
    main += "}\n"
    path = os.path.join(workdir, name + ".rs")
    with open(path, "w") as f:
        f.write(text + main)
    try:
        c = core.rustc(cfg, path, emit=emit, timeout=60 + 2 * len(modules))
    except core.RustcTimeout:
        if len(modules) > 1 or core.expands(cfg, path):
            raise
        return core.Compiled(False, [], None, "", False), {modules[0][0]: [("the macro does not finish", "HANG", "the macro does not finish")]}, [], None
    per = {k: [] for k, _ in modules}
    stray = []
    for msg, code, lines, rendered in c.errors:
        hit = set()
        for lo, hi, primary in lines:
            for (a, b), (k, _) in zip(spans, modules):
                if a <= lo and hi <= b:
                    hit.add((k, primary))
        owners = {k for k, p in hit if p} or {k for k, _ in hit}
        if owners:
            for k in owners:
                per[k].append((msg, code, rendered))
        else:
            stray.append((msg, code, rendered))
    return c, per, stray, path[:-3] + ".bin"


def _run(binary, timeout):
    env = dict(core.harness_env(None), RUST_BACKTRACE="0")
    try:
        r = subprocess.run([binary], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd=os.path.dirname(binary))
    except subprocess.TimeoutExpired as e:
        r = subprocess.CompletedProcess(binary, -14, e.stdout or b"", f"does not finish within {timeout} s".encode())
    out, cur = {}, None
    for line in r.stdout.decode("utf8", "replace").split("\n"):
        if line.startswith("@@ "):
            cur = int(line[3:])
            out[cur] = []
        elif cur is not None and line:
            out[cur].append(line)
    return r.returncode, out, r.stderr.decode("utf8", "replace")


def _chunk(cfg, prelude, chunk, emit, run, workdir, name, results, depth=0):
    try:
        c, per, stray, binary = _compile(cfg, prelude, chunk, workdir, f"{name}", emit, run)
    except core.RustcTimeout:
        # (seen with several modules that all have errors)
        if len(chunk) == 1:
            raise
        for k, m in chunk:
            _chunk(cfg, prelude, [(k, m)], emit, run, workdir, f"{name}-{k}", results, depth + 1)
        return
    if c.ok:
        if run:
            rc, out, err = _run(binary, 30 + 10 * len(chunk))
            for k, _ in chunk:
                if k in out:
                    lines = out[k]
                    if any(l.startswith("@@panic ") for l in lines):
                        results[k].panic = [l for l in lines if l.startswith("@@panic ")][0][8:]
                    results[k].out = [l for l in lines if not l.startswith("@@")]
            if rc != 0:
                missing = [k for k, _ in chunk if k not in out] or [chunk[-1][0]]
                if rc == -9 or len(chunk) == 1:
                    if rc == -9:
                        raise core.CheckError(f"{binary} was killed")
                    results[chunk[0][0]].panic = f"the program ended with {rc}: {err[-500:]}"
                else:
                    # the last module that started is the one that ended the process
                    for i, (k, m) in enumerate(chunk):
                        _chunk(cfg, prelude, [(k, m)], emit, run, workdir, f"{name}-{k}", results, depth + 1)
        for ext in (".bin", ".rmeta", ".rs"):
            p = os.path.join(workdir, name + ext)
            if os.path.exists(p):
                os.unlink(p)
        return
    guilty = [k for k, _ in chunk if per[k]]
    if len(chunk) == 1:
        k = chunk[0][0]
        errs = per[k] + stray
        if not errs:
            if c.ice:
                errs = [("internal compiler error", "ICE", c.stderr[-1500:])]
            else:
                raise core.CheckError("rustc failed without an error: " + c.stderr[-2000:])
        results[k].errors = errs
        return
    if not guilty:
        # nothing can be attributed: try the modules one by one
        for k, m in chunk:
            _chunk(cfg, prelude, [(k, m)], emit, run, workdir, f"{name}-{k}", results, depth + 1)
        return
    for k in guilty:
        results[k].errors = per[k]
    rest = [(k, m) for k, m in chunk if k not in guilty]
    if rest:
        _chunk(cfg, prelude, rest, emit, run, workdir, f"{name}r", results, depth + 1)


def accepted(cfg, modules, prelude="", size=6, emit="link", run=True):
    """For programs that should compile: a Result for each module. With run, every module
    has a function `report` that prints."""
    results = [Result() for _ in modules]
    work = core.scratch("acc")
    try:
        indexed = list(enumerate(modules))
        chunks = [indexed[i:i + size] for i in range(0, len(indexed), size)]
        with concurrent.futures.ThreadPoolExecutor(core.JOBS) as ex:
            list(ex.map(lambda a: _chunk(cfg, prelude, a[1], emit, run, work, f"b{a[0]}", results), enumerate(chunks)))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return results


def rejected(cfg, modules, prelude="", size=24, emit="metadata"):
    """For programs that should not compile: a Result for each module. A module without an
    error of its own in a batch is compiled alone (errors of an earlier phase of the
    compiler hide those of a later one) before it counts as accepted."""
    results = [Result() for _ in modules]
    work = core.scratch("rej")

    def one(a):
        n, chunk = a
        try:
            c, per, stray, _ = _compile(cfg, prelude, chunk, work, f"b{n}", emit, False)
        except core.RustcTimeout:
            return chunk
        left = []
        for k, m in chunk:
            if per[k]:
                results[k].errors = per[k]
            else:
                left.append((k, m))
        return left

    def alone(km):
        k, m = km
        try:
            c, per, stray, _ = _compile(cfg, prelude, [(k, m)], work, f"s{k}", "link", False)
        except core.RustcTimeout:
            # (the macro comes to an end, so this is rustc's; in any case the program is not accepted)
            results[k].errors = [("rustc does not finish", "TIMEOUT", "")]
            return
        if not c.ok:
            results[k].errors = per[k] + stray
            results[k].located = bool(per[k])
            if not results[k].errors:
                if c.ice:
                    results[k].errors = [("internal compiler error", "ICE", c.stderr[-1500:])]
                else:
                    raise core.CheckError("rustc failed without an error: " + c.stderr[-2000:])
        else:
            p = os.path.join(work, f"s{k}.bin")
            if os.path.exists(p):
                os.unlink(p)

    try:
        indexed = list(enumerate(modules))
        chunks = [indexed[i:i + size] for i in range(0, len(indexed), size)]
        with concurrent.futures.ThreadPoolExecutor(core.JOBS) as ex:
            left = [x for l in ex.map(one, enumerate(chunks)) for x in l]
            list(ex.map(alone, left))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return results


def outcomes(cfg, modules, prelude="", size=24):
    """The errors of modules that may or may not compile, from one compilation per batch
    (so only errors of the phase that ends it)."""
    results = [Result() for _ in modules]
    work = core.scratch("out")

    def one(a):
        n, chunk = a
        try:
            c, per, stray, _ = _compile(cfg, prelude, chunk, work, f"o{n}", "metadata", False)
        except core.RustcTimeout:
            if len(chunk) == 1:
                # (rustc itself; what the macro says is all that matters here)
                return
            c, per, stray = core.Compiled(False, [], None, "", False), {k: [] for k, _ in chunk}, [None]
        for k, m in chunk:
            results[k].errors = per[k]
        if stray or (c.ice and not any(e[1] == "ICE" for k, _ in chunk for e in per[k])):
            for k, m in chunk:
                try:
                    c, per, stray, _ = _compile(cfg, prelude, [(k, m)], work, f"o{n}-{k}", "metadata", False)
                except core.RustcTimeout:
                    continue
                results[k].errors = per[k] + stray + ([("internal compiler error", "ICE", c.stderr[-1500:])] if c.ice else [])

    try:
        indexed = list(enumerate(modules))
        with concurrent.futures.ThreadPoolExecutor(core.JOBS) as ex:
            list(ex.map(one, enumerate([indexed[i:i + size] for i in range(0, len(indexed), size)])))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return results
