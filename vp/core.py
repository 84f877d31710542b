"""Building /repo's crate, running rustc on generated code, and reporting."""
import concurrent.futures
import fcntl
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, ".build")
RS = os.path.join(VERIF, "rs")
JOBS = 8
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))
THOROUGH = TIER == "thorough"

TOOLCHAIN = "nightly-2024-10-20-x86_64-unknown-linux-gnu"


def scale(quick, thorough=None):
    return (thorough if thorough is not None else quick * 10) if THOROUGH else quick


class CheckError(Exception):
    """The check could not decide anything (an error exit, never a violation)."""


def env(target_dir=None):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "TRYBUILD", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET", "RUSTDOCFLAGS"):
        e.pop(k, None)
    e.update(
        HOME="/root",
        PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        RUSTUP_TOOLCHAIN=TOOLCHAIN,
        CARGO_NET_OFFLINE="true",
        CARGO_INCREMENTAL="0",
        CARGO_PROFILE_DEV_DEBUG="0",
        CARGO_TERM_COLOR="never",
        RUSTC_ICE="0",
        RUST_BACKTRACE="0",
        OMPI_ALLOW_RUN_AS_ROOT="1",
        OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1",
        LC_ALL="C.UTF-8",
    )
    if target_dir:
        e["CARGO_TARGET_DIR"] = target_dir
    return e


def repo_hash():
    h = hashlib.sha256()
    files = []
    for root, dirs, names in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in (".git", "target"))
        for n in names:
            if n.endswith((".rs", ".toml", ".md")):
                files.append(os.path.join(root, n))
    for f in sorted(files):
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
        h.update(b"\0")
    return h.hexdigest()


# name -> (features of the probe crate, cfg features of the harnesses)
CONFIGS = {
    "int": ["base", "full"],
    "rat": ["base", "full", "rational"],
    "nostd": ["base"],
    "libm": ["base", "libm"],
    # light ones for the many small programs of the program-level checks
    "lint": ["base", "std", "serde"],
    "lrat": ["base", "std", "serde", "rational"],
}
HARNESS_CFG = {
    "int": ["std", "roots", "glam", "mpi", "hdf5", "rand", "serde"],
    "rat": ["std", "roots", "glam", "mpi", "hdf5", "rand", "serde", "rational"],
    "nostd": [],
    "libm": ["roots", "libm"],
    "lint": ["std", "roots", "serde"],
    "lrat": ["std", "roots", "serde", "rational"],
}


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.path = os.path.join(BUILD, name + ".lock")

    def __enter__(self):
        self.f = open(self.path, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


class RustcTimeout(CheckError):
    pass


class DimanBuildError(CheckError):
    """A crate of /repo is rejected by the compiler in a configuration that should build."""


def build_probe(name, features, target, jobs=None):
    """Builds /repo's crate and the probe's dependencies with cargo: (rlibs, link paths)"""
    r = subprocess.run(
        ["cargo", "build", "--offline", "--locked", "--manifest-path", os.path.join(RS, "probe", "Cargo.toml"), "--features", ",".join(features), "--message-format=json"] + (["-j", str(jobs)] if jobs else []),
        env=env(target), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
    )
    externs, feats, links, errors = {}, {}, [], []
    for line in r.stdout.splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get("reason") == "compiler-artifact":
            for f in m["filenames"]:
                n = m["target"]["name"].replace("-", "_")
                # (diman_lib may be built twice, for the macro without features)
                if f.endswith((".rlib", ".so")) and "proc-macro" not in m["target"]["kind"] and len(m["features"]) >= feats.get(n, 0):
                    externs[n], feats[n] = f, len(m["features"])
        elif m.get("reason") == "build-script-executed":
            links += [p.split("=", 1)[-1] for p in m["linked_paths"]]
        elif m.get("reason") == "compiler-message" and m["message"]["level"] == "error" and m["target"]["name"].startswith("diman"):
            errors.append(m["message"]["rendered"])
    if r.returncode != 0:
        raise (DimanBuildError if errors else CheckError)(f"configuration {name} does not build:\n" + "".join(errors[:3]) + r.stderr[-2000:])
    return externs, links


def clean(target):
    """Removes what was built of /repo's crates (by their hash, not by time stamps)"""
    if os.path.exists(target):
        subprocess.run(
            ["cargo", "clean", "--offline", "--manifest-path", os.path.join(RS, "probe", "Cargo.toml"), "-p", "diman", "-p", "diman_lib", "-p", "diman_unit_system"],
            env=env(target), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
        )


def rustc_arguments(target, e, links):
    args = ["--edition", "2021", "-A", "warnings", "-L", "dependency=" + os.path.join(target, "debug", "deps")]
    if "hdf5_metno" in e:
        e["hdf5"] = e["hdf5_metno"]
    for c in ("diman", "glam", "rand", "serde", "hdf5", "mpi", "once_cell", "serde_yaml", "serde_json"):
        if c in e:
            args += ["--extern", f"{c}={e[c]}"]
    # transitive dependencies that harnesses use directly
    for c in ("diman_lib", "rand_chacha", "rand_core"):
        if c in e:
            args += ["--extern", f"{c}={e[c]}"]
    for l in links:
        args += ["-L", "native=" + l]
    return args


_config_cache = {}


def config(name):
    """Builds the configuration from /repo's current tree; returns rustc arguments."""
    if name in _config_cache:
        return _config_cache[name]
    d = os.path.join(BUILD, name)
    target = os.path.join(d, "target")
    state_file = os.path.join(d, "state.json")
    with Lock(name):
        os.makedirs(d, exist_ok=True)
        current = repo_hash()
        state = {}
        if os.path.exists(state_file):
            with open(state_file) as f:
                state = json.load(f)
        if state.get("hash") != current or not all(os.path.exists(p) for p in state.get("externs", {"": "/nonexistent"}).values()):
            if os.path.exists(state_file):
                os.remove(state_file)
            clean(target)
            externs, links = build_probe(name, CONFIGS[name], target)
            state = {"hash": current, "externs": externs, "links": links}
            with open(state_file, "w") as f:
                json.dump(state, f)
    args = rustc_arguments(target, state["externs"], state["links"])
    _config_cache[name] = args
    return args


def configs(names):
    with concurrent.futures.ThreadPoolExecutor(len(names)) as ex:
        return list(ex.map(config, names))


def usable(rep, names):
    """Builds the configurations; one that /repo's crates do not compile in is a failure
    of any property that is claimed for it."""

    def one(n):
        try:
            config(n)
            return None
        except DimanBuildError as e:
            return str(e)

    with concurrent.futures.ThreadPoolExecutor(len(names)) as ex:
        ok = []
        for n, err in zip(names, ex.map(one, names)):
            if err is None:
                ok.append(n)
            else:
                rep.evaluations += 1
                rep.fail(f"{n}:build", err[:3000], desc=f"building the crate in configuration {n}", kind="build", cfg=n)
        return ok


def scratch(prefix="vp"):
    d = os.path.join(BUILD, "tmp")
    os.makedirs(d, exist_ok=True)
    return tempfile.mkdtemp(prefix=prefix + "-", dir=d)


class Compiled:
    def __init__(self, ok, errors, out, stderr, ice):
        self.ok = ok
        self.errors = errors  # list of (message, code, [lines], rendered)
        self.out = out
        self.stderr = stderr
        self.ice = ice


def _span_lines(spans, path):
    """All lines of the file that any span (or the expansion chain behind it) touches."""
    lines = set()
    for s in spans:
        while s:
            if os.path.basename(s["file_name"]) == os.path.basename(path):
                lines.add((s["line_start"], s["line_end"], bool(s.get("is_primary"))))
            exp = s.get("expansion")
            s = exp["span"] if exp else None
    return lines


def rustc(cfg, path, out=None, extra=(), emit="link", timeout=600):
    """Compiles a file against a configuration. emit: 'link' or 'metadata'."""
    args = ["rustc"] + list(config(cfg)) + ["--error-format=json", "-C", "debuginfo=0"]
    for c in HARNESS_CFG[cfg]:
        args += ["--cfg", f'feature="{c}"']
    out = out or path[:-3] + (".bin" if emit == "link" else ".rmeta")
    if emit == "metadata":
        args += ["--emit=metadata"]
    args += ["-o", out, path] + list(extra)
    try:
        # (derive macros look for the names of crates in the manifest)
        e = dict(env(), CARGO_MANIFEST_DIR=os.path.join(RS, "probe"))
        r = subprocess.run(args, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise RustcTimeout(f"rustc timed out on {path}")
    errors = []
    ice = "internal compiler error" in r.stderr or r.returncode < 0 or r.returncode > 100
    for line in r.stderr.splitlines():
        if not line.startswith("{"):
            continue
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get("level") not in ("error", "error: internal compiler error"):
            continue
        if m["message"].startswith(("aborting due to", "could not compile")):
            continue
        lines = set()
        for s in [m] + m.get("children", []):
            lines |= _span_lines(s.get("spans", []), path)
        errors.append((m["message"], (m.get("code") or {}).get("code") if m.get("code") else None, sorted(lines), m.get("rendered") or ""))
    return Compiled(r.returncode == 0, errors, out, r.stderr, ice)


def expands(cfg, path, timeout=30):
    """Whether the macros of a file that rustc does not get done with come to an end."""
    args = ["rustc"] + list(config(cfg)) + ["-Zunpretty=expanded", "-o", "/dev/null", path]
    try:
        subprocess.run(args, env=dict(env(), CARGO_MANIFEST_DIR=os.path.join(RS, "probe")), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=timeout)
    except subprocess.TimeoutExpired:
        return False
    return True


# ------------------------------------------------------------------ reporting


class Report:
    def __init__(self, pid, rule):
        self.pid = pid
        self.rule = rule
        self.t0 = time.time()
        self.evaluations = 0
        self.distinct = set()
        self.distinct_extra = 0
        self.classes = {}
        self.samples = []
        self.failures = []  # dicts with at least signature, message, desc
        self.extra = {}

    def case(self, desc, nontrivial=True, cls=None, sample=False):
        self.evaluations += 1
        if cls:
            self.classes[cls] = self.classes.get(cls, 0) + 1
        if nontrivial:
            self.distinct.add(hashlib.sha1(desc.encode()).digest())
            if sample and len(self.samples) < 40:
                self.samples.append(desc[:1500])

    def fail(self, signature, message, desc="", **kw):
        self.failures.append(dict(signature=signature, message=message, desc=desc, **kw))

    def known(self):
        known = []
        p = os.path.join(VERIF, "known_findings.txt")
        if os.path.exists(p):
            for l in open(p):
                m = re.match(r"finding: property=(\S+) signature=(\S+) (.*)", l)
                if m and m.group(1) == self.pid:
                    known.append((m.group(2), m.group(3).strip()))
        return known

    def finish(self):
        wall = time.time() - self.t0
        known = dict(self.known())
        fresh, seen = [], []
        for f in self.failures:
            (seen if f["signature"] in known else fresh).append(f)
        cov = dict(
            evaluations=self.evaluations,
            distinct_nontrivial=len(self.distinct) + self.distinct_extra,
            rule=self.rule,
            samples=self.samples[:40],
            classes=dict(sorted(self.classes.items())),
            failures=len(self.failures),
            known_findings_seen=sorted(set(f["signature"] for f in seen)),
        )
        cov.update(self.extra)
        ev = dict(property=self.pid, tier=TIER if TIER in ("quick", "thorough") else "quick", seed=SEED, level="exploration", coverage=cov, wall_s=round(wall, 2))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1, ensure_ascii=False)
        print(f"{self.pid}: {self.evaluations} cases, {cov['distinct_nontrivial']} distinct non-trivial, {len(self.failures)} failures, {wall:.1f} s")
        for k in sorted(set(f["signature"] for f in seen)):
            print(f"KNOWN-FINDING: property={self.pid} {known[k]}")
        if not fresh:
            return 0
        rdir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        for f in fresh[:5]:
            blob = json.dumps(dict(property=self.pid, **f), indent=1, ensure_ascii=False)
            path = os.path.join(rdir, f"{self.pid}-{hashlib.sha1(blob.encode()).hexdigest()[:10]}.json")
            with open(path, "w") as fh:
                fh.write(blob)
            print(f"  {f['signature']}: {f['desc'][:600]}\n    {f['message'][:1500]}")
            print(f"VIOLATION property={self.pid} replay={path}")
        return 1


# ------------------------------------------------------- value-level harnesses


def harness_env(cfg):
    e = env()
    for k in list(e):
        if k.startswith(("OMPI_", "PMIX_", "PRTE_")) and "ALLOW_RUN" not in k:
            del e[k]
    # keep Open MPI (singleton) away from the network and from shared state
    e.update(OMPI_MCA_btl="self", OMPI_MCA_plm="isolated", OMPI_MCA_ess_base_forward_signals="none", TMPDIR=os.path.join(BUILD, "tmp"))
    e["OMPI_MCA_btl_base_warn_component_unused"] = "0"
    return e


def build_harness(cfg, source, extra=()):
    """Compiles rs/<source> for a configuration. The harness is ordinary user code
    that the property says must compile."""
    d = os.path.join(BUILD, "bin")
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, f"{os.path.basename(source)[:-3]}-{cfg}")
    config(cfg)
    path = source if os.path.isabs(source) else os.path.join(RS, source)
    return rustc(cfg, path, out, extra=extra)


def run_harness(binary, cfg, cases, seed=SEED, timeout=700, extra_env=None):
    e = harness_env(cfg)
    e.update(VP_SEED=str(seed), VP_CASES=str(cases))
    e.update(extra_env or {})

    def once(e):
        try:
            return subprocess.run([binary], env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd=os.path.join(BUILD, "tmp"))
        except subprocess.TimeoutExpired:
            raise CheckError(f"{binary} timed out")

    def summary(r):
        for line in r.stdout.decode("utf8", "replace").splitlines():
            if line.startswith("VP_SUMMARY "):
                return json.loads(line[len("VP_SUMMARY "):])
        return None

    r = once(e)
    s = summary(r)
    if s is not None:
        return s
    # the process ended within a case: find out in which
    r = once(dict(e, VP_TRACE="1"))
    err = r.stderr.decode("utf8", "replace")
    at = [l for l in err.splitlines() if l.startswith("VP_AT ")]
    if r.returncode not in (-11, -6, -4, -7, -8) or not at:
        raise CheckError(f"{binary} ended with {r.returncode}: {err[-1500:]}")
    prop, case = at[-1][len("VP_AT "):].rsplit(" ", 1)
    rest = [l for l in err.splitlines() if not l.startswith("VP_AT ")]
    failure = dict(prop=prop, tape="seed:" + case, desc="(a case that ends the process)", message=f"the process ended with signal {-r.returncode}: " + "\n".join(rest)[-800:])
    return dict(evaluations=len(at), distinct_nontrivial=0, classes={}, samples=[], failures=[failure])


def value_check(rep, source, cfgs, cases, extra=()):
    """Runs a harness in several configurations in parallel and adds to the report."""
    cfgs = usable(rep, cfgs)
    os.makedirs(os.path.join(BUILD, "tmp"), exist_ok=True)

    def one(cfg):
        c = build_harness(cfg, source, extra)
        if not c.ok:
            return cfg, c, None
        seed = int(hashlib.sha1(f"{SEED}:{cfg}".encode()).hexdigest()[:15], 16)
        return cfg, c, run_harness(c.out, cfg, cases[cfg] if isinstance(cases, dict) else cases, seed)

    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        for cfg, c, s in ex.map(one, cfgs):
            if s is None:
                if c.ice or not c.errors:
                    raise CheckError(f"{source} [{cfg}]: rustc failed\n" + c.stderr[-3000:])
                rep.evaluations += 1
                rep.fail(
                    f"{cfg}:compile", "code that the property says compiles is rejected: " + "\n".join(e[3] for e in c.errors[:3])[:4000],
                    desc=f"{source} in configuration {cfg}", kind="harness-compile", source=source, cfg=cfg,
                )
                continue
            rep.evaluations += s["evaluations"]
            rep.distinct_extra += s["distinct_nontrivial"]
            for k, v in s["classes"].items():
                rep.classes[f"{cfg}:{k}"] = rep.classes.get(f"{cfg}:{k}", 0) + v
            rep.samples += [f"[{cfg}] {x}"[:1500] for x in s["samples"][: max(4, 40 // len(cfgs))]]
            for f in s["failures"]:
                rep.fail(f"{cfg}:{f['prop']}", f["message"], f["desc"], kind="harness", source=source, cfg=cfg, prop=f["prop"], tape=f["tape"])


def replay_harness(f):
    c = build_harness(f["cfg"], f["source"])
    if not c.ok:
        print("".join(e[3] for e in c.errors[:5]))
        return 1
    if f["kind"] == "harness-compile":
        print("compiles")
        return 0
    e = harness_env(f["cfg"])
    e.update(VP_REPLAY=f["prop"], VP_TAPE=f["tape"])
    r = subprocess.run([c.out], env=e, stdout=subprocess.PIPE, text=True)
    print(r.stdout)
    return 0 if "VP_REPLAY_RESULT pass" in r.stdout else 1


def setup():
    """Builds every configuration once, so that the checks only rebuild /repo's crates."""
    os.makedirs(os.path.join(BUILD, "tmp"), exist_ok=True)
    try:
        configs(list(CONFIGS))
    except DimanBuildError as e:
        print(e)
    from .props import c23
    try:
        c23.warm()
    except DimanBuildError as e:
        print(e)
    print("configurations built")
