"""C23: every valid feature combination builds and gives the same behaviour."""
import os
import queue
import re
import shutil
import subprocess

from .. import batch, core, model, prog, tape
from . import c02

RULE = (
    "a random subset of the cargo features (serde, rand, mpi, hdf5 only with std; rational-dimensions only with std or num-traits-libm), for which the crate is built, a generated program over a generated system "
    "and generated uses of every selected storage type and integration are compiled, run and compared with the build that has everything, and a use of everything not selected must be rejected; without std also a program that does not link std; "
    "or an invalid subset (rational-dimensions alone), which must be refused; non-trivial if at least two features are selected"
)

SLOTS = 6
VECS = {"vec2": ("f32", "Vec2"), "dvec2": ("f64", "DVec2"), "vec3": ("f32", "Vec3"), "dvec3": ("f64", "DVec3")}
STD_ONLY = ["serde", "rand", "mpi", "hdf5"]

# ------------------------------------------------------------------- building

_slots = queue.Queue()
_made = False
_built = {}


def slots():
    global _made
    if not _made:
        _made = True
        for i in range(SLOTS):
            _slots.put(os.path.join(core.BUILD, f"subset{i}", "target"))
    return _slots


def warm():
    """Builds the dependencies once and copies them for every slot (bin/setup)."""
    first = os.path.join(core.BUILD, "subset0", "target")
    with core.Lock("subsets"):
        if all(os.path.exists(os.path.join(core.BUILD, f"subset{i}", "ready")) for i in range(SLOTS)):
            return
        all_features = ["f32", "f64", "si", "vec2", "dvec2", "vec3", "dvec3", "std", "deps", "serde", "rand", "mpi", "hdf5"]
        core.build_probe("all features", all_features, first)
        core.build_probe("small", ["f64", "vec2", "libm"], first)
        core.build_probe("libm", all_features + ["libm", "rational"], first)
        for i in range(SLOTS):
            d = os.path.join(core.BUILD, f"subset{i}")
            if i and not os.path.exists(os.path.join(d, "ready")):
                shutil.rmtree(d, ignore_errors=True)
                shutil.copytree(os.path.join(core.BUILD, "subset0"), d, symlinks=True)
            with open(os.path.join(d, "ready"), "w") as f:
                f.write("")


def fresh(slot):
    mark = os.path.join(os.path.dirname(slot), "hash")
    now = core.repo_hash()
    if not os.path.exists(mark) or open(mark).read() != now:
        core.clean(slot)
        with open(mark, "w") as f:
            f.write(now)


def build(features):
    """(name of the configuration, None) or (None, error)"""
    name = "subset:" + ",".join(sorted(features))
    if name not in _built:
        slot = slots().get()
        try:
            with core.Lock(os.path.basename(os.path.dirname(slot))):
                fresh(slot)
                externs, links = core.build_probe(name, sorted(features) + (["deps"] if set(features) & {"std", "default-set"} else []), slot, jobs=2)
                core._config_cache[name] = core.rustc_arguments(slot, externs, links)
            core.HARNESS_CFG[name] = []
            _built[name] = (name, None)
        except core.DimanBuildError as e:
            _built[name] = (None, str(e))
        finally:
            slots().put(slot)
    return _built[name]


# ------------------------------------------------------------------- subsets


def gen_features(t):
    f = set()
    mode = t.pick(["std", "std", "std", "libm", "libm", "none", "none", "both"])
    if mode in ("std", "both"):
        f.add("std")
    if mode in ("libm", "both"):
        f.add("libm")
    k = t.draw(8)
    if k < 7:
        f |= set(t.pick([["f64"], ["f32"], ["f32", "f64"], []]))
    if t.chance(1, 2):
        f.add("si")
    if t.chance(1, 2):
        f |= set(t.subset(list(VECS), 1, 2))
        if t.chance(1, 6):
            f.add("just-glam")
    if f & {"std", "libm"} and t.chance(1, 2):
        f.add("rational")
    if "std" in f:
        f |= set(t.subset(STD_ONLY, 1, 2))
        if t.chance(1, 8):
            f.add("default-set")
    return f


def effective(f):
    f = set(f)
    for v, (st, _) in VECS.items():
        if v in f:
            f.add(st)
    if "default-set" in f:
        f |= {"f32", "f64", "si", "std"}
    if f & {"std", "libm"}:
        f.add("roots")
    return f


# -------------------------------------------------------------------- snippets


def literal(t):
    return t.pick(["1.5", "2.0", "0.25", "3.7", "12.5e3", "7.0e-4", "0.1", "1.0e6", "42.0"])


def snippets(t, w):
    """name -> (needed features, source): uses of everything, with generated values"""
    n, d = t.pick(sorted(w.dims.items()))
    same = [u for u, x in sorted(w.units.items()) if model.dkey(x[0]) == model.dkey(d)]
    if not same:
        n, d = next((n, d) for n, d in sorted(w.dims.items()) if any(model.dkey(x[0]) == model.dkey(d) for x in w.units.values()))
        same = [u for u, x in sorted(w.units.items()) if model.dkey(x[0]) == model.dkey(d)]
    u, v = t.pick(same), t.pick(same)
    out = {}
    for st in ("f32", "f64"):
        a, b, c = literal(t), literal(t), literal(t)
        T = f"dimensions::{n}<{st}>"
        head = f"let a: {T} = {a}{st} * {u}; let b: {T} = {v}.new({b}{st}); let c: {T} = {c}{st} * {v};"
        out[f"{st}"] = ((st,), f"""{head}
            put("add", (a + &b - c).value_in({v})); put("mul", (a * b / c).value_in({u})); put("neg", (-a * {c}{st} / {b}{st}).value_in({u}));
            put("inv", (({a}{st} / {u}) * b).value()); put("unit", (a / {u}).value()); put("square", (a.squared() / b).value_in({u})); put("cube", (a.cubed() / b / c).value_in({v})); put("powi", (a.powi::<4>() / a.powi::<3>()).value_in({u}));
            put("abs", (-a).abs().max(b).min(c).value_in({u})); put("clamp", a.clamp(b.min(c), b.max(c)).value_in({v})); put("zero", <{T}>::zero().value_in({u}));
            put("sum", [a, b, c].into_iter().sum::<{T}>().value_in({u})); say("less", a < b); say("equal", a == b); say("nan", a.is_nan()); say("positive", b.is_positive()); say("debug", a); say("debug2", a / {u});
            let mut m = a; m += b; m *= {c}{st}; m -= c; m /= {a}{st}; put("assign", m.value_in({u}));""")
        out[f"{st}-storage"] = ((st,), f"let a = {a}{st} * {u}; let _ = a;")
        out[f"{st}-storage-div"] = ((st,), f"let a = {a}{st} / {u}; let _ = a;")
        out[f"{st}-roots"] = ((st, "roots"), f"""{head}
            put("sqrt", (a * b).sqrt().value_in({u})); put("cbrt", (a * b * c).cbrt().value_in({v})); let x = a / b; put("ln", x.ln().value()); put("exp", (x / x + x / x).exp().value()); put("sin", x.sin().value()); put("atan", x.atan().value());
            put("log2", x.log2().value()); put("ceil", x.ceil().value()); put("tanh", x.tanh().value()); put("ln1p", x.ln_1p().value());""")
        out[f"{st}-sqrt"] = ((st, "roots"), f"let a = {a}{st} * {u}; let _ = (a * a).sqrt();")
        out[f"{st}-serde"] = ((st, "serde"), f"""{head}
            let s = serde_yaml::to_string(&a).unwrap(); print!("yaml {{s}}"); put("back", serde_yaml::from_str::<{T}>(&s).unwrap().value_in({u})); println!("json {{}}", serde_json::to_string(&(b / {u})).unwrap());
            let l: Vec<{T}> = serde_json::from_str(&serde_json::to_string(&[a, b, c]).unwrap()).unwrap(); say("list", l.len()); #[derive(serde::Serialize, serde::Deserialize)] struct X {{ a: {T} }} println!("{{}}", serde_json::to_string(&X {{ a }}).unwrap());""")
        out[f"{st}-rand"] = ((st, "rand"), f"""{head} let (lo, hi) = (b.min(c), b.max(c) * 2.0{st});
            use rand::{{Rng, SeedableRng}}; let mut rng = rand::rngs::StdRng::seed_from_u64({t.draw(1000)});
            for _ in 0..4 {{ put("sample", rng.gen_range(lo..hi).value_in({u})); put("inclusive", rng.gen_range(lo..=hi).value_in({u})); }} put("uniform", rng.sample(rand::distributions::Uniform::new(lo, hi)).value_in({v}));""")
        out[f"{st}-mpi"] = ((st, "mpi"), f"fn f<X: mpi::traits::Equivalence>(_: X) {{}} f({a}{st} * {u}); fn g<X: mpi::traits::Buffer + ?Sized>(_: &X) {{}} g(&[{a}{st} * {u}][..]);")
        out[f"{st}-hdf5"] = ((st, "hdf5"), f"fn f<X: hdf5::H5Type>(_: X) {{ println!(\"{{:?}}\", X::type_descriptor()); }} f({a}{st} * {u});")
        out[f"{st}-si"] = ((st, "si"), f"""use diman::si::{{dimensions::*, units::*}}; let x: Length<{st}> = {a}{st} * kilometers; let t: Time<{st}> = {b}{st} * hours; let s: Velocity<{st}> = x / t;
            put("si", s.value_in(meters_per_second)); put("si2", (x * {c}{st}).value_in(millimeters)); say("si3", s); say("si4", x / t / t); put("si5", ({c}{st} * newtons * x).value_in(kilojoules));""")
    for f, (st, V) in VECS.items():
        k = int(V[-1])
        a, b = [[literal(t) for _ in range(k)] for _ in range(2)]
        x = literal(t)
        T = f"dimensions::{n}<glam::{V}>"
        S = f"dimensions::{n}<{st}>"
        head = f"let a: {T} = glam::{V}::new({', '.join(a)}) * {u}; let b = <{T}>::new({', '.join(f'{y}{st} * {v}' for y in b)}); let s: {S} = {x}{st} * {u};"
        out[f"{V}"] = ((f,), f"""{head} let mut m = a + b - a * 2.0{st}; m.set_x(s); m += b;
            put("x", (a * s / s).x().value_in({u})); put("y", (-b).y().value_in({v})); put("dot", (a.dot(b) / s).value_in({u})); put("m", m.x().value_in({u})); put("abs", m.abs().min(a).max(b).y().value_in({u})); say("vec", a); say("eq", a == b);
            put("new_x", <{T}>::new_x(s).x().value_in({v})); put("sum", [a, b].into_iter().sum::<{T}>().y().value_in({u})); put("ratio", (s.value_in({u}) * (a / s).value()).x);""")
        out[f"{V}-storage"] = ((f,), f"let a = glam::{V}::splat({x}) * {u}; let _ = a;")
        out[f"{V}-length"] = ((f,), f"""{head} put("length", a.length().value_in({u})); put("distance", a.distance(&b).value_in({u})); put("normal", (a / s).normalize().value().x);""")
        out[f"{V}-serde"] = ((f, "serde"), f"""{head} let j = serde_json::to_string(&a).unwrap(); println!("{{j}}"); say("back", serde_json::from_str::<{T}>(&j).unwrap() == a);""")
        out[f"{V}-mpi"] = ((f, "mpi"), f"fn f<X: mpi::traits::Equivalence>(_: X) {{}} f(glam::{V}::splat({x}) * {u});")
        out[f"{V}-hdf5"] = ((f, "hdf5"), f"fn f<X: hdf5::H5Type>(_: X) {{ println!(\"{{:?}}\", X::type_descriptor()); }} f(glam::{V}::splat({x}) * {u});")
    e = t.pick(["1/2", "3/2", "2/3", "-1/2"])
    out["rational"] = (("rational",), f"""mod half {{ diman::unit_system!(quantity_type Qty; dimension_type Dim; dimension Length; #[base(Length)] #[symbol(m)] unit meter; dimension Half = Length^({e}); unit odd: Half = 3 * meter^({e}););
            pub fn f<const A: Dim, const B: Magnitude>(_: Unit<A, B>) -> f64 {{ B.into_f64() }} }}
/*body*/ put("rational", half::f(half::units::odd));""")
    if any(x % 2 for x in d.values()):
        out["rational-root"] = (("rational", "f64"), f"let a = 4.0f64 * {u}; put(\"root\", a.sqrt().squared().value_in({u}));")
    out["si-only"] = (("si",), "use diman::si::units::*; let _ = (meters, kilograms, seconds * meters);")
    return out


HELP = """
pub fn put<T: std::fmt::LowerExp>(k: &str, x: T) { println!("{k} {x:e}"); }
pub fn say<T: std::fmt::Debug>(k: &str, x: T) { println!("{k} {x:?}"); }
"""

NO_STD = """#![no_std]
#![no_main]
#![allow(incomplete_features, internal_features)]
#![feature(generic_const_exprs, adt_const_params, lang_items)]
use core::fmt::Write;
extern "C" { fn write(fd: i32, p: *const u8, n: usize) -> isize; fn abort() -> !; }
#[link(name = "c")] extern "C" {}
#[link(name = "gcc_s")] extern "C" {}
struct Out;
impl Write for Out { fn write_str(&mut self, s: &str) -> core::fmt::Result { unsafe { write(1, s.as_ptr(), s.len()); } Ok(()) } }
#[panic_handler] fn panic(i: &core::panic::PanicInfo) -> ! { let _ = writeln!(Out, "panic {i}"); unsafe { abort() } }
#[lang = "eh_personality"] extern "C" fn personality() {}
fn put<T: core::fmt::LowerExp>(k: &str, x: T) { let _ = writeln!(Out, "{k} {x:e}"); }
fn say<T: core::fmt::Debug>(k: &str, x: T) { let _ = writeln!(Out, "{k} {x:?}"); }
"""


def module(body):
    items, body = body.split("/*body*/") if "/*body*/" in body else ("", body)
    return f"    use super::*;\n    {items}pub fn report() {{\n            {body}\n    }}\n"


# ---------------------------------------------------------------------- cases


def needs_roots(code):
    return re.search(r"\.(sqrt|cbrt|exp|sin|ln_1p|atan|tanh|floor)\(", code)


def gen_valid(t):
    f = gen_features(t)
    e = effective(f)
    w = prog.world(t.draw(core.scale(10, 60)), "rat" if "rational" in f else "int", salt="23")
    programs = []
    floats = [x for x in ("f64", "f32") if x in e]
    for _ in range(3 if floats else 0):
        st = t.pick(floats)
        vectors = all(v in e for v, x in VECS.items() if x[0] == st)
        p = None
        for _ in range(12):
            g = prog.Gen(t, w, t.pick([st, st] + ([x[1] for x in VECS.values() if x[0] == st] if vectors else [])), vectors=vectors)
            lines, results = [], []
            for k in range(1 + t.draw(4)):
                code, x = c02.statement(g, t, k)
                if not prog.out_of_range(x.dim):
                    lines.append(code)
                    results.append((k, x))
            if "roots" in e or not needs_roots("\n".join(lines)):
                p = tape.Case(w=w, g=g, lines=lines, results=results)
                break
        if p:
            programs.append(p)
    s = snippets(t, w)
    return tape.Case(f=f, e=e, w=w, programs=programs, snippets=s, desc="features " + " ".join(sorted(f)) + "\n" + "\n".join(c02.desc(w, p.g, p.lines) for p in programs), nontrivial=len(f) >= 2, cls=("std" if "std" in e else "no std") + (", libm" if "libm" in f else "") + (", rational" if "rational" in f else "") + (", vectors" if f & set(VECS) else ""))


def compare(c, a, b, smooth):
    """the lines that two builds print"""
    if len(a) != len(b):
        return f"{len(a)} lines of output, {len(b)} in the reference"
    for x, y in zip(a, b):
        if x == y:
            continue
        p, q = re.split(r"[\t ]", x), re.split(r"[\t ]", y)
        if len(p) == len(q):
            def same(i, j):
                if i == j:
                    return True
                try:
                    i, j = float(i), float(j)
                except ValueError:
                    return False
                # (libm and std differ by ulps; whether results that cancel or jump agree then says nothing)
                return "libm" in c.e and (not smooth or abs(i - j) <= 2e-5 * max(abs(i), abs(j)))
            if all(same(i, j) for i, j in zip(p, q)):
                continue
        return f"{x!r}, in the reference {y!r}"
    return None


def check_one(c):
    cfg, err = build(c.f)
    if cfg is None:
        return "build", "the crate does not build: " + err[:2500]
    rational = "rational" in c.f
    full = "rat" if rational else "int"
    prelude = c.w.prelude() + HELP
    sources = [("program", c02.source(p), p) for p in c.programs] + [(n, module(s), None) for n, (need, s) in c.snippets.items() if set(need) <= c.e]
    if not any(x in c.e for x in ("f32", "f64")):
        sources.append(("system", "    pub fn report() { super::vp_report() }\n", None))
    got = batch.accepted(cfg, [s for _, s, _ in sources], prelude, size=100)
    for (n, s, _), r in zip(sources, got):
        if not r.ok:
            return f"rejected-{n}", f"{n} is rejected with these features: {r.error_text()}"
    ref = batch.accepted(full, [s for _, s, _ in sources], prelude, size=100)
    for (n, s, p), r, q in zip(sources, got, ref):
        if not q.ok:
            return f"reference-{n}", f"{n} is rejected by the build with all features: {q.error_text()}"
        if r.panic != q.panic:
            return f"panic-{n}", f"{n}: {r.panic}, in the reference {q.panic}"
        smooth = p is None or not p.g.subtracts and not any(x in s for x in ("sin(", "floor(", "if "))
        bad = compare(c, r.out or [], q.out or [], smooth)
        if bad:
            return f"differs-{n}", f"{n} prints {bad}"
    absent = [(n, module(s)) for n, (need, s) in c.snippets.items() if not set(need) <= c.e]
    for (n, _), r in zip(absent, batch.rejected(cfg, [s for _, s in absent], prelude, size=100)):
        if r.ok:
            return f"offered-{n}", f"{n} compiles although not all of the features {c.snippets[n][0]} are selected"
    if "std" not in c.e and not c.e & (set(VECS) | {"just-glam"}):
        return no_std(c, cfg, full, prelude)
    return None


def no_std(c, cfg, full, prelude):
    """The snippets in a program that does not link std"""
    names = [n for n, (need, _) in c.snippets.items() if set(need) <= c.e and not needs_heap(c.snippets[n][1])]
    body = "".join(f"fn s{i}() {{ {c.snippets[n][1]} }}\n" for i, n in enumerate(names))
    calls = " ".join(f"s{i}();" for i in range(len(names)))
    observed = c.w.system.text()
    text = NO_STD + observed + body + f'#[no_mangle] pub extern "C" fn main() -> i32 {{ {calls} let _ = writeln!(Out, "done"); 0 }}\n'
    d = core.scratch("nostd")
    try:
        path = os.path.join(d, "n.rs")
        with open(path, "w") as f:
            f.write(text)
        r = core.rustc(cfg, path, extra=["-C", "panic=abort"])
        if not r.ok:
            return "no-std-rejected", "a program without std is rejected: " + "\n".join(x[3] for x in r.errors[:2])[:2500] + (r.stderr[-800:] if not r.errors else "")
        p = subprocess.run([r.out], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=60)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    out = p.stdout.splitlines()
    if p.returncode != 0 or out[-1:] != ["done"]:
        return "no-std-run", f"a program without std ends with {p.returncode}: {p.stdout[-500:]}"
    ref = batch.accepted(full, [module(c.snippets[n][1]) for n in names], prelude, size=100)
    want = [l for q in ref for l in q.out or []]
    bad = compare(c, out[:-1], want, True)
    return ("no-std-differs", "a program without std prints " + bad) if bad else None


def needs_heap(s):
    return "unit_system!" in s


def evaluate_valid(cases):
    warm()
    with batch.concurrent.futures.ThreadPoolExecutor(SLOTS) as ex:
        return list(ex.map(check_one, cases))


def gen_invalid(t):
    f = {"rational"} | set(t.subset(["f32", "f64", "si"] + list(VECS), 1, 2))
    return tape.Case(f=f, desc="features " + " ".join(sorted(f)), cls="invalid")


def evaluate_invalid(cases):
    warm()

    def one(c):
        cfg, err = build(c.f)
        if cfg is not None:
            return "invalid-accepted", "rational-dimensions builds without std and num-traits-libm"
        if not ("rational-dimensions" in err and "std" in err and "num-traits-libm" in err):
            return "invalid-unclear", "the error does not say that rational-dimensions needs std or num-traits-libm: " + err[:1500]
        return None

    with batch.concurrent.futures.ThreadPoolExecutor(SLOTS) as ex:
        return list(ex.map(one, cases))


PARTS = {"valid": (gen_valid, evaluate_valid, (48, 1500)), "invalid": (gen_invalid, evaluate_invalid, (6, 60))}


def run(rep):
    ok = core.usable(rep, ["int", "rat"])
    if len(ok) < 2:
        return
    for name, (gen, ev, n) in PARTS.items():
        tape.run(rep, name, core.scale(*n), gen, ev, budget=40)


def replay(f):
    gen, ev, _ = PARTS[f["part"]]
    return tape.replay(f, gen, ev)
