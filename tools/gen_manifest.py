"""Writes /verif/MANIFEST.json from the checks that exist."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vp.value_props import VALUE

NOTE = "Sampled, not exhaustive: a pass says that no generated case of this run (a pure function of VERIF_SEED) broke the property. Trusts "
T = {
    "C01": ("property-based generation of ill-typed programs with well-typed twins, decided by rustc against a dimension model", "rustc's verdict and the dimension model in vp/model.py; the domain is the program grammar of vp/props/c01.py."),
    "C02": ("property-based generation of expression programs over generated systems, differential against a Fraction dimension model", "rustc and the model in vp/model.py; the rustc limitation listed in known_findings.txt is modelled by a symbolic rule."),
    "C03": ("property-based testing of every operator form, differential against raw storage arithmetic", "the hardware floats and glam's own operators as the reference."),
    "C04": ("property-based testing of unit construction and conversion, differential against the factor arithmetic", "reference factors computed by hand in the harness; few-ulp tolerance where the reference multiplies in another order."),
    "C05": ("property-based generation of unit systems, evaluated by an exact Fraction model", "the model's own expression evaluator (Python Fractions) and a tolerance of a few ulp per operation."),
    "C06": ("property-based generation of units with prefixes, aliases and symbols, differential against a reference expander", "the SI prefix table in vp/model.py; absence of names is observed as a compile error."),
    "C07": ("mutation and grammar fuzzing of unit_system! invocations; fault injection into well-formed systems", "rustc's verdict; each fault is malformed by construction and its untouched twin must compile."),
    "C08": ("property-based generation of annotated units and constants, differential against a dimension model", "rustc's verdict and the model in vp/model.py."),
    "C09": ("property-based testing of Magnitude over all finite bit patterns, against f64 arithmetic; generated extreme literals", "f64 arithmetic as the reference, one ulp where two roundings are inherent."),
    "C10": ("property-based testing of Ratio and dimension arithmetic against an i128 fraction model; generated type-equality programs", "the i128 model; fractions whose results leave i64 are out of the domain."),
    "C11": ("differential testing of generated systems and programs between the two exponent implementations", "that the integer mode is itself right is checked by the other properties."),
    "C12": ("property-based generation of systems and quantities, text compared with a reference formatter and re-read by a reference reader", "the storage type's own Display for the number; any symbol of a coherent unit is accepted."),
    "C13": ("property-based round-trip testing through YAML and JSON", "serde_yaml and serde_json, and the exactness of Rust's float formatting and parsing."),
    "C14": ("grammar-based and mutation fuzzing of the text reader, differential against an independent parser", "the independent parser in rs/c14.rs, few-ulp tolerance on values."),
    "C15": ("model-based testing of vector methods and component histories against glam", "glam's own methods as the reference."),
    "C16": ("property-based testing of comparisons and predicates against raw floats", "the raw float operations as the reference."),
    "C17": ("property-based testing of math functions against std and libm", "std and libm functions as the reference, bit for bit."),
    "C18": ("property-based testing of powers and roots, differential against raw floats plus algebraic laws", "powi compared with repeated multiplication within a bound that grows with the exponent."),
    "C19": ("property-based testing of samplers, differential against rand on raw floats with a cloned generator", "rand itself; ranges a few ulps wide are excluded because rand's own loop need not end there."),
    "C20": ("property-based round-trip and differential testing of MPI transfers on a single process", "Open MPI in singleton mode; several processes are out of reach of the sandboxed check."),
    "C21": ("property-based round-trip and differential testing of in-memory HDF5 files", "libhdf5 with the core driver, nothing on disk."),
    "C22": ("enumeration of the whole SI catalogue against an independent reference table, with generated values", "the reference table in vp/props/c22.py, written from the SI brochure."),
    "C23": ("random sampling of feature subsets; generated program built and run for each, output compared with a reference", "cargo and rustc; the subset sample covers each feature on and off in every run."),
    "C24": ("property-based testing of layout and unchecked accessors over storage types and bit patterns", "size_of, align_of and transmutes of the running target."),
    "C25": ("metamorphic testing: generated systems are renamed consistently and combined, and must behave identically", "rustc's verdict and the model in vp/model.py."),
    "C26": ("stateful model-based testing: histories of operations against a mirrored collection of raw values", "the raw storage operations as the model."),
    "C27": ("metamorphic testing: generated well-formed and malformed systems expanded several times in separate processes and with other white space and comments", "equality of the expanded code and of the diagnostics."),
}
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    pid = json.loads(l)["id"]
    if pid in VALUE or os.path.exists(os.path.join(V, "vp", "props", pid.lower() + ".py")):
        t, n = T[pid]
        checks.append(dict(property=pid, quick_cmd=f"bin/check {pid}", thorough_cmd=f"env VERIF_TIER=thorough bin/check {pid}", technique=t, level="exploration", level_note=NOTE + n))
    else:
        na.append(dict(property=pid, reason="the check is not built yet"))
m = dict(version=1, setup_cmd="bin/setup", hooks=dict(guard="none", enable="no hooks are needed: every property is observed through the public interface", source_commits=[]), checks=checks, not_applicable=na,
         notes="bin/replay FILE re-runs a replay file. VERIF_SEED selects the cases. See DESIGN.md.")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not claimed")
