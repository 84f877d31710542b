"""bin/check <property> and bin/replay <file>."""
import importlib
import json
import os
import sys
import traceback

from . import core
from .value_props import VALUE


def program_part(pid):
    if os.path.exists(os.path.join(core.VERIF, "vp", "props", pid.lower() + ".py")):
        return importlib.import_module(f"vp.props.{pid.lower()}")
    return None


def check(pid):
    values, part = VALUE.get(pid, []), program_part(pid)
    rules = [v[4] for v in values] + ([part.RULE] if part else [])
    if not rules:
        print(f"no check for {pid}")
        return 2
    rep = core.Report(pid, " // ".join(rules))
    if part:
        part.run(rep)
    for source, cfgs, quick, thorough, _ in values:
        core.value_check(rep, source, cfgs, core.scale(quick, thorough))
    return rep.finish()


def replay(path):
    with open(path) as f:
        f = json.load(f)
    print(f"{f['property']} {f['signature']}: {f['desc']}")
    if f.get("kind", "").startswith("harness"):
        return core.replay_harness(f)
    if f.get("kind") == "build":
        try:
            core.config(f["cfg"])
        except core.DimanBuildError as e:
            print(e)
            return 1
        return 0
    return program_part(f["property"]).replay(f)


def main(argv):
    try:
        if argv[0] == "setup":
            core.setup()
            return 0
        if argv[0] == "check":
            return check(argv[1])
        if argv[0] == "replay":
            return replay(argv[1])
        print("check <property> | replay <file> | setup")
        return 2
    except core.CheckError as e:
        print(f"ERROR: {e}")
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
