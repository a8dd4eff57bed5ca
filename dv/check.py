"""python3-vt -m dv.check <property> [quick|thorough]   |   --replay <file>"""
import importlib
import json
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(4000)


def main():
    if sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    from dv import runner
    mod = importlib.import_module("props." + prop.lower())
    units = [u for u in mod.UNITS if tier == "thorough" or not getattr(u, "thorough_only", False)]
    only = os.environ.get("DV_UNITS")
    if only:
        units = [u for u in units if u.name in only.split(",")]
    units += dependencies(prop, units)
    budget = getattr(mod, "BUDGET", 300) if tier == "quick" else getattr(mod, "BUDGET_THOROUGH", 3000)
    if tier == "thorough":
        for u in units:
            u.max_seconds *= 4
    return runner.run_property(prop, units, tier, seed, budget, getattr(mod, "LEVEL", "proof"),
                               getattr(mod, "ASSUMPTIONS", ()), getattr(mod, "TRUSTED", TRUSTED))


def dependencies(prop, units):
    """the units which discharge the contracts the stubs of these units stand for"""
    import copy
    out, seen = [], {(prop.lower(), u.name) for u in units}
    todo = list(units)
    while todo:
        u = todo.pop()
        for st in u.stubs:
            for mod, name in getattr(st, "deps", ()):
                if (mod, name) in seen or mod == prop.lower():
                    continue
                seen.add((mod, name))
                for d in importlib.import_module("props." + mod).UNITS:
                    if d.name == name:
                        d = copy.copy(d)
                        d.dep, d.home = True, mod.upper()
                        out.append(d)
                        todo.append(d)
                        break
                else:
                    raise SystemExit("no unit %s/%s" % (mod, name))
    return out


TRUSTED = (
    "the path-wise obligation generator dv/ (cross-checked on every run: path witnesses are replayed on the untouched code)",
    "CPython's execution of the instrumented text; the instrumentation listed in dv/instrument.py",
    "z3 (obligations left unknown go to z3 with other tactics and to cvc5)",
)


def replay(path):
    with open(path) as f:
        r = json.load(f)
    from dv import runner
    mod = importlib.import_module("props." + r["property"].lower())
    for u in mod.UNITS:
        if u.name == r["unit"]:
            if "inputs" not in r:
                print("no failing input: failed obligations %s" % r["obligations"])
                return 1
            out = runner.concrete(u, r["inputs"])
            if out is None:
                print("precondition does not hold")
                return 0
            print("inputs", out[0])
            print("failed", out[1] or "nothing")
            return 1 if out[1] else 0
    print("unknown unit")
    return 2


if __name__ == "__main__":
    sys.exit(main())
