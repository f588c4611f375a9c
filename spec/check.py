#!/usr/bin/env python3
"""check.py <property>: decides one property on the current source of the library."""
import json
import os
import signal
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(100000)

import bdd
import summary
from context import Context
from deciders import DECIDERS

ASSUMPTIONS = [
    "the analysis driver (engine/) models MIR and the intrinsics it meets faithfully; anything it does not model is reported as a violation",
    "rustc's MIR of the nightly tool chain at mir-opt-level 0 means what the source means on the tool chain users build with",
    "the tables in spec/riscv.py transcribe the RISC-V manuals correctly",
]


SECONDS = 780


def late(*_):
    raise summary.Unanalysable("the check did not end within %d s" % SECONDS)


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    fn, runs = DECIDERS[prop]
    c = Context(prop)
    configs = [(64, True), (64, False), (32, True), (32, False)]
    done = []
    try:
        summary.setup()
        signal.signal(signal.SIGALRM, late)
        signal.alarm(SECONDS)
        for s in summary.analyse_all(runs, configs):
            c.managers.clear()
            c.__dict__.pop("specs", None)
            fn(c, s)
            done.append(s.config)
    except summary.Unanalysable as e:
        c.violate("analysis", "cannot be decided: %s" % e)
    except bdd.TooLarge:
        c.violate("analysis", "cannot be decided: diagrams too large")
    except Exception:
        c.violate("analysis", "cannot be decided, the decider failed:\n" + traceback.format_exc())
    signal.alarm(0)

    ev = os.environ.get("VERIF_EVIDENCE") or os.path.join(summary.VERIF, "evidence")
    os.makedirs(ev, exist_ok=True)
    total = {}
    for v in c.analysed.values():
        for k, n in v.items():
            total[k] = total.get(k, 0) + n
    cov = {
        "explanation": "Static analysis of the library's MIR: bit-level dataflow over all inputs of each entry point at once; "
        "every obligation below is an emptiness test on a set of inputs represented as a decision diagram, or a fact of the type-checked program (effects, exported types).",
        "exhaustive": True,
        "configurations": done,
        "entry_points": len(c.analysed),
        "obligations": c.obligations,
        "discharged": c.discharged,
        "rules": c.rules,
        "analysed_total": total,
        "analysed": {"%s | %s" % k: v for k, v in c.analysed.items()},
        "known_findings": sorted(c.known_hits),
    }
    out = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "other",
        "coverage": cov,
        "assumptions": ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 3),
        "violations": len(c.violations),
    }
    with open(os.path.join(ev, prop + ".json"), "w") as f:
        json.dump(out, f, indent=1)
        f.write("\n")

    print("%s: analysed %d entry points, %d basic blocks, %d call sites in %s; %d obligations, %d discharged" % (
        prop, len(c.analysed), total.get("blocks", 0), total.get("calls", 0), "; ".join(done) or "no configuration", c.obligations, c.discharged))
    for r, n in sorted(c.rules.items()):
        print("  rule: %s (%d)" % (r, n))
    for k, what in sorted(c.known_hits.items()):
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, k, what))
    if not c.violations:
        return 0
    rd = os.path.join(ev, "replay")
    os.makedirs(rd, exist_ok=True)
    path = os.path.join(rd, prop + ".txt")
    with open(path, "w") as f:
        for v in c.violations:
            f.write("property %s\nkey      %s\nwhat     %s\n" % (prop, v.key, v.text))
            if v.config:
                f.write("config   %s\n" % v.config)
            if v.witness:
                f.write("witness  %s\n" % v.witness)
            if v.path:
                f.write("source reached by the witness, most selective first:\n")
                for n, fnm, at in sorted(v.path, key=lambda x: x[0])[:60]:
                    f.write("  %-60s %s\n" % (fnm, at))
            f.write("\n")
    for v in c.violations:
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  %s" % v.text)
        if v.witness:
            print("  witness: %s" % v.witness)
        if v.path:
            n, fnm, at = min(v.path, key=lambda x: x[0])
            print("  construct: %s (%s)" % (fnm, at))
    return 1


if __name__ == "__main__":
    sys.exit(main())
