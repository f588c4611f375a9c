"""Obligations, violations, known findings and evidence for one check."""
import json
import os

from bdd import Bdd
from summary import VERIF, Unanalysable

KNOWN_FILE = os.path.join(VERIF, "known_findings.txt")


class Violation:
    def __init__(self, key, text, witness=None, path=None, config=None):
        self.key, self.text, self.witness, self.path, self.config = key, text, witness, path or [], config


class Context:
    def __init__(self, prop):
        self.prop = prop
        self.obligations = 0
        self.discharged = 0
        self.violations = []
        self.keys = set()
        self.known_hits = {}
        self.rules = {}
        self.analysed = {}
        self.managers = {}
        self.known = []
        if os.path.exists(KNOWN_FILE):
            with open(KNOWN_FILE) as f:
                for line in f:
                    line = line.strip()
                    if line.startswith("{"):
                        e = json.loads(line)
                        if e["property"] == prop and "known" in e:
                            self.known.append(e)

    # --- bookkeeping ---------------------------------------------------------------------

    def saw(self, run):
        """Record what the analysis covered for an entry point."""
        s = run.raw["stats"]
        self.analysed[(run.summary.config, run.name)] = {
            "functions": run.raw["functions"],
            "local_functions": run.raw["local_functions"],
            "blocks": s["blocks"],
            "statements": s["statements"],
            "calls": s["calls"],
            "joins": s["joins"],
            "panic_obligations": s["obligations"],
            "diagram_nodes": s["diagram_nodes"],
            "source_blocks": len(run.raw["visits"]),
        }
        if s["blocks"] == 0 or run.raw["local_functions"] == 0:
            self.violate("%s: nothing analysed" % run.name, "the entry point %s has no analysed body" % run.name, config=run.summary.config)

    def passed(self, rule, n=1):
        self.obligations += n
        self.discharged += n
        self.rules[rule] = self.rules.get(rule, 0) + n

    def violate(self, key, text, witness=None, path=None, config=None, rule=None):
        self.obligations += 1
        if rule:
            self.rules[rule] = self.rules.get(rule, 0) + 1
        if key in self.keys:
            return
        self.keys.add(key)
        self.violations.append(Violation(key, text, witness, path, config))

    # --- decision --------------------------------------------------------------------------

    def manager(self, order):
        k = tuple(order)
        if k not in self.managers:
            self.managers[k] = Bdd(order)
        return self.managers[k]

    def known_region(self, m, key, prefix="w"):
        """Inputs listed as known findings under this exact key."""
        r, hit = 0, []
        for e in self.known:
            if e["known"] != key:
                continue
            for pat in e["words"]:
                bits = pat.replace("_", "")
                n = len(bits)
                c = 1
                for i, ch in enumerate(bits):
                    if ch in "01":
                        v = m.var("%s%d" % (prefix, n - 1 - i))
                        c = m.AND(c, v if ch == "1" else m.NOT(v))
                    elif ch != "x":
                        raise ValueError("bad pattern " + pat)
                r = m.OR(r, c)
            hit.append(e)
        return r, hit

    def empty(self, m, region, rule, key, text, run, show=None, found=None):
        """Obligation: no input lies in `region`. `show` renders the witness, `found` adds what was found."""
        if region != 0 and self.known:
            k, hit = self.known_region(m, key)
            if hit and m.AND(region, k) != 0:
                for e in hit:
                    self.known_hits[e["known"]] = e["what"]
                region = m.DIFF(region, k)
        if region == 0:
            self.passed(rule)
            return True
        a = m.pick(region)
        w = (show or show_word)(a, run)
        t = text
        if found:
            t += " -- " + found(a)
        n = None
        names = [v for v in m.order if v in run.vars]
        try:
            n = m.count(region, names)
        except KeyError:
            pass
        if n is not None:
            t += " [%d input%s]" % (n, "" if n == 1 else "s")
        self.violate(key, t, witness=w, path=run.path(a), config=run.summary.config, rule=rule)
        return False

    def checked(self, run):
        """The run, after making sure that the analysis could model everything it met."""
        if run.error:
            raise Unanalysable("%s: construct outside of the analysis: %s" % (run.name, run.error))
        self.saw(run)
        return run


def word_of(a, prefix="w"):
    return sum(1 << int(n[len(prefix):]) for n, v in a.items() if v and n.startswith(prefix) and n[len(prefix):].isdigit())


def show_word(a, run):
    n = sum(1 for v in run.vars if v.startswith("w"))
    s = "word 0x%0*x" % (n // 4, word_of(a))
    if any(v.startswith("n") for v in run.vars):
        s += ", refused writes: " + (", ".join("number %d" % i for i in range(64) if a.get("n%d" % i)) or "none")
    return s
