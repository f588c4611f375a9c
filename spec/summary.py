"""Runs the analysis over the current source of the library and reads its summary."""
import contextlib
import json
import os
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor, wait

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, "build")
REPO = os.environ.get("VERIF_REPO", "/repo")
CRATE = "raki"
TARGETS = {64: "x86_64-unknown-linux-gnu", 32: "i686-unknown-linux-gnu"}


class Unanalysable(Exception):
    """The source could not be analysed (does not build, or an entry point is missing)."""


def setup():
    r = subprocess.run(["bash", os.path.join(VERIF, "tools", "setup.sh")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise Unanalysable("the analysis driver does not build:\n" + r.stdout[-4000:])


def analyse(runs, pw=64, checks=True):
    """Summary of the entry points whose name starts with one of `runs`."""
    sysroot = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], stdout=subprocess.PIPE, text=True).stdout.strip()
    tmp = tempfile.mkdtemp(prefix="bitflow-")
    try:
        out = os.path.join(tmp, "summary.json")
        env = dict(os.environ)
        for k in ("RUSTC", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_RUSTFLAGS", "CARGO_BUILD_TARGET", "CARGO_TARGET_DIR"):
            env.pop(k, None)
        env.update(
            LD_LIBRARY_PATH=os.path.join(sysroot, "lib"),
            RUSTC_WORKSPACE_WRAPPER=os.path.join(BUILD, "bitflow"),
            BITFLOW_CRATE=CRATE,
            BITFLOW_OUT=out,
            BITFLOW_RUNS=",".join(runs),
            RUST_MIN_STACK=str(1 << 30),
            RUSTFLAGS="--sysroot %s -Zmir-opt-level=0 -Cpanic=abort --cap-lints allow" % os.path.join(BUILD, "sysroot-%d" % pw),
            CARGO_PROFILE_DEV_DEBUG_ASSERTIONS="true" if checks else "false",
            CARGO_PROFILE_DEV_OVERFLOW_CHECKS="true" if checks else "false",
            CARGO_TERM_COLOR="never",
        )
        cmd = [
            "cargo", "+nightly", "check", "--offline", "--lib", "--manifest-path", os.path.join(REPO, "Cargo.toml"),
            "--target", TARGETS[pw], "--target-dir", os.path.join(tmp, "target"),
        ]
        r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if not os.path.exists(out):
            raise Unanalysable("the library does not build on core alone, or the analysis stopped:\n" + r.stdout[-4000:])
        with open(out) as f:
            s = json.load(f)
        if s["error"]:
            raise Unanalysable(s["error"])
        return Summary(s, checks)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


@contextlib.contextmanager
def lock_file_kept():
    """cargo may want to write a lock file next to the manifest: keep the tree as it was."""
    lock = os.path.join(REPO, "Cargo.lock")
    before = open(lock, "rb").read() if os.path.exists(lock) else None
    try:
        yield
    finally:
        if before is None:
            if os.path.exists(lock):
                os.remove(lock)
        elif not os.path.exists(lock) or open(lock, "rb").read() != before:
            with open(lock, "wb") as f:
                f.write(before)


def analyse_all(runs, configs):
    """The summaries for all configurations, in their order; an analysis that fails raises when its turn comes."""
    with lock_file_kept(), ThreadPoolExecutor(len(configs)) as ex:
        fs = [ex.submit(analyse, runs, pw, checks) for pw, checks in configs]
        wait(fs)
    for f in fs:
        yield f.result()


class Summary:
    def __init__(self, s, checks):
        self.raw = s
        self.pw = s["pointer_width"]
        self.checks = checks
        if s["overflow_checks"] != checks:
            raise Unanalysable("overflow checks are fixed to %s by the build settings" % s["overflow_checks"])
        self.runs = {r["name"]: Run(r, self) for r in s["runs"]}
        self.lints = s["lints"]
        self.interface = s["interface"]

    @property
    def config(self):
        return "%d-bit target, overflow checks and debug assertions %s" % (self.pw, "on" if self.checks else "off")

    def run(self, name):
        r = self.runs.get(name)
        if r is None:
            raise Unanalysable("entry point %s was not analysed" % name)
        return r


class Run:
    def __init__(self, r, s):
        self.raw = r
        self.name = r["name"]
        self.summary = s
        self.vars = r["vars"]
        self.error = r["error"]

    def load(self, m, assign=None, rename=None):
        """Node numbers in manager m; `assign` fixes variables."""
        ids = [0, 1]
        order = self.vars
        vs = []
        for n in order:
            if assign is not None and n in assign:
                vs.append(1 if assign[n] else 0)
            else:
                vs.append(m.var(rename(n) if rename else n))
        for v, lo, hi in self.raw["nodes"]:
            ids.append(m.ite(vs[v], ids[hi], ids[lo]))
        return ids

    def evaluate(self, node, a):
        nodes = self.raw["nodes"]
        while node > 1:
            v, lo, hi = nodes[node - 2]
            node = hi if a.get(self.vars[v], 0) else lo
        return node

    def path(self, a):
        """Blocks of the library that the input reaches, and how selective each is."""
        from bdd import Bdd

        m = Bdd(self.vars)
        ids = self.load(m)
        out = []
        for v in self.raw["visits"]:
            if self.evaluate(v["guard"], a):
                out.append((m.count(ids[v["guard"]], self.vars), v["fn"], v["at"]))
        seen, lines = set(), []
        for n, f, at in out:
            if (f, at) not in seen:
                seen.add((f, at))
                lines.append((n, f, at))
        return lines


class Enum:
    """An exported enum value: variant name -> (guard, fields)."""

    def __init__(self, j, ids, g=1):
        self.ty = j["ty"]
        self.g = {}
        self.f = {}
        for v in j["variants"]:
            self.g[v["name"]] = ids[v["guard"]]
            self.f[v["name"]] = {k: value(x, ids) for k, x in v["fields"].items()}

    def guard(self, n):
        return self.g.get(n, 0)


class Int:
    def __init__(self, j, ids):
        self.ty = j["ty"]
        self.bits = [ids[b] for b in j["bits"]]
        if self.ty == "bool":
            self.bits = self.bits[:1]


class Struct:
    def __init__(self, j, ids):
        self.ty = j["ty"]
        self.f = {k: value(x, ids) for k, x in j["fields"].items()}


def value(j, ids):
    if j is None:
        return None
    if "bits" in j:
        return Int(j, ids)
    if "variants" in j:
        return Enum(j, ids)
    return Struct(j, ids)


def kinds(v):
    """(extension, name) -> guard for an instruction-kind value."""
    out = {}
    for e in v.g:
        fs = v.f[e]
        if len(fs) != 1:
            raise Unanalysable("instruction kind %s has %d fields" % (e, len(fs)))
        (inner,) = fs.values()
        for n in inner.g:
            out[(e, n)] = inner.g[n]
    return out


class Slot:
    """Optional integer: present guard and bits."""

    def __init__(self, v):
        self.some = v.guard("Some")
        self.none = v.guard("None")
        f = v.f.get("Some")
        self.bits = list(f.values())[0].bits if f else []
        self.ty = list(f.values())[0].ty if f else None


class Decoded:
    """Summary of a Result<Instruction, DecodingError> over all inputs."""

    def __init__(self, run, m, **k):
        self.run = run
        self.m = m
        if run.error:
            raise Unanalysable("%s: %s" % (run.name, run.error))
        ids = run.load(m, **k)
        self.ids = ids
        self.returns = ids[run.raw["returns"]]
        self.universe = ids[run.raw["universe"]]
        r = value(run.raw["result"], ids) if run.raw["result"] else None
        self.ok = r.guard("Ok") if r else 0
        self.err = {}
        self.kinds, self.fmt = {}, {}
        self.rd = self.rs1 = self.rs2 = self.imm = None
        self.compressed = 0
        if r and "Err" in r.f:
            e = list(r.f["Err"].values())[0]
            self.err = dict(e.g)
        if r and "Ok" in r.f:
            i = list(r.f["Ok"].values())[0].f
            self.kinds = kinds(i["opc"])
            self.fmt = dict(i["inst_format"].g)
            self.rd, self.rs1, self.rs2, self.imm = (Slot(i[n]) for n in ("rd", "rs1", "rs2", "imm"))
            self.compressed = m.AND(i["is_compressed"].bits[0], self.ok)
            self.fields = sorted(i)

    def slot(self, n):
        return getattr(self, n)
