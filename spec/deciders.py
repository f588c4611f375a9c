"""One decider per property. Each compares analysis summaries with the tables in
riscv.py or with one another, and reports every difference as a violated obligation."""
import re

from bdd import Bdd
from riscv import ABI, BOTH, CSR, TABLE, Spec
from summary import Decoded, Enum, Int, Slot, Struct, Unanalysable, kinds, value
from context import show_word, word_of
from text import Text

ISAS = ("Rv32", "Rv64")
WIDTHS = (32, 16)
SLOTS = ("rd", "rs1", "rs2", "imm")

KINDS = {}
for _t in TABLE:
    KINDS.setdefault(_t.key, []).append(_t)
LENGTH = {k: v[0].width for k, v in KINDS.items()}
ONLY = {}
for _k, _v in KINDS.items():
    _i = set(i for t in _v for i in t.isas)
    if len(_i) == 1:
        ONLY[_k] = list(_i)[0]
# public types with values
PUBLIC = ["Instruction", "OpcodeKind", "InstFormat", "DecodingError"] + sorted("%sOpcode" % e for e in set(k[0] for k in KINDS))


def kn(k):
    return "%s::%s" % k


def entry(k, isa):
    """Table entry of a kind for an ISA width (the other width's when it has none)."""
    for t in KINDS[k]:
        if isa in t.isas:
            return t
    return KINDS[k][0]


def manager_for(c, run):
    return c.manager(run.vars)


def decoded(c, s, width, isa):
    r = c.checked(s.run("decode/%d/%s" % (width, isa)))
    m = manager_for(c, r)
    return m, Decoded(r, m)


def spec(c, m, width, isa):
    key = (id(m), width, isa)
    cache = c.__dict__.setdefault("specs", {})
    if key not in cache:
        cache[key] = Spec(m, width, isa)
    return cache[key]


def kind_at(d, m, a):
    for k, g in d.kinds.items():
        if m.evaluate(g, a):
            return kn(k)
    for e, g in d.err.items():
        if m.evaluate(g, a):
            return "error " + e
    return "nothing"


def says(d, m):
    return lambda a: "decoding gives " + kind_at(d, m, a)


def spec_says(sp, m):
    def f(a):
        for t, g in sp.insts:
            if m.evaluate(g, a):
                return "the manual assigns " + kn(t.key)
        return "the manual assigns nothing supported"

    return f


def both(*fs):
    return lambda a: "; ".join(f(a) for f in fs)


def leaves(c, run, m, ids, what, rule, skip=0, show=None):
    """No panic, failed assertion, undefined operation or endless loop is reachable."""
    n = run.raw["stats"]["obligations"]
    bad = 0
    for l in run.raw["leaves"]:
        g = m.DIFF(ids[l["guard"]], skip)
        where = " < ".join("%s (%s)" % (f, at) for f, at in l["stack"][-4:][::-1])
        fns = l["stack"][-1][0] if l["stack"] else "?"
        if not c.empty(m, g, rule, "%s: %s in %s: %s" % (run.name, l["kind"], fns, l["msg"]),
                       "%s can %s: %s at %s" % (what, {"panic": "panic", "divergence": "loop forever"}.get(l["kind"], "perform an undefined operation"),
                                                l["msg"], where), run, show=show):
            bad += 1
    c.passed(rule + " (reachable program points)", max(0, n - bad))


def returns_everywhere(c, run, m, ids, what, rule, show=None):
    lost = m.DIFF(ids[run.raw["universe"]], ids[run.raw["returns"]])
    for l in run.raw["leaves"]:
        lost = m.DIFF(lost, ids[l["guard"]])
    c.empty(m, lost, rule, "%s: no result" % run.name, what + " does not return", run, show=show)


# --- C01 ---------------------------------------------------------------------------------------
def c01(c, s):
    for w in WIDTHS:
        for isa in ISAS:
            m, d = decoded(c, s, w, isa)
            what = "decoding a %d-bit word for %s" % (w, isa)
            leaves(c, d.run, m, d.ids, what, "no reachable abort")
            returns_everywhere(c, d.run, m, d.ids, what, "a value is returned for every word")
            part = 0
            for g in [d.ok] + list(d.err.values()):
                part = m.OR(part, g)
            c.empty(m, m.DIFF(d.returns, part), "the result is an instruction or an error", "%s: neither" % d.run.name,
                    what + " returns neither an instruction nor an error", d.run)


# --- C02 ---------------------------------------------------------------------------------------
def show_kind(kg, m):
    def f(a, run):
        k = [kn(k) for k, g in kg.items() if m.evaluate(g, a)]
        return "%s, kind %s" % (show_word(a, run), k[0] if k else "?")

    return f


def c02(c, s):
    for w in WIDTHS:
        for isa in ISAS:
            r = c.checked(s.run("parse_opcode/%d/%s" % (w, isa)))
            m = manager_for(c, r)
            ids = r.load(m)
            what = "parsing the opcode of a %d-bit word for %s" % (w, isa)
            leaves(c, r, m, ids, what, "no reachable abort")
            returns_everywhere(c, r, m, ids, what, "a value is returned for every input")
        for f in ("parse_rd/%d" % w, "parse_rs1/%d" % w, "parse_rs2/%d" % w, "parse_imm/%d/Rv32" % w, "parse_imm/%d/Rv64" % w):
            r = c.checked(s.run(f))
            m = manager_for(c, r)
            ids = r.load(m)
            kg = kinds(value(r.raw["inputs"]["kind"], ids))
            sh = show_kind(kg, m)
            what = "%s of a %d-bit word" % (f.split("/")[0], w)
            leaves(c, r, m, ids, what, "no reachable abort", show=sh)
            returns_everywhere(c, r, m, ids, what, "a value is returned for every input", show=sh)
            res = value(r.raw["result"], ids)
            other = m.OR(*[g for k, g in kg.items() if LENGTH.get(k, w) != w])
            c.empty(m, m.AND(other, res.guard("Ok")), "a kind of the other length gives an error", "%s: other length accepted" % f,
                    what + " accepts an instruction kind of the other length", r, show=sh)
            err = list(res.f["Err"].values())[0] if "Err" in res.f else None
            right = err.guard("Not%dBitInst" % w) if err else 0
            c.empty(m, m.DIFF(m.AND(other, ids[r.raw["returns"]]), m.OR(right, res.guard("Ok"))), "a kind of the other length gives the error of the word's length",
                    "%s: other error for the other length" % f, what + " refuses an instruction kind of the other length with another error than the one for that", r, show=sh)
            missing = [k for k in KINDS if k not in kg and k != ("Zifencei", "FENCE_I")]
            if missing:
                c.violate("%s: kind missing" % f, "instruction kinds missing from the library: %s" % ", ".join(map(kn, missing)))
    r = c.checked(s.run("try_from"))
    m = manager_for(c, r)
    ids = r.load(m)
    leaves(c, r, m, ids, "converting a machine integer", "no reachable abort")
    returns_everywhere(c, r, m, ids, "converting a machine integer", "a value is returned for every input")


# --- C03 ---------------------------------------------------------------------------------------
OPTIONS = ("alternate", "sign", "zero padding", "debug radix", "fill", "alignment", "width", "precision")


def options_of(a):
    """Variables in the order of the setters: one bit, tag and bits of an optional value, and so on."""
    out, at = [], 0
    for name, bits in zip(OPTIONS, (0, 1, 0, 1, 0, 2, 16, 16)):
        v = [a.get("a%d" % (at + i), 0) for i in range(bits + 1)]
        at += bits + 1
        if v[0]:
            out.append(name if bits == 0 else "%s %d" % (name, int("".join(map(str, v[1:])), 2)))
    return ", formatting options: " + (", ".join(out) or "none")


def show_options(a, run):
    return show_word(a, run) + options_of(a)


def refusal(c, r, m, ids, what, show=None):
    """Formatting fails exactly when the sink refused a write."""
    res = value(r.raw["result"], ids)
    ref = ids[r.raw["refused"]]
    c.empty(m, m.AND(ref, res.guard("Ok")), "failure when the sink refuses", "%s: refusal ignored" % r.name,
            what + " reports success although the sink refused a write", r, show=show)
    c.empty(m, m.DIFF(res.guard("Err"), ref), "success when the sink accepts", "%s: failure without refusal" % r.name,
            what + " fails although the sink refused nothing", r, show=show)
    if ref == 0:
        c.violate("%s: no write" % r.name, what + " never writes to the sink", config=r.summary.config)


def c03(c, s):
    for w in WIDTHS:
        for isa in ISAS:
            r = c.checked(s.run("display/%d/%s" % (w, isa)))
            m = manager_for(c, r)
            ids = r.load(m)
            what = "printing a decoded %d-bit instruction (%s)" % (w, isa)
            leaves(c, r, m, ids, what, "no reachable abort")
            returns_everywhere(c, r, m, ids, what, "printing returns")
            res = value(r.raw["result"], ids)
            c.empty(m, m.DIFF(ids[r.raw["returns"]], res.guard("Ok")), "success when the sink accepts", "%s: failure without refusal" % r.name,
                    what + " fails although the sink accepts everything", r)
            # any formatting options; when the options are used to pad, widths of up to three bits
            r = s.run("options/%d/%s" % (w, isa))
            if r.error:
                r = s.run("narrow-options/%d/%s" % (w, isa))
            c.checked(r)
            m = manager_for(c, r)
            ids = r.load(m)
            opt = what + " with formatting options"
            leaves(c, r, m, ids, opt, "no reachable abort", show=show_options)
            returns_everywhere(c, r, m, ids, opt, "printing returns", show=show_options)
            res = value(r.raw["result"], ids)
            c.empty(m, m.DIFF(ids[r.raw["returns"]], res.guard("Ok")), "success when the sink accepts", "%s: failure without refusal" % r.name,
                    opt + " fails although the sink accepts everything", r, show=show_options)
            r = c.checked(s.run("refuse/%d/%s" % (w, isa)))
            m = manager_for(c, r)
            ids = r.load(m)
            refusal(c, r, m, ids, what)
            lf = [l for l in r.raw["leaves"] if m.AND(ids[l["guard"]], ids[r.raw["universe"]])]
            plain = {(l["msg"], tuple(map(tuple, l["stack"]))) for l in s.run("display/%d/%s" % (w, isa)).raw["leaves"]}
            for l in lf:
                if (l["msg"], tuple(map(tuple, l["stack"]))) not in plain:
                    c.empty(m, ids[l["guard"]], "no reachable abort", "%s: %s" % (r.name, l["msg"]), what + " aborts when the sink refuses: " + l["msg"], r)


# --- C04 ---------------------------------------------------------------------------------------
def c04(c, s):
    for w in WIDTHS:
        for isa in ISAS:
            m, d = decoded(c, s, w, isa)
            long = m.AND(m.var("w0"), m.var("w1"))
            wrong = long if w == 16 else m.NOT(long)
            c.empty(m, m.AND(wrong, d.ok), "words of the wrong length are rejected", "%s: wrong length accepted" % d.run.name,
                    "a word of the wrong length decodes as a %d-bit instruction on %s" % (w, isa), d.run, found=says(d, m))
            flag = m.DIFF(d.ok, d.compressed) if w == 16 else d.compressed
            c.empty(m, flag, "the compressed flag tells the length", "%s: compressed flag" % d.run.name,
                    "the compressed flag of a decoded %d-bit instruction is wrong on %s" % (w, isa), d.run, found=says(d, m))
            for k, g in sorted(d.kinds.items()):
                if k in LENGTH:
                    c.empty(m, m.AND(d.ok, g) if LENGTH[k] != w else 0, "the kind belongs to the length", "%s: kind %s" % (d.run.name, kn(k)),
                            "a %d-bit word decodes to the kind %s on %s" % (w, kn(k), isa), d.run)
            zero = m.AND(*[m.NOT(m.var("w%d" % i)) for i in range(w)])
            c.empty(m, m.AND(zero, d.ok), "the all-zero word is rejected", "%s: zero accepted" % d.run.name,
                    "the all-zero %d-bit word decodes on %s" % (w, isa), d.run, found=says(d, m))


# --- C05 .. C08 ----------------------------------------------------------------------------------
def sound(c, s, w):
    for isa in ISAS:
        m, d = decoded(c, s, w, isa)
        sp = spec(c, m, w, isa)
        want = {t.key: g for t, g in sp.insts}
        for k, g in sorted(d.kinds.items()):
            extra = m.DIFF(m.AND(d.ok, g), want.get(k, 0))
            c.empty(m, extra, "accepted words are those the manual assigns", "%s: accepted as %s" % (d.run.name, kn(k)),
                    "a %d-bit word that is not %s decodes as %s on %s" % (w, kn(k), kn(k), isa), d.run, found=spec_says(sp, m))
        if not d.kinds:
            c.violate("%s: nothing accepted" % d.run.name, "no word decodes")


def complete(c, s, w):
    for isa in ISAS:
        m, d = decoded(c, s, w, isa)
        sp = spec(c, m, w, isa)
        for t, g in sp.insts:
            got = m.AND(d.ok, d.kinds.get(t.key, 0))
            c.empty(m, m.DIFF(g, got), "every encoding the manual assigns is accepted as that instruction", "%s: missed %s" % (d.run.name, kn(t.key)),
                    "a valid encoding of %s is not decoded as %s on %s" % (kn(t.key), kn(t.key), isa), d.run, found=says(d, m))


def c05(c, s):
    sound(c, s, 32)


def c06(c, s):
    complete(c, s, 32)


def c07(c, s):
    sound(c, s, 16)


def c08(c, s):
    complete(c, s, 16)


# --- C09 .. C12 ----------------------------------------------------------------------------------
def operands(c, s, w, slots):
    for isa in ISAS:
        m, d = decoded(c, s, w, isa)
        sp = spec(c, m, w, isa)
        for k, g in sorted(d.kinds.items()):
            g = m.AND(g, d.ok)
            if k not in KINDS:
                c.violate("%s: unknown kind %s" % (d.run.name, kn(k)), "the operands of %s are not in the tables" % kn(k))
                continue
            t = entry(k, isa)
            for n in slots:
                sl = d.slot(n)
                want = sp.imm(t.imm) if n == "imm" else sp.reg(getattr(t, n), s.pw)
                what = "%s of %s" % ({"rd": "the destination register", "rs1": "the first source register",
                                      "rs2": "the second source register", "imm": "the immediate"}[n], kn(k))
                key = "%s: %s of %s" % (d.run.name, n, kn(k))
                if want is None:
                    c.empty(m, m.AND(g, sl.some), "absent operands are absent", key, what + " is reported although the instruction has none (%s)" % isa, d.run)
                    continue
                c.empty(m, m.DIFF(g, sl.some), "operands are present", key, what + " is missing on " + isa, d.run)
                if sl.bits and len(sl.bits) != len(want):
                    c.violate(key + " width", what + " has %d bits" % len(sl.bits))
                    continue
                reg = m.AND(g, sl.some)

                def found(a, sl=sl, want=want):
                    x = sum(m.evaluate(b, a) << i for i, b in enumerate(sl.bits))
                    y = sum(m.evaluate(b, a) << i for i, b in enumerate(want))
                    bad = [i for i, (p, q) in enumerate(zip(sl.bits, want)) if m.evaluate(p, a) != m.evaluate(q, a)]
                    return "reported 0x%x, encoded 0x%x (bits %s differ)" % (x, y, ", ".join(map(str, bad)))

                diff = 0
                for p, q in zip(sl.bits, want):
                    diff = m.OR(diff, m.AND(reg, m.XOR(p, q)))
                c.empty(m, diff, "every bit of the operand comes from its place in the word", key, what + " is not the encoded value on " + isa, d.run, found=found)


REGS = ("rd", "rs1", "rs2")


def c09(c, s):
    operands(c, s, 32, REGS)


def c10(c, s):
    operands(c, s, 16, REGS)


def c11(c, s):
    operands(c, s, 32, ("imm",))


def c12(c, s):
    operands(c, s, 16, ("imm",))


# --- C13 -------------------------------------------------------------------------------------------
def c13(c, s):
    for w in WIDTHS:
        ds = {}
        for isa in ISAS:
            m, d = decoded(c, s, w, isa)
            ds[isa] = d
            for k, g in sorted(d.kinds.items()):
                if k in ONLY:
                    c.empty(m, m.AND(d.ok, g) if ONLY[k] != isa else 0, "no instruction of the other width", "%s: %s" % (d.run.name, kn(k)),
                            "%s, which exists on %s only, is decoded on %s" % (kn(k), ONLY[k], isa), d.run)
        s32, s64 = spec(c, m, w, "Rv32"), spec(c, m, w, "Rv64")
        only64 = m.DIFF(s64.valid, s32.valid)
        e32 = ds["Rv32"].err.get("OnlyRv64Inst", 0)
        e64 = ds["Rv64"].err.get("OnlyRv64Inst", 0)
        c.empty(m, e64, "the only-on-RV64 error never appears on RV64", "%s: only-rv64 error" % ds["Rv64"].run.name,
                "a %d-bit word is refused on Rv64 as RV64-only" % w, ds["Rv64"].run)
        c.empty(m, m.DIFF(e32, only64), "the only-on-RV64 error means valid on RV64 only", "%s: only-rv64 error" % ds["Rv32"].run.name,
                "a %d-bit word that is not RV64-only is refused on Rv32 as RV64-only" % w, ds["Rv32"].run, found=spec_says(s64, m))
        for t, g in s64.insts:
            if w == 16 or ONLY.get(t.key) == "Rv64":
                c.empty(m, m.DIFF(m.DIFF(g, s32.valid), e32), "RV64-only words are refused as such on RV32",
                        "%s: %s not refused as only-rv64" % (ds["Rv32"].run.name, kn(t.key)),
                        "%s is not refused on Rv32 with the only-on-RV64 error" % kn(t.key), ds["Rv32"].run, found=says(ds["Rv32"], m))


# --- C14 -------------------------------------------------------------------------------------------
def differs(m, a, b):
    """Inputs on which two decoded instructions differ (both successful)."""
    r = 0
    out = []
    for k in sorted(set(a.kinds) | set(b.kinds)):
        out.append(("kind", m.XOR(a.kinds.get(k, 0), b.kinds.get(k, 0))))
    for k in sorted(set(a.fmt) | set(b.fmt)):
        out.append(("format", m.XOR(a.fmt.get(k, 0), b.fmt.get(k, 0))))
    out.append(("compressed flag", m.XOR(a.compressed, b.compressed)))
    for n in SLOTS:
        x, y = a.slot(n), b.slot(n)
        out.append((n, m.XOR(x.some, y.some)))
        for p, q in zip(x.bits, y.bits):
            out.append((n, m.AND(x.some, y.some, m.XOR(p, q))))
    agg = {}
    for n, g in out:
        agg[n] = m.OR(agg.get(n, 0), g)
    return agg


def c14(c, s):
    for w in WIDTHS:
        m, a = decoded(c, s, w, "Rv32")
        m, b = decoded(c, s, w, "Rv64")
        s32, s64 = spec(c, m, w, "Rv32"), spec(c, m, w, "Rv64")
        g32, g64 = {t.key: g for t, g in s32.insts}, {t.key: g for t, g in s64.insts}
        diff = 0
        for t, g in s32.insts:
            diff = m.OR(diff, m.AND(g, m.DIFF(s64.valid, g64.get(t.key, 0))))
        same = m.DIFF(m.AND(a.ok, b.ok), diff)
        f = both(lambda x: "Rv32: " + kind_at(a, m, x), lambda x: "Rv64: " + kind_at(b, m, x))
        for n, g in differs(m, a, b).items():
            c.empty(m, m.AND(same, g), "both widths decode the word alike", "decode/%d: %s differs" % (w, n),
                    "the %s of a %d-bit word differs between Rv32 and Rv64" % (n, w), a.run, found=f)
        rej = m.AND(m.OR(*a.err.values()), m.OR(*b.err.values()))
        if w == 32:
            # the function code of a shift by an immediate is 7 bits long on RV32 and 6 on RV64
            shift = m.AND(s32.eq(6, 0, 0b0010011), s32.eq(13, 12, 1))
            rej = m.DIFF(rej, m.AND(shift, a.err.get("InvalidFunct7", 0), b.err.get("InvalidFunct6", 0)))
        for e in sorted(set(a.err) | set(b.err)):
            c.empty(m, m.AND(rej, m.XOR(a.err.get(e, 0), b.err.get(e, 0))), "both widths reject the word alike", "decode/%d: error %s" % (w, e),
                    "a %d-bit word rejected on both widths is rejected with different errors" % w, a.run, found=f)


# --- C15 -------------------------------------------------------------------------------------------
def c15(c, s):
    for w in WIDTHS:
        for isa in ISAS:
            r = c.checked(s.run("decode/%d/%s" % (w, isa)))
            order = [x for v in r.vars for x in (v, "v" + v[1:])]
            m = c.manager(order)
            d = Decoded(r, m)
            ren = {v: "v" + v[1:] for v in r.vars}
            neq = m.OR(*[m.XOR(m.var(v), m.var(ren[v])) for v in r.vars])

            def show(a, run):
                return "words 0x%0*x and 0x%0*x" % (w // 4, word_of(a), w // 4, word_of(a, "v"))

            for k, g in sorted(d.kinds.items()):
                g = m.AND(g, d.ok)
                if g == 0:
                    continue
                eq = m.AND(g, m.rename(g, ren))
                # ordering bits of the shadow-stack swap are not represented
                if k[0] == "Zicfiss" and k[1].startswith("SSAMOSWAP"):
                    ne = m.OR(*[m.XOR(m.var(v), m.var(ren[v])) for v in r.vars if v not in ("w25", "w26")])
                else:
                    ne = neq
                for n in SLOTS:
                    sl = d.slot(n)
                    so = sl.some
                    eq = m.DIFF(eq, m.XOR(m.AND(g, so), m.rename(m.AND(g, so), ren)))
                    for b in sl.bits:
                        b = m.AND(g, so, b)
                        eq = m.DIFF(eq, m.XOR(b, m.rename(b, ren)))
                for f in d.fmt.values():
                    f = m.AND(f, g)
                    eq = m.DIFF(eq, m.XOR(f, m.rename(f, ren)))
                f = m.AND(d.compressed, g)
                eq = m.DIFF(eq, m.XOR(f, m.rename(f, ren)))
                c.empty(m, m.AND(eq, ne), "different words decode differently", "%s: %s" % (r.name, kn(k)),
                        "two different %d-bit words decode to equal %s instructions on %s" % (w, kn(k), isa), r, show=show)


# --- C16 -------------------------------------------------------------------------------------------
def operand_names(asm):
    return [x for x in re.findall(r"[a-z0-9]+", asm or "") if x in ("rd", "rs1", "rs2", "imm", "csr")]


def c16(c, s):
    fr = c.checked(s.run("get_format"))
    fm = manager_for(c, fr)
    fids = fr.load(fm)
    fk = kinds(value(fr.raw["inputs"]["kind"], fids))
    fv = value(fr.raw["result"], fids)
    of = {}

    def show(k):
        return lambda a, run: "kind " + kn(k)

    for l in fr.raw["leaves"]:
        c.empty(fm, fids[l["guard"]], "asking a kind for its format returns", "get_format: " + l["msg"], "asking a kind for its format aborts: " + l["msg"], fr,
                show=show_kind(fk, fm))
    for k, g in sorted(fk.items()):
        hit = [n for n, x in fv.g.items() if fm.AND(g, x)]
        of[k] = hit[0] if len(hit) == 1 else None
        if k not in KINDS:
            c.violate("get_format: unknown kind %s" % kn(k), "the format of %s is not in the tables" % kn(k))
            continue
        want = KINDS[k][0].fmt
        c.empty(fm, fm.DIFF(g, fv.guard(want)), "the kind has the manual's format", "get_format: %s" % kn(k),
                "the format of %s is %s, expected %s" % (kn(k), of[k], want), fr, show=show(k))
    for w in WIDTHS:
        for isa in ISAS:
            m, d = decoded(c, s, w, isa)
            for k, g in sorted(d.kinds.items()):
                g = m.AND(g, d.ok)
                if k not in KINDS:
                    continue
                t = entry(k, isa)
                c.empty(m, m.DIFF(g, d.fmt.get(t.fmt, 0)), "the instruction has the manual's format", "%s: format of %s" % (d.run.name, kn(k)),
                        "the format reported for %s is not %s" % (kn(k), t.fmt), d.run,
                        found=lambda a: "reported " + ", ".join(n for n, x in d.fmt.items() if m.evaluate(x, a)))
                c.empty(m, m.DIFF(g, d.fmt.get(of.get(k), 0)), "reported format and queried format agree", "%s: format of %s not the queried one" % (d.run.name, kn(k)),
                        "the format reported for %s differs from the one its kind has" % kn(k), d.run)
                for o in operand_names(t.asm):
                    sl = d.slot("rs2" if o == "csr" else o)
                    c.empty(m, m.DIFF(g, sl.some), "operands named by the format are present", "%s: %s of %s absent" % (d.run.name, o, kn(k)),
                            "the format of %s names %s but the decoded instruction has none" % (kn(k), o), d.run)


# --- text -----------------------------------------------------------------------------------------
def printed(c, s, w, isa, way):
    """Text of the decoded instructions: (manager, run, decoded, text)."""
    m, d = decoded(c, s, w, isa)
    r = c.checked(s.run("%s/%d/%s" % (way, w, isa)))
    if r.vars != d.run.vars:
        raise Unanalysable("variable order differs between %s and %s" % (r.name, d.run.name))
    return m, r, d, Text(m, r.load(m), r.raw["text"])


# plain `{}` and `{:#}`, which must not change the text
WAYS = [(way, w, isa) for way in ("display", "alternate") for w in WIDTHS for isa in ISAS]


# --- C17 -------------------------------------------------------------------------------------------
def c17(c, s):
    shown = {}
    types = set()
    for n, r in s.runs.items():
        if not n.startswith("show/"):
            continue
        exts = [e for e in set(k[0] for k in KINDS) if n == "show/%sOpcode" % e]
        if not exts and n != "show/OpcodeKind":
            continue
        c.checked(r)
        m = manager_for(c, r)
        ids = r.load(m)
        v = value(r.raw["inputs"]["value"], ids)
        if n == "show/OpcodeKind":
            kg = kinds(v)
        else:
            types.add(exts[0])
            kg = {(exts[0], x): g for x, g in v.g.items()}
        leaves(c, r, m, ids, "printing an instruction kind", "kinds can be printed", show=show_kind(kg, m))
        text = Text(m, ids, r.raw["text"])
        for k, g in sorted(kg.items()):
            if k not in KINDS:
                c.violate("%s: unknown kind %s" % (n, kn(k)), "%s is not in the tables" % kn(k))
                continue
            want = KINDS[k][0].mnem
            cover = 0
            for got, rg in sorted(text.whole(g).items()):
                cover = m.OR(cover, rg)
                c.empty(m, 0 if got == want else rg, "the kind prints its standard mnemonic", "%s: %s" % (n, kn(k)),
                        "the kind %s prints `%s`, expected `%s`" % (kn(k), got, want), r, show=lambda a, run, k=k: "kind " + kn(k))
                if n == "show/OpcodeKind":
                    shown[k] = got
            c.empty(m, m.DIFF(g, cover), "the kind prints something", "%s: %s prints nothing" % (n, kn(k)), "the kind %s prints nothing" % kn(k), r)
    if not shown:
        raise Unanalysable("instruction kinds cannot be printed")
    for e in set(k[0] for k in KINDS) - types:
        raise Unanalysable("the kinds of %s cannot be printed" % e)
    inv = {}
    for k, t in shown.items():
        inv.setdefault(t.lower(), []).append(k)
    for t, ks in sorted(inv.items()):
        ks = sorted(ks)
        if len(ks) > 1:
            c.violate("duplicate mnemonic %s" % t, "%s share the mnemonic `%s`" % (" and ".join(map(kn, ks)), t), rule="distinct kinds have distinct mnemonics")
        else:
            c.passed("distinct kinds have distinct mnemonics")
    for way, w, isa in WAYS:
        m, r, d, text = printed(c, s, w, isa, way)
        words = text.first_word(d.ok)
        for k, g in sorted(d.kinds.items()):
            if k not in KINDS:
                continue
            want = KINDS[k][0].mnem
            c.empty(m, m.DIFF(m.AND(g, d.ok), words.get(want, 0)), "the text starts with the mnemonic", "%s: mnemonic of %s" % (r.name, kn(k)),
                    "the text of a decoded %s does not start with `%s`" % (kn(k), want), r, found=lambda a: "it prints `%s`" % text.at(a))


# --- C18 -------------------------------------------------------------------------------------------
def c18(c, s):
    for way, w, isa in WAYS:
        m, r, d, text = printed(c, s, w, isa, way)
        slots = {n: d.slot(n) for n in SLOTS}
        same = 0
        if way == "alternate":
            _, p, _, plain = printed(c, s, w, isa, "display")
            both = m.AND(d.ok, p.load(m)[p.raw["returns"]], r.load(m)[r.raw["returns"]])
            same = plain.same(both, text)
            c.empty(m, m.DIFF(both, same), "the alternate form flag changes nothing", "%s: differs from the plain text" % r.name,
                    "the alternate form of a decoded instruction is another text", r, found=lambda a: "`%s` and `%s`" % (plain.at(a), text.at(a)))
        for k, g in sorted(d.kinds.items()):
            g = m.AND(g, d.ok)
            if k not in KINDS:
                c.violate("%s: unknown kind %s" % (r.name, kn(k)), "%s is not in the tables" % kn(k))
                continue
            t = entry(k, isa)
            # printing is defined where the operands are there; their presence is another property
            reg = g
            for o in operand_names(t.asm):
                reg = m.AND(reg, d.slot("rs2" if o == "csr" else o).some)
            if reg == 0:
                continue
            # a text that is the plain one has been read before
            bad = m.DIFF(reg, same)
            for asm in [t.asm] + t.also:
                if bad == 0:
                    break
                bad = m.DIFF(bad, text.operands(bad, asm, slots))
            c.empty(m, bad, "operands are printed in order with their values", "%s: operands of %s" % (r.name, kn(k)),
                    "the text of a decoded %s is not `%s %s` with the decoded values" % (kn(k), t.mnem, t.asm), r, found=lambda a: "it prints `%s`" % text.at(a))


# --- C19 -------------------------------------------------------------------------------------------
FIELDS = {
    32: {"InvalidFunct3": [(14, 12)], "InvalidFunct5": [(31, 27), (24, 20)], "InvalidFunct6": [(31, 26)], "InvalidFunct7": [(31, 25)]},
    16: {"InvalidFunct3": [(15, 13)], "InvalidFunct5": [], "InvalidFunct6": [(15, 10)], "InvalidFunct7": []},
}


def c19(c, s):
    for w in WIDTHS:
        m, a = decoded(c, s, w, "Rv32")
        m, b = decoded(c, s, w, "Rv64")
        ok = m.OR(a.ok, b.ok)
        long = m.AND(m.var("w0"), m.var("w1"))
        wrong = long if w == 16 else m.NOT(long)
        for isa, d in (("Rv32", a), ("Rv64", b)):
            sp = spec(c, m, w, isa)
            for e, g in sorted(d.err.items()):
                key = "%s: %s" % (d.run.name, e)
                if e in FIELDS[w]:
                    fs = FIELDS[w][e]
                    if not fs:
                        c.empty(m, g, "the blamed field exists", key, "a %d-bit word is refused with %s but has no such field" % (w, e), d.run)
                        continue
                    fix = m.OR(*[m.exists(ok, ["w%d" % i for i in range(lo, hi + 1)]) for hi, lo in fs])
                    c.empty(m, m.DIFF(g, fix), "another value of the blamed field decodes", key,
                            "a %d-bit word is refused with %s on %s, but no value of bits %s makes it decodable" % (w, e, isa, " or ".join("%d..%d" % f for f in fs)), d.run)
                elif e in ("Not16BitInst", "Not32BitInst"):
                    c.empty(m, m.DIFF(g, wrong), "length errors mean wrong length", key,
                            "a %d-bit word of the right length is refused with %s on %s" % (w, e, isa), d.run)
                elif e == "IllegalInstruction":
                    c.empty(m, m.DIFF(g, reserved(m, w, sp)), "illegal means illegal or reserved", key,
                            "a %d-bit word is refused as illegal on %s although the manual assigns it" % (w, isa), d.run)
                elif e == "OnlyRv64Inst":
                    c.empty(m, m.DIFF(g, b.ok) if isa == "Rv32" else g, "only-on-RV64 words decode on RV64", key,
                            "a %d-bit word is refused on %s with %s but does not decode on Rv64" % (w, isa, e), d.run, found=lambda x: "Rv64: " + kind_at(b, m, x))


def reserved(m, w, sp):
    """Words that the manual defines as illegal or reserves on some width (and does not assign on this one)."""
    if w == 16:
        q = m.AND
        f3 = lambda v: sp.eq(15, 13, v)
        quad = lambda v: sp.eq(1, 0, v)
        r = m.AND(quad(0), f3(0), m.NOT(m.OR(*[sp.w[i] for i in range(5, 13)])))
        r = m.OR(r, m.AND(quad(0), f3(4)))
        r = m.OR(r, m.AND(quad(1), f3(1), sp.eq(11, 7, 0)))
        nzi = m.OR(*[sp.w[i] for i in (12, 6, 5, 4, 3, 2)])
        r = m.OR(r, m.AND(quad(1), f3(3), m.NOT(nzi)))
        r = m.OR(r, m.AND(quad(1), f3(4), sp.eq(12, 10, 7)))
        r = m.OR(r, m.AND(quad(1), f3(4), m.NOT(sp.w[11]), sp.w[12]), m.AND(quad(2), f3(0), sp.w[12]))
        r = m.OR(r, m.AND(quad(2), f3(2), sp.eq(11, 7, 0)))
        r = m.OR(r, m.AND(quad(2), f3(3), sp.eq(11, 7, 0)))
        r = m.OR(r, m.AND(quad(2), f3(4), sp.eq(12, 2, 0)))
        return m.DIFF(r, sp.valid)
    return m.NOT(sp.valid)


# --- C20 -------------------------------------------------------------------------------------------
def c20(c, s):
    for w in WIDTHS:
        parsed = {}
        for isa in ISAS:
            m, d = decoded(c, s, w, isa)
            r = c.checked(s.run("parse_opcode/%d/%s" % (w, isa)))
            ids = r.load(m)
            v = value(r.raw["result"], ids)
            ok = v.guard("Ok")
            found = lambda a: "decoding gives " + kind_at(d, m, a)
            c.empty(m, m.AND(m.XOR(ok, d.ok), d.returns, ids[r.raw["returns"]]), "decoding succeeds exactly when opcode parsing does",
                    "%s: success differs" % d.run.name, "decoding and opcode parsing disagree on whether a %d-bit word is valid on %s" % (w, isa), d.run, found=found)
            errs = list(v.f["Err"].values())[0].g if "Err" in v.f else {}
            for e in sorted(set(errs) | set(d.err)):
                c.empty(m, m.AND(m.XOR(errs.get(e, 0), d.err.get(e, 0)), d.returns, ids[r.raw["returns"]]), "decoding and opcode parsing give the same error",
                        "%s: error %s" % (d.run.name, e), "decoding and opcode parsing give different errors for a %d-bit word on %s" % (w, isa), d.run, found=found)
            pk = kinds(list(v.f["Ok"].values())[0]) if "Ok" in v.f else {}
            for k in sorted(set(pk) | set(d.kinds)):
                c.empty(m, m.AND(m.XOR(pk.get(k, 0), d.kinds.get(k, 0)), ok, d.ok), "decoding and opcode parsing give the same kind",
                        "%s: kind %s" % (d.run.name, kn(k)), "decoding and opcode parsing give different kinds for a %d-bit word on %s" % (w, isa), d.run, found=found)
            for n in SLOTS:
                name = "parse_imm/%d/%s" % (w, isa) if n == "imm" else "parse_%s/%d" % (n, w)
                r = c.checked(s.run(name))
                pm = manager_for(c, r)
                if name not in parsed:
                    kg = kinds(value(r.raw["inputs"]["kind"], r.load(pm)))
                    parsed[name] = {k: pm.pick(g) for k, g in kg.items()}
                sl = d.slot(n)
                for k, g in sorted(d.kinds.items()):
                    g = m.AND(g, d.ok)
                    if g == 0:
                        continue
                    a = parsed[name].get(k)
                    if a is None:
                        raise Unanalysable("kind %s is missing from %s" % (kn(k), name))
                    assign = {x: a.get(x, 0) for x in r.vars if x.startswith("a")}
                    ids = r.load(m, assign=assign)
                    v = value(r.raw["result"], ids)
                    reg = m.AND(g, ids[r.raw["returns"]])
                    bad = m.DIFF(reg, v.guard("Ok"))
                    if "Ok" in v.f:
                        ps = Slot(list(v.f["Ok"].values())[0])
                        reg = m.AND(reg, v.guard("Ok"))
                        bad = m.OR(bad, m.AND(reg, m.XOR(ps.some, sl.some)))
                        for p, q in zip(ps.bits, sl.bits):
                            bad = m.OR(bad, m.AND(reg, ps.some, sl.some, m.XOR(p, q)))
                    c.empty(m, bad, "decoded operands are the parsed operands", "%s: %s of %s" % (d.run.name, n, kn(k)),
                            "the decoded %s of %s differs from what the field parser returns (%d-bit, %s)" % (n, kn(k), w, isa), d.run)


# --- C21 -------------------------------------------------------------------------------------------
def c21(c, s):
    r = c.checked(s.run("try_from"))
    m = manager_for(c, r)
    t = Decoded(r, m)
    pw = len(r.vars)
    long = m.AND(m.var("w0"), m.var("w1"))
    for w, sel in ((32, long), (16, m.NOT(long))):
        dr = c.checked(s.run("decode/%d/Rv64" % w))
        d = Decoded(dr, m)
        fits = m.AND(sel, *[m.NOT(m.var("w%d" % i)) for i in range(w, pw)])
        f = lambda a: "conversion gives %s, decoding gives %s" % (kind_at(t, m, a), kind_at(d, m, a))
        c.empty(m, m.AND(fits, m.XOR(t.ok, d.ok)), "conversion succeeds when decoding does", "try_from: success differs at %d bits" % w,
                "converting an integer and decoding it as a %d-bit word for RV64 disagree" % w, r, found=f)
        for e in sorted(set(t.err) | set(d.err)):
            c.empty(m, m.AND(fits, m.XOR(t.err.get(e, 0), d.err.get(e, 0)), d.returns, t.returns), "same error", "try_from: error %s at %d bits" % (e, w),
                    "converting an integer and decoding it as a %d-bit word give different errors" % w, r, found=f)
        for n, g in differs(m, t, d).items():
            c.empty(m, m.AND(fits, t.ok, d.ok, g), "same instruction", "try_from: %s at %d bits" % (n, w),
                    "the %s of a converted integer differs from decoding it as a %d-bit word" % (n, w), r, found=f)
        c.empty(m, m.AND(m.DIFF(sel, fits), t.ok), "integers that do not fit are refused", "try_from: too large at %d bits" % w,
                "an integer that does not fit %d bits is converted" % w, r, found=f)
        c.empty(m, m.DIFF(m.DIFF(sel, fits), m.OR(*t.err.values())) if pw > w else 0, "integers that do not fit give an error", "try_from: too large aborts at %d bits" % w,
                "an integer that does not fit %d bits is not refused with an error" % w, r)
        c.empty(m, m.DIFF(m.AND(m.DIFF(sel, fits), m.OR(*t.err.values())), t.err.get("Not%dBitInst" % w, 0)) if pw > w else 0,
                "integers that do not fit give the error of the selected length", "try_from: error for too large at %d bits" % w,
                "an integer that does not fit %d bits is refused with another error than the one for that length" % w, r, found=says(t, m))


# --- C22 -------------------------------------------------------------------------------------------
def c22(c, s):
    l = s.lints
    for f in l["found"]:
        c.violate("lint: %s in %s" % (f["what"], f["fn"]), "%s in %s at %s" % (f["what"], f["fn"], f["at"]), path=[(0, f["fn"], f["at"])],
                  config=s.config, rule="no construct with effects outside of the arguments")
    c.passed("no construct with effects outside of the arguments", l["functions"] + l["blocks"] + l["items"] + l["expressions"])
    c.analysed[(s.config, "crate")] = {k: l[k] for k in ("functions", "blocks", "items", "expressions", "public_types")}
    for k in sorted(l["crates"]):
        if k in ("core", "compiler_builtins"):
            c.passed("linked crates are core only")
        else:
            c.violate("links %s" % k, "the library depends on the crate %s" % k, config=s.config, rule="linked crates are core only")
    if l["public_types"] < 5:
        c.violate("too few types", "only %d public types found in the library" % l["public_types"], config=s.config)
    c.passed("no interior mutability in public types", l["public_types"] - sum(f["what"].startswith("public type") for f in l["found"]))
    if l["functions"] < 20:
        c.violate("too few functions", "only %d functions found in the library" % l["functions"], config=s.config)
    for n, r in sorted(s.runs.items()):
        if r.error and n.split("/")[1:] and n.split("/")[1] not in PUBLIC + ["16", "32"]:
            # another type; its code is looked at above
            continue
        c.checked(r)
        for e in r.raw["effects"]:
            st = e["stack"]
            c.violate("%s: %s in %s" % (n, e["what"], st[-1][0] if st else "?"), "%s: %s" % (n, e["what"]), path=[(0, f, at) for f, at in st],
                      config=s.config, rule="no effect on any analysed call path")
        if not r.raw["effects"]:
            c.passed("no effect on any analysed call path", r.raw["stats"]["calls"] + 1)


# --- C23 -------------------------------------------------------------------------------------------
def same_value(m, x, y):
    if isinstance(x, Int):
        return m.vec_eq(x.bits, y.bits)
    if isinstance(x, Struct):
        r = 1
        for k in x.f:
            r = m.AND(r, same_value(m, x.f[k], y.f[k]))
        return r
    r = 0
    for n in x.g:
        g = m.AND(x.g[n], y.guard(n))
        for k in x.f[n]:
            if g:
                g = m.AND(g, same_value(m, x.f[n][k], y.f[n][k]))
        r = m.OR(r, g)
    return r


def describe(m, v, a):
    if isinstance(v, Int):
        n = sum(m.evaluate(b, a) << i for i, b in enumerate(v.bits))
        if v.ty.startswith("i") and v.bits and m.evaluate(v.bits[-1], a):
            n -= 1 << len(v.bits)
        return str(bool(n)).lower() if v.ty == "bool" else str(n)
    if isinstance(v, Struct):
        return "{" + ", ".join("%s: %s" % (k, describe(m, x, a)) for k, x in v.f.items()) + "}"
    for n, g in v.g.items():
        if m.evaluate(g, a):
            f = ", ".join(describe(m, x, a) for x in v.f[n].values())
            return n + ("(%s)" % f if f else "")
    return "?"


def c23(c, s):
    for n in PUBLIC:
        for op in ("eq", "ne"):
            r = c.checked(s.run("%s/%s" % (op, n)))
            m = manager_for(c, r)
            ids = r.load(m)
            x, y = (value(r.raw["inputs"][k], ids) for k in ("left", "right"))
            u = ids[r.raw["universe"]]
            sh = lambda a, run: "%s and %s" % (describe(m, x, a), describe(m, y, a))
            leaves(c, r, m, ids, "comparing two values of " + n, "comparison returns", show=sh)
            returns_everywhere(c, r, m, ids, "comparing two values of " + n, "comparison returns", show=sh)
            got = value(r.raw["result"], ids).bits[0]
            want = same_value(m, x, y)
            if op == "ne":
                want = m.NOT(want)
            c.empty(m, m.AND(u, m.XOR(got, want)), "equal exactly when all parts are equal", "%s/%s" % (op, n),
                    "`%s` on two values of %s is wrong" % ({"eq": "==", "ne": "!="}[op], n), r, show=sh)


# --- C24 -------------------------------------------------------------------------------------------
def c24(c, s):
    for w in WIDTHS:
        for n in SLOTS:
            for isa in ISAS if n == "imm" else ("Rv64",):
                r = c.checked(s.run("parse_imm/%d/%s" % (w, isa) if n == "imm" else "parse_%s/%d" % (n, w)))
                m = manager_for(c, r)
                ids = r.load(m)
                sp = spec(c, m, w, isa)
                kg = kinds(value(r.raw["inputs"]["kind"], ids))
                res = value(r.raw["result"], ids)
                if "Ok" not in res.f:
                    raise Unanalysable("%s never gives an operand" % r.name)
                ok, sl = res.guard("Ok"), Slot(list(res.f["Ok"].values())[0])
                sh = show_kind(kg, m)
                for k, g in sorted(kg.items()):
                    if k not in KINDS:
                        c.violate("%s: unknown kind %s" % (r.name, kn(k)), "the operands of %s are not in the tables" % kn(k))
                        continue
                    if LENGTH[k] != w:
                        continue
                    t = entry(k, isa)
                    want = sp.imm(t.imm) if n == "imm" else sp.reg(getattr(t, n), s.pw)
                    what = "%s asked for a %d-bit word and %s" % (n, w, kn(k))
                    key = "%s: %s" % (r.name, kn(k))
                    g = m.AND(g, ids[r.raw["returns"]])
                    c.empty(m, m.DIFF(g, ok), "a kind of the right length gives an answer", key + " refused", what + " is refused", r, show=sh)
                    g = m.AND(g, ok)
                    if want is None:
                        c.empty(m, m.AND(g, sl.some), "absent operands are absent", key, what + " is present although the instruction has none", r, show=sh)
                        continue
                    c.empty(m, m.DIFF(g, sl.some), "operands are present", key, what + " is missing", r, show=sh)
                    if n != "imm" and getattr(t, n)[0] == "k":
                        # fixed by the encoding: words of other instructions have no such operand
                        continue
                    if len(sl.bits) != len(want):
                        c.violate(key + " width", what + " has %d bits" % len(sl.bits))
                        continue
                    g = m.AND(g, sl.some)
                    diff = m.OR(*[m.AND(g, m.XOR(p, q)) for p, q in zip(sl.bits, want)])
                    c.empty(m, diff, "the answer is the operand field of the word, whatever the other bits", key, what + " is not the operand field", r, show=sh)


# --- C25 -------------------------------------------------------------------------------------------
def c25(c, s):
    for w in WIDTHS:
        m, a = decoded(c, s, w, "Rv32")
        m, b = decoded(c, s, w, "Rv64")
        s32, s64 = spec(c, m, w, "Rv32"), spec(c, m, w, "Rv64")
        major = [0, 1, 2, 3, 4, 5, 6] if w == 32 else [0, 1, 13, 14, 15]
        used = m.exists(m.OR(s32.valid, s64.valid), ["w%d" % i for i in range(w) if i not in major])
        for isa, d in (("Rv32", a), ("Rv64", b)):
            c.empty(m, m.DIFF(m.DIFF(d.returns, used), d.err.get("InvalidOpcode", 0)), "an unused opcode is reported as such",
                    "%s: unused opcode" % d.run.name, "a %d-bit word whose opcode no supported instruction uses is not refused as having an invalid opcode on %s" % (w, isa),
                    d.run, found=says(d, m))
            c.empty(m, m.DIFF(d.err.get("UnknownExtension", 0), used), "an unknown extension shares an opcode with a supported one",
                    "%s: unknown extension" % d.run.name, "a %d-bit word is refused as of an unknown extension on %s although its opcode belongs to none" % (w, isa), d.run)
            for e in ("InvalidOpcode", "UnknownExtension"):
                for t, g in s64.insts + s32.insts:
                    key = "%s: %s for %s" % (d.run.name, e, kn(t.key))
                    if t.key == ("Zifencei", "FENCE_I"):
                        continue
                    c.empty(m, m.AND(g, d.err.get(e, 0)), "no encoding of a supported instruction is reported as unknown", key,
                            "an encoding of %s is refused with %s on %s" % (kn(t.key), e, isa), d.run)


# --- C26 -------------------------------------------------------------------------------------------
def notation(m, v, g):
    """The standard debug notation of a value on the inputs g, in parts."""
    if isinstance(v, Int):
        if v.ty == "bool":
            return [(m.AND(g, v.bits[0]), "true"), (m.DIFF(g, v.bits[0]), "false")]
        return [(g, v.bits, v.ty.startswith("i"))]
    out = []
    for name, h, fs in [(v.ty, g, v.f)] if isinstance(v, Struct) else [(n, m.AND(g, v.g[n]), v.f[n]) for n in v.g]:
        if not fs:
            out.append((h, name))
            continue
        tup = all(k.isdigit() for k in fs)
        for i, (k, x) in enumerate(fs.items()):
            out.append((h, (", " if i else name + ("(" if tup else " { ")) + ("" if tup else k + ": ")))
            out += notation(m, x, h)
        out.append((h, ")" if tup else " }"))
    return [p for p in out if p[0]]


def c26(c, s):
    for n in PUBLIC:
        what = "printing a value of %s for debugging" % n
        r = c.checked(s.run("debug/" + n))
        m = manager_for(c, r)
        ids = r.load(m)
        v = value(r.raw["inputs"]["value"], ids)
        u = ids[r.raw["universe"]]
        sh = lambda a, run: describe(m, v, a)
        leaves(c, r, m, ids, what, "no reachable abort", show=sh)
        returns_everywhere(c, r, m, ids, what, "printing returns", show=sh)
        text = Text(m, ids, r.raw["text"])
        parts = notation(m, v, u)
        good = text.spells(u, parts)
        c.empty(m, m.DIFF(u, good), "the debug text spells the whole value", "debug/%s: text" % n, "the debug text of a value of %s is not the standard notation" % n,
                r, show=sh, found=lambda a: "it prints `%s`" % text.at(a))
        c.passed("parts of the debug text", len(parts))
        r = c.checked(s.run("debug-refuse/" + n))
        m = manager_for(c, r)
        ids = r.load(m)
        v = value(r.raw["inputs"]["value"], ids)
        sh = lambda a, run: describe(m, v, a)
        leaves(c, r, m, ids, what + ", when the sink refuses,", "no reachable abort", show=sh)
        refusal(c, r, m, ids, what, sh)
    for w in WIDTHS:
        for isa in ISAS:
            for way in ("pretty", "options"):
                r = c.checked(s.run("inspect-%s/%d/%s" % (way, w, isa)))
                m = manager_for(c, r)
                ids = r.load(m)
                what = "printing a decoded %d-bit instruction (%s) for debugging with formatting options" % (w, isa)
                sh = show_options if way == "options" else None
                leaves(c, r, m, ids, what, "no reachable abort", show=sh)
                returns_everywhere(c, r, m, ids, what, "printing returns", show=sh)
                res = value(r.raw["result"], ids)
                c.empty(m, m.DIFF(ids[r.raw["returns"]], res.guard("Ok")), "success when the sink accepts", "%s: failure without refusal" % r.name,
                        what + " fails although the sink accepts everything", r, show=sh)


# --- C27 -------------------------------------------------------------------------------------------
def c27(c, s):
    plain = None
    for way in ("compose", "compose-alternate"):
        r = s.run(way + "/Instruction")
        if r.error and "narrow-%s/Instruction" % way in s.runs:
            # digits of 32-bit integers computed by the library or in a writer of its own
            r = s.run("narrow-%s/Instruction" % way)
        c.checked(r)
        m = plain[0] if plain and plain[1].vars == r.vars else manager_for(c, r)
        ids = r.load(m)
        v = value(r.raw["inputs"]["value"], ids)
        sh = lambda a, run: describe(m, v, a)
        slots = {n: Slot(v.f[n]) for n in SLOTS}
        kg = kinds(v.f["opc"])
        text = Text(m, ids, r.raw["text"])
        regions = {}
        for k, g in sorted(kg.items()):
            if k not in KINDS:
                c.violate("%s: unknown kind %s" % (r.name, kn(k)), "%s is not in the tables" % kn(k))
                continue
            t = KINDS[k][0]
            g = m.AND(g, ids[r.raw["universe"]], v.f["inst_format"].guard(t.fmt))
            flag = v.f["is_compressed"].bits[0]
            g = m.AND(g, flag) if t.width == 16 else m.DIFF(g, flag)
            for n in SLOTS:
                g = m.AND(g, slots[n].none if getattr(t, n) is None else slots[n].some)
                if n != "imm" and getattr(t, n) is not None:
                    # register numbers, or a CSR number
                    for b in slots[n].bits[12 if getattr(t, n) == CSR else 5:]:
                        g = m.DIFF(g, b)
            if g == 0:
                raise Unanalysable("no instruction of kind %s can be assembled" % kn(k))
            regions[k] = g
        if not regions:
            raise Unanalysable("no instruction can be assembled")
        built = m.OR(*regions.values())
        what = "printing an assembled instruction"
        leaves(c, r, m, ids, what, "no reachable abort", skip=m.NOT(built), show=sh)
        c.empty(m, m.DIFF(built, ids[r.raw["returns"]]), "printing returns", "%s: no return" % r.name, what + " does not return", r, show=sh)
        res = value(r.raw["result"], ids)
        c.empty(m, m.DIFF(m.AND(built, ids[r.raw["returns"]]), res.guard("Ok")), "success when the sink accepts", "%s: failure without refusal" % r.name,
                what + " fails although the sink accepts everything", r, show=sh)
        # a text that is the plain one has been read before
        same = plain[2].same(m.AND(built, plain[3]), text) if plain and plain[0] is m else 0
        plain = m, r, text, built
        words = text.first_word(m.DIFF(built, same))
        for k, g in sorted(regions.items()):
            t = KINDS[k][0]
            g = m.DIFF(g, same)
            bad = m.DIFF(g, words.get(t.mnem, 0))
            c.empty(m, bad, "the text starts with the mnemonic", "%s: mnemonic of %s" % (r.name, kn(k)),
                    "the text of an assembled %s does not start with `%s`" % (kn(k), t.mnem), r, show=sh, found=lambda a: "it prints `%s`" % text.at(a))
            bad = g
            for asm in [t.asm] + t.also:
                if bad == 0:
                    break
                bad = m.DIFF(bad, text.operands(bad, asm, slots))
            c.empty(m, bad, "operands are printed in order with their values", "%s: operands of %s" % (r.name, kn(k)),
                    "the text of an assembled %s is not `%s %s` with the given values" % (kn(k), t.mnem, t.asm), r, show=sh, found=lambda a: "it prints `%s`" % text.at(a))


# --- C28 -------------------------------------------------------------------------------------------
def c28(c, s):
    for way, w, isa in WAYS:
        m, r, d, text = printed(c, s, w, isa, way)
        good = text.tidy(d.ok)
        for k, g in sorted(d.kinds.items()):
            c.empty(m, m.DIFF(m.AND(g, d.ok), good), "the text has the canonical layout", "%s: layout of %s" % (r.name, kn(k)),
                    "the text of a decoded %s is not laid out as `mnemonic operand, operand`" % kn(k), r, found=lambda a: "it prints `%s`" % text.at(a))


# --- C29 -------------------------------------------------------------------------------------------
SHARED = ["Send", "Sync", "Unpin", "UnwindSafe", "RefUnwindSafe"]


def c29(c, s):
    x = {e["name"]: e for e in s.interface["exports"]}
    c.analysed[(s.config, "crate root")] = {"exports": len(x)}

    def rule(ok, rule, key, text, e=None):
        if ok:
            c.passed(rule)
        else:
            c.violate(key, text, path=[(0, e["name"], e["at"])] if e else None, config=s.config, rule=rule)

    for n in PUBLIC + ["Isa"]:
        e = x.get(n)
        there = e is not None and e["kind"] in ("Struct", "Enum")
        rule(there, "exported at the crate root", "%s: not exported" % n, "the type %s cannot be named at the root of the library" % n)
        if not there:
            continue
        rule(not e["hidden"], "every field is public", "%s: hidden fields" % n, "%s has fields that callers cannot reach: %s" % (n, ", ".join(e["hidden"])), e)
        rule(not e["open"], "callers can build and match it completely", "%s: non-exhaustive" % n, "%s cannot be built or matched completely by callers" % n, e)
        rule(e["parameters"] == 0, "owns its data", "%s: parameters" % n, "%s has lifetime or type parameters" % n, e)
        if e["parameters"]:
            continue
        rule(not e["drops"], "no clean-up on drop", "%s: drop" % n, "%s runs code when it is dropped" % n, e)
        for t in SHARED + (["Copy"] if n == "Isa" else ["PartialEq", "Debug"]) + (["Display"] if n in PUBLIC and n not in ("InstFormat", "DecodingError") else []):
            rule(t in e["traits"], "has the traits that callers rely on", "%s: not %s" % (n, t), "%s does not implement %s" % (n, t), e)
    e = x.get("Decode")
    rule(e is not None and e["kind"] == "Trait", "exported at the crate root", "Decode: not exported", "the decoding trait cannot be named at the root of the library")
    for t in ("u16", "u32"):
        rule(e is not None and t in e.get("implementors", []), "decoding is implemented for both lengths", "Decode: not for %s" % t, "decoding is not implemented for %s" % t, e)
    for n in sorted(n for n in s.runs if n.startswith("clone/") and n[6:] in PUBLIC + ["Isa"]):
        r = c.checked(s.run(n))
        m = manager_for(c, r)
        ids = r.load(m)
        v, w = value(r.raw["inputs"]["value"], ids), value(r.raw["result"], ids)
        sh = lambda a, run: describe(m, v, a)
        leaves(c, r, m, ids, "cloning a value of " + n[6:], "cloning returns", show=sh)
        returns_everywhere(c, r, m, ids, "cloning a value of " + n[6:], "cloning returns", show=sh)
        c.empty(m, m.DIFF(ids[r.raw["returns"]], same_value(m, v, w)), "the copy equals the original", n, "a clone of a value of %s is another value" % n[6:], r, show=sh,
                found=lambda a: "the copy is " + describe(m, w, a))


# --- C30 -------------------------------------------------------------------------------------------
def agree(m, x, y):
    """Inputs on which two exported values are the same; machine integers may differ in size."""
    if x is None or y is None:
        return 1 if x is y else 0
    if isinstance(x, Int):
        n = max(len(x.bits), len(y.bits))
        return m.vec_eq(x.bits + [0] * (n - len(x.bits)), y.bits + [0] * (n - len(y.bits)))
    if isinstance(x, Struct):
        r = 1
        for k in sorted(set(x.f) | set(y.f)):
            r = m.AND(r, agree(m, x.f.get(k), y.f.get(k)))
        return r
    r = 0
    for n in x.g:
        g = m.AND(x.g[n], y.guard(n))
        for k in x.f[n]:
            if g:
                g = m.AND(g, agree(m, x.f[n][k], y.f[n].get(k)))
        r = m.OR(r, g)
    return r


def c30(c, s):
    first = c.__dict__.setdefault("first", s)
    names = sorted(n for n in set(first.runs) | set(s.runs) if "/" not in n or n.split("/")[1] in PUBLIC + ["16", "32"])
    for n in names:
        if n not in first.runs or n not in s.runs:
            raise Unanalysable("%s exists in some builds only" % n)
        x, y = c.checked(first.runs[n]), c.checked(s.runs[n])
        if s is first:
            continue
        # the build with the smaller machine integer decides which integers there are
        small, large = (y, x) if len(y.vars) < len(x.vars) else (x, y)
        if not set(small.vars) <= set(large.vars) or (n != "try_from" and small.vars != large.vars):
            raise Unanalysable("%s has different inputs in different builds" % n)
        m = manager_for(c, small)
        none = {v: 0 for v in large.vars if v not in small.vars}
        xs, ys = small.load(m), large.load(m, assign=none)
        u = xs[small.raw["universe"]]
        show = None
        if "kind" in small.raw["inputs"]:
            kv = value(small.raw["inputs"]["kind"], xs)
            show = lambda a, run: "%s%s" % (describe(m, kv, a), ", word " + show_word(a, run) if "w0" in run.vars else "")
        elif "value" in small.raw["inputs"]:
            kv = value(small.raw["inputs"]["value"], xs)
            show = lambda a, run: describe(m, kv, a)
        both = "between the build for %s and the one for %s" % (first.config, s.config)
        rs, rl = xs[small.raw["returns"]], ys[large.raw["returns"]]
        c.empty(m, m.AND(u, m.XOR(rs, rl)), "returns in all builds or in none", "%s: return" % n, "%s returns in one build only, %s" % (n, both), y, show=show)
        ret = m.AND(u, rs, rl)
        same = agree(m, value(small.raw["result"], xs), value(large.raw["result"], ys))
        c.empty(m, m.DIFF(ret, same), "same result in all builds", "%s: result" % n, "the result of %s differs %s" % (n, both), y, show=show)
        if small.raw.get("text") or large.raw.get("text"):
            a, b = Text(m, xs, small.raw["text"]), Text(m, ys, large.raw["text"])
            c.empty(m, m.DIFF(ret, a.same(ret, b)), "same text in all builds", "%s: text" % n, "the text of %s differs %s" % (n, both), y, show=show,
                    found=lambda i: "`%s` and `%s`" % (a.at(i), b.at(i)))


# --- C31 -------------------------------------------------------------------------------------------
BLAMED = {0b0000011: "loads", 0b0100011: "stores", 0b1100011: "branches", 0b1100111: "the register jump", 0b0110011: "register arithmetic",
          0b0010011: "immediate arithmetic", 0b0011011: "32-bit immediate arithmetic"}


def c31(c, s):
    m, a = decoded(c, s, 32, "Rv32")
    m, b = decoded(c, s, 32, "Rv64")
    s32, s64 = spec(c, m, 32, "Rv32"), spec(c, m, 32, "Rv64")
    names = m.exists(m.OR(s32.valid, s64.valid), ["w%d" % i for i in range(7, 32) if not 12 <= i <= 14])
    narrow = {t.key for t, _ in s32.insts}
    wide = m.OR(*[g for t, g in s64.insts if t.key not in narrow])
    for isa, d, sp in (("Rv32", a, s32), ("Rv64", b, s64)):
        wrong = m.DIFF(d.universe, sp.valid)
        if isa == "Rv32":
            wrong = m.DIFF(wrong, wide)
        for o, what in sorted(BLAMED.items()):
            g = m.AND(wrong, sp.eq(6, 0, o))
            upper = "InvalidFunct6" if o == 0b0010011 and isa == "Rv64" else "InvalidFunct7"
            for e, field, r in (("InvalidFunct3", "a 3-bit function field that no instruction with its opcode has", m.DIFF(g, names)),
                                (upper, "a 3-bit function field that fits and an upper one that does not", m.AND(g, names))):
                c.empty(m, m.DIFF(r, d.err.get(e, 0)), "the first wrong function field is blamed", "%s: %s of %s" % (d.run.name, e, what),
                        "a word with the opcode of %s, %s, is not refused with %s on %s" % (what, field, e, isa), d.run, found=says(d, m))


# --- C32 -------------------------------------------------------------------------------------------
def c32(c, s):
    m, a = decoded(c, s, 16, "Rv32")
    m, b = decoded(c, s, 16, "Rv64")
    s32, s64 = spec(c, m, 16, "Rv32"), spec(c, m, 16, "Rv64")
    valid = m.OR(s32.valid, s64.valid)
    # encodings without the conditions on their operands
    loose = m.OR(*[m.AND(*[s64.eq(*x) for x in t.match]) for sp in (s32, s64) for t, _ in sp.insts])
    for isa, d in (("Rv32", a), ("Rv64", b)):
        refused = m.DIFF(m.OR(*d.err.values()), valid)
        for e, what, r in (("IllegalInstruction", "that only a zero operand keeps from being an instruction", m.AND(refused, loose)),
                           ("InvalidOpcode", "whose function bits select no instruction", m.DIFF(refused, loose))):
            c.empty(m, m.DIFF(r, d.err.get(e, 0)), "reserved operands and unassigned encodings are told apart", "%s: %s" % (d.run.name, e),
                    "a 16-bit word %s is not refused with %s on %s" % (what, e, isa), d.run, found=says(d, m))


# --- C33 -------------------------------------------------------------------------------------------
KIND_TYPES = [n for n in PUBLIC if n.startswith("Opcode") or n.endswith("Opcode")]


def kinds_of(n, v):
    """Guards by kind of a value of the joint type or of the type of one extension."""
    return kinds(v) if n == "OpcodeKind" else {(n[:-6], x): g for x, g in v.g.items()}


def c33(c, s):
    for n in KIND_TYPES:
        what = "printing a value of %s" % n
        for way in ("refuse", "options"):
            r = s.run("show-%s/%s" % (way, n))
            if way == "options" and r.error:
                r = s.run("narrow-show-options/" + n)
            c.checked(r)
            m = manager_for(c, r)
            ids = r.load(m)
            name = show_kind(kinds_of(n, value(r.raw["inputs"]["value"], ids)), m)
            sh = (lambda a, run: name(a, run) + options_of(a)) if way == "options" else name
            w = what + " with formatting options" if way == "options" else what
            leaves(c, r, m, ids, w, "no reachable abort", show=sh)
            returns_everywhere(c, r, m, ids, w, "printing returns", show=sh)
            if way == "refuse":
                refusal(c, r, m, ids, what, show=sh)
                continue
            res = value(r.raw["result"], ids)
            c.empty(m, m.DIFF(ids[r.raw["returns"]], res.guard("Ok")), "success when the sink accepts", "%s: failure without refusal" % r.name,
                    w + " fails although the sink accepts everything", r, show=sh)


# --- C34 -------------------------------------------------------------------------------------------
def c34(c, s):
    for w in WIDTHS:
        for isa in ISAS:
            r, p = c.checked(s.run("flags/%d/%s" % (w, isa))), s.run("display/%d/%s" % (w, isa))
            m = manager_for(c, r)
            x, y = r.load(m), p.load(m)
            both = m.AND(x[r.raw["returns"]], y[p.raw["returns"]])
            text, plain = Text(m, x, r.raw["text"]), Text(m, y, p.raw["text"])
            c.empty(m, m.DIFF(both, plain.same(both, text)), "formatting flags change nothing", "%s: differs from the plain text" % r.name,
                    "a decoded instruction printed with formatting flags is another text", r, show=show_options, found=lambda a: "`%s` and `%s`" % (plain.at(a), text.at(a)))
    for n in KIND_TYPES:
        r = c.checked(s.run("show-flags/" + n))
        m = manager_for(c, r)
        ids = r.load(m)
        kg = kinds_of(n, value(r.raw["inputs"]["value"], ids))
        name = show_kind(kg, m)
        text = Text(m, ids, r.raw["text"])
        for k, g in sorted(kg.items()):
            if k not in KINDS:
                c.violate("%s: unknown kind %s" % (r.name, kn(k)), "%s is not in the tables" % kn(k))
                continue
            g = m.AND(g, ids[r.raw["returns"]])
            want = KINDS[k][0].mnem
            c.empty(m, m.DIFF(g, text.whole(g).get(want, 0)), "flags do not change the text of a kind", "%s: %s" % (r.name, kn(k)),
                    "the kind %s with formatting flags prints something else than `%s`" % (kn(k), want), r, show=lambda a, run: name(a, run) + options_of(a),
                    found=lambda a: "`%s`" % text.at(a))


# --- C35 -------------------------------------------------------------------------------------------
SELECTORS = {0b0101111: ("atomics", 31, 27), 0b0111011: ("32-bit register arithmetic", 31, 25), 0b0001111: ("fences and cache operations", 14, 12)}


def c35(c, s):
    m, a = decoded(c, s, 32, "Rv32")
    m, b = decoded(c, s, 32, "Rv64")
    s32, s64 = spec(c, m, 32, "Rv32"), spec(c, m, 32, "Rv64")
    valid = m.OR(s32.valid, s64.valid)
    # left out: whether it is supported is another property's question
    fetch = m.AND(s64.eq(6, 0, 0b0001111), s64.eq(14, 12, 1))
    for isa, d, sp in (("Rv32", a, s32), ("Rv64", b, s64)):
        got = d.err.get("UnknownExtension", 0)
        rest = m.DIFF(got, fetch)
        for o, (what, hi, lo) in sorted(SELECTORS.items()):
            here = m.AND(d.universe, sp.eq(6, 0, o))
            used = m.exists(m.AND(valid, here), ["w%d" % i for i in range(7, 32) if not lo <= i <= hi])
            c.empty(m, m.DIFF(here, m.OR(used, got)), "an unused selector is an unknown extension", "%s: selector of %s" % (d.run.name, what),
                    "a word with the opcode of %s whose bits %d to %d select no instruction is not refused with UnknownExtension on %s" % (what, hi, lo, isa), d.run, found=says(d, m))
            rest = m.DIFF(rest, m.DIFF(here, used))
        c.empty(m, rest, "an unknown extension is an unused selector", "%s: other" % d.run.name,
                "a word is refused with UnknownExtension on %s although the bits that select its extension are in use" % isa, d.run)


# --- C36 -------------------------------------------------------------------------------------------
def c36(c, s):
    m, a = decoded(c, s, 32, "Rv32")
    m, b = decoded(c, s, 32, "Rv64")
    s32, s64 = spec(c, m, 32, "Rv32"), spec(c, m, 32, "Rv64")
    valid = m.OR(s32.valid, s64.valid)
    reserved = m.AND(s64.eq(31, 27, 0b00010), m.NOT(s64.eq(24, 20, 0)))
    for o, what, upper, e2, field2 in ((0b0101111, "atomics", range(27, 32), "IllegalInstruction", "that reserves a value but names a second source register"),
                                       (0b0111011, "32-bit register arithmetic", range(25, 32), "InvalidFunct7", "whose 7-bit function field does not fit the 3-bit one")):
        op = s64.eq(6, 0, o)
        known = fits = 0
        for x in sorted({t.key[0] for t, _ in s64.insts}):
            g = m.AND(op, m.OR(*[g for t, g in s64.insts if t.key[0] == x]))
            ext = m.exists(g, ["w%d" % i for i in range(7, 32) if i not in upper])
            known = m.OR(known, ext)
            fits = m.OR(fits, m.AND(ext, m.exists(g, ["w%d" % i for i in range(7, 32) if not 12 <= i <= 14])))
        for isa, d in (("Rv32", a), ("Rv64", b)):
            wrong = m.DIFF(m.AND(d.universe, op, known), valid)
            first = m.DIFF(wrong, fits)
            if o == 0b0101111:
                first = m.DIFF(first, reserved)
            for e, field, r in (("InvalidFunct3", "whose 3-bit function field no instruction of its extension has", first), (e2, field2, m.AND(wrong, fits))):
                c.empty(m, m.DIFF(r, d.err.get(e, 0)), "the first wrong field within a known extension is blamed", "%s: %s of %s" % (d.run.name, e, what),
                        "a word with the opcode of %s %s is not refused with %s on %s" % (what, field, e, isa), d.run, found=says(d, m))


# --- C37 -------------------------------------------------------------------------------------------
def c37(c, s):
    m, a = decoded(c, s, 32, "Rv32")
    m, b = decoded(c, s, 32, "Rv64")
    s32, s64 = spec(c, m, 32, "Rv32"), spec(c, m, 32, "Rv64")
    valid = m.OR(s32.valid, s64.valid)
    eq = s64.eq
    system = m.AND(eq(6, 0, 0b1110011), eq(14, 12, 0))
    rd, rs1, env = m.NOT(eq(11, 7, 0)), m.NOT(eq(19, 15, 0)), eq(31, 25, 0)
    illegal = m.AND(system, m.OR(rd, m.AND(env, rs1)))
    rest = m.DIFF(system, illegal)
    for isa, d in (("Rv32", a), ("Rv64", b)):
        wrong = m.DIFF(d.universe, valid)
        for e, what, r in (("IllegalInstruction", "privileged or environment word with a register where there has to be none", illegal),
                           ("InvalidFunct5", "environment word with an unassigned number", m.AND(rest, env)),
                           ("InvalidFunct7", "privileged word with an unassigned function", m.DIFF(rest, env)),
                           ("InvalidOpcode", "word among the may-be operations that is no shadow stack instruction", m.AND(eq(6, 0, 0b1110011), eq(14, 12, 4))),
                           ("InvalidOpcode", "word among the cache operations that is no supported one", m.AND(eq(6, 0, 0b0001111), eq(14, 12, 2)))):
            c.empty(m, m.DIFF(m.AND(wrong, r), d.err.get(e, 0)), "refused system and cache words are told apart", "%s: %s" % (d.run.name, what),
                    "a %s is not refused with %s on %s" % (what, e, isa), d.run, found=says(d, m))


# --- C38 -------------------------------------------------------------------------------------------
HEXADECIMAL = {("BaseI", "LUI"), ("BaseI", "AUIPC"), ("BaseI", "JAL"), ("Zicsr", "CSRRW"), ("Zicsr", "CSRRS"), ("Zicsr", "CSRRC")}


def c38(c, s):
    for w in WIDTHS:
        for isa in ISAS:
            m, r, d, text = printed(c, s, w, isa, "display")
            ok = m.AND(d.ok, r.load(m)[r.raw["returns"]])
            for hexa, what in ((True, "hexadecimal"), (False, "decimal")):
                g = {k: m.AND(x, ok) for k, x in d.kinds.items() if (k in HEXADECIMAL) == hexa}
                good = text.radix(m.OR(*g.values()), hexa) if g else 0
                for k, x in sorted(g.items()):
                    c.empty(m, m.DIFF(x, good), "numbers have the radix of their instruction", "%s: radix of %s" % (r.name, kn(k)),
                            "the text of a decoded %s has a number that is not %s" % (kn(k), what), r, found=lambda a: "it prints `%s`" % text.at(a))


DEC = ["decode/"]
PARSE = ["parse_"]
DECIDERS = {
    "C01": (c01, DEC),
    "C02": (c02, PARSE + ["try_from"]),
    "C03": (c03, ["display/", "refuse/", "options/", "narrow-options/"]),
    "C04": (c04, DEC),
    "C05": (c05, ["decode/32"]),
    "C06": (c06, ["decode/32"]),
    "C07": (c07, ["decode/16"]),
    "C08": (c08, ["decode/16"]),
    "C09": (c09, ["decode/32"]),
    "C10": (c10, ["decode/16"]),
    "C11": (c11, ["decode/32"]),
    "C12": (c12, ["decode/16"]),
    "C13": (c13, DEC),
    "C14": (c14, DEC),
    "C15": (c15, DEC),
    "C16": (c16, DEC + ["get_format"]),
    "C17": (c17, DEC + ["display/", "alternate/", "show/"]),
    "C18": (c18, DEC + ["display/", "alternate/"]),
    "C19": (c19, DEC),
    "C20": (c20, DEC + PARSE),
    "C21": (c21, ["decode/", "try_from"]),
    "C22": (c22, DEC + PARSE + ["display/", "alternate/", "refuse/", "debug/", "debug-refuse/", "inspect-pretty/", "try_from", "get_format", "show/", "show-refuse/", "clone/", "eq/", "ne/"]),
    "C23": (c23, ["eq/", "ne/"]),
    "C24": (c24, PARSE),
    "C25": (c25, DEC),
    "C26": (c26, ["debug/", "debug-refuse/", "inspect-pretty/", "inspect-options/"]),
    "C27": (c27, ["compose/", "compose-alternate/", "narrow-compose"]),
    "C28": (c28, DEC + ["display/", "alternate/"]),
    "C29": (c29, ["clone/"]),
    "C30": (c30, DEC + PARSE + ["try_from", "get_format", "show/", "display/", "alternate/"]),
    "C31": (c31, DEC),
    "C32": (c32, DEC),
    "C33": (c33, ["show-refuse/", "show-options/", "narrow-show-options/"]),
    "C34": (c34, ["display/", "flags/", "show-flags/"]),
    "C35": (c35, DEC),
    "C36": (c36, DEC),
    "C37": (c37, DEC),
    "C38": (c38, DEC + ["display/"]),
}
