"""Printed text. The analysis exports it as a graph of pieces with guards; the functions here
carry sets of inputs along the graph, together with how far a reader of the text has come."""
import re

from riscv import ABI
from summary import Unanalysable

PLUS = 1 << 21
ALTERNATE = 1 << 23
MANY = 64


class Text:
    def __init__(self, m, ids, raw):
        self.m = m
        self.nodes = []
        raw = raw or {"nodes": [], "ends": []}
        for n in raw["nodes"]:
            t = dict(n["tok"])
            if "str" in t:
                t["str"] = [(ids[g], x) for g, x in t["str"]]
            elif "char" in t:
                t["char"] = [ids[b] for b in t["char"]]
            elif "bytes" in t:
                t["bytes"] = [(ids[g], [[ids[b] for b in bs[j:j + 8]] for j in range(0, len(bs), 8)]) for g, bs in t["bytes"]]
            else:
                t["int"] = [ids[b] for b in t["int"]]
            self.nodes.append((t, [(ids[g], p) for g, p in n["prev"]]))
        self.ends = [(ids[g], i) for g, i in raw["ends"]]
        self.split = {}

    def flow(self, region, start, literal, integer, skip=None):
        """Inputs of `region` by the state in which the reader ends. `literal(state, text, inputs)` and
        `integer(state, piece, inputs)` yield the next states with their inputs. `skip(state, piece, inputs)`
        does so for inputs on which the piece as a whole is what the reader expects."""
        m = self.m
        at = [{start: region}]
        for i, (t, prev) in enumerate(self.nodes):
            here = {}
            for g, p in prev:
                for s, x in at[p].items():
                    x = m.AND(x, g)
                    if x:
                        here[s] = m.OR(here.get(s, 0), x)
            out = {}
            for s, x in here.items():
                for s2, y in skip(s, i, x) if skip else []:
                    out[s2] = m.OR(out.get(s2, 0), y)
                    x = m.DIFF(x, y)
                for y, text in self.literals(t, x) if x else []:
                    for s2, z in literal(s, text, y) if text is not None else integer(s, i, y):
                        if z:
                            out[s2] = m.OR(out.get(s2, 0), z)
            at.append(out)
        end = {}
        for g, p in self.ends:
            for s, x in at[p].items():
                x = m.AND(x, g)
                if x:
                    end[s] = m.OR(end.get(s, 0), x)
        return end

    def literals(self, t, x):
        m = self.m
        if "str" in t:
            for g, text in t["str"]:
                y = m.AND(x, g)
                if y:
                    yield y, text
        elif "char" in t:
            vs = self.values(t["char"], x)
            if vs is None:
                raise Unanalysable("printed character depends on too many bits")
            for y, v in vs:
                yield y, chr(v)
        else:
            yield x, None

    def values(self, bits, x):
        """Values of a bit vector on the inputs x, when they are few."""
        m = self.m
        k = (tuple(bits), x)
        if k not in self.split:
            out = [(x, 0)]
            for j, b in enumerate(bits):
                nxt = []
                for g, v in out:
                    hi = m.AND(g, b)
                    lo = m.DIFF(g, b)
                    if lo:
                        nxt.append((lo, v))
                    if hi:
                        nxt.append((hi, v | 1 << j))
                out = nxt
                if len(out) > MANY:
                    out = None
                    break
            self.split[k] = out
        return self.split[k]

    def spelled(self, i, x):
        """The integer piece i as literal text on the inputs x, when it has few values."""
        t = self.nodes[i][0]
        if "bytes" in t or t["width"] or t["prec"] or t["radix"] not in "dxX":
            return None
        vs = self.values(t["int"], x)
        if vs is None:
            return None
        out = []
        for g, v in vs:
            if t["radix"] == "d":
                if t["signed"] and v >> (len(t["int"]) - 1):
                    v -= 1 << len(t["int"])
            out.append((g, number(t, v)))
        return out

    def at(self, a):
        """The text printed for one input."""
        m = self.m
        for g, p in self.ends:
            if m.evaluate(g, a):
                out = []
                while p:
                    t, prev = self.nodes[p - 1]
                    if "str" in t:
                        out.append("".join(x for g, x in t["str"] if m.evaluate(g, a)))
                    elif "char" in t:
                        out.append(chr(sum(m.evaluate(b, a) << j for j, b in enumerate(t["char"]))))
                    elif "bytes" in t:
                        for g, bs in t["bytes"]:
                            if m.evaluate(g, a):
                                out.append("".join(chr(sum(m.evaluate(b, a) << j for j, b in enumerate(x))) for x in bs))
                    else:
                        v = sum(m.evaluate(b, a) << j for j, b in enumerate(t["int"]))
                        if t["radix"] == "d":
                            if t["signed"] and v >> (len(t["int"]) - 1):
                                v -= 1 << len(t["int"])
                        out.append(number(t, v))
                    p = ([q for g, q in prev if m.evaluate(g, a)] + [0])[0]
                return "".join(reversed(out))
        return ""

    def within(self, region):
        """The same text with guards that hold for inputs of `region` only."""
        m, t = self.m, Text(self.m, None, None)
        cut = lambda gs: [(m.AND(g, region), x) for g, x in gs]
        t.nodes = [({k: cut(v) if k in ("str", "bytes") else v for k, v in tok.items()}, cut(prev)) for tok, prev in self.nodes]
        t.ends = cut(self.ends)
        return t

    # --- readers --------------------------------------------------------------------------

    def same(self, region, other):
        """Inputs of `region` for which `other` (another graph over the same variables) is the same text."""
        m = self.m
        if self.nodes == other.nodes and self.ends == other.ends:
            return region
        self, other = self.within(region), other.within(region)
        after = {}
        for j, (_, prev) in enumerate(other.nodes):
            for g, p in prev:
                after.setdefault(p, []).append((g, j))

        def ahead(p, x):
            """What follows the piece p of the other text: (inputs, piece, literal or None)."""
            for g, j in after.get(p, []):
                y = m.AND(x, g)
                if y:
                    for z, text in other.literals(other.nodes[j][0], y):
                        yield z, j, text

        def skip(s, i, x):
            p, rest = s
            for g, j in after.get(p, []) if not rest else []:
                if other.nodes[j][0] == self.nodes[i][0]:
                    y = m.AND(x, g)
                    if y:
                        yield (j + 1, ""), y

        def literal(s, text, x):
            p, rest = s
            n = min(len(rest), len(text))
            if rest[:n] != text[:n]:
                return
            rest, text = rest[n:], text[n:]
            if not text:
                yield (p, rest), x
                return
            for y, j, lit in ahead(p, x):
                for z, l in [(y, lit)] if lit is not None else other.spelled(j, y) or []:
                    yield from literal((j + 1, l), text, z)

        def integer(s, i, x):
            p, rest = s
            a = self.nodes[i][0]
            if not rest:
                for y, j, lit in ahead(p, x):
                    b = other.nodes[j][0]
                    if lit == "":
                        yield from integer((j + 1, ""), i, y)
                    elif lit is None and piece(a) == piece(b) and ("bytes" in a) == ("bytes" in b):
                        yield (j + 1, ""), m.AND(y, alike(a, b))
                    else:
                        yield from spelled((p, ""), i, y)
            else:
                yield from spelled(s, i, x)

        def spelled(s, i, x):
            for y, text in self.spelled(i, x) or []:
                yield from literal(s, text, y)

        def piece(t):
            """What two pieces have in common when they write the same value in the same way."""
            if "bytes" in t or t["width"] or t["prec"]:
                return {k: v for k, v in t.items() if k not in ("int", "bytes")}
            return t["radix"], t["flags"] & (PLUS if t["radix"] == "d" else PLUS | ALTERNATE)

        def alike(a, b):
            if "bytes" in a:
                r = 0
                for g, bs in a["bytes"]:
                    for h, cs in b["bytes"]:
                        e = m.AND(g, h) if len(bs) == len(cs) else 0
                        for u, v in zip(bs, cs):
                            e = m.AND(e, m.vec_eq(u, v)) if e else 0
                        r = m.OR(r, e)
                return r
            n = max(len(a["int"]), len(b["int"])) + 1
            u, v = (t["int"] + [t["int"][-1] if t["signed"] and t["radix"] == "d" else 0] * (n - len(t["int"])) for t in (a, b))
            return m.vec_eq(u, v)

        ends = {}
        for g, p in other.ends:
            ends[p] = m.OR(ends.get(p, 0), g)
        todo = [(p, x) for (p, rest), x in self.flow(region, (0, ""), literal, integer, skip).items() if not rest]
        good = 0
        while todo:
            p, x = todo.pop()
            good = m.OR(good, m.AND(x, ends.get(p, 0)))
            todo += [(j + 1, y) for y, j, lit in ahead(p, x) if lit == ""]
        return good

    def whole(self, region):
        """Inputs by the whole text; integers must have few values."""

        def literal(s, text, x):
            if len(s) > 200:
                raise Unanalysable("a kind prints a very long text")
            yield s + text, x

        def integer(s, i, x):
            vs = self.spelled(i, x)
            if vs is None:
                yield s + "<integer>", x
            else:
                for y, text in vs:
                    yield s + text, y

        return self.flow(region, "", literal, integer)

    def first_word(self, region):
        """Inputs by the text up to the first white space."""

        def literal(s, text, x):
            w, done = s
            if not done:
                k = re.match(r"\S*", text).end()
                w, done = w + text[:k], k < len(text)
            yield (w, done), x

        def integer(s, i, x):
            if s[1]:
                yield s, x
                return
            vs = self.spelled(i, x)
            for y, text in vs if vs is not None else [(x, "<integer>")]:
                yield (s[0] + text, False), y

        out = {}
        for (w, _), x in self.flow(region, ("", False), literal, integer).items():
            out[w] = self.m.OR(out.get(w, 0), x)
        return out

    def operands(self, region, asm, slots):
        """Inputs whose text is a word followed by operands as in the template, with the values of the slots."""
        m = self.m
        tmpl = re.findall(r"[(),]|[a-z0-9]+", asm)

        # state: template position (-1 while in the mnemonic), text of the word being read, integer at its end
        def word(i, w, n, x):
            if w == "" and n is None:
                return i, x
            if i >= len(tmpl):
                return i, 0
            return i + 1, m.AND(x, self.word_is(w, n, tmpl[i], slots, x))

        def literal(s, text, x):
            i, w, n = s
            if i < 0:
                k = re.match(r"\S*", text).end()
                if k == len(text):
                    yield s, x
                    return
                i, text = 0, text[k:]
            for part in re.findall(r"\s+|[(),]|[^\s(),]+", text):
                if part[0] in "()," or part.isspace():
                    i, x = word(i, w, n, x)
                    w, n = "", None
                    if not part.isspace():
                        if i >= len(tmpl) or tmpl[i] != part:
                            return
                        i += 1
                elif n is not None:
                    # an integer glued to text that follows
                    return
                else:
                    w += part
                if not x:
                    return
            yield (i, w, n), x

        def integer(s, p, x):
            i, w, n = s
            if i < 0:
                yield s, x
            elif n is not None:
                return
            elif w in ("", "0x", "-", "-0x"):
                yield (i, w, p), x
            else:
                for y, text in self.spelled(p, x) or []:
                    yield (i, w + text, None), y

        ok = 0
        for (i, w, n), x in self.flow(region, (-1, "", None), literal, integer).items():
            i, x = word(max(i, 0), w, n, x)
            if i == len(tmpl):
                ok = m.OR(ok, x)
        return ok

    def spells(self, region, parts):
        """Inputs whose text is exactly the parts one after the other. A part is `(guard, text)` or
        `(guard, bits, signed)`, a decimal number, and is only there on the inputs of its guard."""
        m = self.m

        # state: the part being read and how much of its text was read
        def literal(s, text, x):
            work, out = [(s[0], s[1], 0, x)], []
            while work:
                i, k, at, x = work.pop()
                if at == len(text):
                    out.append(((i, k), x))
                    continue
                if i == len(parts):
                    continue
                here = m.AND(x, parts[i][0]) if k == 0 else x
                if k == 0 and here != x:
                    work.append((i + 1, 0, at, m.DIFF(x, here)))
                if not here:
                    continue
                if len(parts[i]) == 3:
                    # the library may print the number as literal text
                    for j in range(at, len(text) + 1):
                        if j > at and re.fullmatch(r"-?\d+", text[at:j]) and (j == len(text) or not text[j].isdigit()):
                            v, bits, signed = int(text[at:j]), parts[i][1], parts[i][2]
                            lo, hi = (-(1 << len(bits) - 1), 1 << len(bits) - 1) if signed else (0, 1 << len(bits))
                            y = m.AND(here, equals(m, bits, v % (1 << len(bits)))) if lo <= v < hi else 0
                            if y and "%d" % v == text[at:j]:
                                work.append((i + 1, 0, j, y))
                            break
                    continue
                want = parts[i][1]
                n = min(len(want) - k, len(text) - at)
                if want[k:k + n] == text[at:at + n]:
                    work.append((i + 1, 0, at + n, here) if k + n == len(want) else (i, k + n, at + n, here))
            for s2, y in out:
                yield s2, y

        def integer(s, p, x):
            i, k = s
            t = self.nodes[p][0]
            while i < len(parts) and k == 0:
                here = m.AND(x, parts[i][0])
                if here and len(parts[i]) == 3 and "int" in t and t["radix"] == "d" and not t["flags"] & ALTERNATE and not (t["width"] or t["prec"]):
                    bits, signed = parts[i][1:]
                    n = max(len(bits), len(t["int"])) + 1
                    ext = lambda v, sg: v + [v[-1] if sg else 0] * (n - len(v))
                    yield (i + 1, 0), m.AND(here, vec_eq(m, ext(t["int"], t["signed"]), ext(bits, signed)))
                x = m.DIFF(x, here)
                if not x:
                    return
                i += 1

        ok = 0
        for (i, k), x in self.flow(region, (0, 0), literal, integer).items():
            if k == 0:
                for p in parts[i:]:
                    x = m.DIFF(x, p[0])
                ok = m.OR(ok, x)
        return ok

    def tidy(self, region):
        """Inputs whose text is a word, or a word, one space, and operands with a comma and one space between
        them, without any other white space, in printable characters, and with no plus sign or zero in front
        of a number."""
        m = self.m
        # nothing read, in the first word, before an operand, in an operand, after a comma, after the minus sign
        # and after the zero with which an operand starts
        step = {(0, "x"): 1, (1, "x"): 1, (1, " "): 2, (2, "x"): 3, (2, "-"): 5, (2, "0"): 6, (4, " "): 2,
                (5, "x"): 3, (5, "0"): 6, (6, "x"): 3}
        step.update(((s, c), s or 1) for s in (0, 1, 3) for c in "-+01")
        step.update(((s, "1"), 3) for s in (2, 5))
        step.update({(3, "x"): 3, (3, ","): 4, (6, ","): 4})

        def kind(ch):
            return ch if ch in " ,-+0" else "1" if "1" <= ch <= "9" else "x" if "!" <= ch <= "~" else "?"

        def literal(s, text, x):
            for ch in text:
                s = step.get((s, kind(ch)))
                if s is None:
                    return
            yield s, x

        def integer(s, p, x):
            t = self.nodes[p][0]
            if "int" in t:
                if not t["width"] and not t["flags"] & PLUS and (s, "1") in step:
                    yield step[s, "1"], x
                return
            for g, chars in t["bytes"]:
                at = {s: m.AND(x, g)}
                for bits in chars:
                    shown = m.DIFF(m.OR(bits[5], bits[6]), m.OR(equals(m, bits, 0x7f), bits[7]))
                    classes = {c: equals(m, bits, ord(c)) for c in " ,-+0"}
                    classes["1"] = m.OR(*(equals(m, bits, 0x30 + d) for d in range(1, 10)))
                    classes["x"] = m.DIFF(shown, m.OR(*classes.values()))
                    nxt = {}
                    for s1, y in at.items():
                        for ch, h in classes.items():
                            z = m.AND(y, h) if (s1, ch) in step else 0
                            if z:
                                s2 = step[s1, ch]
                                nxt[s2] = m.OR(nxt.get(s2, 0), z)
                    at = nxt
                yield from at.items()

        end = self.flow(region, 0, literal, integer)
        return m.OR(end.get(1, 0), end.get(3, 0), end.get(6, 0))

    def radix(self, region, hexa):
        """Inputs on which every number among the operands is hexadecimal (0x and lower case) or, if not
        `hexa`, every number is decimal."""
        m = self.m
        digits = "0123456789abcdef" if hexa else "0123456789"

        # states: in the mnemonic, before an operand, in a word that is no number, after a minus sign,
        # after a first zero, in the digits (after 0x a digit is missing)
        def step(s, ch):
            if ch in " ,()":
                return 1 if s in (0, 1, 2, 5) or s == 4 and not hexa else None
            if s in (0, 2):
                return s
            if s == 1 and ch == "-":
                return 3
            if s in (1, 3):
                if ch == "0":
                    return 4
                return (2 if s == 1 else None) if ch not in "123456789" else None if hexa else 5
            if s == 4 and ch == "x" and hexa:
                return 6
            return 5 if ch in digits and (s in (5, 6) or not hexa) else None

        def literal(s, text, x):
            for ch in text:
                s = step(s, ch)
                if s is None:
                    return
            yield s, x

        def integer(s, p, x):
            t = self.nodes[p][0]
            if "int" in t:
                if s in (0, 2):
                    yield s, x
                elif hexa:
                    prefix = t["flags"] & ALTERNATE
                    if t["radix"] == "x" and (s in (1, 3) if prefix else s in (5, 6)):
                        yield 5, x
                elif t["radix"] == "d" and s in (1, 3, 4, 5):
                    yield 5, x
                return
            alphabet = [chr(n) for n in range(32, 127)]
            for g, chars in t["bytes"]:
                at = {s: m.AND(x, g)}
                for bits in chars:
                    nxt = {}
                    for s1, y in at.items():
                        for ch in alphabet:
                            s2 = step(s1, ch)
                            z = m.AND(y, equals(m, bits, ord(ch))) if s2 is not None else 0
                            if z:
                                nxt[s2] = m.OR(nxt.get(s2, 0), z)
                    at = nxt
                yield from at.items()

        end = self.flow(region, 0, literal, integer)
        return m.OR(*(end.get(s, 0) for s in ((0, 1, 2, 5) if hexa else (0, 1, 2, 4, 5))))

    def word_is(self, w, n, t, slots, x):
        """Inputs on which the word (literal text w, then the integer piece n) is the template element t."""
        m = self.m
        if t in ("rd", "rs1", "rs2"):
            if n is not None:
                return 0
            if w != "fp" and w not in ABI:
                return 0
            return equals(m, slots[t].bits, 8 if w == "fp" else ABI.index(w))
        if t in ("imm", "csr"):
            sl = slots["rs2" if t == "csr" else "imm"]
            if n is not None:
                return self.same_value(w, self.nodes[n][0], sl)
            try:
                v = int(w, 0)
            except ValueError:
                return 0
            k = len(sl.bits)
            if v < -(1 << (k - 1)) or v >= 1 << k:
                return 0
            return equals(m, sl.bits, v & ((1 << k) - 1))
        if n is not None:
            if w or not t.isdigit() or "int" not in self.nodes[n][0]:
                return 0
            return equals(m, self.nodes[n][0]["int"], int(t))
        return 1 if w == t else 0

    def same_value(self, w, t, sl):
        """Inputs on which a printed integer after the prefix w has the value of the slot."""
        m = self.m
        if "bytes" in t:
            # digits computed by the library or by `core` into a buffer
            hexa = w.endswith("0x")
            ok = 0
            for g, chars in t["bytes"]:
                v, digits = digits_value(m, chars, 16 if hexa else 10)
                v += [0] * (len(sl.bits) - len(v))
                piece = {"radix": "x" if hexa else "d", "int": v, "signed": False, "flags": 0}
                ok = m.OR(ok, m.AND(g, digits, self.same_value(w, piece, sl)))
            return ok
        hexa = t["radix"] in ("x", "X")
        if t["radix"] not in "dxX" or len(t["radix"]) != 1:
            return 0
        if hexa != (w.endswith("0x") or bool(t["flags"] & ALTERNATE and hexa)):
            return 0
        if hexa and w.endswith("0x") and t["flags"] & ALTERNATE:
            return 0
        bits, want = t["int"], sl.bits
        signed = t["signed"] and not hexa
        wsigned = sl.ty.startswith("i")
        ext = lambda v, sg, n: v + [v[-1] if sg else 0] * (n - len(v))
        n = max(len(bits), len(want)) + 1
        if w.startswith("-"):
            # minus the printed value
            x = ext(bits, signed, n)
            carry, neg = 1, []
            for b in x:
                nb = m.NOT(b)
                neg.append(m.XOR(nb, carry))
                carry = m.AND(nb, carry)
            return vec_eq(m, neg, ext(want, wsigned, n))
        if not hexa:
            # same mathematical value: extend both by their own signedness
            return vec_eq(m, ext(bits, signed, n), ext(want, wsigned, n))
        # hexadecimal digits of the two's complement pattern of either width
        k = min(len(bits), len(want))
        ok = vec_eq(m, bits[:k], want[:k])
        if len(bits) > k:
            fill = want[-1] if wsigned else 0
            zero = vec_eq(m, bits[k:], [0] * (len(bits) - k))
            same = vec_eq(m, bits[k:], [fill] * (len(bits) - k))
            return m.AND(ok, m.OR(zero, same))
        return m.AND(ok, vec_eq(m, want[k:], [bits[-1] if t["signed"] else 0] * (len(want) - k)))


def vec_eq(m, a, b):
    r = 1
    for p, q in zip(a, b):
        r = m.DIFF(r, m.XOR(p, q))
    return r


def number(t, v):
    """A piece for the integer v as text, without any padding."""
    plus = "+" if t["flags"] & PLUS and v >= 0 else ""
    if t["radix"] == "d":
        return plus + str(v)
    return plus + ("0x" if t["flags"] & ALTERNATE else "") + format(v, t["radix"])


def digits_value(m, chars, radix):
    """The number that the characters spell, and the inputs on which they are digits."""
    v, ok = [], 1
    for c in chars:
        d, here = [0] * 4, 0
        for n in range(radix):
            for ch in {"%x" % n, "%X" % n}:
                g = equals(m, c, ord(ch))
                here = m.OR(here, g)
                d = [m.OR(b, g) if n >> j & 1 else b for j, b in enumerate(d)]
        ok = m.AND(ok, here)
        if radix == 16:
            v = d + v
        else:
            # ten times v, plus the digit
            v = add(m, add(m, [0] + v, [0, 0, 0] + v), d)
    return v, ok


def add(m, a, b):
    n = max(len(a), len(b))
    out, carry = [], 0
    for x, y in zip(a + [0] * (n - len(a)), b + [0] * (n - len(b))):
        t = m.XOR(x, y)
        out.append(m.XOR(t, carry))
        carry = m.OR(m.AND(x, y), m.AND(t, carry))
    return out + [carry]


def equals(m, bits, v):
    if v >> len(bits):
        return 0
    return m.AND(*[b if v >> i & 1 else m.NOT(b) for i, b in enumerate(bits)])
