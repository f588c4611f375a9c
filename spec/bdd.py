"""Canonical decision diagrams (shared, ordered) for comparing summaries with specifications."""
import sys

sys.setrecursionlimit(100000)

F, T = 0, 1
# nodes and remembered operations; a node takes about 250 bytes
NODES, CACHE = 16_000_000, 8_000_000


class TooLarge(Exception):
    pass


class Bdd:
    def __init__(self, order):
        self.order = list(order)
        self.level = {n: i for i, n in enumerate(self.order)}
        self.lev = [1 << 30, 1 << 30]
        self.lo = [0, 1]
        self.hi = [0, 1]
        self.unique = {}
        self.cache = {}

    def mk(self, l, lo, hi):
        if lo == hi:
            return lo
        k = (l, lo, hi)
        n = self.unique.get(k)
        if n is None:
            n = len(self.lev)
            if n > NODES:
                raise TooLarge
            self.lev.append(l)
            self.lo.append(lo)
            self.hi.append(hi)
            self.unique[k] = n
        return n

    def var(self, name):
        return self.mk(self.level[name], F, T)

    def ite(self, f, g, h):
        if f == T:
            return g
        if f == F:
            return h
        if g == h:
            return g
        if g == T and h == F:
            return f
        if f == g:
            g = T
        if f == h:
            h = F
        k = (f, g, h)
        r = self.cache.get(k)
        if r is not None:
            return r
        lf, lg, lh = self.lev[f], self.lev[g], self.lev[h]
        l = min(lf, lg, lh)
        f0, f1 = (self.lo[f], self.hi[f]) if lf == l else (f, f)
        g0, g1 = (self.lo[g], self.hi[g]) if lg == l else (g, g)
        h0, h1 = (self.lo[h], self.hi[h]) if lh == l else (h, h)
        r = self.mk(l, self.ite(f0, g0, h0), self.ite(f1, g1, h1))
        if len(self.cache) > CACHE:
            self.cache.clear()
        self.cache[k] = r
        return r

    def NOT(self, f):
        return self.ite(f, F, T)

    def AND(self, *fs):
        r = T
        for f in fs:
            r = self.ite(r, f, F)
            if r == F:
                break
        return r

    def OR(self, *fs):
        r = F
        for f in fs:
            r = self.ite(r, T, f)
        return r

    def XOR(self, f, g):
        return self.ite(f, self.NOT(g), g)

    def DIFF(self, f, g):
        """f and not g"""
        return self.ite(g, F, f)

    def exists(self, f, names):
        ls = sorted(self.level[n] for n in names)
        memo = {}

        def go(x, i):
            while i < len(ls) and ls[i] < self.lev[x]:
                i += 1
            if x < 2 or i == len(ls):
                return x
            k = (x, i)
            r = memo.get(k)
            if r is None:
                a, b = go(self.lo[x], i), go(self.hi[x], i)
                r = self.OR(a, b) if self.lev[x] == ls[i] else self.mk(self.lev[x], a, b)
                memo[k] = r
            return r

        return go(f, 0)

    def rename(self, f, mapping):
        """Substitute variables by variables."""
        memo = {}

        def go(x):
            if x < 2:
                return x
            r = memo.get(x)
            if r is None:
                n = self.order[self.lev[x]]
                v = self.var(mapping.get(n, n))
                r = self.ite(v, go(self.hi[x]), go(self.lo[x]))
                memo[x] = r
            return r

        return go(f)

    def pick(self, f, prefer=0):
        """One satisfying assignment (variables not mentioned are free)."""
        if f == F:
            return None
        a = {}
        while f != T:
            n = self.order[self.lev[f]]
            lo, hi = self.lo[f], self.hi[f]
            if lo != F and (prefer == 0 or hi == F):
                a[n] = 0
                f = lo
            else:
                a[n] = 1
                f = hi
        return a

    def count(self, f, names):
        """Number of assignments of `names` satisfying f (f must depend on these only)."""
        ls = sorted(self.level[n] for n in names)
        pos = {l: i for i, l in enumerate(ls)}
        n = len(ls)
        memo = {}

        def idx(x):
            return n if x < 2 else pos[self.lev[x]]

        def go(x):
            if x == F:
                return 0
            if x == T:
                return 1
            r = memo.get(x)
            if r is None:
                i = idx(x)
                r = (go(self.lo[x]) << (idx(self.lo[x]) - i - 1)) + (go(self.hi[x]) << (idx(self.hi[x]) - i - 1))
                memo[x] = r
            return r

        return go(f) << idx(f)

    def evaluate(self, f, a):
        while f > 1:
            f = self.hi[f] if a.get(self.order[self.lev[f]], 0) else self.lo[f]
        return f

    def load(self, varnames, nodes, rename=None):
        """Import the node list of a summary; returns a list mapping node ids."""
        m = [F, T]
        for v, lo, hi in nodes:
            n = varnames[v]
            if rename:
                n = rename(n)
            m.append(self.ite(self.var(n), m[hi], m[lo]))
        return m

    def vec_eq(self, a, b):
        r = T
        for x, y in zip(a, b):
            r = self.AND(r, self.NOT(self.XOR(x, y)))
        return r

    def size(self, f):
        seen = set()
        st = [f]
        while st:
            x = st.pop()
            if x < 2 or x in seen:
                continue
            seen.add(x)
            st += [self.lo[x], self.hi[x]]
        return len(seen)
