"""Reduced ordered binary decision diagrams: canonical form of path conditions.

Nodes are ints; 0 = false, 1 = true.  Variables are ordered by creation."""
import sys

sys.setrecursionlimit(100000)


class BDD:
    def __init__(self):
        self.nodes = [(1 << 60, 0, 0), (1 << 60, 1, 1)]
        self.uniq = {}
        self.memo = {}
        self.cmemo = {}
        self.sup = {0: frozenset(), 1: frozenset()}

    def mk(self, v, lo, hi):
        if lo == hi:
            return lo
        k = (v, lo, hi)
        n = self.uniq.get(k)
        if n is None:
            n = len(self.nodes)
            self.nodes.append(k)
            self.uniq[k] = n
        return n

    def var(self, v):
        return self.mk(v, 0, 1)

    def ite(self, f, g, h):
        if f == 1:
            return g
        if f == 0:
            return h
        if g == h:
            return g
        if g == 1 and h == 0:
            return f
        k = (f, g, h)
        r = self.memo.get(k)
        if r is not None:
            return r
        nf, ng, nh = self.nodes[f], self.nodes[g], self.nodes[h]
        v = min(nf[0], ng[0], nh[0])
        f0, f1 = (nf[1], nf[2]) if nf[0] == v else (f, f)
        g0, g1 = (ng[1], ng[2]) if ng[0] == v else (g, g)
        h0, h1 = (nh[1], nh[2]) if nh[0] == v else (h, h)
        r = self.mk(v, self.ite(f0, g0, h0), self.ite(f1, g1, h1))
        self.memo[k] = r
        return r

    def AND(self, *fs):
        r = 1
        for f in fs:
            r = self.ite(r, f, 0)
            if r == 0:
                return 0
        return r

    def OR(self, *fs):
        r = 0
        for f in fs:
            r = self.ite(r, 1, f)
            if r == 1:
                return 1
        return r

    def NOT(self, f):
        return self.ite(f, 0, 1)

    def implies(self, f, g):
        return self.ite(f, g, 1) == 1

    def constrain(self, f, c):
        """Generalised cofactor (Coudert-Madre restrict): agrees with f wherever c holds."""
        if c == 1 or f in (0, 1):
            return f
        if c == 0:
            return 0
        if f == c:
            return 1
        k = (f, c)
        r = self.cmemo.get(k)
        if r is not None:
            return r
        if self.support(f).isdisjoint(self.support(c)):
            self.cmemo[k] = f
            return f
        nf, nc = self.nodes[f], self.nodes[c]
        if nc[0] < nf[0] and len(self.support(f)) <= 12:
            # few variables: follow f and see which branches c still allows
            r = self.prune(f, c)
        elif nc[0] < nf[0]:
            r = self.constrain(f, self.OR(nc[1], nc[2]))
        elif nf[0] < nc[0]:
            r = self.mk(nf[0], self.constrain(nf[1], c), self.constrain(nf[2], c))
        elif nc[1] == 0:
            r = self.constrain(nf[2], nc[2])
        elif nc[2] == 0:
            r = self.constrain(nf[1], nc[1])
        else:
            r = self.mk(nf[0], self.constrain(nf[1], nc[1]), self.constrain(nf[2], nc[2]))
        self.cmemo[k] = r
        return r

    def cofactor_by(self, f, c):
        """Generalised cofactor (constrain): depends on f only where c holds, so it is a canonical form of f under c."""
        if c in (0, 1) or f in (0, 1):
            return f
        if f == c:
            return 1
        k = (f, c, "by")
        r = self.cmemo.get(k)
        if r is None:
            v = min(self.nodes[f][0], self.nodes[c][0])
            f0, f1 = self.nodes[f][1:] if self.nodes[f][0] == v else (f, f)
            c0, c1 = self.nodes[c][1:] if self.nodes[c][0] == v else (c, c)
            if c1 == 0:
                r = self.cofactor_by(f0, c0)
            elif c0 == 0:
                r = self.cofactor_by(f1, c1)
            else:
                r = self.mk(v, self.cofactor_by(f0, c0), self.cofactor_by(f1, c1))
            self.cmemo[k] = r
        return r

    def prune(self, f, c):
        if f in (0, 1):
            return f
        k = ("p", f, c)
        r = self.cmemo.get(k)
        if r is not None:
            return r
        v, lo, hi = self.nodes[f]
        if v not in self.support(c):
            a, b = self.prune(lo, c), self.prune(hi, c)
            r = self.mk(v, a, b)
        else:
            c0, c1 = self.cofactor(c, v, False), self.cofactor(c, v, True)
            if c0 == 0:
                r = self.prune(hi, c1)
            elif c1 == 0:
                r = self.prune(lo, c0)
            else:
                r = self.mk(v, self.prune(lo, c0), self.prune(hi, c1))
        self.cmemo[k] = r
        return r

    def support(self, f):
        s = self.sup.get(f)
        if s is None:
            v, lo, hi = self.nodes[f]
            s = self.support(lo) | self.support(hi) | {v}
            self.sup[f] = s
        return s

    def exists(self, f, vs):
        memo = {}

        def go(f):
            if f in (0, 1) or not (self.support(f) & vs):
                return f
            if f in memo:
                return memo[f]
            v, lo, hi = self.nodes[f]
            a, b = go(lo), go(hi)
            r = self.OR(a, b) if v in vs else self.mk(v, a, b)
            memo[f] = r
            return r

        return go(f)

    def cofactor(self, f, v, val):
        memo = {}

        def go(f):
            n = self.nodes[f]
            if n[0] > v:
                return f
            if f in memo:
                return memo[f]
            r = (n[2] if val else n[1]) if n[0] == v else self.mk(n[0], go(n[1]), go(n[2]))
            memo[f] = r
            return r

        return go(f)

    def cubes(self, f, limit=64):
        """Paths to true, as lists of (var, bool); merged a little for display."""
        out = []

        def go(f, acc):
            if len(out) >= limit or f == 0:
                return
            if f == 1:
                out.append(list(acc))
                return
            v, lo, hi = self.nodes[f]
            acc.append((v, True))
            go(hi, acc)
            acc[-1] = (v, False)
            go(lo, acc)
            acc.pop()

        go(f, [])
        return out
