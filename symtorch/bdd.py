"""Small decision diagrams, used only to simplify guards of finite cells.

Two guards with the same diagram are equivalent, a guard with diagram 0 is impossible.
Anything that is not a Boolean connective is an opaque variable."""
import z3


class Bdd:
    def __init__(self):
        self.node = [None, None]  # 0: false, 1: true; others (var, lo, hi)
        self.uniq = {}
        self.memo = {}
        self.vars = {}
        self.ast = {}
        self.rep = {}

    def mk(self, v, lo, hi):
        if lo == hi:
            return lo
        k = (v, lo, hi)
        n = self.uniq.get(k)
        if n is None:
            n = self.uniq[k] = len(self.node)
            self.node.append(k)
        return n

    def neg(self, a):
        if a < 2:
            return 1 - a
        r = self.memo.get(a)
        if r is None:
            v, lo, hi = self.node[a]
            r = self.memo[a] = self.mk(v, self.neg(lo), self.neg(hi))
        return r

    def conj(self, a, b):
        if a == 0 or b == 0:
            return 0
        if a == 1:
            return b
        if b == 1 or a == b:
            return a
        if a > b:
            a, b = b, a
        k = (a, b)
        r = self.memo.get(k)
        if r is None:
            va, la, ha = self.node[a]
            vb, lb, hb = self.node[b]
            v = min(va, vb)
            if va != v:
                la = ha = a
            if vb != v:
                lb = hb = b
            r = self.memo[k] = self.mk(v, self.conj(la, lb), self.conj(ha, hb))
        return r

    def disj(self, a, b):
        return self.neg(self.conj(self.neg(a), self.neg(b)))

    def of(self, z):
        if isinstance(z, bool):
            return int(z)
        i = z.get_id()
        r = self.ast.get(i)
        if r is not None:
            return r[1]
        if z3.is_true(z):
            n = 1
        elif z3.is_false(z):
            n = 0
        elif z3.is_not(z):
            n = self.neg(self.of(z.arg(0)))
        elif z3.is_and(z):
            n = 1
            for c in z.children():
                n = self.conj(n, self.of(c))
        elif z3.is_or(z):
            n = 0
            for c in z.children():
                n = self.disj(n, self.of(c))
        else:
            v = self.vars.setdefault(i, len(self.vars))
            n = self.mk(v, 0, 1)
        self.ast[i] = (z, n)
        return n

    def canon(self, b, n=None):
        "one formula per meaning"
        n = self.of(b.z) if n is None else n
        r = self.rep.get(n)
        if r is None:
            r = self.rep[n] = type(b)(bool(n), bool(n)) if n < 2 else b
        return r
