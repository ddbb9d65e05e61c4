"""Sums over structures too many to list, by recursions unlike the library's.

``total(fam, b, w, R)`` is the sum over the structures of batch element ``b`` of the product of
the weights ``w(tensor, index)`` of their parts, in a ring R with ``zero, one, add, mul``.
The recursions follow the definitions in ``structures``; ``selftest`` compares the two.
"""
from functools import lru_cache


class Floats:
    zero, one = 0.0, 1.0
    add = staticmethod(lambda a, b: a + b)
    mul = staticmethod(lambda a, b: a * b)


class Duals:
    "values with a derivative"
    zero, one = (0.0, 0.0), (1.0, 0.0)
    add = staticmethod(lambda a, b: (a[0] + b[0], a[1] + b[1]))
    mul = staticmethod(lambda a, b: (a[0] * b[0], a[0] * b[1] + a[1] * b[0]))


class Tropical:
    """Best score for every set of marked parts: {frozenset of marks: score}."""

    zero, one = {}, {frozenset(): 0.0}

    @staticmethod
    def add(a, b):
        r = dict(a)
        for k, v in b.items():
            if k not in r or r[k] < v:
                r[k] = v
        return r

    @staticmethod
    def mul(a, b):
        r = {}
        for k, v in a.items():
            for l, u in b.items():
                s = k | l
                if s not in r or r[s] < v + u:
                    r[s] = v + u
        return r


def TropicalK(k):
    "The k best scores for every set of marked parts: {frozenset of marks: descending scores}."

    class R:
        zero, one = {}, {frozenset(): (0.0,)}

        @staticmethod
        def add(a, b):
            r = dict(a)
            for m, v in b.items():
                r[m] = tuple(sorted(r.get(m, ()) + v, reverse=True)[:k])
            return r

        @staticmethod
        def mul(a, b):
            r = {}
            for m, v in a.items():
                for l, u in b.items():
                    s = m | l
                    r[s] = tuple(sorted(r.get(s, ()) + tuple(x + y for x in v for y in u), reverse=True)[:k])
            return r

    return R


def _sum(R, xs):
    r = R.zero
    for x in xs:
        r = R.add(r, x)
    return r


def _prod(R, *xs):
    r = xs[0]
    for x in xs[1:]:
        r = R.mul(r, x)
    return r


def chain(n, C, w, R):
    f = [R.one] * C
    for t in range(n - 1):
        f = [_sum(R, (R.mul(f[p], w(0, (t, c, p))) for p in range(C))) for c in range(C)]
    return _sum(R, f)


def semimarkov(n, K, C, w, R):
    f = [[R.one] * C]
    for e in range(1, n):
        f.append([_sum(R, (R.mul(f[e - k][p], w(0, (e - k, k, c, p))) for k in range(1, min(K - 1, e) + 1) for p in range(C))) for c in range(C)])
    return _sum(R, f[n - 1])


def dependency(n, L, multiroot, w, R):
    "by the blocks of words each dependent of a head covers"

    def arc(h, m):
        return _sum(R, (w(0, (h, m, l)) for l in range(L))) if L else w(0, (h, m))

    arc = lru_cache(None)(arc)

    @lru_cache(None)
    def tree(i, j, h):
        return R.mul(left(i, h), right(h, j))

    @lru_cache(None)
    def block(i, k, h):
        "words i..k as the subtree of one dependent of h"
        return _sum(R, (R.mul(arc(h, d), tree(i, k, d)) for d in range(i, k + 1)))

    @lru_cache(None)
    def left(i, h):
        "dependents of h covering i..h-1"
        if i == h:
            return R.one
        return _sum(R, (R.mul(block(i, k, h), left(k + 1, h)) for k in range(i, h)))

    @lru_cache(None)
    def right(h, j):
        if h == j:
            return R.one
        return _sum(R, (R.mul(right(h, k - 1), block(k, j, h)) for k in range(h + 1, j + 1)))

    def top(i, k):
        return _sum(R, (R.mul(arc(d, d), tree(i, k, d)) for d in range(i, k + 1)))

    if not multiroot:
        return top(0, n - 1)
    f = [R.one]
    for e in range(1, n + 1):
        f.append(_sum(R, (R.mul(f[s], top(s, e - 1)) for s in range(e))))
    return f[n]


def tree(n, NT, w, R):
    @lru_cache(None)
    def inside(i, j):
        here = _sum(R, (w(0, (i, j, a)) for a in range(NT)))
        if i == j:
            return here
        return R.mul(here, _sum(R, (R.mul(inside(i, k), inside(k + 1, j)) for k in range(i, j))))

    return inside(0, n - 1)


def cfg(n, NT, T, w, R):
    @lru_cache(None)
    def inside(i, j, a):
        if i == j:
            return w(0, (i, a - NT)) if a >= NT else R.zero
        if a >= NT:
            return R.zero
        out = []
        for k in range(i, j):
            ls = range(NT, NT + T) if k == i else range(NT)
            rs = range(NT, NT + T) if k + 1 == j else range(NT)
            out += [_prod(R, w(1, (a, x, y)), inside(i, k, x), inside(k + 1, j, y)) for x in ls for y in rs]
        return _sum(R, out)

    return _sum(R, (R.mul(w(2, (a,)), inside(0, n - 1, a)) for a in range(NT))) if n > 1 else R.zero


def total(fam, b, w, R):
    c, n = fam.c, fam.length(b)
    if fam.name == "chain":
        return chain(n, c["C"], w, R)
    if fam.name == "semi":
        return semimarkov(n, c["K"], c["C"], w, R)
    if fam.name == "dep":
        return dependency(n, c.get("L"), c.get("multiroot", True), w, R)
    if fam.name == "tree":
        return tree(n, c["NT"], w, R)
    if fam.name == "cfg":
        return cfg(n, c["NT"], c["T"], w, R)
    raise KeyError(fam.name)


def selftest():
    import numpy as np

    from .families import Family

    rng = np.random.default_rng(0)
    for c in (
        dict(family="chain", N=4, C=3),
        dict(family="chain", N=1, C=3),
        dict(family="semi", N=5, K=4, C=2),
        dict(family="dep", N=4, multiroot=True),
        dict(family="dep", N=4, multiroot=False),
        dict(family="dep", N=3, L=2, multiroot=True),
        dict(family="tree", N=4, NT=2),
        dict(family="cfg", N=4, NT=2, T=2),
    ):
        c = dict(c, B=1)
        fam = Family(c["family"], c)
        x = [rng.uniform(0.5, 2, size=s) for _, s in fam.shapes()]
        want = sum(np.prod([x[t][(0,) + ix] ** k for (t, ix), k in z.items() if t < len(x)] or [1.0]) for z in fam.structs(0))
        got = total(fam, 0, lambda t, ix: x[t][(0,) + ix], Floats)
        assert abs(got / want - 1) < 1e-9, (c, got, want)
        sc = sorted((sum(k * np.log(x[t][(0,) + ix]) for (t, ix), k in z.items() if t < len(x)) for z in fam.structs(0)), reverse=True)[:5]
        top = total(fam, 0, lambda t, ix: {frozenset(): (float(np.log(x[t][(0,) + ix])),)}, TropicalK(5))[frozenset()]
        assert len(top) == len(sc) and np.allclose(top, sc), (c, top, sc)
