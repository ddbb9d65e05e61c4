"""Independent definition of the combinatorial objects.

Every family lists its structures for one sequence of a given length as
``{(tensor index, index tuple): multiplicity}`` dictionaries over the entries of
the potential tensor(s), without batch dimension.  Nothing here imports the
library under test.
"""
import itertools
from functools import lru_cache


def chain(n, C, **kw):
    "Taggings of n positions; parts (t, z[t+1], z[t])."
    out = []
    for z in itertools.product(range(C), repeat=n):
        out.append({(0, (t, z[t + 1], z[t])): 1 for t in range(n - 1)})
    return out


def _compositions(n, mx):
    if n == 0:
        yield ()
        return
    for k in range(1, min(n, mx) + 1):
        for r in _compositions(n - k, mx):
            yield (k,) + r


def semimarkov(n, K, C, **kw):
    "Segmentations of n-1 steps into widths 1..K-1 with a state at each boundary."
    out = []
    for ks in _compositions(n - 1, K - 1):
        for z in itertools.product(range(C), repeat=len(ks) + 1):
            d = {}
            pos = 0
            for i, k in enumerate(ks):
                d[(0, (pos, k, z[i + 1], z[i]))] = 1
                pos += k
            out.append(d)
    return out


def _acyclic(heads):
    n = len(heads)
    for c in range(1, n + 1):
        seen = set()
        x = c
        while x != 0:
            if x in seen:
                return False
            seen.add(x)
            x = heads[x - 1]
    return True


def _crossing(heads):
    arcs = [(min(h, c + 1), max(h, c + 1)) for c, h in enumerate(heads)]
    for (a, b), (c, d) in itertools.combinations(arcs, 2):
        if a < c < b < d or c < a < d < b:
            return True
    return False


@lru_cache(None)
def head_vectors(n, projective, multiroot):
    out = []
    for heads in itertools.product(range(n + 1), repeat=n):
        if any(h == c + 1 for c, h in enumerate(heads)):
            continue
        roots = sum(h == 0 for h in heads)
        if roots == 0 or (not multiroot and roots != 1):
            continue
        if not _acyclic(heads):
            continue
        if projective and _crossing(heads):
            continue
        out.append(heads)
    return out


def dependency(n, L=None, multiroot=True, projective=True, **kw):
    out = []
    for heads in head_vectors(n, projective, multiroot):
        arcs = [((h - 1, c) if h > 0 else (c, c)) for c, h in enumerate(heads)]
        if L is None:
            out.append({(0, a): 1 for a in arcs})
        else:
            for ls in itertools.product(range(L), repeat=n):
                out.append({(0, a + (l,)): 1 for a, l in zip(arcs, ls)})
    return out


@lru_cache(None)
def bracketings(i, j):
    "Binary bracketings of i..j as frozensets of spans."
    if i == j:
        return [frozenset([(i, i)])]
    out = []
    for k in range(i, j):
        for a in bracketings(i, k):
            for b in bracketings(k + 1, j):
                out.append(a | b | {(i, j)})
    return out


def tree(n, NT, **kw):
    out = []
    for br in bracketings(0, n - 1):
        sp = sorted(br)
        for ls in itertools.product(range(NT), repeat=len(sp)):
            out.append({(0, s + (l,)): 1 for s, l in zip(sp, ls)})
    return out


def _merge(*ds):
    r = {}
    for d in ds:
        for k, v in d.items():
            r[k] = r.get(k, 0) + v
    return r


def cfg(n, NT, T, **kw):
    """Parses; tensors are terms(0), rules(1), roots(2); spans under index 3 as
    (width-1, start, symbol)."""

    @lru_cache(None)
    def go(i, j):
        "list of (symbol, parts)"
        if i == j:
            return [(NT + t, ((((0, (i, t)), 1)),)) for t in range(T)]
        out = []
        for k in range(i, j):
            for b, pb in go(i, k):
                for c, pc in go(k + 1, j):
                    for a in range(NT):
                        d = _merge(dict(pb), dict(pc), {(1, (a, b, c)): 1, (3, (j - i - 1, i, a)): 1})
                        out.append((a, tuple(d.items())))
        return out

    out = []
    for a, p in go(0, n - 1):
        if a < NT:
            out.append(_merge(dict(p), {(2, (a,)): 1}))
    return out
