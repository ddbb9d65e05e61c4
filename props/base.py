"""Shared pieces of the property harnesses."""
import itertools

import numpy as np
import torch

from harness import Fail, Sym, close, need, to_tensors
from oracle import families as F
from symtorch import alg
from symtorch.alg import Poly, poly

ASSUME = [
    "floating-point arithmetic is treated as real arithmetic (the replay and the per-operation validation run in floats)",
    "potentials lie in [-100, 100]; terms at the scale of the library's semiring zero (-1e5) are absorbed by finite terms, as in floats",
    "sizes, lengths and tensor layouts are enumerated configurations; all potential values are symbolic",
    "equal scores may be resolved either way by max/topk/sort",
]


class Prop:
    pid = None
    bounds = ""
    assumptions = ASSUME
    budget = 600
    light = False  # set while the base input of a decided case is replayed
    case_limit = 150

    def fam(self, case):
        return F.Family(case["family"], case)

    def values(self, case, seed=None):
        if case.get("large"):
            from . import large

            return large.values(case, seed)
        return self.fam(case).values(case.get("seed", 0) if seed is None else seed)


def grad_ctx(case):
    return torch.no_grad() if case.get("nograd") else torch.enable_grad()


def sym_dist(case, sym):
    fam = F.Family(case["family"], case)
    mask = {}
    if case.get("large"):
        from . import large

        mask = large.masks(case)
    elif case.get("ban") is not None:
        for t, (n, _) in enumerate(fam.shapes()):
            mask[n] = ~np.stack([fam.banned(b)[t] for b in range(case["B"])])
    ts = [sym.input(n, mask=mask.get(n)) for n, _ in fam.shapes()]
    cells = [sym.cells(t) for t in ts]
    return fam, ts, cells, fam.build(ts)


def real_dist(case, vals):
    fam = F.Family(case["family"], case)
    ts = to_tensors(case, vals, [n for n, _ in fam.shapes()])
    return fam, ts, fam.build(ts)


def shape_is(t, shape, what):
    if not isinstance(t, torch.Tensor):
        raise Fail("%s: result is %s, not a tensor" % (what, type(t).__name__))
    need(tuple(t.shape) == tuple(shape), "%s: shape %s, expected %s" % (what, tuple(t.shape), tuple(shape)))


# ---------------------------------------------------------------- case tables
def C(family, B, N, **kw):
    d = {"family": family, "B": B, "N": N}
    d.update(kw)
    return d


def line_cases(tier, rows):
    "sums of a sampling semiring along the dimensions of a tensor"
    out = []
    shapes = [([3], 0), ([2, 3], -1), ([3, 2], 0), ([2, 3], 1), ([3, 2], -2), ([2, 3, 2], 1), ([2, 2, 3], -2), ([2, 1, 3], 0), ([3, 2, 2], -3), ([2, 2, 3], 2)]
    if tier == "thorough":
        shapes += [([2, 3, 2, 2], 1), ([2, 2, 3, 2], -2), ([4, 3], 0), ([5], -1)]
    for i, (s, d) in enumerate(shapes):
        for r in rows(i):
            n = s[d]
            out.append(C("lines", int(np.prod(s)) // n, n, shape=s, dim=d, **r))
    return out


def chain_cases(tier, big=True):
    out = [
        C("chain", 1, 2, C=1),
        C("chain", 1, 2, C=2),
        C("chain", 2, 2, C=3, lengths=[2, 1]),
        C("chain", 3, 3, C=2, lengths=[1, 3, 2]),
        C("chain", 2, 3, C=3, how="grad"),
        C("chain", 2, 4, C=2, lengths=[4, 3]),
        C("chain", 2, 4, C=3, lengths=[2, 4], how="strided"),
        C("chain", 1, 4, C=4),
        C("chain", 4, 5, C=2, lengths=[5, 1, 3, 4]),
        C("chain", 2, 5, C=3, lengths=[5, 2], how="nonleaf"),
        C("chain", 2, 6, C=2, lengths=[3, 6], nograd=1),
        C("chain", 1, 6, C=2, how="offset", dtype="float32"),
        C("chain", 2, 7, C=2, lengths=[7, 6]),
        C("chain", 1, 9, C=1),
        C("chain", 2, 8, C=2, lengths=[5, 8]),
        C("chain", 6, 4, C=2, lengths=[2, 4, 2, 3, 4, 3]),
    ]
    if big:
        out += [
            C("chain", 1, 9, C=2),
            C("chain", 2, 10, C=2, lengths=[10, 9]),
            C("chain", 1, 18, C=1),
            C("chain", 1, 3, C=7),
        ]
    if tier == "thorough":
        out += [
            C("chain", 3, 11, C=2, lengths=[11, 8, 2]),
            C("chain", 1, 12, C=2),
            C("chain", 1, 7, C=3),
            C("chain", 2, 6, C=4, lengths=[6, 5]),
            C("chain", 1, 35, C=1),
            C("chain", 6, 6, C=2, lengths=[1, 2, 3, 4, 5, 6]),
            C("chain", 1, 3, C=10),
        ]
    return out


def semi_cases(tier, big=True):
    out = [
        C("semi", 1, 2, K=2, C=2),
        C("semi", 1, 2, K=3, C=1),
        C("semi", 2, 3, K=2, C=2, lengths=[3, 2]),
        C("semi", 2, 3, K=3, C=2, lengths=[2, 3], how="grad"),
        C("semi", 3, 3, K=4, C=2, lengths=[1, 3, 2]),
        C("semi", 2, 4, K=3, C=2, lengths=[4, 3]),
        C("semi", 1, 4, K=5, C=2, how="strided"),
        C("semi", 2, 4, K=4, C=3, lengths=[3, 4]),
        C("semi", 1, 5, K=6, C=1),
        C("semi", 2, 5, K=4, C=2, lengths=[5, 2], nograd=1),
        C("semi", 2, 6, K=3, C=2, lengths=[4, 6], dtype="float32"),
        C("semi", 2, 7, K=4, C=1, lengths=[7, 5]),
        C("semi", 5, 4, K=3, C=1, lengths=[2, 4, 2, 3, 4]),
    ]
    if big:
        out += [
            C("semi", 1, 6, K=4, C=2, how="nonleaf"),
            C("semi", 2, 9, K=5, C=1, lengths=[9, 8]),
            C("semi", 1, 5, K=3, C=3),
        ]
    if tier == "thorough":
        out += [
            C("semi", 1, 7, K=5, C=2),
            C("semi", 3, 6, K=6, C=2, lengths=[6, 3, 5]),
            C("semi", 1, 12, K=4, C=1),
            C("semi", 2, 6, K=3, C=3, lengths=[6, 5]),
        ]
    return out


def dep_cases(tier, big=True):
    out = []
    for mr in (True, False):
        out += [
            C("dep", 1, 1, multiroot=mr),
            C("dep", 1, 2, multiroot=mr),
            C("dep", 2, 3, multiroot=mr, lengths=[3, 2], how="grad"),
            C("dep", 3, 3, multiroot=mr, lengths=[1, 3, 2]),
            C("dep", 2, 4, multiroot=mr, lengths=[3, 4], how="strided"),
            C("dep", 1, 2, L=3, multiroot=mr),
            C("dep", 2, 3, L=2, multiroot=mr, lengths=[3, 2]),
            C("dep", 2, 4, multiroot=mr, lengths=[4, 1], nograd=1),
            C("dep", 2, 3, multiroot=mr, how="nonleaf", dtype="float32"),
        ]
        if big:
            out += [
                C("dep", 2, 5, multiroot=mr, lengths=[5, 3]),
                C("dep", 2, 4, L=2, multiroot=mr, lengths=[4, 2]),
            ]
        if tier == "thorough":
            out += [
                C("dep", 1, 6, multiroot=mr),
                C("dep", 3, 5, multiroot=mr, lengths=[2, 5, 4]),
                C("dep", 1, 4, L=3, multiroot=mr),
            ]
        out.append(C("dep", 5, 3, multiroot=mr, lengths=[2, 3, 1, 3, 2]))
    out.append(C("dep", 2, 3, lengths=[2, 3]))
    out.append(C("dep", 2, 4, lengths=[2, 3], multiroot=True))
    out.append(C("dep", 3, 4, lengths=[2, 1, 3], multiroot=False))
    return out


def tree_cases(tier, big=True):
    out = [
        C("tree", 1, 1, NT=2),
        C("tree", 1, 2, NT=1),
        C("tree", 2, 2, NT=2, lengths=[2, 1], how="grad"),
        C("tree", 2, 3, NT=2, lengths=[3, 2]),
        C("tree", 3, 3, NT=1, lengths=[1, 3, 2], how="strided"),
        C("tree", 2, 4, NT=1, lengths=[3, 4]),
        C("tree", 1, 3, NT=3, nograd=1),
        C("tree", 2, 4, NT=2, lengths=[4, 2], dtype="float32"),
        C("tree", 2, 5, NT=1, lengths=[5, 4], how="nonleaf"),
        C("tree", 3, 4, NT=2, lengths=[2, 3, 1]),
        C("tree", 6, 4, NT=1, lengths=[2, 4, 1, 3, 4, 2]),
    ]
    if big:
        out += [C("tree", 2, 6, NT=1, lengths=[6, 3]), C("tree", 1, 4, NT=2)]
    if tier == "thorough":
        out += [C("tree", 1, 7, NT=1), C("tree", 3, 6, NT=1, lengths=[2, 6, 5]), C("tree", 1, 4, NT=3)]
    return out


def cfg_cases(tier, big=True):
    out = [
        C("cfg", 1, 2, NT=1, T=1),
        C("cfg", 1, 2, NT=2, T=2),
        C("cfg", 2, 2, NT=2, T=1, how="grad"),
        C("cfg", 2, 3, NT=1, T=2, lengths=[3, 2]),
        C("cfg", 2, 3, NT=2, T=1, lengths=[2, 3], how="strided"),
        C("cfg", 2, 4, NT=1, T=1, lengths=[4, 3], how="nonleaf"),
        C("cfg", 2, 3, NT=2, T=2, nograd=1),
        C("cfg", 1, 3, NT=1, T=3, dtype="float32"),
        C("cfg", 2, 4, NT=1, T=2, lengths=[2, 3]),
        C("cfg", 5, 3, NT=1, T=1, lengths=[2, 3, 3, 2, 3]),
    ]
    if big:
        out += [
            C("cfg", 2, 4, NT=2, T=1, lengths=[4, 2]),
            C("cfg", 1, 5, NT=1, T=1),
            C("cfg", 1, 4, NT=1, T=2),
        ]
    if tier == "thorough":
        out += [C("cfg", 1, 6, NT=1, T=1), C("cfg", 2, 4, NT=1, T=2, lengths=[4, 3]), C("cfg", 2, 3, NT=3, T=2, lengths=[3, 2])]
    return out


TABLES = {"chain": chain_cases, "semi": semi_cases, "dep": dep_cases, "tree": tree_cases, "cfg": cfg_cases}


def table(families, tier, big=True):
    cols = [TABLES[f](tier, big) for f in families]
    out = []
    for row in itertools.zip_longest(*cols):
        out += [c for c in row if c is not None]
    return out


def systematic(families, cap):
    "every length of a second batch element for every size whose number of structures stays below cap"
    out = []

    def add(c, lens=True):
        n = c["N"]
        if len(F.Family(c["family"], dict(c, lengths=None)).structs(0)) > cap:
            return False
        out.append(c)
        if not lens:
            return True
        for L in range(2 if c["family"] == "cfg" else 1, n):
            ls = [n, L] if (n + L) % 2 else [L, n]
            out.append(dict(c, B=2, lengths=ls))
        if n > 3:
            out.append(dict(c, B=3, lengths=[n - 1, n, n - 2]))
        return True

    for f in families:
        if f == "chain":
            for k in (1, 2, 3, 4, 5):
                for N in range(2, 14):
                    if k**N > cap or not add(C(f, 1, N, C=k)):
                        break
        elif f == "semi":
            for k in (1, 2, 3):
                for N in range(2, 10):
                    for K in range(2, min(N + 2, 7)):
                        if k * (k + 1) ** (N - 1) <= 2 * cap:
                            add(C(f, 1, N, K=K, C=k))
        elif f == "dep":
            for mr in (True, False):
                for N in range(1, 7):
                    if N > 5 and cap < 1400 or not add(C(f, 1, N, multiroot=mr)):
                        break
                for N in range(1, 5):
                    if not add(C(f, 1, N, multiroot=mr, L=2)):
                        break
        elif f == "tree":
            for k in (1, 2, 3):
                for N in range(1, 9):
                    if N > 2 and k**N * 2 ** (N - 2) > 30 * cap or not add(C(f, 1, N, NT=k)):
                        break
        elif f == "cfg":
            for nt, t in ((1, 1), (1, 2), (2, 1), (2, 2), (1, 3)):
                for N in range(2, 7):
                    if N > 2 and (nt + t) ** N * 2 ** (N - 2) > 30 * cap or not add(C(f, 1, N, NT=nt, T=t)):
                        break
    return out
