"""Configurations of the distributions: shapes, structures, construction."""
import numpy as np

from . import structures as S


class Family:
    def __init__(self, name, case):
        self.name = name
        self.c = case
        self.B = case["B"]

    # case keys: family, B, N, C/K/L/NT/T, lengths (None or list)
    def shapes(self):
        c = self.c
        B, N = c["B"], c["N"]
        if self.name == "chain":
            return [("x", (B, N - 1, c["C"], c["C"]))]
        if self.name == "semi":
            return [("x", (B, N - 1, c["K"], c["C"], c["C"]))]
        if self.name in ("dep", "nonproj"):
            return [("x", (B, N, N) + ((c["L"],) if c.get("L") else ()))]
        if self.name == "tree":
            return [("x", (B, N, N, c["NT"]))]
        if self.name == "cfg":
            NT, T = c["NT"], c["T"]
            return [("t", (B, N, T)), ("r", (B, NT, NT + T, NT + T)), ("o", (B, NT))]
        if self.name == "lines":
            return [("x", (B, N))]
        raise KeyError(self.name)

    def length(self, b):
        l = self.c.get("lengths")
        return self.c["N"] if l is None else l[b]

    def structs(self, b):
        zs = self._structs(b)
        if self.c.get("ban") is None:
            return zs
        ban = self.banned(b)
        return [z for z in zs if not any(t < len(ban) and ban[t][ix] for t, ix in z)]

    def banned(self, b):
        "forbidden parts of element b (one mask per tensor), chosen by case['ban']; some structure stays allowed"
        seed = self.c["ban"]
        rng = np.random.default_rng([seed + 31, b])
        ps = (0.1, 0.25, 0.4, 0.6) if seed % 2 else (0.5, 0.3, 0.15, 0.7)
        zs = self._structs(b)
        shapes = [s[1:] for _, s in self.shapes()]
        for k in range(40):
            ban = [rng.random(s) < ps[k % 4] for s in shapes]
            ok = [not any(t < len(ban) and ban[t][ix] for t, ix in z) for z in zs]
            if any(ok) and (k >= 20 or len(zs) == 1 or not all(ok)):
                return ban
        # keep one structure and forbid everything else
        z = zs[int(rng.integers(len(zs)))]
        return [np.array([(t, ix) not in z for ix in np.ndindex(*s)]).reshape(s) for t, s in enumerate(shapes)]

    def _structs(self, b):
        c = self.c
        n = self.length(b)
        if self.name == "chain":
            return S.chain(n, c["C"])
        if self.name == "semi":
            return S.semimarkov(n, c["K"], c["C"])
        if self.name == "dep":
            return S.dependency(n, c.get("L"), c.get("multiroot", True))
        if self.name == "nonproj":
            return S.dependency(n, None, c.get("multiroot", False), projective=False)
        if self.name == "tree":
            return S.tree(n, c["NT"])
        if self.name == "cfg":
            return S.cfg(n, c["NT"], c["T"])
        if self.name == "lines":
            return [{(0, (i,)): 1} for i in range(n)]
        raise KeyError(self.name)

    def build(self, ts, lengths="default", torch=None):
        import torch
        import torch_struct as ts_

        c = self.c
        if lengths == "default":
            lengths = c.get("lengths")
        if lengths is not None and not isinstance(lengths, torch.Tensor):
            lengths = torch.tensor(lengths)
        if self.name == "chain":
            return ts_.LinearChainCRF(ts[0], lengths=lengths)
        if self.name == "semi":
            return ts_.SemiMarkovCRF(ts[0], lengths=lengths)
        if self.name == "dep":
            if "multiroot" in c:
                return ts_.DependencyCRF(ts[0], lengths=lengths, multiroot=c["multiroot"])
            return ts_.DependencyCRF(ts[0], lengths=lengths)
        if self.name == "nonproj":
            if "multiroot" in c:
                return ts_.NonProjectiveDependencyCRF(ts[0], lengths=lengths, multiroot=c["multiroot"])
            return ts_.NonProjectiveDependencyCRF(ts[0], lengths=lengths)
        if self.name == "tree":
            return ts_.TreeCRF(ts[0], lengths=lengths)
        if self.name == "cfg":
            return ts_.SentCFG(tuple(ts), lengths=lengths)
        if self.name == "lines":
            return Lines(c, ts[0])

    def structure(self, semiring):
        "the structure class of the library with this semiring"
        import torch_struct as ts_

        if self.name == "lines":
            return Lines(self.c, None, semiring)
        return {"chain": ts_.LinearChain, "semi": ts_.SemiMarkov, "tree": ts_.CKY_CRF, "dep": ts_.DepTree}[self.name](semiring)

    def values(self, seed=0, scale=1.0):
        rng = np.random.default_rng(seed)
        v = {n: rng.normal(size=s) * scale for n, s in self.shapes()}
        if self.c.get("ban") is not None:
            for b in range(self.B):
                for (n, _), m in zip(self.shapes(), self.banned(b)):
                    v[n][b][m] = -np.inf
        return v


class Lines:
    """One sum of a sampling semiring along one dimension of a tensor, in the manner of a distribution.

    The vectors along that dimension are the batch; a structure is the choice of one entry."""

    lengths = None

    def __init__(self, case, x, semiring=None):
        self.shape, self.dim = list(case["shape"]), case["dim"]
        self.log_potentials, self.semiring = x, semiring

    def marginals(self, x, lengths=None):
        import torch

        d = self.dim % len(self.shape)
        rest = self.shape[:d] + self.shape[d + 1 :]
        with torch.enable_grad():
            x = x.reshape(rest + [self.shape[d]]).movedim(-1, d)
            if not x.requires_grad:
                x = x.contiguous().requires_grad_(True)
            y = self.semiring.sum(x, self.dim)
            assert list(y.shape) == rest, "sum has shape %s" % (tuple(y.shape),)
            (g,) = torch.autograd.grad(y.sum(), x)
        return g.movedim(d, -1).reshape(-1, self.shape[d])

    def sample(self, sample_shape):
        import torch
        from torch_struct.semirings import MultiSampledSemiring as M

        self.semiring = M
        out = []
        for k in range(sample_shape[0]):
            if k % 10 == 0:
                s = self.marginals(self.log_potentials).detach()
            out.append(M.to_discrete(s, k % 10 + 1))
        return torch.stack(out)

    def gumbel_crf(self, temp):
        from torch_struct.semirings import GumbelCRFSemiring

        self.semiring = GumbelCRFSemiring(temp)
        return self.marginals(self.log_potentials)


# --- numeric oracle (float64, explicit sums over the structures) ---------------
def score_vec(fam, vals, b):
    "scores of every structure of batch element b"
    names = [n for n, _ in fam.shapes()]
    arrs = [np.asarray(vals[n], dtype=float) for n in names]
    out = []
    for z in fam.structs(b):
        s = 0.0
        for (t, ix), k in z.items():
            if t < len(arrs):
                s += k * arrs[t][(b,) + ix]
        out.append(s)
    return np.array(out)


def lse(v):
    m = np.max(v)
    if not np.isfinite(m):
        return m
    return m + np.log(np.sum(np.exp(v - m)))


def event_arrays(fam, z, ntensors=None):
    "0/1 (count) arrays, no batch dim, for a structure"
    out = [np.zeros(s[1:]) for _, s in fam.shapes()]
    for (t, ix), k in z.items():
        if t < len(out):
            out[t][ix] += k
    return out
