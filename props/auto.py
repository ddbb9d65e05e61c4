"""A history-dependent next-token model with free logits, and what it defines."""
from harness import Candidate
from .base import *  # noqa

import torch_struct


class TableModel(torch.nn.Module):
    """Next-token logits looked up by the whole history.

    The state is a pair: a running identifier of (batch element, tokens read) and a
    vector that accumulates one row per token read."""

    def __init__(self, T, V, B, C, mod=None):
        super().__init__()
        self.T, self.V, self.B, self.C, self.mod = T, V, B, C, mod

    def forward(self, inputs, state=None):
        ids, vec = state
        out = []
        for t in range(inputs.shape[1]):
            tok = inputs[:, t]
            ids = ids * self.C + tok + self.B
            if self.mod:
                ids = ids % self.mod
            vec = vec + self.V[tok].unsqueeze(1)
            out.append(self.T[ids] + vec.squeeze(1))
        return torch.stack(out, 1), (ids, vec)


class Auto(Prop):
    def ids(self, case):
        if case.get("mod"):
            # many classes: histories share a table of this many rows
            return case["mod"]
        # node i has children B + i*C + token; the roots 0..B-1 are the batch elements
        return case["B"] * sum(case["C"] ** t for t in range(case["N"] + 2))

    def values(self, case, seed=None):
        rng = np.random.default_rng(case.get("seed", 0) if seed is None else seed)
        C, B = case["C"], case["B"]
        if case.get("mod"):
            return {n: rng.integers(-2, 3, size=sh).astype(float) for n, sh in (("T", (case["mod"], C)), ("V", (C, C)), ("u", (B, 1, C)))}
        return {
            "T": rng.normal(size=(self.ids(case), C)),
            # small integers where they stay concrete
            "V": rng.normal(size=(C, C)) if case.get("sb") is None else rng.integers(-2, 3, size=(C, C)).astype(float),
            "u": rng.normal(size=(B, 1, C)),
        }

    def child(self, case, i, tok):
        i = i * case["C"] + tok + case["B"]
        return i % case["mod"] if case.get("mod") else i

    def build(self, case, T, V, u):
        B, C, N = case["B"], case["C"], case["N"]
        m = TableModel(T, V, B, C, case.get("mod"))
        init = (torch.arange(B), u)
        kw = {}
        if "normalize" in case:
            kw["normalize"] = bool(case["normalize"])
        if case.get("start"):
            kw["start_class"] = case["start"]
        return torch_struct.Autoregressive(m, init, C, N, **kw)

    def inputs(self, case, sym):
        """T, V, u as tensors and as cells; only the element case['sb'] is symbolic if given,
        and of it only the logits case['few'] (tokens before, token) if those are given"""
        sb = case.get("sb")
        if sb is None:
            mT = mV = mu = None
        elif case.get("few"):
            C, B = case["C"], case["B"]
            mT = np.zeros((self.ids(case), C), dtype=bool)
            for prefix, tok in case["few"]:
                i = sb
                for x in [case.get("start", 0)] + list(prefix):
                    i = self.child(case, i, x)
                mT[i][tok] = True
            mV = np.zeros((C, C), dtype=bool)
            mu = np.zeros((B, 1, C), dtype=bool)
        else:
            C, B = case["C"], case["B"]
            mT = np.zeros((self.ids(case), C), dtype=bool)
            own = {sb}
            for i in range(self.ids(case)):
                if i >= B and (i - B) // C in own:
                    own.add(i)
                    mT[i] = True
            mV = np.zeros((C, C), dtype=bool)
            mu = np.zeros((case["B"], 1, C), dtype=bool)
            mu[sb] = True
        ts = [sym.input(n, mask=m) for n, m in (("T", mT), ("V", mV), ("u", mu))]
        return ts, [sym.cells(t) for t in ts]

    def tensors(self, case, vals):
        return to_tensors(case, vals, ["T", "V", "u"])

    # -- definition of the model, over any number type with addition ------------
    def logits(self, case, cells, b, prefix, add):
        "logits of the next token for element b after start + prefix"
        T, V, u = cells
        i = b
        C = case["C"]
        vec = [u[b][0][c] for c in range(C)]
        for tok in (case.get("start", 0),) + tuple(prefix):
            i = self.child(case, i, tok)
            vec = [add(vec[c], V[tok][c]) for c in range(C)]
        return [add(T[i][c], vec[c]) for c in range(C)]

    def numeric_logp(self, case, vals, b, prefix):
        l = np.array(self.logits(case, [vals["T"], vals["V"], vals["u"]], b, prefix, lambda x, y: x + y), dtype=float)
        return l - F.lse(l) if case.get("normalize", 1) else l

    def seq_terms(self, case, cells, b, y):
        "(score Poly, [list of logits per step]) of sequence y"
        s = Poly({})
        steps = []
        for t, tok in enumerate(y):
            l = self.logits(case, cells, b, y[:t], alg.add)
            s = alg.padd(s, poly(l[tok]))
            steps.append(l)
        return s, steps

    def is_logprob(self, case, sym, what, cell, b, y, cells):
        s, steps = self.seq_terms(case, cells, b, y)
        if not case.get("normalize", 1):
            sym.equal(what, cell, s)
            return
        self.is_log(sym, what, cell, s, steps)

    def is_log(self, sym, what, cell, s, steps):
        "cell == s - sum over steps of log sum exp"
        if not any(alg.is_sym(x) for l in steps for x in l):
            # an element kept concrete in this configuration
            w = float(alg.cell_val(s)) - sum(F.lse(np.array(l, dtype=float)) for l in steps)
            if not close(alg.cell_val(cell), w, self.case_of(sym)):
                raise Candidate(what, sym.vals)
            return
        Z = poly(1)
        for l in steps:
            Z = alg.pmul(Z, self.expsum(l))
        n = expo(s)
        sym.equal_log_ratio(what, cell, n, Z)

    def case_of(self, sym):
        return sym.case

    def expsum(self, l):
        t = Poly({})
        for x in l:
            t = alg.padd(t, expo(x))
        return t


def expo(x):
    off, m = alg.pexp_parts(poly(x))
    if off:
        m = alg.mmul(m, alg.cexp_mono(off))
    return Poly({m: 1})


def seqs(case):
    return list(itertools.product(range(case["C"]), repeat=case["N"]))


def onehot(y, C):
    e = np.zeros((len(y), C))
    for t, c in enumerate(y):
        e[t, c] = 1
    return e
