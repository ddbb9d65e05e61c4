"""The fast semirings with a stand-in for the compiled extension.

The extension (genbmm) is not installed. Its documented contract, batched products of
b x n x m and b x m x r tensors in the log, max and sampling semirings, is supplied by the stand-in;
everything around it is the library's own code."""
import contextlib
import sys
import types

from .base import *  # noqa
from .c17 import exp_, sum_


def stand_in():
    g = types.ModuleType("genbmm")

    class BandedMatrix:
        pass

    def pairs(a, b):
        if a.dim() != 3 or b.dim() != 3 or a.shape[0] != b.shape[0] or a.shape[2] != b.shape[1]:
            raise Fail("batched product called with shapes %s and %s" % (tuple(a.shape), tuple(b.shape)))
        return a.unsqueeze(-1) + b.unsqueeze(1)

    g.BandedMatrix = BandedMatrix
    g.logbmm = lambda a, b: torch.logsumexp(pairs(a, b), dim=2)
    g.maxbmm = lambda a, b: pairs(a, b).max(dim=2)[0]

    def samplebmm(a, b):
        from torch_struct import SampledSemiring

        return SampledSemiring.sum(pairs(a, b), dim=2)

    g.samplebmm = samplebmm
    return g


@contextlib.contextmanager
def extension():
    import torch_struct as ts

    g = stand_in()
    homes = {id(vars(m)): vars(m) for m in (sys.modules[c.__module__] for c in (ts.FastLogSemiring, ts.FastMaxSemiring, ts.FastSampleSemiring))}
    mods = [(d, "genbmm") for d in [sys.modules] + list(homes.values())]
    old = [d.get(k) for d, k in mods]
    for d, k in mods:
        d[k] = g
    try:
        yield
    finally:
        for (d, k), o in zip(mods, old):
            if o is None:
                del d[k]
            else:
                d[k] = o


class Fast(Prop):
    pid = "C28"
    bounds = "operand shapes as in case_extent; chains and segmentations of the listed sizes; entries symbolic in [-100,100]"
    assumptions = ASSUME + ["the compiled extension is replaced by a stand-in with its documented contract (batched log, max and sampled-log matrix products)"]

    def cases(self, tier):
        out = []
        shapes = [
            ([2, 2, 3], [2, 3, 2]),
            ([1, 3, 2], [3, 2, 2]),
            ([3, 1, 2], [1, 2, 3]),
            ([2, 1, 2, 1], [1, 2, 1, 2]),
            ([2, 1, 1, 3], [1, 3, 3, 1]),
            ([1, 2, 2], [1, 2, 2]),
            ([4, 1, 1], [4, 1, 2]),
            ([2, 3, 1, 2], [2, 1, 2, 1]),
            ([2, 1, 2, 2, 1], [1, 3, 1, 1, 2]),
        ]
        for a, b in shapes:
            for s in ("log", "max", "sample"):
                for how in ("plain", "strided"):
                    out.append(dict(sr=s, a=a, b=b, how=how))
        base = chain_cases(tier, tier == "thorough") + semi_cases(tier, tier == "thorough") + systematic(["chain", "semi"], 100 if tier == "thorough" else 30)
        for c in base:
            if not c.get("nograd"):
                out.append(dict(c, sr="log", dist=1))
                if len(out) % 3 == 0:
                    out.append(dict(c, sr="sample", dist=1))
                if len(self.fam(c).structs(0)) <= (100 if tier == "thorough" else 40):
                    out.append(dict(c, sr="max", dist=1))
        return out

    def values(self, case, seed=None):
        s = case.get("seed", 0) if seed is None else seed
        if case.get("dist"):
            return self.fam(case).values(s)
        rng = np.random.default_rng(s + 3)
        return {k: rng.normal(size=(1,) + tuple(case[k])) for k in "ab"}

    def run(self, case, t):
        import torch_struct as ts

        sr = {"log": ts.FastLogSemiring, "max": ts.FastMaxSemiring, "sample": ts.FastSampleSemiring}[case["sr"]]
        with extension():
            if not case.get("dist"):
                return {"value": sr.matmul(t["a"], t["b"])}
            s = self.fam(case).structure(sr)
            lens = None if case.get("lengths") is None else torch.LongTensor(case["lengths"])
            out = {"value": s.sum(t["x"], lengths=lens)}
            if case["sr"] == "log":
                out["marginals"] = s.marginals(t["x"], lengths=lens)
            return out

    def symbolic(self, case, sym):
        with sym, torch.enable_grad():
            t = {n: sym.input(n) for n in self.values(case)}
            out = self.run(case, t)
        v = sym.cells(out["value"])
        if not case.get("dist"):
            ca, cb = sym.cells(t["a"])[0], sym.cells(t["b"])[0]
            full = tuple(np.broadcast_shapes(ca.shape[:-2], cb.shape[:-2]))
            shape_is(out["value"], (1,) + full + (ca.shape[-2], cb.shape[-1]), "product")
            ca, cb = (np.broadcast_to(c, full + c.shape[-2:]) for c in (ca, cb))
            for ix in np.ndindex(*v.shape[1:]):
                lead, i, j = ix[:-2], ix[-2], ix[-1]
                vs = [alg.add(ca[lead + (i, k)], cb[lead + (k, j)]) for k in range(ca.shape[-1])]
                self.is_sum(sym, case, "product %s" % list(ix), v[(0,) + ix], vs)
            return
        fam, x = self.fam(case), [sym.cells(t["x"])]
        shape_is(out["value"], (case["B"],), "sum")
        for b in range(case["B"]):
            zs = fam.structs(b)
            if case["sr"] == "max":
                m, defn = sym.fresh_max("best%d" % b, [sym.score(x, z, b, 1) for z in zs])
                sym.valid("sum of batch element %d" % b, alg.cmp_cells("eq", v[b], m), defn)
                continue
            Z = sym.Z(x, zs, b, 1)
            sym.equal_log("sum of batch element %d" % b, v[b], Z)
            if case["sr"] == "sample":
                continue
            num = {}
            for z in zs:
                w = sym.weight(x, z, b, 1)
                for part, k in z.items():
                    alg._addt(num.setdefault(part, {}), w, k)
            shape_is(out["marginals"], tuple(t["x"].shape), "marginals")
            mc = sym.cells(out["marginals"])
            for ix in np.ndindex(*mc.shape[1:]):
                sym.equal_ratio("marginal of part %s, batch element %d" % (ix, b), mc[(b,) + ix], Poly(num.get((0, ix), {})), Z)

    def is_sum(self, sym, case, what, cell, vs):
        if case["sr"] == "max":
            sym.valid(what, alg.band(alg.bor(*[alg.cmp_cells("eq", cell, q) for q in vs]), *[alg.cmp_cells("ge", cell, q) for q in vs]))
        else:
            sym.equal_log(what, cell, sum_([exp_(q) for q in vs]))

    def concrete(self, case, vals):
        t = dict(zip(self.values(case), to_tensors(case, vals, list(self.values(case)))))
        with torch.enable_grad():
            out = self.run(case, t)
        got = out["value"].detach().double().numpy()
        if not case.get("dist"):
            s = np.asarray(vals["a"])[..., :, :, None] + np.asarray(vals["b"])[..., None, :, :]
            want = s.max(-2) if case["sr"] == "max" else np.logaddexp.reduce(s, axis=-2)
            need(got.shape == want.shape, "product: shape %s, expected %s" % (got.shape, want.shape))
            need(np.allclose(got, want, atol=1e-7), "product %s, defining sum %s" % (got.reshape(-1)[:6], want.reshape(-1)[:6]))
            return
        fam = self.fam(case)
        need(got.shape == (case["B"],), "sum: shape %s" % (got.shape,))
        for b in range(case["B"]):
            sc = F.score_vec(fam, vals, b)
            want = sc.max() if case["sr"] == "max" else F.lse(sc)
            need(close(out["value"][b], want, case), "sum[%d] = %r, over all structures = %r" % (b, got[b], want))
            if case["sr"] == "log":
                m = out["marginals"][b].detach().double().numpy()
                w = np.zeros(m.shape)
                for z, p in zip(fam.structs(b), np.exp(sc - want)):
                    for (_, ix), k in z.items():
                        w[ix] += k * p
                need((np.abs(m - w) <= (1e-3 if case.get("dtype") == "float32" else 1e-6)).all(), "marginals of batch element %d differ from the sum over structures" % b)


PROP = Fast()
