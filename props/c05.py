from .base import *  # noqa
from . import large
from .events import as_list, part_shapes


class Marginals(Prop):
    pid = "C05"
    bounds = "all five dynamic programs; sizes as in case_extent; potentials symbolic in [-100,100]; in cases with 'large' only that many parts per element and some of the padding are symbolic, the others zero"

    def cases(self, tier):
        return table(["chain", "semi", "dep", "tree", "cfg"], tier, big=tier == "thorough") + systematic(["chain", "semi", "dep", "tree", "cfg"], 150 if tier == "thorough" else 60) + large.large(["chain", "semi", "dep", "tree", "cfg"], tier)

    def symbolic(self, case, sym):
        with sym, grad_ctx(case):
            fam, ts, cells, d = sym_dist(case, sym)
            out = as_list(fam, d.marginals, "marginals")
        sh = part_shapes(fam)
        for i, o in enumerate(out):
            shape_is(o, sh[i], "marginals[%d]" % i)
        outc = [sym.cells(o) for o in out]
        for b in range(case["B"]):
            if case.get("large"):
                self.some_parts(case, sym, fam, cells, outc, sh, b)
                continue
            zs = fam.structs(b)
            Z = sym.Z(cells, zs, b, len(ts))
            num = {}
            for z in zs:
                w = sym.weight(cells, z, b, len(ts))
                for part, k in z.items():
                    alg._addt(num.setdefault(part, {}), w, k)
            for t in range(len(out)):
                for ix in np.ndindex(*sh[t][1:]):
                    n = Poly(num.get((t, ix), {}))
                    sym.equal_ratio("marginal of part %s of tensor %d, batch element %d" % (ix, t, b), outc[t][(b,) + ix], n, Z)

    def some_parts(self, case, sym, fam, cells, outc, sh, b):
        Z = large.sum_poly(sym, fam, cells, b)
        want = large.uses(sym, cells, b, Z)
        some, never = large.plain_parts(case, b, 2)
        want.update({p: large.uses_of(sym, fam, cells, b, p) for p in some})
        want.update({p: Poly({}) for p in never})
        for (t, ix), n in want.items():
            if t < len(outc):
                sym.equal_ratio("marginal of part %s of tensor %d, batch element %d" % (ix, t, b), outc[t][(b,) + ix], n, Z)

    def concrete(self, case, vals):
        with grad_ctx(case):
            fam, ts, d = real_dist(case, vals)
            out = as_list(fam, d.marginals, "marginals")
        sh = part_shapes(fam)
        for t, o in enumerate(out):
            shape_is(o, sh[t], "marginals[%d]" % t)
            o = o.detach().double().numpy()
            for b in range(case["B"]):
                if case.get("large"):
                    some, never = large.plain_parts(case, b, 2)
                    for tt, ix in list(large.marked(case, b)) + some + never:
                        if tt == t:
                            w = 0.0 if (tt, ix) in never else large.prob(fam, vals, b, (tt, ix))
                            need(abs(o[b][ix] - w) <= 1e-6, "marginal %s of batch element %d = %r, recursion over all structures = %r" % (ix, b, float(o[b][ix]), w))
                    continue
                sc = F.score_vec(fam, vals, b)
                p = np.exp(sc - F.lse(sc))
                want = np.zeros(sh[t][1:])
                for z, pz in zip(fam.structs(b), p):
                    for (tt, ix), k in z.items():
                        if tt == t:
                            want[ix] += k * pz
                err = np.abs(o[b] - want)
                tol = 1e-6 if case.get("dtype", "float64") == "float64" else 1e-3
                if not (err <= tol).all():
                    ix = np.unravel_index(np.nanargmax(np.where(np.isnan(err), np.inf, err)), err.shape)
                    raise Fail("marginal %s of batch element %d = %r, brute force = %r" % (ix, b, float(o[b][ix]), float(want[ix])))


PROP = Marginals()
