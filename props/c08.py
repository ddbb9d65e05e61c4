from .base import *  # noqa
from . import large


class Entropy(Prop):
    pid = "C08"
    bounds = "all five dynamic programs; sizes as in case_extent; potentials symbolic in [-100,100]; in cases with 'large' only that many parts per element and some of the padding are symbolic, the others zero"

    def cases(self, tier):
        return table(["chain", "semi", "dep", "tree", "cfg"], tier, big=tier == "thorough") + systematic(["chain", "semi", "dep", "tree", "cfg"], 300 if tier == "thorough" else 70) + large.large(["chain", "semi", "dep", "tree", "cfg"], tier, nsym=4)

    def symbolic(self, case, sym):
        with sym, grad_ctx(case):
            fam, ts, cells, d = sym_dist(case, sym)
            h = d.entropy
            part = d.partition
        shape_is(h, (case["B"],), "entropy")
        pc = sym.cells(part)
        hc = sym.cells(h)
        for b in range(case["B"]):
            zs = [] if case.get("large") else fam.structs(b)
            Z = S = large.sum_poly(sym, fam, cells, b) if case.get("large") else sym.Z(cells, zs, b, len(ts))
            L, Z = sym.log_partition("log-partition of batch element %d" % b, pc[b], Z)
            want = alg.pmul(Z, L)
            for z in zs:
                w = Poly({sym.weight(cells, z, b, len(ts)): 1})
                want = alg.padd(want, alg.pmul(w, sym.score(cells, z, b, len(ts))), -1)
            if case.get("large"):
                for (t, ix), n in large.uses(sym, cells, b, S).items():
                    want = alg.padd(want, alg.pmul(n, poly(cells[t][(b,) + ix])), -1)
            sym.equal_logs("entropy of batch element %d" % b, hc[b], want, Z)

    def concrete(self, case, vals):
        with grad_ctx(case):
            fam, ts, d = real_dist(case, vals)
            h = d.entropy
        shape_is(h, (case["B"],), "entropy")
        for b in range(case["B"]):
            if case.get("large"):
                want = np.log(large.total(fam, vals, b)) - large.expected(case, fam, vals, b)
            else:
                sc = F.score_vec(fam, vals, b)
                lp = sc - F.lse(sc)
                want = -(np.exp(lp) * lp).sum()
            need(close(h[b], want, case, 1e-5 if case.get("dtype") != "float32" else 5e-3), "entropy[%d] = %r, sum over structures = %r" % (b, float(h[b]), want))


PROP = Entropy()
