from .base import *  # noqa
from . import large


class CrossEntropy(Prop):
    pid = "C09"
    bounds = "chain, semi-Markov, projective dependency and span-tree pairs; sizes as in case_extent; both tables symbolic in [-100,100]; in cases with 'large' only that many parts per element and some of the padding are symbolic, the others zero"

    def cases(self, tier):
        out = []
        for c in table(["chain", "semi", "dep", "tree"], tier, big=tier == "thorough") + systematic(["chain", "semi", "dep", "tree"], 150 if tier == "thorough" else 40) + large.large(["chain", "semi", "dep", "tree"], tier, seeds=(1,), nsym=4):
            for q in ("ce", "kl"):
                out.append(dict(c, q=q))
        return out

    def values(self, case, seed=None):
        s = case.get("seed", 0) if seed is None else seed
        v = super().values(case, s)
        v["y"] = super().values(case, s + 1000)["x"]
        return v

    def symbolic(self, case, sym):
        with sym, grad_ctx(case):
            fam, ts, cells, d = sym_dist(case, sym)
            y = sym.input("y", mask=large.masks(case)["x"] if case.get("large") else None)
            ycells = [sym.cells(y)]
            o = fam.build([y])
            h = d.cross_entropy(o) if case["q"] == "ce" else d.kl(o)
            pp, pq = d.partition, o.partition
        shape_is(h, (case["B"],), case["q"])
        hc, pp, pq = sym.cells(h), sym.cells(pp), sym.cells(pq)
        for b in range(case["B"]):
            zs = [] if case.get("large") else fam.structs(b)
            Sp, Sq = (large.sum_poly(sym, fam, c, b) if case.get("large") else sym.Z(c, zs, b, 1) for c in (cells, ycells))
            Lp, Zp = sym.log_partition("log-partition of batch element %d" % b, pp[b], Sp)
            Lq, Zq = sym.log_partition("log-partition of the other, batch element %d" % b, pq[b], Sq)
            diff = Lq if case["q"] == "ce" else alg.padd(Lq, Lp, -1)
            want = alg.pmul(Zp, diff)
            for z in zs:
                w = Poly({sym.weight(cells, z, b, 1): 1})
                s = sym.score(ycells, z, b, 1)
                if case["q"] == "kl":
                    s = alg.padd(s, sym.score(cells, z, b, 1), -1)
                want = alg.padd(want, alg.pmul(w, s), -1)
            if case.get("large"):
                for (t, ix), n in large.uses(sym, cells, b, Sp).items():
                    s = poly(ycells[t][(b,) + ix])
                    if case["q"] == "kl":
                        s = alg.padd(s, poly(cells[t][(b,) + ix]), -1)
                    want = alg.padd(want, alg.pmul(n, s), -1)
            sym.equal_logs("%s of batch element %d" % (case["q"], b), hc[b], want, Zp, Zq)

    def concrete(self, case, vals):
        with grad_ctx(case):
            fam, ts, d = real_dist(case, vals)
            o = fam.build(to_tensors(case, vals, ["y"]))
            h = d.cross_entropy(o) if case["q"] == "ce" else d.kl(o)
        shape_is(h, (case["B"],), case["q"])
        for b in range(case["B"]):
            other = dict(vals, x=vals["y"])
            if case.get("large"):
                want = np.log(large.total(fam, other, b)) - large.expected(case, fam, vals, b, other)
                if case["q"] == "kl":
                    want -= np.log(large.total(fam, vals, b)) - large.expected(case, fam, vals, b)
            else:
                sp = F.score_vec(fam, vals, b)
                sq = F.score_vec(fam, other, b)
                lp, lq = sp - F.lse(sp), sq - F.lse(sq)
                want = -(np.exp(lp) * lq).sum() if case["q"] == "ce" else (np.exp(lp) * (lp - lq)).sum()
            need(close(h[b], want, case, 1e-5 if case.get("dtype") != "float32" else 5e-3), "%s[%d] = %r, sum over structures = %r" % (case["q"], b, float(h[b]), want))


PROP = CrossEntropy()
