from .base import *  # noqa
from symtorch.alg import B, band, bnot, bor
import z3


def lines(shape, dim):
    "index tuples of every vector along dim"
    d = dim % len(shape)
    rest = [range(n) if i != d else (0,) for i, n in enumerate(shape)]
    for ix in itertools.product(*rest):
        yield ix[:d] + ix[d + 1 :], [ix[:d] + (j,) + ix[d + 1 :] for j in range(shape[d])]


class Sparse(Prop):
    pid = "C23"
    bounds = "vector lengths, shapes and dimensions as in case_extent; entries symbolic in [-100,100], incoming gradients symbolic in [-10,10]"

    def cases(self, tier):
        out = []
        for op in ("sum", "second"):
            out += [
                dict(op=op, shape=[1], dim=-1),
                dict(op=op, shape=[2], dim=-1),
                dict(op=op, shape=[3], dim=0),
                dict(op=op, shape=[2, 2], dim=-1),
                dict(op=op, shape=[2, 2], dim=0),
                dict(op=op, shape=[3, 2], dim=-2),
                dict(op=op, shape=[2, 1, 2], dim=-1),
                dict(op=op, shape=[1, 3, 2], dim=1, how="strided"),
                dict(op=op, shape=[2, 3], dim=-1, how="offset"),
                dict(op=op, shape=[4], dim=-1),
            ]
            if tier == "thorough":
                out += [dict(op=op, shape=[5], dim=-1), dict(op=op, shape=[3, 3], dim=0), dict(op=op, shape=[2, 4], dim=1)]
        for shape in ([3], [2, 2], [2, 3]):
            out.append(dict(op="project", shape=shape, dim=-1))
        out.append(dict(op="chain", N=2, C=2, B=1))
        if tier == "thorough":
            out += [dict(op="chain", N=2, C=2, B=2), dict(op="chain", N=3, C=2, B=1, sb=[1])]
        return [dict(c, maxpaths=800) for c in out]

    def values(self, case, seed=None):
        rng = np.random.default_rng(case.get("seed", 0) if seed is None else seed)
        if case["op"] == "chain":
            s = (case["B"], case["N"] - 1, case["C"], case["C"])
            return {"x": rng.normal(size=s) if "sb" not in case else rng.integers(-2, 3, size=s) * 0.25 + 0.0}
        v = {"x": rng.normal(size=case["shape"]) * (0.5 + (seed or 0) % 3)}
        u = list(case["shape"])
        if case["op"] != "second":
            del u[case["dim"] % len(u)]
        v["u"] = rng.normal(size=u)
        return v

    def run(self, case, x, u=None):
        from torch_struct import LinearChain
        from torch_struct.semirings import SparseMaxSemiring
        from torch_struct.semirings.sparse_max import project_simplex

        if case["op"] == "chain":
            return (LinearChain(SparseMaxSemiring).marginals(x),)
        if case["op"] == "project":
            return (project_simplex(x, case["dim"]),)
        if not x.requires_grad:
            x.requires_grad_(True)
        y = SparseMaxSemiring.sum(x, case["dim"])
        (w,) = torch.autograd.grad(y.sum(), x, create_graph=True)
        if case["op"] == "second":
            need(w.requires_grad, "the gradient of the sparsemax sum is not differentiable")
            (j,) = torch.autograd.grad((w * u).sum(), x, allow_unused=True)
            need(j is not None, "the second-order gradient does not reach the input")
            return y, w, j
        (g,) = torch.autograd.grad((y * u).sum(), x)
        return y, w, g

    def shapes(self, case, res):
        if case["op"] in ("project", "chain"):
            return
        y = list(case["shape"])
        del y[case["dim"] % len(y)]
        shape_is(res[0], tuple(y), "sum")
        shape_is(res[1], tuple(case["shape"]), "gradient")
        shape_is(res[2], tuple(case["shape"]), "gradient")

    def symbolic(self, case, sym):
        sym.ctx.fork = "lin"
        sym.ctx.fork_cmp = case["op"] == "chain"
        with sym:
            mask = None
            if "sb" in case:
                mask = np.zeros(sym.vals["x"].shape, dtype=bool)
                mask[:, case["sb"]] = True
            x = sym.input("x", mask=mask)
            xc = sym.cells(x)
            args = [x]
            if case["op"] in ("sum", "second"):
                u = sym.input("u", -10, 10)
                uc = sym.cells(u)
                args.append(u.detach())
            res = self.run(case, *args)
        sym.ctx.fork_cmp = False
        self.shapes(case, res)
        rc = [sym.cells(r) for r in res]
        if case["op"] == "chain":
            return self.flow(case, sym, rc[0])
        w = rc[0] if case["op"] == "project" else rc[1]
        for o, ix in lines(case["shape"], case["dim"]):
            v = [xc[i] for i in ix]
            p = [w[i] for i in ix]
            n = len(ix)
            tot = 0
            for q in p:
                tot = alg.add(tot, q)
            sym.valid("projection %s sums to one" % (o,), alg.cmp_cells("eq", tot, 1))
            for i in range(n):
                sym.valid("projection %s entry %d is non-negative" % (o, i), alg.cmp_cells("ge", p[i], 0))
            r = [alg.sub(a, b) for a, b in zip(v, p)]
            for i in range(n):
                for j in range(n):
                    if i != j:
                        sym.valid(
                            "projection %s is the closest point (entries %d, %d)" % (o, i, j),
                            bor(bnot(alg.cmp_cells("gt", p[i], 0)), alg.cmp_cells("ge", r[i], r[j])),
                        )
            if case["op"] == "project":
                continue
            if case["op"] == "sum":
                # value: <x, w> - |w|^2/2, with w the projection just established
                want = 0
                for a, b in zip(v, p):
                    want = alg.add(want, alg.sub(alg.mul(a, b), alg.mul(Fraction(1, 2), alg.mul(b, b))))
                sym.valid("value of sum %s" % (o,), alg.cmp_cells("eq", rc[0][o], want))
                for k, i in enumerate(ix):
                    sym.valid("weighted gradient %s" % (i,), alg.cmp_cells("eq", rc[2][i], alg.mul(uc[o], p[k])))
                continue
            for S in itertools.product((False, True), repeat=n):
                if not any(S):
                    continue
                s0 = S.index(True)
                pre = [alg.cmp_cells("gt", p[i], 0) if S[i] else alg.cmp_cells("lt", v[i], r[s0]) for i in range(n)]
                pre = band(*pre)
                if pre.z is False:
                    continue
                mean = 0
                for i in range(n):
                    if S[i]:
                        mean = alg.add(mean, alg.mul(Fraction(1, sum(S)), uc[ix[i]]))
                for i in range(n):
                    want = alg.sub(uc[ix[i]], mean) if S[i] else 0
                    sym.valid(
                        "second-order gradient %s entry %d, support %s" % (o, i, S),
                        bor(bnot(pre), alg.cmp_cells("eq", rc[2][ix[i]], want)),
                    )

    def flow(self, case, sym, m):
        "sparse marginals are a point of the marginal polytope"
        C_ = case["C"]
        for b in range(case["B"]):
            inner = None
            for n in range(case["N"] - 1):
                tot, rows, cols = 0, [0] * C_, [0] * C_
                for i in range(C_):
                    for j in range(C_):
                        c = m[b, n, i, j]
                        sym.valid("marginal is non-negative", alg.cmp_cells("ge", c, 0))
                        tot = alg.add(tot, c)
                        rows[i] = alg.add(rows[i], c)  # new label
                        cols[j] = alg.add(cols[j], c)  # old label
                sym.valid("marginals of a position sum to one", alg.cmp_cells("eq", tot, 1))
                if inner is not None:
                    for k in range(C_):
                        sym.valid("marginals of neighbouring positions agree", alg.cmp_cells("eq", inner[k], cols[k]))
                inner = rows

    def concrete(self, case, vals):
        tol = 1e-7
        ts = to_tensors(case, vals, ["x", "u"] if case["op"] in ("sum", "second") else ["x"])
        res = self.run(case, *ts)
        self.shapes(case, res)
        res = [r.detach().double().numpy() for r in res]
        if case["op"] == "chain":
            m = res[0]
            need((m >= -tol).all(), "negative sparse marginal")
            s = m.sum((2, 3))
            need(np.allclose(s, 1, atol=1e-6), "sparse marginals of a position sum to %s" % s)
            for n in range(1, m.shape[1]):
                need(np.allclose(m[:, n - 1].sum(2), m[:, n].sum(1), atol=1e-6), "sparse marginals of neighbouring positions disagree")
            return
        w = res[0] if case["op"] == "project" else res[1]
        X = np.asarray(vals["x"], dtype=float)
        for o, ix in lines(case["shape"], case["dim"]):
            v = np.array([X[i] for i in ix])
            best = proj(v)
            got = np.array([w[i] for i in ix])
            need(np.allclose(got, best, atol=1e-6), "projection of %s is %s, closest point is %s" % (v.tolist(), got.tolist(), best.tolist()))
            if case["op"] == "project":
                continue
            u = np.asarray(vals["u"], dtype=float)
            if case["op"] == "sum":
                want = v @ best - 0.5 * best @ best
                need(close(res[0][o], want, case), "value of the sparsemax sum of %s is %r, expected %r" % (v.tolist(), float(res[0][o]), want))
                got = np.array([res[2][i] for i in ix])
                need(np.allclose(got, best * u[o], atol=1e-6), "weighted gradient %s, expected %s" % (got.tolist(), (best * u[o]).tolist()))
                continue
            S = best > 1e-9
            tau = (v - best)[S].mean()
            if (v[~S] > tau - 1e-7).any() or (best[S] < 1e-7).any():
                continue
            uu = np.array([u[i] for i in ix])
            want = np.where(S, uu - uu[S].mean(), 0)
            got = np.array([res[2][i] for i in ix])
            need(np.allclose(got, want, atol=1e-6), "second-order gradient %s at %s, Jacobian of the projection gives %s" % (got.tolist(), v.tolist(), want.tolist()))


def proj(v):
    "projection by trying every support"
    best = None
    for S in itertools.product((False, True), repeat=len(v)):
        S = np.array(S)
        if not S.any():
            continue
        w = np.where(S, v - (v[S].sum() - 1) / S.sum(), 0)
        if (w < -1e-12).any():
            continue
        d = ((v - w) ** 2).sum()
        if best is None or d < best[0]:
            best = (d, w)
    return best[1]


from fractions import Fraction  # noqa

PROP = Sparse()
