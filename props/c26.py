from .base import *  # noqa
from oracle import dp
from . import large
from .events import as_list, bor, check_shapes


def product(cells, z, b, skip=None):
    "product of the potentials of a structure (one factor of skip left out)"
    r = poly(1)
    for (t, ix), k in z.items():
        if t < len(cells):
            for _ in range(k - ((t, ix) == skip)):
                r = alg.pmul(r, poly(cells[t][(b,) + ix]))
    return r


class Generic(Prop):
    pid = "C26"
    bounds = "all five dynamic programs in the (+, x) semiring, the sequential semi-Markov recursion also in the log and max semirings; sizes as in case_extent; potentials symbolic in [-100,100], either sign; in cases with 'large' only that many parts per element and some of the padding are symbolic, the others one (zero in the log semiring)"

    def cases(self, tier):
        big = tier == "thorough"
        fams = ["chain", "semi", "dep", "tree", "cfg"]
        base = table(fams, tier, big=big) + systematic(fams, 400 if big else 60)
        out = []
        for c in base:
            if c.get("dtype") or not c.get("multiroot", True):
                continue
            out.append(dict(c, sr="std", q="sum"))
            if c["family"] in ("chain", "semi") and not c.get("nograd") and len(self.fam(c).structs(0)) <= (400 if big else 100):
                out.append(dict(c, sr="std", q="marginals"))
        for c in [c for c in base if c["family"] == "semi"]:
            if not c.get("nograd"):
                for s in ("log", "std", "max"):
                    if s != "max" or len(self.fam(c).structs(0)) <= 60:
                        out.append(dict(c, sr=s, q="sequential"))
        for c in large.large(fams, tier, nsym=4, heavy=True):
            if not c.get("multiroot", True):
                continue
            out.append(dict(c, sr="std", q="marginals" if c["family"] in ("chain", "semi") else "sum"))
            if c["family"] == "semi":
                out.append(dict(c, sr="std" if c["seed"] % 2 else "log", q="sequential"))
        return out

    def values(self, case, seed=None):
        v = Prop.values(self, case, seed)
        if case.get("large") and case["sr"] == "std":
            m = large.masks(case)
            return {n: np.where(m[n], np.sign(x) * (0.5 + np.abs(x)), 1.0) for n, x in v.items()}
        # keep products of many factors away from zero
        return {n: np.sign(x) * (0.5 + np.abs(x)) for n, x in v.items()} if case["sr"] == "std" else v

    def run(self, case, ts):
        import torch_struct as t

        sr = {"std": t.StdSemiring, "log": t.LogSemiring, "max": t.MaxSemiring}[case["sr"]]
        fam = self.fam(case)
        lens = None if case.get("lengths") is None else torch.tensor(case["lengths"])
        if fam.name == "cfg":
            s, x = t.CKY(sr), tuple(ts)
        else:
            s, x = fam.structure(sr), ts[0]
        if case["q"] == "sequential":
            v, edges, _ = s._dp_standard(x, lengths=lens)
            r = sr.unconvert(v)
            if case["sr"] == "max":
                return r, []
            return r, [sr.unconvert(g) for g in torch.autograd.grad(r.sum(), edges)]
        if case["q"] == "sum":
            return s.sum(x, lengths=lens), []
        return s.sum(x, lengths=lens), as_list(fam, s.marginals(x, lengths=lens), "marginals")

    def symbolic(self, case, sym):
        fam = self.fam(case)
        with sym, grad_ctx(case):
            mask = large.masks(case) if case.get("large") else {}
            ts = [sym.input(n, mask=mask.get(n)) for n, _ in fam.shapes()]
            cells = [sym.cells(t) for t in ts]
            v, ms = self.run(case, ts)
        shape_is(v, (case["B"],), "sum")
        check_shapes(fam, ms, "marginals")
        vc, mc = sym.cells(v), [sym.cells(m) for m in ms]
        kind = case["sr"]
        for b in range(case["B"]):
            what = "sum of batch element %d" % b
            if case.get("large"):
                self.symbolic_large(case, sym, fam, b, cells, vc[b], mc)
                continue
            zs = fam.structs(b)
            if kind == "max":
                sc = [sym.score(cells, z, b, 1) for z in zs]
                m, defn = sym.fresh_max("best%d" % b, sc)
                sym.valid(what, alg.cmp_cells("eq", vc[b], m), defn)
                continue
            if kind == "log":
                Z = sym.Z(cells, zs, b, 1)
                sym.equal_log(what, vc[b], Z)
            else:
                sym.equal(what, vc[b], total(product(cells, z, b) for z in zs))
            if not ms:
                continue
            parts = {}
            for z in zs:
                for p in z:
                    parts.setdefault(p, []).append(z)
            for t in range(len(mc)):
                for ix in np.ndindex(*mc[t].shape[1:]):
                    on = parts.get((t, ix), [])
                    if not on and padded(fam, b, kind):
                        continue
                    got, what = mc[t][(b,) + ix], "derivative for part %s of tensor %d, batch element %d" % (ix, t, b)
                    if kind == "log":
                        sym.equal_ratio(what, got, total(Poly({sym.weight(cells, z, b, 1): z[t, ix]}) for z in on), Z)
                    elif t < len(cells):
                        sym.equal(what, got, total(alg.pmul(product(cells, z, b, (t, ix)), poly(z[t, ix])) for z in on))

    def looked_at(self, case, fam, b):
        "parts whose derivatives are compared in a large case"
        some, never = large.plain_parts(case, b, 2)
        out = [p for p in large.marked(case, b) if p not in set(never)] + some
        return out, [] if padded(fam, b, case["sr"]) else never

    def symbolic_large(self, case, sym, fam, b, cells, got, mc):
        what = "sum of batch element %d" % b
        std = case["sr"] == "std"
        alg.Ctx.cur = sym.ctx
        if std:
            Z = dp.total(fam, b, lambda t, ix: poly(cells[t][(b,) + ix]), large.Polys)
            sym.equal(what, got, Z)
        else:
            Z = large.sum_poly(sym, fam, cells, b)
            sym.equal_log(what, got, Z)
        if not mc:
            return
        some, never = self.looked_at(case, fam, b)
        for t, ix in some + never:
            what = "derivative for part %s of tensor %d, batch element %d" % (ix, t, b)
            if (t, ix) in never:
                D = Poly({})
            elif std:
                D = dp.total(fam, b, lambda u, jx: (poly(cells[u][(b,) + jx]), poly(1 if (u, jx) == (t, ix) else 0)), large.PolyDuals)[1]
            else:
                D = large.uses_of(sym, fam, cells, b, (t, ix))
            if std:
                sym.equal(what, mc[t][(b,) + ix], D)
            else:
                sym.equal_ratio(what, mc[t][(b,) + ix], D, Z)

    def concrete_large(self, case, fam, vals, b, v, ms, A):
        std = case["sr"] == "std"
        if std:
            want = dp.total(fam, b, lambda t, ix: float(A[t][(b,) + ix]), dp.Floats)
            mag = dp.total(fam, b, lambda t, ix: abs(float(A[t][(b,) + ix])), dp.Floats)
        else:
            want, mag = np.log(large.total(fam, vals, b)), 1.0
        need(abs(float(v[b]) - want) <= 1e-7 * max(1.0, mag), "%s[%d] = %r, over all structures = %r" % (case["q"], b, float(v[b]), want))
        if not ms:
            return
        some, never = self.looked_at(case, fam, b)
        for t, ix in some + never:
            d, mag = 0.0, 1.0
            if (t, ix) not in never:
                if std:
                    d = dp.total(fam, b, lambda u, jx: (float(A[u][(b,) + jx]), float((u, jx) == (t, ix))), dp.Duals)[1]
                    mag = dp.total(fam, b, lambda u, jx: (abs(float(A[u][(b,) + jx])), float((u, jx) == (t, ix))), dp.Duals)[1]
                else:
                    d = large.prob(fam, vals, b, (t, ix))
            x = float(ms[t][(b,) + ix])
            need(abs(x - d) <= 1e-7 * max(1.0, mag), "derivative for part %s of tensor %d, batch element %d = %r, over all structures = %r" % (ix, t, b, x, d))

    def concrete(self, case, vals):
        fam = self.fam(case)
        names = [n for n, _ in fam.shapes()]
        with grad_ctx(case):
            v, ms = self.run(case, to_tensors(case, vals, names))
        shape_is(v, (case["B"],), "sum")
        check_shapes(fam, ms, "marginals")
        A = [np.asarray(vals[n], dtype=float) for n in names]
        for b in range(case["B"]):
            if case.get("large"):
                self.concrete_large(case, fam, vals, b, v, ms, A)
                continue
            sc = F.score_vec(fam, vals, b)
            pr = [np.prod([A[t][(b,) + ix] ** k for (t, ix), k in z.items() if t < len(A)]) for z in fam.structs(b)]
            want = {"std": sum(pr), "log": F.lse(sc), "max": sc.max()}[case["sr"]]
            tol = 1e-7 * max(1.0, sum(abs(p) for p in pr)) if case["sr"] == "std" else 1e-3 if case.get("dtype") == "float32" else 1e-7
            need(abs(float(v[b]) - want) <= tol, "%s[%d] = %r, over all structures = %r" % (case["q"], b, float(v[b]), want))
            for t, m in enumerate(ms[: len(A)]):
                w, mag = np.zeros(A[t].shape[1:]), np.ones(A[t].shape[1:])
                on = np.full(A[t].shape[1:], not padded(fam, b, case["sr"]))
                for z, s in zip(fam.structs(b), sc):
                    for (tt, ix), k in z.items():
                        if tt != t:
                            continue
                        if case["sr"] == "log":
                            q = k * np.exp(s - F.lse(sc))
                        else:
                            q = k * np.prod([A[u][(b,) + jx] ** (e - ((u, jx) == (t, ix))) for (u, jx), e in z.items() if u < len(A)])
                        on[ix] = True
                        w[ix] += q
                        mag[ix] += abs(q)
                err = np.abs(m[b].detach().double().numpy() - w) / mag * on
                need((err <= (1e-3 if case.get("dtype") == "float32" else 1e-7)).all(), "derivatives of batch element %d, tensor %d differ from the sum over structures" % (b, t))


def padded(fam, b, kind):
    "derivatives for entries beyond an element's length are not claimed in the (+, x) semiring"
    return kind == "std" and fam.length(b) < fam.c["N"]


def total(ps):
    acc = {}
    for p in ps:
        for m, c in p.t.items():
            alg._addt(acc, m, c)
    return Poly(acc)


PROP = Generic()
