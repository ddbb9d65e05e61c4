from .base import *  # noqa
from . import large
from .events import as_list, part_shapes

QUERIES = ["partition", "log_prob", "entropy", "marginals", "cross_entropy", "kl"]


class Gradients(Prop):
    pid = "C24"
    bounds = "all five dynamic programs (log-probability, cross entropy and KL: without grammars); sizes as in case_extent; potentials symbolic in [-100,100]; fixed integer output weights; in cases with 'large' only that many parts per element and some of the padding are symbolic, the others zero, and the gradients of these, of two other parts and of all parts no structure can use are compared"

    def cases(self, tier):
        base = [
            C("chain", 1, 2, C=2),
            C("semi", 1, 2, K=2, C=2),
            C("dep", 1, 2, multiroot=True),
            C("tree", 1, 2, NT=2),
            C("cfg", 1, 2, NT=1, T=2),
            C("chain", 2, 3, C=2, lengths=[2, 3]),
            C("semi", 2, 3, K=3, C=1, lengths=[3, 2]),
            C("dep", 2, 3, multiroot=False, lengths=[3, 2]),
            C("tree", 2, 3, NT=1, lengths=[3, 2]),
            C("cfg", 2, 3, NT=1, T=1, lengths=[3, 2]),
            C("chain", 2, 4, C=2, lengths=[4, 3], how="nonleaf"),
            C("semi", 2, 3, K=3, C=2, lengths=[2, 3], how="nonleaf"),
            C("dep", 1, 3, multiroot=True, how="nonleaf"),
            C("tree", 2, 4, NT=1, lengths=[3, 4], how="nonleaf"),
            C("cfg", 1, 3, NT=1, T=2, how="nonleaf"),
            C("chain", 3, 2, C=3, lengths=[2, 1, 2]),
            C("chain", 1, 3, C=2, how="nonleaf"),
            C("chain", 2, 5, C=1, lengths=[5, 3]),
            C("semi", 2, 4, K=3, C=1, lengths=[4, 3], how="nonleaf"),
            C("dep", 2, 3, multiroot=True, lengths=[2, 3]),
            C("dep", 1, 2, L=2, multiroot=True),
            C("tree", 1, 3, NT=2),
        ]
        if tier == "thorough":
            base += [
                C("chain", 2, 5, C=2, lengths=[3, 5]),
                C("chain", 1, 4, C=3),
                C("semi", 1, 4, K=4, C=2),
                C("dep", 2, 4, multiroot=False, lengths=[4, 3]),
                C("dep", 1, 3, L=2, multiroot=True),
                C("tree", 1, 5, NT=1),
                C("cfg", 1, 3, NT=2, T=1),
            ]
        out = []
        for c in base:
            for q in QUERIES:
                if c["family"] == "cfg" and q in ("log_prob", "cross_entropy", "kl"):
                    continue
                if c["family"] == "chain" and c["N"] > 3 and c["C"] > 1 and q in ("entropy", "cross_entropy", "kl"):
                    continue
                out.append(dict(c, q=q))
        for i, c in enumerate(large.large(["chain", "semi", "dep", "tree", "cfg"], tier, nsym=3)):
            for j, q in enumerate(QUERIES):
                if (i + j) % 2 or not self.fits(c, q):
                    continue
                out.append(dict(c, q=q, **(dict(how="nonleaf") if i % 3 == 0 else {})))
        return out

    def fits(self, c, q):
        "large sizes whose second derivatives are decided in seconds"
        f = c["family"]
        if f == "cfg" and q in ("log_prob", "cross_entropy", "kl") or c["B"] > 9:
            return False
        if q in ("partition", "log_prob"):
            return c["N"] <= 40
        if q == "marginals":
            return c["N"] < 20 and not (f == "cfg" or f == "tree" and c["N"] > 9 or f == "dep" and c["B"] > 1 and c["N"] > 6 or f == "semi" and c["N"] > 12 or c.get("K", 0) > 9) or f == "chain" and c["N"] <= 40
        return f == "chain" and c["N"] <= 12 or f != "cfg" and c["N"] <= 4 or f == "semi" and c["B"] == 6

    def values(self, case, seed=None):
        v = super().values(case, seed)
        if case["q"] in ("cross_entropy", "kl"):
            o = super().values(case, 50 + (seed or 0))  # same symbolic parts, other numbers
            v.update({n + "2": x for n, x in o.items()})
        return v

    def weights(self, case, fam):
        "fixed small integers: one per batch element, one per part"
        rng = np.random.default_rng(3)
        cb = rng.integers(1, 4, size=case["B"])
        G = [rng.integers(-2, 4, size=s) for s in part_shapes(fam)]
        if case.get("large"):
            for g in G[len(fam.shapes()) :]:  # a grammar's spans are not parts of the recursions
                g[:] = 0
            pick = [large.one_structure(case, fam, b, rng) for b in range(case["B"])]
        else:
            pick = [fam.structs(b)[int(rng.integers(10**6)) % len(fam.structs(b))] for b in range(case["B"])]
        return cb, G, pick

    def event(self, fam, pick):
        ev = np.zeros(part_shapes(fam)[0])
        for b, z in enumerate(pick):
            for (t, ix), k in z.items():
                if t == 0:
                    ev[(b,) + ix] += k
        return ev

    def run(self, case, leaves):
        "gradient of a fixed combination of the query results with respect to the leaves"
        fam = self.fam(case)
        leaves = [x.requires_grad_(True) for x in leaves]
        pots = [x * 1.0 for x in leaves] if case.get("how") == "nonleaf" else leaves
        n = len(fam.shapes())
        d = fam.build(pots[:n])
        cb, G, pick = self.weights(case, fam)
        q = case["q"]
        dt = leaves[0].dtype
        if q == "marginals":
            m = as_list(fam, d.marginals, "marginals")
            obj = sum((x * torch.tensor(g, dtype=dt)).sum() for x, g in zip(m, G))
        else:
            if q == "log_prob":
                r = d.log_prob(torch.tensor(self.event(fam, pick), dtype=dt))
            elif q in ("cross_entropy", "kl"):
                r = getattr(d, q)(fam.build(pots[n:]))
            else:
                r = getattr(d, q)
            shape_is(r, (case["B"],), q)
            obj = (r * torch.tensor(cb, dtype=dt)).sum()
        g = torch.autograd.grad(obj, leaves, allow_unused=True)
        need(all(x is not None for x in g), "%s: no gradient reaches the potentials" % q)
        for x, y in zip(g, leaves):
            shape_is(x, tuple(y.shape), "gradient of " + q)
        return fam, n, g

    def names(self, case):
        fam = self.fam(case)
        ns = [n for n, _ in fam.shapes()]
        return ns + [x + "2" for x in ns] if case["q"] in ("cross_entropy", "kl") else ns

    def symbolic(self, case, sym):
        base = dict(case)
        base.pop("how", None)
        sym.case = base
        q = case["q"]
        with sym:
            mask = large.masks(case) if case.get("large") else {}
            ts = [sym.input(n, mask=mask.get(n.rstrip("2"))) for n in self.names(case)]
            cells = [sym.cells(t) for t in ts]
            fam, n, g = self.run(case, ts)
            part = [fam.build([t.detach() for t in ts[:n]]).partition]
            if len(ts) > n:
                part.append(fam.build([t.detach() for t in ts[n:]]).partition)
        pc = [sym.cells(p) for p in part]
        gc = [sym.cells(x) for x in g]
        cb, G, pick = self.weights(case, fam)
        for b in range(case["B"]):
            own, oth = cells[:n], cells[n:]
            if case.get("large"):
                self.symbolic_large(case, sym, fam, b, own, oth, pc, gc)
                continue
            zs = fam.structs(b)
            w = [Poly({sym.weight(own, z, b, n): 1}) for z in zs]
            L, Zm = sym.log_partition("log-partition of element %d" % b, pc[0][b], sym.Z(own, zs, b, n))
            if oth:
                w2 = [Poly({sym.weight(oth, z, b, n): 1}) for z in zs]
                L2, Zm2 = sym.log_partition("log-partition of element %d" % b, pc[1][b], sym.Z(oth, zs, b, n))
            c = int(cb[b])
            ev = pick[b]
            # f(z): the function of the structure whose covariance with a part is the gradient
            if q == "entropy":
                f = [alg.pmul(poly(-c), sym.score(own, z, b, n)) for z in zs]
            elif q == "cross_entropy":
                f = [alg.pmul(poly(-c), sym.score(oth, z, b, n)) for z in zs]
            elif q == "kl":
                f = [alg.pmul(poly(c), alg.padd(sym.score(own, z, b, n), sym.score(oth, z, b, n), -1)) for z in zs]
            elif q == "marginals":
                f = [poly(sum(int(G[t][(b,) + ix]) * k for (t, ix), k in z.items())) for z in zs]
            else:
                f = None
            mean = summ(alg.pmul(x, y) for x, y in zip(w, f)) if f else None
            for t in range(len(gc)):
                for ix in np.ndindex(*gc[t].shape[1:]):
                    what = "gradient of %s, tensor %d, element %d, part %s" % (q, t, b, ix)
                    cell = gc[t][(b,) + ix]
                    part_ = (t % n, ix)
                    cnt = [z.get(part_, 0) for z in zs]
                    A = summ(alg.pmul(poly(k), x) for x, k in zip(w, cnt) if k)
                    if t >= n:  # d/d(other): c * (marginal of other - marginal)
                        A2 = summ(alg.pmul(poly(k), x) for x, k in zip(w2, cnt) if k)
                        want = alg.pmul(poly(c), alg.padd(alg.pmul(A2, Zm), alg.pmul(A, Zm2), -1))
                        sym.equal_logs(what, cell, want, alg.pmul(Zm, Zm2))
                    elif f is None:
                        want = alg.pmul(poly(c), A)
                        if q == "log_prob":
                            want = alg.padd(alg.pmul(poly(c * ev.get(part_, 0)), Zm), want, -1)
                        sym.equal_logs(what, cell, want, Zm)
                    else:
                        fa = summ(alg.pmul(poly(k), alg.pmul(x, y)) for x, y, k in zip(w, f, cnt) if k)
                        want = alg.padd(alg.pmul(Zm, fa), alg.pmul(mean, A), -1)
                        others = [Zm2] if oth else []
                        sym.equal_logs(what, cell, want, alg.pmul(Zm, Zm), *others)

    def function(self, case, b, q, c, G, own, oth, mul, add, con):
        "f(part) such that the gradient is the covariance of its sum over a structure with a part"

        def f(t, ix):
            if t >= len(own):
                return None
            i = (b,) + ix
            if q == "marginals":
                return con(int(G[t][i]))
            if q == "entropy":
                return mul(con(-c), own[t][i])
            if q == "cross_entropy":
                return mul(con(-c), oth[t][i])
            return mul(con(c), add(own[t][i], oth[t][i]))

        return f if q in ("marginals", "entropy", "cross_entropy", "kl") else None

    def looked_at(self, case, b):
        "parts whose gradients are compared in a large case; the last ones belong to no structure"
        some, never = large.plain_parts(case, b, 2)
        on = list(large.marked(case, b))
        return [p for p in on if p not in set(never)] + some, never

    def symbolic_large(self, case, sym, fam, b, own, oth, pc, gc):
        q, n = case["q"], len(own)
        cb, G, pick = self.weights(case, fam)
        c = int(cb[b])
        S = large.sum_poly(sym, fam, own, b)
        L, Zm = sym.log_partition("log-partition of element %d" % b, pc[0][b], S)
        if oth:
            L2, Zm2 = sym.log_partition("log-partition of element %d" % b, pc[1][b], large.sum_poly(sym, fam, oth, b))
        f = self.function(case, b, q, c, G, own, oth, lambda x, y: alg.pmul(x, poly(y)), lambda x, y: alg.padd(poly(x), poly(y), -1), poly)
        some, never = self.looked_at(case, b)
        for t, ix in never:
            for u in (t, t + n)[: 2 if oth else 1]:
                sym.equal_logs("gradient of %s, tensor %d, element %d, part %s" % (q, u, b, ix), gc[u][(b,) + ix], Poly({}), Zm)
        for t, ix in some:
            what = "gradient of %s, tensor %d, element %d, part %s" % (q, t, b, ix)
            cell = gc[t][(b,) + ix]
            _, mean, A, fa = large.with_function(sym, fam, own, b, (t, ix), f or (lambda *a: None))
            if f is None:
                want = alg.pmul(poly(c), A)
                if q == "log_prob":
                    want = alg.padd(alg.pmul(poly(c * pick[b].get((t, ix), 0)), Zm), want, -1)
                sym.equal_logs(what, cell, want, Zm)
            else:
                want = alg.padd(alg.pmul(Zm, fa), alg.pmul(mean, A), -1)
                sym.equal_logs(what, cell, want, alg.pmul(Zm, Zm), *([Zm2] if oth else []))
            if oth:
                A2 = large.with_function(sym, fam, oth, b, (t, ix), lambda *a: None)[2]
                want = alg.pmul(poly(c), alg.padd(alg.pmul(A2, Zm), alg.pmul(A, Zm2), -1))
                sym.equal_logs(what + " of the other distribution", gc[t + n][(b,) + ix], want, alg.pmul(Zm, Zm2))

    def concrete_large(self, case, vals, fam, b, g, n):
        q = case["q"]
        cb, G, pick = self.weights(case, fam)
        c = int(cb[b])
        own = {k: v for k, v in vals.items() if not k.endswith("2")}
        other = {k[:-1]: v for k, v in vals.items() if k.endswith("2")}
        A = [np.asarray(own[k], dtype=float) for k, _ in fam.shapes()]
        O = [np.asarray(other[k], dtype=float) for k, _ in fam.shapes()] if other else []
        f = self.function(case, b, q, c, G, A, O, lambda x, y: x * y, lambda x, y: x - y, float)
        some, never = self.looked_at(case, b)
        for t, ix in some + never:
            m, cov = 0.0, 0.0
            if (t, ix) not in never:
                _, fm, m, fp = large.with_function_num(fam, own, b, (t, ix), f or (lambda *a: 0.0))
                cov = fp - fm * m
            want = cov if f else c * m
            if q == "log_prob":
                want = c * pick[b].get((t, ix), 0) - want
            got = [(t, want)]
            if O:
                m2 = 0.0 if (t, ix) in never else large.with_function_num(fam, other, b, (t, ix), lambda *a: 0.0)[2]
                got.append((t + n, c * (m2 - m)))
            for u, w in got:
                x = float(g[u][(b,) + ix])
                need(close(x, w, case, 1e-5), "gradient of %s with respect to part %s of tensor %d, element %d = %r, exact derivative %r" % (q, ix, u, b, x, w))

    def concrete(self, case, vals):
        base = dict(case)
        base.pop("how", None)
        fam, n, g = self.run(case, to_tensors(base, vals, self.names(case)))
        q = case["q"]
        cb, G, pick = self.weights(case, fam)
        for b in range(case["B"]):
            if case.get("large"):
                self.concrete_large(case, vals, fam, b, g, n)
                continue
            zs = fam.structs(b)
            s = F.score_vec(fam, vals, b)
            p = np.exp(s - F.lse(s))
            if len(g) > n:
                s2 = F.score_vec(fam, {k[:-1]: v for k, v in vals.items() if k.endswith("2")}, b)
                p2 = np.exp(s2 - F.lse(s2))
            f = {
                "entropy": lambda: -s,
                "cross_entropy": lambda: -s2,
                "kl": lambda: s - s2,
                "marginals": lambda: np.array([sum(int(G[t][(b,) + ix]) * k for (t, ix), k in z.items()) for z in zs], dtype=float),
            }.get(q, lambda: None)()
            c = 1 if q == "marginals" else int(cb[b])
            for t, x in enumerate(g):
                x = x.detach().double().numpy()[b]
                for ix in np.ndindex(*x.shape):
                    cnt = np.array([z.get((t % n, ix), 0) for z in zs], dtype=float)
                    if t >= n:
                        want = c * ((p2 - p) * cnt).sum()
                    elif f is None:
                        want = c * (p * cnt).sum()
                        if q == "log_prob":
                            want = c * pick[b].get((t, ix), 0) - want
                    else:
                        want = c * ((p * f * cnt).sum() - (p * f).sum() * (p * cnt).sum())
                    need(close(x[ix], want, case, 1e-5), "gradient of %s with respect to part %s of tensor %d, element %d = %r, exact derivative %r" % (q, ix, t, b, float(x[ix]), want))


def summ(it):
    t = {}
    for p in it:
        for m, c in p.t.items():
            alg._addt(t, m, c)
    return Poly(t)


PROP = Gradients()
