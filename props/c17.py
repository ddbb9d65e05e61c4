from .base import *  # noqa
from .c16 import get, ssize
from symtorch import solve


def wrap(case, sr):
    import torch_struct as t

    w = case["wrap"]
    if w[0] == "cp":
        return t.CheckpointSemiring(sr, *w[1:])
    return t.CheckpointShardSemiring(sr, *w[1:])


def sum_(ps):
    r = poly(0)
    for p in ps:
        r = alg.padd(r, p)
    return r


def exp_(p):
    off, m = alg.pexp_parts(poly(p))
    return Poly({alg.mmul(m, alg.cexp_mono(off)) if off != 0 else m: 1})


class Checkpoint(Prop):
    pid = "C17"
    bounds = "operand shapes, shard sizes and thresholds as in case_extent; operand entries and incoming gradients symbolic in [-100,100]; whole linear-chain and semi-Markov distributions of the listed sizes"
    assumptions = ASSUME + ["equal operands of one maximum are resolved the same way in both runs"]

    def cases(self, tier):
        out = []
        shapes = [
            ([2, 2, 3], [2, 3, 2]),
            ([1, 3, 2], [3, 2, 2]),
            ([3, 1, 2], [1, 2, 3]),
            ([2, 1, 2, 1], [1, 2, 1, 2]),
            ([3, 2, 2], [3, 2, 2]),
            ([1, 2, 2], [1, 2, 2]),
            ([4, 1, 1], [4, 1, 2]),
            ([2, 3, 1, 2], [2, 1, 2, 1]),
        ]
        wraps = [("cp",), ("cp", 12), ("sh", 1), ("sh", 5), ("sh", 12), ("sh", 30), ("sh", 4, 20), ("sh", 1000)]
        for i, s in enumerate(["log", "std", "max", "ent", "kmax", "ce", "kl"]):
            for j, (a, b) in enumerate(shapes):
                if s in ("kmax", "ce", "kl") and j in (0, 3, 7):
                    continue
                for k, w in enumerate(wraps):
                    c = dict(sr=s, a=a, b=b, wrap=list(w), need=["ab", "a", "b"][(j + k) % 3] if (i + j + k) % 2 else "ab", tr=(j + k) % 4 == 1)
                    if s == "kmax":
                        c["k"] = 2
                    if s not in ("log", "std", "max") and (j + k + i) % 2:
                        continue
                    out.append(c)
        dists = [
            C("chain", 2, 4, C=2, lengths=[4, 3]),
            C("chain", 1, 5, C=2),
            C("semi", 2, 3, K=3, C=2, lengths=[3, 2]),
            C("semi", 1, 4, K=2, C=2),
        ]
        for c in dists:
            for s in ("log", "max", "std", "ent", "kmax") if c["family"] == "chain" or c["B"] == 2 else ("log", "max"):
                for w in wraps:
                    d = dict(c, sr=s, wrap=list(w), dist=1)
                    if s == "kmax":
                        d["k"] = 2
                    if s != "log" and w[0] == "sh" and w[1] in (12, 30):
                        continue
                    out.append(d)
        return out

    def values(self, case, seed=None):
        s = case.get("seed", 0) if seed is None else seed
        if case.get("dist"):
            return self.fam(case).values(s)
        rng = np.random.default_rng(s + 3)
        v = {}
        n = (ssize(case),)
        for k in "ab":
            x = rng.normal(size=n + tuple(case[k]))
            v[k] = -np.sort(-x, 0) if case["sr"] == "kmax" else x
        a, b = case["a"], case["b"]
        lead = tuple(np.broadcast_shapes(a[:-2], b[:-2]))
        v["g"] = rng.normal(size=n + lead + (a[-2], b[-1]))
        return v

    def run(self, case, sr, t):
        "values and gradients as a dict"
        if case.get("dist"):
            fam = self.fam(case)
            lens = None if case.get("lengths") is None else torch.LongTensor(case["lengths"])
            x = t["x"].detach().clone()
            s = fam.structure(sr)
            out = {"sum": s.sum(x, lengths=lens, _raw=case["sr"] == "kmax")}
            if case["sr"] in ("log", "max"):
                out["marginals"] = s.marginals(t["x"].detach().clone(), lengths=lens)
            return out
        a = t["a"].detach().clone().requires_grad_("a" in case["need"])
        b = t["b"].detach().clone().requires_grad_("b" in case["need"])
        q = sr.matmul(a, b)
        r, g = q, t["g"].detach()
        if case["tr"]:
            r, g = r.transpose(-1, -2), g.transpose(-1, -2).contiguous()
        gs = torch.autograd.grad((r * g).sum(), [x for x, n in ((a, "a"), (b, "b")) if n in case["need"]])
        out = {"value": q}
        for n, x in zip(case["need"], gs):
            out["gradient of " + n] = x
        return out

    def both(self, case, t):
        sr = get(case)
        return self.run(case, sr, t), self.run(case, wrap(case, sr), t)

    def symbolic(self, case, sym):
        sym.ctx.same_ties = True
        with sym, torch.enable_grad():
            t = {n: sym.input(n) for n in self.values(case)}
            if case["sr"] == "kmax" and not case.get("dist"):
                for n in "ab":
                    c = sym.cells(t[n])
                    for ix in np.ndindex(*c.shape[1:]):
                        sym.ctx.side.append(alg.to_z3(c[(0,) + ix]) >= alg.to_z3(c[(1,) + ix]))
            plain, mine = self.both(case, t)
        if not case.get("dist") and case["sr"] in ("log", "std", "max"):
            self.anchor(sym, case, t, mine)
        for n, p in plain.items():
            shape_is(mine[n], tuple(p.shape), n)
            cp, cm = sym.cells(p), sym.cells(mine[n])
            for ix in np.ndindex(*cp.shape):
                self.same(sym, case, "%s %s of the wrapped and the plain semiring" % (n, list(ix)), cm[ix], cp[ix])

    def anchor(self, sym, case, t, mine):
        "the wrapped product and its gradients against the defining sum"
        kind = case["sr"]
        ca, cb, cg = (sym.cells(t[n])[0] for n in "abg")
        full = cg.shape[:-2]
        ia = np.broadcast_to(np.arange(ca.size).reshape(ca.shape), full + ca.shape[-2:])
        ib = np.broadcast_to(np.arange(cb.size).reshape(cb.shape), full + cb.shape[-2:])
        fa, fb = ca.reshape(-1), cb.reshape(-1)
        cv = sym.cells(mine["value"])[0]
        grads = {}
        for ix in np.ndindex(*cg.shape):
            lead, i, j = ix[:-2], ix[-2], ix[-1]
            pairs = [(ia[lead + (i, k)], ib[lead + (k, j)]) for k in range(ca.shape[-1])]
            what = "value %s and the defining sum" % list(ix)
            if kind == "max":
                vs = [alg.add(fa[x], fb[y]) for x, y in pairs]
                sym.valid(what, alg.band(alg.bor(*[alg.cmp_cells("eq", cv[ix], v) for v in vs]), *[alg.cmp_cells("ge", cv[ix], v) for v in vs]))
                continue
            if kind == "std":
                sym.equal(what, cv[ix], sum_([alg.pmul(fa[x], fb[y]) for x, y in pairs]))
                for x, y in pairs:
                    grads.setdefault(("a", x), []).append((alg.pmul(cg[ix], fb[y]), None))
                    grads.setdefault(("b", y), []).append((alg.pmul(cg[ix], fa[x]), None))
                continue
            ws = [exp_(alg.add(fa[x], fb[y])) for x, y in pairs]
            Z = sum_(ws)
            sym.equal_log(what, cv[ix], Z)
            for (x, y), w in zip(pairs, ws):
                grads.setdefault(("a", x), []).append((alg.pmul(cg[ix], w), Z))
                grads.setdefault(("b", y), []).append((alg.pmul(cg[ix], w), Z))
        for (n, x), terms in grads.items():
            if n not in case["need"] or (kind == "log" and len(terms) > 3):
                continue
            cell = sym.cells(mine["gradient of " + n]).reshape(-1)[x]
            what = "gradient of %s %d and the defining sum" % (n, x)
            if kind == "std":
                sym.equal(what, cell, sum_([p for p, _ in terms]))
                continue
            num, Z = poly(0), poly(1)
            for p, z in terms:
                num, Z = alg.padd(alg.pmul(num, z), alg.pmul(p, Z)), alg.pmul(Z, z)
            sym.equal_ratio(what, cell, num, Z)

    def same(self, sym, case, what, a, b):
        if isinstance(a, Poly) and isinstance(b, Poly) and a.key() == b.key():
            sym.obl += 1
            solve.STATS.add("by_identity", 0.0)
        elif case["sr"] in ("max", "kmax"):
            sym.valid(what, alg.cmp_cells("eq", a, b))
        elif case["sr"] == "log" and ("value" in what or "sum" in what):
            sym.equal_log_cells(what, a, b)
        else:
            sym.equal_logs(what, alg.sub(a, b), 0, poly(1))

    def concrete(self, case, vals):
        t = {n: torch.tensor(np.asarray(v, dtype=float)) for n, v in vals.items() if isinstance(v, np.ndarray)}
        if case["sr"] == "kmax" and not case.get("dist"):
            for n in "ab":
                t[n] = t[n].sort(0, descending=True)[0]
        with torch.enable_grad():
            plain, mine = self.both(case, t)
        for n, p in plain.items():
            shape_is(mine[n], tuple(p.shape), n)
            need(torch.allclose(mine[n].detach(), p.detach(), rtol=1e-7, atol=1e-8), "%s of the wrapped semiring is %s, of the plain one %s" % (n, mine[n].detach().reshape(-1)[:8].tolist(), p.detach().reshape(-1)[:8].tolist()))


PROP = Checkpoint()
