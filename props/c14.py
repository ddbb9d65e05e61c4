from .base import *  # noqa
from oracle import dp
from symtorch import solve
from . import large
from symtorch.alg import Fin
import z3

FINITE = [-1e6, -2.5, 0.0, 80.0]


class Ints(dp.Floats):
    zero, one = 0, 1


class Counts:
    "number of structures for every set of marked parts"
    zero, one = {}, {frozenset(): 1}

    @staticmethod
    def add(a, b):
        return {k: a.get(k, 0) + b.get(k, 0) for k in a.keys() | b.keys()}

    @staticmethod
    def mul(a, b):
        r = {}
        for k, x in a.items():
            for l, y in b.items():
                r[k | l] = r.get(k | l, 0) + x * y
        return r


class Count(Prop):
    pid = "C14"
    bounds = "sizes, lengths and layouts as in case_extent; every pattern of minus-infinity potentials; finite potentials either symbolic reals in [-100,100] (pattern fixed) or any of %s (pattern symbolic); in cases with 'large' only that many entries per element and some of the padding range over these, the others are finite" % FINITE
    assumptions = ASSUME[:1] + ["sizes, lengths and tensor layouts are enumerated configurations"]

    def cases(self, tier):
        out = [
            C("chain", 1, 2, C=1),
            C("chain", 2, 2, C=2, lengths=[2, 1]),
            C("chain", 2, 3, C=3, lengths=[3, 2], how="grad"),
            C("chain", 3, 4, C=2, lengths=[1, 4, 3]),
            C("chain", 1, 5, C=2, how="strided"),
            C("chain", 2, 6, C=2, lengths=[6, 4], nograd=1),
            C("chain", 1, 4, C=3, dtype="float32"),
            C("chain", 1, 7, C=2),
            C("semi", 2, 3, K=2, C=2, lengths=[3, 2]),
            C("semi", 2, 4, K=3, C=2, lengths=[4, 3]),
            C("semi", 1, 5, K=4, C=1, how="grad"),
            C("semi", 1, 5, K=3, C=2),
            C("semi", 2, 4, K=5, C=1, lengths=[2, 4], how="strided"),
            C("semi", 3, 6, K=3, C=1, lengths=[1, 6, 5]),
            C("dep", 1, 1, multiroot=True),
            C("dep", 2, 2, lengths=[2, 1]),
            C("dep", 2, 3, multiroot=True, lengths=[3, 2]),
            C("dep", 2, 3, multiroot=False, lengths=[2, 3], how="strided"),
            C("dep", 3, 3, multiroot=True, lengths=[1, 2, 2], how="grad"),
            C("dep", 1, 4, multiroot=True),
            C("dep", 1, 4, multiroot=False),
            C("dep", 2, 2, multiroot=True, L=2, lengths=[2, 1]),
            C("dep", 1, 3, multiroot=False, L=2),
            C("dep", 2, 4, multiroot=False, lengths=[3, 1]),
            C("tree", 1, 1, NT=2),
            C("tree", 2, 2, NT=2, lengths=[2, 1]),
            C("tree", 2, 3, NT=2, lengths=[3, 2], how="strided"),
            C("tree", 2, 4, NT=1, lengths=[1, 2]),
            C("tree", 1, 5, NT=1, how="grad"),
            C("tree", 2, 5, NT=1, lengths=[5, 4]),
            C("tree", 1, 4, NT=2),
            C("tree", 3, 3, NT=3, lengths=[2, 3, 1], nograd=1),
        ]
        if tier == "thorough":
            out += [
                C("chain", 1, 8, C=2),
                C("chain", 2, 5, C=3, lengths=[4, 5]),
                C("chain", 1, 4, C=5),
                C("semi", 1, 7, K=4, C=1),
                C("semi", 2, 5, K=4, C=2, lengths=[5, 4]),
                C("dep", 1, 5, multiroot=True),
                C("dep", 1, 5, multiroot=False),
                C("dep", 1, 4, multiroot=True, L=2),
                C("tree", 1, 6, NT=1),
                C("tree", 1, 7, NT=1),
                C("tree", 1, 5, NT=2),
                C("tree", 1, 4, NT=3),
            ]
        out += systematic(["chain", "semi", "dep", "tree"], 300 if tier == "thorough" else 100)
        res = []
        for i, c in enumerate(out):
            res.append(dict(c, mode="pattern"))
            if i % 2 == 0:
                res.append(dict(c, mode="reals", seed=i))
        for c in large.large(["chain", "semi", "dep", "tree"], tier, nsym=4, heavy=True):
            if c["N"] <= 40:  # counts below 2**53
                res.append(dict(c, mode="pattern"))
        return res

    def values(self, case, seed=None):
        "with 'large' the finite entries outside the mask keep one value for all seeds"
        s = case.get("seed", 0) if seed is None else seed
        v = self.fam(case).values(case["seed"] if case.get("large") else s)
        rng = np.random.default_rng(s + 17)
        x = v["x"]
        if case["mode"] == "pattern":
            x = np.where(large.masks(case)["x"], rng.choice(FINITE, size=x.shape), x) if case.get("large") else rng.choice(FINITE, size=x.shape)
        m = large.masks(case)["x"] if case.get("large") else True
        x[(rng.random(x.shape) < (0.3 if case.get("large") else 0.2 if s % 3 else 0.08)) & m] = -np.inf
        return {"x": x}

    def symbolic(self, case, sym):
        fam = self.fam(case)
        sym.ctx.indicators = True
        x0 = self.values(case)["x"]
        with sym, grad_ctx(case):
            if case["mode"] == "pattern":
                from harness import present

                m = large.masks(case)["x"] if case.get("large") else np.ones(x0.shape, dtype=bool)
                x = present(sym.finite("x", lambda ix: [-np.inf] + FINITE if m[ix] else [float(x0[ix])]), case.get("how"))
            else:
                x = sym.input("x", mask=np.isfinite(x0))
            n = fam.build([x]).count
        shape_is(n, (case["B"],), "count")
        xc, nc = sym.cells(x), sym.cells(n)
        ok = {}
        for ix in np.ndindex(*xc.shape):
            c = xc[ix]
            ok[ix] = alg.bnot(c.eq(-np.inf)) if isinstance(c, Fin) else alg.TRUE if isinstance(c, Poly) or np.isfinite(float(c)) else alg.FALSE
        memo = {}
        on = [set(large.marked(case, b)) for b in range(case["B"])] if case.get("large") else None
        for b in range(case["B"]):
            want = []
            if case.get("large"):
                want, n0 = [], 0
                for parts, k in dp.total(fam, b, lambda t, ix: {frozenset([ix]) if (0, ix) in on[b] else frozenset(): 1}, Counts).items():
                    want.append(z3.If(z3.And([alg.bz(ok[(b,) + ix]) for ix in parts]), z3.IntVal(k), z3.IntVal(0)))
                    n0 += k * all(ok[(b,) + ix].v for ix in parts)
                got = indicator_sum(sym, nc[b], memo)
                v = abs(alg.cell_val(nc[b]) - n0) < 1e-6 * max(1, n0)
                sym.valid("count of batch element %d" % b, alg.B(z3.Sum(want + [z3.IntVal(0)]) == got, v))
                continue
            for z in fam.structs(b):
                g = [ok[(b,) + ix] for _, ix in z]
                if any(q.z is False for q in g):
                    continue
                want.append(z3.If(z3.And([alg.bz(q) for q in g if q.z is not True]), 1, 0))
            got = indicator_sum(sym, nc[b], memo)
            v = abs(alg.cell_val(nc[b]) - sum(all(ok[(b,) + ix].v for _, ix in z) for z in fam.structs(b))) < 1e-6
            sym.valid("count of batch element %d" % b, alg.B(z3.Sum(want + [z3.IntVal(0)]) == got, v))

    def concrete(self, case, vals):
        fam, ts, d = real_dist(case, vals)
        with grad_ctx(case):
            n = d.count
        shape_is(n, (case["B"],), "count")
        x = np.asarray(vals["x"], dtype=float)
        for b in range(case["B"]):
            if case.get("large"):
                want = int(dp.total(fam, b, lambda t, ix: int(np.isfinite(x[(b,) + ix])), Ints))
            else:
                want = sum(all(np.isfinite(x[(b,) + ix]) for _, ix in z) for z in fam.structs(b))
            need(abs(float(n[b]) - want) < 1e-3 + 1e-9 * want, "count[%d] = %r, allowed structures: %d" % (b, float(n[b]), want))


def reading(sym, a, memo):
    "an atom proved to be 'this entry is finite' or its opposite, as a polynomial over one atom per entry"
    if a.id in memo:
        return memo[a.id]
    memo[a.id] = None
    fin = sym.ctx.key.get("finite", {})
    if a.kind != "ite" or any(not q.is_const() or q.const() not in (0, 1) for _, q in a.data):
        return None
    z = alg.bz(alg.bor(*[g for g, q in a.data if q.const() == 1]))
    if "lits" not in memo:
        memo["lits"] = {b.z.get_id(): k for k, alts in fin.items() for _, b in alts}
    seen, st = set(), [z]
    while st:
        q = st.pop()
        if z3.is_const(q):
            if q.get_id() in memo["lits"]:
                seen.add(memo["lits"][q.get_id()])
        else:
            st += q.children()
    if len(seen) == 1:
        alts = fin[seen.pop()]
        ok = alg.bnot(alg.bor(*[b for v, b in alts if v == -np.inf]))
        E = alg.fin_to_poly(Fin([(1, ok), (0, alg.bnot(ok))]))
        for w, p in ((alg.bz(ok), E), (alg.bz(alg.bnot(ok)), alg.padd(poly(1), E, -1))):
            s = z3.Solver()
            s.add(z3.PbEq([(b.z, 1) for _, b in alts], 1))
            s.add(z != w)
            if solve._check(s, 10) == z3.unsat:
                memo[a.id] = p
                break
    return memo[a.id]


def indicator_sum(sym, cell, memo):
    "z3 term of a polynomial over 0/1 choices: each monomial counts when all its factors are one"
    p = poly(cell)
    for a in sorted({a for m in p.t for a, _ in m}):
        r = reading(sym, alg.ctx().atoms[a], memo)
        if r is None:
            return alg.to_z3(cell)
        p = alg.subst_atom(p, a, r)
    ts = []
    for m, k in p.t.items():
        if any(e < 1 for _, e in m) or abs(k - round(k)) > 1e-9:
            return alg.to_z3(cell)
        gs = [alg.bz(alg.bor(*[g for g, q in alg.ctx().atoms[a].data if q.const() == 1])) for a, _ in m]
        ts.append(z3.If(z3.And(gs), z3.IntVal(round(k)), z3.IntVal(0)))
    return z3.Sum(ts + [z3.IntVal(0)])


PROP = Count()
