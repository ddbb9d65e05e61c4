from .base import *  # noqa
from symtorch.alg import band, bor
import z3

SIZE = {"std": 1, "log": 1, "max": 1, "ent": 2, "ce": 3, "kl": 3}


def get(case):
    import torch_struct as t

    n = case["sr"]
    if n == "kmax":
        return t.KMaxSemiring(case["k"])
    return {
        "std": t.StdSemiring,
        "log": t.LogSemiring,
        "max": t.MaxSemiring,
        "ent": t.EntropySemiring,
        "ce": t.CrossEntropySemiring,
        "kl": t.semirings.KLDivergenceSemiring if hasattr(t.semirings, "KLDivergenceSemiring") else t.KLDivergenceSemiring,
    }[n]


def ssize(case):
    return case["k"] if case["sr"] == "kmax" else SIZE[case["sr"]]


# An element of a semiring is the tuple of its components along the first dimension.
def terms_matmul(a, b):
    "index tuples of matmul with broadcast leading dimensions -> {(out index): [(ia, ib)]}"
    lead = np.broadcast_shapes(a[:-2], b[:-2])
    out = {}
    for l in np.ndindex(*lead):
        la = tuple(0 if d == 1 else i for i, d in zip(l[len(l) - len(a) + 2 :], a[:-2]))
        lb = tuple(0 if d == 1 else i for i, d in zip(l[len(l) - len(b) + 2 :], b[:-2]))
        for i in range(a[-2]):
            for j in range(b[-1]):
                out[l + (i, j)] = [(la + (i, k), lb + (k, j)) for k in range(a[-1])]
    return out


class Laws(Prop):
    pid = "C16"
    bounds = "operand shapes, dimensions and k as in case_extent; operand values symbolic in [-100,100]"

    def cases(self, tier):
        out = []
        S = ["std", "log", "max", "kmax", "ent", "ce", "kl"]
        k3 = 3 if tier == "thorough" else 2

        def add(op, srs=S, **kw):
            for s in srs:
                c = dict(sr=s, op=op, **kw)
                if s == "kmax":
                    c["k"] = kw.get("k", 2)
                out.append(c)

        for law in ("plus_assoc", "plus_comm", "times_assoc", "distrib_left", "distrib_right", "zero", "one"):
            add(law, a=[2], b=[2], c=[2])
        add("sum", a=[3], dim=-1)
        add("sum", a=[2, 3], dim=-1)
        add("sum", a=[3, 2, 2], dim=1, srs=[s for s in S if s != "kmax"])
        add("sum", a=[2, 3], dim=-2, srs=[s for s in S if s != "kmax"])
        add("sum", a=[2, 2, 3], dim=2, srs=[s for s in S if s != "kmax"])
        add("sum", a=[1], dim=-1)
        add("times", a=[2, 3], b=[2, 3])
        add("times", a=[2, 1], b=[1, 3])
        add("times3", a=[2], b=[2], c=[2])
        add("matmul", a=[2, 2, 3], b=[2, 3, 2])
        add("matmul", a=[1, 3, 2], b=[3, 2, 2], srs=[s for s in S if s != "kmax"])
        add("matmul", a=[3, 1, 2], b=[1, 2, 3], srs=[s for s in S if s != "kmax"])
        add("matmul", a=[2, 1, 2, 1], b=[1, 2, 1, 2])
        add("dot", a=[2, 3], b=[2, 3])
        add("dot", a=[2, 1, 2], b=[1, 2, 2])
        add("plus", a=[2, 2], b=[2, 2])
        add("prod", a=[2, 3], dim=-1, srs=[s for s in S if s not in ("kmax",)])
        add("prod", a=[3, 2], dim=1, srs=["std", "log", "max", "ent", "ce", "kl"])
        add("sum", a=[2, 3], dim=None)
        add("sum", a=[2, 2, 2], dim=-3, srs=[s for s in S if s != "kmax"])
        add("prod", a=[3, 2], dim=None, srs=[s for s in S if s != "kmax"])
        add("prod", a=[2, 3, 2], dim=-2, srs=[s for s in S if s != "kmax"])
        add("prod", a=[2, 3], dim=2, srs=[s for s in S if s != "kmax"])
        add("matmul", a=[1, 1, 1], b=[1, 1, 1])
        add("matmul", a=[2, 1, 3], b=[1, 3, 1])
        add("dot", a=[3], b=[3])
        add("dot", a=[1, 1], b=[1, 1])
        add("times", a=[1], b=[3])
        add("fill", a=[2, 3])
        add("convert", a=[2, 3])
        out.append(dict(sr="kmax", op="sum", a=[3], dim=-1, k=3))
        out.append(dict(sr="kmax", op="sum", a=[2], dim=-1, k=1))
        out.append(dict(sr="kmax", op="times", a=[1], b=[1], k=3))
        out.append(dict(sr="kmax", op="sum", a=[2, 3], dim=-1, k=3))
        add("sparse_sum", a=[2, 2], srs=["max", "kmax"])
        add("sparse_sum", a=[2, 3], srs=["max", "kmax"])
        if tier == "thorough":
            add("matmul", a=[3, 4, 5], b=[3, 5, 4], srs=[s for s in S if s != "kmax"])
            add("sum", a=[2, 9], dim=-1, srs=[s for s in S if s != "kmax"])
            add("matmul", a=[1, 2, 3], b=[1, 3, 2], srs=["kmax"], k=3)
            add("plus_assoc", srs=["kmax"], a=[1], b=[1], c=[1], k=3)
            add("distrib_left", srs=["kmax"], a=[1], b=[1], c=[1], k=3)
            add("times_assoc", srs=["kmax"], a=[1], b=[1], c=[1], k=3)
        return out

    def names(self, case):
        return [n for n in "abc" if n in case]

    def shape(self, case, n):
        sh = tuple(case[n])
        if case["op"] == "convert":
            return sh
        return (ssize(case),) + sh

    def values(self, case, seed=None):
        s = case.get("seed", 0) if seed is None else seed
        rng = np.random.default_rng(s)
        v = {}
        for n in self.names(case):
            x = rng.normal(size=self.shape(case, n))
            if case["sr"] == "kmax" and case["op"] != "convert":
                x = -np.sort(-x, 0)
            v[n] = x
            if case["op"] == "convert" and case["sr"] in ("ce", "kl"):
                v[n + "2"] = rng.normal(size=self.shape(case, n))
        return v

    # -- the real code -----------------------------------------------------
    def run(self, case, t):
        import torch

        sr = get(case)
        op = case["op"]
        a, b, c = (t.get(n) for n in "abc")
        need(sr.size() == ssize(case), "size() = %r" % sr.size())

        def el(x):
            "the declared constant as an element of the shape of a"
            return sr.fill(torch.zeros_like(a), torch.tensor(True), x)

        if op == "plus_assoc":
            return sr.plus(sr.plus(a, b), c), sr.plus(a, sr.plus(b, c))
        if op == "plus_comm":
            return sr.plus(a, b), sr.plus(b, a)
        if op == "times_assoc":
            return sr.times(sr.times(a, b), c), sr.times(a, sr.times(b, c))
        if op == "distrib_left":
            return sr.times(a, sr.plus(b, c)), sr.plus(sr.times(a, b), sr.times(a, c))
        if op == "distrib_right":
            return sr.times(sr.plus(b, c), a), sr.plus(sr.times(b, a), sr.times(c, a))
        if op == "zero":
            return sr.plus(a, el(sr.zero)), a
        if op == "one":
            return sr.times(el(sr.one), a), a
        if op == "sum":
            return (sr.sum(a) if case["dim"] is None else sr.sum(a, dim=case["dim"]),)
        if op == "prod":
            return (sr.prod(a) if case["dim"] is None else sr.prod(a, dim=case["dim"]),)
        if op == "times":
            return (sr.times(a, b),)
        if op == "times3":
            return (sr.times(a, b, c),)
        if op == "plus":
            return (sr.plus(a, b),)
        if op == "matmul":
            return (sr.matmul(a, b),)
        if op == "dot":
            return (sr.dot(a, b),)
        if op == "fill":
            m = torch.zeros(a.shape[1:]).bool()
            m.view(-1)[::2] = True
            return sr.fill(a, m, sr.zero), sr.fill(a, m, sr.one)
        if op == "convert":
            x = [a, t["a2"]] if case["sr"] in ("ce", "kl") else a
            cv = sr.convert(x)
            return cv, sr.unconvert(cv)
        if op == "sparse_sum":
            v, (p, k) = sr.sparse_sum(a)
            return v, p, k
        raise KeyError(op)

    # -- what the result denotes: {(kind, index): list of products of elements} --
    def denote(self, case):
        op = case["op"]
        s = {n: tuple(case[n]) for n in self.names(case)}
        if op in ("sum", "prod"):
            d = -1 if case["dim"] is None else case["dim"]
            d = d - 1 if d > 0 else d % len(s["a"])
            out = {}
            for ix in np.ndindex(*s["a"]):
                out.setdefault(ix[:d] + ix[d + 1 :], []).append((("a", ix),))
            if op == "prod":
                out = {k: [tuple(x[0] for x in v)] for k, v in out.items()}
            return out
        if op in ("times", "times3"):
            ns = self.names(case)
            full = np.broadcast_shapes(*[s[n] for n in ns])
            out = {}
            for ix in np.ndindex(*full):
                out[ix] = [tuple((n, tuple(0 if d == 1 else i for i, d in zip(ix, s[n]))) for n in ns)]
            return out
        if op == "plus":
            return {ix: [(("a", ix),), (("b", ix),)] for ix in np.ndindex(*s["a"])}
        if op == "matmul":
            return {ix: [(("a", i), ("b", j)) for i, j in ps] for ix, ps in terms_matmul(s["a"], s["b"]).items()}
        if op == "dot":
            lead = np.broadcast_shapes(s["a"][:-1], s["b"][:-1])
            out = {}
            for ix in np.ndindex(*lead):
                ia = tuple(0 if d == 1 else i for i, d in zip(ix, s["a"]))
                ib = tuple(0 if d == 1 else i for i, d in zip(ix, s["b"]))
                out[ix] = [(("a", ia + (k,)), ("b", ib + (k,))) for k in range(s["a"][-1])]
            return out
        return None

    def symbolic(self, case, sym):
        import torch

        with sym:
            t = {n: sym.input(n) for n in self.vals_names(case)}
            cells = {n: sym.cells(x) for n, x in t.items()}
            res = self.run(case, t)
        R = [sym.cells(r) for r in res]
        srn, op = case["sr"], case["op"]
        if srn == "kmax" and op != "convert":
            # elements of the k-max semiring are lists in non-increasing order
            for n in self.names(case):
                c = cells[n]
                for r in range(case["k"] - 1):
                    for ix in np.ndindex(*c.shape[1:]):
                        sym.ctx.pc.append(alg.cmp_cells("ge", c[(r,) + ix], c[(r + 1,) + ix]))
            sym.pc0 = len(sym.ctx.pc)
            sym.satisfiable("operands in order")
        den = self.denote(case)
        if den is not None:
            want_shape = self.out_shape(case, den)
            shape_is(res[0], want_shape, op)
            for ix, sums in den.items():
                self.check_denotation(case, sym, op + str(list(ix)), [R[0][(r,) + ix] for r in range(ssize(case))], sums, cells)
            return
        if op == "fill":
            zero, one = self.const(case, "zero"), self.const(case, "one")
            for o, want in zip(R, (zero, one)):
                need(o.shape == cells["a"].shape, "fill: shape %s" % (o.shape,))
                for n, ix in enumerate(np.ndindex(*o.shape[1:])):
                    for r in range(o.shape[0]):
                        sym.equal("fill%s" % (list(ix),), o[(r,) + ix], want[r] if n % 2 == 0 else cells["a"][(r,) + ix])
            return
        if op == "convert":
            self.check_convert(case, sym, R, cells)
            return
        if op == "sparse_sum":
            self.check_sparse(case, sym, R, cells)
            return
        need(R[0].shape == R[1].shape, "%s: shapes %s and %s" % (op, R[0].shape, R[1].shape))
        for ix in np.ndindex(*R[0].shape):
            self.same(case, sym, "%s%s" % (op, list(ix)), ix, R[0][ix], R[1][ix])

    def vals_names(self, case):
        ns = self.names(case)
        if case["op"] == "convert" and case["sr"] in ("ce", "kl"):
            return ["a", "a2"]
        return ns

    def const(self, case, which):
        n = case["sr"]
        big = float(np.float32(-1e5))
        if which == "zero":
            return {"std": [0], "log": [big], "max": [big], "kmax": [big] * case.get("k", 1), "ent": [big, 0], "ce": [big, big, 0], "kl": [big, big, 0]}[n]
        return {"std": [1], "log": [0], "max": [0], "kmax": [0] + [big] * (case.get("k", 1) - 1), "ent": [0, 0], "ce": [0, 0, 0], "kl": [0, 0, 0]}[n]

    def out_shape(self, case, den):
        m = np.max(np.array([list(ix) for ix in den], dtype=int).reshape(len(den), -1), 0) + 1
        return (ssize(case),) + tuple(int(q) for q in m)

    def same(self, case, sym, what, ix, p, q):
        n = case["sr"]
        if n == "std":
            sym.equal(what, p, q)
        elif n == "log" or (n in ("ent", "ce", "kl") and ix[0] < SIZE[n] - 1):
            sym.equal_log_cells(what, p, q)
        elif n in ("max", "kmax"):
            if n == "kmax" and case["op"] == "one" or case["op"] == "zero":
                # anything at the level of the declared zero counts as absent
                absent = band(alg.cmp_cells("le", p, -alg.BIG), alg.cmp_cells("le", q, -alg.BIG))
                sym.valid(what, bor(alg.cmp_cells("eq", p, q), absent))
            else:
                sym.valid(what, alg.cmp_cells("eq", p, q))
        else:
            sym.equal_logs(what, alg.sub(p, q), 0, poly(1))

    def check_denotation(self, case, sym, what, got, sums, cells):
        n = case["sr"]
        C = lambda f, r: poly(cells[f[0]][(r,) + f[1]])

        def total(prod, r):
            s = Poly({})
            for f in prod:
                s = alg.padd(s, C(f, r))
            return s

        if n == "std":
            s = Poly({})
            for prod in sums:
                m = poly(1)
                for f in prod:
                    m = alg.pmul(m, C(f, 0))
                s = alg.padd(s, m)
            sym.equal(what, got[0], s)
            return
        if n in ("log", "ent", "ce", "kl"):
            last = SIZE[n] - 1 if n != "log" else 1
            Ls = []
            for r in range(last):
                Z = {}
                for prod in sums:
                    alg._addt(Z, alg.pexp_parts(total(prod, r))[1], 1)
                Ls.append(sym.log_partition(what + ", component %d" % r, got[r], Poly(Z), strict=True))
            if n == "log":
                return
            want = Poly({})
            L0, Z0 = Ls[0]
            for prod in sums:
                p = Poly({alg.pexp_parts(total(prod, 0))[1]: 1})
                t = total(prod, last)  # running value
                if n == "ent":
                    t = alg.padd(alg.padd(t, L0), total(prod, 0), -1)
                elif n == "ce":
                    t = alg.padd(alg.padd(t, Ls[1][0]), total(prod, 1), -1)
                else:
                    t = alg.padd(alg.padd(t, Ls[1][0]), total(prod, 1), -1)
                    t = alg.padd(alg.padd(t, L0, -1), total(prod, 0))
                want = alg.padd(want, alg.pmul(p, t))
            sym.equal_logs(what + ", expectation component", got[last], want, Z0, *[z for _, z in Ls[1:]])
            return
        # max / k-max: rank r of the multiset of all products
        k = ssize(case)
        cand = []
        for prod in sums:
            for rs in itertools.product(range(k), repeat=len(prod)):
                s = Poly({})
                for f, r in zip(prod, rs):
                    s = alg.padd(s, C(f, r))
                cand.append(s)
        for r in range(k):
            gt = [(alg.bz(alg.cmp_cells("gt", s, got[r])), 1) for s in cand]
            ge = [(alg.bz(alg.cmp_cells("ge", s, got[r])), 1) for s in cand]
            sym.valid("%s, rank %d" % (what, r), alg.B(z3.And(z3.PbLe(gt, r), z3.PbGe(ge, r + 1)), True))

    def check_convert(self, case, sym, R, cells):
        n = case["sr"]
        a = cells["a"]
        cv, un = R
        need(cv.shape == (ssize(case),) + a.shape, "convert: shape %s" % (cv.shape,))
        need(un.shape == a.shape, "unconvert: shape %s" % (un.shape,))
        for ix in np.ndindex(*a.shape):
            sym.equal("convert%s" % list(ix), cv[(0,) + ix], a[ix])
            if n in ("ce", "kl"):
                sym.equal("convert%s, second" % list(ix), cv[(1,) + ix], cells["a2"][ix])
            if n in ("ent", "ce", "kl"):
                sym.equal("unconvert%s" % list(ix), un[ix], 0)
                sym.equal("convert%s, expectation" % list(ix), cv[(SIZE[n] - 1,) + ix], 0)
            else:
                sym.equal("unconvert%s" % list(ix), un[ix], a[ix])
            if n == "kmax":
                for r in range(1, case["k"]):
                    sym.valid("convert%s, rank %d" % (list(ix), r), alg.cmp_cells("le", cv[(r,) + ix], -alg.BIG))

    def check_sparse(self, case, sym, R, cells):
        "values of rank r, and the (list position, index) where they came from"
        k, a = ssize(case), cells["a"]
        v, p, t = R
        lead = a.shape[1:-1]
        for x, nm in ((v, "values"), (p, "positions"), (t, "indices")):
            need(x.shape == (k,) + lead, "sparse_sum: %s of shape %s" % (nm, x.shape))
        for ix in np.ndindex(*lead):
            cand = [((r, c), a[(r,) + ix + (c,)]) for r in range(k) for c in range(a.shape[-1])]
            used = []
            for r in range(k):
                g = v[(r,) + ix]
                gt = [(alg.bz(alg.cmp_cells("gt", s, g)), 1) for _, s in cand]
                ge = [(alg.bz(alg.cmp_cells("ge", s, g)), 1) for _, s in cand]
                sym.valid("sparse_sum rank %d" % r, alg.B(z3.And(z3.PbLe(gt, r), z3.PbGe(ge, r + 1)), True))
                here = [band(alg.cmp_cells("eq", p[(r,) + ix], q), alg.cmp_cells("eq", t[(r,) + ix], c)) for (q, c), _ in cand]
                sym.valid("sparse_sum origin of rank %d" % r, bor(*[band(h, alg.cmp_cells("eq", s, g)) for h, (_, s) in zip(here, cand)]))
                for o in used:
                    sym.valid("sparse_sum origins differ", alg.bnot(bor(*[band(x, y) for x, y in zip(here, o)])))
                used.append(here)

    # -- concrete --------------------------------------------------------------
    def concrete(self, case, vals):
        t = {n: to_tensors(case, vals, [n])[0] for n in self.vals_names(case)}
        n, op = case["sr"], case["op"]
        if n == "kmax" and op != "convert":
            t = {q: x.sort(0, descending=True)[0] for q, x in t.items()}
        V = {q: x.detach().double().numpy() for q, x in t.items()}
        R = [r.detach().double().numpy() for r in self.run(case, t)]
        den = self.denote(case)
        if den is not None:
            ws = self.out_shape(case, den)
            need(R[0].shape == ws, "%s: shape %s, expected %s" % (op, R[0].shape, ws))
            for ix, sums in den.items():
                got = [R[0][(r,) + ix] for r in range(ssize(case))]
                want = self.numeric(case, sums, V)
                for r, (g, w) in enumerate(zip(got, want)):
                    need(close(g, w, case), "%s%s component %d = %r, expected %r" % (op, list(ix), r, g, w))
            return
        if op == "fill":
            for o, c in zip(R, (self.const(case, "zero"), self.const(case, "one"))):
                need(o.shape == V["a"].shape, "fill: shape")
                for i, ix in enumerate(np.ndindex(*o.shape[1:])):
                    for r in range(o.shape[0]):
                        w = c[r] if i % 2 == 0 else V["a"][(r,) + ix]
                        need(close(o[(r,) + ix], w, case), "fill%s = %r, expected %r" % (list(ix), o[(r,) + ix], w))
            return
        if op == "convert":
            cv, un = R
            need(cv.shape == (ssize(case),) + V["a"].shape and un.shape == V["a"].shape, "convert: shapes %s %s" % (cv.shape, un.shape))
            need(np.allclose(cv[0], V["a"]), "convert changes the values")
            if n in ("ce", "kl"):
                need(np.allclose(cv[1], V["a2"]), "convert changes the second values")
            if n in ("ent", "ce", "kl"):
                need(np.allclose(un, 0) and np.allclose(cv[-1], 0), "converted expectation is not zero")
            else:
                need(np.allclose(un, V["a"]), "unconvert(convert(x)) differs from x")
            if n == "kmax":
                need((cv[1:] <= -alg.BIG).all(), "convert: lower ranks are not absent")
            return
        if op == "sparse_sum":
            v, p, q = R
            a = V["a"]
            k = ssize(case)
            for x in (v, p, q):
                need(x.shape == (k,) + a.shape[1:-1], "sparse_sum: shape %s" % (x.shape,))
            for ix in np.ndindex(*a.shape[1:-1]):
                allv = np.sort(a[(slice(None),) + ix].ravel())[::-1]
                seen = set()
                for r in range(k):
                    pos, tok = int(p[(r,) + ix]), int(q[(r,) + ix])
                    need(close(v[(r,) + ix], allv[r], case), "sparse_sum rank %d = %r, expected %r" % (r, v[(r,) + ix], allv[r]))
                    need(0 <= pos < k and 0 <= tok < a.shape[-1] and close(a[(pos,) + ix + (tok,)], allv[r], case), "sparse_sum rank %d: origin (%d, %d) has another value" % (r, pos, tok))
                    need((pos, tok) not in seen, "sparse_sum: same origin twice")
                    seen.add((pos, tok))
            return
        need(R[0].shape == R[1].shape, "%s: shapes differ" % op)
        for ix in np.ndindex(*R[0].shape):
            p, q = R[0][ix], R[1][ix]
            if n in ("max", "kmax") and op in ("one", "zero") and p <= -alg.BIG and q <= -alg.BIG:
                continue
            need(close(p, q, case), "%s: %s gives %r on one side, %r on the other" % (op, list(ix), p, q))

    def numeric(self, case, sums, V):
        n = case["sr"]
        g = lambda f, r: V[f[0]][(r,) + f[1]]
        if n == "std":
            return [sum(np.prod([g(f, 0) for f in p]) for p in sums)]
        if n in ("max", "kmax"):
            k = ssize(case)
            c = [sum(g(f, r) for f, r in zip(p, rs)) for p in sums for rs in itertools.product(range(k), repeat=len(p))]
            return sorted(c, reverse=True)[:k]
        tot = [[sum(g(f, r) for f in p) for p in sums] for r in range(SIZE[n])]
        part = [F.lse(np.array(x)) for x in tot[: max(1, SIZE[n] - 1)]]
        if n == "log":
            return part
        lp = np.array(tot[0]) - part[0]
        p = np.exp(lp)
        run = np.array(tot[-1])
        if n == "ent":
            return part + [(p * (run - lp)).sum()]
        lq = np.array(tot[1]) - part[1]
        if n == "ce":
            return part + [(p * (run - lq)).sum()]
        return part + [(p * (run - lq + lp)).sum()]


PROP = Laws()
