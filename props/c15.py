from .base import *  # noqa
from symtorch.alg import Fin
from oracle import structures as S


class Adapters(Prop):
    pid = "C15"
    bounds = "numbers of states, symbols, positions, widths and batch elements as in case_extent; every table entry symbolic in [-100,100]; every observation sequence (symbolic integers) for the scores, listed ones for the likelihood"
    assumptions = ASSUME[:3]

    def cases(self, tier):
        H = lambda B, N, C, V, **k: dict(kind="hmm", B=B, N=N, C=C, V=V, **k)
        M = lambda B, N, K, C, **k: dict(kind="hsmm", B=B, N=N, K=K, C=C, **k)
        out = [
            H(1, 2, 1, 1),
            H(1, 2, 2, 2),
            H(2, 2, 2, 3),
            H(1, 3, 2, 2),
            H(2, 3, 3, 2, how="strided"),
            H(1, 4, 2, 3, how="grad"),
            H(2, 4, 2, 2, lengths=[4, 2]),
            H(2, 3, 2, 3, lengths=[1, 3]),
            H(1, 5, 2, 2),
            H(1, 3, 4, 5),
            H(3, 3, 2, 4, lengths=[3, 2, 1], how="offset"),
            H(2, 4, 3, 2, how="nonleaf"),
            H(1, 2, 3, 4, dtype="float32"),
            H(6, 3, 2, 3, lengths=[2, 3, 1, 3, 2, 3]),
            H(1, 9, 2, 2),
            H(2, 4, 5, 6),
            M(5, 2, 3, 2),
            M(5, 3, 3, 2, each=1, lengths=[4, 2, 3, 4, 3]),
            M(1, 7, 4, 2),
            M(1, 1, 2, 1),
            M(1, 2, 2, 2),
            M(2, 2, 3, 2),
            M(2, 3, 2, 3, each=1),
            M(3, 2, 2, 2, each=1, how="strided"),
            M(2, 3, 3, 2, lengths=[4, 3]),
            M(2, 3, 4, 2, lengths=[3, 4], each=1),
            M(1, 4, 3, 2, how="grad"),
            M(2, 2, 3, 2, each=1, how="offset"),
            M(2, 2, 2, 3, each=1, dtype="float32"),
        ]
        if tier == "thorough":
            out += [H(2, 5, 3, 3, lengths=[5, 4]), H(1, 6, 2, 3), H(2, 4, 4, 4), M(2, 4, 4, 2, each=1), M(1, 5, 3, 2), M(2, 3, 4, 3, lengths=[4, 3])]
        return [dict(c, q=q) for c in out for q in (("score", "likelihood") if c["N"] * c["C"] < 13 else ("score",))]

    def shapes(self, case):
        c = case
        if c["kind"] == "hmm":
            return [("transition", (c["C"], c["C"])), ("emission", (c["V"], c["C"])), ("init", (c["C"],))]
        return [
            ("init", (c["B"], c["C"]) if c.get("each") else (c["C"],)),
            ("transition", (c["C"], c["C"])),
            ("duration", (c["C"], c["K"])),
            ("emission", (c["B"], c["N"], c["K"], c["C"])),
        ]

    def values(self, case, seed=None):
        rng = np.random.default_rng(case.get("seed", 0) if seed is None else seed)
        v = {n: rng.normal(size=s) for n, s in self.shapes(case)}
        if case["kind"] == "hmm":
            v["observations"] = rng.integers(0, case["V"], size=(case["B"], case["N"]))
        return v

    def dist(self, case, t):
        import torch_struct as ts

        lens = None if case.get("lengths") is None else torch.tensor(case["lengths"])
        if case["kind"] == "hmm":
            return ts.HMM(t["transition"], t["emission"], t["init"], t["observations"], lengths=lens)
        edges = ts.SemiMarkov.hsmm(t["init"], t["transition"], t["duration"], t["emission"])
        shape_is(edges, (case["B"], case["N"], case["K"], case["C"], case["C"]), "edge scores")
        return ts.SemiMarkovCRF(edges, lengths=lens)

    def length(self, case, b):
        full = case["N"] + (case["kind"] == "hsmm")
        return full if case.get("lengths") is None else case["lengths"][b]

    def structs(self, case, b):
        n = self.length(case, b)
        if case["kind"] == "hmm":
            return [(z, {(t, z[t + 1], z[t]): 1 for t in range(n - 1)}) for z in itertools.product(range(case["C"]), repeat=n)]
        return [(z, {ix: k for (_, ix), k in z.items()}) for z in S.semimarkov(n, case["K"], case["C"])]

    def terms(self, case, b, z, cells):
        "the table entries whose sum is the documented log-probability"
        out = []
        if case["kind"] == "hmm":
            out.append(cells["init"][z[0]])
            for a, c in zip(z, z[1:]):
                out.append(cells["transition"][c, a])
            for n, s in enumerate(z):
                out.append(self.emit(cells, cells["observations"][b, n], s))
            return out
        for (_, (n, k, c2, c1)), _m in z.items():
            if n == 0:
                out.append(cells["init"][b, c1] if case.get("each") else cells["init"][c1])
            out += [cells["transition"][c1, c2], cells["duration"][c2, k], cells["emission"][b, n, k, c2]]
        return out

    def emit(self, cells, o, s):
        if isinstance(o, Fin):
            return alg.mkite([(g, cells["emission"][v, s]) for v, g in o.alts])
        return cells["emission"][int(o), s]

    def symbolic(self, case, sym):
        with sym, torch.enable_grad():
            t = {n: sym.input(n) for n, _ in self.shapes(case)}
            if case["kind"] == "hmm":
                if case["q"] == "score":
                    t["observations"] = sym.finite("observations", lambda ix: list(range(case["V"])))
                else:
                    t["observations"] = torch.tensor(self.values(case)["observations"])
            d = self.dist(case, t)
            r = d.partition if case["q"] == "likelihood" else None
        cells = {n: sym.cells(x) for n, x in t.items()}
        if case["q"] == "likelihood":
            rc = sym.cells(r)
            for b in range(case["B"]):
                Z = {}
                for z, _ in self.structs(case, b):
                    s = Poly({})
                    for x in self.terms(case, b, z, cells):
                        s = alg.padd(s, poly(x))
                    alg._addt(Z, alg.pexp_parts(s)[1], 1)
                if case["kind"] == "hmm" and self.length(case, b) == 1:
                    continue  # no edge carries the only position
                sym.equal_log("likelihood of batch element %d" % b, rc[b], Poly(Z))
            return
        ec = sym.cells(d.log_potentials)
        for b in range(case["B"]):
            if self.length(case, b) == 1:
                continue
            for z, parts in self.structs(case, b):
                diff = 0
                for ix in parts:
                    diff = alg.add(diff, ec[(b,) + ix])
                for x in self.terms(case, b, z, cells):
                    diff = alg.sub(diff, x)
                self.zero(sym, "score of %s of batch element %d" % (z, b), diff)

    def zero(self, sym, what, diff):
        "diff == 0; a linear query over table entries and selected emissions"
        import z3

        p = poly(diff)
        for m in p.t:
            for a, _ in m:
                alg.note_defs(a)
        sym.valid(what, alg.B(alg.to_z3(p) == 0, abs(p.val()) < 1e-4))

    def concrete(self, case, vals):
        dt = getattr(torch, case.get("dtype", "float64"))
        t = {n: torch.tensor(np.asarray(v), dtype=None if n == "observations" else dt) for n, v in vals.items() if isinstance(v, np.ndarray)}
        tol = 1e-6 if dt == torch.float64 else 1e-3
        d = self.dist(case, t)
        lp = d.log_potentials.double().numpy()
        Z = d.partition if case["q"] == "likelihood" else None
        for b in range(case["B"]):
            if self.length(case, b) == 1:
                continue
            want = []
            for z, parts in self.structs(case, b):
                w = float(sum(self.terms(case, b, z, vals)))
                want.append(w)
                g = float(sum(lp[(b,) + ix] for ix in parts))
                need(abs(g - w) <= tol * (1 + abs(w)), "score of %s of batch element %d is %r, log-probability %r" % (z, b, g, w))
            if Z is not None:
                need(abs(float(Z[b]) - F.lse(np.array(want))) <= max(tol, 1e-5) * (1 + abs(float(Z[b]))), "likelihood[%d] = %r, sum over structures %r" % (b, float(Z[b]), F.lse(np.array(want))))


PROP = Adapters()
