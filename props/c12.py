from .base import *  # noqa
from .events import as_list, part_shapes


def cut_specs(fam, case, b, n):
    "index expressions that select element b cut to length n"
    sl = slice(b, b + 1)
    if fam.name == "chain" or fam.name == "semi":
        return [(sl, slice(0, n - 1))]
    if fam.name in ("dep", "tree", "nonproj"):
        return [(sl, slice(0, n), slice(0, n))]
    return [(sl, slice(0, n)), (sl,), (sl,)]


def cut_case(case, n):
    c = dict(case, B=1, N=n)
    c.pop("lengths", None)
    return c


class Independence(Prop):
    pid = "C12"
    bounds = "all five dynamic programs with lengths; sizes as in case_extent; batches up to 17 elements; potentials (padding included) symbolic in [-100,100]"

    def cases(self, tier):
        out = []
        smooth = ["partition", "marginals", "entropy"]
        for i, c in enumerate(table(["chain", "semi", "dep", "tree", "cfg"], tier, big=tier == "thorough")):
            if c.get("lengths") is None or c["B"] < 2:
                continue
            for q in smooth:
                out.append(dict(c, q=q))
        wide = [
            C("chain", 9, 3, C=2, lengths=[2, 3, 2, 2, 3, 3, 2, 3, 2]),
            C("chain", 6, 4, C=2, lengths=[4, 2, 3, 2, 3, 4]),
            C("semi", 7, 3, K=3, C=1, lengths=[3, 2, 2, 3, 2, 3, 3]),
            C("dep", 6, 3, multiroot=True, lengths=[1, 2, 3, 2, 3, 1]),
            C("dep", 9, 2, multiroot=False, lengths=[2, 1, 2, 1, 1, 2, 2, 1, 2]),
            C("tree", 9, 3, NT=1, lengths=[2, 3, 1, 3, 3, 2, 2, 1, 3]),
            C("cfg", 6, 3, NT=1, T=1, lengths=[2, 3, 2, 3, 3, 2]),
        ]
        for f, n, kw in (("chain", 4, dict(C=2)), ("semi", 4, dict(K=3, C=2)), ("dep", 3, dict(multiroot=True)), ("dep", 3, dict(multiroot=False)), ("tree", 4, dict(NT=2)), ("cfg", 3, dict(NT=1, T=2))):
            lo = 2 if f in ("chain", "semi", "cfg") else 1
            for B in (17, 8):
                wide.append(C(f, B, n, lengths=[int(l) for l in np.random.default_rng(B).integers(lo, n + 1, size=B - 1)] + [n], **kw))
        for c in wide:
            for q in smooth + ["max"]:
                out.append(dict(c, q=q))
        small = [
            C("chain", 2, 3, C=2, lengths=[2, 3]),
            C("chain", 3, 5, C=2, lengths=[5, 2, 4]),
            C("chain", 2, 3, C=3, lengths=[3, 2], how="grad"),
            C("semi", 2, 3, K=3, C=2, lengths=[3, 2]),
            C("semi", 2, 4, K=3, C=2, lengths=[3, 4], how="strided"),
            C("dep", 2, 3, multiroot=True, lengths=[2, 3]),
            C("dep", 2, 3, multiroot=False, lengths=[3, 2]),
            C("tree", 2, 3, NT=2, lengths=[3, 2]),
            C("tree", 3, 4, NT=1, lengths=[2, 4, 3]),
            C("cfg", 2, 3, NT=1, T=2, lengths=[2, 3]),
        ]
        for c in small:
            out.append(dict(c, q="max"))
            if c["family"] != "chain" or c["N"] < 5:
                out.append(dict(c, q="kmax"))
        out = [c for c in out if not (c["family"] in ("chain", "semi") and 1 in c["lengths"])]
        return out

    def ask(self, case, fam, d):
        q = case["q"]
        if q == "marginals":
            return as_list(fam, d.marginals, q)
        if q == "kmax":
            return [d.kmax(2)]
        return [getattr(d, q)]

    def both(self, case, fam, ts, d):
        "results of the batch and, per element, of the element alone"
        full = self.ask(case, fam, d)
        for i, o in enumerate(full):
            B = case["B"]
            want = {"marginals": part_shapes(fam)[i], "kmax": (2, B)}.get(case["q"], (B,))
            shape_is(o, want, case["q"])
        alone = []
        for b in range(case["B"]):
            n = fam.length(b)
            c1 = cut_case(case, n)
            f1 = F.Family(case["family"], c1)
            d1 = f1.build([t[ix] for t, ix in zip(ts, cut_specs(fam, case, b, n))])
            alone.append((n, f1, self.ask(case, f1, d1)))
        return full, alone

    def pairs(self, case, fam, full, alone):
        "(what, cell of the batch, cell of the element alone or None for padding)"
        q = case["q"]
        for b, (n, f1, one) in enumerate(alone):
            for t, (o, s) in enumerate(zip(full, one)):
                if q == "kmax":
                    for k in range(2):
                        yield b, t, (k,), o[k, b], s[k, 0]
                elif q == "marginals":
                    for ix in np.ndindex(*o.shape[1:]):
                        inside = all(i < m for i, m in zip(ix, s.shape[1:]))
                        yield b, t, ix, o[(b,) + ix], s[(0,) + ix] if inside else 0
                else:
                    yield b, t, (), o[b], s[0]

    def symbolic(self, case, sym):
        with sym, grad_ctx(case):
            fam, ts, cells, d = sym_dist(case, sym)
            full, alone = self.both(case, fam, ts, d)
        full = [sym.cells(o) for o in full]
        alone = [(n, f1, [sym.cells(o) for o in one]) for n, f1, one in alone]
        for b, t, ix, p, q in self.pairs(case, fam, full, alone):
            what = "%s%s of batch element %d in the batch and alone" % (case["q"], list(ix) if ix else "", b)
            if case["q"] == "partition":
                sym.equal_log_cells(what, p, q)
            elif case["q"] in ("max", "kmax"):
                sym.valid(what, alg.cmp_cells("eq", p, q))
            else:
                sym.equal_logs(what, alg.sub(p, q), 0, poly(1))

    def concrete(self, case, vals):
        with grad_ctx(case):
            fam, ts, d = real_dist(case, vals)
            full, alone = self.both(case, fam, ts, d)
        full = [o.detach().double().numpy() for o in full]
        alone = [(n, f1, [o.detach().double().numpy() for o in one]) for n, f1, one in alone]
        for b, t, ix, p, q in self.pairs(case, fam, full, alone):
            need(close(p, q, case, 1e-6 if case.get("dtype") != "float32" else 5e-3), "%s%s of element %d is %r in the batch, %r alone" % (case["q"], list(ix) if ix else "", b, p, q))


PROP = Independence()
