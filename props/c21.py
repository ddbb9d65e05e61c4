from .base import *  # noqa
from .events import as_list

LAZY = ["partition", "marginals", "argmax", "max", "entropy", "count"]


def ask(fam, d, q, o, ev):
    "ask one query; list of result tensors"
    if q == "kmax":
        return [d.kmax(2)]
    if q == "topk":
        return flat(d.topk(2))
    if q == "log_prob":
        return [d.log_prob(ev)]
    if q == "ce":
        return [d.cross_entropy(o)]
    if q == "kl":
        return [d.kl(o)]
    if q == "sample":
        d.sample((2,))
        return []
    if q == "gumbel":
        d.gumbel_crf(1.0)
        return []
    r = getattr(d, q)
    return flat(r)


def flat(r):
    return [t for x in r for t in flat(x)] if isinstance(r, (tuple, list)) else [r]


class History(Prop):
    pid = "C21"
    bounds = "chain, semi-Markov, projective and non-projective dependency, span-tree and grammar distributions; each listed order of constructions and queries on up to three objects, with and without gradients enabled; potentials of both objects symbolic in [-100,100]"

    def cases(self, tier):
        smooth = {
            "chain": [C("chain", 2, 3, C=2, lengths=[2, 3]), C("chain", 1, 4, C=2, how="grad")],
            "semi": [C("semi", 2, 3, K=3, C=2, lengths=[3, 2]), C("semi", 1, 3, K=2, C=2, how="strided")],
            "dep": [C("dep", 2, 3, multiroot=True, lengths=[2, 3]), C("dep", 1, 3, multiroot=False, how="strided"), C("dep", 2, 3, lengths=[3, 1])],
            "tree": [C("tree", 2, 3, NT=2, lengths=[3, 2]), C("tree", 1, 3, NT=2, how="grad")],
            "cfg": [C("cfg", 2, 3, NT=1, T=2, lengths=[3, 2]), C("cfg", 1, 3, NT=2, T=1, how="grad")],
            "nonproj": [C("nonproj", 2, 3, multiroot=True, lengths=[2, 3]), C("nonproj", 2, 3, multiroot=False, lengths=[3, 2], how="grad"), C("nonproj", 1, 3, how="strided")],
        }
        hist = {
            # built first, other objects built and queried in between
            "others": "o.partition d.partition o.marginals d.marginals d.partition o.partition",
            "max": "d.argmax o.argmax d.max d.kmax d.argmax d.topk d.marginals d.partition",
            "maxother": "o.max d.max o.argmax d.argmax o.partition",
            "entropy": "d.entropy d.partition o.entropy d.entropy d.marginals",
            "pair": "d.ce d.kl d.partition o.partition d.entropy d.ce",
            "score": "d.log_prob d.partition d.count d.log_prob d.marginals o.count",
            "draws": "d.sample d.partition d.marginals d.sample d.log_prob d.argmax",
            "relaxed": "d.gumbel d.marginals d.partition d.gumbel d.max",
            "grad": "n.d.partition d.marginals n.d.argmax d.entropy d.partition",
            "grad2": "n.d.marginals d.partition n.d.entropy d.argmax n.d.count d.log_prob",
            "shared": "d.partition e.marginals d.marginals e.partition e.argmax d.argmax",
            "struct": "s.sum o.partition s.marginals s.sum d.partition t.sum s.sum s.marginals",
        }
        skip = {"cfg": ["pair", "score", "draws", "relaxed", "grad2", "struct"], "nonproj": ["max", "maxother", "entropy", "pair", "draws", "relaxed", "struct", "grad", "grad2", "score"]}
        extra = {"nonproj": {"ngrad": "n.d.partition d.marginals n.d.marginals d.partition", "nmarg": "d.marginals d.partition", "npart": "d.partition d.marginals o.partition d.partition"}}
        out = []
        for f, cs in smooth.items():
            for i, c in enumerate(cs):
                hs = {k: h for k, h in hist.items() if k not in skip.get(f, [])}
                hs.update(extra.get(f, {}))
                if f == "cfg":
                    hs["grad3"] = "n.d.partition d.marginals d.partition d.entropy"
                if f == "nonproj":
                    hs["shared"] = "d.partition e.marginals d.marginals e.partition"
                for k, h in hs.items():
                    if k in ("max", "maxother", "shared", "grad") and i > 0 and tier != "thorough" and f not in ("dep", "nonproj"):
                        continue
                    out.append(dict(c, steps=h))
        return out

    def values(self, case, seed=None):
        s = case.get("seed", 0) if seed is None else seed
        v = self.fam(case).values(s)
        for n, _ in self.fam(case).shapes():
            v[n + "2"] = self.fam(case).values(s + 500)[n]
        return v

    def other(self, case):
        c = dict(case)
        if case["family"] in ("dep", "nonproj"):
            c["multiroot"] = not case.get("multiroot", case["family"] == "dep")
        return F.Family(case["family"], c)

    def run(self, case, xs, ys, lens):
        """-> (results of the history, fresh results, lengths before/after)

        results: list of (step, object, query, [tensors])"""
        fam, ofam = self.fam(case), self.other(case)
        ev = None
        if case["family"] not in ("cfg", "nonproj"):
            ev = torch.zeros(fam.shapes()[0][1])
            for b in range(case["B"]):
                for (_, ix), k in fam.structs(b)[-1].items():
                    ev[(b,) + ix] = k
        steps = case["steps"].split()
        copy = lambda ts: [t.detach().clone() for t in ts]
        L = lambda: None if lens is None else lens.clone()
        fresh = {}
        for st in steps:
            name, q = st.rsplit(".", 2)[-2:]
            key = (name, q)
            if key in fresh or q in ("sample", "gumbel"):
                continue
            with torch.enable_grad():
                if name == "s":
                    fresh[key] = self.struct(case, fam, self.maker(fam), q, copy(xs), L())
                elif name == "t":
                    fresh[key] = self.struct(case, fam, self.maker(fam), q, copy(ys), L())
                else:
                    mine, his = (ofam, fam) if name == "o" else (fam, ofam)
                    a, b = (ys, xs) if name == "o" else (xs, ys)
                    oo = his.build(copy(b), lengths=L()) if q in ("ce", "kl") else None
                    fresh[key] = ask(mine, mine.build(copy(a), lengths=L()), q, oo, ev)
        # the history
        got = []
        objs = {"d": fam.build(xs, lengths=lens)}
        ev0 = None if ev is None else ev.clone()

        def obj(name):
            if name not in objs:
                objs[name] = {"o": lambda: ofam.build(ys, lengths=lens), "e": lambda: fam.build(xs, lengths=lens), "s": lambda: self.maker(fam), "t": lambda: obj("s")}[name]()
            return objs[name]

        if any(st.split(".")[-2] == "o" or st.endswith(".ce") or st.endswith(".kl") for st in steps):
            obj("o")  # built after d, before any query
        for i, st in enumerate(steps):
            parts = st.split(".")
            name, q = parts[-2:]
            with torch.no_grad() if parts[0] == "n" else torch.enable_grad():
                if name in "st":
                    r = self.struct(case, fam, obj(name), q, xs if name == "s" else ys, lens)
                else:
                    r = ask(ofam if name == "o" else fam, obj(name), q, objs.get("o"), ev)
            got.append((i, name, q, r))
        if ev is not None:
            need(bool((ev == ev0).all()), "a query changed the event passed in")
        return got, fresh

    def maker(self, fam):
        import torch_struct as ts_

        s = fam.structure(ts_.LogSemiring)
        if fam.name == "dep":
            s.multiroot = fam.c.get("multiroot", True)
        return s

    def struct(self, case, fam, s, q, ts, lens):
        return [getattr(s, q)(ts[0], lengths=lens)]

    def lens(self, case):
        return None if case.get("lengths") is None else torch.LongTensor(case["lengths"])

    def symbolic(self, case, sym):
        fam = self.fam(case)
        names = [n for n, _ in fam.shapes()]
        sym.ctx.same_ties = True
        sym.e.symbolic_draws = lambda *a: False
        lens = self.lens(case)
        with sym:
            torch.manual_seed(3)
            xs = [sym.input(n) for n in names]
            ys = [sym.input(n + "2") for n in names]
            before = [sym.cells(t).copy() for t in xs + ys]
            got, fresh = self.run(case, xs, ys, lens)
        if lens is not None:
            need(lens.tolist() == case["lengths"], "lengths changed to %s" % lens.tolist())
        for n, t, c in zip(names + [n + "2" for n in names], xs + ys, before):
            now = sym.cells(t)
            for ix in np.ndindex(*c.shape):
                sym.equal("potential %s%s is unchanged" % (n, list(ix)), now[ix], c[ix])
        memo = {}
        for i, name, q, r in got:
            if q in ("sample", "gumbel"):
                continue
            want = fresh[(name, q)]
            need(len(r) == len(want), "%s: number of results" % q)
            for k, (a, b) in enumerate(zip(r, want)):
                shape_is(a, tuple(b.shape), "step %d, %s.%s" % (i, name, q))
                ca, cb = sym.cells(a), sym.cells(b)
                for ix in np.ndindex(*cb.shape):
                    what = "step %d: %s.%s %s as asked fresh" % (i, name, q, list(ix))
                    self.same(sym, what, q, ca[ix], cb[ix])
        for i, name, q, r in got:
            # anchor: what was asked of the two objects is right, not only consistent
            if q == "partition" and case["family"] != "nonproj":
                f = self.other(case) if name == "o" else fam
                cells = before[len(names):] if name == "o" else before[: len(names)]
                pc = sym.cells(r[0])
                for b in range(case["B"]):
                    sym.equal_log("partition of %s, batch element %d" % (name, b), pc[b], sym.Z(cells, f.structs(b), b, len(cells)))

    def same(self, sym, what, q, a, b):
        if isinstance(a, Poly) and isinstance(b, Poly) and a.key() == b.key():
            sym.obl += 1
            solve.STATS.add("by_identity", 0.0)
            return
        if q in ("partition", "sum"):
            sym.equal_log_cells(what, a, b)
        elif q in ("argmax", "max", "kmax", "topk"):
            sym.valid(what, alg.cmp_cells("eq", a, b))
        elif q == "marginals" and sym.case["family"] == "nonproj":
            sym.equal(what, a, b)
        else:
            sym.equal_logs(what, alg.sub(a, b), 0, poly(1))

    def concrete(self, case, vals):
        fam = self.fam(case)
        names = [n for n, _ in fam.shapes()]
        lens = self.lens(case)
        torch.manual_seed(3)
        xs = to_tensors(case, vals, names)
        ys = to_tensors(case, vals, [n + "2" for n in names])
        before = [t.detach().clone() for t in xs + ys]
        got, fresh = self.run(case, xs, ys, lens)
        if lens is not None:
            need(lens.tolist() == case["lengths"], "lengths changed to %s" % lens.tolist())
        for n, t, c in zip(names + [n + "2" for n in names], xs + ys, before):
            need(bool((t.detach() == c).all()), "the queries changed the potentials %s from %s to %s" % (n, c.reshape(-1)[:8].tolist(), t.detach().reshape(-1)[:8].tolist()))
        for i, name, q, r in got:
            if q in ("sample", "gumbel"):
                continue
            want = fresh[(name, q)]
            need(len(r) == len(want), "%s: number of results" % q)
            for a, b in zip(r, want):
                shape_is(a, tuple(b.shape), "step %d, %s.%s" % (i, name, q))
                need(torch.allclose(a.detach(), b.detach(), rtol=1e-6, atol=1e-6), "%s: step %d, %s.%s = %s, asked fresh %s" % (case["steps"], i, name, q, a.detach().reshape(-1)[:8].tolist(), b.detach().reshape(-1)[:8].tolist()))
            if q == "partition" and fam.name != "nonproj":
                f = self.other(case) if name == "o" else fam
                v = {n: vals[n + "2"] for n in names} if name == "o" else vals
                for b in range(case["B"]):
                    w = F.lse(F.score_vec(f, v, b))
                    need(close(r[0][b], w, case), "%s: step %d, partition of %s = %r, brute force %r" % (case["steps"], i, name, float(r[0][b]), w))


from symtorch import solve  # noqa
import z3  # noqa

PROP = History()
