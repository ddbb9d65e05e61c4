from .c10 import *  # noqa
from .c10 import Sampling
from fractions import Fraction


class Noise:
    "Stand-in for Gumbel noise: consecutive entries of a given vector."

    def __init__(self, vec):
        self.vec, self.off, self.ranges = vec, 0, []

    def __enter__(self):
        G = torch.distributions.Gumbel
        self.had = {n: G.__dict__.get(n) for n in ("sample", "rsample")}
        me = self

        def sample(d, sample_shape=torch.Size()):
            shape = torch.Size(sample_shape) + d.batch_shape
            n = int(np.prod(shape)) if len(shape) else 1
            a = me.off
            me.off += n
            if me.vec is None:
                return torch.zeros(shape, dtype=torch.float64)
            return me.vec[a : a + n].view(shape)

        G.sample = G.rsample = sample
        return self

    def __exit__(self, *a):
        G = torch.distributions.Gumbel
        for n, f in self.had.items():
            if f is None:
                delattr(G, n)
            else:
                setattr(G, n, f)


class GumbelCRF(Sampling):
    pid = "C22"
    noun = "relaxed sample"
    bounds = "chain, semi-Markov, projective dependency and span-tree, and the relaxed semirings' own sums (family 'lines'); sizes and temperatures as in case_extent; potentials symbolic in [-100,100], every noise entry symbolic in [-50,50]"
    assumptions = ASSUME + [
        "the probability claim uses the Gumbel-max identity: the argmax of logits plus independent standard Gumbel noise is distributed as their softmax; that every decision has this form with noise of its own is checked"
    ]

    def cases(self, tier):
        out = [
            C("chain", 1, 2, C=2, temp=1.0),
            C("semi", 1, 2, K=2, C=2, temp=0.5),
            C("dep", 1, 2, multiroot=True, temp=1.0),
            C("tree", 1, 2, NT=2, temp=2.0),
            C("chain", 2, 3, C=2, lengths=[2, 3], temp=0.5),
            C("semi", 2, 3, K=3, C=1, lengths=[3, 2], temp=1.0),
            C("dep", 2, 3, multiroot=False, lengths=[3, 2], temp=0.25),
            C("tree", 2, 3, NT=1, lengths=[3, 2], temp=1.0),
            C("chain", 1, 4, C=2, temp=2.0, how="grad"),
            C("semi", 1, 3, K=3, C=2, temp=1.0, nograd=1),
            C("dep", 1, 3, multiroot=True, temp=1.0, how="nonleaf"),
            C("tree", 1, 4, NT=1, temp=0.5, nograd=1),
            C("chain", 1, 3, C=3, temp=1.0),
            C("dep", 1, 2, L=2, multiroot=True, temp=1.0),
            C("tree", 1, 3, NT=2, temp=4.0),
            C("chain", 2, 2, C=2, temp=1.0),
            C("chain", 2, 3, C=2, lengths=[3, 2], temp=0.5, sr="max"),
            C("semi", 1, 3, K=3, C=2, temp=1.0, sr="max"),
            C("tree", 2, 3, NT=2, lengths=[2, 3], temp=2.0, sr="max"),
        ]
        out += [
            C("chain", 2, 5, C=2, lengths=[5, 4], temp=1.0),
            C("semi", 1, 4, K=3, C=2, temp=1.0),
            C("dep", 1, 4, multiroot=False, temp=1.0),
            C("tree", 1, 5, NT=1, temp=1.0),
            C("chain", 3, 3, C=2, lengths=[2, 3, 2], temp=0.125),
            C("dep", 2, 4, multiroot=True, lengths=[3, 2], temp=3.0),
            C("chain", 5, 3, C=2, lengths=[2, 3, 2, 3, 3], temp=1.0),
            C("semi", 5, 3, K=3, C=1, lengths=[2, 3, 2, 3, 3], temp=2.0),
            C("dep", 5, 2, multiroot=True, lengths=[1, 2, 2, 1, 2], temp=1.0),
            C("tree", 5, 3, NT=1, lengths=[2, 3, 1, 3, 2], temp=0.5),
            C("chain", 1, 2, C=5, temp=1.0),
            C("chain", 1, 7, C=2, temp=1.0),
            C("chain", 1, 9, C=2, temp=1.0),
            C("chain", 2, 4, C=3, lengths=[4, 3], temp=1.0),
            C("semi", 1, 6, K=3, C=1, temp=1.0),
            C("semi", 2, 5, K=4, C=2, lengths=[4, 5], temp=1.0),
            C("dep", 1, 5, multiroot=True, temp=1.0),
            C("dep", 1, 5, multiroot=False, temp=1.0),
            C("dep", 1, 3, L=2, multiroot=False, temp=1.0),
            C("tree", 1, 6, NT=1, temp=1.0),
            C("tree", 2, 7, NT=1, lengths=[7, 5], temp=1.0),
        ]
        out += line_cases(tier, lambda i: [dict(temp=(1.0, 0.5, 3.0)[i % 3]), dict(temp=(0.25, 2.0)[i % 2], sr="max")])
        if tier == "thorough":
            out += [
                C("chain", 2, 6, C=2, lengths=[6, 3], temp=1.5),
                C("chain", 1, 4, C=3, temp=1.0),
                C("semi", 2, 5, K=3, C=2, lengths=[5, 4], temp=0.5),
                C("dep", 2, 4, multiroot=True, lengths=[4, 3], temp=1.0),
                C("tree", 2, 4, NT=2, lengths=[4, 3], temp=1.0),
            ]
        return [dict(c, n=1, k=0) for c in out]

    def values(self, case, seed=None):
        v = Prop.values(self, case, seed)
        with Noise(None) as m, grad_ctx(case):
            fam = self.fam(case)
            try:
                self.draw(case, fam.build(to_tensors(dict(case, how=None), v, ["x"])))
            except Exception:  # the comparison proper reports it
                pass
        rng = np.random.default_rng(900 + (seed or 0))
        v["G"] = rng.gumbel(size=max(m.off, 1))
        return v

    def draw(self, case, d):
        fam = self.fam(case)
        if case.get("sr") == "max":
            from torch_struct.semirings import GumbelMaxSemiring

            with torch.enable_grad():
                s = fam.structure(GumbelMaxSemiring(case["temp"])).marginals(d.log_potentials, lengths=d.lengths)
        else:
            s = d.gumbel_crf(case["temp"])
        shape_is(s, tuple(part_shapes(fam)[0]), "gumbel_crf")
        return s.detach().unsqueeze(0)

    def symbolic(self, case, sym):
        sym.ctx.bdd = Bdd()
        with sym, grad_ctx(case):
            fam, ts, cells, d = sym_dist(case, sym)
            G = sym.input("G", -50, 50).detach()
            noise = {a for c in sym.cells(G) for m in poly(c).t for a, _ in m}
            with Noise(G):
                c = sym.cells(self.draw(case, d))
        self.cells_, self.fam_ = cells, fam
        draws = self.decisions(case, sym, noise)
        if not draws and max(len(fam.structs(b)) for b in range(case["B"])) > 1:
            return self.weaker(case, sym, c)
        sym.e.draws = draws
        self.check(case, sym, c, 0)

    def decisions(self, case, sym, noise):
        "every maximum as a random choice: logits plus noise of its own"
        seen = set()
        out = []
        for ps, lits in sym.ctx.maxlog:
            L = []
            if not any(a in noise for p in ps for m in p.t for a, _ in m):
                continue  # not a random decision
            for p in ps:
                ns = [(m, k) for m, k in p.t.items() if any(a in noise for a, _ in m)]
                if len(ns) != 1 or len(ns[0][0]) != 1 or ns[0][0][0][1] != 1:
                    return None  # not logits plus noise of its own
                (m, k) = ns[0]
                if m in seen:
                    raise Candidate("two decisions share the noise entry %s" % sym.ctx.atoms[m[0][0]].name, sym.vals)
                seen.add(m)
                L.append(Poly({a: alg.num(Fraction(b) / Fraction(k)) for a, b in p.t.items() if a != m}))
            # only differences of logits matter: keep them near zero
            top = max(x.t.get((), 0) for x in L)
            if abs(top) > alg.BIG:
                L = [alg.padd(x, poly(-top)) for x in L]
            w = [poly(alg.pexp(alg.norm(x))) for x in L]
            tot = Poly({})
            for x in w:
                tot = alg.padd(tot, x)
            inv = poly(alg.div(1, alg.norm(tot)))
            probs = [alg.pmul(x, inv) for x in w]
            out.append({"probs": [probs], "sel": {(0, 0): {i: None for i in range(len(ps))}}, "lits": {(0, 0): lits}})
        return out

    def weaker(self, case, sym, c):
        "noise that is drawn or used in some other way: validity by the solver, frequencies on the real code"
        for b in range(case["B"]):
            phis = [event_is([c[0]], self.fam_, z, b) for z in self.fam_.structs(b)]
            sym.valid("relaxed sample of batch element %d is a structure" % b, bor(*phis))
        try:
            self.frequencies(case, sym.vals, 1500)
        except Fail as e:
            raise Candidate(str(e), sym.vals)

    def concrete(self, case, vals):
        self.frequencies(case, vals, 0 if self.light else 1500)

    def frequencies(self, case, vals, T):
        fam = self.fam(case)
        p = []
        for b in range(case["B"]):
            sc = F.score_vec(fam, vals, b)
            p.append(np.exp(sc - F.lse(sc)))
        ts = to_tensors(case, vals, ["x"])

        def one(vec):
            with Noise(vec), grad_ctx(case):
                s = self.draw(case, fam.build(ts))[0]
            ix = []
            for b in range(case["B"]):
                i = find_struct(fam, [s], b)
                need(i is not None, "relaxed sample of batch element %d is not a valid structure: nonzero at %s" % (b, nonzero([s], b)))
                ix.append(i)
            return ix

        G = torch.tensor(np.asarray(vals["G"]), dtype=torch.float64)
        one(G)
        torch.manual_seed(6)
        rng = np.random.default_rng(4)
        idx = np.array([one(torch.tensor(rng.gumbel(size=len(G)))) for _ in range(T or 40)])
        if not T:
            return
        for b in range(case["B"]):
            obs = np.bincount(idx[:, b], minlength=len(p[b])) / T
            sd = np.sqrt(p[b] * (1 - p[b]) / T)
            need((np.abs(obs - p[b]) <= 8 * sd + 4.0 / T).all(), "structures of batch element %d appear with frequency %s over %d noise vectors, model says %s" % (b, obs.round(3).tolist(), T, p[b].round(3).tolist()))
            for c in range(b):
                n = len(p[b])
                obs = np.bincount(idx[:, c] * n + idx[:, b], minlength=n * len(p[c])) / T
                q = np.outer(p[c], p[b]).reshape(-1)
                sd = np.sqrt(q * (1 - q) / T)
                need((np.abs(obs - q) <= 8 * sd + 4.0 / T).all(), "batch elements %d and %d are not sampled independently" % (c, b))


PROP = GumbelCRF()
