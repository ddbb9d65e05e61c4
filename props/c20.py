from .auto import *  # noqa
from symtorch.alg import Unsupported


class Noise:
    "Stand-in for Gumbel noise: the given tensors, one per call."

    def __init__(self, tensors):
        self.t = list(tensors)

    def __enter__(self):
        G = torch.distributions.Gumbel
        self.had = "sample" in G.__dict__
        self.old = G.sample
        me = self

        def sample(d, sample_shape=torch.Size()):
            if me.t and tuple(me.t[0].shape) == tuple(sample_shape) + tuple(d.batch_shape):
                return me.t.pop(0)
            return me.old(d, sample_shape)

        G.sample = sample
        return self

    def __exit__(self, *a):
        G = torch.distributions.Gumbel
        if self.had:
            G.sample = self.old
        else:
            del G.sample


class Scripted:
    "torch.multinomial following a script, recording the probability of every outcome"

    def __init__(self, script):
        self.script = list(script)
        self.log = []  # (picked, live outcomes, probability)

    def __enter__(self):
        self.old = torch.multinomial
        torch.multinomial = self.draw
        return self

    def __exit__(self, *a):
        torch.multinomial = self.old

    def draw(self, probs, num_samples, replacement=False, **kw):
        p = probs.detach().double()
        p = (p / p.sum(-1, keepdim=True)).reshape(-1, p.shape[-1])
        out = torch.zeros(p.shape[0], num_samples, dtype=torch.long)
        for r in range(p.shape[0]):
            live = [i for i in range(p.shape[1]) if p[r, i] > 0]
            for j in range(num_samples):
                k = self.script.pop(0) if self.script else live[0]
                self.log.append((k, live, float(p[r, k])))
                out[r, j] = k
        return out.reshape(tuple(probs.shape[:-1]) + (num_samples,))


def outcomes(run, limit=3000):
    "exact distribution of run() over all outcomes of its draws: {result: probability}"
    dist = {}
    work = [[]]
    n = 0
    while work:
        script = work.pop()
        with Scripted(script) as s:
            res = run()
        n += 1
        if n > limit or not s.log:
            return None
        pr = 1.0
        for i, (k, live, p) in enumerate(s.log):
            pr *= p
            if i >= len(script):
                base = [x[0] for x in s.log[:i]]
                work += [base + [o] for o in live if o != k]
        dist[res] = dist.get(res, 0.0) + pr
    return dist


class Sampling(Auto):
    pid = "C20"
    bounds = "batch, samples, length, classes as in case_extent; next-token logits symbolic in [-100,100] per history (a few of them where few is given); every outcome of every draw; for sampling without replacement every order the noise can produce"

    def cases(self, tier):
        out = []
        for S, B, N, C, start in ((1, 1, 1, 2, 0), (1, 1, 3, 2, 1), (2, 1, 2, 2, 0), (1, 2, 2, 2, 1), (2, 2, 1, 2, 0), (1, 1, 2, 3, 2), (3, 1, 1, 3, 1), (1, 3, 1, 2, 0), (3, 2, 1, 2, 1), (1, 5, 1, 2, 0), (1, 1, 1, 7, 3), (1, 1, 5, 2, 1), (1, 1, 2, 6, 2), (1, 1, 3, 4, 1)):
            out.append(dict(q="sample", S=S, B=B, N=N, C=C, start=start, maxpaths=300))
        out.append(dict(q="sample", S=2, B=2, N=2, C=2, start=1, maxpaths=300))
        out.append(dict(q="sample", S=2, B=1, N=2, C=2, how="grad", maxpaths=300))
        for K, B, N, C, norm, sb in ((1, 1, 2, 2, 0, None), (2, 1, 1, 2, 0, None), (2, 1, 2, 2, 0, None), (2, 2, 2, 2, 0, 1), (3, 1, 1, 3, 1, None), (2, 1, 2, 2, 1, None), (2, 3, 1, 3, 0, 2)):
            c = dict(q="wor", K=K, B=B, N=N, C=C, normalize=norm, maxpaths=400)
            if sb is not None:
                c["sb"] = sb
            out.append(c)
        for K, B, N, C, few in (
            (2, 2, 3, 5, [([], 4), ([4], 3), ([4, 3], 4)]),
            (3, 1, 2, 4, [([], 3), ([3], 3), ([3], 2)]),
            (4, 3, 2, 3, [([], 2), ([2], 2)]),
        ):
            out.append(dict(q="wor", K=K, B=B, N=N, C=C, normalize=0, sb=B - 1, few=few, maxpaths=400))
        out.append(dict(q="sample", S=1, B=1, N=1, C=260, start=258, sb=0, mod=23, few=[([], 259)], maxpaths=300))
        if tier == "thorough":
            out.append(dict(q="sample", S=1, B=2, N=3, C=2, start=1, maxpaths=300))
            out.append(dict(q="sample", S=2, B=1, N=2, C=3, start=1, maxpaths=300))
            out.append(dict(q="sample", S=1, B=1, N=5, C=2, start=1, maxpaths=300))
            out.append(dict(q="wor", K=2, B=1, N=3, C=2, normalize=0, maxpaths=700))
            out.append(dict(q="wor", K=3, B=1, N=2, C=2, normalize=0, maxpaths=700))
        return out

    def values(self, case, seed=None):
        v = super().values(case, seed)
        if case["q"] == "wor":
            rng = np.random.default_rng(77 + (seed or 0))
            v["G"] = rng.normal(size=(case["N"], case["K"], case["B"], case["C"]))
        return v

    def symbolic(self, case, sym):
        if case["q"] == "wor":
            return self.wor(case, sym)
        S, B, N, C = (case[k] for k in "SBNC")
        sym.ctx.fork = "lin"
        sym.e.symbolic_draws = lambda *a: True
        with sym:
            ts, cells = self.inputs(case, sym)
            r = self.build(case, *ts).sample((S,))
        shape_is(r, (S, B, N, C), "sample")
        draws = [(rec["probs"][i], k) for rec in sym.e.draws for (i, j), sel in sorted(rec["sel"].items()) for k in sel]
        if not draws:
            raise Unsupported("no random draw seen")
        rc = sym.cells(r)
        conc = r.detach().numpy()
        if "script" not in sym.vals:
            self.seen = {}
        out, s, Zs = [], Poly({}), poly(1)
        for i in range(S):
            for b in range(B):
                y = tuple(int(q) for q in conc[i, b].argmax(-1))
                out.append(y)
                e = onehot(y, C)
                for ix in np.ndindex(N, C):
                    sym.valid("sample[%d][%d] is one-hot" % (i, b), alg.cmp_cells("eq", rc[(i, b) + ix], int(e[ix])))
                t, steps = self.seq_terms(case, cells, b, y)
                s = alg.padd(s, t)
                for l in steps:
                    Zs = alg.pmul(Zs, self.expsum(l))
        p = poly(1)
        for row, k in draws:
            tot = Poly({})
            for x in row:
                tot = alg.padd(tot, poly(x))
            p = alg.pmul(p, poly(alg.div(row[k], alg.norm(tot))))
        n = expo(s)
        key = tuple(k for _, k in draws)
        if self.seen.setdefault(tuple(out), key) != key:
            raise Candidate("two outcomes of the draws give the same samples", sym.vals)
        sym.equal_ratio("probability of the samples %s" % out, alg.norm(p), n, Zs)

    def wor(self, case, sym):
        K, B, N, C = (case[k] for k in "KBNC")
        sym.ctx.fork = "exp" if case["normalize"] else "lin"
        sb = case.get("sb")
        mG = None
        if sb is not None:
            mG = np.zeros((N, K, B, C), dtype=bool)
            mG[:, :, sb] = not case.get("few")
        with sym:
            ts, cells = self.inputs(case, sym)
            G = sym.input("G", mask=mG)
            with Noise([G[t] for t in range(N)]):
                r = self.build(case, *ts).sample_without_replacement((K,))
        shape_is(r, (K, B, N, C), "sample_without_replacement")
        rc = sym.cells(r)
        conc = r.detach().numpy()
        for b in range(B):
            ys = []
            for k in range(K):
                y = tuple(int(q) for q in conc[k, b].argmax(-1))
                e = onehot(y, C)
                for ix in np.ndindex(N, C):
                    sym.valid("sequence [%d][%d] is one-hot" % (k, b), alg.cmp_cells("eq", rc[(k, b) + ix], int(e[ix])))
                if y in ys:
                    raise Candidate("sampling without replacement repeats a sequence", sym.vals)
                ys.append(y)

    def concrete(self, case, vals):
        B, N, C = (case[k] for k in "BNC")
        if case["q"] == "wor":
            K = case["K"]
            ts = self.tensors(case, vals)
            G = torch.tensor(np.asarray(vals["G"]))
            with Noise([G[t] for t in range(N)]):
                r = self.build(case, *ts).sample_without_replacement((K,)).detach()
            shape_is(r, (K, B, N, C), "sample_without_replacement")
            for b in range(B):
                ys = [tuple(r[k, b].argmax(-1).tolist()) for k in range(K)]
                for k, y in enumerate(ys):
                    need(np.allclose(onehot(y, C), r[k, b].numpy()), "sequence [%d][%d] is not one-hot: %s" % (k, b, r[k, b].tolist()))
                need(len(set(ys)) == K, "element %d: sampling without replacement returned %s" % (b, ys))
            return
        S = case["S"]
        ts = self.tensors(case, vals)
        d = self.build(case, *ts)

        def run():
            r = d.sample((S,)).detach()
            shape_is(r, (S, B, N, C), "sample")
            out = []
            for s in range(S):
                for b in range(B):
                    y = tuple(r[s, b].argmax(-1).tolist())
                    need(np.allclose(onehot(y, C), r[s, b].double().numpy()), "sample[%d][%d] is not one-hot: %s" % (s, b, r[s, b].tolist()))
                    out.append(y)
            return tuple(out)

        case = dict(case, normalize=1)
        lp = lambda b, y: sum(self.numeric_logp(case, vals, b, y[:t])[tok] for t, tok in enumerate(y))
        dist = outcomes(run)
        if dist is None:  # draws made some other way: only the support can be looked at
            for _ in range(20):
                run()
            return
        for out, p in dist.items():
            w = np.exp(sum(lp(i % B, y) for i, y in enumerate(out)))
            need(abs(p - w) <= 1e-6 + 1e-4 * w, "samples %s are returned with probability %r, the model gives %r" % (out, p, w))
        need(abs(sum(dist.values()) - 1) < 1e-6, "outcome probabilities sum to %r" % sum(dist.values()))


PROP = Sampling()
