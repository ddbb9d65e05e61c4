from .auto import *  # noqa


class LogProb(Auto):
    pid = "C18"
    bounds = "batch, length, classes, samples as in case_extent; every sequence, or chosen ones with a few symbolic logits where classes are many; next-token logits symbolic in [-100,100] per history, two state tensors, element-specific initial states"

    def cases(self, tier):
        out = []
        for norm in (1, 0):
            for form in ("onehot", "sparse"):
                for B, N, C, S, start in ((1, 1, 2, 0, 0), (1, 2, 2, 0, 1), (2, 2, 2, 3, 0), (2, 3, 2, 5, 1), (3, 1, 3, 2, 2), (1, 2, 3, 0, 0), (2, 2, 3, 4, 2), (3, 2, 2, 1, 1), (1, 4, 2, 0, 0), (6, 2, 2, 3, 1), (2, 2, 6, 5, 4), (1, 7, 2, 9, 1)):
                    out.append(dict(B=B, N=N, C=C, S=S, start=start, normalize=norm, form=form))
        out.append(dict(B=2, N=2, C=2, S=3, form="onehot"))
        out.append(dict(B=2, N=2, C=2, S=3, form="float", normalize=1, start=1))
        out.append(dict(B=2, N=2, C=3, S=2, form="onehot", normalize=1, how="grad"))
        out.append(dict(B=2, N=2, C=3, S=2, form="onehot", normalize=1, dtype="float32"))
        # more classes than fit in a byte; a few logits symbolic
        for norm in (1, 0):
            for form in ("onehot", "sparse"):
                for B, N, C, S, start in ((2, 3, 300, 4, 0), (3, 2, 260, 3, 258), (1, 12, 40, 3, 20)):
                    if norm and N > 3:
                        continue
                    few = [([], C - 1), ([], 1), ([C - 1], C - 1), ([C - 1, C - 1], C - 2)]
                    out.append(dict(B=B, N=N, C=C, S=S, start=start, normalize=norm, form=form, sb=B - 1, mod=23, few=few))
        if tier == "thorough":
            for form in ("onehot", "sparse"):
                out.append(dict(B=2, N=3, C=3, S=0, start=1, normalize=1, form=form))
                out.append(dict(B=2, N=4, C=2, S=0, start=1, normalize=1, form=form))
                out.append(dict(B=4, N=2, C=4, S=5, start=3, normalize=1, form=form))
                out.append(dict(B=1, N=5, C=2, S=0, start=0, normalize=1, form=form))
        return out

    def events(self, case):
        "sequences [sample][batch]: all of them (S=0), or S different ones per element"
        B = case["B"]
        if case.get("mod"):
            rng = np.random.default_rng(case.get("seed", 0) + 5)
            N, C = case["N"], case["C"]
            high = (C - 1, C - 1, C - 2)
            ev = [[tuple(int(x) for x in rng.integers(C, size=N)) for _ in range(B)] for _ in range(case["S"])]
            ev[0][case["sb"]] = (high + ev[0][case["sb"]])[:N]
            return ev
        ys = seqs(case)
        S = case["S"] or len(ys)
        rng = np.random.default_rng(case.get("seed", 0) + 5)
        if case["S"]:
            return [[ys[int(rng.integers(len(ys)))] for _ in range(B)] for _ in range(S)]
        return [[ys[(s + b) % len(ys)] for b in range(B)] for s in range(S)]

    def query(self, case, d):
        ev = self.events(case)
        if case["form"] == "sparse":
            v = torch.tensor(ev)
            r = d.log_prob(v, sparse=True)
        else:
            v = torch.tensor(np.array([[onehot(y, case["C"]) for y in row] for row in ev]))
            r = d.log_prob(v if case["form"] == "float" else v.long())
        shape_is(r, (len(ev), case["B"]), "log_prob")
        return r, ev

    def symbolic(self, case, sym):
        with sym:
            ts, cells = self.inputs(case, sym)
            r, ev = self.query(case, self.build(case, *ts))
        rc = sym.cells(r)
        for s, row in enumerate(ev):
            for b, y in enumerate(row):
                self.is_logprob(case, sym, "log_prob[%d][%d]" % (s, b), rc[s, b], b, y, cells)

    def concrete(self, case, vals):
        r, ev = self.query(case, self.build(case, *self.tensors(case, vals)))
        for s, row in enumerate(ev):
            for b, y in enumerate(row):
                w = sum(self.numeric_logp(case, vals, b, y[:t])[tok] for t, tok in enumerate(y))
                need(close(r[s, b], w, case), "log_prob[%d][%d] of %s = %r, the model gives %r" % (s, b, y, float(r[s, b]), w))


PROP = LogProb()
