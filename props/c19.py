from .auto import *  # noqa
from .c22 import Noise
import z3

MODE = {0: "lin", 1: "exp"}


class StepModel(torch.nn.Module):
    "Logits by batch element and step; keeps what it is given to read."

    def __init__(self, T, B):
        super().__init__()
        self.T, self.B, self.read = T, B, []

    def forward(self, inputs, state=None):
        (ids,) = state
        self.read.append(inputs)
        return self.T[ids].unsqueeze(1), (ids + self.B,)


class Search(Auto):
    pid = "C19"
    bounds = "batch, length, classes, beam width as in case_extent; next-token logits symbolic in [-100,100] per history (a few of them where few is given; of one batch element at a time where several exist), two state tensors; every feasible order of the scores is followed"

    def cases(self, tier):
        out = [
            dict(q="greedy", B=1, N=2, C=2, normalize=0),
            dict(q="greedy", B=1, N=2, C=3, normalize=1),
            dict(q="greedy", B=2, N=3, C=2, normalize=1, sb=1, start=1),
            dict(q="greedy", B=2, N=2, C=3, normalize=0, sb=0, start=2),
            dict(q="greedy", B=3, N=2, C=2, normalize=1, sb=2),
            dict(q="greedy", B=1, N=4, C=2, normalize=1),
            dict(q="greedy", B=2, N=2, C=2),
            dict(q="greedy", B=5, N=2, C=2, normalize=1, sb=3, start=1),
            dict(q="greedy", B=1, N=2, C=6, normalize=0, start=4),
            dict(q="greedy", B=2, N=6, C=2, normalize=0, sb=1),
            dict(q="beam", K=2, B=5, N=2, C=2, normalize=0, sb=3),
            dict(q="beam", K=2, B=1, N=1, C=6, normalize=1),
            dict(q="beam", K=1, B=1, N=2, C=3, normalize=0),
            dict(q="beam", K=2, B=1, N=1, C=2, normalize=1),
            dict(q="beam", K=2, B=1, N=2, C=2, normalize=0),
            dict(q="beam", K=2, B=1, N=2, C=2, normalize=1, start=1),
            dict(q="beam", K=2, B=2, N=2, C=2, normalize=0, sb=1),
            dict(q="beam", K=2, B=2, N=2, C=2, normalize=1, sb=0, start=1),
            dict(q="beam", K=3, B=1, N=2, C=2, normalize=0),
            dict(q="beam", K=3, B=1, N=1, C=3, normalize=1),
            dict(q="beam", K=2, B=1, N=3, C=2, normalize=0, maxpaths=700),
            dict(q="beam", K=2, B=2, N=3, C=2, normalize=0, sb=1, maxpaths=700),
            dict(q="beam", K=2, B=1, N=2, C=3, normalize=0, maxpaths=700),
            dict(q="beam", K=2, B=3, N=1, C=3, normalize=1, sb=2),
        ]
        out += [
            dict(q="beam", K=1, B=2, N=3, C=6, normalize=0, sb=1, few=[([], 5), ([], 1), ([5], 4), ([1], 5), ([5, 4], 3)]),
            dict(q="beam", K=2, B=1, N=2, C=6, normalize=0, sb=0, few=[([], 5), ([], 4), ([5], 4), ([4], 5)]),
            dict(q="beam", K=2, B=3, N=4, C=5, normalize=0, sb=2, start=3, few=[([], 4), ([4], 4), ([4, 4], 4)]),
            dict(q="beam", K=3, B=2, N=3, C=4, normalize=0, sb=0, start=1, few=[([], 3), ([3], 3)], maxpaths=400),
            dict(q="beam", K=5, B=1, N=2, C=5, normalize=0, sb=0, few=[([], 4), ([4], 3)], maxpaths=400),
            dict(q="greedy", B=2, N=4, C=7, normalize=0, sb=1, few=[([], 6), ([6], 5), ([6, 5], 6), ([6, 5, 6], 0)]),
        ]
        # more classes than fit in a byte
        out += [
            dict(q="greedy", B=2, N=2, C=300, normalize=0, sb=1, mod=23, few=[([], 299), ([299], 290)]),
            dict(q="beam", K=2, B=2, N=2, C=300, normalize=0, sb=1, mod=23, start=299, few=[([], 299), ([299], 290)]),
            dict(q="beam", K=1, B=1, N=3, C=270, normalize=0, sb=0, mod=23, few=[([], 260), ([260], 265), ([260, 265], 269)]),
        ]
        out += [
            dict(q="tempmax", alpha=1, B=1, N=2, C=3, normalize=0),
            dict(q="tempmax", alpha=2, B=2, N=3, C=2, normalize=0, start=1),
            dict(q="tempmax", alpha=3, B=1, N=2, C=2, normalize=1),
            dict(q="tempmax", alpha=0.5, B=1, N=2, C=2, normalize=0),
            dict(q="tempmax", alpha=2.5, B=1, N=3, C=2, normalize=1),
            dict(q="tempmax", alpha=1, B=2, N=2, C=3, normalize=1, start=2, maxpaths=400),
        ]
        if tier == "thorough":
            out += [
                dict(q="greedy", B=2, N=3, C=3, normalize=1, sb=1),
                dict(q="beam", K=3, B=1, N=2, C=3, normalize=0, maxpaths=5000),
                dict(q="beam", K=2, B=1, N=3, C=2, normalize=1, maxpaths=700),
                dict(q="beam", K=2, B=2, N=2, C=3, normalize=1, sb=1, maxpaths=1000),
                dict(q="beam", K=4, B=1, N=2, C=2, normalize=0, maxpaths=3000),
                dict(q="beam", K=3, B=2, N=2, C=2, normalize=1, sb=0, maxpaths=1000),
            ]
        return out

    def ids(self, case):
        return case["B"] * case["N"] if case["q"] == "tempmax" else Auto.ids(self, case)

    def build(self, case, T, V, u):
        if case["q"] != "tempmax":
            return Auto.build(self, case, T, V, u)
        return torch_struct.Autoregressive(StepModel(T, case["B"]), (torch.arange(case["B"]),), case["C"], case["N"], normalize=bool(case["normalize"]), start_class=case.get("start", 0))

    def logits(self, case, cells, b, prefix, add):
        if case["q"] != "tempmax":
            return Auto.logits(self, case, cells, b, prefix, add)
        return list(cells[0][len(prefix) * case["B"] + b])

    def query(self, case, d):
        B, N, C = case["B"], case["N"], case["C"]
        if case["q"] == "tempmax":
            with Noise(None):
                r = d.greedy_tempmax(case["alpha"])
            need(isinstance(r, tuple) and len(r) == 3, "greedy_tempmax returns a triple")
            shape_is(r[0], (B, N, C), "path")
            shape_is(r[1], (B,), "score")
            shape_is(r[2], (B, N, C), "step scores")
            read = d.model.read
            need(len(read) == N, "the model is asked %d times for %d steps" % (len(read), N))
            need(read[0].tolist() == [[case.get("start", 0)]] * B, "the first token read is not the start token")
            for x in read[1:]:
                shape_is(x, (B, 1, C), "soft token")
            self.read_ = read
            return [r[0].unsqueeze(0), r[1].unsqueeze(0), r[2]]
        if case["q"] == "greedy":
            r = d.greedy_max()
            need(isinstance(r, tuple) and len(r) == 3, "greedy_max returns a triple")
            shape_is(r[0], (B, N, C), "greedy path")
            shape_is(r[1], (B,), "greedy score")
            shape_is(r[2], (B, N, C), "greedy step scores")
            return [r[0].unsqueeze(0), r[1].unsqueeze(0), r[2]]
        r = d.beam_topk(case["K"])
        shape_is(r, (case["K"], B, N, C), "beam_topk")
        return [r, None, None]

    def reference(self, case, vals, b):
        "every outcome of the search on these numbers (several only if scores tie)"
        K = case.get("K", 1)
        runs = [([((), 0.0)], [])]
        for t in range(case["N"]):
            nxt = []
            for beam, hist in runs:
                ext = []
                for y, s in beam:
                    l = self.numeric_logp(case, vals, b, y)
                    ext += [(y + (c,), s + float(l[c])) for c in range(case["C"])]
                for sel in orders(ext, min(K, len(ext))):
                    nxt.append((sel, hist + [([e[0] for e in sel], [e[0] for e in ext if e not in sel])]))
                    if len(nxt) > 200:
                        break
            runs = nxt[:200]
        return runs

    def symbolic(self, case, sym):
        norm = case.get("normalize", 1)
        sym.ctx.fork = MODE[norm]
        with sym:
            ts, cells = self.inputs(case, sym)
            path, score, steps = self.query(case, self.build(case, *ts))
        pc = sym.cells(path)
        sc = sym.cells(score) if score is not None else None
        st = sym.cells(steps) if steps is not None else None
        conc = path.detach().numpy()
        for b in range(case["B"]):
            got = [conc[k, b] for k in range(conc.shape[0])]
            runs = [r for r in self.reference(case, sym.vals, b) if all(np.array_equal(onehot(y, case["C"]), g) for (y, _), g in zip(r[0], got))]
            if not runs:
                raise Candidate("search result of element %d" % b, sym.vals)
            err = None
            for sel, hist in runs:
                try:
                    self.prove(case, sym, b, [y for y, _ in sel], hist, cells, pc, sc, st)
                    break
                except Candidate as c:
                    err = err or c
            else:
                raise err
        if case["q"] == "tempmax":
            for t, x in enumerate(self.read_[1:]):
                x = sym.cells(x)
                for b in range(case["B"]):
                    es = [expo(alg.mul(case["alpha"], l)) for l in self.logits(case, cells, b, (0,) * t, alg.add)]
                    tot = Poly({})
                    for e in es:
                        tot = alg.padd(tot, e)
                    for c, e in enumerate(es):
                        sym.equal_ratio("weight of token %d of element %d after step %d" % (c, b, t), poly(x[b, 0, c]), e, tot)

    def prove(self, case, sym, b, final, hist, cells, pc, sc, st):
        total = {}

        def tot(y):
            if y not in total:
                s, steps = self.seq_terms(case, cells, b, y)
                if case.get("normalize", 1):
                    for l in steps:
                        s = alg.padd(s, poly(alg.logsumexp(l)), -1)
                total[y] = s
            return total[y]

        for k, y in enumerate(final):
            e = onehot(y, case["C"])
            for ix in np.ndindex(*e.shape):
                sym.valid("path %d of element %d" % (k, b), alg.cmp_cells("eq", pc[(k, b) + ix], int(e[ix])))
        for t, (sel, rest) in enumerate(hist):
            what = "step %d of element %d" % (t, b)
            for x, y in zip(sel, sel[1:]):
                sym.valid(what + ": order", alg.B(alg.order(tot(x), tot(y)), True))
            for y in rest:
                sym.valid(what + ": pruned prefix", alg.B(alg.order(tot(sel[-1]), tot(y)), True))
        if sc is not None:
            y = final[0]
            self.is_logprob(case, sym, "score of element %d" % b, sc[0, b], b, y, cells)
            for t in range(case["N"]):
                l = self.logits(case, cells, b, y[:t], alg.add)
                for c in range(case["C"]):
                    what = "step score [%d][%d][%d]" % (b, t, c)
                    if case.get("normalize", 1):
                        self.is_log(sym, what, st[b, t, c], poly(l[c]), [l])
                    else:
                        sym.equal(what, st[b, t, c], l[c])

    def concrete(self, case, vals):
        path, score, steps = self.query(case, self.build(case, *self.tensors(case, vals)))
        conc = path.detach().numpy()
        if case["q"] == "tempmax":
            for t, x in enumerate(self.read_[1:]):
                for b in range(case["B"]):
                    w = np.exp(case["alpha"] * (self.numeric_logp(case, vals, b, (0,) * t)))
                    need(np.allclose(x[b, 0].detach().numpy(), w / w.sum(), atol=1e-5), "element %d reads %s after step %d, expected %s" % (b, x[b, 0].tolist(), t, (w / w.sum()).tolist()))
        for b in range(case["B"]):
            runs = self.reference(case, vals, b)
            ok = None
            for sel, _ in runs:
                if all(np.allclose(onehot(y, case["C"]), conc[k, b]) for k, (y, _) in enumerate(sel)):
                    ok = sel
            need(
                ok is not None or len(runs) >= 200,
                "element %d: returned %s, the search yields %s" % (b, [np.argwhere(conc[k, b] != 0)[:, -1].tolist() for k in range(conc.shape[0])], [y for y, _ in runs[0][0]]),
            )
            if score is not None and ok:
                need(close(score[0, b], ok[0][1], case), "greedy score of element %d = %r, its path scores %r" % (b, float(score[0, b]), ok[0][1]))
                for t in range(case["N"]):
                    w = self.numeric_logp(case, vals, b, ok[0][0][:t])
                    for c in range(case["C"]):
                        need(close(steps[b, t, c], w[c], case), "step scores of element %d at step %d: %s, expected %s" % (b, t, steps[b, t].tolist(), w.tolist()))


def orders(ext, k):
    "all ways to list the k best (several only within ties)"
    if k == 0:
        yield []
        return
    m = max(s for _, s in ext)
    for e in ext:
        if e[1] >= m - 1e-9:
            for r in orders([x for x in ext if x is not e], k - 1):
                yield [e] + r


PROP = Search()
