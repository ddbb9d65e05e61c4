from .base import *  # noqa
from . import large
from .events import event_is  # noqa


def stack_events(fam, case):
    "Every structure of every element, laid out as sample x batch x event (index lists and array)."
    B = case["B"]
    if case.get("large"):
        rng = np.random.default_rng(case["seed"])
        zs = [[large.one_structure(case, fam, b, rng) for _ in range(4)] for b in range(B)]
    else:
        zs = [fam.structs(b) for b in range(B)]
    n = max(len(z) for z in zs)
    sel = [[zs[b][(s + 3 * b) % len(zs[b])] for b in range(B)] for s in range(n)]
    arr = np.zeros((n,) + tuple(fam.shapes()[0][1]))
    for s in range(n):
        for b in range(B):
            for (t, ix), k in sel[s][b].items():
                arr[(s, b) + ix] += k
    return sel, arr


class LogProb(Prop):
    pid = "C11"
    bounds = "chain, semi-Markov, projective dependency and span-tree; every structure; sizes as in case_extent; potentials symbolic in [-100,100]; in cases with 'large' only that many parts per element and some of the padding are symbolic, the others zero, and four structures per element are scored"

    def cases(self, tier):
        out = []
        kinds = ["plain", "two", "long", "none", "bool", "expanded", "int32"]
        for i, c in enumerate(table(["chain", "semi", "dep", "tree"], tier) + systematic(["chain", "semi", "dep", "tree"], 300 if tier == "thorough" else 70)):
            fam = F.Family(c["family"], c)
            n = max(len(fam.structs(b)) for b in range(c["B"]))
            if n > 400:
                continue
            out.append(dict(c, ev=kinds[i % len(kinds)]))
            out.append(dict(c, ev=kinds[(i + 1 + i // 7) % len(kinds)]))
        for i, c in enumerate(large.large(["chain", "semi", "dep", "tree"], tier, heavy=True)):
            out.append(dict(c, ev=kinds[i % len(kinds)]))
        return out

    def events(self, case, fam):
        "(event tensor handed to log_prob, list of (index, structures))"
        import torch

        sel, arr = stack_events(fam, case)
        ev = case["ev"]
        t = torch.tensor(arr, dtype=getattr(torch, case.get("dtype", "float64")))
        if ev == "long":
            t = t.long()
        if ev == "int32":
            t = t.int()
        if ev == "bool":
            t = t.bool()
        if ev == "none":
            return t[len(sel) // 2], [((), sel[len(sel) // 2])]
        if ev == "two":
            t = torch.stack([t, t.flip(0)], 1)
            return t, [((s, j), sel[s] if j == 0 else sel[len(sel) - 1 - s]) for s in range(len(sel)) for j in (0, 1)]
        if ev == "expanded":
            t = t.unsqueeze(1).expand(t.shape[0], 3, *t.shape[1:])
            return t, [((s, j), sel[s]) for s in range(len(sel)) for j in range(3)]
        return t, [((s,), sel[s]) for s in range(len(sel))]

    def symbolic(self, case, sym):
        with sym, grad_ctx(case):
            fam, ts, cells, d = sym_dist(case, sym)
            ev, want = self.events(case, fam)
            lp = d.log_prob(ev)
            part = d.partition
        shape_is(lp, tuple(ev.shape[: -len(fam.shapes()[0][1]) + 1]), "log_prob")
        lc, pc = sym.cells(lp), sym.cells(part)
        Zs = []
        for b in range(case["B"]):
            Zs.append(sym.log_partition("log-partition of batch element %d" % b, pc[b], large.sum_poly(sym, fam, cells, b) if case.get("large") else sym.Z(cells, fam.structs(b), b, 1))[1])
        for pre, zs in want:
            for b in range(case["B"]):
                w = Poly({sym.weight(cells, zs[b], b, 1): 1})
                sym.equal_log_ratio("log_prob of event %s, batch element %d" % (pre, b), lc[pre + (b,)], w, Zs[b])

    def concrete(self, case, vals):
        with grad_ctx(case):
            fam, ts, d = real_dist(case, vals)
            ev, want = self.events(case, fam)
            lp = d.log_prob(ev)
        shape_is(lp, tuple(ev.shape[: -len(fam.shapes()[0][1]) + 1]), "log_prob")
        lp = lp.detach().double().numpy()
        arrs = np.asarray(vals["x"])
        for b in range(case["B"]):
            lz = np.log(large.total(fam, vals, b)) if case.get("large") else F.lse(F.score_vec(fam, vals, b))
            for pre, zs in want:
                s = sum(k * arrs[(b,) + ix] for (t, ix), k in zs[b].items()) - lz
                need(close(lp[pre + (b,)], s, case), "log_prob%s = %r, brute force = %r" % (list(pre) + [b], lp[pre + (b,)], s))


PROP = LogProb()
