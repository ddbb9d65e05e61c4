from .base import *  # noqa
from symtorch.alg import Fin, band, bnot, bor


def nodes(fam, z):
    "labelled nodes (start, end, symbol) of a derivation or span tree"
    out = set()
    for t, ix in z:
        if fam.name == "tree":
            out.add(ix)
        elif t == 0:
            out.add((ix[0], ix[0], fam.c["NT"] + ix[1]))
        elif t == 3:
            out.add((ix[1], ix[1] + ix[0] + 1, ix[2]))
    return frozenset(out)


def placed(z_nodes, NT):
    "rule uses of a derivation with their place: (width - 1, start, symbol, left, right)"
    out = set()
    for i, j, a in z_nodes:
        for k in range(i, j):
            l = [x[2] for x in z_nodes if x[:2] == (i, k)]
            r = [x[2] for x in z_nodes if x[:2] == (k + 1, j)]
            if l and r:
                out.add((j - i - 1, i, a, l[0], r[0]))
    return out


class Derivations(Prop):
    pid = "C29"
    bounds = "every derivation (labelled binary tree) of the listed sizes as a symbolic choice; potentials of the score symbolic in [-100,100]"
    assumptions = ASSUME + ["the span charts given are those of complete derivations, with nothing outside the element's length"]

    def cases(self, tier):
        cfg = [
            C("cfg", 1, 2, NT=1, T=1),
            C("cfg", 1, 2, NT=2, T=2),
            C("cfg", 2, 2, NT=1, T=2),
            C("cfg", 1, 3, NT=1, T=2),
            C("cfg", 1, 3, NT=2, T=1),
            C("cfg", 2, 3, NT=1, T=1, lengths=[3, 2]),
            C("cfg", 2, 3, NT=2, T=1, lengths=[2, 3]),
            C("cfg", 1, 4, NT=1, T=1),
            C("cfg", 2, 4, NT=1, T=1, lengths=[4, 3]),
            C("cfg", 2, 4, NT=1, T=1, lengths=[3, 2]),
            C("cfg", 1, 4, NT=1, T=2),
            C("cfg", 1, 5, NT=1, T=1),
            C("cfg", 3, 3, NT=1, T=1, lengths=[2, 3, 2], dtype="float32"),
        ]
        tree = [
            C("tree", 1, 1, NT=2),
            C("tree", 1, 2, NT=2),
            C("tree", 2, 2, NT=1, lengths=[1, 2]),
            C("tree", 1, 3, NT=1),
            C("tree", 2, 3, NT=1, lengths=[3, 2]),
            C("tree", 1, 4, NT=1),
            C("tree", 2, 4, NT=1, lengths=[2, 4]),
            C("tree", 1, 3, NT=2),
        ]
        if tier == "thorough":
            cfg += [C("cfg", 1, 4, NT=2, T=1), C("cfg", 1, 6, NT=1, T=1), C("cfg", 2, 5, NT=1, T=1, lengths=[5, 4])]
            tree += [C("tree", 1, 5, NT=1), C("tree", 1, 6, NT=1)]
        out = [dict(c, q="parts", maxpaths=700) for c in cfg]
        out += [dict(c, q="spans", maxpaths=700) for c in cfg]
        out += [dict(c, q="graph", maxpaths=700) for c in cfg + tree if not c.get("dtype")]
        return out

    def symbols(self, case):
        return case["NT"] + (case["T"] if case["family"] == "cfg" else 0)

    def values(self, case, seed=None):
        seed = case.get("seed", 0) if seed is None else seed
        rng = np.random.default_rng(seed)
        fam = self.fam(case)
        v = fam.values(seed) if case["q"] == "parts" else {}
        v.update({"pick%d" % b: int(rng.integers(len(fam.structs(b)))) for b in range(case["B"])})
        return v

    def retries(self, case):
        return [self.values(case, seed=s) for s in range(1, 60)]

    def lens(self, case):
        return torch.tensor(case.get("lengths") or [case["N"]] * case["B"])

    def parts(self, case, fam, ts, chart):
        d = fam.build(ts)
        r = d.to_event(chart, (case["NT"], case["T"]), lengths=self.lens(case))
        need(isinstance(r, (tuple, list)) and len(r) == 3, "to_event: expected terminals, rules and roots")
        for p, (n, s) in zip(r, fam.shapes()):
            shape_is(p, s, "event part " + n)
        v = d.struct().score(ts, r)
        shape_is(v, (case["B"],), "score")
        return r, v

    def spans(self, case, terms, rules, roots):
        "span chart of an event whose rule uses are listed by place"
        import torch_struct as t

        r = t.CKY.from_parts((terms, rules, roots))
        need(isinstance(r, tuple) and len(r) == 2, "from_parts: expected a chart and the numbers of symbols")
        need(tuple(r[1]) == (case["NT"], case["T"]), "from_parts: symbol counts %s" % (r[1],))
        shape_is(r[0], (case["B"], case["N"], case["N"], self.symbols(case)), "span chart")
        return r[0]

    def graph(self, case, chart):
        "the nodes found by walking the graph of each element from its root"
        import torch_struct as t

        (n, a, b, label), index, topo = t.CKY.to_networkx(chart)
        need(len(a) == len(b), "graph: %d children for %d parents" % (len(a), len(b)))
        need(len(label) == n, "graph: %d labels for %d nodes" % (len(label), n))
        kids = {}
        for c, p in zip(a, b):
            kids.setdefault(int(p), []).append(int(c))
        need(all(len(k) == 2 for k in kids.values()), "graph: a node without exactly two children")
        found, seen, height = [], [], {}
        for e in range(case["B"]):
            need((e, 0) in index, "graph: batch element %d has no root" % e)
            out = []

            def walk(x, pos):
                seen.append(x)
                end, h = pos, 0
                if x in kids:
                    l, r = kids[x]
                    m = walk(l, pos)
                    end = walk(r, m + 1)
                    h = 1 + max(height[l], height[r])
                height[x] = h
                out.append((pos, end, int(label[x])))
                return end

            walk(int(index[e, 0][0]), 0)
            found.append(frozenset(out))
        need(sorted(seen) == list(range(n)), "graph: the roots reach the nodes %s of %d" % (sorted(seen), n))
        levels = {int(x): h for h, xs in enumerate(topo) for x in xs}
        need(sum(len(xs) for xs in topo) == n and levels == height, "graph: levels %s, heights %s" % (levels, height))
        return found

    def symbolic(self, case, sym):
        fam = self.fam(case)
        B, N, S = case["B"], case["N"], self.symbols(case)
        v = np.zeros((B, N, N, S))
        cells = np.empty(v.shape, dtype=object)
        picks = {}
        for b in range(B):
            zs = fam.structs(b)
            p = sym.choice("pick%d" % b, len(zs))
            picks[b] = [p.eq(i) if isinstance(p, Fin) else alg.TRUE for i in range(len(zs))]
            ns = [nodes(fam, z) for z in zs]
            for ix in np.ndindex(N, N, S):
                on = bor(*[picks[b][i] for i, z in enumerate(ns) if ix in z])
                v[(b,) + ix] = float(on.v)
                cells[(b,) + ix] = 1 if on.z is True else 0 if on.z is False else Fin([(1, on), (0, bnot(on))])
        if case["q"] == "spans":
            return self.placed_chart(case, sym, fam, picks, cells)
        with sym:
            chart = torch.tensor(v, dtype=sym.dtype)
            sym.e.attach(chart, cells)
            if case["q"] == "graph":
                found = self.graph(case, chart)
                for b in range(B):
                    want = bor(*[g for g, z in zip(picks[b], fam.structs(b)) if nodes(fam, z) == found[b]])
                    sym.valid("nodes of the graph of batch element %d" % b, want)
                return
            ts = [sym.input(n) for n, _ in fam.shapes()]
            pot = [sym.cells(t) for t in ts]
            parts, score = self.parts(case, fam, ts, chart)
        pc, sc = [sym.cells(p) for p in parts], sym.cells(score)
        for b in range(B):
            for t, c in enumerate(pc):
                for ix in np.ndindex(*c.shape[1:]):
                    ok = bor(*[band(g, alg.cmp_cells("eq", c[(b,) + ix], z.get((t, ix), 0))) for g, z in zip(picks[b], fam.structs(b))])
                    sym.valid("%s %s of batch element %d" % (("terminal", "rule", "root")[t], list(ix), b), ok)
            tot = [sym.score(pot, z, b, len(ts)) for z in fam.structs(b)]
            sym.valid("score of batch element %d" % b, bor(*[band(g, alg.cmp_cells("eq", sc[b], s)) for g, s in zip(picks[b], tot)]))

    def placed_chart(self, case, sym, fam, picks, want):
        B, N, NT, T, S = case["B"], case["N"], case["NT"], case["T"], self.symbols(case)
        shapes = [(B, N, T), (B, N, N, NT, S, S), (B, NT)]
        on = [{}, {}, {}]
        for b in range(B):
            for g, z in zip(picks[b], fam.structs(b)):
                for t, ix in z:
                    if t in (0, 2):
                        on[t].setdefault((b,) + ix, []).append(g)
                for ix in placed(nodes(fam, z), NT):
                    on[1].setdefault((b,) + ix, []).append(g)
        with sym:
            ts = []
            for t, sh in enumerate(shapes):
                v, cells = np.zeros(sh), np.empty(sh, dtype=object)
                cells.fill(0)
                for ix, gs in on[t].items():
                    g = bor(*gs)
                    v[ix] = float(g.v)
                    cells[ix] = 1 if g.z is True else 0 if g.z is False else Fin([(1, g), (0, bnot(g))])
                x = torch.tensor(v, dtype=sym.dtype)
                sym.e.attach(x, cells)
                ts.append(x)
            out = self.spans(case, *ts)
        oc = sym.cells(out)
        for ix in np.ndindex(*oc.shape):
            w = want[ix].eq(1) if isinstance(want[ix], Fin) else alg.TRUE if want[ix] == 1 else alg.FALSE
            one, zero = alg.cmp_cells("eq", oc[ix], 1), alg.cmp_cells("eq", oc[ix], 0)
            sym.valid("span %s of batch element %d" % (list(ix[1:]), ix[0]), bor(band(w, one), band(bnot(w), zero)))

    def concrete(self, case, vals):
        fam = self.fam(case)
        B, N, S = case["B"], case["N"], self.symbols(case)
        zs = [fam.structs(b)[int(vals.get("pick%d" % b, 0))] for b in range(B)]
        chart = torch.zeros(B, N, N, S, dtype=getattr(torch, case.get("dtype", "float64")))
        for b, z in enumerate(zs):
            for ix in nodes(fam, z):
                chart[(b,) + ix] = 1
        if case["q"] == "spans":
            NT, T = case["NT"], case["T"]
            terms, rules, roots = (torch.zeros(*sh, dtype=chart.dtype) for sh in ((B, N, T), (B, N, N, NT, S, S), (B, NT)))
            for b, z in enumerate(zs):
                for t, ix in z:
                    if t in (0, 2):
                        (terms if t == 0 else roots)[(b,) + ix] = 1
                for ix in placed(nodes(fam, z), NT):
                    rules[(b,) + ix] = 1
            got = self.spans(case, terms, rules, roots)
            need(bool((got == chart).all()), "span chart of the event of %s is on at %s" % ([sorted(nodes(fam, z)) for z in zs], np.argwhere(got.numpy()).tolist()))
            return
        if case["q"] == "graph":
            found = self.graph(case, chart)
            for b, z in enumerate(zs):
                need(found[b] == nodes(fam, z), "graph of batch element %d has nodes %s, the derivation has %s" % (b, sorted(found[b]), sorted(nodes(fam, z))))
            return
        ts = to_tensors(case, vals, [n for n, _ in fam.shapes()])
        parts, score = self.parts(case, fam, ts, chart)
        for b, z in enumerate(zs):
            for t, p in enumerate(parts):
                for ix in np.ndindex(*p.shape[1:]):
                    need(float(p[(b,) + ix]) == z.get((t, ix), 0), "derivation %s: %s %s of batch element %d is %s" % (sorted(nodes(fam, z)), ("terminal", "rule", "root")[t], list(ix), b, float(p[(b,) + ix])))
            want = sum(k * float(ts[t][(b,) + ix]) for (t, ix), k in z.items() if t < 3)
            need(close(score[b], want, case), "score[%d] = %r, sum of the potentials = %r" % (b, float(score[b]), want))


PROP = Derivations()
