from .base import *  # noqa
from symtorch.alg import Fin, band, bnot, bor
from oracle import structures as S
import z3


def compact(fam, z, n):
    "compact form of a structure of length n (a list of n integers)"
    c = fam.c
    parts = sorted(ix for _, ix in z)
    if fam.name == "chain":
        out = [None] * n
        for t, c2, c1 in parts:
            out[t], out[t + 1] = c1, c2
        return out
    if fam.name == "semi":
        out = [-1] * n
        for t, k, c2, c1 in parts:
            out[t], out[t + k] = c1, c2
        return out
    out = [None] * n
    for h, m in parts:
        out[m] = 0 if h == m else h + 1
    return out


class Events(Prop):
    pid = "C13"
    bounds = "sizes and lengths as in case_extent; every label sequence, segmentation and head list (symbolic integers) for compact-to-event and back; every structure of the listed sizes for event-to-compact and back"
    assumptions = ["sizes and lengths are enumerated configurations", "entries of a compact form beyond the element's length are arbitrary valid integers and are not compared"]

    def cases(self, tier):
        out = []
        # compact -> event, all sequences in one symbolic run
        there = [
            C("chain", 1, 2, C=1),
            C("chain", 2, 2, C=3, lengths=[2, 2]),
            C("chain", 3, 4, C=3, lengths=[4, 2, 3]),
            C("chain", 2, 5, C=4),
            C("chain", 2, 6, C=3, lengths=[3, 6]),
            C("chain", 3, 3, C=5, lengths=[2, 3, 2], via="HMM"),
            C("dep", 1, 1),
            C("dep", 2, 2, lengths=[2, 1]),
            C("dep", 3, 3, lengths=[1, 3, 2]),
            C("dep", 2, 4, lengths=[4, 2]),
            C("dep", 2, 5),
            C("dep", 2, 4, lengths=[3, 1]),
            C("dep", 1, 6),
            C("semi", 1, 2, K=2, C=2),
            C("semi", 2, 3, K=3, C=2, lengths=[3, 2]),
            C("semi", 1, 4, K=3, C=3),
            C("semi", 2, 4, K=2, C=2, lengths=[2, 4]),
            C("semi", 1, 5, K=5, C=2),
            C("semi", 1, 5, K=3, C=4),
            C("chain", 2, 9, C=4, lengths=[9, 5]),
            C("chain", 6, 3, C=2, lengths=[2, 3, 2, 3, 3, 2]),
            C("chain", 1, 17, C=2),
            C("chain", 1, 3, C=11),
            C("dep", 2, 8, lengths=[8, 5]),
            C("dep", 6, 3, lengths=[1, 3, 2, 3, 1, 2]),
            C("semi", 2, 7, K=4, C=2, lengths=[5, 7]),
            C("semi", 5, 3, K=3, C=2, lengths=[2, 3, 2, 3, 3]),
        ]
        for c in there:
            out.append(dict(c, way="there"))
        # compact -> event -> compact (extraction enumerates the sequences)
        back = [
            C("chain", 1, 2, C=3),
            C("chain", 1, 3, C=2),
            C("chain", 2, 2, C=2),
            C("chain", 2, 3, C=2, lengths=[3, 2]),
            C("chain", 1, 4, C=2),
            C("dep", 1, 2),
            C("dep", 2, 2, lengths=[2, 1]),
            C("dep", 1, 3),
            C("dep", 2, 3, lengths=[1, 3]),
            C("semi", 1, 3, K=3, C=2),
            C("semi", 2, 3, K=2, C=1, lengths=[2, 3]),
            C("semi", 1, 4, K=3, C=1),
        ]
        for c in back:
            out.append(dict(c, way="back", maxpaths=200))
        # event -> compact -> event
        ev = [
            C("chain", 1, 2, C=3),
            C("chain", 2, 2, C=2),
            C("chain", 1, 3, C=2),
            C("chain", 2, 3, C=2, lengths=[2, 3]),
            C("chain", 1, 4, C=2),
            C("chain", 1, 3, C=3),
            C("dep", 1, 2),
            C("dep", 1, 3),
            C("dep", 2, 2, lengths=[1, 2]),
            C("dep", 2, 3, lengths=[3, 2]),
            C("dep", 1, 4, multiroot=False),
            C("semi", 1, 3, K=3, C=2),
            C("semi", 1, 4, K=3, C=1),
            C("semi", 2, 3, K=3, C=1, lengths=[3, 2]),
            C("semi", 1, 4, K=4, C=2),
        ]
        for c in ev:
            for k in ("log", "float") if c["N"] < 4 else ("log",):
                out.append(dict(c, way="event", maxpaths=200, dtype="float64" if k == "log" else "float32"))
        if tier == "thorough":
            out += [
                dict(C("chain", 2, 8, C=4, lengths=[8, 5]), way="there"),
                dict(C("dep", 2, 8, lengths=[8, 5]), way="there"),
                dict(C("semi", 1, 6, K=4, C=3), way="there"),
                dict(C("chain", 1, 5, C=3), way="back", maxpaths=400),
                dict(C("dep", 1, 4), way="back", maxpaths=700),
                dict(C("semi", 1, 5, K=3, C=2), way="back", maxpaths=400),
                dict(C("chain", 1, 5, C=3), way="event", maxpaths=400, dtype="float64"),
                dict(C("dep", 1, 4), way="event", maxpaths=400, dtype="float64"),
                dict(C("semi", 1, 5, K=3, C=2), way="event", maxpaths=400, dtype="float64"),
            ]
        return out

    def domain(self, case, ix):
        b, n = ix
        fam = self.fam(case)
        L = fam.length(b)
        if fam.name == "chain":
            return list(range(case["C"]))
        if fam.name == "dep":
            if n < L:
                return [h for h in range(L + 1) if h != n + 1]
            return [h for h in range(case["N"] + 1) if h != n + 1]
        if n == 0 or n == L - 1:
            return list(range(case["C"]))
        return [-1] + list(range(case["C"]))

    def values(self, case, seed=None):
        rng = np.random.default_rng(case.get("seed", 0) if seed is None else seed)
        B, N = case["B"], case["N"]
        fam = self.fam(case)
        if case["way"] == "event":
            return {"pick%d" % b: int(rng.integers(len(fam.structs(b)))) for b in range(B)}
        v = np.zeros((B, N), dtype=np.int64)
        for ix in np.ndindex(B, N):
            v[ix] = rng.choice([d for d in self.domain(case, ix) if d >= 0])
        return {"seq": v}

    def retries(self, case):
        "a few hundred compact forms / all structures, for the concrete fallback"
        out = [self.values(case, seed=s) for s in range(1, 60)]
        if case["family"] == "semi" and case["way"] != "event":
            rng = np.random.default_rng(5)
            for _ in range(100):
                v = np.zeros((case["B"], case["N"]), dtype=np.int64)
                for ix in np.ndindex(*v.shape):
                    v[ix] = rng.choice(self.domain(case, ix))
                out.append({"seq": v})
            out = [v for v in out if self.wide(case, v["seq"]) is False]
        return out

    def wide(self, case, seq):
        "does a segment of the compact form exceed the largest width?"
        for b, row in enumerate(seq):
            run = 0
            for n in range(1, self.fam(case).length(b)):
                run += 1
                if run > case["K"] - 1:
                    return True
                if row[n] != -1:
                    run = 0
        return False

    def dist(self, case):
        import torch_struct as ts

        fam = self.fam(case)
        x = torch.zeros(fam.shapes()[0][1])
        via = case.get("via")
        if via == "HMM":
            k = case["C"]
            return ts.HMM(torch.zeros(k, k), torch.zeros(2, k), torch.zeros(k), torch.zeros(case["B"], case["N"], dtype=torch.long))
        if via:
            return getattr(ts, via)(x)
        return fam.build([x], lengths=None)

    def extra(self, case):
        return {"chain": case.get("C"), "semi": (case.get("C"), case.get("K")), "dep": None}[case["family"]]

    def shape(self, case):
        return self.fam(case).shapes()[0][1]

    def run(self, case, seq):
        "event of a compact form, and the compact form of that event"
        lens = None if case.get("lengths") is None else torch.tensor(case["lengths"])
        d = self.dist(case)
        ev = d.to_event(seq, self.extra(case), lengths=lens)
        shape_is(ev, self.shape(case), "event")
        if case["way"] == "there":
            return ev, None
        r = d.from_event(ev)
        self.pair(case, r)
        return ev, r[0]

    def pair(self, case, r):
        need(isinstance(r, (tuple, list)) and len(r) == 2, "from_event: expected a pair")
        shape_is(r[0], (case["B"], case["N"]), "compact form")
        x = self.extra(case)
        need(tuple(r[1]) == x if isinstance(x, tuple) else r[1] == x, "from_event: extra information is %r, not %r" % (r[1], x))

    def is_part(self, case, b, ix, eq):
        "B: the compact form has this part; eq(n, v) is the literal 'entry n is v'"
        L = self.fam(case).length(b)
        if case["family"] == "chain":
            t, c2, c1 = ix
            return band(eq(t, c1), eq(t + 1, c2)) if t + 1 < L else alg.FALSE
        if case["family"] == "dep":
            h, m = ix
            return eq(m, 0 if h == m else h + 1) if m < L and h < L else alg.FALSE
        t, k, c2, c1 = ix
        if k == 0 or t + k >= L:
            return alg.FALSE
        return band(eq(t, c1), eq(t + k, c2), *[eq(q, -1) for q in range(t + 1, t + k)])

    def symbolic(self, case, sym):
        if case["way"] == "event":
            return self.event(case, sym)
        fam = self.fam(case)
        with sym:
            seq = sym.finite("seq", lambda ix: self.domain(case, ix))
            sc = sym.cells(seq)
            if fam.name == "semi":
                for b in range(case["B"]):
                    K, L = case["K"], fam.length(b)
                    for n in range(L - K + 1):
                        w = [sc[b, q] for q in range(n, n + K)]
                        if all(isinstance(x, Fin) for x in w):
                            sym.ctx.side.append(z3.Or([z3.Not(alg.bz(x.eq(-1))) for x in w]))
                    for n in range(1, L - K + 1):
                        # K-1 fillers between two labels make a segment of width K
                        w = [sc[b, q] for q in range(n, n + K - 1)]
                        sym.ctx.side.append(z3.Or([z3.Not(alg.bz(self.lit(x, -1))) for x in w]))
            ev, r = self.run(case, seq)
        sym.satisfiable("compact forms")
        ec = sym.cells(ev)
        for ix in np.ndindex(*ec.shape):
            b = ix[0]
            want = self.is_part(case, b, ix[1:], lambda n, v: self.lit(sc[b, n], v))
            what = "event entry %s" % list(ix)
            one, zero = alg.cmp_cells("eq", ec[ix], 1), alg.cmp_cells("eq", ec[ix], 0)
            sym.valid(what, bor(band(want, one), band(bnot(want), zero)))
        if r is not None:
            rc = sym.cells(r)
            for b in range(case["B"]):
                for n in range(fam.length(b)):
                    sym.valid("compact entry %s" % [b, n], alg.cmp_cells("eq", rc[b, n], sc[b, n]))

    def lit(self, x, v):
        return x.eq(v) if isinstance(x, Fin) else alg.TRUE if x == v else alg.FALSE

    def event(self, case, sym):
        fam = self.fam(case)
        lens = None if case.get("lengths") is None else torch.tensor(case["lengths"])
        sh = self.shape(case)
        v = np.zeros(sh)
        cells = np.empty(sh, dtype=object)
        picks = {}
        for b in range(case["B"]):
            zs = fam.structs(b)
            p = sym.choice("pick%d" % b, len(zs))
            picks[b] = [self.lit(p, i) for i in range(len(zs))]
            for ix in np.ndindex(*sh[1:]):
                on = bor(*[picks[b][i] for i, z in enumerate(zs) if (0, ix) in z])
                v[(b,) + ix] = float(on.v)
                cells[(b,) + ix] = 1 if on.z is True else 0 if on.z is False else Fin([(1, on), (0, bnot(on))])
        with sym:
            ev = torch.tensor(v, dtype=sym.dtype)
            sym.e.attach(ev, cells)
            d = self.dist(case)
            r = d.from_event(ev)
            self.pair(case, r)
            ev2 = d.to_event(r[0], self.extra(case), lengths=lens)
        shape_is(ev2, sh, "event")
        e2, rc = sym.cells(ev2), sym.cells(r[0])
        for ix in np.ndindex(*sh):
            sym.valid("event entry %s after a round trip" % list(ix), alg.cmp_cells("eq", e2[ix], cells[ix]))
        for b in range(case["B"]):
            n = fam.length(b)
            if n == 1 and fam.name == "chain":
                continue
            zs = fam.structs(b)
            for t in range(n):
                sym.valid("compact entry %s of the event" % [b, t], bor(*[band(g, alg.cmp_cells("eq", rc[b, t], compact(fam, z, n)[t])) for g, z in zip(picks[b], zs)]))

    def concrete(self, case, vals):
        fam = self.fam(case)
        lens = None if case.get("lengths") is None else torch.tensor(case["lengths"])
        if case["way"] == "event":
            ev = torch.zeros(self.shape(case), dtype=getattr(torch, case["dtype"]))
            for b in range(case["B"]):
                for _, ix in fam.structs(b)[int(vals["pick%d" % b])]:
                    ev[(b,) + ix] = 1
            d = self.dist(case)
            r = d.from_event(ev.clone())
            self.pair(case, r)
            ev2 = d.to_event(r[0], self.extra(case), lengths=lens)
            shape_is(ev2, self.shape(case), "event")
            need(torch.equal(ev2.double(), ev.double()), "event %s comes back as %s" % (ev.nonzero().tolist(), ev2.nonzero().tolist()))
            for b in range(case["B"]):
                n = fam.length(b)
                if n == 1 and fam.name == "chain":
                    continue
                want = compact(fam, fam.structs(b)[int(vals["pick%d" % b])], n)
                need(r[0][b, :n].tolist() == want, "compact form of batch element %d is %s, expected %s" % (b, r[0][b, :n].tolist(), want))
            return
        seq = np.asarray(vals["seq"]).astype(np.int64)
        if fam.name == "semi" and self.wide(case, seq):
            return
        ev, r = self.run(case, torch.tensor(seq))
        for ix in np.ndindex(*self.shape(case)):
            b = ix[0]
            want = self.is_part(case, b, ix[1:], lambda n, v: alg.TRUE if seq[b, n] == v else alg.FALSE).z
            need(float(ev[ix]) == float(want), "compact form %s: event entry %s is %s" % (seq.tolist(), list(ix), float(ev[ix])))
        if r is not None:
            for b in range(case["B"]):
                n = fam.length(b)
                need(r[b, :n].tolist() == seq[b, :n].tolist(), "compact form %s comes back as %s" % (seq[b, :n].tolist(), r[b, :n].tolist()))


PROP = Events()
