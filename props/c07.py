from .base import *  # noqa
from .events import *  # noqa
from . import large

SURPLUS = -5e4


class KBest(Prop):
    pid = "C07"
    bounds = "all five dynamic programs; k from 1 to more than the number of structures; sizes as in case_extent; potentials symbolic in [-100,100]; ties included; in cases with 'large' only that many parts of one element are symbolic, the others fixed, and one path per order of scores (margin 0.01)"

    def cases(self, tier):
        K = lambda c, k: dict(c, k=k)
        out = [
            K(C("chain", 1, 2, C=2), 1),
            K(C("semi", 1, 2, K=2, C=2), 2),
            K(C("dep", 1, 2, multiroot=True), 3),
            K(C("tree", 1, 2, NT=2), 2),
            K(C("cfg", 1, 2, NT=1, T=2), 2),
            K(C("chain", 1, 2, C=2), 3),
            K(C("chain", 2, 2, C=2, lengths=[2, 1], how="grad"), 2),
            K(C("chain", 1, 2, C=2), 5),
            K(C("chain", 2, 3, C=2, lengths=[3, 2]), 2),
            K(C("chain", 2, 3, C=2, lengths=[1, 3], nograd=1), 3),
            K(C("chain", 1, 3, C=2, how="nonleaf"), 4),
            K(C("chain", 1, 4, C=2, how="strided"), 2),
            K(C("chain", 1, 5, C=1), 2),
            K(C("semi", 2, 3, K=3, C=1, lengths=[3, 2]), 2),
            K(C("semi", 1, 3, K=2, C=2), 2),
            K(C("semi", 1, 3, K=3, C=2, nograd=1), 2),
            K(C("semi", 1, 4, K=4, C=1, how="grad"), 3),
            K(C("dep", 2, 2, multiroot=True, lengths=[2, 1]), 2),
            K(C("dep", 1, 2, multiroot=False, how="grad"), 2),
            K(C("dep", 1, 2, L=2, multiroot=True), 2),
            K(C("dep", 2, 3, multiroot=False, lengths=[3, 2]), 2),
            K(C("dep", 1, 3, multiroot=True, nograd=1), 2),
            K(C("tree", 2, 3, NT=1, lengths=[3, 2], how="strided"), 2),
            K(C("tree", 1, 3, NT=1), 3),
            K(C("tree", 1, 4, NT=1, nograd=1), 2),
            K(C("tree", 2, 2, NT=2, lengths=[2, 1]), 3),
            K(C("cfg", 2, 3, NT=1, T=1, lengths=[3, 2]), 2),
            K(C("cfg", 1, 2, NT=2, T=1, how="grad"), 2),
            K(C("chain", 1, 2, C=3), 2),
            K(C("chain", 1, 3, C=2, dtype="float32"), 2),
        ]
        if tier == "thorough":
            out += [
                K(C("chain", 2, 4, C=2, lengths=[4, 3]), 3),
                K(C("chain", 1, 5, C=2), 2),
                K(C("chain", 1, 2, C=3), 4),
                K(C("chain", 1, 3, C=3), 2),
                K(C("semi", 2, 4, K=3, C=2, lengths=[4, 3]), 2),
                K(C("semi", 1, 3, K=3, C=2), 4),
                K(C("dep", 1, 3, multiroot=True), 4),
                K(C("dep", 1, 4, multiroot=False), 2),
                K(C("tree", 1, 3, NT=2), 2),
                K(C("tree", 1, 4, NT=1), 5),
                K(C("cfg", 1, 3, NT=1, T=2), 2),
            ]
        for i, c in enumerate(large.large(["chain", "semi", "dep", "tree"], tier, untied=1, maxpaths=200 if tier == "thorough" else 12, nsym=1)):
            if c["family"] == "semi" and c["C"] * c["K"] > 12:
                continue
            if tier != "thorough" and c["seed"] == 2 and (c["family"] == "semi" or c.get("C", 0) > 3):
                continue
            wide = c.get("C", 0) > 3 or c.get("K", 0) > 3 or c.get("NT", 0) > 2
            out.append(dict(c, k=2 if wide else 2 + i % 3))
        return out

    def query(self, case, fam, d):
        k = case["k"]
        v = d.kmax(k)
        ev = d.topk(k)
        shape_is(v, (k, case["B"]), "kmax")
        if fam.name == "cfg":
            need(isinstance(ev, (tuple, list)) and len(ev) == 4, "topk: expected a tuple of four")
            sh = part_shapes(fam)[3]
            shape_is(ev[3], (k,) + sh, "topk spans")
            return v, [ev[3]]
        shape_is(ev, (k,) + tuple(fam.shapes()[0][1]), "topk")
        return v, [ev]

    def symbolic(self, case, sym):
        k = case["k"]
        if case.get("large"):
            sym.ctx.fork = "lin"  # one path per way the comparisons turn out
            sym.ctx.surplus = True
        with sym, grad_ctx(case):
            fam, ts, cells, d = sym_dist(case, sym)
            v, ev = self.query(case, fam, d)
        vc = sym.cells(v)
        evc = [sym.cells(e) for e in ev]
        cfg = fam.name == "cfg"
        for b in range(case["B"]):
            if case.get("large"):
                self.large(case, sym, fam, cells, vc, evc, b)
                continue
            zs = fam.structs(b)
            sc = [sym.score(cells, z, b, len(ts)) for z in zs]
            kk = min(k, len(zs))
            if cfg:
                ez = [{(0, ix): m for (t, ix), m in z.items() if t == 3} for z in zs]
            else:
                ez = zs
            distinct = len({tuple(sorted(z.items())) for z in ez}) == len(ez)
            sel = [[event_is(evc, fam, z, b, (r,)) for z in ez] for r in range(kk)]
            for r in range(kk):
                w = "rank %d of batch element %d" % (r, b)
                if r:
                    sym.valid(w + " not above the previous", alg.cmp_cells("ge", vc[r - 1, b], vc[r, b]))
                if cfg:
                    sym.valid(w + ": a derivation with that score and those spans", bor(*[band(x, alg.cmp_cells("eq", s, vc[r, b])) for x, s in zip(sel[r], sc)]))
                else:
                    sym.valid(w + " is a structure", bor(*sel[r]))
                    sym.valid(w + ": score", alg.B(event_score(sym, evc, cells, b, (r,)) == alg.to_z3(vc[r, b]), True))
                    # a length-one chain has several labellings with the same (empty) event
                    for q in range(r if distinct else 0):
                        sym.valid(w + " differs from rank %d" % q, bnot(band(*[bor(bnot(x), y) for x, y in zip(sel[r], sel[q])])))
            if cfg:
                for r in range(kk):
                    lt = [z3.And(alg.bz(alg.cmp_cells("gt", s, vc[r, b]))) for s in sc]
                    ge = [z3.And(alg.bz(alg.cmp_cells("ge", s, vc[r, b]))) for s in sc]
                    sym.valid("rank %d of batch element %d: value" % (r, b), alg.B(z3.And(z3.PbLe([(x, 1) for x in lt], r), z3.PbGe([(x, 1) for x in ge], r + 1)), True))
            else:
                last = vc[kk - 1, b]
                sym.valid(
                    "every structure not returned scores no more (batch element %d)" % b,
                    band(*[bor(alg.cmp_cells("le", s, last), *[sel[r][i] for r in range(kk)]) for i, s in enumerate(sc)]),
                )
            for r in range(kk, k):
                sym.valid("surplus rank %d of batch element %d" % (r, b), alg.cmp_cells("le", vc[r, b], SURPLUS))

    def large(self, case, sym, fam, cells, vc, evc, b):
        k = case["k"]
        sc = large.kscores(sym, fam, cells, b, k)
        kk = min(k, len(sc))
        for r in range(kk):
            w = "rank %d of batch element %d" % (r, b)
            above = [alg.bz(alg.cmp_cells("gt", s, vc[r, b])) for s in sc]
            least = [alg.bz(alg.cmp_cells("ge", s, vc[r, b])) for s in sc]
            sym.valid(w + ": value", alg.B(z3.And(z3.PbLe([(x, 1) for x in above], r), z3.PbGe([(x, 1) for x in least], r + 1)), True))
            for c in large.is_structure(fam, evc, b, (r,)):
                sym.valid(w + " is a structure", c)
            sym.valid(w + ": score", alg.B(event_score(sym, evc, cells, b, (r,)) == alg.to_z3(vc[r, b]), True))
            for q in range(r if fam.name != "chain" or fam.length(b) > 1 else 0):
                same = [alg.cmp_cells("eq", evc[0][(r, b) + ix], evc[0][(q, b) + ix]) for ix in np.ndindex(*evc[0].shape[2:])]
                sym.valid(w + " differs from rank %d" % q, bnot(band(*same)))
        for r in range(kk, k):
            sym.valid("surplus rank %d of batch element %d" % (r, b), alg.cmp_cells("le", vc[r, b], SURPLUS))

    def concrete(self, case, vals):
        k = case["k"]
        with grad_ctx(case):
            fam, ts, d = real_dist(case, vals)
            v, ev = self.query(case, fam, d)
        for b in range(case["B"]):
            if case.get("large"):
                self.large_concrete(case, vals, fam, v, ev, b)
                continue
            sc = F.score_vec(fam, vals, b)
            srt = np.sort(sc)[::-1]
            zs = fam.structs(b)
            seen = set()
            distinct = len({tuple(sorted(z.items())) for z in zs}) == len(zs)
            for r in range(k):
                if r >= len(sc):
                    need(float(v[r, b]) <= SURPLUS, "kmax[%d][%d] = %r but only %d structures exist" % (r, b, float(v[r, b]), len(sc)))
                    continue
                need(close(v[r, b], srt[r], case), "kmax[%d][%d] = %r, the score of that rank is %r" % (r, b, float(v[r, b]), srt[r]))
                arr = ev[0].detach().double().numpy()[r, b]
                if fam.name == "cfg":
                    ok = any(
                        close(s, srt[r], case) and all(abs(arr[ix] - z.get((3, ix), 0)) < 1e-6 for ix in np.ndindex(*arr.shape))
                        for z, s in zip(zs, sc)
                    )
                    need(ok, "topk spans[%d][%d] belong to no derivation of that score" % (r, b))
                    continue
                i = find_struct(fam, ev, b, (r,))
                need(i is not None, "topk[%d][%d] is not the indicator of a valid structure: nonzero at %s" % (r, b, nonzero(ev, b, (r,))))
                need(close(sc[i], srt[r], case), "topk[%d][%d] has score %r, the score of that rank is %r" % (r, b, sc[i], srt[r]))
                need(i not in seen or not distinct, "topk returns the same structure at two ranks (batch element %d)" % b)
                seen.add(i)

    def large_concrete(self, case, vals, fam, v, ev, b):
        top = large.kbest(case, fam, vals, b, case["k"])
        arr = ev[0].detach().double().numpy()[:, b]
        x = np.asarray(vals["x"])[b]
        for r in range(case["k"]):
            if r >= len(top):
                need(float(v[r, b]) <= SURPLUS, "kmax[%d][%d] = %r but only %d structures exist" % (r, b, float(v[r, b]), len(top)))
                continue
            need(close(v[r, b], top[r], case), "kmax[%d][%d] = %r, the score of that rank is %r" % (r, b, float(v[r, b]), top[r]))
            need(large.structure_inside(fam, arr[r], b), "topk[%d][%d] is not the indicator of a valid structure: nonzero at %s" % (r, b, nonzero(ev, b, (r,))))
            got = float((arr[r] * x).sum())
            need(close(got, top[r], case), "topk[%d][%d] has score %r, the score of that rank is %r" % (r, b, got, top[r]))
            for q in range(r if fam.name != "chain" or fam.length(b) > 1 else 0):
                need(not np.array_equal(arr[r], arr[q]), "topk returns the same structure at ranks %d and %d (batch element %d)" % (q, r, b))


PROP = KBest()
