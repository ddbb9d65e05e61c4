from .base import *  # noqa
from .events import *  # noqa
from . import large


class Max(Prop):
    pid = "C06"
    bounds = "all five dynamic programs; sizes as in case_extent; potentials symbolic in [-100,100]; ties included; in cases with 'large' only that many parts of one element are symbolic, the others fixed, and one path per order of scores (margin 0.01)"

    def cases(self, tier):
        out = [dict(c, mode=1) if i % 3 == 1 else c for i, c in enumerate(small_table(["chain", "semi", "dep", "tree", "cfg"], tier))]
        for c in large.large(["chain", "semi", "dep", "tree"], tier, untied=1, maxpaths=200):
            if c["family"] == "semi" and c["C"] * c["K"] > 10:
                continue
            wide = c["family"] == "semi" and c["C"] * c["K"] > 5 or c.get("C", 0) > 4 or (c["N"] > 7 and c["seed"] == 2) or c["N"] == 12
            out.append(dict(c, large=1 if wide else 2))
        return out

    def symbolic(self, case, sym):
        if case.get("large"):
            sym.ctx.fork = "lin"  # one path per way the comparisons turn out
        with sym, grad_ctx(case):
            fam, ts, cells, d = sym_dist(case, sym)
            v = d.max
            ev = as_list(fam, d.argmax, "argmax")
            if case.get("mode"):
                ev = as_list(fam, d.mode, "mode")
        shape_is(v, (case["B"],), "max")
        check_shapes(fam, ev, "argmax")
        vc = sym.cells(v)
        evc = [sym.cells(o) for o in ev]
        for b in range(case["B"]):
            if case.get("large"):
                sc = large.scores(sym, fam, cells, b)
                m, defn = sym.fresh_max("best%d" % b, sc)
                sym.valid("max of batch element %d" % b, alg.cmp_cells("eq", vc[b], m), defn)
                if fam.name != "cfg":
                    for c in large.is_structure(fam, evc, b):
                        sym.valid("argmax of batch element %d is a structure" % b, c)
                tot = event_score(sym, evc, cells, b)
                sym.valid("argmax of batch element %d has the best score" % b, alg.B(tot == alg.to_z3(vc[b]), True))
                continue
            zs = fam.structs(b)
            sc = [sym.score(cells, z, b, len(ts)) for z in zs]
            m, defn = sym.fresh_max("best%d" % b, sc)
            sym.valid("max of batch element %d" % b, alg.cmp_cells("eq", vc[b], m), defn)
            sym.valid("argmax of batch element %d is a structure" % b, bor(*[event_is(evc, fam, z, b) for z in zs]))
            tot = event_score(sym, evc, cells, b)
            # the best score was just shown to equal the max returned
            sym.valid("argmax of batch element %d has the best score" % b, alg.B(tot == alg.to_z3(vc[b]), True))

    def concrete(self, case, vals):
        with grad_ctx(case):
            fam, ts, d = real_dist(case, vals)
            v = d.max
            ev = as_list(fam, d.argmax, "argmax")
            if case.get("mode"):
                ev = as_list(fam, d.mode, "mode")
        shape_is(v, (case["B"],), "max")
        check_shapes(fam, ev, "argmax")
        for b in range(case["B"]):
            if case.get("large"):
                top = large.best(case, fam, vals, b)
                need(close(v[b], top, case), "max[%d] = %r, best score = %r" % (b, float(v[b]), top))
                e = [x.detach().double().numpy()[b] for x in ev]
                got = sum(float((x * np.asarray(vals[n])[b]).sum()) for x, (n, _) in zip(e, fam.shapes()))
                if fam.name != "cfg":
                    need(large.structure_inside(fam, e[0], b), "argmax[%d] is not the indicator of a valid structure: nonzero at %s" % (b, nonzero(ev, b)))
                need(close(got, top, case), "argmax[%d] has score %r, best is %r" % (b, got, top))
                continue
            sc = F.score_vec(fam, vals, b)
            need(close(v[b], sc.max(), case), "max[%d] = %r, best score = %r" % (b, float(v[b]), sc.max()))
            i = find_struct(fam, ev, b)
            need(i is not None, "argmax[%d] is not the indicator of a valid structure: nonzero at %s" % (b, nonzero(ev, b)))
            need(close(sc[i], sc.max(), case), "argmax[%d] has score %r, best is %r" % (b, sc[i], sc.max()))


PROP = Max()
