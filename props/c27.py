from .base import *  # noqa
from .events import *  # noqa
from . import c07, c10, c11, c22

# queries decided as for ordinary potentials, with the allowed structures as the structures
OTHER = {"kbest": c07.PROP, "sample": c10.PROP, "log_prob": c11.PROP, "gumbel": c22.PROP}


class Forbidden(Prop):
    pid = "C27"
    bounds = "all five dynamic programs; enumerated sets of forbidden parts (potential minus infinity) leaving every batch element at least one structure; the other potentials symbolic in [-100,100]"

    def cases(self, tier):
        big = tier == "thorough"
        out = []

        def add(cs, qs, seeds):
            for i, c in enumerate(cs):
                for s in range(seeds):
                    for q in qs:
                        out.append(dict(c, q=q, seed=10 * i + s))

        for f in ("chain", "semi", "dep", "tree", "cfg"):
            cs = TABLES[f](tier, big) + systematic([f], 120 if big else 40)
            add(cs, ["partition"] + (["marginals"] if f in ("chain", "semi") else []), 3 if big else 1)
            add(small_table([f], tier), ["max"], 6 if big else 3)
        out = [c for c in out if self.values(c) is not None]
        for q, p in OTHER.items():
            cs = [c for c in p.cases(tier) if not c.get("large")]
            for i, c in enumerate(cs):
                if q == "log_prob" and i % 4:
                    continue
                for s in (i, i + 101) if q != "kbest" or c["N"] < 4 else (i,):
                    out.append(dict(c, q=q, ban=s, seed=s))
        return out

    def values(self, case, seed=None):
        if case["q"] in OTHER:
            return OTHER[case["q"]].values(case, seed)
        fam = self.fam(case)
        s = case.get("seed", 0)
        v = fam.values(s if seed is None else seed)
        rng = np.random.default_rng(s + 31)
        ps = (0.1, 0.25, 0.4, 0.6) if s % 2 else (0.5, 0.3, 0.15, 0.7)
        for b in range(case["B"]):
            zs = fam.structs(b)
            for k in range(40):
                p = ps[k % 4]
                ban = [rng.random(v[n].shape[1:]) < p for n, _ in fam.shapes()]
                ok = [not any(t < len(ban) and ban[t][ix] for t, ix in z) for z in zs]
                if any(ok) and (k >= 20 or len(zs) == 1 or not all(ok)):
                    break
            else:
                # keep one structure and forbid everything else
                z = zs[int(rng.integers(len(zs)))]
                ban = [np.array([(t, ix) not in z for ix in np.ndindex(*v[n].shape[1:])]).reshape(v[n].shape[1:]) for t, (n, _) in enumerate(fam.shapes())]
            for (n, _), m in zip(fam.shapes(), ban):
                v[n][b][m] = -np.inf
        return v

    def allowed(self, fam, vals, b):
        sc = F.score_vec(fam, vals, b)
        return [z for z, s in zip(fam.structs(b), sc) if np.isfinite(s)]

    def symbolic(self, case, sym):
        if case["q"] in OTHER:
            return OTHER[case["q"]].symbolic(case, sym)
        fam = self.fam(case)
        names = [n for n, _ in fam.shapes()]
        q = case["q"]
        fin = [np.isfinite(np.asarray(sym.vals[n], dtype=float)) for n in names]
        with sym, grad_ctx(case):
            ts = [sym.input(n, mask=m) for n, m in zip(names, fin)]
            cells = [sym.cells(t) for t in ts]
            d = fam.build(ts)
            v = d.max if q == "max" else d.partition
            ev = as_list(fam, d.argmax if q == "max" else d.marginals, q) if q != "partition" else []
        shape_is(v, (case["B"],), q)
        check_shapes(fam, ev, q)
        vc = sym.cells(v)
        evc = [sym.cells(o) for o in ev]
        for b in range(case["B"]):
            zs = self.allowed(fam, sym.vals, b)
            if q == "max":
                sc = [sym.score(cells, z, b, len(ts)) for z in zs]
                m, defn = sym.fresh_max("best%d" % b, sc)
                sym.valid("max of batch element %d" % b, alg.cmp_cells("eq", vc[b], m), defn)
                sym.valid("argmax of batch element %d is an allowed structure" % b, bor(*[event_is(evc, fam, z, b) for z in zs]))
                # forbidden parts were just shown to be absent
                pots = [np.where(f, c, 0) for f, c in zip(fin, cells)]
                tot = event_score(sym, evc, pots, b)
                sym.valid("argmax of batch element %d has the best score" % b, alg.B(tot == alg.to_z3(vc[b]), True))
                continue
            Z = sym.Z(cells, zs, b, len(ts))
            sym.equal_log("partition of batch element %d" % b, vc[b], Z)
            num = {}
            for z in zs:
                w = sym.weight(cells, z, b, len(ts))
                for part, k in z.items():
                    alg._addt(num.setdefault(part, {}), w, k)
            for t in range(len(ev)):
                for ix in np.ndindex(*evc[t].shape[1:]):
                    n = Poly(num.get((t, ix), {}))
                    sym.equal_ratio("marginal of part %s, batch element %d" % (ix, b), evc[t][(b,) + ix], n, Z)

    def concrete(self, case, vals):
        q = case["q"]
        if q in OTHER:
            OTHER[q].light = self.light
            return OTHER[q].concrete(case, vals)
        with grad_ctx(case):
            fam, ts, d = real_dist(case, vals)
            v = d.max if q == "max" else d.partition
            ev = as_list(fam, d.argmax if q == "max" else d.marginals, q) if q != "partition" else []
        shape_is(v, (case["B"],), q)
        check_shapes(fam, ev, q)
        for b in range(case["B"]):
            sc = F.score_vec(fam, vals, b)
            want = sc.max() if q == "max" else F.lse(sc)
            need(close(v[b], want, case), "%s[%d] = %r, over the allowed structures = %r" % (q, b, float(v[b]), want))
            if q == "max":
                i = find_struct(fam, ev, b)
                need(i is not None, "argmax[%d] is not the indicator of a valid structure: nonzero at %s" % (b, nonzero(ev, b)))
                need(close(sc[i], want, case), "argmax[%d] has score %r, best is %r" % (b, sc[i], want))
            elif ev:
                p = np.exp(sc - want)
                w = np.zeros(part_shapes(fam)[0][1:])
                for z, pz in zip(fam.structs(b), p):
                    for (_, ix), k in z.items():
                        w[ix] += k * pz
                o = ev[0].detach().double().numpy()[b]
                err = np.abs(o - w)
                if not (err <= (1e-6 if case.get("dtype", "float64") == "float64" else 1e-3)).all():
                    ix = np.unravel_index(np.nanargmax(np.where(np.isnan(err), np.inf, err)), err.shape)
                    raise Fail("marginal %s of batch element %d = %r, over the allowed structures = %r" % (ix, b, float(o[ix]), float(w[ix])))


PROP = Forbidden()
