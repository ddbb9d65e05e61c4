from .base import *  # noqa
from harness import Candidate
from symtorch import solve

DELTA = 1e-3  # smoothing of arc weights the statement allows


class NonProjective(Prop):
    pid = "C04"
    bounds = "non-projective dependency trees, single- and multi-root; sizes as in case_extent; potentials symbolic in [-100,100]; arc weights up to an additive smoothing of at most 1e-3"

    def cases(self, tier):
        out = []
        for mr in (True, False):
            out += [
                C("nonproj", 1, 1, multiroot=mr),
                C("nonproj", 2, 2, multiroot=mr),
                C("nonproj", 2, 2, multiroot=mr, lengths=[1, 2]),
                C("nonproj", 1, 3, multiroot=mr),
                C("nonproj", 3, 3, multiroot=mr, lengths=[3, 1, 2], how="grad"),
                C("nonproj", 2, 3, multiroot=mr, lengths=[2, 3], how="strided"),
                C("nonproj", 1, 3, multiroot=mr, lengths=[2], nograd=1),
                C("nonproj", 1, 3, multiroot=mr, how="nonleaf", dtype="float32"),
                C("nonproj", 1, 4, multiroot=mr),
                C("nonproj", 2, 4, multiroot=mr, lengths=[4, 2]),
                C("nonproj", 2, 4, multiroot=mr, lengths=[1, 3]),
                C("nonproj", 1, 5, multiroot=mr),
                C("nonproj", 5, 3, multiroot=mr, lengths=[2, 3, 1, 3, 2]),
            ]
            if tier == "thorough":
                out += [C("nonproj", 2, 4, multiroot=mr, lengths=[3, 4]), C("nonproj", 4, 4, multiroot=mr, lengths=[1, 2, 3, 4])]
        out.append(C("nonproj", 1, 3))
        out.append(C("nonproj", 2, 3, lengths=[3, 2]))
        res = []
        for c in out:
            res += [dict(c, q="partition"), dict(c, q="marginals")]
            if not c.get("nograd") and c["N"] < 5:
                res.append(dict(c, q="gradient"))
        return res

    # ---- the sandwich, for numbers (floats) or polynomials
    def terms(self, fam, b, w, add, mul, one):
        """(lower, upper) for the partition and, per arc, for the weight of the trees with that arc.

        lower: the plain sum. upper: every arc weight raised by DELTA; padding words may attach anywhere
        with weight DELTA and words to padding words (hence one plain root, others with DELTA)."""
        n, N = fam.length(b), fam.c["N"]
        mr = fam.c.get("multiroot", False)
        pads = N - n
        plain = {}
        for z in fam.structs(b):
            t = one
            for (_, ix), _ in z.items():
                t = mul(t, w(ix))
            plain[frozenset(ix for (_, ix) in z)] = t
        lo = None
        for t in plain.values():
            lo = t if lo is None else add(lo, t)
        low = {(i, j): [t for z, t in plain.items() if (i, j) in z] for i in range(n) for j in range(n)}
        scale = (1 + DELTA * N) ** pads
        up = []
        every = F.Family("nonproj", dict(fam.c, multiroot=mr or pads > 0)).structs(b)
        for z in every:
            arcs = [ix for (_, ix) in z]
            roots = [a for a in arcs if a[0] == a[1]]
            t = one
            for a in arcs:
                if a[0] != a[1]:
                    t = mul(t, add(w(a), DELTA))
            if mr:
                for a in roots:
                    t = mul(t, add(w(a), DELTA) if pads else w(a))
                up.append((arcs, mul(t, scale)))
            else:
                for a in roots:
                    u = mul(t, w(a))
                    up.append(([x for x in arcs if x == a or x not in roots], mul(u, scale * DELTA ** (len(roots) - 1))))
        hi = None
        for _, t in up:
            hi = t if hi is None else add(hi, t)
        high = {a: [t for z, t in up if a in z] for a in low}
        return lo, hi, low, high

    def run(self, case, fam, x):
        "log-partition and arc probabilities (asked for, or as its gradient)"
        if case["q"] == "gradient" and not x.requires_grad:
            x.requires_grad_(True)
        d = fam.build([x])
        part = d.partition
        if case["q"] == "gradient":
            return part, torch.autograd.grad(part.sum(), x)[0]
        return part, d.marginals if case["q"] == "marginals" else None

    def symbolic(self, case, sym):
        fam = self.fam(case)
        with sym, grad_ctx(case):
            x = sym.input("x")
            cells = [sym.cells(x)]
            part, m = self.run(case, fam, x)
        shape_is(part, (case["B"],), "partition")
        pc = sym.cells(part)
        if m is not None:
            shape_is(m, fam.shapes()[0][1], "marginals")
            mc = sym.cells(m)
        for b in range(case["B"]):
            w = lambda ix: poly(alg.pexp(cells[0][(b,) + ix]))
            lo, hi, low, high = self.terms(fam, b, w, lambda x, y: alg.padd(x, poly(y)), lambda x, y: alg.pmul(x, poly(y)), poly(1))
            P = self.weight(sym, pc[b], "partition[%d]" % b)
            sym.at_most("partition[%d] at least the log of the sum over trees" % b, lo, P)
            sym.at_most("partition[%d] at most the log of the smoothed sum over trees" % b, P, hi)
            if m is None:
                continue
            for ix in np.ndindex(case["N"], case["N"]):
                c = mc[(b,) + ix]
                what = "%s (%d,%d) of batch element %d" % ((case["q"],) + ix + (b,))
                if ix not in low or not low[ix]:
                    sym.equal(what, c, 0)
                    continue
                if isinstance(c, float) and not np.isfinite(c):
                    raise Candidate(what, sym.vals)
                p, k, mono, S = sym.normalise(poly(c), P)
                full = alg.mmul(mono, ((S.id, 1),)) if S is not None else mono
                num = alg.pmul(p, Poly({full: k}))
                sym.at_most(what + " at least its share", total(low[ix]), num)
                sym.at_most(what + " at most its smoothed share", num, total(high[ix]))

    def weight(self, sym, cell, what):
        parts = alg.split_ite(cell)
        if len(parts) != 1:
            raise alg.Unsupported("branching partition")
        p = parts[0][1]
        if isinstance(p, float) and not np.isfinite(p):
            raise Candidate(what, sym.vals)
        off, mo = solve.exp_mono(poly(p))
        if off != 0:
            mo = alg.pmul(mo, Poly({alg.cexp_mono(off): 1}))
        return solve.expand(sym.ctx, mo)

    def retries(self, case):
        "moderate scores: determinants of extreme ones are dominated by rounding"
        return [{"x": self.values(case, seed=k)["x"] * s} for k, s in ((1, 1), (2, 1), (3, 2), (4, 3))]

    def concrete(self, case, vals):
        with grad_ctx(case):
            fam = self.fam(case)
            part, m = self.run(case, fam, to_tensors(case, vals, ["x"])[0])
        shape_is(part, (case["B"],), "partition")
        if m is not None:
            shape_is(m, fam.shapes()[0][1], "marginals")
        tol = 1e-6 if case.get("dtype") != "float32" else 1e-3
        for b in range(case["B"]):
            x = np.asarray(vals["x"], dtype=float)[b]
            lo, hi, low, high = self.terms(fam, b, lambda ix: float(np.exp(x[ix])), lambda p, q: p + q, lambda p, q: p * q, 1.0)
            v = float(part[b])
            need(np.log(lo) - tol <= v <= np.log(hi) + tol, "partition[%d] = %r, brute force between %r and %r" % (b, v, np.log(lo), np.log(hi)))
            for ix in np.ndindex(case["N"], case["N"]) if m is not None else ():
                v = float(m[(b,) + ix])
                a, z = (sum(low[ix]) / hi, sum(high[ix]) / lo) if ix in low else (0.0, 0.0)
                need(a - tol <= v <= z + tol, "%s[%d]%s = %r, brute force between %r and %r" % (case["q"], b, ix, v, a, z))


def total(ts):
    out = Poly({})
    for t in ts:
        out = alg.padd(out, t)
    return out


PROP = NonProjective()
