from .base import *  # noqa
from .events import *  # noqa
from symtorch.alg import band, bnot, bor, bz
from harness import Candidate, Undecided
from symtorch import solve
from symtorch.bdd import Bdd
import contextlib
import z3


class Columns:
    """torch.multinomial with the draws of some columns scripted.

    Every other draw comes from a fixed generator, so that a run is a function of the script."""

    def __init__(self, cols, script=(), seed=0):
        self.cols, self.script = cols, list(script)
        self.log = []
        self.ncol = 0
        self.gen = torch.Generator()
        self.gen.manual_seed(seed)

    def __enter__(self):
        self.old = torch.multinomial
        torch.multinomial = self.draw
        return self

    def __exit__(self, *a):
        torch.multinomial = self.old

    def draw(self, probs, num_samples, replacement=False, **kw):
        p = probs.detach().double()
        p = (p / p.sum(-1, keepdim=True)).reshape(-1, p.shape[-1])
        out = self.old(p, num_samples, replacement, generator=self.gen)
        self.ncol = max(self.ncol, num_samples)
        for r in range(p.shape[0]):
            live = [i for i in range(p.shape[1]) if p[r, i] > 0]
            for j in self.cols:
                if j < num_samples and len(live) > 1:
                    k = self.script.pop(0) if self.script else live[0]
                    self.log.append((k, live, float(p[r, k])))
                    out[r, j] = k
        return out.reshape(tuple(probs.shape[:-1]) + (num_samples,))


class Sampling(Prop):
    pid = "C10"
    noun = "sample"
    bounds = "chain, semi-Markov, projective dependency and span-tree, and the sampling semirings' own sums (family 'lines'); sizes and sample counts as in case_extent; potentials symbolic in [-100,100]; every outcome of the draws behind the examined sample"

    def cases(self, tier):
        base = [
            C("chain", 1, 2, C=2, n=1, k=0),
            C("semi", 1, 2, K=2, C=2, n=1, k=0),
            C("dep", 1, 2, multiroot=True, n=1, k=0),
            C("tree", 1, 2, NT=2, n=1, k=0),
            C("chain", 1, 3, C=2, n=3, k=2),
            C("chain", 2, 3, C=2, lengths=[2, 3], n=2, k=1),
            C("semi", 2, 3, K=3, C=1, lengths=[3, 2], n=2, k=1),
            C("semi", 1, 3, K=3, C=2, n=2, k=0),
            C("dep", 2, 3, multiroot=False, lengths=[3, 2], n=2, k=1),
            C("dep", 1, 3, multiroot=True, n=3, k=2),
            C("dep", 1, 2, L=2, multiroot=True, n=1, k=0),
            C("tree", 2, 3, NT=1, lengths=[3, 2], n=2, k=1),
            C("tree", 1, 4, NT=1, n=2, k=0),
            C("tree", 1, 3, NT=2, n=1, k=0),
            C("chain", 1, 2, C=3, n=10, k=9),
            C("chain", 1, 2, C=2, n=11, k=10, k2=0),
            C("chain", 1, 2, C=2, n=12, k=11, k2=10),
            C("chain", 1, 2, C=2, n=21, k=20, k2=10),
            C("chain", 1, 3, C=2, n=4, k=3, k2=2, how="grad"),
            C("dep", 1, 2, multiroot=True, n=13, k=12, k2=2),
            C("tree", 1, 3, NT=1, n=12, k=11, k2=1),
            C("semi", 1, 3, K=3, C=1, n=11, k=10, k2=0),
            C("chain", 1, 4, C=2, n=1, k=0, nograd=1),
            C("chain", 1, 3, C=2, n=10, k=8, how="nonleaf"),
        ]
        base += [
            C("chain", 2, 3, C=2, lengths=[3, 2], n=1, k=0, single=1),
            C("semi", 1, 3, K=3, C=2, n=1, k=0, single=1),
            C("tree", 2, 3, NT=2, lengths=[2, 3], n=1, k=0, single=1),
            C("chain", 2, 3, C=2, lengths=[3, 2], n=1, k=0, single="fast"),
            C("chain", 1, 4, C=2, n=1, k=0, single="fast"),
            C("semi", 2, 3, K=3, C=2, lengths=[2, 3], n=1, k=0, single="fast"),
            C("chain", 1, 5, C=2, n=1, k=0),
            C("dep", 2, 3, L=2, multiroot=True, lengths=[2, 3], n=1, k=0),
        ]
        base += [
            C("chain", 2, 5, C=2, lengths=[5, 4], n=2, k=1),
            C("chain", 1, 3, C=3, n=2, k=1),
            C("semi", 1, 4, K=3, C=2, n=1, k=0),
            C("dep", 1, 4, multiroot=False, n=2, k=1),
            C("tree", 1, 5, NT=1, n=2, k=1),
            C("dep", 2, 4, multiroot=True, lengths=[3, 2], n=2, k=1),
            C("chain", 5, 3, C=2, lengths=[2, 3, 2, 3, 3], n=2, k=1),
            C("semi", 5, 3, K=3, C=1, lengths=[2, 3, 2, 3, 3], n=1, k=0),
            C("dep", 5, 2, multiroot=True, lengths=[1, 2, 2, 1, 2], n=2, k=0),
            C("tree", 5, 3, NT=1, lengths=[2, 3, 1, 3, 2], n=2, k=1),
            C("chain", 1, 2, C=5, n=2, k=1),
            C("chain", 1, 7, C=2, n=2, k=1),
            C("chain", 1, 9, C=2, n=2, k=1),
            C("chain", 2, 4, C=3, lengths=[4, 3], n=2, k=1),
            C("semi", 1, 6, K=3, C=1, n=2, k=1),
            C("semi", 2, 5, K=4, C=2, lengths=[4, 5], n=2, k=1),
            C("dep", 1, 5, multiroot=True, n=2, k=1),
            C("dep", 1, 5, multiroot=False, n=2, k=1),
            C("dep", 1, 3, L=2, multiroot=False, n=2, k=1),
            C("tree", 1, 6, NT=1, n=2, k=1),
            C("tree", 2, 7, NT=1, lengths=[7, 5], n=2, k=1),
        ]
        base += line_cases(tier, lambda i: [dict(n=1, k=0, single=1), dict(n=1 + i % 3, k=i % 3, **(dict(how="grad") if i % 4 == 1 else {}))])
        if tier == "thorough":
            base += [
                C("chain", 2, 6, C=2, lengths=[6, 3], n=1, k=0),
                C("chain", 1, 4, C=3, n=2, k=1),
                C("semi", 2, 5, K=3, C=2, lengths=[5, 4], n=2, k=1),
                C("dep", 2, 4, multiroot=True, lengths=[4, 3], n=2, k=1),
                C("tree", 2, 4, NT=2, lengths=[4, 3], n=2, k=1),
            ]
            base += [C("chain", 1, 3, C=2, n=23, k=k) for k in range(23)]
        return base

    def draw(self, case, d):
        if case.get("reseed", 1):
            torch.manual_seed(5)
        fam = self.fam(case)
        if case.get("single"):
            # the one-sample semiring, used through the structure class
            from torch_struct import FastSampleSemiring, SampledSemiring
            from .c28 import extension

            fast = case["single"] == "fast"
            with torch.enable_grad(), extension() if fast else contextlib.nullcontext():
                s = fam.structure(FastSampleSemiring if fast else SampledSemiring).marginals(d.log_potentials, lengths=d.lengths).detach().unsqueeze(0)
        else:
            s = d.sample((case["n"],))
        shape_is(s, (case["n"],) + tuple(part_shapes(fam)[0]), "sample")
        return s

    # ------------------------------------------------------------ symbolic
    def symbolic(self, case, sym):
        e = sym.e
        sym.ctx.bdd = Bdd()
        with sym, grad_ctx(case):
            fam, ts, cells, d = sym_dist(case, sym)
        self.cells_, self.fam_ = cells, fam

        def run(cols):
            e.symbolic_draws = lambda call, row, j: j in cols
            e.draws = []
            with sym, grad_ctx(case):
                s = self.draw(case, fam.build(ts))
            return sym.cells(s)

        def find(k):
            "the column of draws that the k-th sample depends on"
            guess = 0 if case.get("single") else k % 10 + 1
            ncol = 17
            for j in [guess] + [j for j in range(ncol) if j != guess]:
                c = run({j})
                ncol = max(len(r["conc"][0]) for r in e.draws) if e.draws else 0
                if any(alg.is_sym(x) for x in c[k].reshape(-1)):
                    return j, c
            raise Candidate("sample %d does not depend on any draw" % k, sym.vals)

        trivial = all(len(fam.structs(b)) == 1 for b in range(case["B"]))
        if trivial:
            return
        j, c = find(case["k"])
        deps = self.check(case, sym, c, case["k"])
        self.disjoint(case, sym, c, case["k"], deps)
        if "k2" in case:
            j2, c2 = find(case["k2"])
            both = run({j, j2})
            deps = self.check(case, sym, both, case["k"], prob=False)
            self.disjoint(case, sym, both, case["k"], deps)

    def check(self, case, sym, c, k, prob=True):
        fam, cells = self.fam_, self.cells_
        deps = set()
        var = {}
        draws = {}
        for ci, rec in enumerate(sym.e.draws):
            for (r, j), lits in rec["lits"].items():
                draws[(ci, r, j)] = [rec["probs"][r][i] for i in rec["sel"][(r, j)]]
                for i, s in enumerate(lits):
                    var[s.z.decl().name()] = ((ci, r, j), i, s.z)
        for b in range(case["B"]):
            zs = fam.structs(b)
            phis = [event_is([c[k]], fam, z, b) for z in zs]
            sym.valid("%s %d of batch element %d is a structure" % (self.noun, k, b), bor(*phis))
            Z = sym.Z(cells, zs, b, len(cells))
            for z, phi in zip(zs, phis):
                total = Poly({})
                for cube in self.cubes(sym, phi, var):
                    t = poly(1)
                    live = {}
                    for name, val in cube:
                        d, i, _ = var[name]
                        ok = {i} if val else set(range(len(draws[d]))) - {i}
                        live[d] = live.get(d, set(range(len(draws[d])))) & ok
                        deps.add(d)
                    for d, os_ in live.items():
                        p = Poly({})
                        for o in os_:
                            p = alg.padd(p, poly(draws[d][o]))
                        t = alg.pmul(t, p)
                    total = alg.padd(total, t)
                if prob:
                    w = Poly({sym.weight(cells, z, b, len(cells)): 1})
                    sym.equal_ratio("probability that %s %d of batch element %d is %s" % (self.noun, k, b, z), total, w, Z)
        return deps

    def cubes(self, sym, phi, var):
        "disjoint partial assignments of the draws whose union is phi (solver: models and unsat cores)"
        if phi.z is True:
            return [()]
        if phi.z is False:
            return []
        s = z3.Solver()
        q = z3.Solver()
        goal = bz(phi)
        # give the two-valued tests of a draw one meaning: test i is only made when the earlier ones failed
        canon = []
        by = {}
        for d, i, z in var.values():
            by.setdefault(d, {})[i] = z
        for d, t in by.items():
            for i in range(len(t)):
                for j in range(i + 1, len(t)):
                    canon.append(z3.Not(z3.And(t[i], t[j])))
        s.add(*canon)
        q.add(*canon)
        s.add(goal)
        prev = []
        out = []
        while True:
            r = solve._check(s, sym.timeout)
            if r == z3.unsat:
                return out
            if r != z3.sat:
                raise Undecided("enumeration of draws")
            m = s.model()
            lits = {}
            for n, (d, i, z) in var.items():
                v = z3.is_true(m.eval(z, model_completion=True))
                lits[n] = (z if v else z3.Not(z), v)
            q.push()
            q.add(z3.Or([z3.Not(goal)] + prev))
            names = {str(l[0]): n for n, l in lits.items()}
            if solve._check(q, sym.timeout, [l[0] for l in lits.values()]) != z3.unsat:
                raise Undecided("cube")
            core = [names[str(x)] for x in q.unsat_core()]
            # shrink: drop literals while the rest still decides
            for n in list(core):
                rest = [x for x in core if x != n]
                if solve._check(q, sym.timeout, [lits[x][0] for x in rest]) == z3.unsat:
                    core = rest
            q.pop()
            cube = z3.And([lits[x][0] for x in core] + [z3.BoolVal(True)])
            prev.append(cube)
            s.add(z3.Not(cube))
            out.append(tuple((x, lits[x][1]) for x in core))
            if len(out) > 4000:
                raise Undecided("too many ways to draw one structure")

    def disjoint(self, case, sym, c, k, deps):
        "no other sample of the call depends on the draws behind this one"
        for o in range(case["n"]):
            if o == k or not any(alg.is_sym(x) for x in c[o].reshape(-1)):
                continue
            other = self.check(case, sym, c, o, prob=False)
            sym.obl += 1
            both = deps & other
            if both:
                raise Candidate("samples %d and %d share the random draws %s" % (k, o, sorted(both)[:3]), sym.vals)

    # ------------------------------------------------------------ concrete
    def concrete(self, case, vals):
        with grad_ctx(case):
            fam, ts, d = real_dist(case, vals)
            torch.manual_seed(11)
            s = self.draw(case, d)
        k = case["k"]
        for i in range(case["n"]):
            for b in range(case["B"]):
                need(find_struct(fam, [s[i]], b) is not None, "sample %d of batch element %d is not a valid structure: nonzero at %s" % (i, b, nonzero([s[i]], b)))
        if all(len(fam.structs(b)) == 1 for b in range(case["B"])):
            return
        p = []
        for b in range(case["B"]):
            sc = F.score_vec(fam, vals, b)
            p.append(np.exp(sc - F.lse(sc)))
        with Columns(()) as cc, grad_ctx(case):
            self.draw(case, fam.build(ts))
        exact = False
        guess = 0 if case.get("single") else k % 10 + 1
        for j in [guess] + [x for x in range(0 if self.light else cc.ncol) if x != guess]:
            dist = self.column(case, fam, ts, [j], [k] + [i for i in range(case["n"]) if i != k][:1])
            if dist is None or len({x[0] for x in dist}) == 1:
                continue
            exact = True
            for b in range(case["B"]):
                got = np.zeros(len(p[b]))
                for key, pr in dist.items():
                    i = key[0][b]
                    need(i is not None, "sample %d of batch element %d is not a valid structure for some outcome of the draws" % (k, b))
                    got[i] += pr
                need(np.allclose(got, p[b], atol=1e-6), "structures of batch element %d are sampled with probability %s, model says %s" % (b, got.round(5).tolist(), p[b].round(5).tolist()))
            break
        if self.light:
            return
        others = [case["k2"]] if "k2" in case else []
        others += [i for i in range(case["n"]) if i != k and i not in others][:2]
        self.frequencies(case, fam, ts, p, k, others, exact)

    def column(self, case, fam, ts, cols, ks):
        limit = 40 if self.light else 1500
        dist = {}
        work = [[]]
        n = 0
        while work:
            script = work.pop()
            with Columns(cols, script) as s, grad_ctx(case):
                smp = self.draw(case, fam.build(ts))
            res = tuple(tuple(find_struct(fam, [smp[k]], b) for b in range(case["B"])) for k in ks)
            n += 1
            if n > limit or not s.log:
                return None
            pr = 1.0
            for i, (o, live, q) in enumerate(s.log):
                pr *= q
                if i >= len(script):
                    base = [x[0] for x in s.log[:i]]
                    work += [base + [x] for x in live if x != o]
            dist[res] = dist.get(res, 0.0) + pr
        return dist

    def frequencies(self, case, fam, ts, p, k, others, exact, T=1500):
        "last resort for claims about several samples: gross deviation of observed frequencies"
        torch.manual_seed(123)
        idx = []
        with grad_ctx(case):
            d = fam.build(ts)
            for _ in range(T):
                s = d.sample((case["n"],)) if not case.get("single") else self.draw(dict(case, reseed=0), d)
                idx.append([[find_struct(fam, [s[i]], b) for b in range(case["B"])] for i in [k] + others])
        idx = np.array([[[-1 if x is None else x for x in b] for b in r] for r in idx])
        need((idx >= 0).all(), "a sample is not a valid structure")

        def cmp(obs, q, what):
            sd = np.sqrt(q * (1 - q) / T)
            bad = np.abs(obs - q) > 8 * sd + 4.0 / T
            need(not bad.any(), "%s: frequencies %s over %d runs, model says %s" % (what, obs.round(3).tolist(), T, q.round(3).tolist()))

        for b in range(case["B"]):
            n = len(p[b])
            cmp(np.bincount(idx[:, 0, b], minlength=n) / T, p[b], "sample %d of batch element %d" % (k, b))
            for o in range(len(others)):
                joint = np.bincount(idx[:, 0, b] * n + idx[:, o + 1, b], minlength=n * n) / T
                cmp(joint, np.outer(p[b], p[b]).reshape(-1), "samples %d and %d of batch element %d jointly" % (k, others[o], b))


PROP = Sampling()
