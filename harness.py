"""Case execution: symbolic run of the real code, solver verdicts, replay."""
import json
import math
import os
import signal
import time
import traceback

import numpy as np

import symtorch  # noqa: F401  (adds the solver bindings to sys.path)
import torch
import torch.nn.functional as F_
import z3

from oracle.families import Family
from symtorch import alg, engine, solve
from symtorch.alg import Fin, Poly, Unsupported, band, bnot, bor, bz, poly

TIMEOUT = {"quick": 40.0, "thorough": 240.0}


class Fail(Exception):
    "The real code misbehaved on a concrete input."


class Candidate(Exception):
    "The solver found an assignment that breaks an obligation."

    def __init__(self, what, values):
        super().__init__(what)
        self.what = what
        self.values = values


class Undecided(Exception):
    pass


class SoftTimeout(Exception):
    pass


def _on_alarm(*a):
    raise SoftTimeout("case time limit")


# ---------------------------------------------------------------- presentation
def present(t, how):
    "Hand the same values to the library in different ways."
    if how in (None, "plain"):
        return t
    if how == "grad":
        return t.requires_grad_(True)
    if how == "nonleaf":
        t.requires_grad_(True)
        return t * 1.0
    if how == "strided":
        # same values, reversed memory order
        p = list(range(t.dim()))[::-1]
        return t.permute(p).contiguous().permute(p)
    if how == "offset":
        big = torch.zeros((t.shape[0] + 1,) + tuple(t.shape[1:]), dtype=t.dtype)
        big[1:] = t
        return big[1:]
    raise KeyError(how)


def one_hot(orig):
    def f(tensor, num_classes=-1):
        if not isinstance(num_classes, int) or num_classes <= 0 or tensor.dtype != torch.int64 or tensor.numel() == 0:
            return orig(tensor, num_classes)
        out = torch.zeros(tuple(tensor.shape) + (num_classes,), dtype=torch.int64, device=tensor.device)
        return out.scatter_(-1, tensor.unsqueeze(-1), 1)

    return f


class Sym:
    "One symbolic execution; collects and discharges obligations."

    def __init__(self, case, vals, tier="quick", bound=100, validate=True):
        self.case = case
        self.vals = vals
        self.e = engine.Engine(bound=bound, validate=validate)
        self.ctx = self.e.ctx
        self.timeout = TIMEOUT[tier]
        self.obl = 0
        self.pc0 = 0
        self.seen = 0  # path conditions already turned into alternatives
        self.bounds = None
        dt = case.get("dtype", "float64")
        self.dtype = getattr(torch, dt)
        self.e.tol = 1e-6 if dt == "float64" else 3e-4
        # float32 loses low bits next to the semiring zero in cells that are later multiplied by zero
        self.e.strict = dt == "float64"
        self.lemmas = {}
        self.e.script = list(vals.get("script", ()))

    def __enter__(self):
        # one_hot without its range test on the extreme values: that test would split paths
        self.one_hot = F_.one_hot
        F_.one_hot = one_hot(self.one_hot)
        self.e.__enter__()
        return self

    def __exit__(self, *a):
        F_.one_hot = self.one_hot
        return self.e.__exit__(*a)

    def input(self, name, lo=None, hi=None, mask=None):
        t = self.e.symbolic(self.vals[name], name, lo, hi, dtype=self.dtype, mask=mask)
        return present(t, self.case.get("how"))

    def choice(self, name, n):
        "A symbolic integer in [0, n); concrete value from vals[name]."
        cur = int(self.vals.get(name, 0))
        if n == 1:
            return 0
        bs = [alg.B(z3.Bool("%s=%d" % (name, i)), i == cur) for i in range(n)]
        self.ctx.side.append(z3.PbEq([(b.z, 1) for b in bs], 1))
        self.ctx.key.setdefault("choices", {})[name] = bs
        return Fin(list(enumerate(bs)))

    def finite(self, name, domain):
        "A tensor input whose entries range over finite sets: domain(index) lists the values of one entry."
        v = np.asarray(self.vals[name])
        t = torch.tensor(v) if v.dtype.kind in "iu" else torch.tensor(v, dtype=self.dtype)
        cells = np.empty(v.shape, dtype=object)
        for ix in np.ndindex(*v.shape):
            dom = domain(ix)
            if len(dom) == 1:
                cells[ix] = dom[0]
                continue
            bs = [alg.B(z3.Bool("%s%s=%s" % (name, list(ix), d)), d == v[ix]) for d in dom]
            self.ctx.side.append(z3.PbEq([(b.z, 1) for b in bs], 1))
            self.ctx.key.setdefault("finite", {})[name, ix] = list(zip(dom, bs))
            cells[ix] = Fin(list(zip(dom, bs)))
        self.e.attach(t, cells)
        return t

    def cells(self, t):
        if not isinstance(t, torch.Tensor):
            raise Fail("result is %s, not a tensor" % type(t).__name__)
        return self.e.cells(t)

    # -- queries ------------------------------------------------------------
    def model_values(self, m):
        "Candidate inputs of a model (as a list; two readings of exp)."
        a = self._model_values(m, "exp")
        b = self._model_values(m, "var")
        return [a, b]

    def _model_values(self, m, prefer, jitter=None):
        vals = {k: (v.copy() if v.dtype.kind in "iu" else np.array(v, dtype=float)) if isinstance(v, np.ndarray) else v for k, v in self.vals.items()}
        inp = solve.model_inputs(m, self.ctx, prefer)
        if jitter is not None:  # off the boundaries of later decisions
            rng = np.random.default_rng(jitter)
            inp = {k: v + rng.uniform(-1e-4, 1e-4) for k, v in inp.items()}
        for nm, v in inp.items():
            if "[" in nm:
                base, ix = nm[:-1].split("[", 1)
                if base in vals:
                    tup = tuple(int(q) for q in ix.split(",")) if ix else ()
                    arr = vals[base]
                    if arr.ndim == 0:
                        vals[base] = np.array(v)
                    else:
                        arr[tup] = v
            elif nm in vals:
                vals[nm] = np.array(v)
        for nm, bs in self.ctx.key.get("choices", {}).items():
            for i, b in enumerate(bs):
                if z3.is_true(m.eval(b.z, model_completion=True)):
                    vals[nm] = i
        for (nm, ix), alts in self.ctx.key.get("finite", {}).items():
            for v, b in alts:
                if z3.is_true(m.eval(b.z, model_completion=True)):
                    vals[nm][ix] = v
        return vals

    def equal(self, what, p, q, side=None, guard=None):
        "p == q for all values on this path"
        alg.Ctx.cur = self.ctx
        if guard is None and any(isinstance(x, Fin) or (isinstance(x, Poly) and alg.ite_atoms(x)) for x in (p, q)):
            for g, d in alg.split_ite(alg.sub(p, q)):
                self.equal(what, d, 0, side, g)
            return
        self.obl += 1
        for x in (p, q):
            if isinstance(x, float) and not math.isfinite(x):
                if p == q:
                    return
                raise Candidate(what + ": %s vs %s" % (p, q), self.vals)
        p, q = poly(p), poly(q)
        if side is None:
            side = any(self.ctx.atoms[a].kind not in ("exp", "sum", "var", "log", "cexp") for a in solve.atoms_of(self.ctx, [p, q]))
        pc = list(self.ctx.pc)
        if guard is not None and guard.z is not True:
            pc.append(guard)
            side = True
        r, m = solve.prove_equal_poly(self.ctx, p, q, pc, self.timeout, side)
        if r == "sat":
            raise Candidate(what, self.model_values(m))
        if r == "unknown":
            raise Undecided(what + ": " + str(m))

    def at_most(self, what, p, q):
        """p <= q for polynomials over positive atoms.

        Every monomial is positive, so it is enough that the inequality holds when monomials
        take arbitrary positive values (a linear query). Otherwise inputs that make the
        offending monomials dominate are candidates."""
        alg.Ctx.cur = self.ctx
        self.obl += 1
        A = self.ctx.atoms
        d = solve.expand(self.ctx, alg.padd(poly(q), poly(p), -1))
        bad = [m for m in d.t if any(e < 0 or A[a].kind != "exp" for a, e in m)]
        if bad:
            raise alg.Unsupported("inequality over %s" % A[bad[0][0][0]].kind)
        s = z3.Solver()
        ms = {m: z3.Real("m!%d" % i) for i, m in enumerate(d.t)}
        s.add([z > 0 for m, z in ms.items() if m])
        s.add([z == 1 for m, z in ms.items() if not m])
        s.add(z3.Sum([alg._zr(c) * ms[m] for m, c in d.t.items()] + [z3.RealVal(0)]) < 0)
        r = solve._check(s, self.timeout)
        if r == z3.unknown:
            raise Undecided(what + ": " + s.reason_unknown())
        if r == z3.sat:
            out = []
            for m in sorted((m for m in d.t if d.t[m] < 0), key=len, reverse=True)[:4]:
                v = {k: np.array(x, dtype=float) if isinstance(x, np.ndarray) else x for k, x in self.vals.items()}
                hot = {A[a].name[4:-1] for a, _ in m}
                for a in A:
                    if a.kind == "var" and "[" in a.name:
                        base, ix = a.name[:-1].split("[", 1)
                        if base in v:
                            v[base][tuple(int(i) for i in ix.split(","))] = 4.0 if a.name in hot else -4.0
                out.append(v)
            raise Candidate(what, out)

    def equal_log(self, what, cell, Z):
        "cell == log(Z) for a log-space cell and a positive polynomial Z"
        alg.Ctx.cur = self.ctx
        for g, p in alg.split_ite(cell):
            if isinstance(p, float) and not math.isfinite(p):
                raise Candidate(what + ": result %r" % p, self.vals)
            off, m = solve.exp_mono(poly(p))
            if off != 0:
                if abs(off) >= alg.BIG:
                    self.infeasible(what + ": semiring-zero offset %s" % off, g)
                    continue
                m = alg.pmul(m, Poly({alg.cexp_mono(off): 1}))
            self.equal(what, m, Z, guard=g)

    def equal_ratio(self, what, cell, n, Z):
        "cell == n / Z with Z positive"
        alg.Ctx.cur = self.ctx
        for g, p in alg.split_ite(cell):
            if isinstance(p, float) and not math.isfinite(p):
                raise Candidate(what + ": result %r" % p, self.vals)
            if not isinstance(n, Poly) or n.t:
                p, c, mono, S = self.normalise(poly(p), Z)
                full = alg.mmul(mono, ((S.id, 1),)) if S is not None else mono
                self.equal(what, alg.pmul(p, Poly({full: c})), n, guard=g)
            else:
                self.equal(what, p, 0, guard=g)

    def normalise(self, p, Z):
        """Rewrite p so that sums provably equal to Z's primitive part use one name.

        Returns (p', c, monomial, S atom) with Z = c * monomial * S."""
        c, mono, S = alg.factor(Z)
        if S is None:
            return p, c, mono, S
        for a in solve.den_atoms(p):
            at = self.ctx.atoms[a]
            if a == S.id or at.kind != "sum" or not at.pos:
                continue
            key = (a, S.id)
            if key not in self.lemmas:
                ok = False
                if abs(at.val / S.val - 1) < 1e-9:
                    r, _ = solve.prove_equal_poly(self.ctx, at.data, S.data, (), self.timeout, False)
                    ok = r == "unsat"
                self.lemmas[key] = ok
            if self.lemmas[key]:
                p = alg.subst_atom(p, a, alg.atom_poly(S))
        return p, c, mono, S

    def log_partition(self, what, cell, Z, strict=False):
        "Prove cell == log Z; return it as (log Poly, monomial Poly) for later queries."
        try:
            self.equal_log(what, cell, Z)
        except Candidate:
            if strict:
                raise
            # the library's own log-partition is not what it should be: use the definition
            c, m, S = alg.factor(Z)
            if S is not None:
                m = alg.mmul(m, ((S.id, 1),))
            return poly(alg.plog(Z)), Poly({m: c})
        parts = alg.split_ite(cell)
        if len(parts) != 1:
            raise Unsupported("branching log-partition")
        L = poly(parts[0][1])
        off, m = solve.exp_mono(L)
        if off != 0:
            raise Unsupported("offset in log-partition")
        return L, m

    def equal_log_ratio(self, what, cell, n, Z):
        "cell == log(n / Z) with Z a positive Poly"
        alg.Ctx.cur = self.ctx
        for g, p in alg.split_ite(cell):
            if isinstance(p, float) and not math.isfinite(p):
                raise Candidate(what + ": result %r" % p, self.vals)
            off, m = solve.exp_mono(poly(p))
            if off != 0:
                if abs(off) >= alg.BIG:
                    self.infeasible(what + ": semiring-zero offset %s" % off, g)
                    continue
                m = alg.pmul(m, Poly({alg.cexp_mono(off): 1}))
            self.equal(what, alg.pmul(m, Z), n, guard=g)

    def equal_log_cells(self, what, p, q):
        "two log-space cells are equal"
        d = alg.sub(p, q)
        self.equal_log(what, d, poly(1))

    def equal_logs(self, what, cell, n, Z, *others):
        "cell == n / Z where cell and n contain logs of sums; Z is a monomial of (sum) atoms"
        alg.Ctx.cur = self.ctx
        for g, p in alg.split_ite(cell):
            if isinstance(p, float) and not math.isfinite(p):
                raise Candidate(what + ": result %r" % p, self.vals)
            p = self.merge_logs(poly(p), Z, *others)
            self.equal(what, alg.pmul(p, Z), n, guard=g)

    def merge_logs(self, p, *Zs):
        """Use one name for logs (and denominators) of sums proved equal.

        Only a rewriting: every step is backed by a solver proof of the equality."""
        A = self.ctx.atoms
        reps = [A[a] for Z in Zs for m in Z.t for a, _ in m if A[a].kind == "sum"]
        for kind in ("log", "den"):
            if kind == "log":
                ids = sorted({a for m in p.t for a, _ in m if A[a].kind == "log"})
            else:
                ids = solve.den_atoms(p)
            for i in ids:
                at = A[A[i].data] if kind == "log" else A[i]
                if at.kind != "sum" or not at.pos:
                    continue
                for S in reps:
                    if at.id == S.id:
                        break
                    if abs(at.val / S.val - 1) > 1e-9:
                        continue
                    key = (at.id, S.id)
                    if key not in self.lemmas:
                        r, _ = solve.prove_equal_poly(self.ctx, at.data, S.data, (), self.timeout, False)
                        self.lemmas[key] = r == "unsat"
                    if self.lemmas[key]:
                        p = alg.subst_atom(p, i, alg.atom_poly(alg.log_atom(S) if kind == "log" else S))
                        break
                else:
                    reps.append(at)
        return p

    def fresh_max(self, name, polys):
        "A value defined as the largest of the given ones."
        alg.Ctx.cur = self.ctx
        ps = [poly(p) for p in polys]
        a = alg._new_atom("var!", self.ctx.fresh(name), max(p.val() for p in ps))
        zs = [alg.to_z3(p) for p in ps]
        return alg.atom_poly(a), [a.z >= z for z in zs] + [z3.Or([a.z == z for z in zs])]

    def infeasible(self, what, g):
        self.valid(what, bnot(g))

    def valid(self, what, b, extra=()):
        "Boolean b holds on this path for all values"
        self.obl += 1
        if b.z is True:
            solve.STATS.add("by_identity", 0.0)
            return
        s = z3.Solver()
        for c in self.ctx.side:
            s.add(c)
        for c in self.ctx.pc:
            s.add(bz(c))
        for c in extra:
            s.add(c)
        s.add(z3.Not(bz(b)))
        r = solve._check(s, self.timeout)
        if r == z3.sat:
            raise Candidate(what, self.model_values(s.model()))
        if r == z3.unknown:
            raise Undecided(what + ": " + s.reason_unknown())

    def satisfiable(self, what):
        "Vacuity guard: the assumptions of this path have a model."
        s = z3.Solver()
        for c in self.ctx.side:
            s.add(c)
        for c in self.ctx.pc:
            s.add(bz(c))
        r = solve._check(s, self.timeout)
        if r == z3.unsat:
            raise Undecided(what + ": vacuous (assumptions unsatisfiable)")

    def alternatives(self):
        "Inputs that take other branches (generational search)."
        out = []
        pc = self.ctx.pc
        s = z3.Solver()
        for c in self.ctx.side:
            s.add(c)
        for i in range(len(pc)):
            if i:
                c = pc[i - 1]
                s.add(c.strict if isinstance(c, alg.Fork) else bz(c))
            if i < self.pc0:
                continue
            if isinstance(pc[i], alg.Fork):
                for z, pick in zip(pc[i].alts, pc[i].picks):
                    s.push()
                    s.add(z)
                    r = solve._check(s, self.timeout)
                    if r == z3.sat:
                        v = self._model_values(s.model(), "exp" if self.ctx.fork == "exp" else "var", len(out))
                        script = [c.pick for c in pc[:i] if isinstance(c, alg.Fork) and c.pick is not None]
                        if pick is not None:
                            script.append(pick)
                        v["script"] = script
                        out.append((v, i + 1))
                    elif r == z3.unknown:
                        out.append((None, i + 1))
                    s.pop()
                continue
            s.push()
            s.add(z3.Not(bz(pc[i])))
            r = solve._check(s, self.timeout)
            if r == z3.sat:
                out.append((self._model_values(s.model(), "var"), i + 1))
            elif r == z3.unknown:
                out.append((None, i + 1))
            s.pop()
        return out

    # -- specification terms --------------------------------------------------
    def weight(self, cells, z, b, ntensors):
        "product of exp(potential) over the parts of structure z, as a monomial"
        m = ()
        for (t, ix), k in z.items():
            if t < ntensors:
                off, mm = alg.pexp_parts(poly(cells[t][(b,) + ix]))
                if off != 0:
                    mm = alg.mmul(mm, alg.cexp_mono(off))
                m = alg.mmul(m, alg.ppow_mono(mm, k))
        return m

    def score(self, cells, z, b, ntensors):
        s = Poly({})
        for (t, ix), k in z.items():
            if t < ntensors:
                s = alg.padd(s, alg.pmul(poly(k), poly(cells[t][(b,) + ix])))
        return s

    def Z(self, cells, zs, b, ntensors, keep=None):
        t = {}
        for z in zs:
            k = 1 if keep is None else keep(z)
            if k:
                alg._addt(t, self.weight(cells, z, b, ntensors), k)
        return Poly(t)


def to_tensors(case, vals, names):
    dt = getattr(torch, case.get("dtype", "float64"))
    return [present(torch.tensor(np.asarray(vals[n]), dtype=dt), case.get("how")) for n in names]


def close(a, b, case, rel=None):
    rel = rel or (1e-6 if case.get("dtype", "float64") == "float64" else 1e-3)
    a, b = float(a), float(b)
    if math.isnan(a) or math.isnan(b):
        return False
    if a == b:
        return True
    if math.isinf(a) or math.isinf(b):
        return False
    return abs(a - b) <= rel * max(1.0, abs(a), abs(b))


def need(cond, msg):
    if not cond:
        raise Fail(msg)


# ---------------------------------------------------------------- what was executed
class Tracer:
    "Records which library functions ran (one event per function)."

    TOOL = 3

    def __init__(self):
        self.seen = set()

    def __enter__(self):
        import sys

        m = sys.monitoring
        try:
            m.use_tool_id(self.TOOL, "verif")
        except ValueError:
            self.on = False
            return self
        self.on = True

        def start(code, off):
            if "torch_struct" in code.co_filename:
                f = code.co_filename.split("torch_struct")[-1].lstrip("/")
                self.seen.add("%s:%s" % (f, code.co_qualname))
            return m.DISABLE

        m.register_callback(self.TOOL, m.events.PY_START, start)
        m.set_events(self.TOOL, m.events.PY_START)
        m.restart_events()
        return self

    def __exit__(self, *a):
        import sys

        m = sys.monitoring
        if self.on:
            m.set_events(self.TOOL, 0)
            m.register_callback(self.TOOL, m.events.PY_START, None)
            m.free_tool_id(self.TOOL)


# ---------------------------------------------------------------- case driver
def replay_concrete(prop, case, vals):
    "None if the real code behaves on this input, else a description."
    try:
        with torch.random.fork_rng():
            torch.manual_seed(int(case.get("seed", 0)))
            prop.concrete(case, vals)
        return None
    except Fail as f:
        return str(f)
    except Exception as ex:
        tb = traceback.extract_tb(ex.__traceback__)
        where = ""
        for fr in tb:
            if "torch_struct" in fr.filename:
                where = " at %s:%d" % (os.path.basename(fr.filename), fr.lineno)
        if not where:
            where = " at %s:%d" % (os.path.basename(tb[-1].filename), tb[-1].lineno)
        return "raised %s: %s%s" % (type(ex).__name__, str(ex)[:200], where)


def concrete_only(prop, case, why):
    "Fallback for a case that could not be decided in time."
    rec = {"case": case, "status": "inconclusive", "notes": [why]}
    for v in [prop.values(case)] + (prop.retries(case) if hasattr(prop, "retries") else default_retries(prop, case)):
        f = replay_concrete(prop, case, v)
        if f is not None:
            rec.update(status="violation", what="solver undecided (%s)" % why, replay=f, values=jsonable(v))
            break
    return rec


def run_case(prop, case, tier="quick", limit=None):
    """Decide one configuration.  Returns a JSON-able record."""
    t0 = time.time()
    if limit:
        signal.signal(signal.SIGALRM, _on_alarm)
        signal.setitimer(signal.ITIMER_REAL, limit, 1.0)
    solve.STATS = solve.Stats()
    rec = {
        "case": case,
        "status": "held",
        "paths": 0,
        "ops": 0,
        "cells": 0,
        "obligations": 0,
        "notes": [],
        "opnames": {},
    }
    cands = []
    tracer = Tracer()
    try:
        vals0 = prop.values(case)
    except Exception as ex:  # harness error
        rec.update(status="error", notes=["values: %r" % ex, traceback.format_exc()[-800:]])
        return rec
    work = [(vals0, 0)]
    maxpaths = case.get("maxpaths", 64 if tier == "quick" else 400)
    while work:
        vals, pc0 = work.pop()
        if rec["paths"] >= maxpaths:
            rec["notes"].append("path limit %d reached" % maxpaths)
            rec["truncated"] = True
            break
        rec["paths"] += 1
        sym = Sym(case, vals, tier, bound=case.get("bound", 100))
        sym.pc0 = pc0
        alg.Ctx.cur = sym.ctx
        try:
            with tracer:
                prop.symbolic(case, sym)
            for nv, j in sym.alternatives():
                if nv is None:
                    rec["notes"].append("branch feasibility unknown")
                    rec["status"] = "inconclusive"
                else:
                    work.append((nv, j))
        except Candidate as c:
            cands.append((c.what, c.values))
            break
        except Undecided as u:
            rec["notes"].append("undecided: %s" % u)
            rec["status"] = "inconclusive"
            cands.append((None, vals))
            break
        except SoftTimeout as u:
            rec["notes"].append("undecided: %s" % u)
            rec["status"] = "inconclusive"
            cands.append((None, vals0))
            break
        except Unsupported as u:
            rec["notes"].append("not encodable: %s" % u)
            rec["status"] = "inconclusive"
            cands.append((None, vals))
            break
        except Fail as f:
            cands.append((str(f), vals))
            break
        except Exception as ex:
            rec["notes"].append("exception during symbolic run: %r" % (ex,))
            rec["trace"] = traceback.format_exc()[-1500:]
            rec["status"] = "inconclusive"
            cands.append((None, vals))
            break
        finally:
            rec["ops"] += sym.ctx.stats["ops"]
            rec["cells"] += sym.e.validated_cells
            rec["obligations"] += sym.obl
            for k, v in sym.e.opcount.items():
                rec["opnames"][k] = rec["opnames"].get(k, 0) + v
    signal.setitimer(signal.ITIMER_REAL, 0)
    rec["solver"] = solve.STATS.dump()
    rec["functions"] = sorted(tracer.seen)
    if cands:
        what, vals = cands[0]
        tries = list(vals) if isinstance(vals, list) else [vals]
        if hasattr(prop, "retries"):
            tries += prop.retries(case)
        else:
            tries += default_retries(prop, case)
        for v in tries:
            f = replay_concrete(prop, case, v)
            if f is not None:
                rec["status"] = "violation"
                rec["what"] = what or "solver undecided"
                rec["replay"] = f
                rec["values"] = jsonable(v)
                break
        else:
            if what is not None:
                rec["status"] = "inconclusive"
                rec["notes"].append("counterexample to '%s' did not reproduce on the real code" % what)
    else:
        # translation validation of the whole harness on the base input
        prop.light = True
        f = replay_concrete(prop, case, vals0)
        prop.light = False
        if f is not None:
            rec["status"] = "violation"
            rec["what"] = "real-number encoding holds, real code does not"
            rec["replay"] = f
            rec["values"] = jsonable(vals0)
        else:
            rec["validated"] = 1
    rec["wall"] = time.time() - t0
    return rec


def default_retries(prop, case):
    out = []
    base = prop.values(case)
    for seed in range(1, 6):
        out.append(prop.values(case, seed=seed))
    out.append({k: (np.zeros_like(v) if isinstance(v, np.ndarray) else v) for k, v in base.items()})
    for sc, seed in ((20, 7), (60, 8)):
        big = prop.values(case, seed=seed)
        out.append({k: (np.clip(v * sc, -95, 95) if isinstance(v, np.ndarray) and v.dtype.kind == "f" else v) for k, v in big.items()})
    return out


def jsonable(v):
    if isinstance(v, dict):
        return {k: jsonable(x) for k, x in v.items()}
    if isinstance(v, np.ndarray):
        return {"__nd__": v.tolist(), "dtype": str(v.dtype)}
    if isinstance(v, (np.floating, np.integer)):
        return v.item()
    if isinstance(v, (list, tuple)):
        return [jsonable(x) for x in v]
    return v


def unjson(v):
    if isinstance(v, dict):
        if "__nd__" in v:
            return np.array(v["__nd__"], dtype=v["dtype"])
        return {k: unjson(x) for k, x in v.items()}
    if isinstance(v, list):
        return [unjson(x) for x in v]
    return v
