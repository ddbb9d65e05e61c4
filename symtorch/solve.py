"""Queries: equality of encoded values with a specification, validity of formulas."""
import math
import time
from fractions import Fraction

import z3

from . import alg
from .alg import Fin, Poly, Unsupported, bz, num, poly, to_z3


class Stats:
    def __init__(self):
        self.q = {"unsat": 0, "sat": 0, "unknown": 0, "by_identity": 0}
        self.time = 0.0
        self.max_terms = 0

    def add(self, r, dt):
        self.q[str(r)] += 1
        self.time += dt

    def merge(self, o):
        for k in self.q:
            self.q[k] += o["q"][k]
        self.time += o["time"]

    def dump(self):
        return {"q": dict(self.q), "time": self.time}


STATS = Stats()
_DUMP = None  # optional list collecting SMT-LIB2 texts for cross-checking


def _check(s, timeout, assumptions=()):
    s.set("timeout", int(timeout * 1000))
    if _DUMP is not None:
        _DUMP.append(s.sexpr())
    t = time.time()
    r = s.check(*assumptions)
    STATS.add(r, time.time() - t)
    return r


# ------------------------------------------------------------------ model values
def zval(m, z):
    v = m.eval(z, model_completion=True)
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    raise Unsupported("model value")


def model_inputs(m, ctx, prefer="exp"):
    """Values of the input variables in a model.

    An input may occur directly, through its exponential, or both (the theory of
    exp is not part of the queries; the replay settles which reading is real).
    """
    out = {}
    used = {d.name() for d in m.decls()}
    for a in ctx.atoms:
        if a.kind != "var":
            continue
        v = None
        if prefer == "var" and a.name in used:
            v = float(zval(m, a.z))
        elif a.exp is not None and ctx.atoms[a.exp].name in used:
            w = float(zval(m, ctx.atoms[a.exp].z))
            if w > 0:
                v = math.log(w)
        if a.name in used and (v is None):
            v = float(zval(m, a.z))
        if v is None:
            v = a.val
        out[a.name] = v
    return out


# ------------------------------------------------------------------ terms
class Terms:
    "z3 terms for Polys with sum atoms replaced by their definitions."

    def __init__(self, ctx):
        self.ctx = ctx
        self.memo = {}

    def atom(self, aid):
        a = self.ctx.atoms[aid]
        if a.kind == "sum":
            if aid not in self.memo:
                self.memo[aid] = self.term(a.data)
            return self.memo[aid]
        return a.z

    def term(self, p):
        if not isinstance(p, Poly):
            return alg._zr(num(p))
        ts = []
        for m, c in p.t.items():
            fs = []
            for a, e in m:
                if e < 0:
                    raise Unsupported("negative exponent in cleared polynomial")
                fs += [self.atom(a)] * e
            z = None
            for f in fs:
                z = f if z is None else z * f
            if z is None:
                z = alg._zr(c)
            elif c != 1:
                z = alg._zr(c) * z
            ts.append(z)
        if not ts:
            return z3.RealVal(0)
        return ts[0] if len(ts) == 1 else z3.Sum(ts)


def clear(p, q):
    "Multiply both by one positive monomial so that no exponent is negative."
    den = {}
    for x in (p, q):
        for m in x.t:
            for a, e in m:
                if e < 0:
                    den[a] = max(den.get(a, 0), -e)
    if den:
        mono = Poly({tuple(sorted(den.items())): 1})
        p, q = alg.pmul(p, mono), alg.pmul(q, mono)
    return p, q, den


def den_atoms(p):
    return sorted({a for m in p.t for a, e in m if e < 0})


def atoms_of(ctx, ps, through=True):
    seen = set()
    st = [a for p in ps for m in p.t for a, _ in m]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        a = ctx.atoms[x]
        if through and a.kind == "sum":
            st.extend(y for m in a.data.t for y, _ in m)
    return seen


def expand(ctx, p, limit=400000):
    "Python-side expansion of sum atoms (used only when z3's own is too slow)."
    while True:
        ids = [a for m in p.t for a, e in m if ctx.atoms[a].kind in ("sum", "csum")]
        if not ids:
            return p
        top = max(ids)
        p = alg.subst_atom(p, top, poly(ctx.atoms[top].data))
        if len(p.t) > limit:
            raise Unsupported("expansion too large")


def prove_equal_poly(ctx, p, q, pc=(), timeout=60, side=False):
    """Is p == q for all admissible values of the atoms?

    Returns ("unsat", None), ("sat", model inputs) or ("unknown", reason)."""
    alg.Ctx.cur = ctx
    p, q = poly(p), poly(q)
    p, q, den = clear(p, q)
    T = Terms(ctx)
    ids = atoms_of(ctx, [p, q])
    zp, zq = T.term(p), T.term(q)
    s = z3.Then(z3.With("simplify", som=True, som_blowup=100000000, pull_cheap_ite=False), "purify-arith", "smt").solver()
    for x in ids:
        a = ctx.atoms[x]
        if a.pos and a.kind != "sum":
            s.add(a.z > 0)
        if a.kind == "sum" and not a.pos and x in den:
            s.add(T.atom(x) != 0)
    for b in pc:
        s.add(bz(b))
    if side:
        for c in ctx.side:
            s.add(c)
    if side or pc:
        for c in link(ctx):
            s.add(c)
    s.add(zp != zq)
    r = _check(s, timeout)
    if r == z3.unsat:
        return "unsat", None
    if r == z3.sat:
        return "sat", s.model()
    return "unknown", "solver: %s" % s.reason_unknown()


def link(ctx):
    "Facts tying x and exp(x) together (sound, incomplete)."
    out = []
    for a in ctx.atoms:
        if a.exp is not None and a.kind == "var":
            w = ctx.atoms[a.exp].z
            out += [w > 0, w >= 1 + a.z]
            for k, lo in ((-20, None), (-1, None), (1, None), (20, None)):
                # monotone: x <= k  <->  exp(x) <= e^k (bracketed by rationals)
                e = Fraction(math.exp(k))
                up = alg._zr(e * Fraction(1000001, 1000000))
                dn = alg._zr(e * Fraction(999999, 1000000))
                out.append(z3.Implies(a.z <= k, w <= up))
                out.append(z3.Implies(a.z >= k, w >= dn))
            out.append(z3.Implies(a.z <= 0, w <= 1))
    return out


def exp_mono(p):
    "exp of a log-value Poly -> (offset, Poly)"
    off, m = alg.pexp_parts(poly(p))
    return off, Poly({m: 1})
