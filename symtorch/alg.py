"""Symbolic scalars.

Three kinds of symbolic cell are used:

* ``Poly``  - a Laurent polynomial with rational coefficients over *atoms*
              (potentials, their exponentials, named sums, logs of named sums,
              selected maxima, ...).  Every atom is an SMT real.
* ``Fin``   - a value from a finite set of Python constants, each guarded by an
              SMT Boolean (indices, one-hot entries, masks, sample bits).
* Python numbers / bools - concrete cells.

Next to the SMT term every atom and every guard carries the value it had in the
concrete run that produced it, so each encoding can be validated against what
torch really computed.
"""
import math
from fractions import Fraction

import z3

INF = float("inf")
BIG = 3.0e4  # constant offsets at least this large count as "semiring zero" scale


class Unsupported(Exception):
    "The encoder cannot represent this operation."


class Ctx:
    cur = None

    def __init__(self, bound=100):
        self.atoms = []
        self.key = {}
        self.side = []  # definitional constraints (z3 Bool)
        self.pc = []  # path condition: list of B
        self.nfresh = 0
        self.bound = bound
        self.stats = {"ops": 0, "cells": 0}
        self.bvals = {}
        self.fork = None  # "lin" or "exp": selections become decisions of the path
        self.bdd = None  # simplifier of guards (symtorch.bdd)
        self.same_ties = False  # equal operands of max/topk give equal selections
        self.maxlog = []  # operands of maxima taken while bdd is set
        self.indicators = False  # 0/1 choices enter arithmetic as polynomial atoms
        self.surplus = False  # in forking mode: do not follow choices among stand-ins for "no structure"
        self.fork_cmp = False  # comparisons become decisions of the path, too
        Ctx.cur = self

    def fresh(self, pre):
        self.nfresh += 1
        return "%s!%d" % (pre, self.nfresh)


def ctx():
    return Ctx.cur


# ---------------------------------------------------------------- Booleans
class B:
    "An SMT Boolean together with its value in the concrete run."
    __slots__ = ("z", "v")

    def __init__(self, z, v):
        self.z = z
        self.v = v


class Fork(B):
    "A decision of the path condition with every other way it could go."
    __slots__ = ("strict", "alts", "pick", "picks")

    def __init__(self, z, strict, alts, pick=None, picks=None):
        self.z, self.v = z, True
        self.strict = strict
        self.alts = alts
        self.pick = pick  # scripted outcome of a random draw
        self.picks = picks if picks is not None else [None] * len(alts)


TRUE = B(True, True)
FALSE = B(False, False)


def bnot(a):
    if a.z is True:
        return FALSE
    if a.z is False:
        return TRUE
    if z3.is_not(a.z):
        return B(a.z.arg(0), not a.v)
    return B(z3.Not(a.z), not a.v)


def band(*bs):
    out, ids, v = [], set(), True
    for b in bs:
        v = v and b.v
        if b.z is False:
            return FALSE
        if b.z is True:
            continue
        i = b.z.get_id()
        if i in ids:
            continue
        ids.add(i)
        out.append(b.z)
    if not out:
        return TRUE
    for z in out:
        if z3.is_not(z) and z.arg(0).get_id() in ids:
            return FALSE
    if len(out) == 1:
        return B(out[0], v)
    return B(z3.And(*out), v)


def bor(*bs):
    out, ids, v = [], set(), False
    for b in bs:
        v = v or b.v
        if b.z is True:
            return TRUE
        if b.z is False:
            continue
        i = b.z.get_id()
        if i in ids:
            continue
        ids.add(i)
        out.append(b.z)
    if not out:
        return FALSE
    for z in out:
        if z3.is_not(z) and z.arg(0).get_id() in ids:
            return TRUE
    if len(out) == 1:
        return B(out[0], v)
    return B(z3.Or(*out), v)


def bz(b):
    return z3.BoolVal(b.z) if isinstance(b.z, bool) else b.z


def fresh_bool(pre, val):
    return B(z3.Bool(ctx().fresh(pre)), bool(val))


# ---------------------------------------------------------------- finite sets
class Fin:
    __slots__ = ("alts",)

    def __init__(self, alts):
        self.alts = alts  # list of (python value, B), exhaustive and disjoint

    def val(self):
        for v, c in self.alts:
            if c.v:
                return v
        raise AssertionError("no alternative holds in the concrete run")

    def eq(self, value):
        return bor(*[c for v, c in self.alts if v == value])


def mkfin(pairs):
    "Merge equal values; collapse to a constant when only one remains."
    d = {}
    for v, c in pairs:
        if c.z is False:
            continue
        k = (type(v) is bool, v)
        if k in d:
            d[k].append(c)
        else:
            d[k] = [c]
    alts = [(k[1] if not k[0] else bool(k[1]), bor(*cs)) for k, cs in d.items()]
    if ctx().bdd:
        alts = [(v, ctx().bdd.canon(c)) for v, c in alts]
        alts = [(v, c) for v, c in alts if c.z is not False]
    if len(alts) == 1:
        return alts[0][0]
    return Fin(alts)


def bool_cell(b):
    if isinstance(b.z, bool):
        return b.z
    return Fin([(True, b), (False, bnot(b))])


def cell_bool(x):
    "B for the truth value of a cell."
    if isinstance(x, Fin):
        return bor(*[c for v, c in x.alts if v])
    if isinstance(x, Poly):
        return bnot(cmp_cells("eq", x, 0))
    return TRUE if x else FALSE


MAXFIN = 6000


def fin_map(f, *xs):
    if ctx().bdd:
        return fin_map_bdd(f, ctx().bdd, *xs)
    combos = [((), [])]
    for x in xs:
        if isinstance(x, Fin):
            combos = [(vs + (v,), cs + [c]) for vs, cs in combos for v, c in x.alts]
        else:
            combos = [(vs + (x,), cs) for vs, cs in combos]
        if len(combos) > MAXFIN:
            raise Unsupported("finite cell too large")
    out = []
    for vs, cs in combos:
        g = band(*cs)
        if g.z is False:
            continue
        out.append((f(*vs), g))
    return out


def fin_map_bdd(f, bdd, *xs):
    "as fin_map, dropping combinations of guards that exclude each other"
    combos = [((), TRUE, 1)]
    for x in xs:
        if not isinstance(x, Fin):
            combos = [(vs + (x,), g, n) for vs, g, n in combos]
            continue
        nxt = []
        for vs, g, n in combos:
            for v, c in x.alts:
                m = bdd.conj(n, bdd.of(c.z))
                if m:
                    r = bdd.rep.get(m)
                    nxt.append((vs + (v,), r if r is not None else bdd.canon(band(g, c), m), m))
        combos = nxt
        if len(combos) > MAXFIN:
            raise Unsupported("finite cell too large")
    return [(f(*vs), g) for vs, g, n in combos]


# ---------------------------------------------------------------- atoms / polys
class Atom:
    __slots__ = ("id", "kind", "z", "name", "lo", "hi", "data", "val", "exp", "pos")

    def __repr__(self):
        return "<%s %s>" % (self.kind, self.name)


def _new_atom(kind, name, val, lo=-INF, hi=INF, data=None, z=None, pos=False):
    c = ctx()
    a = Atom()
    a.id = len(c.atoms)
    a.kind, a.name, a.val, a.lo, a.hi, a.data, a.pos = kind, name, val, lo, hi, data, pos
    a.exp = None
    a.z = z if z is not None else z3.Real(name)
    c.atoms.append(a)
    return a


def num(x):
    "Exact rational for a Python/torch number."
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    if isinstance(x, Fraction):
        return x.numerator if x.denominator == 1 else x
    f = Fraction(x)
    return f.numerator if f.denominator == 1 else f


class Poly:
    __slots__ = ("t", "_h")

    def __init__(self, t):
        self.t = t  # {monomial: coef}; monomial = ((atom id, exponent), ...)
        self._h = None

    def key(self):
        if self._h is None:
            self._h = frozenset(self.t.items())
        return self._h

    def const(self):
        return self.t.get((), 0)

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def val(self):
        A = ctx().atoms
        s = 0.0
        for m, c in self.t.items():
            p = float(c)
            for a, e in m:
                p *= A[a].val ** e
            s += p
        return s

    def __repr__(self):
        A = ctx().atoms
        return " + ".join(
            "%s*%s" % (c, "*".join("%s^%s" % (A[a].name, e) for a, e in m)) for m, c in self.t.items()
        )


def norm(p):
    "Poly -> python number when constant."
    if not p.t:
        return 0
    if p.is_const():
        return p.const()
    return p


def poly(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, Fin):
        return fin_to_poly(x)
    x = num(x)
    return Poly({(): x} if x != 0 else {})


def atom_poly(a):
    return Poly({((a.id, 1),): 1})


def var(name, val, lo=None, hi=None):
    "A free real input (a log-potential)."
    b = ctx().bound
    a = _new_atom("var", name, float(val), -b if lo is None else lo, b if hi is None else hi)
    return atom_poly(a)


def _addt(t, m, c):
    v = t.get(m)
    if v is None:
        if c != 0:
            t[m] = c
    else:
        v = v + c
        if v == 0:
            del t[m]
        else:
            if isinstance(v, Fraction) and v.denominator == 1:
                v = v.numerator
            t[m] = v


def padd(a, b, sb=1):
    t = dict(a.t)
    for m, c in b.t.items():
        _addt(t, m, c * sb)
    return Poly(t)


def mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        n = d.get(a, 0) + e
        if n == 0:
            d.pop(a, None)
        else:
            d[a] = n
    return tuple(sorted(d.items()))


MAXTERMS = 60000


def pmul(a, b):
    if len(a.t) * len(b.t) > 4_000_000:
        raise Unsupported("polynomial product too large")
    t = {}
    for m1, c1 in a.t.items():
        for m2, c2 in b.t.items():
            _addt(t, mmul(m1, m2), c1 * c2)
    if len(t) > MAXTERMS:
        raise Unsupported("polynomial too large")
    return Poly(t)


def ppow_mono(m, k):
    return tuple((a, e * k) for a, e in m)


def ppow(p, k):
    if k == 0:
        return poly(1)
    if k < 0:
        return precip(ppow(p, -k))
    r = p
    for _ in range(k - 1):
        r = pmul(r, p)
    return r


def interval(p):
    "Sound bounds for a Poly from the bounds of its atoms."
    A = ctx().atoms
    lo = hi = 0.0
    for m, c in p.t.items():
        if not m:
            lo += float(c)
            hi += float(c)
            continue
        if len(m) == 1 and m[0][1] == 1:
            al, ah = A[m[0][0]].lo, A[m[0][0]].hi
        else:
            al, ah = 1.0, 1.0
            for a, e in m:
                x = A[a]
                if e == 1 and x.lo > -INF and x.hi < INF:
                    ps = [al * x.lo, al * x.hi, ah * x.lo, ah * x.hi]
                    al, ah = min(ps), max(ps)
                elif x.lo >= 0 and al >= 0:
                    al, ah = 0.0, INF
                else:
                    al, ah = -INF, INF
                if al != al or ah != ah:
                    al, ah = -INF, INF
        cc = float(c)
        l, h = (cc * al, cc * ah) if cc >= 0 else (cc * ah, cc * al)
        lo += l
        hi += h
    if lo != lo:
        lo = -INF
    if hi != hi:
        hi = INF
    return lo, hi


# definitional atoms ---------------------------------------------------------
def ite_atoms(p):
    A = ctx().atoms
    s = set()
    for m in p.t:
        for a, _ in m:
            if A[a].kind == "ite":
                s.add(a)
    return sorted(s)


def subst_atom(p, aid, q):
    "Replace atom by Poly q (positive integer powers, or q monomial)."
    out = Poly({})
    for m, c in p.t.items():
        e = 0
        rest = []
        for a, k in m:
            if a == aid:
                e = k
            else:
                rest.append((a, k))
        if e == 0:
            out = padd(out, Poly({m: c}))
        else:
            out = padd(out, pmul(Poly({tuple(rest): c}), ppow(q, e)))
    return out


def lift_ite(f, p):
    "Apply f to p, splitting the first ite atom into its branches."
    its = ite_atoms(p)
    if not its:
        return f(p)
    a = ctx().atoms[its[0]]
    outs = []
    for b, q in a.data:
        outs.append((b, lift_ite(f, subst_atom(p, a.id, q))))
    return mkite(outs)


def mkite(branches):
    "branches: [(B, cell)] exhaustive & disjoint -> cell"
    br = [(b, x) for b, x in branches if b.z is not False]
    if len(br) == 1:
        return br[0][1]
    if all(not isinstance(x, (Poly,)) for _, x in br):
        pairs = []
        for b, x in br:
            if isinstance(x, Fin):
                pairs += [(v, band(b, c)) for v, c in x.alts]
            else:
                pairs.append((x, b))
        return mkfin(pairs)
    groups = {}
    for b, x in br:
        if isinstance(x, Fin):
            for v, c in x.alts:
                q = poly(v)
                groups.setdefault(q.key(), (q, []))[1].append(band(b, c))
        else:
            if isinstance(x, float) and math.isinf(x):
                raise Unsupported("ite over infinities")
            q = poly(x)
            groups.setdefault(q.key(), (q, []))[1].append(b)
    items = [(bor(*bs), q) for q, bs in groups.values()]
    items = [(b, q) for b, q in items if b.z is not False]
    if len(items) == 1:
        return norm(items[0][1])
    key = ("ite", tuple(sorted((bz(b).get_id(), q.key()) for b, q in items)))
    c = ctx()
    if key in c.key:
        return atom_poly(c.key[key])
    val = None
    lo, hi = INF, -INF
    for b, q in items:
        l, h = interval(q)
        lo, hi = min(lo, l), max(hi, h)
        if b.v:
            val = q.val()
    a = _new_atom("ite", c.fresh("ite"), val, lo, hi, items)
    for b, q in items:
        c.side.append(z3.Implies(bz(b), a.z == to_z3(q)))
    c.key[key] = a
    return atom_poly(a)


def split_ite(x, limit=256):
    "cell -> [(guard B, Poly or number)] without ite atoms"
    if isinstance(x, Fin):
        return [(c, v) for v, c in x.alts]
    if not isinstance(x, Poly):
        return [(TRUE, x)]
    out, work = [], [(TRUE, x)]
    while work:
        g, p = work.pop()
        if g.z is False:
            continue
        its = ite_atoms(p) if isinstance(p, Poly) else []
        if not its:
            out.append((g, p))
            if len(out) > limit:
                raise Unsupported("too many branches in a value")
            continue
        a = ctx().atoms[its[-1]]
        for b, q in a.data:
            work.append((band(g, b), subst_atom(p, a.id, q)))
    return out


def fin_to_poly(x):
    return poly(mkite([(c, Poly({(): num(v)}) if num(v) != 0 else Poly({})) for v, c in x.alts]))


def is_positive(p):
    "Syntactic positivity: every coefficient and every atom is positive."
    A = ctx().atoms
    for m, c in p.t.items():
        if c < 0:
            return False
        for a, e in m:
            if not A[a].pos and (not isinstance(e, int) or e % 2):
                return False
    return bool(p.t)


def mono_gcd(p):
    "Largest monomial dividing every term (signed exponents)."
    it = iter(p.t)
    g = dict(next(it))
    for m in it:
        d = dict(m)
        ng = {}
        for a in set(g) | set(d):
            e = min(g.get(a, 0), d.get(a, 0))
            if e != 0:
                ng[a] = e
        g = ng
    return tuple(sorted(g.items()))


def sum_atom(p):
    "Name a (non-monomial) Poly as an atom S with definition S = p."
    c = ctx()
    key = ("sum", p.key())
    if key in c.key:
        return c.key[key]
    pos = is_positive(p)
    a = _new_atom("sum", c.fresh("S"), p.val(), 0.0 if pos else -INF, INF, p, pos=pos)
    c.key[key] = a
    return a


def factor(p):
    "p = coef * monomial * S  ->  (coef, monomial, S atom or None)"
    if len(p.t) == 1:
        (m, c), = p.t.items()
        return c, m, None
    g = mono_gcd(p)
    inv = ppow_mono(g, -1)
    q = {mmul(m, inv): c for m, c in p.t.items()}
    # make the content primitive so that proportional sums share an atom
    k = min(q, key=lambda m: (len(m), m))
    lead = q[k]
    if lead != 1:
        q = {m: num(Fraction(c) / lead) for m, c in q.items()}
    return lead, g, sum_atom(Poly(q))


def precip(p):
    c, m, s = factor(p)
    if s is not None:
        m = mmul(m, ((s.id, 1),))
    return Poly({ppow_mono(m, -1): num(Fraction(1) / Fraction(c))})


def exp_atom(a):
    "The atom for exp(a) of an arbitrary real atom a."
    if a.exp is None:
        try:
            v = math.exp(a.val)
        except OverflowError:
            v = INF
        e = _new_atom("exp", "exp(%s)" % a.name, v, 0.0, INF, a.id, pos=True)
        a.exp = e.id
    return ctx().atoms[a.exp]


def const_exp(c):
    "exp of a moderate constant"
    k = ctx().key
    key = ("cexp", num(c))
    if key not in k:
        v = math.exp(float(c))
        k[key] = _new_atom("cexp", "exp(%s)" % c, v, 0.0, INF, num(c), pos=True)
    return k[key]


def cexp_mono(c):
    "exp of a constant as a monomial (integers as powers of one atom)"
    c = num(c)
    if isinstance(c, int) and abs(c) <= 60:
        return ((const_exp(1).id, c),)
    return ((const_exp(c).id, 1),)


def pexp_parts(p):
    "exp(p) -> (big constant offset, monomial).  Raises Unsupported."
    A = ctx().atoms
    m = ()
    off = 0
    for mono, c in p.t.items():
        if not mono:
            off = c
            continue
        if len(mono) == 1 and mono[0][1] == 1 and isinstance(c, int):
            a = A[mono[0][0]]
            if a.kind == "log":
                m = mmul(m, ((a.data, c),))
                continue
            if a.kind == "lnum":  # log of a rational constant
                pass
            m = mmul(m, ((exp_atom(a).id, c),))
            continue
        # opaque non-linear exponent: name it
        q = Poly({mono: 1})
        s = sum_atom(q) if len(mono) > 1 or mono[0][1] != 1 else A[mono[0][0]]
        if isinstance(c, int):
            m = mmul(m, ((exp_atom(s).id, c),))
        else:
            m = mmul(m, ((exp_atom(sum_atom(Poly({mono: c}))).id, 1),))
    return off, m


def pexp(x):
    "aten.exp on a cell"
    if not isinstance(x, (Poly, Fin)):
        if x == -INF or float(x) <= -750:
            return 0
        if x == 0:
            return 1
        return norm(Poly({cexp_mono(x): 1}))
    if isinstance(x, Fin):
        return mkite([(c, pexp(v)) for v, c in x.alts])

    def f(p):
        if p.is_const():
            return pexp(p.const())
        off, m = pexp_parts(p)
        if off <= -BIG:
            return 0  # underflows in every float format under the stated bounds
        if off >= BIG:
            raise Unsupported("exp overflow")
        if off != 0:
            m = mmul(m, cexp_mono(off))
        return norm(Poly({m: 1}))

    return lift_ite(f, x)


def poly_norm_mono(a):
    return atom_poly(a)


def log_mono(m):
    "log of a monomial of positive atoms -> Poly"
    A = ctx().atoms
    out = Poly({})
    for a, e in m:
        x = A[a]
        if x.kind == "exp":
            out = padd(out, Poly({((x.data, 1),): e}))
        elif x.kind == "cexp":
            out = padd(out, poly(num(Fraction(x.data) * e)))
        else:
            out = padd(out, Poly({((log_atom(x).id, 1),): e}))
    return out


def log_atom(s):
    c = ctx()
    key = ("log", s.id)
    if key not in c.key:
        if not s.pos and not (s.lo > 0):
            if s.val <= 0:
                raise Unsupported("log of a non-positive term")
            c.side.append(s.z > 0)
        lo, hi = log_range(s)
        c.key[key] = _new_atom("log", "log(%s)" % s.name, math.log(s.val), lo, hi, data=s.id)
    return c.key[key]


def log_range(a):
    "Bounds on log(a) for a positive atom."
    if not a.pos:
        return -INF, INF
    if a.kind == "exp":
        x = ctx().atoms[a.data]
        return x.lo, x.hi
    if a.kind in ("cexp",):
        return float(a.data), float(a.data)
    if a.kind == "csum":
        return math.log(a.val), math.log(a.val)
    if a.kind != "sum":
        return -INF, INF
    memo = ctx().key.setdefault("logrange", {})
    if a.id in memo:
        return memo[a.id]
    los, his = [], []
    for m, c in a.data.t.items():
        l = h = math.log(float(c))
        for x, e in m:
            xl, xh = log_range(ctx().atoms[x])
            if e >= 0:
                l, h = l + e * xl, h + e * xh
            else:
                l, h = l + e * xh, h + e * xl
        los.append(l if l == l else -INF)
        his.append(h if h == h else INF)
    memo[a.id] = (max(los), max(his) + math.log(len(his)))
    return memo[a.id]


def const_log(c):
    c = num(c)
    if c == 1:
        return Poly({})
    if c <= 0:
        raise Unsupported("log of a non-positive constant")
    k = ctx().key
    key = ("clog", c)
    if key not in k:
        s = _new_atom("csum", "c(%s)" % c, float(c), float(c), float(c), c, pos=True)
        ctx().side.append(s.z == to_z3(poly(c)))
        k[key] = log_atom(s)
    return atom_poly(k[key])


def plog(x):
    if isinstance(x, Fin):
        return mkite([(c, plog(v)) for v, c in x.alts])
    if not isinstance(x, Poly):
        if x == 0:
            return -INF
        return norm(const_log(x))

    def f(p):
        if not p.t:
            return -INF
        c, m, s = factor(p)
        A = ctx().atoms
        if c < 0 or any(not A[a].pos for a, _ in m):
            # name the whole thing
            s2 = sum_atom(p)
            return norm(atom_poly(log_atom(s2)))
        out = padd(const_log(c), log_mono(m))
        if s is not None:
            out = padd(out, atom_poly(log_atom(s)))
        return norm(out)

    return lift_ite(f, x)


def logsumexp(xs):
    "log sum exp of cells, dominant terms only (stated abstraction of -1e5)."
    if not any(isinstance(x, (Poly, Fin)) for x in xs):
        xs = [float(x) for x in xs]
        m = max(xs)
        if m == -INF:
            return -INF
        rest = [x for x in xs if x > m - BIG]
        if len(rest) == 1:
            return num(m)
        if all(x == m for x in rest):
            return norm(padd(poly(num(m)), const_log(len(rest))))
    for i, x in enumerate(xs):
        if isinstance(x, Fin):
            return mkite([(c, logsumexp(xs[:i] + [v] + xs[i + 1 :])) for v, c in x.alts])
        if isinstance(x, Poly):
            its = ite_atoms(x)
            if its:
                a = ctx().atoms[its[0]]
                return mkite(
                    [
                        (b, logsumexp([subst_atom(y, a.id, q) if isinstance(y, Poly) else y for y in xs]))
                        for b, q in a.data
                    ]
                )
    parts = []
    for x in xs:
        if isinstance(x, float) and x == -INF:
            continue
        if isinstance(x, float) and math.isinf(x):
            raise Unsupported("inf in logsumexp")
        parts.append(pexp_parts(poly(x)))
    if not parts:
        return -INF
    top = max(p[0] for p in parts)
    # split the offset into a "big" part shared by the dominant terms
    t = {}
    for off, m in parts:
        d = off - top
        if d <= -BIG:
            continue
        if d != 0:
            m = mmul(m, cexp_mono(d))
        _addt(t, m, 1)
    p = Poly(t)
    c, m, s = factor(p)
    out = padd(padd(poly(top), const_log(c)), log_mono(m))
    if s is not None:
        out = padd(out, atom_poly(log_atom(s)))
    return norm(out)


def psqrt(x):
    if not isinstance(x, (Poly, Fin)):
        if x < 0:
            raise Unsupported("sqrt of negative")
        f = Fraction(x)
        a, b = math.isqrt(f.numerator), math.isqrt(f.denominator)
        if a * a == f.numerator and b * b == f.denominator:
            return num(Fraction(a, b))
        x = poly(x)
    if isinstance(x, Fin):
        return mkite([(c, psqrt(v)) for v, c in x.alts])

    def f(p):
        if p.is_const() and not p.t:
            return 0
        c = ctx()
        key = ("sqrt", p.key())
        if key not in c.key:
            a = _new_atom("sqrt", c.fresh("sqrt"), math.sqrt(max(p.val(), 0.0)), 0.0, INF, p)
            c.side.append(a.z >= 0)
            c.side.append(a.z * a.z == to_z3(p))
            c.key[key] = a
        return atom_poly(c.key[key])

    return lift_ite(f, x)


# ---------------------------------------------------------------- z3 terms
def _zr(c):
    if isinstance(c, int):
        return z3.RealVal(c)
    return z3.RealVal("%d/%d" % (c.numerator, c.denominator))


def to_z3(x):
    if isinstance(x, Fin):
        x = fin_to_poly(x)
    if not isinstance(x, Poly):
        return _zr(num(x))
    A = ctx().atoms
    terms = []
    for m, c in x.t.items():
        z = None
        den = None
        for a, e in m:
            for _ in range(abs(e)):
                if e > 0:
                    z = A[a].z if z is None else z * A[a].z
                else:
                    den = A[a].z if den is None else den * A[a].z
        if z is None:
            z = _zr(c)
        elif c != 1:
            z = _zr(c) * z
        if den is not None:
            z = z / den
        terms.append(z)
    if not terms:
        return z3.RealVal(0)
    if len(terms) == 1:
        return terms[0]
    return z3.Sum(terms)


# ---------------------------------------------------------------- cell ops
def is_sym(x):
    return isinstance(x, (Poly, Fin))


def _isinf(x):
    return isinstance(x, float) and math.isinf(x)


def _ind(x):
    "0/1 choice as a polynomial atom instead of a table of cases"
    if isinstance(x, Fin) and all(v == 0 or v == 1 for v, _ in x.alts):
        return fin_to_poly(x)
    return x


def add(a, b):
    if ctx().indicators:
        a, b = _ind(a), _ind(b)
    if not is_sym(a) and not is_sym(b):
        if _isinf(a) or _isinf(b):
            return float(a) + float(b)
        return num(num(a) + num(b))
    if isinstance(a, Fin) and not isinstance(b, Poly) or isinstance(b, Fin) and not isinstance(a, Poly):
        if not _isinf(a) and not _isinf(b):
            return mkfin(fin_map(lambda x, y: add(x, y), a, b))
    if _isinf(a):
        return a
    if _isinf(b):
        return b
    return norm(padd(poly(a), poly(b)))


def neg(a):
    if not is_sym(a):
        return -a if _isinf(a) else num(-num(a))
    if isinstance(a, Fin):
        return mkfin(fin_map(neg, a))
    return norm(Poly({m: -c for m, c in a.t.items()}))


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    if ctx().indicators:
        a, b = _ind(a), _ind(b)
    if not is_sym(a) and not is_sym(b):
        if _isinf(a) or _isinf(b):
            return float(a) * float(b)
        return num(num(a) * num(b))
    if isinstance(a, Fin) and not isinstance(b, Poly) or isinstance(b, Fin) and not isinstance(a, Poly):
        return mkfin(fin_map(lambda x, y: mul(x, y), a, b))
    if isinstance(a, Fin):
        return mkite([(c, mul(v, b)) for v, c in a.alts])
    if isinstance(b, Fin):
        return mul(b, a)
    if _isinf(a) or _isinf(b):
        raise Unsupported("inf * symbol")
    return norm(pmul(poly(a), poly(b)))


def div(a, b):
    if not is_sym(b):
        if _isinf(b):
            return 0
        if not is_sym(a) and _isinf(a):
            return float(a) / float(b)
        if b == 0:
            if not is_sym(a):
                return float("nan") if a == 0 else math.copysign(INF, a)
            raise Unsupported("division by zero")
        return mul(a, num(Fraction(1) / Fraction(num(b))))
    if isinstance(b, Fin):
        alts = [(v, c) for v, c in b.alts if v != 0 or feasible(c)]
        if any(v == 0 for v, _ in alts):
            raise Unsupported("division by possibly-zero finite value")
        return mkite([(c, div(a, v)) for v, c in alts])
    its = ite_atoms(b)
    if its:
        return lift_ite(lambda q: div(a, norm(q)), b)
    return mul(a, norm(precip(b)))


def feasible(g, timeout=20000):
    "Can g hold on this path?  (used to discard impossible alternatives)"
    c = ctx()
    s = z3.Solver()
    s.set("timeout", timeout)
    for x in c.side:
        s.add(x)
    for x in c.pc:
        s.add(bz(x))
    s.add(bz(g))
    return s.check() != z3.unsat


CMP = {
    "eq": lambda x, y: x == y,
    "ne": lambda x, y: x != y,
    "lt": lambda x, y: x < y,
    "le": lambda x, y: x <= y,
    "gt": lambda x, y: x > y,
    "ge": lambda x, y: x >= y,
}


def cmp_cells(op, a, b):
    "comparison -> B"
    f = CMP[op]
    if not is_sym(a) and not is_sym(b):
        return TRUE if f(a, b) else FALSE
    if not isinstance(a, Poly) and not isinstance(b, Poly):
        return bor(*[g for v, g in fin_map(f, a, b) if v])
    if _isinf(a) or _isinf(b):
        return TRUE if f(a if _isinf(a) else 0.0, b if _isinf(b) else 0.0) else FALSE
    if isinstance(a, Fin):
        return bor(*[band(c, cmp_cells(op, v, b)) for v, c in a.alts])
    if isinstance(b, Fin):
        return bor(*[band(c, cmp_cells(op, a, v)) for v, c in b.alts])
    d = norm(padd(poly(a), poly(b), -1))
    if not is_sym(d):
        return TRUE if f(d, 0) else FALSE
    lo, hi = interval(d)
    if hi < 0:
        return TRUE if f(-1, 0) else FALSE
    if lo > 0:
        return TRUE if f(1, 0) else FALSE
    # clear positive denominators so that comparisons stay polynomial
    d = poly(d)
    den = {}
    A = ctx().atoms
    for m in d.t:
        for x, e in m:
            if e < 0 and A[x].pos:
                den[x] = max(den.get(x, 0), -e)
    if den:
        d = pmul(d, Poly({tuple(sorted(den.items())): 1}))
    z = f(to_z3(d), z3.RealVal(0))
    v = f(poly(a).val(), poly(b).val())
    for m in d.t:
        for x, e in m:
            note_defs(x)
    if ctx().fork_cmp:
        # the comparison is decided as in the concrete run; the opposite becomes an alternative path
        zd = to_z3(d)
        up, dn = zd >= _zr(num(MARGIN)), zd <= _zr(num(-MARGIN))
        val = {"lt": v, "le": v, "gt": not v, "ge": not v}.get(op)
        if val is None:
            raise Unsupported("equality comparison in forking mode")
        ctx().pc.append(Fork(z if v else z3.Not(z), dn if val else up, [up if val else dn]))
        return TRUE if v else FALSE
    return B(z, bool(v))


def note_defs(aid):
    "Make sure definitions reachable from an atom used in a guard are asserted."
    c = ctx()
    seen = c.key.setdefault("noted", set())
    st = [aid]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        a = c.atoms[x]
        if a.kind == "sum":
            c.side.append(sum_def(a))
            for m in a.data.t:
                st.extend(y for y, _ in m)
        elif a.kind == "cexp":
            v = num(a.val)
            c.side.append(a.z >= _zr(v * Fraction(10**12 - 1, 10**12)))
            c.side.append(a.z <= _zr(v * Fraction(10**12 + 1, 10**12)))
        elif a.kind in ("var", "log"):
            if a.lo > -INF:
                c.side.append(a.z >= _zr(num(a.lo)))
            if a.hi < INF:
                c.side.append(a.z <= _zr(num(a.hi)))
        if a.pos:
            c.side.append(a.z > 0)


def sum_def(a):
    "S = p as a polynomial constraint (denominators cleared)"
    p = a.data
    g = {}
    for m in p.t:
        for x, e in m:
            if e < 0:
                g[x] = max(g.get(x, 0), -e)
    if g:
        mm = tuple(sorted(g.items()))
        return to_z3(pmul(Poly({mm: 1}), atom_poly(a))) == to_z3(pmul(p, Poly({mm: 1})))
    return a.z == to_z3(p)


def where(c, a, b):
    "c: cell (bool)"
    g = cell_bool(c)
    if g.z is True:
        return a
    if g.z is False:
        return b
    if a is b:
        return a
    return mkite([(g, a), (bnot(g), b)])


def topk_cells(xs, k, cidx, largest=True, pre="t"):
    """k largest of xs in order -> (values, index cells).

    Ties are resolved arbitrarily: any selection consistent with the order is
    allowed, so what is proved does not depend on torch's tie breaking.
    ``cidx`` are the indices torch picked in the concrete run.
    """
    n = len(xs)
    if not largest:
        vs, ix = topk_cells([neg(x) for x in xs], k, cidx, True, pre)
        return [neg(v) for v in vs], ix
    for i, x in enumerate(xs):
        if isinstance(x, float) and math.isnan(x):
            raise Unsupported("nan in max")
    if not any(is_sym(x) for x in xs):
        return [xs[i] for i in cidx], [int(i) for i in cidx]
    if ctx().fork:
        return fork_topk(xs, k, cidx)
    iv = []
    for x in xs:
        if isinstance(x, Fin):
            vs = [float(v) for v, _ in x.alts]
            iv.append((min(vs), max(vs)))
        elif isinstance(x, Poly):
            iv.append(interval(x))
        else:
            iv.append((float(x), float(x)))
    # peel off groups that dominate / are dominated by everything else
    order = sorted(range(n), key=lambda i: -iv[i][1])
    lo_sorted = sorted((iv[i][0] for i in range(n)), reverse=True)
    # drop candidates that can never be among the k largest
    thr = lo_sorted[k - 1]
    cand = [i for i in range(n) if iv[i][1] >= thr or i in set(cidx)]
    if len(cand) < k:
        raise AssertionError
    if len(cand) < n:
        sub_c = [cand.index(i) for i in cidx]
        vs, ix = topk_cells([xs[i] for i in cand], k, sub_c, True, pre)
        return vs, [_remap(j, cand) for j in ix]
    if n == 1:
        return [xs[0]], [0]
    # group split: a strictly dominating prefix of size h < k
    for h in range(1, n):
        top = order[:h]
        bot = order[h:]
        if min(iv[i][0] for i in top) > max(iv[i][1] for i in bot):
            if h >= k:
                break
            ts = set(top)
            c1 = [top.index(i) for i in cidx if i in ts]
            c2 = [bot.index(i) for i in cidx if i not in ts]
            v1, i1 = topk_cells([xs[i] for i in top], h, c1, True, pre)
            v2, i2 = topk_cells([xs[i] for i in bot], k - h, c2, True, pre)
            return v1 + v2, [_remap(j, top) for j in i1] + [_remap(j, bot) for j in i2]
    c = ctx()
    ps = [poly(x) for x in xs]
    key = None
    if c.same_ties:
        # the same operands are resolved the same way
        key = ("topk", k, tuple(p.key() for p in ps), tuple(cidx))
        if key in c.key:
            return c.key[key]
    zs = [to_z3(p) for p in ps]
    for p in ps:
        for m in p.t:
            for a, _ in m:
                note_defs(a)
    vals, idxs = [], []
    sels = []
    if c.bdd and k == 1:
        # entry i is selected: the first i tests fail and test i succeeds
        lits = [fresh_bool("sel" + pre, i == cidx[0]) for i in range(n - 1)]
        sels.append([band(*[bnot(b) for b in lits[:i]], *lits[i : i + 1]) for i in range(n)])
        c.maxlog.append((ps, lits))
    else:
        for j in range(k):
            row = [fresh_bool("sel" + pre, i == cidx[j]) for i in range(n)]
            sels.append(row)
    for j in range(k):
        lo = sorted((v[0] for v in iv), reverse=True)[j]
        hi = sorted((v[1] for v in iv), reverse=True)[j]
        a = _new_atom("opq", c.fresh("M"), ps[cidx[j]].val(), lo, hi, None)
        vals.append(atom_poly(a))
        for i in range(n):
            c.side.append(z3.Implies(bz(sels[j][i]), a.z == zs[i]))
        c.side.append(z3.PbEq([(bz(s), 1) for s in sels[j]], 1))
        if j:
            c.side.append(vals_z(vals[j - 1]) >= a.z)
    for i in range(n):
        if k > 1:
            c.side.append(z3.AtMost(*[bz(sels[j][i]) for j in range(k)], 1))
            c.side.append(
                z3.Or([bz(sels[j][i]) for j in range(k)] + [zs[i] <= vals_z(vals[-1])])
            )
        else:
            c.side.append(zs[i] <= vals_z(vals[-1]))
    for j in range(k):
        idxs.append(Fin([(i, sels[j][i]) for i in range(n)]))
    if key is not None:
        c.key[key] = vals, idxs
    return vals, idxs


def order(a, b, margin=0):
    "a >= b (+ margin) as z3 term; in exp mode over the exponentials, logs eliminated"
    d = padd(poly(a), poly(b), -1)
    if not d.t or all(m == () for m in d.t):
        return z3.BoolVal(d.val() >= 0)  # a fixed difference needs no margin
    if ctx().fork == "exp":
        off, m = pexp_parts(d)
        if abs(off) >= BIG:
            return z3.BoolVal(off > 0)
        if off != 0:
            m = mmul(m, cexp_mono(off))
        n = tuple((x, e) for x, e in m if e > 0)
        q = tuple((x, -e) for x, e in m if e < 0)
        for x, _ in m:
            note_defs(x)
        zn, zq = to_z3(Poly({n: 1})), to_z3(Poly({q: 1}))
        if not m:
            return z3.BoolVal(margin == 0)
        return zn >= zq * _zr(1 + num(margin)) if margin else zn >= zq
    for m in d.t:
        for x, _ in m:
            note_defs(x)
    return to_z3(d) >= _zr(num(margin))


MARGIN = 0.01
SURPLUS = -5e4


def fork_topk(xs, k, cidx):
    "Follow the selection of the concrete run; the others become alternatives."
    n = len(xs)
    ps = [poly(x) for x in xs]
    iv = [interval(p) for p in ps]

    # entries that differ by a constant only: the smaller one is never chosen first
    var = [tuple(sorted((m, c) for m, c in p.t.items() if m)) for p in ps]
    con = [p.t.get((), 0) for p in ps]
    below = [{j for j in range(n) if var[j] == var[i] and (con[j], -j) > (con[i], -i)} for i in range(n)]
    # entries that stand for "no structure": which of them is taken is not followed
    none = {i for i in range(n) if iv[i][1] < SURPLUS} if ctx().surplus else set()
    full = [int(i) for i in cidx]
    k = min(k, n - len(none))
    if not k:
        return [xs[i] for i in full], full

    def conj(sel, margin):
        rest = [i for i in range(n) if i not in sel and i not in none]
        out = [order(ps[i], ps[j], margin) for i, j in zip(sel, sel[1:])]
        return z3.And(*(out + [order(ps[sel[-1]], ps[j], margin) for j in rest] + [z3.BoolVal(True)]))

    def gen(sel):
        if len(sel) == k:
            yield tuple(sel)
            return
        rest = [i for i in range(n) if i not in sel and i not in none]
        top = max(iv[i][0] for i in rest)
        for i in rest:
            if iv[i][1] >= top and not below[i] - set(sel):
                yield from gen(sel + [i])

    # equal entries in the order gen lists them
    cidx = ()
    for i in full[:k]:
        cidx += (min(j for j in range(n) if ps[j].t == ps[i].t and j not in cidx),)
    alts = [s for s in gen([]) if s != cidx]
    if alts:
        key = ("forked", k, tuple(p.key() for p in ps), cidx)
        if key in ctx().key:  # the same decision again
            return [xs[i] for i in full], full
        ctx().key[key] = True
        ctx().pc.append(Fork(conj(cidx, 0), conj(cidx, MARGIN), [conj(s, MARGIN) for s in alts]))
    return [xs[i] for i in full], full


def vals_z(p):
    return to_z3(p)


def _remap(j, table):
    if isinstance(j, Fin):
        return Fin([(table[v], c) for v, c in j.alts])
    return table[j]


def cell_val(x):
    if isinstance(x, (Poly, Fin)):
        return x.val()
    return x
