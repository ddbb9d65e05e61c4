"""Sizes whose structures cannot be listed: a few parts symbolic, the other potentials zero.

With all other weights one, every sum over structures is a polynomial in the weights of the
marked parts whose coefficients count structures; the specification computes it by the
recursions of ``oracle.dp``. The code under test still executes every operation of the full
size.
"""
from .base import *  # noqa
from oracle import dp
import z3


class Polys:
    zero, one = Poly({}), poly(1)
    add = staticmethod(lambda a, b: alg.padd(a, b))
    mul = staticmethod(lambda a, b: alg.pmul(a, b))


def sizes(tier):
    out = [
        C("chain", 1, 12, C=4),
        C("chain", 2, 20, C=3, lengths=[20, 13]),
        C("chain", 1, 33, C=3),
        C("chain", 2, 34, C=2, lengths=[33, 34]),
        C("chain", 1, 70, C=2),
        C("chain", 2, 4, C=12, lengths=[4, 3]),
        C("chain", 8, 10, C=2, lengths=[1, 10, 3, 9, 5, 2, 8, 6]),
        C("chain", 17, 4, C=2, lengths=[2, 4, 3] * 5 + [1, 4]),
        C("semi", 1, 10, K=6, C=2),
        C("semi", 2, 18, K=4, C=2, lengths=[18, 11]),
        C("semi", 1, 20, K=9, C=1),
        C("semi", 2, 9, K=10, C=2, lengths=[7, 9]),
        C("semi", 1, 34, K=3, C=1),
        C("semi", 1, 4, K=3, C=7),
        C("semi", 6, 8, K=5, C=1, lengths=[8, 1, 2, 5, 6, 7]),
        C("semi", 17, 4, K=3, C=1, lengths=[3, 4, 2] * 5 + [4, 1]),
        C("dep", 1, 7, multiroot=True),
        C("dep", 1, 8, multiroot=False),
        C("dep", 2, 9, multiroot=True, lengths=[9, 6]),
        C("dep", 2, 8, multiroot=False, lengths=[5, 8]),
        C("dep", 1, 6, L=4, multiroot=True),
        C("dep", 2, 6, L=3, multiroot=False, lengths=[6, 5]),
        C("dep", 1, 12, multiroot=False),
        C("dep", 17, 3, multiroot=True, lengths=[1, 3, 2] * 5 + [3, 2]),
        C("dep", 9, 4, multiroot=False, lengths=[2, 4, 3, 1, 4, 2, 3, 1, 4]),
        C("tree", 1, 9, NT=3),
        C("tree", 2, 12, NT=2, lengths=[12, 8]),
        C("tree", 1, 4, NT=9),
        C("tree", 5, 8, NT=1, lengths=[8, 1, 3, 7, 5]),
        C("tree", 1, 17, NT=1),
        C("tree", 17, 4, NT=1, lengths=[2, 4, 3] * 5 + [4, 1]),
        C("cfg", 1, 6, NT=3, T=3),
        C("cfg", 2, 8, NT=2, T=2, lengths=[8, 5]),
        C("cfg", 1, 10, NT=1, T=2),
        C("cfg", 1, 4, NT=4, T=5),
        C("cfg", 3, 7, NT=2, T=1, lengths=[4, 7, 6]),
        C("cfg", 9, 4, NT=1, T=2, lengths=[2, 4, 3] * 3),
    ]
    if tier == "thorough":
        out += [
            C("chain", 1, 130, C=2),
            C("chain", 2, 65, C=4, lengths=[65, 64]),
            C("chain", 1, 16, C=9),
            C("semi", 1, 40, K=6, C=2),
            C("semi", 2, 20, K=12, C=2, lengths=[20, 17]),
            C("dep", 2, 14, multiroot=True, lengths=[14, 11]),
            C("dep", 1, 16, multiroot=False),
            C("tree", 1, 24, NT=2),
            C("tree", 2, 16, NT=5, lengths=[16, 15]),
            C("cfg", 1, 12, NT=3, T=3),
            C("cfg", 2, 9, NT=4, T=4, lengths=[9, 7]),
        ]
    return out


# too slow for quantities other than the partition
HEAVY = [("dep", 12), ("dep", 14), ("dep", 16), ("tree", 17), ("tree", 24), ("cfg", 10), ("cfg", 12)]


def large(families, tier, seeds=(1, 2), nsym=5, heavy=False, **more):
    "cases: each size with some choices of the symbolic parts"
    out = []
    for c in sizes(tier):
        if c["family"] in families and (heavy or (c["family"], c["N"]) not in HEAVY):
            for s in seeds:
                out.append(dict(c, large=nsym, seed=s, **more))
    return out


def usable(fam, b):
    "indices of parts some structure of this element may use, per tensor"
    c, n = fam.c, fam.length(b)
    if fam.name == "chain":
        return [[ix for ix in np.ndindex(c["N"] - 1, c["C"], c["C"]) if ix[0] < n - 1]]
    if fam.name == "semi":
        return [[ix for ix in np.ndindex(c["N"] - 1, c["K"], c["C"], c["C"]) if ix[1] > 0 and ix[0] + ix[1] < n]]
    if fam.name == "dep":
        sh = (c["N"], c["N"]) + ((c["L"],) if c.get("L") else ())
        return [[ix for ix in np.ndindex(*sh) if ix[0] < n and ix[1] < n]]
    if fam.name == "tree":
        return [[ix for ix in np.ndindex(c["N"], c["N"], c["NT"]) if ix[0] <= ix[1] < n]]
    S_ = c["NT"] + c["T"]
    return [
        [ix for ix in np.ndindex(c["N"], c["T"]) if ix[0] < n],
        list(np.ndindex(c["NT"], S_, S_)),
        list(np.ndindex(c["NT"])),
    ]


def masks(case):
    "entries that are symbolic, per tensor"
    fam = F.Family(case["family"], case)
    rng = np.random.default_rng(1000 + case.get("seed", 0))
    out = {n: np.zeros(s, dtype=bool) for n, s in fam.shapes()}
    names = [n for n, _ in fam.shapes()]
    for b in range(case["B"]):
        ok = usable(fam, b)
        if case.get("untied") and b != case["seed"] % case["B"]:
            continue  # each element multiplies the number of paths
        k = case["large"] if case["B"] <= 2 else max(min(2, case["large"]), case["large"] - 2)
        for t, xs in enumerate(ok):
            if not xs:
                continue
            # a rule may be used many times: few of them keep the polynomials small
            kt = k if len(ok) == 1 else ((3, 1, 1) if case["large"] > 2 else (1, 1, 0))[t]
            pick = [xs[i] for i in rng.choice(len(xs), min(kt, len(xs)), replace=False)]
            if len(ok) == 1:  # the last usable part is where sizes and lengths meet
                pick[-1] = xs[-1] if case.get("seed", 0) % 2 else xs[len(xs) - 1 - int(rng.integers(min(4, len(xs))))]
            for ix in pick:
                out[names[t]][(b,) + ix] = True
            a = out[names[t]][b]
            rest = [ix for ix in np.ndindex(*a.shape) if ix not in set(xs)]
            for i in rng.choice(len(rest), min(2, len(rest)), replace=False) if rest else ():
                a[rest[i]] = True
    return out


def values(case, seed=None):
    v = F.Family(case["family"], case).values(case.get("seed", 0) if seed is None else seed)
    m = masks(case)
    return {n: np.where(m[n], x, base(case, n, x.shape)) for n, x in v.items()}


def base(case, name, shape):
    "the other potentials: zero, or (where sums do not matter) exactly representable and untied"
    if not case.get("untied"):
        return np.zeros(shape)
    rng = np.random.default_rng(len(name) + 17 * case.get("seed", 0) + ord(name[0]))
    return rng.integers(-(2**20), 2**20, size=shape) / 2.0**19


def sum_poly(sym, fam, cells, b):
    "the sum over structures as a polynomial in the weights of the symbolic parts"
    alg.Ctx.cur = sym.ctx

    def w(t, ix):
        x = cells[t][(b,) + ix]
        if isinstance(x, (int, float)) and x == 0:
            return Polys.one
        return Poly({sym.weight(cells, {(t, ix): 1}, b, len(cells)): 1})

    return dp.total(fam, b, w, Polys)


def uses(sym, cells, b, Z):
    "for every symbolic part the polynomial: number of uses times weight, summed over structures"
    A = sym.ctx.atoms
    where = {}
    for t, c in enumerate(cells):
        for ix in np.ndindex(*c[b].shape):
            x = c[(b,) + ix]
            if isinstance(x, (int, float)):
                continue
            ((a, _),) = sym.weight(cells, {(t, ix): 1}, b, len(cells))
            where[t, ix] = a
    out = {}
    for part, a in where.items():
        n = {}
        for m, k in Z.t.items():
            e = dict(m).get(a, 0)
            if e:
                n[m] = k * e
        out[part] = Poly(n)
    return out


def scores(sym, fam, cells, b):
    "the best score for every set of symbolic parts a structure may use"
    alg.Ctx.cur = sym.ctx

    def w(t, ix):
        x = cells[t][(b,) + ix]
        return {frozenset(): float(x)} if isinstance(x, (int, float)) else {frozenset([(t, ix)]): 0.0}

    out = []
    for parts, s in dp.total(fam, b, w, dp.Tropical).items():
        p = poly(alg.num(s))
        for t, ix in parts:
            p = alg.padd(p, poly(cells[t][(b,) + ix]))
        out.append(p)
    return out


def kscores(sym, fam, cells, b, k):
    "the k best scores for every set of symbolic parts a structure may use"
    alg.Ctx.cur = sym.ctx

    def w(t, ix):
        x = cells[t][(b,) + ix]
        return {frozenset(): (float(x),)} if isinstance(x, (int, float)) else {frozenset([(t, ix)]): (0.0,)}

    out = []
    for parts, ss in dp.total(fam, b, w, dp.TropicalK(k)).items():
        for s in ss:
            p = poly(alg.num(s))
            for t, ix in parts:
                p = alg.padd(p, poly(cells[t][(b,) + ix]))
            out.append(p)
    return out


def kbest(case, fam, vals, b, k):
    "numeric k best scores"
    names = [n for n, _ in fam.shapes()]
    w = lambda t, ix: {frozenset(): (float(np.asarray(vals[names[t]])[(b,) + ix]),)}
    return dp.total(fam, b, w, dp.TropicalK(k)).get(frozenset(), ())


class Counted:
    "is some structure inside the event, by its number of parts: {parts: Boolean}"
    zero, one = {}, {0: alg.TRUE}

    @staticmethod
    def add(a, b):
        return {k: alg.bor(a.get(k, alg.FALSE), b.get(k, alg.FALSE)) for k in a.keys() | b.keys()}

    @staticmethod
    def mul(a, b):
        r = {}
        for k, x in a.items():
            for l, y in b.items():
                z = alg.band(x, y)
                if z.z is not False:
                    r[k + l] = alg.bor(r.get(k + l, alg.FALSE), z)
        return r


def is_structure(fam, evc, b, pre=()):
    "Booleans that together say: the (first) event table is the indicator of one structure"
    e = evc[0][pre + (b,)]
    on, bits = {}, []
    for ix in np.ndindex(*e.shape):
        on[ix] = alg.cmp_cells("eq", e[ix], 1)
        bits.append(alg.bor(on[ix], alg.cmp_cells("eq", e[ix], 0)))
    inside = dp.total(fam, b, lambda t, ix: {1: on[ix]} if on[ix].z is not False else {}, Counted)
    n = z3.Sum([z3.If(alg.bz(x), 1, 0) for x in on.values() if x.z is not False] + [z3.IntVal(0)])
    some = [alg.band(x, alg.B(n == k, True)) for k, x in inside.items()]
    return [alg.band(*bits), alg.bor(*some)]


def structure_inside(fam, e, b):
    "numeric: does the 0/1 table e hold exactly one structure's parts?"
    e = np.asarray(e)
    if not np.isin(e, (0, 1)).all():
        return False
    inside = dp.total(fam, b, lambda t, ix: {1: alg.TRUE} if e[ix] == 1 else {}, Counted)
    return int(e.sum()) in inside


def best(case, fam, vals, b):
    "numeric best score"
    names = [n for n, _ in fam.shapes()]
    return dp.total(fam, b, lambda t, ix: float(np.asarray(vals[names[t]])[(b,) + ix]), Best)


class Best:
    zero, one = -np.inf, 0.0
    add = staticmethod(max)
    mul = staticmethod(lambda a, b: a + b)


class PolyDuals:
    zero, one = (Poly({}), Poly({})), (poly(1), Poly({}))
    add = staticmethod(lambda a, b: (alg.padd(a[0], b[0]), alg.padd(a[1], b[1])))
    mul = staticmethod(lambda a, b: (alg.pmul(a[0], b[0]), alg.padd(alg.pmul(a[0], b[1]), alg.pmul(a[1], b[0]))))


def uses_of(sym, fam, cells, b, part):
    "the polynomial of one part with a constant potential (weight one)"
    alg.Ctx.cur = sym.ctx

    def w(t, ix):
        x = cells[t][(b,) + ix]
        if isinstance(x, (int, float)) and x == 0:
            return (Polys.one, Polys.one if (t, ix) == part else Polys.zero)
        m = Poly({sym.weight(cells, {(t, ix): 1}, b, len(cells)): 1})
        return (m, m if (t, ix) == part else Polys.zero)

    return dp.total(fam, b, w, PolyDuals)[1]


def plain_parts(case, b, k):
    "some usable parts that are not symbolic, and all parts no structure can use"
    fam = F.Family(case["family"], case)
    rng = np.random.default_rng(7 + case.get("seed", 0) + 31 * b)
    m = masks(case)
    some, never = [], []
    for t, xs in enumerate(usable(fam, b)):
        a = m[fam.shapes()[t][0]][b]
        ok = set(xs)
        free = [ix for ix in xs if not a[ix]]
        some += [(t, free[i]) for i in rng.choice(len(free), min(k, len(free)), replace=False)] if free else []
        never += [(t, ix) for ix in np.ndindex(*a.shape) if ix not in ok]
    return some, never


def total(fam, vals, b):
    "numeric sum over structures"
    x = [np.exp(np.asarray(vals[n], dtype=float)) for n, _ in fam.shapes()]
    return dp.total(fam, b, lambda t, ix: float(x[t][(b,) + ix]), dp.Floats)


def marked(case, b):
    m = masks(case)
    for t, (n, _) in enumerate(F.Family(case["family"], case).shapes()):
        for ix in np.argwhere(m[n][b]):
            yield t, tuple(int(i) for i in ix)


def prob(fam, vals, b, part):
    "numeric expected number of uses of a part"
    x = [np.exp(np.asarray(vals[n], dtype=float)) for n, _ in fam.shapes()]

    def w(t, ix):
        v = float(x[t][(b,) + ix])
        return (v, v if (t, ix) == part else 0.0)

    z, dz = dp.total(fam, b, w, dp.Duals)
    return dz / z


def expected(case, fam, vals, b, table=None):
    "numeric expected score under vals, scored by table (parts outside the mask score zero)"
    table = vals if table is None else table
    names = [n for n, _ in fam.shapes()]
    return sum(float(np.asarray(table[names[t]])[(b,) + ix]) * prob(fam, vals, b, (t, ix)) for t, ix in marked(case, b))


def one_structure(case, fam, b, rng):
    "some structure of this element, by choices in the recursions that favour symbolic parts: {part: uses}"
    on = set(marked(case, b))

    class Pick:
        zero, one = (0.0, ()), (1.0, ())

        @staticmethod
        def add(a, b):
            n = a[0] + b[0]
            return (n, a[1] if rng.random() * n < a[0] else b[1])

        mul = staticmethod(lambda a, b: (a[0] * b[0], a[1] + b[1]))

    out = {}
    for p in dp.total(fam, b, lambda t, ix: (30.0 if (t, ix) in on else 1.0, ((t, ix),)), Pick)[1]:
        out[p] = out.get(p, 0) + 1
    return out


class PolyQuads:
    "sums with two commuting derivations: (z, Fz, Pz, FPz)"
    zero, one = (Poly({}),) * 4, (poly(1),) + (Poly({}),) * 3
    add = staticmethod(lambda a, b: tuple(alg.padd(x, y) for x, y in zip(a, b)))

    @staticmethod
    def mul(a, b):
        def m(*ij):
            r = Poly({})
            for i, j in ij:
                if a[i].t and b[j].t:
                    r = alg.padd(r, alg.pmul(a[i], b[j]))
            return r

        return m((0, 0)), m((0, 1), (1, 0)), m((0, 2), (2, 0)), m((0, 3), (1, 2), (2, 1), (3, 0))


def with_function(sym, fam, cells, b, part, f):
    """Sums over structures of 1, F, P and F*P times the weight, where F adds up f(part) over
    the parts of the structure and P counts the uses of one part."""
    alg.Ctx.cur = sym.ctx
    z = Poly({})

    def w(t, ix):
        x = cells[t][(b,) + ix]
        m = Polys.one if isinstance(x, (int, float)) and x == 0 else Poly({sym.weight(cells, {(t, ix): 1}, b, len(cells)): 1})
        g = f(t, ix)
        fm = alg.pmul(g, m) if g is not None else z
        on = (t, ix) == part
        return (m, fm, m if on else z, fm if on else z)

    return dp.total(fam, b, w, PolyQuads)


class Quads:
    zero, one = np.zeros(4), np.array([1.0, 0, 0, 0])
    add = staticmethod(lambda a, b: a + b)
    mul = staticmethod(lambda a, b: np.array([a[0] * b[0], a[0] * b[1] + a[1] * b[0], a[0] * b[2] + a[2] * b[0], a[0] * b[3] + a[1] * b[2] + a[2] * b[1] + a[3] * b[0]]))


def with_function_num(fam, vals, b, part, f):
    "the same in numbers, divided by the sum of the weights"
    x = [np.exp(np.asarray(vals[n], dtype=float)) for n, _ in fam.shapes()]

    def w(t, ix):
        v, on = float(x[t][(b,) + ix]), (t, ix) == part
        g = f(t, ix)
        return np.array([v, g * v, on * v, on * g * v])

    q = dp.total(fam, b, w, Quads)
    return q / q[0]
