"""Comparing returned events with the enumerated structures."""
from .base import *  # noqa
from symtorch.alg import band, bor, bnot
import z3


def part_shapes(fam):
    "shapes of everything marginals/argmax return"
    sh = [s for _, s in fam.shapes()]
    if fam.name == "cfg":
        N, NT = fam.c["N"], fam.c["NT"]
        sh.append((fam.B, N, N, NT))
    return sh


def as_list(fam, r, what):
    if fam.name == "cfg":
        need(isinstance(r, (tuple, list)) and len(r) == 4, "%s: expected a tuple of four" % what)
        return list(r)
    return [r]


def check_shapes(fam, out, what):
    for i, (o, s) in enumerate(zip(out, part_shapes(fam))):
        shape_is(o, s, "%s[%d]" % (what, i))


def event_is(evc, fam, z, b, pre=()):
    "B: the event cells equal the indicator (count) of structure z"
    cs = []
    for t, e in enumerate(evc):
        sub = e[pre + (b,)]
        for ix in np.ndindex(*sub.shape):
            c = alg.cmp_cells("eq", sub[ix], z.get((t, ix), 0))
            if c.z is False:
                return c
            cs.append(c)
    return band(*cs)


def event_score(sym, evc, cells, b, pre=()):
    "z3 term: sum over parts of event value times potential"
    ts = []
    for t, pot in enumerate(cells):
        e = evc[t][pre + (b,)]
        for ix in np.ndindex(*e.shape):
            for g, v in alg.split_ite(e[ix]):
                v = poly(v)
                if v.t:
                    z = alg.to_z3(alg.pmul(v, poly(pot[(b,) + ix])))
                    ts.append(z if g.z is True else z3.If(alg.bz(g), z, z3.RealVal(0)))
    return z3.Sum(ts) if ts else z3.RealVal(0)


def find_struct(fam, ev, b, pre=()):
    arrs = [e.detach().double().numpy()[pre + (b,)] for e in ev]
    for i, z in enumerate(fam.structs(b)):
        if all(abs(a[ix] - z.get((t, ix), 0)) < 1e-6 for t, a in enumerate(arrs) for ix in np.ndindex(*a.shape)):
            return i
    return None


def nonzero(ev, b, pre=()):
    e = ev[0].detach().numpy()[pre + (b,)]
    return [tuple(int(q) for q in i) for i in np.argwhere(e != 0)][:12]


def small_table(families, tier):
    "configurations for queries whose encoding branches on the order of scores"
    rows = {
        "chain": [
            C("chain", 1, 2, C=2),
            C("chain", 2, 2, C=3, lengths=[2, 1]),
            C("chain", 3, 3, C=2, lengths=[1, 3, 2]),
            C("chain", 1, 3, C=3, how="grad"),
            C("chain", 2, 4, C=2, lengths=[3, 4], how="strided"),
            C("chain", 1, 5, C=2, nograd=1),
            C("chain", 2, 5, C=1, lengths=[5, 2]),
            C("chain", 1, 4, C=2, how="nonleaf", dtype="float32"),
            C("chain", 2, 6, C=2, lengths=[6, 4]),
            C("chain", 1, 4, C=3),
        ],
        "semi": [
            C("semi", 1, 2, K=2, C=2),
            C("semi", 1, 2, K=3, C=1),
            C("semi", 2, 3, K=3, C=2, lengths=[3, 2]),
            C("semi", 3, 3, K=4, C=2, lengths=[1, 3, 2], how="grad"),
            C("semi", 1, 4, K=3, C=2, nograd=1),
            C("semi", 2, 4, K=4, C=1, lengths=[3, 4]),
            C("semi", 1, 5, K=6, C=1, how="strided"),
            C("semi", 1, 4, K=5, C=2),
        ],
        "dep": [
            C("dep", 1, 1, multiroot=True),
            C("dep", 2, 2, multiroot=True, lengths=[2, 1]),
            C("dep", 2, 3, multiroot=True, lengths=[3, 2], how="grad"),
            C("dep", 1, 3, multiroot=False),
            C("dep", 2, 3, multiroot=False, lengths=[2, 3], nograd=1),
            C("dep", 1, 2, L=2, multiroot=True, how="strided"),
            C("dep", 1, 2, L=2, multiroot=False),
            C("dep", 1, 4, multiroot=False),
            C("dep", 2, 3, L=2, multiroot=True, lengths=[3, 1]),
        ],
        "tree": [
            C("tree", 1, 1, NT=2),
            C("tree", 2, 2, NT=2, lengths=[2, 1]),
            C("tree", 2, 3, NT=1, lengths=[3, 2], how="grad"),
            C("tree", 1, 3, NT=2, nograd=1),
            C("tree", 2, 4, NT=1, lengths=[3, 4], how="strided"),
            C("tree", 2, 3, NT=3, lengths=[1, 3]),
            C("tree", 1, 5, NT=1),
        ],
        "cfg": [
            C("cfg", 1, 2, NT=1, T=2),
            C("cfg", 1, 2, NT=2, T=1, how="grad"),
            C("cfg", 2, 3, NT=1, T=2, lengths=[3, 2]),
            C("cfg", 1, 3, NT=2, T=1, nograd=1),
            C("cfg", 2, 4, NT=1, T=1, lengths=[3, 4]),
        ],
    }
    if tier == "thorough":
        rows["chain"] += [C("chain", 1, 7, C=2), C("chain", 2, 4, C=3, lengths=[4, 2]), C("chain", 1, 3, C=4), C("chain", 1, 9, C=2)]
        rows["semi"] += [C("semi", 2, 5, K=3, C=2, lengths=[5, 4]), C("semi", 1, 4, K=4, C=2), C("semi", 2, 3, K=3, C=3, lengths=[3, 2])]
        rows["dep"] += [C("dep", 2, 4, multiroot=True, lengths=[4, 3]), C("dep", 1, 3, L=2, multiroot=False), C("dep", 1, 5, multiroot=True)]
        rows["tree"] += [C("tree", 1, 4, NT=2), C("tree", 2, 6, NT=1, lengths=[6, 5])]
        rows["cfg"] += [C("cfg", 1, 3, NT=2, T=2), C("cfg", 2, 4, NT=2, T=1, lengths=[4, 3]), C("cfg", 1, 5, NT=1, T=1)]
    out = []
    for row in itertools.zip_longest(*[rows[f] for f in families]):
        out += [c for c in row if c is not None]
    return out
