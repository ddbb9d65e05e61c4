from .base import *  # noqa
from . import large


class Partition(Prop):
    "log-partition == log of the sum over every structure"

    def __init__(self, pid, families):
        self.pid = pid
        self.families = families
        self.bounds = "families %s; sizes as listed in case_extent; potentials symbolic reals in [-100,100]; in cases with 'large' only that many parts per element and some of the padding are symbolic, the others zero" % families

    def cases(self, tier):
        return table(self.families, "thorough") + systematic(self.families, 6000 if tier == "thorough" else 700) + large.large(self.families, tier, seeds=(1, 2, 3, 4), heavy=True)

    def symbolic(self, case, sym):
        with sym, grad_ctx(case):
            fam, ts, cells, d = sym_dist(case, sym)
            v = d.partition
        shape_is(v, (case["B"],), "partition")
        out = sym.cells(v)
        for b in range(case["B"]):
            Z = large.sum_poly(sym, fam, cells, b) if case.get("large") else sym.Z(cells, fam.structs(b), b, len(ts))
            sym.equal_log("partition of batch element %d" % b, out[b], Z)

    def concrete(self, case, vals):
        with grad_ctx(case):
            fam, ts, d = real_dist(case, vals)
            v = d.partition
        shape_is(v, (case["B"],), "partition")
        need(v.dtype == ts[0].dtype, "partition: dtype %s" % v.dtype)
        for b in range(case["B"]):
            want = np.log(large.total(fam, vals, b)) if case.get("large") else F.lse(F.score_vec(fam, vals, b))
            need(close(v[b], want, case), "partition[%d] = %r, sum over all structures = %r" % (b, float(v[b]), want))
