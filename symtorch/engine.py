"""Symbolic execution of PyTorch programs at the ATen level.

The real library code runs unmodified on real tensors.  A dispatch mode sees
every ATen call it makes (forward *and* the backward calls issued by autograd)
and maintains a symbolic shadow of every storage that depends on a symbolic
input.  Shadows are kept per storage, so views, strides, aliasing and in-place
writes follow from the tensor metadata and need no per-operator treatment.
"""
import itertools
import math

import numpy as np
import torch
import z3
from torch.overrides import TorchFunctionMode
from torch.utils._python_dispatch import TorchDispatchMode
from torch.utils._pytree import tree_flatten, tree_map

from . import alg
from .alg import (
    B,
    Fin,
    INF,
    Poly,
    Unsupported,
    add,
    band,
    bnot,
    bool_cell,
    bor,
    cell_bool,
    cell_val,
    cmp_cells,
    ctx,
    div,
    is_sym,
    mkfin,
    mkite,
    mul,
    neg,
    num,
    sub,
    where,
)

aten = torch.ops.aten


def _skey(t):
    return t.untyped_storage()._cdata


def _index(t):
    "Flat storage index (in elements) of every element of t."
    idx = np.full(tuple(t.shape), t.storage_offset(), dtype=np.int64)
    for d, (n, s) in enumerate(zip(t.shape, t.stride())):
        shp = [1] * t.dim()
        shp[d] = n
        idx = idx + (np.arange(n, dtype=np.int64) * s).reshape(shp)
    return idx


def conc_cells(t):
    "Concrete tensor -> object array of Python numbers."
    t = t.detach()
    shape = tuple(t.shape)
    flat = t.reshape(-1).tolist() if t.numel() else []
    arr = np.empty(len(flat), dtype=object)
    for i, v in enumerate(flat):
        if isinstance(v, float) and v == int(v) if isinstance(v, float) and math.isfinite(v) else False:
            v = int(v)
        arr[i] = v
    return arr.reshape(shape)


def _obj(shape):
    return np.empty(tuple(shape), dtype=object)


def vmap(f, *arrs):
    "broadcasting elementwise map over object arrays"
    arrs = [a if isinstance(a, np.ndarray) else _scalar(a) for a in arrs]
    bs = np.broadcast_arrays(*arrs) if len(arrs) > 1 else arrs
    out = _obj(bs[0].shape)
    it = [b.reshape(-1) for b in bs]
    fo = out.reshape(-1)
    n = fo.shape[0]
    memo = {}
    for i in range(n):
        args = [b[i] for b in it]
        k = tuple(map(id, args))
        if k in memo:
            fo[i] = memo[k][1]
        else:
            r = f(*args)
            memo[k] = (args, r)
            fo[i] = r
    return fo.reshape(out.shape)


def _scalar(a):
    x = _obj(())
    x[()] = a
    return x


def moveaxis_last(a, dims):
    nd = a.ndim
    dims = [d % nd for d in dims] if nd else []
    rest = [d for d in range(nd) if d not in dims]
    b = a.transpose(rest + dims)
    return b.reshape(b.shape[: len(rest)] + (-1,)), rest, dims


def reduce_cells(f, a, dims, keepdim=False):
    "f: list of cells -> cell, reducing dims"
    nd = a.ndim
    if dims is None or (isinstance(dims, (list, tuple)) and len(dims) == 0):
        dims = list(range(nd))
    if isinstance(dims, int):
        dims = [dims]
    if nd == 0:
        return _scalar(f([a[()]]))
    dims = [d % nd for d in dims]
    b, rest, dims = moveaxis_last(a, list(dims))
    out = _obj(b.shape[:-1])
    for i in np.ndindex(*b.shape[:-1]):
        out[i] = f(list(b[i]))
    if keepdim:
        shp = [1 if d in dims else a.shape[d] for d in range(nd)]
        out = out.reshape(shp)
    return out


def csum(xs):
    fins = [x for x in xs if isinstance(x, Fin)]
    if not fins:
        t = {}
        c = 0
        inf = None
        for x in xs:
            if isinstance(x, Poly):
                for m, k in x.t.items():
                    alg._addt(t, m, k)
            elif isinstance(x, float) and not math.isfinite(x):
                inf = x if inf is None else inf + x
            else:
                c = c + num(x)
        if inf is not None:
            return inf
        if c != 0:
            alg._addt(t, (), num(c))
        return alg.norm(Poly(t))
    s = 0
    for x in xs:
        s = add(s, x)
    return s


def cprod(xs):
    s = 1
    for x in xs:
        s = mul(s, x)
    return s


class Path(Exception):
    pass


class Engine(TorchDispatchMode):
    """Shadow interpreter.  ``draw`` decides what random draws become."""

    def __init__(self, bound=100, validate=True):
        super().__init__()
        self.ctx = alg.Ctx(bound)
        self.shadow = {}  # storage key -> flat object array
        self.keep = []  # keeps storages alive so keys stay unique
        self.lost = {}  # storages of matrix factors: value and cells of the matrix
        self.validate = validate
        self.opcount = {}
        self.draws = []  # symbolic random draws: dicts
        self.symbolic_draws = None  # callable(row index, draw index) -> bool
        self.script = []  # outcomes of the first symbolic draws
        self.inputs = []
        self.partial = False
        self.validated_cells = 0
        self.tol = 1e-6
        self.strict = True  # every operation must agree; otherwise only values that are read out
        self.loose = 0
        self.inner = False
        self.depth = 0
        self.fm = _FuncMode(self)

    # -- life cycle ---------------------------------------------------------
    def __enter__(self):
        alg.Ctx.cur = self.ctx
        super().__enter__()
        self.fm.__enter__()
        return self

    def __exit__(self, *a):
        self.fm.__exit__(*a)
        r = super().__exit__(*a)
        return r

    # -- inputs -------------------------------------------------------------
    def symbolic(self, values, name, lo=None, hi=None, dtype=torch.float64, mask=None):
        "A tensor whose entries (those in mask) are free reals; ``values`` is the concrete run."
        v = np.asarray(values, dtype=float)
        t = torch.tensor(v, dtype=dtype)
        conc = t.reshape(-1).tolist()
        arr = _obj((t.numel(),))
        for i, ix in enumerate(np.ndindex(*v.shape)):
            nm = "%s[%s]" % (name, ",".join(map(str, ix)))
            arr[i] = alg.var(nm, conc[i], lo, hi) if mask is None or mask[ix] else _pynum(conc[i])
        if mask is not None:
            self.partial = True  # constants stay exact: log 2 must not become a rounded number
        self.set_flat(t, arr)
        self.inputs.append((name, t))
        return t

    def attach(self, t, cells):
        "Give a freshly made contiguous tensor the given symbolic cells."
        assert t.is_contiguous() and t.storage_offset() == 0
        self.set_flat(t, np.asarray(cells, dtype=object).reshape(-1))
        return t

    def set_flat(self, t, arr):
        self.keep.append(t.untyped_storage())
        self.shadow[_skey(t)] = arr

    def tainted(self, t):
        return isinstance(t, torch.Tensor) and _skey(t) in self.shadow

    def rd(self, t):
        "Object array of the cells of t."
        sh = self.shadow.get(_skey(t))
        if sh is None:
            if _skey(t) in self.lost:
                raise Unsupported("use of a matrix factor")
            return conc_cells(t)
        idx = _index(t)
        return sh[idx.reshape(-1)].reshape(idx.shape)

    def cells(self, t):
        alg.Ctx.cur = self.ctx
        if not self.strict:
            self.strict = self.inner = True
            try:
                with torch._C._DisableTorchDispatch():
                    self._check("result", [t])
            finally:
                self.strict = self.inner = False
        return self.rd(t)

    def _storage_cells(self, t):
        "Concrete contents of the whole storage, typed like t."
        n = t.untyped_storage().nbytes() // t.element_size()
        full = torch.empty(0, dtype=t.dtype).set_(t.untyped_storage(), 0, (n,), (1,))
        return conc_cells(full)

    def write(self, t, cells, pre=None):
        k = _skey(t)
        if k in self.lost:
            raise Unsupported("write into a matrix factor")
        sh = self.shadow.get(k)
        if sh is None:
            sh = pre if pre is not None else self._storage_cells(t)
            sh = sh.copy()
            self.shadow[k] = sh
            self.keep.append(t.untyped_storage())
        idx = _index(t)
        cells = np.broadcast_to(cells, idx.shape)
        sh[idx.reshape(-1)] = cells.reshape(-1)

    def fresh_out(self, t, cells):
        cells = np.broadcast_to(cells, tuple(t.shape))
        if not (self.partial and t.is_floating_point()) and not any(is_sym(c) for c in cells.reshape(-1)) and self._exact(t, cells):
            return  # concrete result
        self.keep.append(t.untyped_storage())
        k = _skey(t)
        if t.is_contiguous() and t.storage_offset() == 0:
            n = t.untyped_storage().nbytes() // t.element_size()
            arr = _obj((n,))
            arr[:] = 0
            arr[: cells.size] = cells.reshape(-1)
            self.shadow[k] = arr
        else:
            self.write(t, cells)

    def _exact(self, t, cells):
        "Do constant cells coincide with torch's values (no rounding residue)?"
        if t.is_complex() or any(isinstance(c, B) for c in cells.reshape(-1)):
            return True
        return all(x == y or x != x for x, y in zip(cells.reshape(-1), t.detach().reshape(-1).tolist()))

    # -- concretisation -----------------------------------------------------
    def concretize(self, cell, v):
        "Control flow depends on this cell: record the branch taken."
        if not is_sym(cell):
            return
        if isinstance(cell, Fin):
            g = bor(*[c for x, c in cell.alts if x == v])
        else:
            g = cmp_cells("eq", cell, v)
        if g.z is not True:
            self.ctx.pc.append(g)

    # -- dispatch -----------------------------------------------------------
    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        kwargs = kwargs or {}
        flat, _ = tree_flatten((args, kwargs))
        tin = [a for a in flat if isinstance(a, torch.Tensor)]
        name = func._schema.name.split("::")[-1]
        self.ctx.stats["ops"] += 1
        alg.Ctx.cur = self.ctx
        if name in RANDOM:
            return RANDOM[name](self, func, args, kwargs)
        if not any(_skey(t) in self.shadow for t in tin):
            return func(*args, **kwargs)
        mutable = func._schema.is_mutable
        self.opcount[name] = self.opcount.get(name, 0) + 1
        if not mutable:
            if name in HANDLERS:
                return self._functional(name, func, args, kwargs)
            res = func(*args, **kwargs)
            outs = [o for o in tree_flatten(res)[0] if isinstance(o, torch.Tensor)]
            keys = {_skey(t) for t in tin}
            if outs and all(_skey(o) in keys for o in outs):
                return res  # view
            if not outs:
                raise Unsupported("op %s with symbolic input" % name)
            if name in METADATA:
                return res
            if name in MOVES:
                self._move(func, args, kwargs, res, outs)
                self._check(name, outs)
                return res
            r = self._decompose(func, args, kwargs)
            if r is not NotImplemented:
                return r
            raise Unsupported("op aten.%s" % name)
        return self._mutating(name, func, args, kwargs)

    def _decompose(self, func, args, kwargs):
        from torch._decomp import decomposition_table

        if self.depth > 6:
            return NotImplemented
        self.depth += 1
        try:
            f = decomposition_table.get(func)
            with self:
                if f is not None:
                    return f(*args, **kwargs)
                r = func.decompose(*args, **kwargs)
                return r
        except (NotImplementedError, RuntimeError):
            return NotImplemented
        finally:
            self.depth -= 1

    def bind(self, func, args, kwargs):
        "Schema-bound arguments by name."
        d = {}
        for i, a in enumerate(func._schema.arguments):
            if i < len(args):
                d[a.name] = args[i]
            elif a.name in kwargs:
                d[a.name] = kwargs[a.name]
            else:
                d[a.name] = a.default_value if a.has_default_value() else None
        return d

    def _functional(self, name, func, args, kwargs):
        res = func(*args, **kwargs)
        outs = [o for o in tree_flatten(res)[0] if isinstance(o, torch.Tensor)]
        keys = {_skey(a) for a in tree_flatten((args, kwargs))[0] if isinstance(a, torch.Tensor)}
        d = self.bind(func, args, kwargs)
        if outs and all(_skey(o) in keys for o in outs):
            return res  # returned an alias (e.g. no-op conversion)
        cells = HANDLERS[name](self, d, res, func)
        if isinstance(cells, tuple):
            for o, c in zip(outs, cells):
                if c is not None:
                    self.fresh_out(o, c)
                elif o.is_floating_point():  # factors: only usable by operations that know their source
                    self.keep.append(o.untyped_storage())
                    self.shadow[_skey(o)] = None
                    A = d.get("A", d.get("self"))
                    with torch._C._DisableTorchDispatch():
                        self.lost[_skey(o)] = A.detach().clone(), self.rd(A).copy()
        elif outs:
            self.fresh_out(outs[0], cells)
        self._check(name, outs)
        return res

    def _move(self, func, args, kwargs, res, outs):
        "Pure data movement: replay the op on element ids."
        table = [0]

        def enc(x):
            if isinstance(x, torch.Tensor) and (x.is_floating_point() or self.tainted(x)):
                c = self.rd(x).reshape(-1)
                base = len(table)
                table.extend(c)
                return torch.arange(base, base + c.size, dtype=torch.float64).reshape(tuple(x.shape))
            return x

        a2, k2 = tree_map(enc, (args, kwargs))
        ids = func(*a2, **k2)
        oi = [o for o in tree_flatten(ids)[0] if isinstance(o, torch.Tensor)]
        for o, i in zip(outs, oi):
            flat = i.reshape(-1).long().tolist()
            arr = _obj((len(flat),))
            for j, q in enumerate(flat):
                arr[j] = table[q]
            self.fresh_out(o, arr.reshape(tuple(o.shape)))

    def _mutating(self, name, func, args, kwargs):
        d = self.bind(func, args, kwargs)
        if name == "copy_":
            dst, src = d["self"], d["src"]
            cells = self.rd(src)
            if src.dtype != dst.dtype:
                cells = convert_dtype(cells, dst.dtype, src.dtype)
            cells = np.broadcast_to(cells, tuple(dst.shape)).copy()
            res = func(*args, **kwargs)
            self.write(dst, cells)
            return res
        if name in ("fill_", "zero_"):
            res = func(*args, **kwargs)
            if name == "zero_":
                v = _scalar(0)
            else:
                v = d["value"]
                v = self.rd(v) if isinstance(v, torch.Tensor) else _scalar(_pynum(v))
            self.write(d["self"], v)
            return res
        if name in ("uniform_", "normal_", "exponential_", "log_normal_", "random_", "cauchy_", "geometric_"):
            res = func(*args, **kwargs)
            self.write(d["self"], conc_cells(d["self"]))
            return res
        if name in ("requires_grad_", "detach_", "set_", "resize_", "retain_grad"):
            return func(*args, **kwargs)
        if name in ("squeeze_", "unsqueeze_", "t_", "transpose_", "swapaxes_", "as_strided_", "swapdims_"):
            return func(*args, **kwargs)
        if any(a.alias_info is not None and a.alias_info.is_write and a.name != "self" for a in func._schema.arguments):
            outs_names = [
                a.name for a in func._schema.arguments if a.alias_info is not None and a.alias_info.is_write
            ]
            pure = {k: v for k, v in d.items() if k not in outs_names}
            base = name
            if base not in HANDLERS:
                raise Unsupported("out= variant of aten.%s" % name)
            pre = {n: self._storage_cells(d[n]) for n in outs_names}
            shp = {n: tuple(d[n].shape) for n in outs_names}
            ref = {n: None for n in outs_names}
            res = func(*args, **kwargs)
            cells = HANDLERS[base](self, pure, res, func)
            cells = cells if isinstance(cells, tuple) else (cells,)
            for n, c in zip(outs_names, cells):
                self.write(d[n], c)
            return res
        base = name[:-1] if name.endswith("_") else name
        if base not in HANDLERS:
            if base in MOVES:
                tgt = d["self"]
                tmp = getattr(aten, base)
                pre_cells = None
                fargs = args
                fkw = kwargs
                clone = tgt.detach().clone()
                self.attach_like(clone, self.rd(tgt))
                with self:
                    out = tmp(clone, *fargs[1:], **fkw)
                cells = self.rd(out)
                res = func(*args, **kwargs)
                self.write(tgt, cells)
                return res
            raise Unsupported("in-place aten.%s" % name)
        tgt = d["self"]
        need = self.shadow.get(_skey(tgt)) is None
        pre = self._storage_cells(tgt) if need else None
        pre_self = self.rd(tgt).copy()
        self._pre = (tgt, pre_self)
        # read every operand before the concrete op mutates the target
        snap = {}
        for k, v in d.items():
            if isinstance(v, torch.Tensor):
                snap[id(v)] = self.rd(v).copy()
        old = self.rd
        clone_self = tgt.detach().clone()
        res = func(*args, **kwargs)

        def rd(t):
            if id(t) in snap:
                return snap[id(t)]
            return old(t)

        self.rd = rd
        try:
            cells = HANDLERS[base](self, d, res, func)
        finally:
            del self.rd
        if isinstance(cells, tuple):
            cells = cells[0]
        if base in ("add", "sub", "mul", "div", "copy") and not tgt.is_floating_point():
            pass
        self.write(tgt, cells, pre)
        self._check(name, [tgt])
        return res

    def attach_like(self, t, cells):
        self.keep.append(t.untyped_storage())
        if any(is_sym(c) for c in cells.reshape(-1)):
            self.write(t, cells)

    def _check(self, name, outs):
        "Translation validation: shadow evaluated on this run == torch's value."
        if not self.validate:
            return
        for o in outs:
            if not self.tainted(o) or o.is_complex() or _skey(o) in self.lost:
                continue
            c = self.rd(o).reshape(-1)
            v = o.detach().reshape(-1).tolist()
            for i, (x, y) in enumerate(zip(c, v)):
                xv = cell_val(x)
                self.validated_cells += 1
                try:
                    ok = close(float(xv), float(y), self.tol)
                except (TypeError, OverflowError):
                    ok = False
                if not ok and not self.strict:
                    self.loose += 1
                elif not ok:
                    raise EncodingMismatch(
                        "aten.%s element %d: encoding evaluates to %r, torch computed %r" % (name, i, xv, y)
                    )


class EncodingMismatch(Unsupported):
    pass


def close(x, y, tol=1e-6):
    if x == y:
        return True
    if math.isnan(x) or math.isnan(y):
        return math.isnan(x) and math.isnan(y)
    if math.isinf(x) or math.isinf(y):
        return False
    # values at semiring-zero scale only have to agree at that scale
    if x <= -alg.BIG and y <= -alg.BIG:
        return abs(x - y) <= 1e-2 * abs(y) + 1.0
    return abs(x - y) <= tol * max(1.0, abs(x), abs(y))


def _pynum(v):
    if isinstance(v, float) and math.isfinite(v) and v == int(v):
        return int(v)
    return v


# ---------------------------------------------------------------------------
# handlers: (engine, bound args, concrete result, func) -> object array(s)
# ---------------------------------------------------------------------------
HANDLERS = {}
RANDOM = {}
METADATA = {
    "new_zeros",
    "new_ones",
    "new_empty",
    "new_full",
    "new_empty_strided",
    "zeros_like",
    "ones_like",
    "empty_like",
    "full_like",
    "rand_like",
    "randn_like",
    "randint_like",
    "is_same_size",
    "sym_size",
    "_linalg_check_errors",
    "_assert_async",
}
MOVES = {
    "clone",
    "contiguous",
    "cat",
    "stack",
    "select_backward",
    "slice_backward",
    "diagonal_backward",
    "index_select",
    "flip",
    "roll",
    "repeat",
    "constant_pad_nd",
    "tril",
    "triu",
    "diag_embed",
    "diag",
    "block_diag",
    "_unsafe_view",
    "_reshape_copy",
    "reshape",
    "view_copy",
    "expand_copy",
    "permute_copy",
    "slice_scatter",
    "select_scatter",
    "diagonal_scatter",
    "unfold_backward",
    "unfold_copy",
    "hstack",
    "vstack",
    "tile",
    "rot90",
    "repeat_interleave",
    "as_strided_copy",
    "as_strided_scatter",
    "pixel_shuffle",
    "split_with_sizes_copy",
    "lift_fresh_copy",
    "detach_copy",
    "narrow_copy",
    "narrow",
    "movedim",
    "kron_",
    "embedding",
    "take",
}


def H(*names):
    def deco(f):
        for n in names:
            HANDLERS[n] = f
        return f

    return deco


def cellarg(e, x):
    if isinstance(x, torch.Tensor):
        return e.rd(x)
    return _scalar(_pynum(x))


def binop(*names):
    def deco(f):
        def h(e, d, res, func):
            o = d.get("other", d.get("exponent"))
            return vmap(f, cellarg(e, d["self"]), cellarg(e, o))

        for n in names:
            HANDLERS[n] = h
        return f

    return deco


def unop(*names):
    def deco(f):
        def h(e, d, res, func):
            return vmap(f, e.rd(d["self"]))

        for n in names:
            HANDLERS[n] = h
        return f

    return deco


@H("add", "sub", "rsub", "subtract")
def _add(e, d, res, func):
    a, b = cellarg(e, d["self"]), cellarg(e, d["other"])
    al = d.get("alpha", 1)
    al = 1 if al is None else al
    n = func._schema.name.split("::")[-1].rstrip("_")
    if n == "rsub":
        a, b = b, a
    s = num(al) * (1 if n == "add" else -1)
    boolean = isinstance(d["self"], torch.Tensor) and res.dtype == torch.bool
    if boolean:
        return vmap(lambda x, y: bool_cell(bor(cell_bool(x), cell_bool(y))), a, b)
    return vmap(lambda x, y: add(x, y if s == 1 else mul(y, s)), a, b)


@H("mul", "multiply")
def _mul(e, d, res, func):
    a, b = cellarg(e, d["self"]), cellarg(e, d["other"])
    if res.dtype == torch.bool:
        return vmap(lambda x, y: bool_cell(band(cell_bool(x), cell_bool(y))), a, b)
    return vmap(mul0, a, b)


def mul0(x, y):
    if not is_sym(x) and not is_sym(y):
        return mul(x, y)
    return mul(x, y)


@H("div", "divide", "true_divide", "floor_divide")
def _div(e, d, res, func):
    a, b = cellarg(e, d["self"]), cellarg(e, d["other"])
    rm = d.get("rounding_mode")
    if func._schema.name.split("::")[-1].startswith("floor"):
        rm = "floor"
    if rm is None:
        return vmap(div, a, b)
    if rm == "floor":
        f = lambda x, y: _finop(lambda p, q: p // q, x, y)
    else:
        f = lambda x, y: _finop(lambda p, q: int(p / q), x, y)
    return vmap(f, a, b)


def _finop(f, *xs):
    if any(isinstance(x, Poly) for x in xs):
        raise Unsupported("discrete op on a real-valued symbol")
    if not any(isinstance(x, Fin) for x in xs):
        return f(*xs)
    return mkfin(alg.fin_map(f, *xs))


@binop("remainder")
def _rem(x, y):
    return _finop(lambda p, q: p % q, x, y)


@binop("fmod")
def _fmod(x, y):
    return _finop(lambda p, q: math.fmod(p, q), x, y)


@binop("maximum", "fmax")
def _maximum(x, y):
    return where(bool_cell(cmp_cells("ge", x, y)), x, y)


@binop("minimum", "fmin")
def _minimum(x, y):
    return where(bool_cell(cmp_cells("le", x, y)), x, y)


@binop("logaddexp")
def _lae(x, y):
    return alg.logsumexp([x, y])


def _cmp(op):
    @binop(op)
    def f(x, y):
        return bool_cell(cmp_cells(op, x, y))


for _o in ("eq", "ne", "lt", "le", "gt", "ge"):
    _cmp(_o)


@binop("logical_and")
def _land(x, y):
    return bool_cell(band(cell_bool(x), cell_bool(y)))


@binop("logical_or")
def _lor(x, y):
    return bool_cell(bor(cell_bool(x), cell_bool(y)))


def _bx(x, y):
    a, b = cell_bool(x), cell_bool(y)
    return bool_cell(bor(band(a, bnot(b)), band(bnot(a), b)))


@binop("logical_xor")
def _lxor(x, y):
    return _bx(x, y)


def _isbool(x):
    if isinstance(x, Fin):
        return all(isinstance(v, bool) for v, _ in x.alts)
    return isinstance(x, bool)


@binop("bitwise_and", "__and__")
def _band(x, y):
    if _isbool(x) and _isbool(y):
        return _land(x, y)
    return _finop(lambda p, q: p & q, x, y)


@binop("bitwise_or", "__or__")
def _bor_(x, y):
    if _isbool(x) and _isbool(y):
        return _lor(x, y)
    return _finop(lambda p, q: p | q, x, y)


@binop("bitwise_xor", "__xor__")
def _bxor(x, y):
    if _isbool(x) and _isbool(y):
        return _bx(x, y)
    return _finop(lambda p, q: p ^ q, x, y)


@binop("bitwise_left_shift", "__lshift__")
def _shl(x, y):
    return _finop(lambda p, q: int(p) << int(q), x, y)


@binop("bitwise_right_shift", "__rshift__")
def _shr(x, y):
    return _finop(lambda p, q: int(p) >> int(q), x, y)


@binop("pow")
def _pow(x, y):
    if is_sym(y):
        if isinstance(y, Fin):
            return mkite([(c, _pow(x, v)) for v, c in y.alts])
        if not is_sym(x):
            return alg.pexp(mul(y, alg.plog(x)))
        raise Unsupported("symbolic exponent")
    if not is_sym(x):
        return x**y
    if float(y) == int(y):
        y = int(y)
        if isinstance(x, Fin):
            return mkfin(alg.fin_map(lambda v: num(num(v) ** y), x))
        if y >= 0:
            return alg.norm(alg.ppow(x, y))
        return div(1, alg.norm(alg.ppow(x, -y)))
    if float(y) == 0.5:
        return alg.psqrt(x)
    raise Unsupported("fractional power")


@binop("xlogy")
def _xlogy(x, y):
    if not is_sym(x) and x == 0:
        return 0
    return mul(x, alg.plog(y))


@unop("neg", "negative")
def _neg(x):
    return neg(x)


@unop("exp")
def _exp(x):
    return alg.pexp(x)


@unop("expm1")
def _expm1(x):
    return sub(alg.pexp(x), 1)


@unop("log")
def _log(x):
    return alg.plog(x)


@unop("log1p")
def _log1p(x):
    return alg.plog(add(1, x))


@unop("log2")
def _log2(x):
    return div(alg.plog(x), math.log(2))


@unop("sqrt")
def _sqrt(x):
    return alg.psqrt(x)


@unop("square")
def _sq(x):
    return mul(x, x)


@unop("reciprocal")
def _recip(x):
    return div(1, x)


@unop("sigmoid")
def _sigmoid(x):
    return div(1, add(1, alg.pexp(neg(x))))


@unop("abs")
def _abs(x):
    if isinstance(x, Fin):
        return _finop(abs, x)
    if not is_sym(x):
        return abs(x)
    return where(bool_cell(cmp_cells("ge", x, 0)), x, neg(x))


@unop("sign", "sgn")
def _sign(x):
    if isinstance(x, Fin):
        return _finop(lambda v: (v > 0) - (v < 0), x)
    p = cmp_cells("gt", x, 0)
    n = cmp_cells("lt", x, 0)
    return mkite([(p, 1), (n, -1), (band(bnot(p), bnot(n)), 0)])


@unop("relu")
def _relu(x):
    return where(bool_cell(cmp_cells("ge", x, 0)), x, 0)


@unop("logical_not")
def _lnot(x):
    return bool_cell(bnot(cell_bool(x)))


@unop("bitwise_not")
def _bnot(x):
    if _isbool(x):
        return _lnot(x)
    return _finop(lambda v: ~v, x)


@unop("isnan")
def _isnan(x):
    return False if isinstance(x, Poly) else _finop(lambda v: isinstance(v, float) and math.isnan(v), x)


@unop("isinf")
def _isinf_(x):
    return False if isinstance(x, Poly) else _finop(lambda v: isinstance(v, float) and math.isinf(v), x)


@unop("isfinite")
def _isfin(x):
    return True if isinstance(x, Poly) else _finop(math.isfinite, x)


@unop("isneginf")
def _isneginf(x):
    return False if isinstance(x, Poly) else _finop(lambda v: v == -INF, x)


@unop("isposinf")
def _isposinf(x):
    return False if isinstance(x, Poly) else _finop(lambda v: v == INF, x)


@H("nan_to_num")
def _n2n(e, d, res, func):
    r = conc_cells(res)
    return vmap(lambda x, y: x if is_sym(x) else y, e.rd(d["self"]), r)


@unop("floor")
def _floor(x):
    return _finop(math.floor, x)


@unop("ceil")
def _ceil(x):
    return _finop(math.ceil, x)


@unop("trunc")
def _trunc(x):
    return _finop(int, x)


@unop("round")
def _round(x):
    return _finop(round, x)


@H("clamp", "clip")
def _clamp(e, d, res, func):
    a = e.rd(d["self"])
    if d.get("min") is not None:
        a = vmap(_maximum, a, cellarg(e, d["min"]))
    if d.get("max") is not None:
        a = vmap(_minimum, a, cellarg(e, d["max"]))
    return a


@H("clamp_min")
def _clampmin(e, d, res, func):
    return vmap(_maximum, e.rd(d["self"]), cellarg(e, d["min"]))


@H("clamp_max")
def _clampmax(e, d, res, func):
    return vmap(_minimum, e.rd(d["self"]), cellarg(e, d["max"]))


@H("addcmul")
def _addcmul(e, d, res, func):
    v = num(d.get("value") if d.get("value") is not None else 1)
    return vmap(
        lambda s, x, y: add(s, mul(v, mul(x, y))), e.rd(d["self"]), e.rd(d["tensor1"]), e.rd(d["tensor2"])
    )


@H("addcdiv")
def _addcdiv(e, d, res, func):
    v = num(d.get("value") if d.get("value") is not None else 1)
    return vmap(
        lambda s, x, y: add(s, mul(v, div(x, y))), e.rd(d["self"]), e.rd(d["tensor1"]), e.rd(d["tensor2"])
    )


@H("lerp")
def _lerp(e, d, res, func):
    return vmap(
        lambda s, x, w: add(s, mul(w, sub(x, s))), e.rd(d["self"]), e.rd(d["end"]), cellarg(e, d["weight"])
    )


@H("where")
def _where(e, d, res, func):
    return vmap(where, e.rd(d["condition"]), cellarg(e, d["self"]), cellarg(e, d["other"]))


@H("masked_fill")
def _mfill(e, d, res, func):
    return vmap(lambda m, x, v: where(m, v, x), e.rd(d["mask"]), e.rd(d["self"]), cellarg(e, d["value"]))


def convert_dtype(cells, dst, src):
    if dst == torch.bool:
        return vmap(lambda x: bool_cell(cell_bool(x)), cells)
    if dst.is_floating_point:
        return vmap(lambda x: _finop(lambda v: int(v) if isinstance(v, bool) else v, x) if isinstance(x, (Fin, bool)) else x, cells)

    def f(x):
        if isinstance(x, Poly):
            raise Unsupported("real symbol converted to an integer type")
        return _finop(lambda v: int(v), x)

    return vmap(f, cells)


@H("_to_copy", "to")
def _to(e, d, res, func):
    return convert_dtype(e.rd(d["self"]), res.dtype, d["self"].dtype)


@H("type_as", "float", "long")
def _to2(e, d, res, func):
    return convert_dtype(e.rd(d["self"]), res.dtype, d["self"].dtype)


def _dims(d):
    x = d.get("dim")
    return x


@H("sum", "nansum")
def _sum(e, d, res, func):
    return reduce_cells(csum, e.rd(d["self"]), _dims(d), bool(d.get("keepdim")))


@H("mean")
def _mean(e, d, res, func):
    return reduce_cells(lambda xs: div(csum(xs), len(xs)), e.rd(d["self"]), _dims(d), bool(d.get("keepdim")))


@H("prod")
def _prod(e, d, res, func):
    return reduce_cells(cprod, e.rd(d["self"]), _dims(d), bool(d.get("keepdim")))


@H("logsumexp")
def _lse(e, d, res, func):
    return reduce_cells(alg.logsumexp, e.rd(d["self"]), _dims(d), bool(d.get("keepdim")))


@H("any")
def _any(e, d, res, func):
    return reduce_cells(
        lambda xs: bool_cell(bor(*[cell_bool(x) for x in xs])), e.rd(d["self"]), _dims(d), bool(d.get("keepdim"))
    )


@H("all", "_is_all_true")
def _all(e, d, res, func):
    return reduce_cells(
        lambda xs: bool_cell(band(*[cell_bool(x) for x in xs])), e.rd(d["self"]), _dims(d), bool(d.get("keepdim"))
    )


@H("_is_any_true")
def _anyt(e, d, res, func):
    return _any(e, d, res, func)


@H("count_nonzero")
def _cnz(e, d, res, func):
    return reduce_cells(
        lambda xs: csum([_finop(int, bool_cell(cell_bool(x))) for x in xs]), e.rd(d["self"]), _dims(d)
    )


def _cum(f):
    def h(e, d, res, func):
        a = e.rd(d["self"])
        if a.ndim == 0:
            return a
        dim = d["dim"] % a.ndim
        out = _obj(a.shape)
        am, om = np.moveaxis(a, dim, -1), np.moveaxis(out, dim, -1)
        for i in np.ndindex(*am.shape[:-1]):
            acc = None
            for j in range(am.shape[-1]):
                acc = am[i + (j,)] if acc is None else f(acc, am[i + (j,)])
                om[i + (j,)] = acc
        return out

    return h


HANDLERS["cumsum"] = _cum(add)
HANDLERS["cumprod"] = _cum(mul)
HANDLERS["logcumsumexp"] = _cum(lambda x, y: alg.logsumexp([x, y]))


def _sel_reduce(e, a, dim, keepdim, idx_t, largest):
    "max/min along dim -> (values, indices)"
    if a.ndim == 0:
        return a, _scalar(0)
    dim = dim % a.ndim
    am = np.moveaxis(a, dim, -1)
    it = idx_t.detach()
    if not keepdim:
        it = it.unsqueeze(dim)
    im = np.moveaxis(np.array(it.tolist(), dtype=object).reshape(tuple(it.shape)), dim, -1)
    vo, io = _obj(am.shape[:-1]), _obj(am.shape[:-1])
    for i in np.ndindex(*am.shape[:-1]):
        v, x = alg.topk_cells(list(am[i]), 1, [im[i + (0,)]], largest)
        vo[i], io[i] = v[0], x[0]
    if keepdim:
        vo, io = np.expand_dims(vo, dim), np.expand_dims(io, dim)
    return vo, io


def _maxlike(largest):
    def h(e, d, res, func):
        a = e.rd(d["self"])
        if "dim" not in d or d.get("dim") is None:
            if d.get("other") is not None:
                return vmap(_maximum if largest else _minimum, a, e.rd(d["other"]))
            fl = d["self"].detach().reshape(-1)
            ix = int(fl.argmax() if largest else fl.argmin())
            v, _ = alg.topk_cells(list(a.reshape(-1)), 1, [ix], largest)
            return _scalar(v[0])
        return _sel_reduce(e, a, d["dim"], bool(d.get("keepdim")), res[1], largest)

    return h


HANDLERS["max"] = _maxlike(True)
HANDLERS["min"] = _maxlike(False)


def _amax(largest):
    def h(e, d, res, func):
        def f(xs):
            vals = [cell_val(x) for x in xs]
            ix = max(range(len(xs)), key=lambda i: vals[i]) if largest else min(range(len(xs)), key=lambda i: vals[i])
            return alg.topk_cells(xs, 1, [ix], largest)[0][0]

        return reduce_cells(f, e.rd(d["self"]), _dims(d), bool(d.get("keepdim")))

    return h


HANDLERS["amax"] = _amax(True)
HANDLERS["amin"] = _amax(False)


@H("aminmax")
def _aminmax(e, d, res, func):
    a = dict(d)
    return HANDLERS["amin"](e, a, res, func), HANDLERS["amax"](e, a, res, func)


def _argm(largest):
    def h(e, d, res, func):
        a = e.rd(d["self"])
        if d.get("dim") is None:
            v, x = alg.topk_cells(list(a.reshape(-1)), 1, [int(res)], largest)
            return _scalar(x[0])
        return _sel_reduce(e, a, d["dim"], bool(d.get("keepdim")), res, largest)[1]

    return h


HANDLERS["argmax"] = _argm(True)
HANDLERS["argmin"] = _argm(False)


@H("topk")
def _topk(e, d, res, func):
    a = e.rd(d["self"])
    dim = d["dim"] if d.get("dim") is not None else -1
    largest = d.get("largest") is not False
    return _topk_dim(a, dim, d["k"], res[1], largest)


def _topk_dim(a, dim, k, idx_t, largest):
    dim = dim % a.ndim
    am = np.moveaxis(a, dim, -1)
    im = np.moveaxis(np.array(idx_t.tolist(), dtype=object).reshape(tuple(idx_t.shape)), dim, -1)
    vo, io = _obj(am.shape[:-1] + (k,)), _obj(am.shape[:-1] + (k,))
    for i in np.ndindex(*am.shape[:-1]):
        v, x = alg.topk_cells(list(am[i]), k, list(im[i]), largest)
        for j in range(k):
            vo[i + (j,)], io[i + (j,)] = v[j], x[j]
    return np.moveaxis(vo, -1, dim), np.moveaxis(io, -1, dim)


@H("sort")
def _sort(e, d, res, func):
    a = e.rd(d["self"])
    dim = d["dim"] if d.get("dim") is not None else -1
    return _topk_dim(a, dim, a.shape[dim], res[1], bool(d.get("descending")))


@H("argsort")
def _argsort(e, d, res, func):
    a = e.rd(d["self"])
    dim = d["dim"] if d.get("dim") is not None else -1
    return _topk_dim(a, dim, a.shape[dim], res, bool(d.get("descending")))[1]


def _softmax_cells(xs):
    l = alg.logsumexp(xs)
    return [alg.pexp(sub(x, l)) for x in xs]


def _along(a, dim, f):
    if a.ndim == 0:
        return _scalar(f([a[()]])[0])
    dim = dim % a.ndim
    out = _obj(a.shape)
    am, om = np.moveaxis(a, dim, -1), np.moveaxis(out, dim, -1)
    for i in np.ndindex(*am.shape[:-1]):
        r = f(list(am[i]))
        for j, x in enumerate(r):
            om[i + (j,)] = x
    return out


@H("_softmax", "softmax")
def _softmax(e, d, res, func):
    return _along(e.rd(d["self"]), d["dim"], _softmax_cells)


@H("_log_softmax", "log_softmax")
def _lsoftmax(e, d, res, func):
    def f(xs):
        l = alg.logsumexp(xs)
        return [sub(x, l) for x in xs]

    return _along(e.rd(d["self"]), d["dim"], f)


@H("_softmax_backward_data")
def _smb(e, d, res, func):
    g, o = e.rd(d["grad_output"]), e.rd(d["output"])
    dim = d["dim"] % g.ndim if g.ndim else 0
    p = vmap(mul, g, o)
    s = reduce_cells(csum, p, [dim], True)
    return vmap(lambda x, y, z: sub(x, mul(y, z)), p, o, s)


@H("_log_softmax_backward_data")
def _lsmb(e, d, res, func):
    g, o = e.rd(d["grad_output"]), e.rd(d["output"])
    dim = d["dim"] % g.ndim if g.ndim else 0
    s = reduce_cells(csum, g, [dim], True)
    return vmap(lambda x, y, z: sub(x, mul(alg.pexp(y), z)), g, o, s)


@H("norm", "linalg_vector_norm")
def _norm(e, d, res, func):
    p = d.get("p", d.get("ord"))
    p = 2 if p is None else p
    a = e.rd(d["self"])
    dim = d.get("dim")
    kd = bool(d.get("keepdim"))
    if p == 2:
        return vmap(alg.psqrt, reduce_cells(lambda xs: csum([mul(x, x) for x in xs]), a, dim, kd))
    if p == 1:
        return reduce_cells(lambda xs: csum([_abs(x) for x in xs]), a, dim, kd)
    raise Unsupported("norm p=%r" % p)


# linear algebra ---------------------------------------------------------------
def _matmul2(a, b):
    n, k = a.shape
    _, m = b.shape
    out = _obj((n, m))
    for i in range(n):
        for j in range(m):
            out[i, j] = csum([mul(a[i, l], b[l, j]) for l in range(k)])
    return out


@H("mm")
def _mm(e, d, res, func):
    return _matmul2(e.rd(d["self"]), e.rd(d["mat2"]))


@H("bmm")
def _bmm(e, d, res, func):
    a, b = e.rd(d["self"]), e.rd(d["mat2"])
    return np.stack([_matmul2(a[i], b[i]) for i in range(a.shape[0])]) if a.shape[0] else _obj(res.shape)


@H("mv")
def _mv(e, d, res, func):
    return _matmul2(e.rd(d["self"]), e.rd(d["vec"]).reshape(-1, 1)).reshape(-1)


@H("dot", "vdot")
def _dot(e, d, res, func):
    a, b = e.rd(d["self"]), e.rd(d.get("tensor", d.get("other")))
    return _scalar(csum([mul(x, y) for x, y in zip(a, b)]))


@H("addmm")
def _addmm(e, d, res, func):
    be = num(d["beta"] if d.get("beta") is not None else 1)
    al = num(d["alpha"] if d.get("alpha") is not None else 1)
    m = _matmul2(e.rd(d["mat1"]), e.rd(d["mat2"]))
    return vmap(lambda s, x: add(mul(s, be), mul(x, al)), e.rd(d["self"]), m)


@H("baddbmm")
def _baddbmm(e, d, res, func):
    be = num(d["beta"] if d.get("beta") is not None else 1)
    al = num(d["alpha"] if d.get("alpha") is not None else 1)
    a, b = e.rd(d["batch1"]), e.rd(d["batch2"])
    m = np.stack([_matmul2(a[i], b[i]) for i in range(a.shape[0])])
    return vmap(lambda s, x: add(mul(s, be), mul(x, al)), e.rd(d["self"]), m)


def det_cells(m):
    "Determinant by expansion (exact)."
    n = m.shape[0]
    if n == 0:
        return 1
    if n == 1:
        return m[0, 0]
    memo = {}

    def go(r, cols):
        if r == n:
            return 1
        if cols in memo:
            return memo[cols]
        s = []
        sg = 1
        for i, c in enumerate(cols):
            x = m[r, c]
            if is_sym(x) or x != 0:
                rest = cols[:i] + cols[i + 1 :]
                t = mul(x, go(r + 1, rest))
                s.append(t if i % 2 == 0 else neg(t))
        r_ = csum(s)
        memo[cols] = r_
        return r_

    return go(0, tuple(range(n)))


def inv_cells(m):
    n = m.shape[0]
    dt = det_cells(m)
    out = _obj((n, n))
    for i in range(n):
        for j in range(n):
            mi = np.delete(np.delete(m, j, 0), i, 1)
            c = det_cells(mi)
            if (i + j) % 2:
                c = neg(c)
            out[i, j] = div(c, dt)
    return out


def _batched(f, a, tail):
    out = _obj(a.shape[:-2] + tail)
    for i in np.ndindex(*a.shape[:-2]):
        out[i] = f(a[i]) if tail else f(a[i])
    return out


@H("_linalg_det", "linalg_det", "det")
def _det(e, d, res, func):
    a = e.rd(d.get("A", d.get("self")))
    o = _obj(a.shape[:-2])
    for i in np.ndindex(*a.shape[:-2]):
        o[i] = det_cells(a[i])
    if isinstance(res, (tuple, list)):
        return (o, None, None)
    return o


@H("_linalg_slogdet", "linalg_slogdet", "slogdet", "logdet")
def _slogdet(e, d, res, func):
    A = d.get("A", d.get("self"))
    a = e.rd(A)
    o, sg = _obj(a.shape[:-2]), _obj(a.shape[:-2])
    for i in np.ndindex(*a.shape[:-2]):
        dt = det_cells(a[i])
        if not is_sym(dt):
            sg[i] = (dt > 0) - (dt < 0)
            o[i] = alg.plog(abs(dt)) if dt != 0 else -INF
        elif alg.is_positive(alg.poly(dt)):
            sg[i] = 1
            o[i] = alg.plog(dt)
        else:
            v = cell_val(dt)
            g = cmp_cells("gt", dt, 0) if v > 0 else cmp_cells("lt", dt, 0)
            e.ctx.pc.append(g)  # sign of the determinant on this path
            sg[i] = 1 if v > 0 else -1
            o[i] = alg.plog(dt if v > 0 else neg(dt))
    if isinstance(res, (tuple, list)):
        return (sg, o) + (None,) * (len(res) - 2)
    return o


@H("linalg_inv_ex", "inverse", "linalg_inv")
def _inv(e, d, res, func):
    a = e.rd(d.get("A", d.get("self")))
    o = _obj(a.shape)
    for i in np.ndindex(*a.shape[:-2]):
        o[i] = inv_cells(a[i])
    if isinstance(res, (tuple, list)):
        return (o, None)
    return o


@H("linalg_solve", "_linalg_solve_ex", "linalg_solve_ex")
def _solve(e, d, res, func):
    a, b = e.rd(d["A"]), e.rd(d["B"])
    out = _obj(tuple((res[0] if isinstance(res, (tuple, list)) else res).shape))
    left = d.get("left") is not False
    if b.ndim == a.ndim - 1 or not left:
        raise Unsupported("linalg_solve form")
    for i in np.ndindex(*a.shape[:-2]):
        out[i] = _matmul2(inv_cells(a[i]), b[i])
    if isinstance(res, (tuple, list)):
        return (out,) + (None,) * (len(res) - 1)
    return out


@H("linalg_lu_solve")
def _lu_solve(e, d, res, func):
    if _skey(d["LU"]) not in e.lost:
        raise Unsupported("linalg_lu_solve of unknown factors")
    c, a = e.lost[_skey(d["LU"])]
    b = e.rd(d["B"])
    with torch._C._DisableTorchDispatch():
        P, L, U = torch.lu_unpack(d["LU"].detach(), d["pivots"])
        m = P @ L @ U
        same, flipped = torch.allclose(m, c, rtol=1e-6, atol=1e-9), torch.allclose(m, c.transpose(-1, -2), rtol=1e-6, atol=1e-9)
    if d.get("left") is False or not (same or flipped):
        raise Unsupported("linalg_lu_solve form")
    turn = bool(d.get("adjoint")) != (not same)
    out = _obj(tuple(res.shape))
    for i in np.ndindex(*a.shape[:-2]):
        out[i] = _matmul2(inv_cells(a[i].T if turn else a[i]), b[i])
    return out


@H("trace")
def _trace(e, d, res, func):
    a = e.rd(d["self"])
    return _scalar(csum([a[i, i] for i in range(min(a.shape))]))


# indexed access ------------------------------------------------------------------
def pick(arr, idx):
    "arr[idx] for a possibly symbolic index"
    if isinstance(idx, Fin):
        n = len(arr)
        return mkite([(c, arr[int(v) % n if v < 0 else int(v)]) for v, c in idx.alts])
    return arr[int(idx)]


@H("gather")
def _gather(e, d, res, func):
    a, ix = e.rd(d["self"]), e.rd(d["index"])
    if a.ndim == 0:
        return a
    dim = d["dim"] % a.ndim
    out = _obj(ix.shape)
    am = np.moveaxis(a, dim, -1)
    im, om = np.moveaxis(ix, dim, -1), np.moveaxis(out, dim, -1)
    for i in np.ndindex(*im.shape):
        om[i] = pick(am[i[:-1]], im[i])
    return out


def _scatter_impl(e, d, mode):
    a = e.rd(d["self"]).copy()
    ix = e.rd(d["index"])
    if d.get("src") is not None:
        src = e.rd(d["src"])
    else:
        src = np.broadcast_to(cellarg(e, d["value"]), ix.shape)
    if a.ndim == 0:
        a, ix, src = a.reshape(1), ix.reshape(1), src.reshape(1)
        sc = True
    else:
        sc = False
    dim = d["dim"] % a.ndim
    am, im = np.moveaxis(a, dim, -1), np.moveaxis(ix, dim, -1)
    sm = np.moveaxis(src, dim, -1)
    for i in np.ndindex(*im.shape):
        k = im[i]
        s = sm[i]
        row = am[i[:-1]]
        if isinstance(k, Fin):
            for v, c in k.alts:
                new = add(row[v], s) if mode == "add" else s
                row[v] = mkite([(c, new), (bnot(c), row[v])])
        else:
            k = int(k)
            row[k] = add(row[k], s) if mode == "add" else s
    return a.reshape(()) if sc else a


@H("scatter")
def _scatter(e, d, res, func):
    red = d.get("reduce")
    return _scatter_impl(e, d, "add" if red == "add" else "set")


@H("scatter_add")
def _scatter_add(e, d, res, func):
    return _scatter_impl(e, d, "add")


@H("value_selecting_reduction_backward")
def _vsrb(e, d, res, func):
    g, ix = e.rd(d["grad"]), e.rd(d["indices"])
    dim = d["dim"]
    sizes = [int(s) for s in d["sizes"]]
    if not d["keepdim"] and len(sizes) > 0:
        g, ix = np.expand_dims(g, dim % len(sizes)), np.expand_dims(ix, dim % len(sizes))
    out = _obj(sizes)
    out[...] = 0
    if not sizes:
        return _scalar(g.reshape(-1)[0])
    dim = dim % len(sizes)
    om = np.moveaxis(out, dim, -1)
    gm, im = np.moveaxis(g, dim, -1), np.moveaxis(ix, dim, -1)
    for i in np.ndindex(*im.shape):
        row = om[i[:-1]]
        k = im[i]
        if isinstance(k, Fin):
            for v, c in k.alts:
                row[v] = add(row[v], mkite([(c, gm[i]), (bnot(c), 0)]))
        else:
            row[int(k)] = add(row[int(k)], gm[i])
    return out


def _norm_indices(e, a_shape, indices):
    """Advanced indexing -> iterator of (output position, [(guard, source position)])."""
    idx = list(indices) + [None] * (len(a_shape) - len(indices))
    # expand boolean masks (concrete only)
    exp = []
    dim = 0
    for x in idx:
        if x is None:
            if dim < len(a_shape):
                exp.append(None)
                dim += 1
            continue
        if x.dtype in (torch.bool, torch.uint8):
            cells = e.rd(x)
            if e.tainted(x):
                conc = conc_cells(x)
                for c, v in zip(cells.reshape(-1), conc.reshape(-1)):
                    e.concretize(c, v)
                cells = conc
            nz = np.nonzero(np.array(cells.tolist(), dtype=bool))
            for q in nz:
                exp.append(q.astype(object))
            dim += x.dim()
        else:
            exp.append(e.rd(x))
            dim += 1
    exp = exp[: len(a_shape)]
    exp += [None] * (len(a_shape) - len(exp))
    adv = [i for i, x in enumerate(exp) if x is not None]
    arrs = np.broadcast_arrays(*[exp[i] for i in adv])
    bshape = arrs[0].shape
    contiguous = all(b - a == 1 for a, b in zip(adv, adv[1:]))
    rest = [i for i in range(len(a_shape)) if i not in adv]
    if contiguous:
        before = [i for i in rest if i < adv[0]]
        after = [i for i in rest if i > adv[-1]]
    else:
        before, after = [], rest
    oshape = tuple(a_shape[i] for i in before) + bshape + tuple(a_shape[i] for i in after)
    nb = len(before)

    def gen():
        for o in np.ndindex(*oshape):
            src = [None] * len(a_shape)
            for p, i in enumerate(before):
                src[i] = o[p]
            bi = o[nb : nb + len(bshape)]
            for p, i in enumerate(after):
                src[i] = o[nb + len(bshape) + p]
            alts = [(alg.TRUE, list(src))]
            for p, i in enumerate(adv):
                k = arrs[p][bi] if bshape else arrs[p][()]
                if isinstance(k, Fin):
                    na = []
                    for g, s in alts:
                        for v, c in k.alts:
                            gg = band(g, c)
                            if gg.z is False:
                                continue
                            s2 = list(s)
                            s2[i] = int(v) % a_shape[i]
                            na.append((gg, s2))
                    alts = na
                else:
                    for _, s in alts:
                        s[i] = int(k) % a_shape[i]
            yield o, [(g, tuple(s)) for g, s in alts]

    return oshape, gen


@H("index", "_unsafe_index")
def _index_op(e, d, res, func):
    a = e.rd(d["self"])
    oshape, gen = _norm_indices(e, a.shape, d["indices"])
    out = _obj(oshape)
    for o, alts in gen():
        if len(alts) == 1 and alts[0][0].z is True:
            out[o] = a[alts[0][1]]
        else:
            out[o] = mkite([(g, a[s]) for g, s in alts])
    return out


@H("index_put", "_index_put_impl", "_unsafe_index_put")
def _index_put(e, d, res, func):
    a = e.rd(d["self"]).copy()
    ix = d["indices"]
    if len(ix) == 1 and ix[0] is not None and ix[0].dtype == torch.bool and e.tainted(ix[0]) and d["values"].numel() == 1 and not d.get("accumulate"):
        # x[mask] = value: a selection, no need to know the mask
        m, v = e.rd(ix[0]), e.rd(d["values"]).reshape(-1)[0]
        if res.dtype == torch.bool:
            v = convert_dtype(np.array([v], dtype=object), torch.bool, None)[0]
        m = np.broadcast_to(m.reshape(m.shape + (1,) * (a.ndim - m.ndim)), a.shape)
        return vmap(lambda c, x: alg.where(c, v, x), m, a)
    oshape, gen = _norm_indices(e, a.shape, d["indices"])
    v = np.broadcast_to(e.rd(d["values"]), oshape)
    acc = bool(d.get("accumulate"))
    if isinstance(res, torch.Tensor) and res.dtype == torch.bool:
        v = convert_dtype(v, torch.bool, None)
    for o, alts in gen():
        for g, s in alts:
            new = add(a[s], v[o]) if acc else v[o]
            a[s] = new if g.z is True else mkite([(g, new), (bnot(g), a[s])])
    return a


@H("index_add")
def _index_add(e, d, res, func):
    a = e.rd(d["self"]).copy()
    dim = d["dim"] % a.ndim
    src = e.rd(d["source"])
    al = num(d["alpha"] if d.get("alpha") is not None else 1)
    am, sm = np.moveaxis(a, dim, 0), np.moveaxis(src, dim, 0)
    for j, k in enumerate(e.rd(d["index"])):
        if isinstance(k, Fin):
            raise Unsupported("index_add with symbolic index")
        am[int(k)] = vmap(lambda x, y: add(x, mul(y, al)), am[int(k)], sm[j])
    return a


@H("index_fill", "index_copy")
def _index_fill(e, d, res, func):
    a = e.rd(d["self"]).copy()
    dim = d["dim"] % a.ndim
    am = np.moveaxis(a, dim, 0)
    src = None
    if d.get("source") is not None:
        src = np.moveaxis(e.rd(d["source"]), dim, 0)
    for j, k in enumerate(e.rd(d["index"])):
        if isinstance(k, Fin):
            raise Unsupported("index_fill with symbolic index")
        am[int(k)] = src[j] if src is not None else cellarg(e, d["value"])
    return a


@H("index_select")
def _isel(e, d, res, func):
    a = e.rd(d["self"])
    if a.ndim == 0:
        return a
    dim = d["dim"] % a.ndim
    am = np.moveaxis(a, dim, 0)
    ks = list(e.rd(d["index"]).reshape(-1))
    out = _obj((len(ks),) + am.shape[1:])
    for j, k in enumerate(ks):
        for i in np.ndindex(*am.shape[1:]):
            out[(j,) + i] = pick(am[(slice(None),) + i], k)
    return np.moveaxis(out, 0, dim)


@H("embedding")
def _embedding(e, d, res, func):
    w, ix = e.rd(d["weight"]), e.rd(d["indices"])
    out = _obj(ix.shape + w.shape[1:])
    for i in np.ndindex(*ix.shape):
        for j in range(w.shape[1]):
            out[i + (j,)] = pick(w[:, j], ix[i])
    return out


@H("take")
def _take(e, d, res, func):
    a = e.rd(d["self"]).reshape(-1)
    return vmap(lambda k: pick(a, k), e.rd(d["index"]))


@H("masked_scatter")
def _mscatter(e, d, res, func):
    m = e.rd(d["mask"])
    if any(is_sym(x) for x in m.reshape(-1)):
        raise Unsupported("masked_scatter with symbolic mask")
    a = np.broadcast_to(e.rd(d["self"]), tuple(res.shape)).copy()
    m = np.broadcast_to(m, a.shape)
    s = iter(e.rd(d["source"]).reshape(-1))
    for i in np.ndindex(*a.shape):
        if m[i]:
            a[i] = next(s)
    return a


# concretising operators ----------------------------------------------------------
@H("_local_scalar_dense", "item")
def _lsd(e, d, res, func):
    e.concretize(e.rd(d["self"]).reshape(-1)[0], res)
    return _scalar(0)


@H("nonzero")
def _nonzero(e, d, res, func):
    cells = e.rd(d["self"]).reshape(-1)
    vals = d["self"].detach().reshape(-1).tolist()
    for c, v in zip(cells, vals):
        if is_sym(c):
            g = cell_bool(c)
            g = g if v else bnot(g)
            if g.z is not True:
                e.ctx.pc.append(g)
    return conc_cells(res)


@H("equal")
def _equal(e, d, res, func):
    g = band(*[cmp_cells("eq", x, y) for x, y in zip(e.rd(d["self"]).reshape(-1), e.rd(d["other"]).reshape(-1))])
    g = g if res else bnot(g)
    if g.z is not True:
        e.ctx.pc.append(g)
    return _scalar(0)


@H("masked_select")
def _mselect(e, d, res, func):
    a, m = e.rd(d["self"]), e.rd(d["mask"])
    a, m = np.broadcast_arrays(a, m)
    t, mt = torch.broadcast_tensors(d["self"], d["mask"])
    mv = mt.detach().reshape(-1).tolist()
    out = []
    for x, c, v in zip(a.reshape(-1), m.reshape(-1), mv):
        if is_sym(c):
            e.concretize(c, v)
        if v:
            out.append(x)
    o = _obj((len(out),))
    for i, x in enumerate(out):
        o[i] = x
    return o


# random draws ----------------------------------------------------------------------
def _live(row):
    return [i for i in range(len(row)) if is_sym(row[i]) or row[i] != 0]


def _multinomial(e, func, args, kwargs):
    d = e.bind(func, args, kwargs)
    p = d["self"]
    res = func(*args, **kwargs)
    if not e.tainted(p) and e.symbolic_draws is None:
        return res
    if e.symbolic_draws is None:
        raise Unsupported("random draw")
    cells = e.rd(p)
    rows = cells.reshape(-1, cells.shape[-1])
    flat = res.detach().reshape(rows.shape[0], -1)
    for r in range(flat.shape[0]):
        for j in range(flat.shape[1]):
            if e.script and e.symbolic_draws(len(e.draws), r, j) and len(_live(rows[r])) > 1:
                flat[r, j] = e.script.pop(0)
    conc = flat.tolist()
    out = _obj((rows.shape[0], len(conc[0])))
    call = len(e.draws)
    rec = {"probs": rows, "sel": {}, "lits": {}, "conc": conc}
    for r in range(rows.shape[0]):
        for j in range(out.shape[1]):
            if not e.symbolic_draws(call, r, j):
                out[r, j] = conc[r][j]
                continue
            live = _live(rows[r])
            if len(live) == 1:
                out[r, j] = live[0]
                continue
            if not e.ctx.fork:
                # outcome i: the first i tests fail and test i succeeds
                lits = [alg.fresh_bool("draw", i == conc[r][j]) for i in live[:-1]]
                rec["lits"][(r, j)] = lits
                sel = {}
                for n, i in enumerate(live):
                    sel[i] = band(*[bnot(b) for b in lits[:n]], *lits[n : n + 1])
            else:
                sel = {i: alg.fresh_bool("draw", i == conc[r][j]) for i in live}
                e.ctx.side.append(z3.PbEq([(s.z, 1) for s in sel.values()], 1))
            if e.ctx.fork:
                k = conc[r][j]
                others = [i for i in sel if i != k]
                e.ctx.pc.append(alg.Fork(sel[k].z, sel[k].z, [sel[i].z for i in others], k, others))
                rec["sel"][(r, j)] = {k: alg.TRUE}
                out[r, j] = k
                continue
            rec["sel"][(r, j)] = sel
            out[r, j] = Fin([(i, s) for i, s in sel.items()])
    e.draws.append(rec)
    e.fresh_out(res, out.reshape(tuple(res.shape)))
    return res


RANDOM["multinomial"] = _multinomial


class _FuncMode(TorchFunctionMode):
    """Python-level entry points that read tensor memory without dispatching."""

    def __init__(self, eng):
        super().__init__()
        self.e = eng

    def __torch_function__(self, func, types, args=(), kwargs=None):
        kwargs = kwargs or {}
        e = self.e
        if e.inner:
            return func(*args, **kwargs)
        if func is torch.nn.functional.one_hot or getattr(func, "__name__", "") == "one_hot":
            t = args[0]
            if isinstance(t, torch.Tensor) and e.tainted(t):
                n = args[1] if len(args) > 1 else kwargs.get("num_classes", -1)
                if isinstance(n, int) and n > 0:
                    return self._one_hot(t, n)
        nm = getattr(func, "__name__", "")
        if nm in ("tolist", "numpy", "__array__", "__reversed__", "__contains__") and args:
            t = args[0]
            if isinstance(t, torch.Tensor) and e.tainted(t) and nm in ("tolist", "numpy", "__array__"):
                alg.Ctx.cur = e.ctx
                with torch._C._DisableTorchDispatch():
                    vals = t.detach().reshape(-1).tolist()
                for c, v in zip(e.rd(t).reshape(-1), vals):
                    e.concretize(c, v)
        return func(*args, **kwargs)

    def _one_hot(self, t, n):
        e = self.e
        alg.Ctx.cur = e.ctx
        with torch._C._DisableTorchDispatch():
            conc = torch.nn.functional.one_hot(t.detach().clone(), n)
        cells = e.rd(t)
        out = _obj(cells.shape + (n,))
        for i in np.ndindex(*cells.shape):
            c = cells[i]
            for k in range(n):
                if isinstance(c, Fin):
                    b = c.eq(k)
                    out[i + (k,)] = mkfin([(1, b), (0, bnot(b))])
                else:
                    out[i + (k,)] = 1 if c == k else 0
        e.fresh_out(conc, out)
        return conc
