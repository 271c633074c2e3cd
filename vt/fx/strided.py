"""F09: the rewrite of as_strided reads into index operations.

The pass (fx_as_strided.py, real code) runs on a graph whose metadata --
strides, storage offsets, base sizes -- is symbolic; its tensor arithmetic runs
on arrays of solver integers.  The emitted index operands must address, for
every result element, exactly the storage cell that as_strided reads.
"""
import itertools
import operator

import numpy as np
import torch
import torch.fx as tfx
from torch.fx.immutable_collections import immutable_list

from .. import mlirpy
from ..symex import Counterexample, PathAbort, SymBool, SymInt, and_, explore, mkbool, or_
from . import core
from .symshape import Duck


class Arr:
    """An integer/bool tensor of solver values (object array)."""

    def __init__(self, a, dtype=torch.int64):
        self.a = np.asarray(a, dtype=object)
        self.dtype = dtype

    shape = property(lambda s: torch.Size(s.a.shape))
    ndim = property(lambda s: s.a.ndim)

    def size(self, d=None):
        return self.shape if d is None else self.shape[d]

    def dim(self):
        return self.a.ndim

    def numel(self):
        return self.a.size

    def _b(self, o, f, dt=None):
        o = o.a if isinstance(o, Arr) else o
        r = np.frompyfunc(f, 2, 1)(self.a, o)
        return Arr(r, dt or self.dtype)

    def __add__(self, o):
        return self._b(o, operator.add)

    __radd__ = __add__

    def __sub__(self, o):
        return self._b(o, operator.sub)

    def __rsub__(self, o):
        return self._b(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._b(o, operator.mul)

    __rmul__ = __mul__

    def __floordiv__(self, o):
        return self._b(o, operator.floordiv)

    def __mod__(self, o):
        return self._b(o, operator.mod)

    def __neg__(self):
        return self * -1

    def _i(self, o, f):
        r = self._b(o, f).a
        self.a[...] = r  # in place: aliases see it, as in PyTorch
        return self

    def __iadd__(self, o):
        return self._i(o, operator.add)

    def __isub__(self, o):
        return self._i(o, operator.sub)

    def __imul__(self, o):
        return self._i(o, operator.mul)

    def __lt__(self, o):
        return self._b(o, operator.lt, torch.bool)

    def __le__(self, o):
        return self._b(o, operator.le, torch.bool)

    def __gt__(self, o):
        return self._b(o, operator.gt, torch.bool)

    def __ge__(self, o):
        return self._b(o, operator.ge, torch.bool)

    def __eq__(self, o):
        return self._b(o, operator.eq, torch.bool)

    def __ne__(self, o):
        return self._b(o, operator.ne, torch.bool)

    def __or__(self, o):
        return self._b(o, or_, torch.bool)

    def __and__(self, o):
        return self._b(o, and_, torch.bool)

    __hash__ = object.__hash__

    def any(self):
        return or_(*self.a.flat) if self.a.size else False

    def all(self):
        return and_(*self.a.flat) if self.a.size else True

    def __bool__(self):
        assert self.a.size == 1
        return bool(self.a.flat[0])

    def item(self):
        return self.a.flat[0]

    def reshape(self, *s):
        s = s[0] if len(s) == 1 and isinstance(s[0], (list, tuple)) else s
        return Arr(self.a.reshape(tuple(s)), self.dtype)

    view = reshape

    def clone(self):
        return Arr(self.a.copy(), self.dtype)

    def expand(self, *s):
        s = s[0] if len(s) == 1 and isinstance(s[0], (list, tuple)) else s
        return Arr(np.broadcast_to(self.a, tuple(s)), self.dtype)

    def __getitem__(self, k):
        return Arr(self.a[k], self.dtype)

    def sub_(self, o):
        return self.__isub__(o)

    def add_(self, o):
        return self.__iadd__(o)

    def to(self, *a, **k):
        return self

    def contiguous(self):
        return self


class Shim:
    def __getattr__(self, k):
        return getattr(torch, k)

    @staticmethod
    def full(size, v, dtype=None, **k):
        a = np.empty(tuple(size), dtype=object)
        a[...] = v
        return Arr(a)

    @staticmethod
    def zeros(*size, dtype=None, **k):
        size = size[0] if len(size) == 1 and isinstance(size[0], (list, tuple)) else size
        return Shim.full(size, 0)

    @staticmethod
    def arange(*a, dtype=None, **k):
        return Arr(np.array(list(range(*a)), dtype=object))

    @staticmethod
    def zeros_like(x, **k):
        return Shim.full(x.shape, 0) if isinstance(x, Arr) else torch.zeros_like(x, **k)

    @staticmethod
    def tensor(x, **k):
        return Arr(np.array(x, dtype=object))

    @staticmethod
    def div(a, b, rounding_mode=None):
        assert rounding_mode in ("floor", "trunc")
        if rounding_mode == "trunc":
            raise core.Unsupported("div trunc")
        return a // b

    @staticmethod
    def floor_divide(a, b):
        return a // b

    @staticmethod
    def remainder(a, b):
        return a % b

    @staticmethod
    def any(x):
        return x.any()

    @staticmethod
    def all(x):
        return x.all()

    @staticmethod
    def where(c, a, b):
        raise core.Unsupported("where")

    @staticmethod
    def empty(size, dtype=None, **k):
        return Duck(size, dtype=dtype, stride=None, offset=0, storage=object())


class Holder(torch.nn.Module):
    """A GraphModule stand-in that accepts solver arrays as buffers."""

    def __init__(self):
        super().__init__()
        self.__dict__["arrays"] = {}

    def register_buffer(self, name, t, persistent=True):
        self.arrays[name] = t

    def __getattr__(self, k):
        a = self.__dict__.get("arrays", {})
        if k in a:
            return a[k]
        return super().__getattr__(k)


def prodl(xs):
    r = 1
    for x in xs:
        r = r * x
    return r


def layout(p, kind, rank, hi):
    """(sizes, strides) of a base tensor."""
    sh = [p.int(f"n{i}", 1, hi) for i in range(rank)]
    if kind == "dense":
        perm = list(range(rank))
    elif kind == "perm":
        # the order of dimensions in memory (channels-last and every other)
        perms = list(itertools.permutations(range(rank)))
        perm = list(perms[p.choice(len(perms))])
    if kind in ("dense", "perm"):
        st = [None] * rank
        acc = 1
        for d in reversed(perm):
            st[d] = acc
            acc = acc * sh[d]
        return sh, st, acc
    st = [p.int(f"t{i}", 0, hi * 2) for i in range(rank)]
    return sh, st, None


def program(p, kind, rank, size, form, hi=4):
    """form: which graph, and how the arguments are passed."""
    fx = core.fx()
    import sys

    mod = sys.modules["torch_mlir.extras.fx_as_strided"]
    mod.torch = Shim()
    sh, st, total = layout(p, kind, rank, hi)
    boff = p.int("boff", 0, 3)
    stride = [p.int(f"q{i}", 0, hi * hi) for i in range(len(size))]
    storage = object()
    g = tfx.Graph()
    hold = Holder()
    g.owning_module = hold
    x = g.placeholder("x")
    base = Duck(sh, stride=st, offset=boff, storage=storage, dtype=torch.float16)
    x.meta["val"] = base
    src = x
    y = g.placeholder("y")
    y.meta["val"] = Duck([3], stride=[1], offset=0, storage=object())
    src_off = boff
    if form in ("view", "list", "kwview", "copy"):
        # x -> a view of the same storage with another offset (as a slice has)
        src_off = p.int("voff", 0, 6)
        vsh = [p.int("vn", 1, hi)]
        own = object() if form == "copy" else storage
        v = Duck(vsh, stride=[1 if form == "copy" else p.int("vt", 0, hi)], offset=0 if form == "copy" else src_off,
                 storage=own, dtype=torch.float16)
        tgt = torch.ops.aten.slice.Tensor if form != "list" else torch.ops.aten.cat.default
        if form == "list":
            n = g.call_function(torch.ops.aten.index.Tensor, (y, immutable_list([y, x])))
        elif form == "kwview":
            n = g.call_function(tgt, (y,), {"self": x})
        else:
            n = g.call_function(tgt, (x,))
        n.meta["val"] = v
        src = n
        if form == "copy":
            sh, st, boff, src_off, x, base = vsh, [1], 0, 0, n, v
    offset = p.int("off", 0, 12)
    how = p.choice(3)
    if how == 0:
        args, kw = (src, immutable_list(size), immutable_list(stride)), {}
        eff = src_off
    elif how == 1:
        args, kw = (src, immutable_list(size), immutable_list(stride), offset), {}
        eff = offset
    else:
        args, kw = (src, immutable_list(size)), dict(stride=immutable_list(stride), storage_offset=offset)
        eff = offset
    n = g.call_function(torch.ops.aten.as_strided.default, args, kw)
    n.meta["val"] = Duck(size, stride=stride, offset=eff, storage=storage, dtype=torch.float16)
    r = g.call_function(torch.ops.aten.relu.default, (n,))
    r.meta["val"] = Duck(size, dtype=torch.float16)
    g.output((r, n))
    g.lint = lambda: None
    g.eliminate_dead_code()
    cells = {}
    for idx in np.ndindex(*size):
        a = eff
        for k, q in zip(idx, stride):
            a = a + k * q
        cells[idx] = a
    try:
        mod.rewrite_as_strided(g)
    except ValueError as e:
        return "refused", str(e), (sh, st, boff, cells, total)
    outs = [n for n in g.nodes if n.op == "output"][0].args[0]
    return "ok", (g, outs, x, hold), (sh, st, boff, cells, total)


def check(p, kind, rank, size, form, hi=4):
    status, got, (sh, st, boff, cells, total) = program(p, kind, rank, size, form, hi)
    if status == "refused":
        # completeness is claimed for row-major bases only (dimensions of size 1
        # make the order of equal strides ambiguous otherwise)
        if kind != "dense" or form == "copy":
            return "refused"
        # a request inside a dense base is always expressible
        inside = and_(*[and_(a - boff >= 0, a - boff < total) for a in cells.values()]) if cells else True
        from ..symex import not_

        p.prove(not_(inside), f"an as_strided read that stays inside a dense base is refused: {got}")
        return "refused"
    g, outs, x, hold = got
    r, n = outs
    if r.target != torch.ops.aten.relu.default or r.args[0] is not n:
        raise Counterexample("the users of as_strided do not use its replacement", p.model())
    if n.target != torch.ops.aten.index.Tensor or n.args[0] is not x:
        raise Counterexample(f"replacement {n.target} of {n.args[0]}, the storage belongs to {x}", p.model())
    idx = n.args[1]
    if len(idx) != len(sh):
        raise Counterexample(f"{len(idx)} indices for a base of rank {len(sh)}", p.model())
    arrs = []
    for i in idx:
        if i.op != "get_attr":
            raise Counterexample("an index is not a constant", p.model())
        arrs.append(getattr(hold, i.target))
    for pos, cell in cells.items():
        addr = boff
        ok = True
        for a, s, t in zip(arrs, sh, st):
            b = np.broadcast_to(a.a, tuple(size)) if a.a.shape != tuple(size) else a.a
            c = b[pos]
            ok = and_(ok, c >= 0, c < s)
            addr = addr + c * t
        p.prove(ok, f"element {pos} of the result indexes outside the base")
        p.prove(addr == cell, f"element {pos} of the result reads another storage cell")
    v = n.meta["val"]
    if tuple(v.shape) != tuple(size) or v.dtype != torch.float16:
        raise Counterexample("type of the replacement", p.model())
    if r not in g.nodes:
        raise Counterexample("order", p.model())
    return "ok"
