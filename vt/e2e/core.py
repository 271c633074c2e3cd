"""Loads the end-to-end test framework (projects/pt1/python/torch_mlir_e2e_test)
with `torch` accepting stand-in tensors whose elements are solver values.

A tensor's elements are exact reals, plus the special floats (nan, inf, -inf);
in a replay every tensor is a real torch tensor."""
import builtins
import math
import sys

import torch

from .. import instr, load
from ..symex import SymBool, SymInt, SymReal, MathShim, and_, ctx, mkbool, not_, or_

BASE = "projects/pt1/python/torch_mlir_e2e_test/"
_mods = {}


def module(name):
    """torch_mlir_e2e_test.<name>, instrumented."""
    if not _mods:
        load.torch_mlir_skeleton()
        load._pkg("torch_mlir_e2e_test", [load.REPO + "/" + BASE[:-1]])
        load._pkg("torch_mlir_e2e_test.configs", [load.REPO + "/" + BASE + "configs"])
        load._pkg("torch_mlir_e2e_test.debug", [load.REPO + "/" + BASE + "debug"])
    if name not in _mods:
        if name == "reporting":
            module("framework")
        m = instr.load_module("torch_mlir_e2e_test." + name, BASE + name.replace(".", "/") + ".py")
        if "torch" in m.__dict__:
            m.torch = TorchShim()
        if "math" in m.__dict__:
            m.math = MathShim()
        _mods[name] = m
    return _mods[name]


# ---------------------------------------------------------------- scalars


def isnan(x):
    return type(x) is float and x != x


def isinf(x):
    return type(x) is float and x in (math.inf, -math.inf)


def feq(a, b):
    """IEEE equality"""
    if isnan(a) or isnan(b):
        return False
    if isinf(a) or isinf(b):
        return isinf(a) and isinf(b) and a == b
    return a == b


def _both(f):
    def g(a, b):
        if isinstance(b, VTensor):
            raise TypeError("unsupported operands")
        return f(a, b)
    return g


def _finite_cmp(a, b, f):
    if isnan(a) or isnan(b):
        return False
    if isinf(a) or isinf(b):
        x = a if isinf(a) else 0.0
        y = b if isinf(b) else 0.0
        return f(x, y)
    return f(a, b)


def isclose(v, g, rtol, atol, equal_nan):
    """torch.isclose on one pair of elements."""
    if isnan(v) or isnan(g):
        return isnan(v) and isnan(g) and bool(equal_nan)
    if isinf(v) or isinf(g):
        return isinf(v) and isinf(g) and v == g
    return abs(v - g) <= atol + abs(rtol * g)


# ---------------------------------------------------------------- tensors


class VTensor:
    """A tensor stand-in (element list in row-major order)."""

    def __init__(self, elems, shape, dtype=torch.float64):
        self.elems, self.shape, self.dtype = list(elems), torch.Size(shape) if all(type(d) is int for d in shape) else tuple(shape), dtype

    # -- structure
    def size(self, d=None):
        return self.shape if d is None else self.shape[d]

    def dim(self):
        return len(self.shape)

    ndim = property(dim)

    def numel(self):
        return len(self.elems)

    nelement = numel

    def __len__(self):
        return self.shape[0]

    def clone(self, **k):
        return VTensor(self.elems, self.shape, self.dtype)

    def detach(self):
        return VAlias(self)

    def contiguous(self):
        return self

    def type(self, dt):
        return VTensor(self.elems, self.shape, dt)

    to = type

    def double(self):
        return self.type(torch.float64)

    def __deepcopy__(self, memo):
        return self.clone()

    __copy__ = clone

    # -- mutation
    def add_(self, x):
        xs = x.elems if isinstance(x, VTensor) else [x] * len(self.elems)
        self.elems[:] = [a + b for a, b in zip(self.elems, xs)]
        return self

    def fill_(self, x):
        self.elems[:] = [x] * len(self.elems)
        return self

    def copy_(self, x):
        self.elems[:] = list(x.elems)
        return self

    zero_ = lambda self: self.fill_(0)

    # -- arithmetic
    def _zip(self, o, f, dtype=None):
        ys = o.elems if isinstance(o, VTensor) else [o] * len(self.elems)
        if len(ys) != len(self.elems):
            raise RuntimeError("shape mismatch")
        return VTensor([f(a, b) for a, b in zip(self.elems, ys)], self.shape, dtype or self.dtype)

    def __add__(self, o):
        return self._zip(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._zip(o, lambda a, b: a - b)

    def __mul__(self, o):
        return self._zip(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __truediv__(self, o):
        def f(a, b):
            if b == 0:
                return math.nan if isnan(a) or a == 0 else (math.inf if a > 0 else -math.inf)
            return a / b
        return self._zip(o, f)

    def __abs__(self):
        return VTensor([abs(a) for a in self.elems], self.shape, self.dtype)

    abs = __abs__

    def __neg__(self):
        return VTensor([-a for a in self.elems], self.shape, self.dtype)

    def _cmp(self, o, f):
        return self._zip(o, f, torch.bool)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: _finite_cmp(a, b, lambda x, y: x <= y))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: _finite_cmp(a, b, lambda x, y: x < y))

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: _finite_cmp(a, b, lambda x, y: x >= y))

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: _finite_cmp(a, b, lambda x, y: x > y))

    def __eq__(self, o):
        return self._cmp(o, feq)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: not_(feq(a, b)))

    __hash__ = object.__hash__

    def __and__(self, o):
        return self._cmp(o, lambda a, b: and_(a, b))

    def __or__(self, o):
        return self._cmp(o, lambda a, b: or_(a, b))

    def __invert__(self):
        return VTensor([not_(a) for a in self.elems], self.shape, torch.bool)

    def isnan(self):
        return VTensor([isnan(a) for a in self.elems], self.shape, torch.bool)

    def all(self):
        r = True
        for a in self.elems:
            r = and_(r, a)
        return VTensor([r], (), torch.bool)

    def any(self):
        r = False
        for a in self.elems:
            r = or_(r, a)
        return VTensor([r], (), torch.bool)

    def item(self):
        return self.elems[0]

    def __bool__(self):
        if len(self.elems) != 1:
            raise RuntimeError("Boolean value of Tensor with more than one value is ambiguous")
        return bool(self.elems[0] != 0) if not isinstance(self.elems[0], (bool, SymBool)) else bool(self.elems[0])

    def min(self):
        return self

    max = mean = min

    def tolist(self):
        def go(xs, sh):
            if not sh:
                return xs[0]
            n = len(xs) // sh[0] if sh[0] else 0
            return [go(xs[i * n:(i + 1) * n], sh[1:]) for i in range(sh[0])]
        return go(self.elems, self.shape)

    def numpy(self):
        return VArray(self)

    def cpu(self):
        return self

    def __repr__(self):
        return f"VTensor({self.elems}, {self.shape})"

    def __format__(self, spec):
        return "?"


def VAlias(t):
    """A tensor that shares t's elements."""
    r = VTensor([], t.shape, t.dtype)
    r.elems = t.elems
    return r


class VArray:
    """The numpy array that shares a stand-in tensor's elements."""

    def __init__(self, t):
        self.t = t
        self.shape, self.dtype = t.shape, t.dtype


class _TensorMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (VTensor, torch.Tensor))

    def __getattr__(cls, k):
        return getattr(torch.Tensor, k)


class TensorName(metaclass=_TensorMeta):
    pass


def _elementwise(v, g, f):
    if isinstance(v, VTensor) and isinstance(g, VTensor):
        if v.dtype != g.dtype:
            raise RuntimeError(f"{v.dtype} did not match {g.dtype}")
        if len(v.elems) != len(g.elems):
            raise RuntimeError("shape mismatch")
        return VTensor([f(a, b) for a, b in zip(v.elems, g.elems)], v.shape, torch.bool)
    return None


class TorchShim:
    Tensor = TensorName

    def __getattr__(self, k):
        return getattr(torch, k)

    @staticmethod
    def isclose(input, other, rtol=1e-05, atol=1e-08, equal_nan=False):
        r = _elementwise(input, other, lambda a, b: isclose(a, b, rtol, atol, equal_nan))
        return r if r is not None else torch.isclose(input, other, rtol=rtol, atol=atol, equal_nan=equal_nan)

    @classmethod
    def allclose(cls, input, other, rtol=1e-05, atol=1e-08, equal_nan=False):
        if isinstance(input, VTensor):
            return bool(cls.isclose(input, other, rtol, atol, equal_nan).all())
        return torch.allclose(input, other, rtol=rtol, atol=atol, equal_nan=equal_nan)

    @staticmethod
    def equal(a, b):
        if isinstance(a, VTensor):
            return tuple(a.shape) == tuple(b.shape) and bool((a == b).all())
        return torch.equal(a, b)

    @staticmethod
    def is_tensor(x):
        return isinstance(x, (VTensor, torch.Tensor))

    @staticmethod
    def clone(x, **k):
        return x.clone()

    @staticmethod
    def from_numpy(a):
        return VAlias(a.t) if isinstance(a, VArray) else torch.from_numpy(a)


def _method(name):
    def f(x, *a, **k):
        if isinstance(x, VTensor):
            return getattr(x, name)(*a, **k)
        return getattr(torch, name)(x, *a, **k)
    return staticmethod(f)


for _n in ("abs", "isnan", "all", "any", "min", "max", "mean", "numel"):
    setattr(TorchShim, _n, _method(_n))


def tensor(p, elems, shape=(), dtype=torch.float64):
    """A stand-in, or in a replay the real tensor."""
    if getattr(p, "concrete", False):
        return torch.tensor([float(e) if dtype.is_floating_point else int(e) for e in elems], dtype=dtype).reshape(tuple(shape))
    return VTensor(elems, shape, dtype)
