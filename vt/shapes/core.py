"""Symbolic PyTorch shape specifications: the harness vocabulary.

A specification of an operator builds symbolic operands (`gens`), states with
`g.req` which operands PyTorch accepts, and returns the shape(s) PyTorch gives
the result(s).  It is independent of the code under test.
"""
import inspect

import torch
import z3

from ..symex import (SymBool, SymInt, SymReal, and_, bx, ite, mkbool, mkint,
                     not_, or_, smax, smin)

BIG = 1 << 20


class Any_:
    def __repr__(self):
        return "?"


ANY = Any_()  # a data-dependent size: any value is right


class NS(dict):
    def __getattr__(self, k):
        try:
            return self[k]
        except KeyError:
            raise AttributeError(k)


class Skip(Exception):
    pass


class Gen:
    def __init__(self, path, tier="quick"):
        self.p = path
        self.tier = tier
        self.n = 0
        self.maxrank = 3 if tier == "quick" else 5

    def _name(self, tag):
        self.n += 1
        return f"{tag}#{self.n}"

    # symbolic values
    def int(self, tag="i", lo=-8, hi=8):
        return self.p.int(self._name(tag), lo, hi)

    def size(self, tag="s", lo=0, hi=BIG):
        return self.p.int(self._name(tag), lo, hi)

    def bool(self, tag="b"):
        return self.p.boolean(self._name(tag))

    def real(self, tag="f"):
        return self.p.real(self._name(tag))

    def shape(self, tag="t", lo=0, hi=None, smin=0, smax=BIG):
        hi = self.maxrank if hi is None else hi
        r = lo + self.p.choice(hi - lo + 1)
        return [self.size(f"{tag}[{i}]", smin, smax) for i in range(r)]

    def dims(self, n, tag="t", smin=0, smax=BIG):
        return [self.size(f"{tag}[{i}]", smin, smax) for i in range(n)]

    def ints(self, n, tag="l", lo=-8, hi=8):
        return [self.int(f"{tag}[{i}]", lo, hi) for i in range(n)]

    # choices
    def pick(self, *xs):
        return xs[self.p.choice(len(xs))]

    def maybe(self, mk):
        return mk() if self.p.choice(2) else None

    # conditions
    def req(self, *cs):
        for c in cs:
            if c is False:
                self.p.assume(False)
            elif c is not True:
                self.p.assume(c)

    def conc(self, v):
        """Case-split: the concrete value of v on this path."""
        if isinstance(v, SymInt):
            return self.p.concretize(v.e)
        return int(v)

    def truth(self, c):
        return bool(c)

    def wrap(self, d, rank):
        """PyTorch dimension wrapping; a rank-0 tensor behaves as rank 1."""
        r = max(rank, 1)
        self.req(d >= -r, d < r)
        return self.conc(ite(d < 0, d + r, d))

    def same(self, a, b):
        self.req(len(a) == len(b))
        for x, y in zip(a, b):
            self.req(x == y)

    def bcast(self, *shapes):
        """Broadcast shape; requires compatibility."""
        r = max(len(s) for s in shapes)
        out = []
        for k in range(r):
            ds = [s[len(s) - r + k] for s in shapes if len(s) - r + k >= 0]
            o = ds[0]
            for d in ds[1:]:
                o = ite(o == 1, d, o)
            self.req(*[or_(d == 1, d == o) for d in ds])
            out.append(o)
        return out

    def bcast_to(self, s, target):
        """s is expandable to target."""
        self.req(len(s) <= len(target))
        for i in range(len(s)):
            t = target[len(target) - len(s) + i]
            self.req(or_(s[i] == 1, s[i] == t))


def numel(s):
    n = 1
    for x in s:
        n = n * x
    return n


def fdiv(a, b):
    """floor division with b > 0"""
    if isinstance(a, int) and isinstance(b, int):
        return a // b
    from ..symex import ex
    return mkint(ex(a) / ex(b))  # z3 Int '/' floors for b > 0


def cdiv(a, b):
    return -fdiv(-a, b)


def trunc_div(a, b):
    """C++ integer division, b > 0"""
    return ite(a >= 0, fdiv(a, b), -fdiv(-a, b))


def clampi(x, lo, hi):
    return smin(smax(x, lo), hi)


# --- generators usable in the `gens` table

def T(lo=0, hi=None, smin=0, smax=BIG):
    return lambda g, a, n: g.shape(n, lo, hi, smin, smax)


def I(lo=-8, hi=8):
    return lambda g, a, n: g.int(n, lo, hi)


def F():
    return lambda g, a, n: g.real(n)


def B():
    return lambda g, a, n: g.bool(n)


def BC():  # boolean by case
    return lambda g, a, n: bool(g.pick(False, True))


def O(gen):
    return lambda g, a, n: (gen(g, a, n) if g.p.choice(2) else None)


def C(*vals):
    return lambda g, a, n: g.pick(*vals)


def like(other):
    return lambda g, a, n: list(a[other])


def LI(n, lo=-8, hi=8):
    return lambda g, a, nm: g.ints(n, nm, lo, hi)


def LIR(lo_n, hi_n, lo=-8, hi=8):
    return lambda g, a, nm: g.ints(lo_n + g.p.choice(hi_n - lo_n + 1), nm, lo, hi)


def DIM():
    """A valid dimension number of `self` (symbolic, wraps)."""
    def f(g, a, n):
        first = next(iter(a.values()))
        r = max(len(first), 1)
        return g.int(n, -r, r - 1)
    return f


# --- registry

SPECS = {}


class Spec:
    def __init__(self, op, fn, gens, dt=None, val=None, oracle=True, device=None,
                 known=(), slow=False, torch_args=None):
        self.op = op
        self.fn = fn
        self.gens = gens
        self.dt = dt or {}
        self.val = val or {}
        self.oracle = oracle
        self.device = device
        self.known = list(known)
        self.torch_args = torch_args


def spec(*ops, dt=None, val=None, oracle=True, on=None, torch_args=None, **gens):
    def deco(fn):
        for op in ops:
            for o in op.split():
                key = mangle(o)
                assert key not in SPECS, key
                SPECS[key] = Spec(key, fn, gens, dt, val, oracle, on, (),
                                  torch_args=torch_args)
        return fn
    return deco


def mangle(o):
    parts = o.split(".")
    if parts[0] in ("aten", "prims", "prim", "torchvision", "quantized_decomposed", "onnx"):
        return "〇".join(parts)
    return "〇".join(["aten"] + parts)


def known(op, fid, pred, what):
    """Record a known finding for an operator: on inputs where pred(a) holds the
    shape function is known to be wrong."""
    SPECS[mangle(op)].known.append((fid, pred, what))


def auto_gen(ann, p):
    s = str(ann)
    if ann is int:
        return I()
    if ann is float:
        return F()
    if ann is bool:
        return B()
    if ann is str:
        return C(p.default if p.default is not inspect.Parameter.empty else "")
    if ann == (list[int]) or s in ("typing.List[int]", "list[int]"):
        return T()
    if "device" in s or s == "typing.Any":
        return C(None)
    if s.startswith("typing.Optional[") or s.startswith("typing.Union[") or "None" in s:
        inner = s
        if "List[int]" in inner or "list[int]" in inner:
            raise KeyError("optional list needs explicit generator")
        if "str" in inner:
            return C(None)
        if "float" in inner:
            return C(None, 0.5)
        if "bool" in inner:
            return C(None)
        if "int" in inner:
            return C(None)
    raise KeyError(s)


def build_args(spec, fn, g):
    sig = inspect.signature(fn)
    a = NS()
    for n, p in sig.parameters.items():
        gen = spec.gens.get(n)
        if gen is None:
            try:
                gen = auto_gen(p.annotation, p)
            except KeyError as e:
                raise RuntimeError(f"{spec.op}: no generator for {n}: {p.annotation}") from e
        if callable(gen) and not isinstance(gen, type):
            a[n] = gen(g, a, n)
        else:
            a[n] = gen
    return a
