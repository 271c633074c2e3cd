"""A symbolic executor for real Python functions.

The function under test is *called*, unchanged, with z3-backed proxy values
(SymInt / SymBool / SymReal).  Every time Python needs a concrete truth value of
a symbolic condition, the executor asks the solver which outcomes are feasible
and re-executes the function once per feasible outcome, so that the set of runs
covers every input inside the stated bounds.  On every run the harness states
assertions with `ctx.prove`, which asks the solver for a counterexample under
the path condition.
"""
import builtins
import math as _math
import time

import z3


class PathAbort(BaseException):
    """Ends the current run (infeasible assumption)."""


class BoundExceeded(BaseException):
    """The exploration budget was exhausted: nothing may be concluded."""


class Inconclusive(BaseException):
    """Solver returned unknown on a deciding query."""


_CTX = []


def ctx():
    if not _CTX:
        raise RuntimeError("symbolic value used outside of an exploration")
    return _CTX[-1]


# ---------------------------------------------------------------- values

_PYINT = int
_PYFLOAT = float
_PYBOOL = bool


def _lift_int(v):
    if isinstance(v, SymInt):
        return v.e
    if isinstance(v, SymBool):
        return z3.If(v.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(v, _PYBOOL):
        return z3.IntVal(_PYINT(v))
    if isinstance(v, _PYINT):
        return z3.IntVal(v)
    return None


def _lift_real(v):
    if isinstance(v, SymReal):
        return v.e
    if isinstance(v, _PYFLOAT):
        if _math.isinf(v) or _math.isnan(v):
            return None
        n, d = v.as_integer_ratio()
        return z3.RealVal(n) / z3.RealVal(d) if d != 1 else z3.RealVal(n)
    i = _lift_int(v)
    if i is not None:
        return z3.ToReal(i)
    return None


def mkint(e):
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e)


def mkbool(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def mkreal(e):
    return SymReal(z3.simplify(e))


def ex(v):
    """z3 expression of an int-like value."""
    e = _lift_int(v)
    if e is None:
        raise TypeError(f"not an int-like symbolic value: {v!r}")
    return e


def bx(v):
    if isinstance(v, SymBool):
        return v.e
    if isinstance(v, _PYBOOL):
        return z3.BoolVal(v)
    if z3.is_expr(v):
        return v
    if isinstance(v, (SymInt, _PYINT)):
        return ex(v) != 0
    raise TypeError(f"not a bool-like symbolic value: {v!r}")


def short(e):
    return str(e) if e.num_args() == 0 else e.sexpr()[:160]


class SymBool:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return ctx().branch(self.e)

    def __and__(self, o):
        if isinstance(o, (SymBool, _PYBOOL)):
            return mkbool(z3.And(self.e, bx(o)))
        return SymInt(_lift_int(self)) & o

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (SymBool, _PYBOOL)):
            return mkbool(z3.Or(self.e, bx(o)))
        return SymInt(_lift_int(self)) | o

    __ror__ = __or__

    def __eq__(self, o):
        if isinstance(o, (SymBool, _PYBOOL)):
            return mkbool(self.e == bx(o))
        return SymInt(_lift_int(self)) == o

    def __ne__(self, o):
        return not_(self.__eq__(o))

    def __hash__(self):
        return hash(bool(self))

    def _int(self):
        return SymInt(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    def __lt__(self, o):
        return self._int() < o

    def __le__(self, o):
        return self._int() <= o

    def __gt__(self, o):
        return self._int() > o

    def __ge__(self, o):
        return self._int() >= o

    def __int__(self):
        return _PYINT(bool(self))

    __index__ = __int__

    def __add__(self, o):
        return mkint(_lift_int(self)) + o

    __radd__ = __add__

    def __sub__(self, o):
        return mkint(_lift_int(self)) - o

    def __rsub__(self, o):
        return o - mkint(_lift_int(self))

    def __mul__(self, o):
        return mkint(_lift_int(self)) * o

    __rmul__ = __mul__

    def __repr__(self):
        return f"SymBool({short(self.e)})"


def not_(v):
    if isinstance(v, SymBool):
        return mkbool(z3.Not(v.e))
    return not v


def and_(*vs):
    return mkbool(z3.And(*[bx(v) for v in vs]))


def or_(*vs):
    return mkbool(z3.Or(*[bx(v) for v in vs]))


def ite(c, a, b):
    if isinstance(c, _PYBOOL):
        return a if c else b
    if isinstance(a, (SymReal, _PYFLOAT)) or isinstance(b, (SymReal, _PYFLOAT)):
        return mkreal(z3.If(bx(c), _lift_real(a), _lift_real(b)))
    return mkint(z3.If(bx(c), ex(a), ex(b)))


def smax(*a):
    r = a[0]
    for x in a[1:]:
        r = ite(x > r, x, r)
    return r


def smin(*a):
    r = a[0]
    for x in a[1:]:
        r = ite(x < r, x, r)
    return r


def _fdiv(a, b):
    """Python floor division of z3 ints. Raises ZeroDivisionError on b == 0."""
    bs = z3.simplify(b)
    if z3.is_int_value(bs):
        bv = bs.as_long()
        if bv == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        if bv > 0:
            return a / bs
        return (-a) / z3.IntVal(-bv)
    if ctx().branch(bs == 0):
        raise ZeroDivisionError("integer division or modulo by zero")
    if ctx().branch(bs > 0):
        return a / bs
    return (-a) / (-bs)


# When set, the text of a symbolic integer is TEXT(value), a token that parsers of
# the produced text can map back to the value.
TEXT = None


class SymInt:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    # conversion
    def __bool__(self):
        return ctx().branch(self.e != 0)

    def __index__(self):
        return ctx().concretize(self.e)

    def __int__(self):
        return ctx().concretize(self.e)

    def __float__(self):
        return float(ctx().concretize(self.e))

    def __hash__(self):
        if TEXT is not None:
            # all integers of a run that prints tokens share a bucket: equality decides
            return 7
        return hash(ctx().concretize(self.e))

    def __repr__(self):
        return f"SymInt({short(self.e)})"

    def __str__(self):
        return TEXT(self) if TEXT is not None else repr(self)

    def __format__(self, spec):
        return str(self)

    # arithmetic
    def _bin(self, o, fi, fr):
        i = _lift_int(o)
        if i is not None:
            return mkint(fi(self.e, i))
        r = _lift_real(o)
        if r is not None:
            return mkreal(fr(z3.ToReal(self.e), r))
        return NotImplemented

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b, lambda a, b: a + b)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: b + a, lambda a, b: b + a)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a, lambda a, b: b - a)

    def __mul__(self, o):
        if isinstance(o, (list, tuple)):
            return o * _PYINT(self)
        return self._bin(o, lambda a, b: a * b, lambda a, b: a * b)

    __rmul__ = __mul__

    def __floordiv__(self, o):
        i = _lift_int(o)
        if i is None:
            r = _lift_real(o)
            if r is None:
                return NotImplemented
            return mkreal(z3.ToReal(z3.ToInt(z3.ToReal(self.e) / _nz(r))))
        return mkint(_fdiv(self.e, i))

    def __rfloordiv__(self, o):
        i = _lift_int(o)
        if i is None:
            return NotImplemented
        return mkint(_fdiv(i, self.e))

    def __mod__(self, o):
        i = _lift_int(o)
        if i is None:
            return NotImplemented
        return mkint(self.e - i * _fdiv(self.e, i))

    def __rmod__(self, o):
        i = _lift_int(o)
        if i is None:
            return NotImplemented
        return mkint(i - self.e * _fdiv(i, self.e))

    def __divmod__(self, o):
        return self // o, self % o

    def __truediv__(self, o):
        r = _lift_real(o)
        if r is None:
            return NotImplemented
        return mkreal(z3.ToReal(self.e) / _nz(r))

    def __rtruediv__(self, o):
        r = _lift_real(o)
        if r is None:
            return NotImplemented
        return mkreal(r / _nz(z3.ToReal(self.e)))

    def __pow__(self, o):
        if isinstance(o, SymInt):
            o = _PYINT(o)
        if isinstance(o, _PYINT) and o >= 0:
            e = z3.IntVal(1)
            for _ in range(o):
                e = e * self.e
            return mkint(e)
        if isinstance(o, _PYINT):
            d = self ** (-o)
            return 1 / d
        return NotImplemented

    def __rpow__(self, o):
        return o ** _PYINT(self)

    def __lshift__(self, o):
        o = _PYINT(o)
        return self * (1 << o)

    def __rshift__(self, o):
        o = _PYINT(o)
        return self // (1 << o)

    def __and__(self, o):
        return _PYINT(self) & _PYINT(o)

    __rand__ = __and__

    def __or__(self, o):
        return _PYINT(self) | _PYINT(o)

    __ror__ = __or__

    def __neg__(self):
        return mkint(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return mkint(z3.If(self.e >= 0, self.e, -self.e))

    def __ceil__(self):
        return self

    def __floor__(self):
        return self

    def __trunc__(self):
        return self

    def __round__(self, n=None):
        return self

    def is_integer(self):
        return True

    # comparison
    def _cmp(self, o, f):
        i = _lift_int(o)
        if i is not None:
            return mkbool(f(self.e, i))
        r = _lift_real(o)
        if r is not None:
            return mkbool(f(z3.ToReal(self.e), r))
        if isinstance(o, _PYFLOAT):  # inf / nan
            return f(0.0, o)
        return NotImplemented

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b)


def _nz(r):
    if ctx().branch(z3.simplify(r == 0)):
        raise ZeroDivisionError("division by zero")
    return r


class SymReal:
    """A symbolic exact real standing for a Python float (assumption: the float
    computation is exact; stated where used)."""

    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def _bin(self, o, f, sign=False):
        r = _lift_real(o)
        if r is None:
            if type(o) is _PYFLOAT:  # an infinity or NaN
                if not sign:
                    return f(0.0, o)
                if ctx().branch(self.e == 0):
                    return f(0.0, o)
                return f(1.0 if ctx().branch(self.e > 0) else -1.0, o)
            return NotImplemented
        return mkreal(f(self.e, r))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b, True)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._bin(o, lambda a, b: a / (_nz(b) if z3.is_expr(b) else b), True)

    def __rtruediv__(self, o):
        return self._bin(o, lambda a, b: b / (_nz(a) if z3.is_expr(a) else a), True)

    def __floordiv__(self, o):
        return self._bin(o, lambda a, b: z3.ToReal(z3.ToInt(a / _nz(b))))

    def __neg__(self):
        return mkreal(-self.e)

    def __abs__(self):
        return mkreal(z3.If(self.e >= 0, self.e, -self.e))

    def __bool__(self):
        return ctx().branch(self.e != 0)

    def __floor__(self):
        return mkint(z3.ToInt(self.e))

    def __ceil__(self):
        return mkint(-z3.ToInt(-self.e))

    def __trunc__(self):
        return mkint(z3.If(self.e >= 0, z3.ToInt(self.e), -z3.ToInt(-self.e)))

    def __round__(self, nd=None):
        # to nearest, ties to even
        m = _PYINT(10) ** (nd or 0)
        x = self.e * m if nd is None or nd >= 0 else self.e / (_PYINT(10) ** -nd)
        k = z3.ToInt(x + z3.Q(1, 2))
        k = z3.If(z3.And(z3.ToReal(k) == x + z3.Q(1, 2), k % 2 != 0), k - 1, k)
        if nd is None:
            return mkint(k)
        return mkreal(z3.ToReal(k) / m if nd >= 0 else z3.ToReal(k) * (_PYINT(10) ** -nd))

    def __int__(self):
        return _PYINT(self.__trunc__())

    def __float__(self):
        raise Inconclusive("float() of a symbolic real")

    def is_integer(self):
        return mkbool(z3.IsInt(self.e))

    def _cmp(self, o, f):
        r = _lift_real(o)
        if r is None:
            if isinstance(o, _PYFLOAT):
                return f(0.0, o)
            return NotImplemented
        return mkbool(f(self.e, r))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b)

    def __hash__(self):
        raise Inconclusive("hash of symbolic real")

    def __repr__(self):
        return f"SymReal({short(self.e)})"

    def __format__(self, spec):
        return repr(self)


# --------------------------------------------------------- builtin shims
# Installed into the globals of the modules under test, so that `int(x)`,
# `isinstance(x, int)`, `max`, ... accept symbolic values.  On concrete values
# they are the builtins.


class _IntMeta(type):
    def __call__(cls, *a, **k):
        if len(a) == 1 and not k:
            x = a[0]
            if isinstance(x, SymInt):
                return x
            if isinstance(x, SymBool):
                return mkint(_lift_int(x))
            if isinstance(x, SymReal):
                return x.__trunc__()
        return _PYINT(*a, **k)

    def __instancecheck__(cls, x):
        return isinstance(x, (_PYINT, SymInt, SymBool))

    def __eq__(cls, o):
        return o is cls or o is _PYINT

    def __hash__(cls):
        return hash(_PYINT)

    def __getattr__(cls, k):
        return getattr(_PYINT, k)


class IntShim(metaclass=_IntMeta):
    pass


class _FloatMeta(type):
    def __call__(cls, *a, **k):
        if len(a) == 1 and not k:
            x = a[0]
            if isinstance(x, SymReal):
                return x
            if isinstance(x, (SymInt, SymBool)):
                return mkreal(z3.ToReal(_lift_int(x)))
        return _PYFLOAT(*a, **k)

    def __instancecheck__(cls, x):
        return isinstance(x, (_PYFLOAT, SymReal))

    def __eq__(cls, o):
        return o is cls or o is _PYFLOAT

    def __hash__(cls):
        return hash(_PYFLOAT)

    def __getattr__(cls, k):
        return getattr(_PYFLOAT, k)


class FloatShim(metaclass=_FloatMeta):
    pass


class _BoolMeta(type):
    def __call__(cls, *a, **k):
        if len(a) == 1 and isinstance(a[0], SymBool):
            return a[0]
        if len(a) == 1 and isinstance(a[0], SymInt):
            return mkbool(a[0].e != 0)
        return _PYBOOL(*a, **k)

    def __instancecheck__(cls, x):
        return isinstance(x, (_PYBOOL, SymBool))

    def __eq__(cls, o):
        return o is cls or o is _PYBOOL

    def __hash__(cls):
        return hash(_PYBOOL)


class BoolShim(metaclass=_BoolMeta):
    pass


def _has_sym(xs):
    return any(isinstance(x, (SymInt, SymReal, SymBool)) for x in xs)


def shim_max(*a, **k):
    xs = list(a[0]) if len(a) == 1 else list(a)
    if not k and xs and _has_sym(xs):
        return smax(*xs)
    return builtins.max(xs, **k)


def shim_min(*a, **k):
    xs = list(a[0]) if len(a) == 1 else list(a)
    if not k and xs and _has_sym(xs):
        return smin(*xs)
    return builtins.min(xs, **k)


def shim_type(*a):
    """type(x) of a proxy is the type of the value it stands for."""
    if len(a) == 1:
        if isinstance(a[0], SymInt):
            return _PYINT
        if isinstance(a[0], SymBool):
            return _PYBOOL
        if isinstance(a[0], SymReal):
            return _PYFLOAT
    return type(*a)


class MathShim:
    def __getattr__(self, k):
        return getattr(_math, k)

    @staticmethod
    def isinf(x):
        if isinstance(x, (SymInt, SymReal)):
            return False
        return _math.isinf(x)

    @staticmethod
    def isnan(x):
        if isinstance(x, (SymInt, SymReal)):
            return False
        return _math.isnan(x)

    @staticmethod
    def isfinite(x):
        if isinstance(x, (SymInt, SymReal)):
            return True
        return _math.isfinite(x)

    @staticmethod
    def trunc(x):
        return x.__trunc__()

    @staticmethod
    def prod(xs, start=1):
        r = start
        for x in xs:
            r = r * x
        return r

    @staticmethod
    def fabs(x):
        return abs(x)

    @staticmethod
    def isclose(a, b, *, rel_tol=1e-09, abs_tol=0.0):
        if not any(isinstance(x, (SymInt, SymReal)) for x in (a, b)):
            return _math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
        if a == b:
            return True
        if any(type(x) is _PYFLOAT and not _math.isfinite(x) for x in (a, b)):
            return False
        d = abs(a - b)
        return bool(d <= rel_tol * abs(b)) or bool(d <= rel_tol * abs(a)) or bool(d <= abs_tol)

    @staticmethod
    def copysign(x, y):
        return abs(x) if y >= 0 else -abs(x)


SHIMS = {
    "int": IntShim,
    "float": FloatShim,
    "bool": BoolShim,
    "max": shim_max,
    "min": shim_min,
    "type": shim_type,
}


class shims:
    """Context manager installing the shims in module globals."""

    def __init__(self, *modules, names=None, math=True):
        self.modules = modules
        self.names = names or list(SHIMS)
        self.math = math

    def __enter__(self):
        self.saved = []
        for m in self.modules:
            d = m if isinstance(m, dict) else m.__dict__
            for n in self.names:
                self.saved.append((d, n, d.get(n, self)))
                d[n] = SHIMS[n]
            if self.math and "math" in d:
                self.saved.append((d, "math", d["math"]))
                d["math"] = MathShim()
        return self

    def __exit__(self, *a):
        for d, n, v in reversed(self.saved):
            if v is self:
                d.pop(n, None)
            else:
                d[n] = v


# ------------------------------------------------------------ exploration


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.paths = 0
        self.obligations = 0
        self.discharged = 0
        self.infeasible = 0
        self.reached = 0

    def merge(self, o):
        for k, v in o.__dict__.items() if isinstance(o, Stats) else o.items():
            setattr(self, k, getattr(self, k) + v)

    def as_dict(self):
        return dict(self.__dict__)


class Counterexample(Exception):
    def __init__(self, what, model):
        super().__init__(what)
        self.what = what
        self.model = model


class Path:
    def __init__(self, solver, prefix, stats, timeout_ms):
        self.solver = solver
        self.prefix = prefix
        self.trail = []
        self.alts = []
        self.stats = stats
        self.pc = []
        self.vars = {}
        self.unknown = False

    # -- declarations
    def int(self, name, lo=None, hi=None):
        v = z3.Int(name)
        self.vars[name] = v
        if lo is not None:
            self._add(v >= lo)
        if hi is not None:
            self._add(v <= hi)
        return SymInt(v)

    def boolean(self, name):
        v = z3.Bool(name)
        self.vars[name] = v
        return SymBool(v)

    def bv(self, name, w):
        """A bit-vector (vt.ll)."""
        v = z3.BitVec(name, w)
        self.vars[name] = v
        return v

    def fp(self, name, w):
        v = z3.FP(name, z3.Float64() if w == 64 else z3.Float32())
        self.vars[name] = v
        return v

    def _add(self, c):
        self.pc.append(c)
        self.solver.add(c)

    def assume(self, c):
        c = z3.simplify(bx(c))
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise PathAbort()
        self._add(c)
        if self._check() == z3.unsat:
            self.stats.infeasible += 1
            raise PathAbort()

    def _check(self, *a):
        t = time.time()
        r = self.solver.check(*a)
        self.stats.queries += 1
        self.stats.solver_s += time.time() - t
        return r

    # -- control
    def branch(self, e):
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        i = len(self.trail)
        if i < len(self.prefix):
            kind, taken = self.prefix[i]
            if kind != "b":
                raise RuntimeError("nondeterministic re-execution")
            self.trail.append(self.prefix[i])
            self._add(e if taken else z3.Not(e))
            return taken
        t = self._check(e)
        if t == z3.unsat:
            self.trail.append(("b", False))
            self._add(z3.Not(e))
            return False
        f = self._check(z3.Not(e))
        if f == z3.unsat:
            self.trail.append(("b", True))
            self._add(e)
            return True
        if t == z3.unknown or f == z3.unknown:
            self.unknown = True
        self.alts.append(self.trail + [("b", False)])
        self.trail.append(("b", True))
        self._add(e)
        return True

    def concretize(self, e):
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        n = 0
        while True:
            i = len(self.trail)
            if i < len(self.prefix):
                kind, val, taken = self.prefix[i]
                if kind != "c":
                    raise RuntimeError("nondeterministic re-execution")
                self.trail.append(self.prefix[i])
                self._add(e == val if taken else e != val)
                if taken:
                    return val
                continue
            if self._check() != z3.sat:
                raise PathAbort()
            val = self.solver.model().eval(e, model_completion=True).as_long()
            if self._check(e != val) != z3.unsat:
                self.alts.append(self.trail + [("c", val, False)])
            self.trail.append(("c", val, True))
            self._add(e == val)
            return val

    def concretize_bv(self, e):
        e = z3.simplify(e)
        if z3.is_bv_value(e):
            return e.as_long()
        return self.concretize(e)

    def must(self, e):
        """Whether e holds on every run of this path (False if unknown)."""
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        i = len(self.trail)
        if i < len(self.prefix):
            if self.prefix[i][0] != "m":
                raise RuntimeError("nondeterministic re-execution")
            self.trail.append(self.prefix[i])
            return self.prefix[i][1]
        r = self._check(z3.Not(e)) == z3.unsat
        self.trail.append(("m", r))
        return r

    def choice(self, n, tag="choice"):
        """Nondeterministic harness choice in range(n), explored exhaustively
        (no solver call: every outcome is feasible)."""
        if n == 1:
            return 0
        i = len(self.trail)
        if i < len(self.prefix):
            kind, val = self.prefix[i]
            if kind != "n":
                raise RuntimeError("nondeterministic re-execution")
            self.trail.append(self.prefix[i])
            return val
        for k in range(n - 1, 0, -1):
            self.alts.append(self.trail + [("n", k)])
        self.trail.append(("n", 0))
        return 0

    def real(self, name):
        v = z3.Real(name)
        self.vars[name] = v
        return SymReal(v)

    # -- obligations
    def prove(self, claim, what="", info=None):
        self.stats.obligations += 1
        if isinstance(claim, _PYBOOL):
            c = z3.BoolVal(claim)
        else:
            c = bx(claim)
        c = z3.simplify(c)
        if z3.is_true(c):
            self.stats.discharged += 1
            return True
        r = self._check(z3.Not(c))
        if r == z3.unsat:
            self.stats.discharged += 1
            return True
        if r == z3.sat:
            raise Counterexample(what, self.model(z3.Not(c)))
        # a fresh solver preprocesses, which the incremental one does not
        t = time.time()
        s = z3.Solver()
        s.set("timeout", 60000)
        s.add(*self.pc, z3.Not(c))
        r = s.check()
        self.stats.queries += 1
        self.stats.solver_s += time.time() - t
        if r == z3.unsat:
            self.stats.discharged += 1
            return True
        raise Inconclusive(f"solver returned unknown on: {what}")

    def prove_raw(self, c, what=""):
        """prove() that always asks the solver."""
        self.stats.obligations += 1
        r = self._check(z3.Not(c))
        if r == z3.unsat:
            self.stats.discharged += 1
            return True
        if r == z3.sat:
            raise Counterexample(what, self.model(z3.Not(c)))
        raise Inconclusive(f"solver returned unknown on: {what}")

    def feasible(self, c=True):
        r = self._check(bx(c))
        if r == z3.unknown:
            raise Inconclusive("unknown in feasibility check")
        return r == z3.sat

    def model(self, *extra):
        """A small satisfying assignment of the path condition and `extra`."""
        xs = [bx(x) for x in extra]
        if self._check(*xs) != z3.sat:
            raise Inconclusive("no model")
        m = self.solver.model()
        ints = [v for v in self.vars.values() if z3.is_int(v) or z3.is_bv(v)]
        for hi in (3, 8, 40):
            small = [z3.And(v <= hi, v >= -hi) for v in ints]
            if self._check(*xs, *small) == z3.sat:
                m = self.solver.model()
                break
        else:
            # shrink greedily, one variable at a time
            for v in ints:
                for hi in (4, 64):
                    c = z3.And(v <= hi, v >= -hi)
                    if self._check(*xs, c) == z3.sat:
                        xs.append(c)
                        m = self.solver.model()
                        break
        out = {}
        for n, v in self.vars.items():
            val = m.eval(v, model_completion=True)
            if z3.is_bool(v):
                out[n] = z3.is_true(val)
            elif z3.is_int(v):
                out[n] = val.as_long()
            elif z3.is_bv(v):
                out[n] = val.as_signed_long()
            elif z3.is_fp(v):
                out[n] = _fp_value(m, v)
            else:
                out[n] = val.as_fraction() if hasattr(val, "as_fraction") else 0
        return out


def _fp_value(m, v):
    import struct

    if z3.is_true(m.eval(z3.fpIsNaN(v), model_completion=True)):
        return float("nan")
    b = m.eval(z3.fpToIEEEBV(v), model_completion=True)
    if not z3.is_bv_value(b):
        b = z3.simplify(b)
    if not z3.is_bv_value(b):
        return float("nan")
    return struct.unpack("<d", struct.pack("<Q", b.as_long()))[0] if b.size() == 64 else struct.unpack("<f", struct.pack("<I", b.as_long()))[0]


def explore(fn, max_paths=20000, timeout_ms=20000, stats=None, stop_on_cex=True,
            max_seconds=None, on_cex=None):
    """Run fn(path) over every feasible decision sequence.

    Returns (stats, counterexamples).  Raises BoundExceeded / Inconclusive when
    nothing may be concluded.
    """
    stats = stats or Stats()
    cexs = []
    stack = [[]]
    t0 = time.time()
    n = 0
    while stack:
        prefix = stack.pop()
        n += 1
        if n > max_paths:
            raise BoundExceeded(f"more than {max_paths} paths")
        if max_seconds and time.time() - t0 > max_seconds:
            raise BoundExceeded(f"more than {max_seconds}s")
        solver = z3.Solver()
        solver.set("timeout", timeout_ms)
        p = Path(solver, prefix, stats, timeout_ms)
        _CTX.append(p)
        try:
            fn(p)
            stats.paths += 1
        except PathAbort:
            pass
        except Counterexample as c:
            stats.paths += 1
            c.choices = [t[1] for t in p.trail if t[0] == "n"]
            cexs.append(c)
            if stop_on_cex and (on_cex is None or on_cex(c)):
                return stats, cexs
        finally:
            _CTX.pop()
        stack.extend(p.alts)
    return stats, cexs


def _zval(e, mv):
    if z3.is_bool(e):
        return z3.BoolVal(mv)
    if z3.is_int(e):
        return z3.IntVal(mv)
    return z3.RealVal(str(mv))


def valuate(v, model, names):
    """Concrete value of a (possibly symbolic) structure under a model dict."""
    if isinstance(v, (SymInt, SymBool, SymReal)):
        sub = [(e, _zval(e, model[n])) for n, e in names.items() if n in model]
        r = z3.simplify(z3.substitute(v.e, *sub))
        if isinstance(v, SymInt):
            return r.as_long()
        if isinstance(v, SymBool):
            return z3.is_true(r)
        return float(r.as_fraction())
    if isinstance(v, list):
        return [valuate(x, model, names) for x in v]
    if isinstance(v, tuple):
        return tuple(valuate(x, model, names) for x in v)
    if isinstance(v, dict):
        return {k: valuate(x, model, names) for k, x in v.items()}
    return v
