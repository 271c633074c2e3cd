"""Intrinsics, the C/C++ runtime and the harness interface for vt.ll.exec."""
import math

import z3

from ..decide import Unsupported
from ..symex import Counterexample, PathAbort, SymBool
from . import exec as X
from .exec import B, FPV, Trap, fsort, sgn, simp

IGNORED = ("llvm.lifetime", "llvm.dbg", "llvm.assume", "llvm.experimental.noalias", "llvm.invariant", "llvm.donothing", "llvm.va_", "llvm.prefetch",
           "llvm.stackrestore")
OVERRIDE = set()


def _minmax(pred):
    def f(M, w, rt, a, b):
        c = X.icmp(pred, a, b, w[0])
        return X.select(M, c, a, b, rt)
    return f


def _abs(M, w, rt, a, poison):
    if type(a) is int:
        return abs(sgn(a, w[0])) & ((1 << w[0]) - 1)
    return simp(z3.If(a < 0, -a, a))


def _ovf(op, signed):
    def f(M, w, rt, a, b):
        w = w[0]
        r = X.ibin(op, a, b, w, M)
        if type(a) is int and type(b) is int:
            x, y = (sgn(a, w), sgn(b, w)) if signed else (a, b)
            t = {"add": x + y, "sub": x - y, "mul": x * y}[op]
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
            return (r, int(not lo <= t <= hi))
        x, y = B(a, w), B(b, w)
        ext = (lambda v: z3.SignExt(w, v)) if signed else (lambda v: z3.ZeroExt(w, v))
        t = {"add": lambda: ext(x) + ext(y), "sub": lambda: ext(x) - ext(y), "mul": lambda: ext(x) * ext(y)}[op]()
        return (r, simp(t != ext(B(r, w))))
    return f


def _sat(op, signed):
    def f(M, w, rt, a, b):
        w = w[0]
        r, o = _ovf(op, signed)(M, [w], None, a, b)
        if signed:
            s = X.icmp("slt", a, 0, w)
            lim = X.select(M, s, 1 << (w - 1), (1 << (w - 1)) - 1, ("i", w))
        else:
            lim = 0 if op == "sub" else (1 << w) - 1
        return X.select(M, o, lim, r, ("i", w))
    return f


def _clz(M, w, rt, a, p):
    w = w[0]
    if type(a) is int:
        return w - a.bit_length()
    r = z3.BitVecVal(w, w)
    for i in range(w):
        r = z3.If(z3.Extract(i, i, a) == 1, z3.BitVecVal(w - 1 - i, w), r)
    return simp(r)


def _ctz(M, w, rt, a, p):
    w = w[0]
    if type(a) is int:
        return w if a == 0 else (a & -a).bit_length() - 1
    r = z3.BitVecVal(w, w)
    for i in reversed(range(w)):
        r = z3.If(z3.Extract(i, i, a) == 1, z3.BitVecVal(i, w), r)
    return simp(r)


def _pop(M, w, rt, a):
    w = w[0]
    if type(a) is int:
        return bin(a).count("1")
    return simp(sum((z3.ZeroExt(w - 1, z3.Extract(i, i, a)) for i in range(w)), z3.BitVecVal(0, w)))


def _fsh(left):
    def f(M, w, rt, a, b, s):
        w = w[0]
        if type(s) is not int:
            raise Unsupported("funnel shift by a symbolic amount")
        s %= w
        if not left:
            s = (w - s) % w
            if s == 0:
                return b
        if s == 0:
            return a
        return X.ibin("or", X.ibin("shl", a, s, w, M), X.ibin("lshr", b, w - s, w, M), w, M)
    return f


def _bswap(M, w, rt, a):
    w = w[0]
    if type(a) is int:
        return int.from_bytes(a.to_bytes(w // 8, "little"), "big")
    return simp(z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, a) for i in range(w // 8)]))


def _fabs(M, w, rt, a):
    return abs(a) if type(a) is float else z3.fpAbs(a)


def _rnd(mode):
    return lambda M, w, rt, a: X.round_int(a, w[0], mode)


def _copysign(M, w, rt, a, b):
    if type(a) is float and type(b) is float:
        return math.copysign(a, b)
    x, y = FPV(a, w[0]), FPV(b, w[0])
    neg = z3.Extract(w[0] - 1, w[0] - 1, z3.fpToIEEEBV(y)) == 1
    return z3.If(neg, z3.fpNeg(z3.fpAbs(x)), z3.fpAbs(x))


def _fminmax(gt):
    def f(M, w, rt, a, b):
        c = X.fcmp("ogt" if gt else "olt", a, b, w[0])
        na = X.fcmp("uno", a, a, w[0])
        nb = X.fcmp("uno", b, b, w[0])
        r = X.select(M, c, a, b, rt)
        r = X.select(M, nb, a, r, rt)
        return X.select(M, na, b, r, rt)
    return f


def _fma(M, w, rt, a, b, c):
    return X.fbin("fadd", X.fbin("fmul", a, b, w[0]), c, w[0])


def _sqrt(M, w, rt, a):
    if type(a) is float:
        return math.sqrt(a) if a >= 0 else (a if a == 0 else math.nan)
    return z3.fpSqrt(X.RNE, a)


def _isfpclass(M, w, rt, a, mask):
    names = [("snan", 1), ("qnan", 2), ("ninf", 4), ("nnorm", 8), ("nsub", 16), ("nzero", 32), ("pzero", 64), ("psub", 128), ("pnorm", 256),
             ("pinf", 512)]
    x = FPV(a, w[0])
    neg, tests = z3.fpIsNegative(x), []
    if mask & 3:
        tests.append(z3.fpIsNaN(x))
    for bit, c in ((4, z3.And(neg, z3.fpIsInf(x))), (8, z3.And(neg, z3.fpIsNormal(x))), (16, z3.And(neg, z3.fpIsSubnormal(x))),
                   (32, z3.And(neg, z3.fpIsZero(x))), (64, z3.And(z3.Not(neg), z3.fpIsZero(x))), (128, z3.And(z3.Not(neg), z3.fpIsSubnormal(x))),
                   (256, z3.And(z3.Not(neg), z3.fpIsNormal(x))), (512, z3.And(z3.Not(neg), z3.fpIsInf(x)))):
        if mask & bit:
            tests.append(c)
    return simp(z3.Or(*tests))


def _mathfn(name):
    def f(M, w, rt, *a):
        if all(type(x) is float for x in a):
            try:
                return X.rnd(float(getattr(math, name)(*a)), w[0])
            except (ValueError, OverflowError):
                return libm(name, a)
        return X.ufun(name, w[0], *[FPV(x, w[0]) for x in a])
    return f


def libm(name, a):
    import ctypes

    f = getattr(ctypes.CDLL("libm.so.6"), name)
    f.restype = ctypes.c_double
    f.argtypes = [ctypes.c_double] * len(a)
    return f(*a)


INTR = {
    "memcpy": lambda M, w, rt, d, s, n, v: M.memcpy(d, s, n), "memmove": lambda M, w, rt, d, s, n, v: M.memcpy(d, s, n),
    "memset": lambda M, w, rt, d, b, n, v: M.memset(d, b, n),
    "umax": _minmax("ugt"), "umin": _minmax("ult"), "smax": _minmax("sgt"), "smin": _minmax("slt"), "abs": _abs,
    "sadd.with.overflow": _ovf("add", True), "ssub.with.overflow": _ovf("sub", True), "smul.with.overflow": _ovf("mul", True),
    "uadd.with.overflow": _ovf("add", False), "usub.with.overflow": _ovf("sub", False), "umul.with.overflow": _ovf("mul", False),
    "uadd.sat": _sat("add", False), "usub.sat": _sat("sub", False), "sadd.sat": _sat("add", True), "ssub.sat": _sat("sub", True),
    "ctlz": _clz, "cttz": _ctz, "ctpop": _pop, "fshl": _fsh(True), "fshr": _fsh(False), "bswap": _bswap,
    "fabs": _fabs, "floor": _rnd("floor"), "ceil": _rnd("ceil"), "trunc": _rnd("trunc"), "rint": _rnd("rint"), "nearbyint": _rnd("rint"),
    "roundeven": _rnd("rint"), "round": _rnd("round"), "copysign": _copysign, "minnum": _fminmax(False), "maxnum": _fminmax(True),
    "minimum": _fminmax(False), "maximum": _fminmax(True), "fma": _fma, "fmuladd": _fma, "sqrt": _sqrt, "is.fpclass": _isfpclass,
    "pow": _mathfn("pow"), "exp": _mathfn("exp"), "log": _mathfn("log"), "log2": _mathfn("log2"), "exp2": _mathfn("exp2"),
    "log10": _mathfn("log10"), "sin": _mathfn("sin"), "cos": _mathfn("cos"),
    "expect": lambda M, w, rt, a, b: a, "objectsize": lambda M, w, rt, *a: (1 << rt[1]) - 1, "stacksave": lambda M, w, rt: 0,
    "launder.invariant.group": lambda M, w, rt, a: a, "strip.invariant.group": lambda M, w, rt, a: a,
    "is.constant": lambda M, w, rt, a: 0, "ptrmask": lambda M, w, rt, a, b: X.ibin("and", a, b, 64, M),
}


def _trap(M, *a):
    raise Trap("trap")


def intrinsic(n):
    if not n.startswith("llvm."):
        return None
    s = n[5:]
    if s.startswith(("trap", "ubsantrap", "debugtrap")):
        return _trap
    best = None
    for k in INTR:
        if (s == k or s.startswith(k + ".")) and (best is None or len(k) > len(best)):
            best = k
    if best is None:
        def f(M, *a):
            raise Unsupported(f"intrinsic {n}")
        return f
    return INTR[best]


# -------------------------------------------------------------- externals


def _alloc(M, n, *a):
    n = M.addr(n)
    if n > 1 << 24:
        raise Trap(f"allocation of {n} bytes")
    return M.new(max(1, n))


def _free(M, p, *a):
    p = M.addr(p)
    if p == 0:
        return
    o = M.objs[p >> 32] if 0 < p >> 32 < len(M.objs) else None
    if o is None or not o.alive or p & 0xFFFFFFFF:
        raise Trap("invalid free")
    o.alive = False


def _realloc(M, p, n):
    p, n = M.addr(p), M.addr(n)
    q = M.new(max(1, n))
    if p:
        o = M.objs[p >> 32]
        M.memcpy(q, p, min(o.size, n))
        o.alive = False
    return q


def _cmp(M, a, b, n):
    n = M.addr(n)
    for i in range(n):
        x, y = M.load(a + i, 1, False), M.load(b + i, 1, False)
        if M.br(X.icmp("ne", x, y, 8)):
            return (1 if M.br(X.icmp("ugt", x, y, 8)) else (1 << 32) - 1)
    return 0


def _strlen(M, a):
    return len(M.cstr(a).encode())


def _strcmp(M, a, b):
    x, y = M.cstr(a), M.cstr(b)
    return 0 if x == y else (1 if x > y else (1 << 32) - 1)


def _memchr(M, a, c, n):
    n = M.addr(n)
    for i in range(n):
        if M.br(X.icmp("eq", M.load(a + i, 1, False), X.trunc(c, 32, 8), 8)):
            return a + i
    return 0


def _memcpy(M, d, s, n):
    M.memcpy(d, s, n)
    return d


def _memset(M, d, b, n):
    M.memset(d, X.trunc(b, 32, 8), n)
    return d


def _fail(what):
    def f(M, *a):
        raise Trap(what)
    return f


# the harness interface


def vt_i64(M, name):
    n = M.cstr(name)
    return M.p.bv(n, 64)


def vt_bool(M, name):
    n = M.cstr(name)
    v = M.p.boolean(n)
    return v.e if isinstance(v, SymBool) else int(v)


def vt_f64(M, name):
    return M.p.fp(M.cstr(name), 64)


def vt_f32(M, name):
    return M.p.fp(M.cstr(name), 32)


def _c(v):
    return SymBool(v) if z3.is_expr(v) else bool(v)


def vt_assume(M, c):
    M.p.assume(_c(c))


def vt_prove(M, c, msg):
    m = M.cstr(msg) if type(msg) is int else "?"
    M.p.prove(_c(c), m)
    M.proved = getattr(M, "proved", 0) + 1


def vt_fail(M, msg):
    raise Trap(M.cstr(msg))


def vt_skip(M):
    raise PathAbort()


def vt_choice(M, n):
    return M.p.choice(M.addr(n))


def vt_same(w):
    def f(M, a, b):
        if type(a) is float and type(b) is float:
            return int(X.bits_of_float(a, 64) == X.bits_of_float(b, 64) or (a != a and b != b))
        return simp(FPV(a, w) == FPV(b, w))
    return f


def vt_split(M, v):
    """One run per value."""
    return M.addr(v)


def vt_is_sym(M, v):
    return int(type(v) is not int)


def vt_assert_fail(M, msg, *a):
    raise Trap("assertion failed: " + M.cstr(msg))


EXT = {
    "_Znwm": _alloc, "_Znam": _alloc, "_ZnwmSt11align_val_t": _alloc, "malloc": _alloc, "_ZdlPv": _free, "_ZdlPvm": _free, "_ZdaPv": _free,
    "_ZnwmRKSt9nothrow_t": _alloc, "_ZdlPvmSt11align_val_t": _free, "_ZdlPvSt11align_val_t": _free, "_ZdaPvm": _free,
    "free": _free, "realloc": _realloc, "calloc": lambda M, a, b: (lambda p: (M.memset(p, 0, M.addr(a) * M.addr(b)), p)[1])(_alloc(M, M.addr(a) * M.addr(b))),
    "memcmp": _cmp, "bcmp": _cmp, "strlen": _strlen, "strcmp": _strcmp, "memchr": _memchr, "memcpy": _memcpy, "memmove": _memcpy, "memset": _memset,
    "abort": _fail("abort"), "__cxa_pure_virtual": _fail("pure virtual call"), "__cxa_atexit": lambda M, *a: 0,
    "__assert_fail": vt_assert_fail, "vt_assert_fail": vt_assert_fail,
    "vt_i64": vt_i64, "vt_bool": vt_bool, "vt_f64": vt_f64, "vt_f32": vt_f32, "vt_assume": vt_assume, "vt_prove": vt_prove, "vt_fail": vt_fail,
    "vt_skip": vt_skip, "vt_choice": vt_choice, "vt_same_f64": vt_same(64), "vt_split": vt_split, "vt_is_sym": vt_is_sym,
}
for _n in ("logic_error", "length_error", "out_of_range", "out_of_range_fmt", "bad_function_call", "bad_alloc", "bad_array_new_length",
           "bad_optional_access", "invalid_argument"):
    EXT["throw_" + _n] = _fail("throws " + _n)

MATH1 = {"floor": "floor", "ceil": "ceil", "trunc": "trunc", "rint": "rint", "nearbyint": "rint", "round": "round", "roundeven": "rint"}


def external(n):
    if n in EXT:
        return EXT[n]
    if n in MATH1:
        m = MATH1[n]
        return lambda M, a: X.round_int(a, 64, m)
    if n == "fabs":
        return lambda M, a: _fabs(M, [64], None, a)
    if n == "sqrt":
        return lambda M, a: _sqrt(M, [64], None, a)
    if n == "fmod":
        return lambda M, a, b: X.fbin("frem", a, b, 64)
    if n in ("pow", "exp", "log", "log2", "log10", "log1p", "expm1", "sin", "cos", "tan", "tanh", "atan", "atan2", "erf", "asin", "acos", "sinh", "cosh", "exp2"):
        f = _mathfn(n)
        return lambda M, *a: f(M, [64], None, *a)
    if "__throw_" in n:
        k = n.split("__throw_", 1)[1]
        return _fail("throws " + k.rstrip("PKcvz"))
    return None
