"""A symbolic executor for LLVM IR.

Integers are python ints (unsigned residues) or z3 bit-vectors, i1 is 0/1 or a z3
Bool, floating point is a python float or a z3 FP term.  Addresses are concrete:
object number << 32 plus offset; a symbolic address is split by the solver into its
possible values, and an access outside its object is a counterexample.  A symbolic
branch asks the solver which sides are feasible (vt.symex.Path)."""
import ctypes as C
import math
import struct

import z3

from ..decide import Unsupported
from ..symex import Counterexample, Inconclusive, PathAbort
from . import capi
from .capi import L, lib

RNE = z3.RNE()
SORTS = {}


def fsort(w):
    if w not in SORTS:
        SORTS[w] = {16: z3.FPSort(5, 11), 32: z3.FPSort(8, 24), 64: z3.FPSort(11, 53), 80: z3.FPSort(15, 64)}[w]
    return SORTS[w]


class Trap(Exception):
    pass


# ------------------------------------------------------------------ values


def bits_of_float(x, w):
    if w == 64:
        return struct.unpack("<Q", struct.pack("<d", x))[0]
    if w == 32:
        return struct.unpack("<I", struct.pack("<f", x))[0]
    if w == 16:
        return struct.unpack("<H", struct.pack("<e", x))[0]
    raise Unsupported(f"float{w}")


def float_of_bits(b, w):
    if w == 64:
        return struct.unpack("<d", struct.pack("<Q", b))[0]
    if w == 32:
        return struct.unpack("<f", struct.pack("<I", b))[0]
    if w == 16:
        return struct.unpack("<e", struct.pack("<H", b))[0]
    raise Unsupported(f"float{w}")


def rnd(x, w):
    """The nearest value of the w-bit format."""
    if w == 64 or x != x or math.isinf(x):
        return x
    try:
        return float_of_bits(bits_of_float(x, w), w)
    except OverflowError:
        return math.copysign(math.inf, x)


def B(v, w):
    """z3 bit-vector (Bool when w == 1) of a value."""
    if type(v) is int:
        return z3.BoolVal(bool(v)) if w == 1 else z3.BitVecVal(v, w)
    return v


def FPV(v, w):
    if type(v) is float:
        s = fsort(w)
        if v != v:
            return z3.fpNaN(s)
        return z3.FPVal(v, s) if not (v == 0 and math.copysign(1, v) < 0) else z3.fpMinusZero(s)
    return v


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def cval(e):
    """A python value when the term is a literal."""
    if z3.is_bv_value(e):
        return e.as_long()
    if z3.is_true(e):
        return 1
    if z3.is_false(e):
        return 0
    return e


def simp(e):
    return cval(z3.simplify(e))


def ibin(op, a, b, w, M):
    if type(a) is int and type(b) is int:
        m = (1 << w) - 1
        if op == "add":
            return (a + b) & m
        if op == "sub":
            return (a - b) & m
        if op == "mul":
            return (a * b) & m
        if op == "and":
            return a & b
        if op == "or":
            return a | b
        if op == "xor":
            return a ^ b
        if op == "shl":
            return (a << b) & m if b < w else 0
        if op == "lshr":
            return a >> b if b < w else 0
        if op == "ashr":
            return (sgn(a, w) >> min(b, w - 1)) & m
        if op in ("udiv", "urem"):
            if b == 0:
                raise Trap("division by zero")
            return a // b if op == "udiv" else a % b
        x, y = sgn(a, w), sgn(b, w)
        if y == 0:
            raise Trap("division by zero")
        if y == -1 and x == -(1 << (w - 1)):
            raise Trap("division overflow (INT_MIN / -1)")
        q = abs(x) // abs(y)
        if (x < 0) != (y < 0):
            q = -q
        return (q if op == "sdiv" else x - q * y) & m
    if w == 1:
        x, y = B(a, 1), B(b, 1)
        if op == "and":
            return simp(z3.And(x, y))
        if op == "or":
            return simp(z3.Or(x, y))
        if op in ("xor", "add", "sub"):
            return simp(z3.Xor(x, y))
        if op == "mul":
            return simp(z3.And(x, y))
        raise Unsupported("i1 " + op)
    x, y = B(a, w), B(b, w)
    if op in ("udiv", "urem", "sdiv", "srem"):
        if M.p.branch(y == 0):
            raise Trap("division by zero")
        if op in ("sdiv", "srem") and M.p.branch(z3.And(y == (1 << w) - 1, x == 1 << (w - 1))):
            raise Trap("division overflow (INT_MIN / -1)")
    e = {"add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x * y, "and": lambda: x & y, "or": lambda: x | y,
         "xor": lambda: x ^ y, "shl": lambda: x << y, "lshr": lambda: z3.LShR(x, y), "ashr": lambda: x >> y,
         "udiv": lambda: z3.UDiv(x, y), "urem": lambda: z3.URem(x, y), "sdiv": lambda: x / y, "srem": lambda: z3.SRem(x, y)}[op]()
    return simp(e)


def icmp(pred, a, b, w):
    if type(a) is int and type(b) is int:
        if pred[0] == "s":
            a, b = sgn(a, w), sgn(b, w)
        k = pred[-2:]
        return int({"eq": a == b, "ne": a != b, "gt": a > b, "ge": a >= b, "lt": a < b, "le": a <= b}[k])
    x, y = B(a, w), B(b, w)
    if w == 1:
        if pred in ("eq", "ne"):
            return simp(x == y if pred == "eq" else x != y)
        x, y = z3.If(x, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)), z3.If(y, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
    return simp({"eq": lambda: x == y, "ne": lambda: x != y, "ugt": lambda: z3.UGT(x, y), "uge": lambda: z3.UGE(x, y),
                 "ult": lambda: z3.ULT(x, y), "ule": lambda: z3.ULE(x, y), "sgt": lambda: x > y, "sge": lambda: x >= y,
                 "slt": lambda: x < y, "sle": lambda: x <= y}[pred]())


def fbin(op, a, b, w):
    if type(a) is float and type(b) is float:
        if op == "fadd":
            r = a + b
        elif op == "fsub":
            r = a - b
        elif op == "fmul":
            r = a * b
        elif op == "fdiv":
            if b == 0:
                r = math.nan if a == 0 or a != a else math.copysign(math.inf, a) * math.copysign(1, b)
            else:
                r = a / b
        else:
            r = math.nan if b == 0 or math.isinf(a) or a != a or b != b else math.fmod(a, b)
        return rnd(r, w)
    x, y = FPV(a, w), FPV(b, w)
    if op == "fadd":
        return z3.fpAdd(RNE, x, y)
    if op == "fsub":
        return z3.fpSub(RNE, x, y)
    if op == "fmul":
        return z3.fpMul(RNE, x, y)
    if op == "fdiv":
        return z3.fpDiv(RNE, x, y)
    return ufun("fmod", w, x, y)


_UF = {}


def ufun(name, w, *xs):
    """A mathematical function that is left uninterpreted."""
    k = (name, w, len(xs))
    if k not in _UF:
        _UF[k] = z3.Function(f"{name}{w}", *([fsort(w)] * (len(xs) + 1)))
    return _UF[k](*xs)


def fcmp(pred, a, b, w):
    if type(a) is float and type(b) is float:
        un = a != a or b != b
        if pred == "ord":
            return int(not un)
        if pred == "uno":
            return int(un)
        r = {"eq": a == b, "gt": a > b, "ge": a >= b, "lt": a < b, "le": a <= b, "ne": a != b and not un}[pred[1:]]
        return int(r or (un and pred[0] == "u"))
    x, y = FPV(a, w), FPV(b, w)
    un = z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y))
    if pred == "ord":
        return simp(z3.Not(un))
    if pred == "uno":
        return simp(un)
    r = {"eq": lambda: z3.fpEQ(x, y), "gt": lambda: z3.fpGT(x, y), "ge": lambda: z3.fpGEQ(x, y), "lt": lambda: z3.fpLT(x, y),
         "le": lambda: z3.fpLEQ(x, y), "ne": lambda: z3.And(z3.Not(z3.fpEQ(x, y)), z3.Not(un))}[pred[1:]]()
    return simp(z3.Or(r, un) if pred[0] == "u" else r)


def is_f(v):
    return type(v) is float or z3.is_fp(v)


def to_bits(v, w):
    """Integer of w bits with the representation of a stored value."""
    if type(v) is float:
        return bits_of_float(v, w)
    if z3.is_fp(v):
        return simp(z3.fpToIEEEBV(v))
    if z3.is_bool(v):
        return simp(z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w)))
    return v


def from_bits(v, w):
    if type(v) is int:
        return float_of_bits(v, w)
    d = v.decl()
    if d.kind() == z3.Z3_OP_FPA_TO_IEEE_BV and v.arg(0).sort() == fsort(w):
        return v.arg(0)
    return z3.fpBVToFP(v, fsort(w))


# ------------------------------------------------------------------ memory


class Obj:
    __slots__ = ("size", "cells", "name", "alive", "const")

    def __init__(self, size, name):
        self.size, self.name, self.cells, self.alive, self.const = size, name, {}, True, False


def base_ids(a):
    """Object numbers that occur as constants in an address."""
    out, todo = [], [a]
    while todo and len(out) < 4:
        e = todo.pop()
        if z3.is_bv_value(e):
            c = e.as_long() >> 32
            if c and e.size() == 64 and c not in out:
                out.append(c)
        elif e.num_args() and z3.is_bv(e):
            if e.decl().kind() in (z3.Z3_OP_BADD, z3.Z3_OP_BOR, z3.Z3_OP_CONCAT):
                if e.decl().kind() == z3.Z3_OP_CONCAT and z3.is_bv_value(e.arg(0)) and e.arg(0).size() >= 32:
                    out.append(e.arg(0).as_long() >> (e.arg(0).size() - 32))
                todo += list(e.children())
    return out


class Machine:
    """One run of one module along one path."""

    def __init__(self, mod, path):
        self.m, self.p = mod, path
        self.objs = [None]
        self.fns = {}
        self.steps = 0
        self.undefs = 0
        self.depth = 0
        self.globals = {}
        for n, g in mod.globals.items():
            self.globals[n] = self.new(g.size, n)
        for n, g in mod.globals.items():
            if g.init is not None:
                o = self.objs[self.globals[n] >> 32]
                for off, v, sz in g.init(self):
                    o.cells[off] = (v, sz)
        for f in mod.ctors:
            self.call(f, [])

    def new(self, size, name="heap"):
        self.objs.append(Obj(size, name))
        return (len(self.objs) - 1) << 32

    def addr(self, a):
        if type(a) is int:
            return a
        return self.p.concretize_bv(a)

    def obj(self, a, n, what):
        i = a >> 32
        if 0 < i < len(self.objs):
            o = self.objs[i]
            off = a & 0xFFFFFFFF
            if not o.alive:
                raise Trap(f"{what} after free ({o.name})")
            if off + n > o.size:
                raise Trap(f"{what} of {n} bytes at offset {off} of an object of {o.size} bytes ({o.name})")
            return o, off
        raise Trap(f"{what} through a null or invalid pointer {a:#x}")

    def split(self, o, off):
        """Turns the cell that covers byte `off` into byte cells."""
        for k in range(off, off - 16, -1):
            c = o.cells.get(k)
            if c is not None:
                v, n = c
                if k + n <= off:
                    return
                if n == 1:
                    return
                b = to_bits(v, 8 * n)
                del o.cells[k]
                for i in range(n):
                    o.cells[k + i] = ((b >> (8 * i)) & 255 if type(b) is int else simp(z3.Extract(8 * i + 7, 8 * i, b)), 1)
                return

    def clear(self, o, off, n):
        cs = o.cells
        for k in range(off - 15, off):
            c = cs.get(k)
            if c is not None and k + c[1] > off:
                self.split(o, k)
        c = cs.get(off + n - 1)
        if c is None or c[1] != 1:
            self.split_tail(o, off, n)
        if n <= 64:
            for k in range(off, off + n):
                cs.pop(k, None)
        else:
            for k in [k for k in cs if off <= k < off + n]:
                del cs[k]

    def split_tail(self, o, off, n):
        for k in range(max(off, off + n - 15), off + n):
            c = o.cells.get(k)
            if c is not None and k + c[1] > off + n:
                self.split(o, k)
                return

    def store(self, a, v, n):
        a = self.addr(a)
        o, off = self.obj(a, n, "store")
        c = o.cells.get(off)
        if c is None or c[1] != n:
            self.clear(o, off, n)
        if n == 1 and z3.is_bool(v):
            v = to_bits(v, 8)
        o.cells[off] = (v, n)

    def load(self, a, n, flt):
        """Integer (or float when flt) of n bytes."""
        if type(a) is not int and not flt:
            v = self.lookup(a, n)
            if v is not None:
                return v
        a = self.addr(a)
        o, off = self.obj(a, n, "load")
        c = o.cells.get(off)
        if c is not None and c[1] == n:
            v = c[0]
        else:
            for k in range(off - 15, off + n):
                d = o.cells.get(k)
                if d is not None and d[1] > 1 and k + d[1] > off:
                    self.split(o, k)
            bs = []
            missing = 0
            for k in range(off, off + n):
                d = o.cells.get(k)
                if d is None:
                    missing += 1
                    bs.append(None)
                else:
                    bs.append(d[0])
            if missing:
                self.undefs += 1
                bs = [z3.BitVec(f"undef{self.undefs}_{i}", 8) if b is None else b for i, b in enumerate(bs)]
            if all(type(b) is int for b in bs):
                v = sum(b << (8 * i) for i, b in enumerate(bs))
            else:
                v = simp(z3.Concat(*[B(b, 8) for b in reversed(bs)])) if n > 1 else bs[0]
        if flt:
            return v if is_f(v) else from_bits(v, 8 * n)
        return to_bits(v, 8 * n) if is_f(v) else v

    def lookup(self, a, n):
        """A load at a symbolic index of a constant table, without splitting."""
        h = simp(z3.Extract(63, 32, a))
        o = None
        if z3.is_bv_value(h):
            o = self.objs[h.as_long()] if h.as_long() < len(self.objs) else None
        else:
            for c in base_ids(a):
                if 0 < c < len(self.objs):
                    o = self.objs[c]
                    if self.p.must(z3.Extract(63, 32, a) == c):
                        break
                    o = None
        if o is None or not o.alive or o.size > 8192 or not o.cells:
            return None
        if any(type(v) is not int or m != n for v, m in o.cells.values()):
            return None
        off = z3.Extract(31, 0, a)
        offs = sorted(o.cells)
        if not self.p.must(z3.And(z3.ULE(off, offs[-1]), z3.UGE(off, offs[0]), z3.URem(off, z3.BitVecVal(n, 32)) == 0)):
            return None
        if any(k % n for k in offs) or len(offs) != (offs[-1] - offs[0]) // n + 1:
            return None
        by = {}
        for k in offs:
            by.setdefault(o.cells[k][0], []).append(k)
        vals = sorted(by, key=lambda v: -len(by[v]))
        r = z3.BitVecVal(vals[0], 8 * n)
        for v in vals[1:]:
            r = z3.If(z3.Or([off == k for k in by[v]]), z3.BitVecVal(v, 8 * n), r)
        return simp(r)

    def loadt(self, a, t):
        k = t[0]
        if k == "i":
            n = (t[1] + 7) // 8
            v = self.load(a, n, False)
            return trunc(v, 8 * n, t[1]) if t[1] % 8 else v
        if k == "p":
            return self.load(a, 8, False)
        if k == "f":
            return self.load(a, t[1] // 8, True)
        a = self.addr(a)
        return tuple(self.loadt(a + off, e) for off, e in t[1])

    def storet(self, a, v, t):
        k = t[0]
        if k == "i":
            n = (t[1] + 7) // 8
            self.store(a, zext(v, t[1], 8 * n) if t[1] % 8 else v, n)
        elif k == "p":
            self.store(a, v, 8)
        elif k == "f":
            self.store(a, v, t[1] // 8)
        else:
            a = self.addr(a)
            for (off, e), x in zip(t[1], v):
                self.storet(a + off, x, e)

    def memcpy(self, d, s, n):
        d, s, n = self.addr(d), self.addr(s), self.addr(n)
        if n == 0:
            return
        so, soff = self.obj(s, n, "memcpy from")
        do, doff = self.obj(d, n, "memcpy to")
        for k in range(soff - 15, soff):
            c = so.cells.get(k)
            if c is not None and k + c[1] > soff:
                self.split(so, k)
        self.split_tail(so, soff, n)
        if n <= 256:
            got = [(k, so.cells[k]) for k in range(soff, soff + n) if k in so.cells]
        else:
            got = [(k, c) for k, c in so.cells.items() if soff <= k < soff + n]
        self.clear(do, doff, n)
        for k, c in got:
            do.cells[k - soff + doff] = c

    def memset(self, d, b, n):
        d, n = self.addr(d), self.addr(n)
        if n == 0:
            return
        o, off = self.obj(d, n, "memset")
        self.clear(o, off, n)
        k = off
        while k < off + n:
            w = 8 if k % 8 == 0 and k + 8 <= off + n else 1
            if type(b) is int:
                v = int.from_bytes(bytes([b]) * w, "little")
            else:
                v = z3.Concat(*[b] * w) if w > 1 else b
            o.cells[k] = (v, w)
            k += w

    def cstr(self, a):
        a = self.addr(a)
        r = bytearray()
        while True:
            c = self.load(a, 1, False)
            if type(c) is not int:
                c = self.p.concretize_bv(c)
            if c == 0:
                return r.decode(errors="replace")
            r.append(c)
            a += 1

    def bytes_at(self, a, n):
        return [self.load(a + i, 1, False) for i in range(n)]

    # -- control
    def br(self, c):
        if type(c) is int:
            return c
        return 1 if self.p.branch(c) else 0

    def pick(self, c, a, b):
        """select"""
        if type(c) is int:
            return a if c else b
        if type(a) is tuple or (type(a) is int and type(b) is int and (a >> 32 or b >> 32) and max(a, b) < 1 << 62 and
                                (a >> 32) < len(self.objs) and (b >> 32) < len(self.objs)):
            return a if self.p.branch(c) else b
        return None

    def call(self, fn, args):
        self.depth += 1
        if self.depth > 200:
            raise Trap("call depth above 200 (endless recursion?)")
        n = len(self.objs)
        r = self.m.compiled(fn)(self, *args)
        self.depth -= 1
        return r

    def icall(self, a, args):
        a = self.addr(a)
        fn = self.m.fn_at.get(a)
        if fn is None:
            raise Trap(f"call through an invalid pointer {a:#x}")
        return self.call(fn, args)

    def tick(self):
        self.steps += 1
        if self.steps > self.m.max_blocks:
            raise Trap(f"no end after {self.m.max_blocks} basic blocks (endless loop?)")


def select(M, c, a, b, t):
    if type(c) is int:
        return a if c else b
    if a is b:
        return a
    if t[0] in "ps":
        return a if M.p.branch(c) else b
    if t[0] == "f":
        return z3.If(c, FPV(a, t[1]), FPV(b, t[1]))
    return simp(z3.If(c, B(a, t[1]), B(b, t[1])))


def trunc(v, a, b):
    if type(v) is int:
        return v & ((1 << b) - 1)
    if b == 1:
        return simp(z3.Extract(0, 0, v) == 1)
    return simp(z3.Extract(b - 1, 0, v))


def zext(v, a, b):
    if type(v) is int:
        return v
    if a == 1:
        return simp(z3.If(v, z3.BitVecVal(1, b), z3.BitVecVal(0, b)))
    return simp(z3.ZeroExt(b - a, v))


def sext(v, a, b):
    if type(v) is int:
        return sgn(v, a) & ((1 << b) - 1)
    if a == 1:
        return simp(z3.If(v, z3.BitVecVal((1 << b) - 1, b), z3.BitVecVal(0, b)))
    return simp(z3.SignExt(b - a, v))


def fptoi(M, v, fw, w, signed):
    lo, hi = (-(1 << (w - 1)), 1 << (w - 1)) if signed else (0, 1 << w)
    if type(v) is float:
        if v != v or not (lo - 1 < v < hi) or math.isinf(v):
            return M.fresh(w)
        return int(v) & ((1 << w) - 1)
    s = fsort(fw)
    # the largest value below hi / smallest above lo-1 that convert without overflow
    ok = z3.And(z3.Not(z3.fpIsNaN(v)), z3.fpLT(v, z3.fpToFP(RNE, z3.RealVal(hi), s)),
                z3.fpGEQ(v, z3.fpToFP(RNE, z3.RealVal(lo), s)) if w >= 53 else z3.fpGT(v, z3.fpToFP(RNE, z3.RealVal(lo - 1), s)))
    if not M.p.branch(ok):
        return M.fresh(w)
    return (z3.fpToSBV if signed else z3.fpToUBV)(z3.RTZ(), v, z3.BitVecSort(w))


def itofp(v, w, fw, signed):
    if type(v) is int:
        x = sgn(v, w) if signed else v
        if fw == 64:
            return float(x)
        # direct rounding to the narrow format
        e = z3.simplify((z3.fpSignedToFP if signed else z3.fpUnsignedToFP)(RNE, z3.BitVecVal(v, w), fsort(fw)))
        return fpy(e, fw)
    if w == 1:
        v, w, signed = z3.If(v, z3.BitVecVal(1, 2), z3.BitVecVal(0, 2)) if not signed else z3.If(v, z3.BitVecVal(3, 2), z3.BitVecVal(0, 2)), 2, signed
    return (z3.fpSignedToFP if signed else z3.fpUnsignedToFP)(RNE, v, fsort(fw))


def fpy(e, w):
    b = z3.simplify(z3.fpToIEEEBV(e))
    return float_of_bits(b.as_long(), w)


def fpconv(v, a, b):
    if type(v) is float:
        return rnd(v, b)
    return z3.fpToFP(RNE, v, fsort(b))


def round_int(v, w, mode):
    """floor ceil trunc rint round"""
    if type(v) is float:
        if v != v or math.isinf(v) or v == 0:
            return v
        if mode == "round":
            r = math.floor(abs(v))
            r = r + 1 if abs(v) - r >= 0.5 else r
            return math.copysign(float(r), v)
        r = {"floor": math.floor, "ceil": math.ceil, "trunc": math.trunc, "rint": round}[mode](v)
        return math.copysign(float(r), v)
    rm = {"floor": z3.RTN(), "ceil": z3.RTP(), "trunc": z3.RTZ(), "rint": RNE, "round": z3.RNA()}[mode]
    return z3.fpRoundToIntegral(rm, v)


def _fresh(M, w):
    M.undefs += 1
    return z3.Bool(f"undef{M.undefs}") if w == 1 else z3.BitVec(f"undef{M.undefs}", w)


Machine.fresh = _fresh
