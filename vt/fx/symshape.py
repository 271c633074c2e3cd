"""F01/F02: symbolic sizes and their ranges.

A graph with one placeholder is imported; the sizes of its value are sympy
expressions (real sympy objects), and the emitted affine map, applied to the
operands it is given, must equal the sizes for every value of the symbols.
"""
import itertools
import types

import sympy
import torch
import torch.fx as tfx
import z3
from torch._subclasses.fake_tensor import FakeTensor

from .. import mlirpy
from ..symex import SymInt, _fdiv, ex, mkbool
from . import core


class Duck(FakeTensor):
    """A FakeTensor whose metadata is given by the check."""

    @staticmethod
    def __new__(cls, shape, dtype=torch.float32, **kw):
        t = torch.Tensor._make_subclass(cls, torch.empty(0))
        t.__dict__["_vt"] = dict(shape=tuple(shape), dtype=dtype, layout=torch.strided, **kw)
        return t

    def __init__(self, *a, **k):
        pass

    shape = property(lambda s: s._vt["shape"])
    dtype = property(lambda s: s._vt["dtype"])
    layout = property(lambda s: s._vt["layout"])
    ndim = property(lambda s: len(s._vt["shape"]))
    device = property(lambda s: torch.device("cpu"))
    is_sparse = property(lambda s: s._vt["layout"] is torch.sparse_coo)

    def size(self, d=None):
        s = self._vt["shape"]
        return s if d is None else s[d]

    def dim(self):
        return len(self._vt["shape"])

    def stride(self, d=None):
        s = self._vt["stride"]
        return s if d is None else s[d]

    def storage_offset(self):
        return self._vt["offset"]

    def untyped_storage(self):
        return self._vt["storage"]

    @property
    def _has_symbolic_sizes_strides(self):
        return any(isinstance(d, torch.SymInt) for d in self._vt["shape"])

    def __hash__(self):
        return id(self)

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return f"Duck{self._vt}"


def symint(expr):
    """A torch.SymInt carrying an arbitrary sympy expression."""
    n = types.SimpleNamespace(expr=expr, pytype=int)
    return torch.SymInt(n)


# ------------------------------------------------- reference sympy meaning


def sval(e, env):
    """z3 value of a sympy expression (python / sympy semantics)."""
    if isinstance(e, int):
        return z3.IntVal(e)
    if isinstance(e, PInteger):
        return ex(e.v)
    if isinstance(e, sympy.Integer):
        return z3.IntVal(int(e))
    if isinstance(e, sympy.Symbol):
        return env[str(e)]
    if isinstance(e, sympy.Add):
        return z3.Sum([sval(a, env) for a in e.args])
    if isinstance(e, sympy.Mul):
        r = z3.IntVal(1)
        for a in e.args:
            r = r * sval(a, env)
        return r
    if isinstance(e, sympy.Pow):
        b, k = e.args
        r = z3.IntVal(1)
        for _ in range(int(k)):
            r = r * sval(b, env)
        return r
    if isinstance(e, sympy.Mod):
        a, b = (sval(x, env) for x in e.args)
        return a - b * _fdiv(a, b)
    raise core.Unsupported(str(type(e)))


def divisors(e, env):
    if not isinstance(e, sympy.Basic):
        return
    if isinstance(e, sympy.Mod):
        yield sval(e.args[1], env)
    for a in e.args:
        yield from divisors(a, env)


def aval(e, syms):
    """Value of a recorded affine expression (MLIR semantics, positive divisors)."""
    if e.op == "const":
        return ex(e.args[0])
    if e.op == "sym":
        return syms[e.args[0]]
    if e.op == "dim":
        raise Bad("the map uses a dimension; it has none")
    a, b = (aval(x, syms) for x in e.args)
    if e.op == "add":
        return a + b
    if e.op == "mul":
        return a * b
    q = _fdiv(a, b)
    if e.op == "mod":
        return a - b * q
    if e.op == "floordiv":
        return q
    if e.op == "ceildiv":
        return -_fdiv(-a, b)
    raise core.Unsupported(e.op)


class Bad(Exception):
    pass


def import_values(shapes, guards, how):
    """shapes: list of dims lists (ints or sympy expressions): one placeholder
    each, and the last is the result of an operator."""
    fx = core.fx()
    g = tfx.Graph()
    nodes = []
    for i, sh in enumerate(shapes):
        v = Duck([symint(d) if isinstance(d, sympy.Basic) else d for d in sh])
        if i == len(shapes) - 1 and i:
            n = g.call_function(torch.ops.aten.relu.default, (nodes[0],))
        else:
            n = g.placeholder(f"x{i}")
        n.meta["val"] = v
        nodes.append(n)
    g.output(tuple(nodes))
    imp = fx.FxImporter(context=mlirpy.Context())
    run_import(imp, g, [n for n in nodes if n.op == "placeholder"], nodes, guards, how)
    return imp.module


def run_import(imp, g, ins, outs, guards, how):
    """Imports graph `g` as an exported program with the given range constraints."""
    prog = types.SimpleNamespace(graph=g, range_constraints=guards, state_dict={}, constants={})
    if how == "frozen":
        prog.graph_signature = types.SimpleNamespace(
            inputs_to_lifted_tensor_constants={}, inputs_to_buffers={}, inputs_to_parameters={})
        return imp.import_frozen_program(prog, func_name="main", import_symbolic_shape_expressions=True)
    from torch.export.graph_signature import (ExportGraphSignature, InputKind, InputSpec, OutputKind, OutputSpec,
                                              TensorArgument)

    prog.graph_signature = ExportGraphSignature(
        [InputSpec(InputKind.USER_INPUT, TensorArgument(n.name), None) for n in ins],
        [OutputSpec(OutputKind.USER_OUTPUT, TensorArgument(n.name), None) for n in outs])
    if g.owning_module is None:
        gm = torch.fx.GraphModule(torch.nn.Module(), tfx.Graph())
        g.owning_module = gm
    return imp.import_program(prog, func_name="main", import_symbolic_shape_expressions=True)


def vr(lo, hi):
    from torch.utils._sympy.value_ranges import ValueRanges

    return ValueRanges(sympy.Integer(lo), sympy.Integer(hi))


def main_block(module):
    f = [o for o in module.body.operations if o.name == "func.func"][0]
    return f.entry_block


def check_bind(p, shapes):
    """All proofs for one program: lists of sizes, or the name of a function of symbolic constants."""
    label = str(shapes)
    if isinstance(shapes, str):
        shapes = CONSTANTS[shapes](lambda i: PInteger(p.int(f"c{i}", -2**40, 2**40)), SYM)
    names = sorted({str(s) for sh in shapes for d in sh if isinstance(d, sympy.Basic) for s in d.free_symbols})
    # declare an extra symbol, so that operand order cannot match by accident
    how = ("frozen", "program")[p.choice(2)]
    m = import_values(shapes, {sympy.Symbol(n, integer=True): vr(2, 1000) for n in list(reversed(names)) + ["s99"]}, how)
    env = {n: ex(p.int(n, 0, 2**20)) for n in names}
    for sh in shapes:
        for d in sh:
            for dv in divisors(d, env):
                p.assume(mkbool(dv > 0))
    b = main_block(m)
    value = {}
    for o in b.operations:
        if o.name == "torch.symbolic_int":
            value[id(o.results[0])] = o.attributes["symbol_name"].value
    ret = b.operations[-1]
    assert ret.name == "func.return"
    binds = {}
    for o in b.operations:
        if o.name == "torch.bind_symbolic_shape":
            if id(o.operands[0]) in binds:
                raise Bad("two shape bindings of one value")
            binds[id(o.operands[0])] = o
    for v, sh in zip(ret.operands, shapes):
        symbolic = any(isinstance(d, sympy.Basic) for d in sh)
        o = binds.pop(id(v), None)
        if not symbolic:
            if o is None:
                continue
        elif o is None:
            raise Bad(f"no shape binding for a value ({label})")
        mp = o.attributes["shape_expressions"].value
        if mp.n_dims != 0 or mp.n_symbols != len(o.operands) - 1:
            raise Bad(f"map of {mp.n_dims} dims and {mp.n_symbols} symbols applied to {len(o.operands) - 1} symbols")
        if len(mp.results) != len(sh):
            raise Bad(f"{len(mp.results)} sizes bound for rank {len(sh)}")
        syms = []
        for x in o.operands[1:]:
            if id(x) not in value:
                raise Bad("a bound symbol is not a torch.symbolic_int")
            syms.append(env.get(value[id(x)], z3.IntVal(-7)))
        for i, (e, d) in enumerate(zip(mp.results, sh)):
            p.prove(mkbool(aval(e, syms) == sval(d, env)), f"size {i} of a value of {label}")
    if binds:
        raise Bad("shape binding of an unknown value")


# --------------------------------------------------------- expression space

def _add(*a):
    return sympy.Add._from_args(a, is_commutative=True)


def _mul(*a):
    return sympy.Mul._from_args(a, is_commutative=True)


def _mod(*a):
    return sympy.Basic.__new__(sympy.Mod, *a)


def _pow(b, k):
    o = sympy.Basic.__new__(sympy.Pow, b, sympy.Integer(k))
    o.is_commutative = True
    return o


# sizes whose integer constants are symbolic
CONSTANTS = {
    "s + c": lambda c, s: [[_add(s[0], c(0))]],
    "c * s": lambda c, s: [[_mul(c(0), s[0]), 3, s[1]]],
    "c * s + c": lambda c, s: [[_add(_mul(c(0), s[0]), c(1))]],
    "c * (s + c)": lambda c, s: [[s[1], _mul(c(0), _add(s[0], c(1)))]],
    "c + s + t": lambda c, s: [[_add(c(0), s[0], s[1])], [_add(s[1], c(1))]],
    "c * s + c * t + c": lambda c, s: [[_add(_mul(c(0), s[0]), _mul(c(1), s[1]), c(2))]],
    "(s + c) * (t + c)": lambda c, s: [[_mul(_add(s[0], c(0)), _add(s[1], c(1)))]],
    "c * s * t": lambda c, s: [[_mul(c(0), s[0], s[1]), s[2]]],
    "s mod c": lambda c, s: [[_mod(s[0], c(0))]],
    "(s + c) mod c": lambda c, s: [[_mod(_add(s[0], c(0)), c(1)), s[0]]],
    "c": lambda c, s: [[s[0], c(0)]],
    "(s + c) ** 2": lambda c, s: [[_pow(_add(s[0], c(0)), 2)]],
    "c * s ** 3 + c": lambda c, s: [[_add(_mul(c(0), _pow(s[0], 3)), c(1))]],
}
SYM = [sympy.Symbol(n, integer=True, positive=True) for n in ("s0", "s1", "s10", "u0")]



def exprs(tier):
    s0, s1, s2, u0 = [sympy.Symbol(n, integer=True, positive=True) for n in ("s0", "s1", "s10", "u0")]
    at = [s0, s1, s2, u0]
    one = []
    for a in at[:2]:
        for k in (-3, 0, 1, 2, 7):
            one.append(sympy.Add(a, sympy.Integer(k), evaluate=False))
            one.append(sympy.Mul(sympy.Integer(k), a, evaluate=False))
        for k in (1, 2, 3, 4, 5, 8) if tier == "quick" else range(1, 13):
            one.append(sympy.Pow(a, sympy.Integer(k), evaluate=False))
        for k in (1, 2, 5):
            one.append(sympy.Mod(a, sympy.Integer(k), evaluate=False))
            one.append(sympy.Mod(a + k, sympy.Integer(4), evaluate=False))
    for a, b in itertools.permutations(at, 2):
        one += [a + b, a - b, sympy.Mul(a, b, evaluate=False), sympy.Mod(a, b, evaluate=False), 2 * a + 3 * b - 1]
    one += [sympy.Add(s0, s1, s2, evaluate=False), s0 * s1 * s2, (s0 + 1) * (s1 - 2), sympy.expand((s0 + 1) * (s1 - 2)),
            (s0 + s1) ** 2, (s0 - 1) ** 3, s0 * (s1 + u0) + 4, sympy.Mod(s0 * s1, sympy.Integer(8), evaluate=False),
            sympy.Mod(s0 * 3 + 1, s1 + 2, evaluate=False), s0**2 + s1**2, -s0, -s0 - s1 + 9, 4 * s0 * s0 - s1]
    if tier != "quick":
        base = [s0, s1, s0 + 2, 3 * s1, s0 * s1, sympy.Mod(s0, sympy.Integer(3), evaluate=False), s0**2]
        for a, b in itertools.product(base, base):
            one += [sympy.Add(a, b, evaluate=False), sympy.Mul(a, b, evaluate=False), sympy.Mod(a, b, evaluate=False)]
            for c in base[:4]:
                one += [sympy.Add(sympy.Mul(a, b, evaluate=False), c, evaluate=False),
                        sympy.Mul(sympy.Add(a, c, evaluate=False), b, evaluate=False),
                        sympy.Mod(sympy.Add(a, c, evaluate=False), b, evaluate=False)]
    return one


def programs(tier):
    E = exprs(tier)
    s = [sympy.Symbol(n, integer=True, positive=True) for n in ("s0", "s1", "s10", "u0", "s2")]
    out = list(CONSTANTS)
    for i in range(0, len(E), 3):
        out.append([E[i:i + 3]])
    # static and symbolic sizes mixed, several values, shared symbols, no symbol
    out += [[[4, s[0], 5]], [[s[1], 3, s[0]]], [[s[2], s[0]], [s[0], s[2], 2]], [[3, 4]], [[], [s[0]]],
            [[s[4], s[2], s[0]], [s[0] + s[4]], [s[2] * s[4], 7]], [[s[0]], [s[1]], [s[0] + s[1]]],
            [[s[3], s[3]], [2, 2]], [[s[2], s[1], s[0], s[4]], [s[4], s[0] * s[1], s[2]]],
            [[sympy.Integer(6), s[0]]]]
    return out


# --------------------------------------------------------------------- F02


class PInteger(sympy.Integer):
    """A sympy Integer whose value is a solver variable."""

    def __new__(cls, v):
        o = object.__new__(cls)
        o._assumptions = cls.default_assumptions
        o._mhash = None
        o._args = ()
        o.p = v
        o.q = 1
        o.v = v
        return o

    def __vt_proxy__(self):
        return self.v

    def __hash__(self):
        return id(self)

    def _o(self, o):
        if isinstance(o, PInteger):
            return o.v
        if isinstance(o, sympy.Integer):
            return int(o)
        return o if isinstance(o, (int, SymInt)) else None

    def __eq__(self, o):
        k = self._o(o)
        return False if k is None else self.v == k

    def __ne__(self, o):
        k = self._o(o)
        return True if k is None else self.v != k

    def _c(name):
        def f(self, o):
            k = self._o(o)
            if k is None:
                import sympy as sp
                from torch.utils._sympy.numbers import int_oo
                if o in (sp.oo, int_oo):
                    return name in ("__lt__", "__le__")
                if o in (-sp.oo, -int_oo):
                    return name in ("__gt__", "__ge__")
                return NotImplemented
            return getattr(self.v, name)(k)
        return f

    __lt__, __le__, __gt__, __ge__ = _c("__lt__"), _c("__le__"), _c("__gt__"), _c("__ge__")


class PRational(sympy.Rational):
    """A sympy fraction n/q, not an integer, whose numerator is a solver variable."""

    def __new__(cls, n, q):
        o = object.__new__(cls)
        o._assumptions = cls.default_assumptions
        o._mhash = None
        o._args = ()
        o.p, o.q, o.v = n, q, n
        return o

    def __hash__(self):
        return id(self)

    def __eq__(self, o):
        if isinstance(o, PRational):
            return self.p * o.q == o.p * self.q
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return not r

    def __floor__(self):
        return self.p // self.q

    def __ceil__(self):
        return -((-self.p) // self.q)

    def floor(self):
        return self.__floor__()

    def ceiling(self):
        return self.__ceil__()

    def __int__(self):
        raise core.Unsupported("conversion of a fraction to int")

    __trunc__ = __round__ = __int__


def pint(v):
    return sympy.Integer(v) if isinstance(v, int) else PInteger(v)


INF, NINF, FIN, FRAC = "oo", "-oo", "int", "fraction"
I64MAX, I64MIN = 2**63 - 1, -2**63


def end(p, n, kind, q, oo, extreme, up):
    """An end of a range, and the least (up) or greatest integer it admits."""
    if kind not in (FIN, FRAC):
        return oo, extreme
    v = p.int(n, -2**62, 2**62)
    if kind == FIN:
        return pint(v), v
    p.assume(v % q != 0)
    return PRational(v, q), -((-v) // q) if up else v // q


def check_guards(p, ends):
    """ends: per symbol (lower kind, upper kind, kind of its infinities)."""
    from torch.utils._sympy.numbers import int_oo

    oo = {"sympy": sympy.oo, "int": int_oo}
    fx = core.fx()
    cons, want = {}, {}
    for i, (lo, hi, which) in enumerate(ends):
        n = f"s{i}"
        a, la = end(p, n + "lo", lo, 2 + i % 2, -oo[which], I64MIN, 1)
        b, ub = end(p, n + "hi", hi, 2 + (i + 1) % 2, oo[which], I64MAX, 0)
        p.assume(la <= ub)
        r = types.SimpleNamespace(
            lower=a, upper=b,
            is_bool=False, is_int=True, is_float=False)
        cons[sympy.Symbol(n, integer=True)] = r
        want[n] = (la, ub)
    g = tfx.Graph()
    x = g.placeholder("x")
    x.meta["val"] = Duck([2, 3])
    g.output((x,))
    imp = fx.FxImporter(context=mlirpy.Context())
    run_import(imp, g, [x], [x], cons, ("frozen", "program")[p.choice(2)])
    got = {}
    for o in main_block(imp.module).operations:
        if o.name == "torch.symbolic_int":
            n = o.attributes["symbol_name"].value
            if n in got:
                raise Bad(f"{n} is declared twice")
            if str(o.results[0].type) != "!torch.int":
                raise Bad("type of a symbol")
            got[n] = (o.attributes["min_val"].value, o.attributes["max_val"].value)
    if set(got) != set(want):
        raise Bad(f"symbols {sorted(got)} declared, {sorted(want)} constrained")
    for n in want:
        for k, what in enumerate(("lower", "upper")):
            p.prove(got[n][k] == want[n][k], f"{what} bound of {n}: emitted {got[n][k]}, the program's is {want[n][k]}")


def guard_programs(tier):
    kinds = [(FIN, FIN, "int"), (FIN, INF, "int"), (NINF, FIN, "int"), (NINF, INF, "int")]
    out = [[k] for k in kinds] + [[a, b] for a in kinds for b in kinds]
    # fractional ends, beside a symbol with integer ones
    frac = [(FRAC, FRAC, "int"), (FIN, FRAC, "int"), (FRAC, FIN, "int"), (FRAC, INF, "int")]
    out += [[a, kinds[0]] for a in frac] + [[kinds[0], a] for a in frac]
    if tier != "quick":
        out += [[a, b, c] for a in kinds for b in kinds for c in kinds]
    return out
