"""Loading of the FX importer on the recording bindings, and an evaluator of
the recorded Torch IR.

Values of the evaluation:
  scalars   python values or the executor's proxies
  tensors   terms ("in", name) | ("lit", dtype, shape, bytes) | ("op", name, k, args)
            over uninterpreted operators: equality of terms means equality for
            every interpretation of the operators and every input tensor
  lists     python lists
"""
import operator

import torch
import z3

from .. import instr, load, mlirpy
from ..symex import SymBool, SymInt, SymReal, and_, mkbool, ctx

_fx = None


def fx():
    global _fx
    if _fx is None:
        mlirpy.install()
        p = "torch_mlir.extras"
        import importlib
        importlib.import_module(p)
        instr.load_module(p + ".fx_as_strided", "python/torch_mlir/extras/fx_as_strided.py")
        _fx = instr.load_module(p + ".fx_importer", "python/torch_mlir/extras/fx_importer.py")
        _fx.torch = TorchShim()
    return _fx


class TorchShim:
    """`torch`, whose torch.tensor(x) gives a symbolic scalar x its dtype."""

    def __getattr__(self, k):
        return getattr(torch, k)

    def tensor(self, x, *a, **k):
        if isinstance(x, SymBool):
            return torch.tensor(False, *a, **k)
        if isinstance(x, SymInt):
            return torch.tensor(0, *a, **k)
        if isinstance(x, SymReal):
            return torch.tensor(0.0, *a, **k)
        return torch.tensor(x, *a, **k)


from ..decide import Unsupported  # noqa: E402  (no verdict)


# ------------------------------------------------------------------ terms


def is_term(x):
    return isinstance(x, tuple) and x and x[0] in ("in", "lit", "op")


def equal(a, b):
    """Condition (python bool or SymBool) that two values are equal; terms are
    equal when the same operator is applied to equal operands."""
    memo = {}

    def eq(a, b):
        if a is b:
            return True
        k = (id(a), id(b))
        if k in memo:
            return memo[k]
        memo[k] = r = _eq(a, b)
        return r

    def conj(rs):
        out = True
        for r in rs:
            if r is False:
                return False
            if r is not True:
                out = r if out is True else and_(out, r)
        return out

    def _eq(a, b):
        if is_term(a) or is_term(b):
            if not (is_term(a) and is_term(b)) or a[0] != b[0]:
                return False
            if a[0] == "op":
                if a[1:3] != b[1:3] or len(a[3]) != len(b[3]):
                    return False
                return conj(eq(x, y) for x, y in zip(a[3], b[3]))
            return a == b
        if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
            if not isinstance(a, (list, tuple)) or not isinstance(b, (list, tuple)) or len(a) != len(b):
                return False
            return conj(eq(x, y) for x, y in zip(a, b))
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            return type(a) is type(b) and a == b
        if isinstance(a, (float, SymReal)) != isinstance(b, (float, SymReal)):
            return False  # kinds differ
        if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
            return True
        return a == b

    return eq(a, b)


# ---- the same equality as a formula over uninterpreted functions

_V = None


def encode(x, memo):
    """z3 term (sort V) of a value; operators are uninterpreted functions."""
    global _V
    if _V is None:
        _V = z3.DeclareSort("V")
    k = id(x)
    if k in memo:
        return memo[k][0]

    def app(name, args):
        if not args:
            return z3.Const(name, _V)
        f = z3.Function(name + f"/{len(args)}", *[a.sort() for a in args], _V)
        return f(*args)

    if is_term(x):
        if x[0] == "op":
            r = app(f"op:{x[1]}#{x[2]}", [encode(a, memo) for a in x[3]])
        else:
            r = z3.Const(repr(x), _V)
    elif isinstance(x, (list, tuple)):
        r = app("list", [encode(a, memo) for a in x])
    elif isinstance(x, (bool, SymBool)):
        r = app("int", [z3.If(x.e, z3.IntVal(1), z3.IntVal(0)) if isinstance(x, SymBool) else z3.IntVal(int(x))])
    elif isinstance(x, (int, SymInt)):
        r = app("int", [x.e if isinstance(x, SymInt) else z3.IntVal(x)])
    elif isinstance(x, SymReal):
        r = app("real", [x.e])
    elif isinstance(x, float) and x == x and abs(x) != float("inf"):
        n, d = x.as_integer_ratio()
        r = app("real", [z3.RealVal(n) / z3.RealVal(d)])
    else:
        r = z3.Const(f"{type(x).__name__}:{x!r}", _V)
    memo[k] = (r, x)
    return r


def prove_equal(p, got, want, what):
    """Obligation: equal under every interpretation of the operators."""
    if getattr(p, "concrete", False):
        return p.prove(equal(got, want), what)
    p.stats.reached += 1
    memo = {}
    return p.prove_raw(encode(got, memo) == encode(want, memo), what)


# -------------------------------------------------- scalar operator semantics
# PyTorch's (TorchScript's) meaning of the scalar operators the importer emits.


def _real(x):
    if isinstance(x, (SymInt, SymBool)):
        return SymReal(z3.ToReal(x.e if isinstance(x, SymInt) else z3.If(x.e, z3.IntVal(1), z3.IntVal(0))))
    if isinstance(x, (int, bool)):
        return float(x)
    return x


def _trunc_mod(a, b):
    q = a / b
    return a - b * (q.__trunc__() if isinstance(q, SymReal) else int(q))


def _pymod(a, b):
    if isinstance(a, (SymReal, float)) or isinstance(b, (SymReal, float)):
        a, b = _real(a), _real(b)
        q = a / b
        return a - b * (q.__floor__() if isinstance(q, SymReal) else __import__("math").floor(q))
    return a % b


def _floordiv(a, b):
    return a // b


SCALAR = {}


def _def(names, kinds, f):
    for n in names.split():
        for k in kinds.split():
            SCALAR[f"torch.aten.{n}.{k}"] = (k, f)


_K = "int float float_int int_float"
_def("add", _K, lambda a, b: a + b)
_def("sub", _K, lambda a, b: a - b)
_def("mul", _K, lambda a, b: a * b)
_def("div", _K, lambda a, b: _real(a) / _real(b))
_def("lt", _K, lambda a, b: a < b)
_def("le", _K, lambda a, b: a <= b)
_def("gt", _K, lambda a, b: a > b)
_def("ge", _K, lambda a, b: a >= b)
_def("eq", _K, lambda a, b: a == b)
_def("ne", _K, lambda a, b: a != b)
_def("fmod", _K, lambda a, b: _trunc_mod(_real(a), _real(b)))
_def("remainder", _K, _pymod)
_def("floordiv", _K, _floordiv)
_def("neg", "int float", lambda a: -a)


def _isfloat(x):
    return isinstance(x, (float, SymReal))


def scalar_op(name, args):
    kind, f = SCALAR[name]
    want = {"int": [False] * len(args), "float": [True] * len(args),
            "float_int": [True, False], "int_float": [False, True]}[kind]
    for x, w in zip(args, want):
        if is_term(x) or isinstance(x, (list, str)) or x is None:
            raise TypeError(f"{name}: operand {x!r} is not a scalar")
        if _isfloat(x) != w:
            raise TypeError(f"{name}: operand kind does not match the overload")
    return f(*args)


UNARY = {
    "torch.aten.Int.bool": lambda a: 1 * a if not isinstance(a, bool) else int(a),
    "torch.aten.Float.bool": lambda a: _real(a),
    "torch.aten.Float.Scalar": lambda a: _real(a),
    "torch.aten.Int.Scalar": lambda a: a.__trunc__() if _isfloat(a) else a,
    "torch.aten.Int.int": lambda a: a,
}


NOTSCALAR = object()


def scalar_value(n, args):
    """Value of a scalar operator on scalar operands, or NOTSCALAR."""
    if any(is_term(a) for a in args):
        return NOTSCALAR
    if n in SCALAR:
        return scalar_op(n, args)
    if n in UNARY:
        return UNARY[n](args[0])
    return NOTSCALAR


# ------------------------------------------------------------- evaluator


class Cell:
    """A mutable !torch.tensor argument."""

    def __init__(self, v):
        self.value = v
        self.writes = 0


def attr_value(a):
    k = a.kind
    if k in ("int", "float", "str", "symbol"):
        return a.value
    raise Unsupported(f"attribute {k}")


def literal_term(op):
    t = str(op.results[0].type)
    a = op.attributes["value"]
    if a.kind == "dense":
        arr = a.array
        return ("lit", t, tuple(arr.shape), str(a.type), arr.tobytes())
    if a.kind == "resource":
        return ("lit", t, None, str(a.type), a.data.tobytes() if hasattr(a.data, "tobytes") else bytes(a.data))
    raise Unsupported(f"literal {a.kind}")


class Eval:
    def __init__(self, module, literal=literal_term, loop_bound=4):
        self.funcs = {}
        for op in module.body.operations:
            if op.name == "func.func":
                self.funcs.setdefault(op.sym_name, op)
        self.literal = literal
        self.loop_bound = loop_bound
        self.effects = []

    def over(self, what):
        raise Unsupported(what)

    def call(self, name, args):
        if name not in self.funcs:
            raise TypeError(f"call of an undefined function {name}")
        f = self.funcs[name]
        b = f.entry_block
        if len(b.arguments) != len(args):
            raise TypeError(f"{name}: {len(args)} arguments for {len(b.arguments)} parameters")
        env = dict(zip(map(id, b.arguments), args))
        return self.block(b, env)

    def block(self, b, env):
        for op in b.operations:
            r = self.op(op, env)
            if op.name in ("func.return", "torch.prim.Loop.condition"):
                return r
            if len(r) != len(op.results):
                raise TypeError(f"{op.name}: {len(op.results)} results, evaluation gives {len(r)}")
            for v, x in zip(op.results, r):
                env[id(v)] = x
        raise TypeError("block without a terminator")

    def op(self, op, env):
        args = []
        for v in op.operands:
            if id(v) not in env:
                raise TypeError(f"{op.name}: operand {v!r} is used before it is defined")
            args.append(env[id(v)])
        n = op.name
        if n == "torch.operator":
            n = op.attributes["name"].value
        if n in ("func.return", "torch.prim.Loop.condition"):
            return args
        if n == "torch.constant.none":
            return [None]
        if n == "torch.constant.bool":
            v = op.attributes["value"].value
            return [v if isinstance(v, (bool, SymBool)) else v != 0]
        if n in ("torch.constant.int", "torch.constant.float", "torch.constant.str", "torch.constant.device"):
            return [op.attributes["value"].value]
        if n == "torch.symbolic_int":
            return [("in", "symbol:" + op.attributes["symbol_name"].value)]
        if n == "torch.bind_symbolic_shape":
            return []
        if n == "torch.vtensor.literal":
            return [self.literal(op)]
        if n == "torch.prim.ListConstruct":
            return [list(args)]
        if n == "torch.prim.ListUnpack":
            x = args[0]
            if isinstance(x, list):
                return list(x)
            return [("op", "getitem", i, (x,)) for i in range(len(op.results))]
        if n == "torch.copy.to_vtensor":
            if not isinstance(args[0], Cell):
                raise TypeError("copy.to_vtensor of a value tensor")
            return [args[0].value]
        if n == "torch.overwrite.tensor.contents":
            if not isinstance(args[1], Cell):
                raise TypeError("overwrite of a value tensor")
            args[1].value = args[0]
            args[1].writes += 1
            return []
        if n == "func.call":
            return self.call(op.attributes["callee"].value, args)
        if n == "torch.prim.Loop":
            maxi, cond, *carry = args
            body = op.regions[0].blocks[0]
            i = 0
            while i < maxi and cond:
                if i >= self.loop_bound:
                    self.over(f"a loop runs more than {self.loop_bound} times")
                e = dict(env)
                if len(body.arguments) != 1 + len(carry):
                    raise TypeError("loop carried arguments")
                e[id(body.arguments[0])] = i
                for a, v in zip(body.arguments[1:], carry):
                    e[id(a)] = v
                cond, *carry = self.block(body, e)
                i += 1
            return list(carry)
        v = scalar_value(n, args)
        if v is not NOTSCALAR:
            return [v]
        extra = tuple((k, attr_value(a)) for k, a in sorted(op.attributes.items())
                      if not (op.name == "torch.operator" and k == "name"))
        return self.generic(op, n, args, extra)

    def generic(self, op, n, args, extra):
        a = tuple(self.deref(x) for x in args)
        if extra:
            a = a + (list(list(e) for e in extra),)
        return [("op", n, k, a) for k in range(len(op.results))]

    def deref(self, x):
        if isinstance(x, Cell):
            return ("in", f"cell:{id(x)}")
        return x
