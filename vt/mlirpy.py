"""A recording stand-in for the MLIR Python bindings (no MLIR is installed).

Types and attributes are plain records; operations are recorded in blocks in
insertion order.  Only the API that the importers use exists; a use of anything
else raises AttributeError, which a check reports as inconclusive.
"""
import os
import re
import sys
import types

import numpy as np

from . import load


class MLIRError(Exception):
    pass


# ------------------------------------------------------------ context stack

_STACK = []


class _Ctx:
    def __enter__(self):
        _STACK.append(self)
        return self

    def __exit__(self, *a):
        assert _STACK.pop() is self


def _innermost(kind):
    for x in reversed(_STACK):
        if isinstance(x, kind):
            return x
    return None


_registered = None


def registered_ops():
    """Op names declared in the Torch dialect's ODS files of the tree."""
    global _registered
    if _registered is None:
        d = load.REPO + "/include/torch-mlir/Dialect/Torch/IR/"
        names = set()
        for f in ("GeneratedTorchOps.td", "TorchOps.td"):
            txt = open(d + f).read()
            names |= set(re.findall(r'Torch_Op<\s*"([^"]+)"', txt))
            names |= set(re.findall(r'Torch_\w*Op\w*<\s*"([^"]+)"', txt))
        _registered = {"torch." + n for n in names}
    return _registered


class _Dialects:
    def __getitem__(self, k):
        return k


class Context(_Ctx):
    def __init__(self):
        self.dialects = _Dialects()
        self.allow_unregistered_dialects = False
        self.emit_error_diagnostics = False

    def is_registered_operation(self, name):
        return name in registered_ops()


class Location(_Ctx):
    def __init__(self, desc, context=None):
        self.desc = desc
        self._context = context

    @property
    def context(self):
        return self._context or _innermost(Context) or DEFAULT

    @staticmethod
    def unknown(context=None):
        return Location("unknown", context)

    @staticmethod
    def file(f, line, col, context=None):
        return Location(("file", f, line, col), context)

    @staticmethod
    def name(n, childLoc=None, context=None):
        return Location(("name", n), context)

    @staticmethod
    def callsite(callee, frames, context=None):
        return Location(("callsite", callee, list(frames)), context)


DEFAULT = Context()


# ---------------------------------------------------------------- types


def _norm(s):
    out = []
    q = False
    for ch in s:
        if ch == '"':
            q = not q
        if ch == " " and not q:
            continue
        out.append(ch)
    return "".join(out)


class Type:
    def __init__(self, asm):
        self.asm = _norm(asm)

    @staticmethod
    def parse(asm, context=None):
        if not isinstance(asm, str):
            raise TypeError("Type.parse takes a string")
        return Type(asm)

    def __eq__(self, o):
        return isinstance(o, Type) and self.asm == o.asm

    def __hash__(self):
        return hash(self.asm)

    def __str__(self):
        return self.asm

    def __repr__(self):
        return f"Type({self.asm})"

    @property
    def context(self):
        return DEFAULT


def _simple(name, asm):
    return type(name, (Type,), {"get": staticmethod(lambda context=None: Type(asm))})


BF16Type = _simple("BF16Type", "bf16")
F16Type = _simple("F16Type", "f16")
F32Type = _simple("F32Type", "f32")
F64Type = _simple("F64Type", "f64")
Float4E2M1FNType = _simple("Float4E2M1FNType", "f4E2M1FN")
Float8E5M2Type = _simple("Float8E5M2Type", "f8E5M2")
Float8E4M3FNType = _simple("Float8E4M3FNType", "f8E4M3FN")
Float8E5M2FNUZType = _simple("Float8E5M2FNUZType", "f8E5M2FNUZ")
Float8E4M3FNUZType = _simple("Float8E4M3FNUZType", "f8E4M3FNUZ")
Float8E8M0FNUType = _simple("Float8E8M0FNUType", "f8E8M0FNU")


class IntegerType(Type):
    @staticmethod
    def get_signless(n, context=None):
        return Type(f"i{n}")

    @staticmethod
    def get_signed(n, context=None):
        return Type(f"si{n}")

    @staticmethod
    def get_unsigned(n, context=None):
        return Type(f"ui{n}")


class ComplexType(Type):
    @staticmethod
    def get(t):
        return Type(f"complex<{t}>")


class RankedTensorType(Type):
    def __init__(self, shape, elt):
        self.shape = list(shape)
        self.element_type = elt
        super().__init__("tensor<" + "".join(f"{d}x" for d in self.shape) + f"{elt}>")

    @staticmethod
    def get(shape, elt, encoding=None, loc=None):
        if not isinstance(elt, Type):
            raise TypeError("element type")
        return RankedTensorType(shape, elt)


class FunctionType(Type):
    def __init__(self, i, r):
        self.inputs, self.results = list(i), list(r)
        super().__init__("(" + ",".join(map(str, i)) + ")->(" + ",".join(map(str, r)) + ")")

    @staticmethod
    def get(inputs, results, context=None):
        for t in list(inputs) + list(results):
            if not isinstance(t, Type):
                raise TypeError("function type operand")
        return FunctionType(inputs, results)


# ------------------------------------------------------------ attributes


class Attribute:
    """kind, payload dict"""

    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)

    def __repr__(self):
        return f"Attr({ {k: v for k, v in self.__dict__.items()} })"


class IntegerAttr(Attribute):
    @staticmethod
    def get(t, v):
        return Attribute("int", type=t, value=v)


class FloatAttr(Attribute):
    @staticmethod
    def get_f64(v, loc=None):
        return Attribute("float", type=Type("f64"), value=v)

    @staticmethod
    def get_f32(v, loc=None):
        return Attribute("float", type=Type("f32"), value=v)

    @staticmethod
    def get(t, v, loc=None):
        return Attribute("float", type=t, value=v)


class StringAttr(Attribute):
    @staticmethod
    def get(v, context=None):
        return Attribute("str", value=v.decode() if isinstance(v, bytes) else v, type=None)


class UnitAttr(Attribute):
    @staticmethod
    def get(context=None):
        return Attribute("unit")


class ArrayAttr(Attribute):
    @staticmethod
    def get(v, context=None):
        return Attribute("array", value=list(v))


class DictAttr(Attribute):
    @staticmethod
    def get(v=None, context=None):
        return Attribute("dict", value=dict(v or {}))


class FlatSymbolRefAttr(Attribute):
    @staticmethod
    def get(v, context=None):
        return Attribute("symbol", value=v)


class AffineMapAttr(Attribute):
    @staticmethod
    def get(m):
        return Attribute("affine_map", value=m)


def _copy(a):
    # a stand-in for an array (vt/fx/literals.py Elts) is immutable
    return a if hasattr(a, "vtdt") else np.array(a) if isinstance(a, (np.ndarray, list)) else a


class DenseElementsAttr(Attribute):
    @staticmethod
    def get(array, signless=True, type=None, shape=None, context=None):
        # the data is copied at this point (MLIR uniques it)
        return Attribute("dense", array=_copy(array), signless=signless, type=type,
                         shape=None if shape is None else list(shape))

    @staticmethod
    def get_splat(t, v):
        return Attribute("splat", type=t, value=v)


class DenseResourceElementsAttr(Attribute):
    @staticmethod
    def get_from_buffer(buf, name, t, alignment=None, is_mutable=False, context=None):
        raw = _copy(buf)
        return Attribute("resource", data=raw, name=name, type=t)


# ----------------------------------------------------------- affine exprs


class AffineExpr:
    def __init__(self, op, *a):
        self.op, self.args = op, a

    def __repr__(self):
        return f"{self.op}{self.args}"

    def __add__(self, o):
        return AffineExpr("add", self, _ae(o))

    __radd__ = __add__

    def __mul__(self, o):
        return AffineExpr("mul", self, _ae(o))

    __rmul__ = __mul__

    def __sub__(self, o):
        return self + _ae(o) * -1

    def __mod__(self, o):
        return AffineExpr("mod", self, _ae(o))

    @staticmethod
    def get_constant(v, context=None):
        return AffineExpr("const", int(v))

    @staticmethod
    def get_symbol(i, context=None):
        return AffineExpr("sym", i)

    @staticmethod
    def get_dim(i, context=None):
        return AffineExpr("dim", i)

    @staticmethod
    def get_add(a, b):
        return AffineExpr("add", _ae(a), _ae(b))

    @staticmethod
    def get_mul(a, b):
        return AffineExpr("mul", _ae(a), _ae(b))

    @staticmethod
    def get_mod(a, b):
        return AffineExpr("mod", _ae(a), _ae(b))

    @staticmethod
    def get_floor_div(a, b):
        return AffineExpr("floordiv", _ae(a), _ae(b))

    @staticmethod
    def get_ceil_div(a, b):
        return AffineExpr("ceildiv", _ae(a), _ae(b))


def _ae(x):
    if isinstance(x, AffineExpr):
        return x
    return AffineConstantExpr.get(x)


def _affine2(name, op):
    return type(name, (AffineExpr,), {"get": staticmethod(lambda a, b: AffineExpr(op, _ae(a), _ae(b)))})


AffineAddExpr = _affine2("AffineAddExpr", "add")
AffineMulExpr = _affine2("AffineMulExpr", "mul")
AffineModExpr = _affine2("AffineModExpr", "mod")
AffineFloorDivExpr = _affine2("AffineFloorDivExpr", "floordiv")
AffineCeilDivExpr = _affine2("AffineCeilDivExpr", "ceildiv")


class AffineConstantExpr(AffineExpr):
    @staticmethod
    def get(v, context=None):
        if hasattr(type(v), "__vt_proxy__"):  # a sympy integer of symbolic value
            return AffineExpr("const", v.__vt_proxy__())
        return AffineExpr("const", int(v))


class AffineSymbolExpr(AffineExpr):
    @staticmethod
    def get(i, context=None):
        return AffineExpr("sym", i)


class AffineDimExpr(AffineExpr):
    @staticmethod
    def get(i, context=None):
        return AffineExpr("dim", i)


class AffineMap:
    def __init__(self, nd, ns, exprs):
        self.n_dims, self.n_symbols, self.results = nd, ns, list(exprs)

    @staticmethod
    def get(nd, ns, exprs, context=None):
        return AffineMap(nd, ns, exprs)


# ------------------------------------------------------------ operations


class Value:
    def __init__(self, t, owner, index):
        if not isinstance(t, Type):
            raise TypeError(f"value type {t!r}")
        self.type = t
        self.owner = owner
        self.index = index

    def __repr__(self):
        return f"<{getattr(self.owner, 'name', 'arg')}#{self.index}:{self.type}>"

    @property
    def context(self):
        return DEFAULT


class OpResult(Value):
    pass


class BlockArgument(Value):
    pass


class Block:
    def __init__(self, region, arg_types):
        self.region = region
        self.operations = []
        self.arguments = [BlockArgument(t, self, i) for i, t in enumerate(arg_types)]

    @staticmethod
    def create_at_start(region, arg_types=(), arg_locs=None):
        b = Block(region, list(arg_types))
        region.blocks.insert(0, b)
        return b

    @property
    def owner(self):
        return self.region.owner


class _Blocks(list):
    def __init__(self, region):
        super().__init__()
        self.region = region

    def append(self, *types, arg_locs=None):
        b = Block(self.region, types)
        list.append(self, b)
        return b


class Region:
    def __init__(self, owner):
        self.owner = owner
        self.blocks = _Blocks(self)


class InsertionPoint(_Ctx):
    def __init__(self, block):
        if not isinstance(block, Block):
            raise TypeError("InsertionPoint takes a block")
        self.block = block

    @staticmethod
    def at_block_begin(block):
        p = InsertionPoint(block)
        p.begin = True
        return p

    def insert(self, op):
        self.block.operations.append(op)
        op.block = self.block


class Operation:
    def __init__(self, name, results, operands, attributes, regions, loc):
        self.name = name
        self.operands = list(operands)
        for v in self.operands:
            if not isinstance(v, Value):
                raise TypeError(f"{name}: operand {v!r} is not a Value")
        self.attributes = dict(attributes or {})
        self.results = [OpResult(t, self, i) for i, t in enumerate(results or [])]
        self.regions = [Region(self) for _ in range(regions)]
        self.location = loc
        self.block = None

    @staticmethod
    def create(name, results=None, operands=None, attributes=None, successors=None,
               regions=0, loc=None, ip=None, infer_type=False):
        op = Operation(name, list(results or []), list(operands or []), attributes, regions, loc)
        p = ip or _innermost(InsertionPoint)
        if p is not None:
            p.insert(op)
        return op

    @property
    def result(self):
        if len(self.results) != 1:
            raise ValueError(f"{self.name} has {len(self.results)} results")
        return self.results[0]

    @property
    def operation(self):
        return self

    @property
    def context(self):
        return DEFAULT

    def __repr__(self):
        return f"Op({self.name})"


class Module:
    def __init__(self):
        self.operation = Operation("builtin.module", [], [], {}, 1, None)
        self.body = Block.create_at_start(self.operation.regions[0], [])
        self.context = DEFAULT

    @staticmethod
    def create(loc=None):
        return Module()


class SymbolTable:
    def __init__(self, op):
        self.op = op
        self.symbols = {}

    def insert(self, op):
        # MLIR renames the inserted symbol when the name is taken by another op
        n = op.attributes["sym_name"].value
        base, k = n, 0
        while n in self.symbols and self.symbols[n] is not op:
            n = f"{base}_{k}"
            k += 1
        op.attributes["sym_name"] = StringAttr.get(n)
        self.symbols[n] = op
        return op.attributes["sym_name"]


class FuncOp(Operation):
    def __init__(self, name, type, visibility=None, body_builder=None, loc=None, ip=None):
        super().__init__("func.func", [], [], {"sym_name": StringAttr.get(name)}, 1, loc)
        if not isinstance(type, FunctionType):
            type = FunctionType(*type)
        self.type = type
        self.visibility = visibility
        p = ip or _innermost(InsertionPoint)
        if p is not None:
            p.insert(self)

    @property
    def sym_name(self):
        return self.attributes["sym_name"].value

    @property
    def body(self):
        return self.regions[0]

    @property
    def entry_block(self):
        return self.regions[0].blocks[0]

    def add_entry_block(self, arg_locs=None):
        return Block.create_at_start(self.body, self.type.inputs)


def ReturnOp(operands, loc=None, ip=None):
    return Operation.create("func.return", operands=operands, loc=loc, ip=ip)


def CallOp(callee, operands, *a, loc=None, ip=None):
    if isinstance(callee, FuncOp):
        op = Operation.create("func.call", results=callee.type.results, operands=operands,
                              attributes={"callee": FlatSymbolRefAttr.get(callee.sym_name)})
        op.callee = callee
        return op
    results, callee = callee, operands
    op = Operation.create("func.call", results=results, operands=a[0], attributes={"callee": callee})
    return op


_installed = False


def install():
    """Puts the stand-ins where the importers' relative imports find them."""
    global _installed
    if _installed:
        return
    _installed = True
    load.torch_mlir_skeleton()
    ir = types.ModuleType("torch_mlir.ir")
    g = globals()
    for n, v in list(g.items()):
        if isinstance(v, type) and not n.startswith("_"):
            setattr(ir, n, v)
    ir.MLIRError = MLIRError
    sys.modules["torch_mlir.ir"] = ir
    d = types.ModuleType("torch_mlir.dialects")
    d.__path__ = []
    f = types.ModuleType("torch_mlir.dialects.func")
    f.FuncOp, f.ReturnOp, f.CallOp = FuncOp, ReturnOp, CallOp
    t = types.ModuleType("torch_mlir.dialects.torch")
    t.register_dialect = lambda ctx, load=True: None
    d.func, d.torch = f, t
    for m in (d, f, t):
        sys.modules[m.__name__] = m
    sys.modules["torch_mlir"].ir = ir
    sys.modules["torch_mlir"].dialects = d
    return ir
