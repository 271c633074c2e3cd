"""The ONNX importer on the recording bindings; evaluation of what it records."""
import importlib
import warnings

import onnx

from .. import instr, mlirpy, symex
from ..decide import Unsupported
from ..fx.valtypes import tokens
from ..symex import Counterexample, SymInt, and_
from .proto import Helper, Msg, Shim, SymName

_m = {}

ELT = {"FLOAT": "f32", "UINT8": "ui8", "INT8": "si8", "UINT16": "ui16", "INT16": "si16", "INT32": "si32", "INT64": "si64",
       "BOOL": "i1", "FLOAT16": "f16", "DOUBLE": "f64", "UINT32": "ui32", "UINT64": "ui64", "COMPLEX64": "complex<f32>",
       "COMPLEX128": "complex<f64>", "BFLOAT16": "bf16", "FLOAT8E4M3FN": "f8E4M3FN", "FLOAT8E4M3FNUZ": "f8E4M3FNUZ",
       "FLOAT8E5M2": "f8E5M2", "FLOAT8E5M2FNUZ": "f8E5M2FNUZ", "STRING": "!torch.str", "UINT4": "ui4", "INT4": "si4"}
ELT = {onnx.TensorProto.DataType.Value(k): v for k, v in ELT.items()}


def importer():
    """The instrumented module, on message stand-ins and on real messages."""
    if not _m:
        mlirpy.install()
        importlib.import_module("torch_mlir.extras")
        m = instr.load_module("torch_mlir.extras.onnx_importer", "python/torch_mlir/extras/onnx_importer.py")
        _m["m"] = m
    return _m["m"]


class Setting:
    """One run of the importer: constructors of messages, names, tokens."""

    def __init__(self, p, over=None, same=False):
        self.p, self.same = p, same
        self.concrete = getattr(p, "concrete", False)
        self.m = importer()
        o = {"helper": Helper()}
        o.update(over or {})
        self.onnx = Real(over or {}) if self.concrete else Shim(o)

    def __enter__(self):
        self.old = self.m.onnx, warnings.catch_warnings()
        self.m.onnx = self.onnx
        self.old[1].__enter__()
        warnings.simplefilter("ignore")
        self.tok = tokens(self.same)
        self.tok.__enter__()
        return self

    def __exit__(self, *a):
        self.tok.__exit__(*a)
        self.old[1].__exit__(*a)
        self.m.onnx = self.old[0]

    def name(self, v):
        if self.concrete:
            return "" if v == 0 else f"v{v}"
        return SymName(v)

    def type_of(self, t):
        return read_type(self.tok, str(t))


class Real:
    def __init__(self, over):
        self._over = over

    def __getattr__(self, k):
        return self._over[k] if k in self._over else getattr(onnx, k)


def read_type(tok, s):
    """("vtensor", dims | None, element) | ("list", t) | ("optional", t) | ("none",)"""
    s = s.replace(" ", "")
    if s.startswith("!torch."):
        s = s[len("!torch."):]
    if s == "none":
        return ("none",)
    for k in ("list", "optional"):
        if s.startswith(k + "<") and s.endswith(">"):
            return (k, read_type(tok, s[len(k) + 1:-1]))
    for k in ("vtensor", "tensor"):
        if s.startswith(k + "<") and s.endswith(">"):
            b = s[len(k) + 1:-1]
            if b.startswith("*,"):
                return (k, None, b[2:])
            if not b.startswith("["):
                raise Counterexample(f"type text {s}", {})
            d, _, e = b[1:].partition("],")
            dims = []
            for x in d.split(",") if d else []:
                v = -1 if x == "?" else tok.read(x)
                if v is None:
                    raise Counterexample(f"dimension {x!r} in type text {s}", {})
                dims.append(v)
            return (k, tuple(dims), e)
    raise Counterexample(f"type text {s}", {})


def want_type(tp):
    """Reference reading of an onnx.TypeProto (message of either kind)."""
    w = tp.WhichOneof("value")
    if w is None:
        return ("none",)
    if w == "tensor_type":
        t = tp.tensor_type
        if not t.HasField("shape"):
            return ("vtensor", None, ELT[t.elem_type])
        return ("vtensor", tuple(d.dim_value if d.HasField("dim_value") else -1 for d in t.shape.dim), ELT[t.elem_type])
    if w == "sequence_type":
        return ("list", want_type(tp.sequence_type.elem_type))
    if w == "optional_type":
        return ("optional", want_type(tp.optional_type.elem_type))
    raise Unsupported(w)


def same_type(a, b):
    """Condition that two read types are equal."""
    if a[0] != b[0]:
        return False
    if a[0] in ("list", "optional"):
        return same_type(a[1], b[1])
    if a[0] == "none":
        return True
    if a[2] != b[2] or (a[1] is None) != (b[1] is None):
        return False
    if a[1] is None:
        return True
    if len(a[1]) != len(b[1]):
        return False
    out = True
    for x, y in zip(a[1], b[1]):
        if any(isinstance(v, int) and v < 0 for v in (x, y)):  # unknown only equals unknown
            if not (isinstance(x, int) and isinstance(y, int) and x == y):
                return False
            continue
        c = x == y
        if c is False:
            return False
        if c is not True:
            out = c if out is True else and_(out, c)
    return out


# ------------------------------------------------------------- recorded IR


def attr_term(a):
    k = a.kind
    if k == "int":
        return ("op", "attr.int:" + str(a.type), 0, (a.value,))
    if k == "float":
        return ("op", "attr.float:" + str(a.type), 0, (a.value,))
    if k == "str":
        return ("op", "attr.str", 0, (a.value,))
    if k == "array":
        return ("op", "attr.array", 0, tuple(attr_term(x) for x in a.value))
    if k in ("dense", "resource"):
        return ("op", "attr.tensor", 0, tuple(dense(a)))
    raise Unsupported(k)


def dense(a):
    """shape, element, elements of a tensor attribute"""
    raise Unsupported("tensor attribute")


class Eval:
    """Terms of the values a function of the module computes."""

    def __init__(self, module, data):
        self.funcs = {}
        self.data = data  # tensor attribute -> term
        for op in module.operation.regions[0].blocks[0].operations if isinstance(module, mlirpy.Module) else module.regions[0].blocks[0].operations:
            if op.name == "func.func":
                self.funcs[id(op)] = op

    def attrs(self, op):
        out = []
        for k in sorted(op.attributes):
            a = op.attributes[k]
            if k == "name":
                continue
            out.append(("op", k, 0, (self.data(a) if a.kind in ("dense", "resource", "splat") else attr_term(a),)))
        return out

    def run(self, func, args):
        return self.block(func.regions[0].blocks[0], dict(zip(map(id, func.regions[0].blocks[0].arguments), args)), 0)

    def block(self, b, env, depth):
        ops = b.operations
        if not ops or ops[-1].name not in ("func.return", "torch.operator_terminator"):
            raise Counterexample("a block without terminator", {})
        for o in ops[:-1]:
            self.op(o, env, depth)
        return [self.get(v, env) for v in ops[-1].operands]

    def get(self, v, env):
        if id(v) not in env:
            raise Counterexample("a value is used outside of its scope or before its definition", {})
        return env[id(v)]

    def op(self, o, env, depth):
        if o.name == "torch.constant.none":
            env[id(o.result)] = None
            return
        args = [self.get(v, env) for v in o.operands]
        if o.name == "func.call":
            f = o.callee
            outs = self.run(f, args)
            for v, r in zip(o.results, outs):
                env[id(v)] = r
            return
        if o.name != "torch.operator":
            raise Unsupported(o.name)
        regs = []
        for j, r in enumerate(o.regions):
            if len(r.blocks) != 1:
                raise Counterexample(f"region with {len(r.blocks)} blocks", {})
            blk = r.blocks[0]
            e = dict(env)
            for i, v in enumerate(blk.arguments):
                e[id(v)] = ("in", f"region{depth}.{j}.{i}")
            regs.append(("op", "region", 0, (len(blk.arguments), *self.block(blk, e, depth + 1))))
        nm = o.attributes["name"].value
        for k, v in enumerate(o.results):
            env[id(v)] = ("op", nm, k, (*args, ("op", "attrs", 0, tuple(self.attrs(o))), ("op", "regions", 0, tuple(regs))))
