"""F04: binding of a captured operator call to the emitted operation.

For every operator overload, a one-node graph is built whose literal arguments
are solver variables; the importer (real code) is run on it and the recorded
operation, interpreted, must apply the same operator to the same operands.
"""
import re
import traceback

import torch
import torch.fx as tfx
from torch._subclasses.fake_tensor import FakeTensorMode
from torch.fx.experimental.symbolic_shapes import ShapeEnv
from torch.fx.immutable_collections import immutable_list
from torch.fx.passes.shape_prop import TensorMetadata

from .. import mlirpy
from ..symex import (BoundExceeded, Counterexample, Inconclusive, PathAbort, Stats, SymBool, SymInt, SymReal,
                     explore)
from ..decide import decide
from . import codes, core

MLIR_DTYPE = {
    torch.float16: "f16", torch.bfloat16: "bf16", torch.float32: "f32", torch.float64: "f64",
    torch.uint8: "ui8", torch.int8: "si8", torch.int16: "si16", torch.int32: "si32", torch.int64: "si64",
    torch.bool: "i1", torch.complex32: "complex<f16>", torch.complex64: "complex<f32>",
    torch.complex128: "complex<f64>", torch.float8_e5m2: "f8E5M2", torch.float8_e4m3fn: "f8E4M3FN",
    torch.float8_e5m2fnuz: "f8E5M2FNUZ", torch.float8_e4m3fnuz: "f8E4M3FNUZ",
    torch.float8_e8m0fnu: "f8E8M0FNU", torch.float4_e2m1fn_x2: "f4E2M1FN",
}
_mode = None
DEBUG = False
META_DTYPES = [torch.float32, torch.int64, torch.bool, torch.float64, torch.float16, torch.bfloat16, torch.int32,
               torch.int16, torch.int8, torch.uint8, torch.complex64, torch.complex128]


def fake(i, base=None):
    """A fake tensor whose shape and dtype identify `i`."""
    global _mode
    if _mode is None:
        _mode = FakeTensorMode()
    with _mode:
        return torch.empty((2 + i, 3 + i) if i % 3 else (5 + i,), dtype=META_DTYPES[i % len(META_DTYPES)])


def vt(x, mutable=False):
    """MLIR type of a value described by `meta['val']`."""
    if isinstance(x, torch.Tensor):
        sh = ",".join("?" if isinstance(d, torch.SymInt) else str(d) for d in x.shape)
        return f"!torch.{'tensor' if mutable else 'vtensor'}<[{sh}],{MLIR_DTYPE[x.dtype]}>"
    if isinstance(x, list):
        return "!torch.list<vtensor>"
    if isinstance(x, (bool, torch.SymBool, SymBool)):
        return "!torch.bool"
    if isinstance(x, (int, torch.SymInt, SymInt)):
        return "!torch.int"
    if isinstance(x, (float, torch.SymFloat, SymReal)):
        return "!torch.float"
    if isinstance(x, str):
        return "!torch.str"
    if x is None:
        return "!torch.none"
    raise core.Unsupported(f"type of {x!r}")


def overload(name):
    q = name.split(".")
    ns = getattr(torch.ops, q[1])
    return getattr(getattr(ns, q[2]), q[3] if len(q) > 3 else "default")


def schema_name(s):
    return "torch." + s.name.replace("::", ".") + ("." + s.overload_name if s.overload_name else "")


# ---------------------------------------------------------- argument values

UNSUPPORTED = re.compile(r"^t\d?$|Dict|Any|List\[t\]|classes|Generator$|Storage|Stream|Future|Await|RRef")


class Skip(BaseException):
    pass


class Build:
    """Values of the arguments of one call: (graph argument, expected value)."""

    def __init__(self, p, g, nodes):
        self.p, self.g, self.nodes = p, g, nodes
        self.env = ShapeEnv()
        self.phs = []
        self.n = 0
        self.varied = False
        self.many = False
        self.no_none = False

    def ph(self, val, value=None):
        i = len(self.phs)
        n = self.g.placeholder(f"in{i}")
        n.meta["val"] = val
        if isinstance(val, torch.Tensor):
            n.meta["tensor_meta"] = tmeta(val)
        v = ("in", i) if value is None else value
        self.phs.append((n, v, vt(val)))
        return n, v

    def name(self, k):
        self.n += 1
        return f"{k}{self.n}"

    def pick(self, xs):
        """One of `xs`; at most one such argument leaves its first value."""
        k = 0 if self.varied else self.p.choice(len(xs))
        self.varied = self.varied or k > 0
        return xs[k]

    def scalar(self, kind, node=None):
        node = self.nodes if node is None else node
        if kind == "int":
            v = self.p.int(self.name("i"), -2**62, 2**62)
            return self.ph(self.env.create_unbacked_symint(), v) if node else (v, v)
        if kind == "float":
            v = self.p.real(self.name("f"))
            return self.ph(self.env.create_unbacked_symfloat(), v) if node else (v, v)
        v = self.p.boolean(self.name("b"))
        return self.ph(self.env.create_unbacked_symbool(), v) if node else (v, v)

    def value(self, rt, jt):
        """rt: text of the schema's real type."""
        if UNSUPPORTED.search(rt):
            raise Skip(rt)
        if rt == "Tensor":
            # several dtypes where the emitted operation may depend on it
            return self.ph(fake(self.pick(list(range(len(META_DTYPES)))) if self.many else len(self.phs)))
        if rt in ("int", "SymInt"):
            return self.scalar("int")
        if rt == "float":
            return self.scalar("float")
        if rt == "bool":
            return self.scalar("bool", False)
        if rt == "number":
            return self.scalar(self.pick(["int", "float"]))
        if rt == "str":
            s = self.name("s")
            return s, s
        if rt == "ScalarType":
            d = self.pick([torch.float64] + list(MLIR_DTYPE))
            return d, codes.dtype_code(d)
        if rt == "Layout":
            d = self.pick(codes.LAYOUTS)
            return d, codes.layout_code(d)
        if rt == "MemoryFormat":
            m = self.pick([torch.contiguous_format, torch.preserve_format, torch.channels_last, torch.channels_last_3d])
            return m, codes.memory_format_code(m)
        if rt == "Device":
            return torch.device("cpu"), "cpu"
        m = re.fullmatch(r"Optional\[(.*)\]", rt)
        if m:
            if m.group(1) == "Generator":
                return None, None
            return self.value(m.group(1), None)
        m = re.fullmatch(r"List\[(.*)\]", rt)
        if m:
            e = m.group(1)
            if e == "number":
                raise Skip(rt)
            n = 3
            xs = []
            for i in range(n):
                if e == "Optional[Tensor]" and i == 1 and not self.no_none:
                    xs.append((None, None))
                elif e in ("int", "SymInt"):
                    # literals and symbolic scalars mix in one list
                    xs.append(self.scalar("int", i == 1))
                elif e == "float":
                    xs.append(self.scalar("float", i == 1))
                elif e == "bool":
                    xs.append(self.scalar("bool", False))
                else:
                    xs.append(self.value(e, None))
            return immutable_list([a for a, _ in xs]), [v for _, v in xs]
        raise Skip(rt)


def tmeta(t):
    return TensorMetadata(t.shape, t.dtype, t.requires_grad, t.stride(), None, False, {})


def defaulted(a):
    v = a.default_value
    rt = str(a.real_type)
    if isinstance(v, torch.dtype):
        return codes.dtype_code(v)
    if v is not None and "ScalarType" in rt and isinstance(v, int):
        return v
    if isinstance(v, torch.device):
        return str(v)
    return list(v) if isinstance(v, (list, tuple)) else v


RESULT = {"Tensor": lambda b, i: fake(20 + i), "int": lambda b, i: b.env.create_unbacked_symint(),
          "float": lambda b, i: b.env.create_unbacked_symfloat(), "bool": lambda b, i: b.env.create_unbacked_symbool(),
          "number": lambda b, i: b.env.create_unbacked_symint(), "str": lambda b, i: "x",
          "List[Tensor]": lambda b, i: [fake(20 + i), fake(21 + i)]}
RESULT["SymInt"] = RESULT["int"]

# canonical replacements: (source overload) -> function(values by name) -> (op name, operand list)
SCALARS = {"torch.aten.mul.Tensor", "torch.aten.div.Tensor", "torch.aten.add.Tensor", "torch.aten.sub.Tensor",
           "torch.aten.floor_divide"}


def num_to_tensor(t):
    return isinstance(t, tuple) and len(t) == 4 and t[0] == "op" and t[1] == "torch.prim.NumToTensor.Scalar"


def normal(t):
    """x op tensor(scalar) and x op scalar denote the same value."""
    if core.is_term(t) and t[0] == "op" and t[1] in SCALARS and len(t[3]) > 1:
        o = t[3][1]
        if num_to_tensor(o):
            o = o[3][0]
        if isinstance(o, (int, float, SymInt, SymReal, SymBool)):
            n = t[1].replace(".Tensor", ".Scalar") if t[1].endswith("Tensor") else t[1] + ".Scalar"
            if isinstance(o, (bool, SymBool)):
                o = 1 * o
            return ("op", n, t[2], (t[3][0], o) + t[3][2:])
    return t


def canonical(name, args, b):
    """The operator PyTorch's semantics lets stand for `name` where the torch
    dialect has no such operation.  Returns (name, args)."""
    if name == "torch.aten.lift_fresh_copy":
        return "torch.aten.clone", [args[0], None]
    if name == "torch.aten._unsafe_index_put":
        return "torch.aten._unsafe_index_put.hacked_twin", args
    if name == "torch.aten._embedding_bag_forward_only":
        i = args[8]
        if i is not None and i < 0:  # -1: no padding row
            args = args[:8] + [None]
        return "torch.aten.embedding_bag.padding_idx", args
    if name == "torch.aten._local_scalar_dense":
        d = b.phs[0][0].meta["val"].dtype
        k = "Float" if d.is_floating_point else "Bool" if d is torch.bool else "Int"
        return f"torch.aten.{k}.Tensor", args
    return name, args


CANON = ["torch.aten.lift_fresh_copy", "torch.aten._unsafe_index_put", "torch.aten._embedding_bag_forward_only",
         "torch.aten._local_scalar_dense"]


def unregistered():
    """Overloads without an operation of their own (emitted as torch.operator)."""
    reg = mlirpy.registered_ops()
    out = []
    for sc in torch._C._jit_get_all_schemas():
        full = schema_name(sc)
        if not sc.name.startswith("aten::") or full in reg or full in CANON or full in out:
            continue
        if "out" in sc.overload_name or any(a.is_out for a in sc.arguments):
            continue
        try:
            overload(full)
        except Exception:
            continue
        out.append(full)
    out.sort()
    return out


def modes(schema):
    """(label, {arg index: "pos" | "kw" | "default" | "none" | "scalar:K" | "node:K"})"""
    A = schema.arguments
    pos = [i for i, a in enumerate(A) if not a.kwarg_only]
    dflt = [i for i, a in enumerate(A) if a.has_default_value()]
    full = {i: ("pos" if i in pos else "kw") for i in range(len(A))}
    out = [("all given", full)]
    if dflt:
        out.append(("required only", {**full, **{i: "default" for i in dflt}}))
    for k, i in enumerate(dflt):
        if len(dflt) == 1:
            break
        # only argument i given among the defaulted ones
        out.append((f"only {A[i].name}", {**full, **{j: "default" for j in dflt}, i: "kw"}))
        if i in pos and k and k < len(dflt) - 1:
            out.append((f"up to {A[i].name}", {**full, **{j: "default" for j in dflt if j > i}}))
        out.append((f"all but {A[i].name}",
                    {**{j: ("kw" if (j > i or s == "kw") else "pos") for j, s in full.items()}, i: "default"}))
    opt = [i for i, a in enumerate(A) if str(a.real_type).startswith("Optional")]
    for i in opt:
        out.append((f"{A[i].name} None", {**full, i: "none:" + full[i]}))
    tens = [i for i, a in enumerate(A) if str(a.real_type) == "Tensor" and i > 0 and i in pos]
    for i in tens[:2]:
        for k in ("int", "float", "bool"):
            out.append((f"{A[i].name} python {k}", {**full, i: "scalar:" + k}))
        if i == 1 and schema_name(schema) in SCALARS:
            for k in ("int", "float"):
                out.append((f"{A[i].name} symbolic {k}", {**full, i: "node:" + k}))
    nums = [i for i, a in enumerate(A) if str(a.real_type) in ("number", "int", "float") and i in pos]
    for i in nums[:2]:
        out.append((f"{A[i].name} bool", {**full, i: "scalar:bool"}))
    lists = [i for i, a in enumerate(A) if re.search(r"List\[(int|Optional\[Tensor\]|Tensor|float|bool|SymInt)\]", str(a.real_type))]
    for i in lists[:2]:
        out.append((f"{A[i].name} empty", {**full, i: "empty"}))
    return out


def program(p, target, mode, nodes, meta="val"):
    """Builds, imports and interprets; returns (got, expected, type errors)."""
    fx = core.fx()
    g = tfx.Graph()
    b = Build(p, g, nodes and "embedding_bag_forward_only" not in target._schema.name)
    schema = target._schema
    A = schema.arguments
    # the operator it becomes takes no None among its indices
    b.no_none = schema.name == "aten::_unsafe_index_put"
    b.many = "_local_scalar_dense" in schema.name
    args, kwargs, want = [], {}, []
    for i, a in enumerate(A):
        m = mode[i]
        rt = str(a.real_type)
        if m == "default":
            want.append(defaulted(a))
            continue
        if m.startswith("none"):
            v, w = None, None
            m = m[5:]
        elif m == "empty":
            v, w, m = immutable_list([]), [], "pos" if not a.kwarg_only else "kw"
        elif m.startswith("scalar") or m.startswith("node"):
            k = m.split(":")[1]
            v, w = b.scalar(k, m.startswith("node"))
            if rt == "Tensor":
                w = ("op", "torch.prim.NumToTensor.Scalar", 0, (w,))
            elif k == "bool":
                w = 1 * w if rt != "float" else core._real(w)
            m = "pos"
        else:
            v, w = b.value(rt, a.type)
        want.append(w)
        if m == "pos":
            args.append(v)
        else:
            kwargs[a.name] = v
    rets = [str(r.real_type) for r in schema.returns]
    if any(r not in RESULT for r in rets):
        raise Skip(str(rets))
    vals = [RESULT[r](b, i) for i, r in enumerate(rets)]
    if "_local_scalar_dense" in schema.name:
        t = b.phs[0][0].meta["val"]
        vals = [b.env.create_unbacked_symfloat() if t.dtype.is_floating_point else
                b.env.create_unbacked_symbool() if t.dtype is torch.bool else vals[0]]
    node = g.call_function(target, tuple(args), kwargs)
    outs, expect = [], []
    name, want = canonical(schema_name(schema), want, b)
    if len(rets) == 1:
        node.meta["val"] = vals[0]
        if isinstance(vals[0], torch.Tensor):
            node.meta["tensor_meta"] = tmeta(vals[0])
        if isinstance(vals[0], list):
            import operator

            for k in (1, 0):
                gi = g.call_function(operator.getitem, (node, k))
                gi.meta["val"] = vals[0][k]
                outs.append(gi)
                expect.append(("op", "getitem", k, (("op", name, 0, tuple(want)),)))
        else:
            v = core.NOTSCALAR
            if name in core.UNARY or name in core.SCALAR:
                try:
                    v = core.scalar_value(name, want)
                except TypeError:
                    raise Skip("operand kind")
            outs, expect = [node], [("op", name, 0, tuple(want)) if v is core.NOTSCALAR else v]
    elif len(rets) > 1:
        import operator

        node.meta["val"] = tuple(vals)
        for k in reversed(range(len(vals))):
            gi = g.call_function(operator.getitem, (node, k))
            gi.meta["val"] = vals[k]
            outs.append(gi)
            expect.append(("op", name, k, tuple(want)))
    else:
        raise Skip("no results")
    g.output(tuple(outs))
    ts = [vt(o.meta["val"]) for o in outs]
    imp = fx.FxImporter(context=mlirpy.Context())
    f = imp.import_stateless_graph(g, func_name="main")
    bad = []
    if [str(t) for t in f.type.inputs] != [t for _, _, t in b.phs]:
        bad.append(f"parameter types {f.type.inputs}")
    if [str(t) for t in f.type.results] != ts:
        bad.append(f"result types {f.type.results}, expected {ts}")
    ev = TypedEval(imp.module)
    ev.check_promoted = "NumToTensor" not in schema.name
    got = ev.call("main", [v for _, v, _ in b.phs])
    bad += ev.bad
    return [normal(x) for x in got], [normal(x) for x in expect], bad


class TypedEval(core.Eval):
    """Also checks the declared types of operation results and terminators."""

    def __init__(self, m):
        super().__init__(m)
        self.bad = []
        self.check_promoted = True

    def op(self, op, env):
        r = super().op(op, env)
        for v, x in zip(op.results, r):
            t = str(v.type)
            if isinstance(x, (bool, SymBool)):
                w = "!torch.bool"
            elif isinstance(x, (int, SymInt)):
                w = "!torch.int"
            elif isinstance(x, (float, SymReal)):
                w = "!torch.float"
            elif x is None:
                w = "!torch.none"
            else:
                w = None
            if w and t != w:
                self.bad.append(f"{op.name} declares {t} for a {w}")
            if op.name == "torch.prim.NumToTensor.Scalar" and self.check_promoted:
                a = env[id(op.operands[0])]
                d = "i1" if isinstance(a, (bool, SymBool)) else "f32" if core._isfloat(a) else "si64"
                if t != f"!torch.vtensor<[],{d}>":
                    self.bad.append(f"tensor of a python scalar declared {t}")
            if op.name == "torch.prim.ListConstruct":
                self.bad += list_type(t, x)
        if op.name == "func.return":
            f = op.block.owner
            ts = [str(o.type) for o in op.operands]
            if ts != [str(t) for t in f.type.results]:
                self.bad.append(f"returned values have types {ts}, the function declares {f.type.results}")
        return r


def list_type(t, xs):
    out = []
    for x in xs:
        k = ("bool" if isinstance(x, (bool, SymBool)) else "int" if isinstance(x, (int, SymInt))
             else "float" if core._isfloat(x) else "str" if isinstance(x, str) else None if x is None else "tensor")
        if k is None:
            if "optional" not in t:
                out.append(f"None in a {t}")
        elif k not in t:
            out.append(f"{k} in a {t}")
    return out


def run(name, label, mode, nodes, stats):
    """A decide() verdict; status "skip" where there is nothing to import."""
    target = overload(name)

    def body(p):
        got, want, bad = program(p, target, mode, nodes)
        if bad:
            raise Counterexample("; ".join(bad), p.model())
        core.prove_equal(p, got, want, f"imported as {str(got)[:260]}, expected {str(want)[:260]}")

    try:
        # a program that itself divides by zero has no meaning to preserve
        return decide(body, stats, f"{name}, {label}, {'symbolic scalars' if nodes else 'literals'}",
                      allow=(ZeroDivisionError,), max_paths=300, max_seconds=60)
    except Skip as e:
        return dict(status="skip", what=str(e))


def empty_baddbmm(p):
    """aten.empty feeding only baddbmm may become zeros (any content is allowed)."""
    fx = core.fx()
    g = tfx.Graph()
    b = Build(p, g, False)
    d, code = b.pick([torch.float32, torch.float16, torch.float64]), None
    code = codes.dtype_code(d)
    a, av = b.ph(fake(2))
    c, cv = b.ph(fake(4))
    size = [b.scalar("int") for _ in range(3)]
    n = g.call_function(torch.ops.aten.empty.memory_format, (immutable_list([s for s, _ in size]),),
                        dict(dtype=d, device=torch.device("cpu"), pin_memory=False))
    n.meta["val"] = fake(5)
    r = g.call_function(torch.ops.aten.baddbmm.default, (n, a, c), dict(beta=0))
    r.meta["val"] = fake(6)
    shared = p.choice(2)
    outs = (r, n) if shared else (r,)
    g.output(outs)
    imp = fx.FxImporter(context=mlirpy.Context())
    imp.import_stateless_graph(g, func_name="main")
    got = TypedEval(imp.module).call("main", [v for _, v, _ in b.phs])
    sz = [v for _, v in size]
    e = ("op", "torch.aten.empty.memory_format", 0, (sz, code, None, "cpu", False, None))
    z = ("op", "torch.aten.zeros", 0, (sz, code, None, "cpu", False))
    out = lambda x: ("op", "torch.aten.baddbmm", 0, (x, av, cv, 0, 1))
    return got, ([out(e)] + ([e] if shared else [])), ([out(z)] + ([z] if shared else []))
