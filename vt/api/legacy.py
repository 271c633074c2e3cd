"""A03: the deprecated TorchDynamo importer binds operator calls faithfully."""
import operator
import sys

import torch
import torch.fx as tfx
from torch.fx.immutable_collections import immutable_list

from .. import instr, mlirpy
from ..fx import codes, core, ops
from ..symex import Counterexample

_m = None
GOOD = {torch.float16: "f16", torch.bfloat16: "bf16", torch.float32: "f32", torch.float64: "f64", torch.uint8: "ui8", torch.int8: "si8",
        torch.int16: "si16", torch.int32: "si32", torch.int64: "si64", torch.bool: "i1", torch.complex64: "complex<f32>",
        torch.complex128: "complex<f64>"}


def legacy():
    global _m
    if _m is None:
        core.fx()
        t = sys.modules["torch_mlir.dialects.torch"]
        T = mlirpy.Type.parse

        def const(name, ty, attr=True):
            def f(*a, **k):
                return mlirpy.Operation.create(name, results=[T(ty)], attributes={"value": a[0]} if attr else None)
            return f

        t.ConstantNoneOp = const("torch.constant.none", "!torch.none", False)
        t.ConstantBoolOp = const("torch.constant.bool", "!torch.bool")
        t.ConstantIntOp = const("torch.constant.int", "!torch.int")
        t.ConstantFloatOp = const("torch.constant.float", "!torch.float")
        t.ConstantStrOp = const("torch.constant.str", "!torch.str")
        t.ConstantDeviceOp = const("torch.constant.device", "!torch.Device")
        t.PrimListConstructOp = lambda ty, els: mlirpy.Operation.create("torch.prim.ListConstruct", results=[ty], operands=els)
        mlirpy.Context.current = mlirpy.DEFAULT
        _m = instr.load_module("torch_mlir._dynamo_fx_importer", "projects/pt1/python/torch_mlir/_dynamo_fx_importer.py")
    return _m


def modes(schema):
    return [(l, m) for l, m in ops.modes(schema) if not any(x.startswith(("scalar", "node")) for x in m.values())]


class B(ops.Build):
    def scalar(self, kind, node=None):
        return super().scalar(kind, False)

    def value(self, rt, jt):
        if rt == "ScalarType":
            d = self.pick([torch.float64] + list(GOOD))
            return d, codes.dtype_code(d)
        if rt == "Layout":
            d = self.pick([torch.strided, torch.sparse_coo, torch.sparse_csr, torch.sparse_csc, torch.sparse_bsr, torch.sparse_bsc])
            return d, codes.layout_code(d)
        return super().value(rt, jt)


def names(n):
    """Registered operators this importer accepts."""
    out = []
    for name in sorted(mlirpy.registered_ops()):
        try:
            s = ops.overload(name)._schema
        except Exception:
            continue
        if s.returns and all(str(r.type) == "Tensor" for r in s.returns) and not any(
                ops.UNSUPPORTED.search(str(a.real_type)) or "number" in str(a.real_type).replace("number", "number", 1) and
                str(a.real_type).startswith("List") for a in s.arguments):
            out.append(name)
    return out


def cases(tier):
    mlirpy.install()
    ns = names(0)
    k = 16 if tier == "quick" else 8
    out = [("calls", tuple(ns[i:i + k])) for i in range(0, len(ns), k)]
    out += [("graph", n, k) for n in (0, 1, 2) for k in (1, 2)]
    return out


def imported(p, g, want_in, want_out):
    L = legacy()
    with mlirpy.Context():
        m = L.import_fx_graph_as_func(g, "f")
    ev = ops.TypedEval(m)
    f = ev.funcs["f"]
    bad = []
    if [str(t) for t in f.type.inputs] != want_in:
        bad.append(f"parameter types {f.type.inputs}, expected {want_in}")
    if [str(t) for t in f.type.results] != want_out:
        bad.append(f"result types {f.type.results}, expected {want_out}")
    if m.operation.attributes["torch.debug_module_name"].value != "f":
        bad.append("wrong module name")
    return ev, bad


def call(p, name, label, mode):
    target = ops.overload(name)
    schema = target._schema
    g = tfx.Graph()
    b = B(p, g, False)
    args, kwargs, want = [], {}, []
    for i, a in enumerate(schema.arguments):
        m = mode[i]
        if m == "default":
            want.append(ops.defaulted(a))
            continue
        if m.startswith("none"):
            v = w = None
            m = m[5:]
        elif m == "empty":
            v, w, m = immutable_list([]), [], "pos" if not a.kwarg_only else "kw"
        else:
            v, w = b.value(str(a.real_type), a.type)
        want.append(w)
        if m == "pos":
            args.append(v)
        else:
            kwargs[a.name] = v
    node = g.call_function(target, tuple(args), kwargs)
    n = len(schema.returns)
    vals = [ops.fake(20 + i) for i in range(n)]
    full = ops.schema_name(schema)
    outs, expect = [node], [("op", full, 0, tuple(want))]
    node.meta["val"] = vals[0]
    if n > 1:
        node.meta["val"] = tuple(vals)
        outs, expect = [], []
        for k in reversed(range(n)):
            gi = g.call_function(operator.getitem, (node, k))
            gi.meta["val"] = vals[k]
            outs.append(gi)
            expect.append(("op", full, k, tuple(want)))
    g.output(tuple(outs))
    ev, bad = imported(p, g, [t for _, _, t in b.phs], [ops.vt(o.meta["val"]) for o in outs])
    ev.check_promoted = "NumToTensor" not in name
    got = ev.call("f", [v for _, v, _ in b.phs])
    bad += ev.bad
    if bad:
        raise Counterexample(f"{name}, {label}: " + "; ".join(bad), p.model())
    core.prove_equal(p, got, expect, f"{name}, {label}: imported as {str(got)[:260]}, expected {str(expect)[:260]}")


def graph(p, n, k):
    """Wiring of several operations with several results."""
    a = torch.ops.aten
    g = tfx.Graph()
    ph = []
    for i in range(n):
        x = g.placeholder(f"x{i}")
        x.meta["val"] = ops.fake(i)
        ph.append(x)
    vals = [(x, ("in", i)) for i, x in enumerate(ph)]
    if not vals:
        x = g.call_function(a.ones.default, ([2],))
        x.meta["val"] = ops.fake(7)
        vals.append((x, ("op", "torch.aten.ones", 0, ([2], None, None, None, None))))
    for j in range(k):
        kind = p.choice(3, f"kind{j}")
        u, v = (vals[p.choice(len(vals), f"u{j}")] for _ in range(2))
        if kind == 0:
            x = g.call_function(a.maximum.default, (u[0], v[0]))
            x.meta["val"] = ops.fake(10 + j)
            vals.append((x, ("op", "torch.aten.maximum", 0, (u[1], v[1]))))
        elif kind == 1:
            x = g.call_function(a.cat.default, ([u[0], v[0]],))
            x.meta["val"] = ops.fake(10 + j)
            vals.append((x, ("op", "torch.aten.cat", 0, ([u[1], v[1]], 0))))
        else:
            x = g.call_function(a.max_pool2d_with_indices.default, (u[0], [3, 3]))
            x.meta["val"] = (ops.fake(10 + j), ops.fake(14 + j))
            for q in p.choice(2, f"order{j}") and (0, 1) or (1, 0):
                y = g.call_function(operator.getitem, (x, q))
                y.meta["val"] = x.meta["val"][q]
                vals.append((y, ("op", "torch.aten.max_pool2d_with_indices", q, (u[1], [3, 3], [], [0, 0], [1, 1], False))))
    outs = [vals[p.choice(len(vals), "out0")], vals[-1]][:1 + p.choice(2, "outs")]
    g.output(tuple(x for x, _ in outs))
    ev, bad = imported(p, g, [ops.vt(x.meta["val"]) for x in ph], [ops.vt(x.meta["val"]) for x, _ in outs])
    got = ev.call("f", [("in", i) for i in range(n)])
    bad += ev.bad
    if bad:
        raise Counterexample("; ".join(bad), p.model())
    core.prove_equal(p, got, [t for _, t in outs], f"imported as {got}, expected {[t for _, t in outs]}")


def run(p, case):
    if case[0] == "graph":
        return graph(p, *case[1:])
    name = case[1][p.choice(len(case[1]), "operator")]
    ms = modes(ops.overload(name)._schema)
    label, mode = ms[p.choice(len(ms), "mode")]
    try:
        call(p, name, label, mode)
    except ops.Skip:
        pass
