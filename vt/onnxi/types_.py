"""O01: the type each ONNX value gets."""
import onnx

from .. import mlirpy
from ..symex import Counterexample
from . import core

KINDS = ["t0", "t1", "t2", "t3", "unranked", "list", "optional", "optlist", "listunranked", "none"]


def cases(tier):
    els = sorted(core.ELT)
    out = []
    for e in els:
        out.append(("one", e, "t2"))
    ks = KINDS if tier != "quick" else ["t1", "t2", "unranked", "list", "optional", "optlist"]
    for a in ks:
        for b in ks:
            if (a, b) != ("none", "none"):
                out.append(("two", a, b))
    if tier != "quick":
        out += [("one", e, k) for e in els for k in KINDS if k not in ("t2", "none")]
    return out


def tensor(p, S, tp, e, rank, tag):
    tt = tp.tensor_type
    tt.elem_type = e
    if rank is None:
        return
    tt.shape.SetInParent()
    if not S.concrete:
        tt._mark("shape")
    for i in range(rank):
        d = tt.shape.dim.add()
        k = p.choice(3)
        if k == 0:
            d.dim_value = p.int(f"{tag}{i}", 0, 2**62)
        elif k == 1:
            d.dim_param = "N"


def make(p, S, tp, e, kind, tag):
    if kind == "none":
        return
    if kind[0] == "t":
        tensor(p, S, tp, e, int(kind[1]), tag)
    elif kind == "unranked":
        tensor(p, S, tp, e, None, tag)
    elif kind == "list":
        tensor(p, S, tp.sequence_type.elem_type, e, p.choice(3), tag)
    elif kind == "listunranked":
        tensor(p, S, tp.sequence_type.elem_type, e, None, tag)
    elif kind == "optional":
        tensor(p, S, tp.optional_type.elem_type, e, p.choice(2), tag)
    elif kind == "optlist":
        tensor(p, S, tp.optional_type.elem_type.sequence_type.elem_type, e, 1, tag)


def run(p, case):
    how, a, b = case
    if how == "one":
        ts = [(a, b), (a, b)]
    else:
        e = onnx.TensorProto.DataType
        ts = [(e.FLOAT, a), ((e.FLOAT, e.INT64)[p.choice(2)], b)]
    with core.Setting(p) as S:
        O = S.onnx
        m = O.ModelProto()
        m.ir_version = 8
        o = m.opset_import.add()
        o.version = 17
        g = m.graph
        g.name = "g"
        protos = []
        for i, (e, k) in enumerate(ts):
            v = g.input.add()
            v.name = f"x{i}"
            v.type.SetInParent()
            if not S.concrete:
                v._mark("type")
            make(p, S, v.type, e, k, f"d{i}_")
            protos.append(v.type)
            for nm, where in ((f"y{i}", g.value_info), (f"z{i}", g.output)):
                w = where.add()
                w.name = nm
                w.type.CopyFrom(v.type)
        for i in range(2):
            n = g.node.add()
            n.op_type = "Op"
            n.input.append(f"x{i}")
            n.output.append(f"y{i}")
            n = g.node.add()
            n.op_type = "Op"
            n.input.append(f"y{i}")
            n.output.append(f"z{i}")
        M = S.m
        mi = M.ModelInfo(m)
        mod = mi.create_module(mlirpy.Context()).operation
        M.NodeImporter.define_function(mi.main_graph, mod).import_all()
        (f,) = mod.regions[0].blocks[0].operations
        want = [core.want_type(t) for t in protos]
        ops = [x for x in f.entry_block.operations if x.name == "torch.operator"]
        got = [("function parameter", f.type.inputs), ("entry block argument", [v.type for v in f.entry_block.arguments]),
               ("function result", f.type.results),
               ("inner value", [ops[0].results[0].type, ops[2].results[0].type]),
               ("output value", [ops[1].results[0].type, ops[3].results[0].type])]
        for what, gs in got:
            if len(gs) != 2:
                raise Counterexample(f"{len(gs)} of {what}", p.model())
            for i in range(2):
                p.prove(core.same_type(S.type_of(gs[i]), want[i]),
                        f"{what} {i} has type {S.type_of(gs[i])}, the model declares {want[i]}")
