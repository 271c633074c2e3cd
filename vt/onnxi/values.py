"""O03: attributes and tensor data keep their values."""
import numpy as np
import onnx

from .. import mlirpy
from ..fx import literals as L
from ..symex import Counterexample, and_
from . import core

T = onnx.TensorProto
A = onnx.AttributeProto
# data type -> field holding its elements, format of that field, format of the element
TYPED = {
    T.FLOAT: ("float_data", "f32", "f32"), T.BOOL: ("int32_data", "si32", "i1"), T.UINT8: ("int32_data", "si32", "ui8"),
    T.INT8: ("int32_data", "si32", "si8"), T.INT16: ("int32_data", "si32", "si16"), T.INT32: ("int32_data", "si32", "si32"),
    T.INT64: ("int64_data", "si64", "si64"), T.DOUBLE: ("double_data", "f64", "f64"), T.UINT32: ("uint64_data", "ui64", "ui32"),
    T.UINT64: ("uint64_data", "ui64", "ui64"),
}
# refused today; if accepted, the elements must be right
REFUSED = {T.UINT16: ("int32_data", "si32", "ui16")}
WIDTH = {T.FLOAT16: 2, T.BFLOAT16: 2, T.UINT16: 2, T.COMPLEX64: 8, T.COMPLEX128: 16, T.FLOAT8E4M3FN: 1, T.FLOAT8E4M3FNUZ: 1,
         T.FLOAT8E5M2: 1, T.FLOAT8E5M2FNUZ: 1, T.FLOAT: 4, T.BOOL: 1, T.UINT8: 1, T.INT8: 1, T.INT16: 2, T.INT32: 4, T.INT64: 8,
         T.DOUBLE: 8, T.UINT32: 4, T.UINT64: 8}
SHAPES = [(), (2,), (0,), (1, 3), (2, 2), (2, 0)]
PLACES = ["initializer", "constant", "attribute", "list"]


def cases(tier):
    out = []
    for i, d in enumerate(list(TYPED) + list(REFUSED)):
        for j, s in enumerate(SHAPES):
            for k, pl in enumerate(PLACES):
                if tier != "quick" or (i + j + k) % 2 == 0:
                    out.append(("typed", d, s, pl))
    for i, d in enumerate(WIDTH):
        for j, s in enumerate(SHAPES):
            for k, pl in enumerate(PLACES):
                if tier != "quick" or (i + j + k) % 3 == 0:
                    out.append(("raw", d, s, pl))
    for a in ("INT", "FLOAT", "STRING", "INTS", "FLOATS", "STRINGS"):
        for b in ("INT", "FLOAT", "STRING", "INTS", "FLOATS", "STRINGS"):
            out.append(("attr", a, b, ""))
    for a in ("UNDEFINED", "SPARSE_TENSOR", "TYPE_PROTO", "GRAPHS", "SPARSE_TENSORS", "TYPE_PROTOS"):
        out.append(("bad", a, "", ""))
    return out


def elements(p, fmt, n, tag):
    if fmt in L.INTS:
        return [p.int(f"{tag}{i}", *L.INTS[fmt]) for i in range(n)]
    vs = [p.real(f"{tag}{i}") for i in range(n)]
    if getattr(p, "concrete", False):
        vs = [float(np.array([v]).astype(L.NP[fmt])[0]) for v in vs]
    return vs


def fill(p, S, t, how, d, shape, tag):
    """Data of tensor message t; the reference elements (or bytes)."""
    t.data_type = d
    t.dims.extend(shape)
    n = int(np.prod(shape)) if shape else 1
    if how == "raw":
        b = bytes((37 * i + 11 + len(tag)) % 2 if d == T.BOOL else (37 * i + 11) % 251 for i in range(n * WIDTH[d]))
        t.raw_data = b
        return b
    f, src, dst = TYPED.get(d) or REFUSED[d]
    vs = elements(p, dst, n, tag)
    getattr(t, f).extend(vs)
    if not S.concrete:
        L.SymTensor.fmt = src
    return vs


SIGNLESS = {"ui": "i", "si": "i"}


def check_dense(p, a, d, shape, want, what):
    elt = core.ELT[d]
    if a.kind == "resource":
        if str(a.type).replace(" ", "") != "tensor<" + "".join(f"{x}x" for x in shape) + elt + ">":
            raise Counterexample(f"{what}: attribute of type {a.type}", p.model())
        data = a.data if isinstance(a.data, (bytes, bytearray)) else bytes(np.asarray(a.data).tobytes())
        if isinstance(want, (bytes, bytearray)):
            if bytes(data) != bytes(want):
                raise Counterexample(f"{what}: other bytes than raw_data", p.model())
            return
        raise Counterexample(f"{what}: typed data as a resource", p.model())
    if a.kind != "dense":
        raise Counterexample(f"{what}: {a.kind}", p.model())
    arr = a.array
    got_shape = list(a.shape) if a.shape is not None else list(arr.shape)
    if got_shape != list(shape) or list(arr.shape) != list(shape) and a.shape is None:
        raise Counterexample(f"{what}: shape {got_shape}, expected {list(shape)}", p.model())
    fmt = arr.fmt if isinstance(arr, L.Elts) else L.NPFMT[arr.dtype]
    ae = str(a.type) if a.type is not None else ("i" + fmt[2:] if a.signless and fmt[:2] in ("si", "ui") else fmt)
    if ae != elt:
        raise Counterexample(f"{what}: elements of type {ae}, the tensor has {elt}", p.model())
    if isinstance(want, (bytes, bytearray)):
        if np.ascontiguousarray(arr).tobytes() != bytes(want):
            raise Counterexample(f"{what}: other elements than raw_data", p.model())
        return
    vs = list(arr.flat) if isinstance(arr, L.Elts) else list(np.asarray(arr).reshape(-1))
    if len(vs) != len(want):
        raise Counterexample(f"{what}: {len(vs)} elements, expected {len(want)}", p.model())
    for i, (x, y) in enumerate(zip(vs, want)):
        p.prove(bool(x == y) if S_concrete(p) else x == y, f"{what}: element {i}")


def S_concrete(p):
    return getattr(p, "concrete", False)


def run(p, case):
    how, a, b, place = case
    with core.Setting(p) as S:
        M = S.m
        if not S.concrete:
            old, M.np = M.np, L.NpShim()
        try:
            if how in ("typed", "raw"):
                tensor(p, S, how, a, b, place)
            elif how == "attr":
                attrs(p, S, a, b)
            else:
                bad(p, S, a)
        finally:
            if not S.concrete:
                M.np = old


def start(S):
    m = S.onnx.ModelProto()
    m.ir_version = 8
    m.opset_import.add().version = 17
    m.graph.name = "main"
    return m


def import_(S, m):
    M = S.m
    mi = M.ModelInfo(m)
    mod = mi.create_module(mlirpy.Context()).operation
    M.NodeImporter.define_function(mi.main_graph, mod).import_all()
    (f,) = mod.regions[0].blocks[0].operations
    return f


def tensor(p, S, how, d, shape, place):
    m = start(S)
    g = m.graph
    # two tensors, so that they could be exchanged
    other = (3,) if shape != (3,) else (2,)
    ts = []
    if place == "initializer":
        for i, s in enumerate((shape, other)):
            t = g.initializer.add()
            t.name = ("a.b/c", "2 d")[i]
            ts.append((fill(p, S, t, how, d, s, f"e{i}_"), s))
    elif place == "constant":
        for i, s in enumerate((shape, other)):
            n = g.node.add()
            n.op_type = "Constant"
            n.output.append(f"c{i}")
            at = n.attribute.add()
            at.name, at.type = "value", A.TENSOR
            at.t.name = "x"
            ts.append((fill(p, S, at.t, how, d, s, f"e{i}_"), s))
    else:
        n = g.node.add()
        n.op_type = "Op"
        if place == "list":
            at = n.attribute.add()
            at.name, at.type = "ts", A.TENSORS
            for i, s in enumerate((shape, other)):
                t = at.tensors.add()
                ts.append((fill(p, S, t, how, d, s, f"e{i}_"), s))
        else:
            for i, s in enumerate((shape, other)):
                at = n.attribute.add()
                at.name, at.type = f"t{i}", A.TENSOR
                at.t.name = "y"
                ts.append((fill(p, S, at.t, how, d, s, f"e{i}_"), s))
    try:
        f = import_(S, m)
    except S.m.OnnxImportError:
        if how == "typed" and d in REFUSED:
            return
        raise
    ops = [o for o in f.entry_block.operations if o.name == "torch.operator"]
    if place in ("initializer", "constant"):
        if len(ops) != 2:
            raise Counterexample(f"{len(ops)} operations for two constants", p.model())
        for i, o in enumerate(ops):
            if o.attributes["name"].value != "onnx.Constant":
                raise Counterexample("a constant that is not onnx.Constant", p.model())
            s = ts[i][1]
            p.prove(core.same_type(S.type_of(o.result.type), ("vtensor", tuple(s), core.ELT[d])), f"type {o.result.type} of constant {i}")
            check_dense(p, o.attributes["torch.onnx.value"], d, s, ts[i][0], f"constant {i}")
    else:
        (o,) = ops
        for i in range(2):
            a = o.attributes["torch.onnx.ts"].value[i] if place == "list" else o.attributes[f"torch.onnx.t{i}"]
            check_dense(p, a, d, ts[i][1], ts[i][0], f"tensor attribute {i}")


KIND = {"INT": "i", "FLOAT": "f", "STRING": "s", "INTS": "ints", "FLOATS": "floats", "STRINGS": "strings"}


def attrs(p, S, a, b):
    m = start(S)
    n = m.graph.node.add()
    n.op_type = "Op"
    want = []
    for i, k in enumerate((a, b)):
        at = n.attribute.add()
        at.name, at.type = ("alpha", "beta")[i], getattr(A, k)
        cnt = 1 if not k.endswith("S") else p.choice(4)
        if k.startswith("INT"):
            vs = [p.int(f"a{i}_{j}", -2**63, 2**63 - 1) for j in range(cnt)]
        elif k.startswith("FLOAT"):
            vs = elements(p, "f32", cnt, f"a{i}_")
        else:
            vs = [b"s%d%d" % (i, j) for j in range(cnt)]
        if k.endswith("S"):
            getattr(at, KIND[k]).extend(vs)
        else:
            setattr(at, KIND[k], vs[0])
        want.append(vs)
    f = import_(S, m)
    (o,) = [o for o in f.entry_block.operations if o.name == "torch.operator"]
    extra = set(o.attributes) - {"name", "torch.onnx.alpha", "torch.onnx.beta"}
    if extra:
        raise Counterexample(f"attributes {sorted(extra)}", p.model())
    for k, nm, vs in zip((a, b), ("alpha", "beta"), want):
        r = o.attributes.get("torch.onnx." + nm)
        if r is None:
            raise Counterexample(f"attribute {nm} is missing", p.model())
        xs = r.value if k.endswith("S") else [r]
        if (r.kind == "array") != k.endswith("S") or len(xs) != len(vs):
            raise Counterexample(f"attribute {nm}: {r}", p.model())
        for x, v in zip(xs, vs):
            if k.startswith("INT"):
                ok = x.kind == "int" and str(x.type) == "si64"
            elif k.startswith("FLOAT"):
                ok = x.kind == "float" and str(x.type) == "f32"
            else:
                ok, v = x.kind == "str", v.decode()
            if not ok:
                raise Counterexample(f"attribute {nm}: {x}", p.model())
            c = x.value == v
            p.prove(c, f"value of attribute {nm}")


def bad(p, S, k):
    """Attributes the importer cannot represent are refused."""
    m = start(S)
    n = m.graph.node.add()
    n.op_type = "Op"
    at = n.attribute.add()
    at.name, at.type = "a", getattr(A, k)
    try:
        import_(S, m)
    except S.m.OnnxImportError:
        return
    raise Counterexample(f"an attribute of type {k} is dropped without an error", p.model())
