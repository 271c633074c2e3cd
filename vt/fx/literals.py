"""Decoding of the tensor literals the importer records, and F06."""
import re
import types

import numpy as np
import torch
import torch.fx as tfx

from .. import mlirpy
from ..decide import Unsupported
from ..symex import Counterexample
from . import codes, core, ops

try:
    import ml_dtypes
except ImportError:
    ml_dtypes = None

# element types of literal attributes -> how their bytes decode
NP = {
    "f16": np.float16, "f32": np.float32, "f64": np.float64, "i1": np.bool_, "ui8": np.uint8, "si8": np.int8,
    "si16": np.int16, "si32": np.int32, "si64": np.int64, "complex<f32>": np.complex64, "complex<f64>": np.complex128,
}
if ml_dtypes is not None:
    NP.update({"bf16": ml_dtypes.bfloat16, "f8E5M2": ml_dtypes.float8_e5m2, "f8E4M3FN": ml_dtypes.float8_e4m3fn,
               "f8E5M2FNUZ": ml_dtypes.float8_e5m2fnuz, "f8E4M3FNUZ": ml_dtypes.float8_e4m3fnuz})


def bits(t):
    """The bytes of a torch tensor, row-major."""
    t = t.detach().contiguous()
    if t.numel() == 0:
        return b""
    return bytes(t.reshape(-1).view(torch.uint8).numpy().tobytes())


def expected(t):
    """Reference term of a tensor constant."""
    d = t.dtype
    if d is torch.bool:
        return ("op", "torch.prims.convert_element_type", 0,
                (("lit", "[" + ",".join(map(str, t.shape)) + "],ui8", bits(t.to(torch.uint8))), codes.dtype_code(torch.bool)))
    return ("lit", "[" + ",".join(map(str, t.shape)) + "]," + ops.MLIR_DTYPE[d], bits(t))


def same_elt(a, b):
    """Signless integers agree with either sign; otherwise the types are equal."""
    a, b = a.replace(" ", ""), b.replace(" ", "")
    return a == b or a[:1] == "i" and b in ("s" + a, "u" + a) or b[:1] == "i" and a in ("s" + b, "u" + b)


def decode(op):
    """Term of a torch.vtensor.literal; raises if attribute and type disagree."""
    t = str(op.results[0].type)
    if not t.startswith("!torch.vtensor<["):
        raise Counterexample(f"literal of type {t}", {})
    body = t[len("!torch.vtensor<"):-1].replace(" ", "")
    shape_s, _, elt = body.partition("],")
    shape = [int(x) for x in shape_s[1:].split(",") if x]
    a = op.attributes["value"]
    if a.kind == "dense":
        arr = a.array
        ashape = a.shape if a.shape is not None else list(arr.shape)
        aelt = str(a.type)
        data = np.ascontiguousarray(arr).tobytes()
        itemsize = arr.dtype.itemsize
    elif a.kind == "resource":
        m = str(a.type)
        dims, aelt = re.fullmatch(r"tensor<((?:[0-9]+x)*)(.*)>", m).groups()
        ashape = [int(x) for x in dims.split("x") if x]
        arr = np.asarray(a.data)
        data, itemsize = arr.tobytes(), arr.dtype.itemsize
    else:
        raise Unsupported(a.kind)
    if list(ashape) != shape:
        raise Counterexample(f"the attribute has shape {ashape}, the literal {shape}", {})
    if not same_elt(aelt, elt):
        raise Counterexample(f"the attribute has elements {aelt}, the literal {elt}", {})
    n = int(np.prod(shape)) if shape else 1
    if len(data) != n * itemsize:
        raise Counterexample(f"{len(data)} bytes for {n} elements", {})
    return ("lit", "[" + ",".join(map(str, shape)) + "]," + elt, data)


# ---------------------------------------------------------------- contents
# Elements are solver variables.  tolist() hands them out as exact python numbers
# (SymInt / SymReal / Pair), and the numpy stand-in below applies the conversion of
# astype(): integers wrap, floats that the target cannot represent are changed.

import math  # noqa: E402

import z3  # noqa: E402

from .. import symex  # noqa: E402
from ..symex import SymInt, SymReal, and_, ite  # noqa: E402

# format -> (precision in bits, emax, emin) of binary floats
FLOATS = {"f16": (11, 15, -14), "bf16": (8, 127, -126), "f32": (24, 127, -126), "f64": (53, 1023, -1022),
          "f8E5M2": (3, 15, -14), "f8E4M3FN": (4, 8, -6), "f8E5M2FNUZ": (3, 15, -15), "f8E4M3FNUZ": (4, 7, -7),
          "f8E8M0FNU": (1, 127, -127)}
INTS = {"ui8": (0, 255), "si8": (-128, 127), "si16": (-2**15, 2**15 - 1), "si32": (-2**31, 2**31 - 1),
        "si64": (-2**63, 2**63 - 1), "i1": (0, 1), "ui16": (0, 2**16 - 1), "ui32": (0, 2**32 - 1), "ui64": (0, 2**64 - 1)}
NPFMT = {np.dtype(t): k for k, t in NP.items()}
NPFMT.update({np.dtype(np.uint16): "ui16", np.dtype(np.uint32): "ui32", np.dtype(np.uint64): "ui64"})
if ml_dtypes is not None:
    NPFMT[np.dtype(ml_dtypes.float8_e8m0fnu)] = "f8E8M0FNU"


class Pair:
    """A complex element."""

    def __init__(self, re, im):
        self.re, self.im = re, im


def witness(src, dst):
    """A value of float format src that format dst cannot hold, or None."""
    ps, es, ms = FLOATS[src]
    pd, ed, md = FLOATS[dst]
    if ps > pd:
        return 1 + 2.0 ** (1 - ps)
    if es > ed:
        return 2.0 ** es
    if ms - ps < md - pd:
        return 2.0 ** (ms - ps + 1)
    if src in ("f8E8M0FNU",) and dst != src:
        return 2.0 ** ms if ms < md else None
    return None


def to_float(v, src, dst):
    w = witness(src, dst)
    if w is None:
        return v
    with np.errstate(all="ignore"):
        r = float(np.array([w]).astype(NP[dst])[0])
    if not math.isfinite(r):
        r = 2.0 ** 500
    return ite(v == w, r, v)


def convert(v, src, dst):
    """Value of element v (format src) after np.array([v]).astype(dst)."""
    if isinstance(v, Pair):
        if not dst.startswith("complex"):
            return convert(v.re, src[8:-1], dst)
        f = lambda x: to_float(x, src[8:-1], dst[8:-1])
        return Pair(f(v.re), f(v.im))
    if dst.startswith("complex"):
        return Pair(convert(v, src, dst[8:-1]), 0.0)
    if src in FLOATS and dst in FLOATS:
        return to_float(v, src, dst)
    if src in INTS and dst in INTS:
        (a, b), (c, d) = INTS[src], INTS[dst]
        if dst == "i1":
            return ite(v != 0, 1, 0)
        if c <= a and b <= d:
            return v
        n = d - c + 1
        return (v - c) % n + c
    if src in INTS:
        w = 2 ** FLOATS[dst][0] + 1
        (a, b) = INTS[src]
        return ite(v == w, w + 1.0, v) if b >= w else v
    raise Unsupported(f"conversion of {src} elements to {dst}")


class Elts:
    """numpy array of elements; `fmt` is the format the values were read from."""

    def __init__(self, flat, shape, fmt, dt):
        self.flat, self.shape, self.fmt, self.vtdt = flat, tuple(shape), fmt, dt

    size = property(lambda s: len(s.flat))
    ndim = property(lambda s: len(s.shape))
    dtype = property(lambda s: s.vtdt)
    nbytes = property(lambda s: len(s.flat) * s.vtdt.itemsize)

    def astype(self, t, *a, **k):
        t = np.dtype(t)
        f = NPFMT.get(t)
        if f is None:
            raise Unsupported(f"astype({t})")
        return Elts([convert(v, self.fmt, f) for v in self.flat], self.shape, f, t)

    def view(self, t=None):
        if t is None or np.dtype(t) == self.vtdt:
            return self
        raise Unsupported("view of another type")

    def reshape(self, *s):
        s = s[0] if len(s) == 1 and not isinstance(s[0], int) else s
        n = 1
        for d in s:
            n *= d
        if n == len(self.flat):
            return Elts(self.flat, s, self.fmt, self.vtdt)
        raise ValueError(f"cannot reshape {len(self.flat)} elements into {tuple(s)}")

    def flatten(self):
        return self.reshape(len(self.flat))

    ravel = flatten

    @property
    def T(self):
        if self.ndim < 2:
            return self
        idx = np.arange(len(self.flat)).reshape(self.shape).T
        return Elts([self.flat[i] for i in idx.reshape(-1)], idx.shape, self.fmt, self.vtdt)

    def transpose(self, *a):
        idx = np.arange(len(self.flat)).reshape(self.shape).transpose(*a)
        return Elts([self.flat[i] for i in idx.reshape(-1)], idx.shape, self.fmt, self.vtdt)

    def copy(self, *a, **k):
        return self

    def item(self):
        (x,) = self.flat
        return x

    def tobytes(self):
        raise Unsupported("bytes of symbolic elements")

    def __array__(self, *a, **k):
        raise Unsupported("numpy conversion of symbolic elements")


def _flatten(x):
    if isinstance(x, list):
        if not x:
            return [], (0,)
        parts = [_flatten(e) for e in x]
        return [v for f, _ in parts for v in f], (len(x), *parts[0][1])
    return [x], ()


class NpShim:
    """`numpy` of the importer; symbolic element lists become Elts."""

    def __getattr__(self, k):
        return getattr(np, k)

    def array(self, x, dtype=None, *a, **k):
        if isinstance(x, Elts):
            return x.astype(dtype) if dtype is not None else x
        if isinstance(x, (SymInt, SymReal, Pair)) or isinstance(x, list):
            flat, shape = _flatten(x)
            s = [v for v in flat if isinstance(v, (SymInt, SymReal, Pair, symex.SymBool))]
            if s:
                kind = "si64" if isinstance(s[0], SymInt) else "complex<f64>" if isinstance(s[0], Pair) else "f64"
                # the values are those of the tensor's format (tolist is exact)
                r = Elts(flat, shape, SymTensor.fmt, np.dtype(NP[kind]))
                return r.astype(dtype) if dtype is not None else r
        return np.array(x, *([dtype] if dtype is not None else []), *a, **k)

    asarray = ascontiguousarray = array


class SymTensor(torch.Tensor):
    """A tensor whose elements are solver variables."""

    @staticmethod
    def make(shape, dtype, elts):
        r = torch.Tensor._make_subclass(SymTensor, torch.zeros(shape, dtype=torch.float32).to(dtype))
        r.vt = elts
        SymTensor.fmt = ops.MLIR_DTYPE[dtype]
        return r

    def tolist(self):
        it = iter(self.vt)

        def go(s):
            return next(it) if not s else [go(s[1:]) for _ in range(s[0])]

        return go(tuple(self.shape))

    def item(self):
        (x,) = self.vt
        return x

    def to(self, *a, **k):
        d = k.get("dtype", a[0] if a else None)
        if d is torch.uint8 and self.dtype is torch.bool or d is self.dtype:
            return SymTensor.make(tuple(self.shape), d, self.vt)
        raise Unsupported("Tensor.to")

    def detach(self):
        return self

    contiguous = clone = cpu = detach

    def numpy(self):
        raise Unsupported("Tensor.numpy")

    def reshape(self, *a):
        raise Unsupported("Tensor.reshape")

    def __repr__(self):
        return f"SymTensor({tuple(self.shape)}, {self.dtype})"


def ask(p, shape, dtype):
    """(tensor, elements) with one variable per element."""
    n = int(np.prod(shape)) if shape else 1
    f = ops.MLIR_DTYPE[dtype]
    if f in INTS:
        vs = [p.int(f"e{i}", *INTS[f]) for i in range(n)]
    elif f.startswith("complex"):
        vs = [(p.real(f"e{i}"), p.real(f"f{i}")) for i in range(n)]
    else:
        vs = [p.real(f"e{i}") for i in range(n)]
    if getattr(p, "concrete", False):
        vs = [complex(*v) for v in vs] if f.startswith("complex") else vs
        base = torch.tensor(vs, dtype=dtype if f not in FLOATS or f in ("f64",) else torch.float64).to(dtype)
        return base.reshape(shape), vs
    vs = [Pair(*v) for v in vs] if f.startswith("complex") else vs
    return SymTensor.make(shape, dtype, vs), vs


def check_contents(p, shape, dtype, how):
    """One constant tensor with arbitrary elements."""
    fx = core.fx()
    if dtype in (torch.float8_e8m0fnu,) and not hasattr(ml_dtypes, "float8_e8m0fnu"):
        return
    t, vs = ask(p, shape, dtype)
    g = tfx.Graph()
    gm = tfx.GraphModule(torch.nn.Module(), tfx.Graph())
    g.owning_module = gm
    if how == "attr":
        gm.k = t
        n = g.get_attr("k")
        n.meta["val"] = ops.fake(0)
        g.output((n, n))
        sig = None
    else:
        n = g.placeholder("c")
        n.meta["val"] = ops.fake(0)
        y = g.call_function(torch.ops.aten.abs.default, (n,))
        y.meta["val"] = ops.fake(0)
        g.output((y,))
    imp = fx.FxImporter(context=mlirpy.Context())
    old, fx.np = fx.np, NpShim()
    try:
        if how == "attr":
            n.meta["val"] = ops_fake_like(shape, dtype)
            imp.import_stateless_graph(g, func_name="main")
        else:
            import_const(imp, g, n, t, how)
    finally:
        fx.np = old
    f = [o for o in imp.module.body.operations if o.name == "func.func"][0]
    lits = [o for o in f.entry_block.operations if o.name == "torch.vtensor.literal"]
    if len(lits) < 1:
        raise Counterexample("no literal was created", p.model())
    want = "ui8" if dtype is torch.bool else ops.MLIR_DTYPE[dtype]
    for o in lits:
        if getattr(p, "concrete", False):
            got = decode(o)
            src = t.to(torch.uint8) if dtype is torch.bool else t
            w = ("lit", "[" + ",".join(map(str, shape)) + "]," + want, bits(src))
            if got != w:
                raise Counterexample(f"the literal is {got}, the tensor {w}", p.model())
            continue
        ty = str(o.results[0].type)
        if ty != "!torch.vtensor<[" + ",".join(map(str, shape)) + f"],{want}>":
            raise Counterexample(f"literal of type {ty} for a {dtype} tensor of shape {shape}", p.model())
        check_elements(p, o.attributes["value"], want, shape, vs)
    cv = [o for o in f.entry_block.operations if o.name == "torch.prims.convert_element_type"]
    if bool(cv) != (dtype is torch.bool):
        raise Counterexample("conversion of the literal", p.model())


def check_elements(p, a, want, shape, vs):
    arr = a.array if a.kind == "dense" else a.data
    if not isinstance(arr, Elts):
        if len(vs) == 0:
            return
        raise Counterexample("the literal does not depend on the elements", p.model())
    if a.kind == "dense":
        ashape = a.shape if a.shape is not None else arr.shape
        aelt = str(a.type)
    else:
        m = str(a.type)
        dims, aelt = re.fullmatch(r"tensor<((?:[0-9]+x)*)(.*)>", m).groups()
        ashape = [int(x) for x in dims.split("x") if x]
    if list(ashape) != list(shape) or not same_elt(aelt, want):
        raise Counterexample(f"attribute of shape {ashape} and elements {aelt}", p.model())
    if NPFMT[arr.vtdt] != want and not same_elt(NPFMT[arr.vtdt], want):
        raise Counterexample(f"buffer of {arr.vtdt} for elements {want}", p.model())
    if len(arr.flat) != len(vs):
        raise Counterexample(f"{len(arr.flat)} elements for {len(vs)}", p.model())
    eq = []
    for x, y in zip(arr.flat, vs):
        eq += [x.re == y.re, x.im == y.im] if isinstance(y, Pair) else [x == y]
    p.prove(and_(*eq, True), "contents of the literal")


def ops_fake_like(shape, dtype):
    ops.fake(0)
    with ops._mode:
        return torch.empty(shape, dtype=dtype)


def import_const(imp, g, n, t, how):
    from torch.export.graph_signature import (ExportGraphSignature, InputKind, InputSpec, OutputKind, OutputSpec,
                                              TensorArgument)

    n.meta["val"] = ops_fake_like(tuple(t.shape), t.dtype)
    out = list(g.nodes)[-1].args[0]
    kind = {"param": InputKind.PARAMETER, "buffer": InputKind.BUFFER, "const": InputKind.CONSTANT_TENSOR}[how.split("-")[0]]
    sd, cs = ({}, {"t": t}) if kind is InputKind.CONSTANT_TENSOR else ({"t": t}, {})
    prog = types.SimpleNamespace(graph=g, range_constraints={}, state_dict=sd, constants=cs)
    prog.graph_signature = ExportGraphSignature(
        [InputSpec(kind, TensorArgument(n.name), "t", persistent=True if kind is InputKind.BUFFER else None)],
        [OutputSpec(OutputKind.USER_OUTPUT, TensorArgument(o.name), None) for o in out])
    if how.endswith("-frozen"):
        imp.import_frozen_program(prog, func_name="main")
    else:
        imp.import_program(prog, func_name="main")


# ---------------------------------------------------------------- histories

FRESH = [lambda k: torch.tensor([1.5, -2.0, 3.0]) + k, lambda k: torch.tensor([[7, 9], [11, 13]]) + k,
         lambda k: torch.tensor(5 + k, dtype=torch.int32), lambda k: torch.tensor([1.5, -2.0, 3.0]) + k,
         lambda k: torch.tensor([True, False, k % 2 == 0])]


def check_history(p, n, shared, how):
    """n programs with one constant each, imported one after the other; constants
    are new tensors or ones still alive, and die or live on."""
    from .hops import use_ids

    fx = core.fx()
    tracker = fx.RefTracker() if shared else None
    live, imps = [], []
    imp = None
    with use_ids(p, n):
        for k in range(n):
            if imp is None or shared and p.choice(2):
                imp = fx.FxImporter(context=mlirpy.Context(), py_attr_tracker=tracker)
            c = p.choice(2 + len(live))
            t = FRESH[0 if c == 0 else 1 + k % 4](k) if c < 2 else live[c - 2]
            old = c >= 2
            want = bits(t.to(torch.uint8)) if t.dtype is torch.bool else bits(t)
            shape = "[" + ",".join(map(str, t.shape)) + "]," + ("ui8" if t.dtype is torch.bool else ops.MLIR_DTYPE[t.dtype])
            g = tfx.Graph()
            g.owning_module = tfx.GraphModule(torch.nn.Module(), tfx.Graph())
            ph = g.placeholder("c")
            y = g.call_function(torch.ops.aten.abs.default, (ph,))
            y.meta["val"] = ops_fake_like(tuple(t.shape), t.dtype)
            g.output((y,))
            import_named(imp, g, ph, t, how, f"main{k}")
            imps.append((imp, f"main{k}", ("lit", shape, want)))
            if not old and p.choice(2):
                live.append(t)
            g.owning_module = None
            del t, g, ph, y
    for imp, name, want in imps:
        f = [o for o in imp.module.body.operations if o.name == "func.func" and o.sym_name == name][0]
        (o,) = [o for o in f.entry_block.operations if o.name == "torch.vtensor.literal"]
        got = decode(o)
        core.prove_equal(p, [got], [want], f"{name}: the literal is {got}, the tensor was {want}")


def import_named(imp, g, n, t, how, name):
    real = imp.import_program, imp.import_frozen_program

    class Named:
        def import_program(self, prog, func_name):
            return real[0](prog, func_name=name)

        def import_frozen_program(self, prog, func_name):
            return real[1](prog, func_name=name)

    import_const(Named(), g, n, t, how)


def check_uses(p, dtype):
    """A constant read through get_attr by several operators and by the output."""
    fx = core.fx()
    ops.fake(0)
    t = (torch.arange(4) - 1).to(dtype)
    w = expected(t)
    g = tfx.Graph()
    gm = tfx.GraphModule(torch.nn.Module(), tfx.Graph())
    g.owning_module = gm
    gm.k = t
    fk = ops_fake_like((4,), dtype)
    x = g.placeholder("x")
    x.meta["val"] = fk

    def call(op, *a):
        r = g.call_function(op, a)
        r.meta["val"] = fk
        return r

    c = g.get_attr("k")
    c.meta["val"] = fk
    d = c
    dd = p.choice(2)
    if dd:
        d = g.get_attr("k")
        d.meta["val"] = fk
    y = call(torch.ops.aten.mul.Tensor, x, c)
    use = [p.choice(2) for _ in range(4)]
    outs, want = [y], [("op", "torch.aten.mul.Tensor", 0, (("in", "x"), w))]
    if use[0]:
        y = call(torch.ops.aten.maximum.default, d, y)
        outs.append(y)
        want.append(("op", "torch.aten.maximum", 0, (w, want[-1])))
    if use[1]:
        outs.append(call(torch.ops.aten.cat.default, tfx.immutable_collections.immutable_list([x, c, d])))
        want.append(("op", "torch.aten.cat", 0, ([("in", "x"), w, w], 0)))
    if use[2]:
        outs.append(call(torch.ops.aten.index.Tensor, x, tfx.immutable_collections.immutable_list([d])))
        want.append(("op", "torch.aten.index.Tensor", 0, (("in", "x"), [w])))
    if use[3]:
        outs.append(d)
        want.append(w)
    g.output(tuple(outs))
    imp = fx.FxImporter(context=mlirpy.Context())
    imp.import_stateless_graph(g, func_name="main")
    ev = ops.TypedEval(imp.module)
    ev.literal = decode
    got = ev.call("main", [("in", "x")])
    if ev.bad:
        raise Counterexample("; ".join(ev.bad), p.model())
    core.prove_equal(p, [ops.normal(v) for v in got], want, f"{got}, expected {want}")


DTYPES = [d for d in ops.MLIR_DTYPE if d not in (torch.complex32, torch.float4_e2m1fn_x2)]
SHAPES = [(), (1,), (2,), (1, 1), (2, 3), (3, 2), (0,), (2, 0), (1, 2, 2)]


def cases(tier):
    out = []
    hows = ["attr", "param", "buffer", "const", "param-frozen", "const-frozen"]
    for i, d in enumerate(DTYPES):
        for j, s in enumerate(SHAPES):
            for k, h in enumerate(hows):
                if tier != "quick" or (i + j + k) % 3 == 0:
                    out.append(("contents", s, d, h))
    for d in (torch.float32, torch.int64, torch.bool, torch.float16):
        out.append(("uses", d))
    for h in ("const", "param-frozen"):
        for sh in (False, True):
            out.append(("history", 3 if tier == "quick" else 4, sh, h))
    return out


def run(p, c):
    {"contents": check_contents, "uses": check_uses, "history": check_history}[c[0]](p, *c[1:])
