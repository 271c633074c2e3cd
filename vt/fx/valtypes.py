"""F05: the type each value gets: shape, element type, mutability, sparse encoding.

Static sizes are solver variables that print as tokens, so the produced type text
is read back as an expression over them.
"""
import re
import types

import torch
import torch.fx as tfx
from torch._subclasses.fake_tensor import FakeTensor
from torch.fx.passes.shape_prop import TensorMetadata

from .. import mlirpy, symex
from ..decide import Unsupported
from ..symex import Counterexample, and_
from . import core, ops


class tokens:
    """While active, symbolic integers print as <<k>>; `read` maps text back.  With
    `same`, equal integers print alike (equality is decided, paths fork)."""

    def __init__(self, same=False):
        self.same = same

    def __enter__(self):
        self.known = []

        def text(x):
            if isinstance(x, int):
                return str(x)
            for i, y in enumerate(self.known):
                if x.e.eq(y.e) or self.same and bool(x == y):
                    return f"\u27ea{i}\u27eb"
            self.known.append(x)
            return f"\u27ea{len(self.known) - 1}\u27eb"

        self.old, symex.TEXT = symex.TEXT, text
        return self

    def __exit__(self, *a):
        symex.TEXT = self.old

    def read(self, s):
        m = re.fullmatch("\u27ea([0-9]+)\u27eb", s)
        if m:
            return self.known[int(m.group(1))]
        if re.fullmatch("-?[0-9]+", s):
            return int(s)
        return None


class Duck(FakeTensor):
    """A fake tensor whose description is given, sizes included."""

    @staticmethod
    def __new__(cls, d):
        r = torch.Tensor._make_wrapper_subclass(cls, (1,), dtype=torch.float32, device="cpu")
        object.__setattr__(r, "vt", d)
        return r

    def __init__(self, d):
        pass

    def size(self, i=None):
        return self.vt.shape if i is None else self.vt.shape[i]

    shape = property(lambda s: s.vt.shape)
    dtype = property(lambda s: s.vt.dtype)
    layout = property(lambda s: s.vt.layout)
    ndim = property(lambda s: len(s.vt.shape))
    is_sparse = property(lambda s: s.vt.layout is torch.sparse_coo)
    is_sparse_csr = property(lambda s: s.vt.layout is torch.sparse_csr)
    requires_grad = property(lambda s: False)

    def dim(self):
        return len(self.vt.shape)

    def stride(self, *a):
        raise Unsupported("strides")

    def numel(self):
        n = 1
        for d in self.vt.shape:
            n = n * d
        return n

    def sparse_dim(self):
        return self.vt.sparse_dim

    def dense_dim(self):
        return self.vt.dense_dim

    def _index(self, *layouts):
        if self.vt.layout not in layouts:
            raise RuntimeError("no such index on this layout")
        return types.SimpleNamespace(dtype=self.vt.index)

    def _indices(self):
        return self._index(torch.sparse_coo)

    def crow_indices(self):
        return self._index(torch.sparse_csr, torch.sparse_bsr)

    def col_indices(self):
        return self._index(torch.sparse_csr, torch.sparse_bsr)

    def ccol_indices(self):
        return self._index(torch.sparse_csc, torch.sparse_bsc)

    def row_indices(self):
        return self._index(torch.sparse_csc, torch.sparse_bsc)

    def values(self):
        d = self.vt
        b = len(d.shape) - d.sparse_dim - d.dense_dim
        v = (*d.shape[:b], d.nnz, *(d.block or ()), *d.shape[b + d.sparse_dim:])
        return types.SimpleNamespace(shape=v, dtype=d.dtype, ndim=len(v), size=lambda i=None: v if i is None else v[i],
                                     dim=lambda: len(v))

    def __repr__(self):
        return f"Duck({self.vt.dtype}, {self.vt.layout})"

    def __hash__(self):
        return id(self)

    def __eq__(self, o):
        return self is o


def duck(shape, dtype, layout=torch.strided, **k):
    return Duck(types.SimpleNamespace(shape=tuple(shape), dtype=dtype, layout=layout,
                                      **{"sparse_dim": 0, "dense_dim": 0, "block": None, "nnz": 3, "index": None, **k}))


# ------------------------------------------------------------------- dense


def read_tensor(t, tok):
    """(mutable, [size or None], element type, encoding or None) of a tensor type's text."""
    m = re.fullmatch(r"!torch\.(v?)tensor<\[([^\]]*)\],(.*)>", t)
    if not m:
        return None
    dims = []
    for x in m.group(2).split(",") if m.group(2) else []:
        v = None if x == "?" else tok.read(x)
        if v is None and x != "?":
            return None
        dims.append(v)
    elt, _, enc = m.group(3).partition(",#")
    return m.group(1) == "", dims, elt, "#" + enc if enc else None


def match(p, t, want, tok, what):
    """The type text `t` describes `want` = (mutable, [size or None], element type)."""
    got = read_tensor(str(t), tok)
    if got is None:
        raise Counterexample(f"{what}: unreadable type {t}", p.model())
    if (got[0], [d is None for d in got[1]], got[2]) != (want[0], [d is None for d in want[1]], want[2]):
        raise Counterexample(f"{what}: type {t}, expected mutable={want[0]}, sizes {want[1]}, elements {want[2]}", p.model())
    p.prove(and_(*[a == b for a, b in zip(got[1], want[1]) if b is not None], True), f"{what}: sizes in {t}, expected {want[1]}")
    return got


def ask_dims(p, k, n, env):
    dims, want = [], []
    for i in range(n):
        if p.choice(2):
            dims.append(env.create_unbacked_symint())
            want.append(None)
        else:
            v = p.int(f"n{k}_{i}", 0, 2**62)
            dims.append(v)
            want.append(v)
    return dims, want


def meta_of(p, shape, dtype, val, how):
    tm = TensorMetadata(torch.Size(()) if not shape else tuple(shape), dtype, False, (), None, False, {})
    if how == 0:
        return dict(val=val)
    if how == 1:
        return dict(val=val, tensor_meta=tm)
    return dict(tensor_meta=tm)


def check_dense(p, r1, r2, d1, d2, entry):
    """Two values of one program, described by `val` and/or `tensor_meta`."""
    fx = core.fx()
    with tokens() as tok:
        env = ops.ShapeEnv()
        g = tfx.Graph()
        wants, nodes = [], []
        for k, (r, d) in enumerate(((r1, d1), (r2, d2))):
            dims, w = ask_dims(p, k, r, env)
            how = p.choice(3) if entry == "graph" else p.choice(2)
            x = g.placeholder(f"x{k}")
            x.meta.update(meta_of(p, dims, d, duck(dims, d), how))
            nodes.append(x)
            wants.append((w, ops.MLIR_DTYPE[d]))
        # an operator's value is described by the other one's metadata
        y = g.call_function(torch.ops.aten.add.Tensor, (nodes[0], nodes[1]))
        y.meta.update(nodes[1].meta)
        mut = entry == "mutable"
        g.output((y, nodes[1]))
        g.owning_module = tfx.GraphModule(torch.nn.Module(), tfx.Graph())
        imp = fx.FxImporter(context=mlirpy.Context())
        if entry == "graph":
            imp.import_stateless_graph(g, func_name="main")
        else:
            from torch.export.graph_signature import (ExportGraphSignature, InputKind, InputSpec, OutputKind,
                                                      OutputSpec, TensorArgument)
            ta = lambda n: TensorArgument(n.name)
            prog = types.SimpleNamespace(graph=g, range_constraints={}, state_dict={}, constants={})
            o = [OutputSpec(OutputKind.USER_INPUT_MUTATION if mut else OutputKind.USER_OUTPUT, ta(y), "x0" if mut else None),
                 OutputSpec(OutputKind.USER_OUTPUT, ta(nodes[1]), None)]
            prog.graph_signature = ExportGraphSignature([InputSpec(InputKind.USER_INPUT, ta(n), None) for n in nodes], o)
            imp.import_frozen_program(prog, func_name="main") if entry == "frozen" else imp.import_program(prog, func_name="main")
        f = [o for o in imp.module.body.operations if o.name == "func.func"][0]
        for k, t in enumerate(f.type.inputs):
            match(p, t, (mut and k == 0, *wants[k]), tok, f"parameter {k}")
        rs = [wants[1]] if mut else [wants[1], wants[1]]
        if len(f.type.results) != len(rs):
            raise Counterexample(f"{len(f.type.results)} results", p.model())
        for t, w in zip(f.type.results, rs):
            match(p, t, (False, *w), tok, "function result")
        for o in f.entry_block.operations:
            if o.name == "torch.aten.add.Tensor":
                match(p, o.results[0].type, (False, *wants[1]), tok, "operator result")
                if str(o.operands[1].type) != str(f.type.inputs[1]):
                    raise Counterexample("operand type", p.model())
                match(p, o.operands[0].type, (False, *wants[0]), tok, "operand, the first parameter's value")


# ------------------------------------------------------------------ sparse

LAYOUTS = {"coo": torch.sparse_coo, "csr": torch.sparse_csr, "csc": torch.sparse_csc, "bsr": torch.sparse_bsr,
           "bsc": torch.sparse_bsc}


def expect_levels(layout, batch, sparse, dense, block, d):
    """Levels of the storage PyTorch documents, outermost first, as (coordinate, kind)
    over the index `d`: PyTorch stores the block of a BSR/BSC tensor row-major,
    values have shape (*batch, nnz, *block, *dense)."""
    out = [(d[i], "batch") for i in range(batch)]
    s = d[batch:batch + sparse]
    if layout == "coo":
        for k, x in enumerate(s):
            last = k == sparse - 1
            if k == 0:
                out.append((x, "compressed(nonunique)"))
            else:
                out.append((x, "singleton(soa)" if last else "singleton(nonunique,soa)"))
    elif layout in ("csr", "csc"):
        a, b = s if layout == "csr" else reversed(s)
        out += [(a, "dense"), (b, "compressed")]
    else:
        m, n = block
        rows, cols = (s[0] // m, "dense"), (s[1] // n, "compressed")
        if layout == "bsc":
            rows, cols = (s[0] // m, "compressed"), (s[1] // n, "dense")
        out += [rows, cols] if layout == "bsr" else [cols, rows]
        out += [(s[0] % m, "dense"), (s[1] % n, "dense")]
    return out + [(x, "dense") for x in d[batch + sparse:]]


def split(s):
    out, depth, cur = [], 0, ""
    for ch in s:
        depth += ch in "(<" and 1 or ch in ")>" and -1 or 0
        if ch == "," and not depth:
            out.append(cur)
            cur = ""
        else:
            cur += ch
    return out + [cur] if cur else out


def read_encoding(enc, tok, d):
    """([(coordinate, kind)], posWidth, crdWidth) applied to the index `d`."""
    m = re.fullmatch(r"#sparse_tensor\.encoding<\{map=\(([^)]*)\)->\((.*)\),posWidth=([0-9]+),crdWidth=([0-9]+)\}>", enc)
    if not m:
        raise Unsupported(f"encoding {enc}")
    names = m.group(1).split(",")
    if len(names) != len(d) or len(set(names)) != len(names):
        raise Counterexample(f"the encoding has {len(names)} dimensions for a tensor of rank {len(d)}", {})
    env = dict(zip(names, d))
    out = []
    for lv in split(m.group(2)):
        e, _, kind = lv.partition(":")
        q = re.fullmatch("(\\w+?)(floordiv|mod)(.+)", e)
        if q and q.group(1) in env:
            c = tok.read(q.group(3))
            if c is None:
                raise Unsupported(lv)
            out.append((env[q.group(1)] // c if q.group(2) == "floordiv" else env[q.group(1)] % c, kind))
        elif e in env:
            out.append((env[e], kind))
        else:
            raise Counterexample(f"unknown dimension in {lv}", {})
    return out, int(m.group(3)), int(m.group(4))


def check_sparse(p, layout, batch, sparse, dense, index, dtype):
    fx = core.fx()
    with tokens() as tok:
        r = batch + sparse + dense
        shape = [p.int(f"n{i}", 1, 2**40) for i in range(r)]
        block = None
        if layout in ("bsr", "bsc"):
            block = (p.int("bm", 1, 2**20), p.int("bn", 1, 2**20))
        val = duck(shape, dtype, LAYOUTS[layout], sparse_dim=sparse, dense_dim=dense, block=block, index=index,
                   nnz=p.int("nnz", 0, 2**40))
        g = tfx.Graph()
        how, at = p.choice(2), p.choice(2)
        # a dense tensor of the same sizes and element type, before or after it
        vals = [val, duck(shape, dtype)]
        xs = []
        for k in (at, 1 - at):
            x = g.placeholder(f"x{k}")
            x.meta.update(meta_of(p, shape, dtype, vals[k], how))
            xs.append(x)
        g.output(tuple(xs))
        imp = fx.FxImporter(context=mlirpy.Context())
        imp.import_stateless_graph(g, func_name="main")
        f = [o for o in imp.module.body.operations if o.name == "func.func"][0]
        t, dense_t = f.type.inputs[at], f.type.inputs[1 - at]
        if match(p, dense_t, (False, shape, ops.MLIR_DTYPE[dtype]), tok, "dense parameter")[3] is not None:
            raise Counterexample(f"a dense tensor became sparse: {dense_t}", p.model())
        got = match(p, t, (False, shape, ops.MLIR_DTYPE[dtype]), tok, "parameter")
        if got[3] is None:
            raise Counterexample(f"a {layout} tensor became dense: {t}", p.model())
        d = [p.int(f"i{i}", 0, 2**40) for i in range(r)]
        lv, pw, cw = read_encoding(got[3], tok, d)
        want = expect_levels(layout, batch, sparse, dense, block, d)
        if [k for _, k in lv] != [k for _, k in want]:
            raise Counterexample(f"levels {[k for _, k in lv]}, expected {[k for _, k in want]} ({got[3]})", p.model())
        w = torch.iinfo(index).bits
        if (pw, cw) != (w, w):
            raise Counterexample(f"position/coordinate widths {pw}/{cw}, the indices have {w} bits", p.model())
        p.prove(and_(*[a == b for (a, _), (b, _) in zip(lv, want)], True), f"coordinates of the levels of {got[3]}")


def cases(tier):
    out = []
    ds = list(ops.MLIR_DTYPE)
    for i, d in enumerate(ds):
        for e in ("graph", "program", "frozen", "mutable"):
            k = ["graph", "program", "frozen", "mutable"].index(e)
            pairs = [(ds[(i + 1 + k) % len(ds)], (i + k) % 3, (i + k) % 3)]
            pairs.append((d, (i + k) % 3, (i + k + 1) % 3))
            if tier != "quick":
                pairs += [(x, a, b) for x in ds for a, b in ((2, 2), (1, 1), (3, 2), (0, 0))]
            for d2, r1, r2 in pairs:
                out.append(("dense", r1, r2, d, d2, e))
    for l in LAYOUTS:
        for batch in (0, 1, 2) if l != "coo" else (0,):
            for s in ((2, 3, 4) if l == "coo" else (2,)):
                for dense in (0, 1, 2):
                    for ix in (torch.int32, torch.int64):
                        out.append(("sparse", l, batch, s, dense, ix, ds[(batch + s + dense) % len(ds)]))
    return out


def run(p, c):
    {"dense": check_dense, "sparse": check_sparse}[c[0]](p, *c[1:])
