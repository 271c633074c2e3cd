"""F03: python scalar arithmetic captured in a graph."""
import operator
import traceback

import torch
import torch.fx as tfx
from torch.fx.experimental.symbolic_shapes import ShapeEnv

from .. import mlirpy
from ..symex import (BoundExceeded, Counterexample, Inconclusive, PathAbort, Stats, SymBool, SymInt, SymReal,
                     and_, explore, valuate)
from . import core

BIN = ["truediv", "mul", "add", "sub", "lt", "le", "ge", "ne", "gt", "mod", "eq", "floordiv"]
DIVS = ("truediv", "mod", "floordiv")


def sym(kind, env):
    if kind == "int":
        return env.create_unbacked_symint()
    return env.create_unbacked_symfloat()


def leaf(p, name, kind):
    return p.int(name, -2**20, 2**20) if kind == "int" else p.real(name)


def ref(op, a, b=None):
    if op == "neg":
        return -a
    if op == "truediv":
        return core._real(a) / core._real(b)
    if op == "mod":
        return core._pymod(a, b)
    if op == "floordiv":
        if core._isfloat(a) or core._isfloat(b):
            a, b = core._real(a), core._real(b)
        return a // b
    return getattr(operator, op)(a, b)


def kind_of(x):
    if isinstance(x, (bool, SymBool)):
        return "bool"
    if isinstance(x, (float, SymReal)):
        return "float"
    return "int"


MLIR = {"int": "!torch.int", "float": "!torch.float", "bool": "!torch.bool"}
CONVERT_FAIL = object()


def program(p, shape):
    """shape: list of (op, operand spec, operand spec); an operand spec is
    ("ph", kind) | ("lit", kind) | ("res", i).  Returns (emitted, expected)."""
    fx = core.fx()
    env = ShapeEnv()
    g = tfx.Graph()
    vals, nodes, phs = {}, [], []
    n = 0
    pend = []
    # placeholders first
    for i, (op, *ops) in enumerate(shape):
        for j, o in enumerate(ops):
            if o[0] == "ph":
                ph = g.placeholder(f"p{i}_{j}")
                ph.meta["val"] = sym(o[1], env)
                v = leaf(p, f"p{i}_{j}", o[1])
                vals[ph] = v
                phs.append((ph, v))
    it = iter(phs)
    for i, (op, *ops) in enumerate(shape):
        args, av = [], []
        for j, o in enumerate(ops):
            if o[0] == "ph":
                ph, v = next(it)
                args.append(ph)
                av.append(v)
            elif o[0] == "lit":
                v = leaf(p, f"c{i}_{j}", o[1])
                args.append(v)
                av.append(v)
            else:
                args.append(nodes[o[1]])
                av.append(vals[nodes[o[1]]])
        if op in DIVS:
            p.assume(av[1] != 0)
        r = ref(op, *av)
        nd = g.call_function(getattr(operator, op), tuple(args))
        k = kind_of(r)
        nd.meta["val"] = (env.create_unbacked_symbool() if k == "bool" else sym(k, env))
        vals[nd] = r
        nodes.append(nd)
    out = tuple(nodes)
    g.output(out)
    imp = fx.FxImporter(context=mlirpy.Context())
    f = imp.import_stateless_graph(g, func_name="main")
    ev = core.Eval(imp.module)
    try:
        got = ev.call("main", [v for _, v in phs])
    except TypeError as e:
        got = e
    types = [str(t) for t in f.type.results]
    return got, [vals[n] for n in nodes], types, [v for _, v in phs]


def describe(shape, vals):
    return f"{shape} values {vals}"


def run(shape, stats):
    """Returns (status, detail)."""
    res = {}

    def body(p):
        try:
            got, want, types, _ = program(p, shape)
        except (PathAbort, BoundExceeded, Inconclusive, Counterexample, core.Unsupported):
            raise
        except Exception as e:
            res.setdefault("raise", (f"{type(e).__name__}: {e}", p.model()))
            return
        stats.reached += 1
        if isinstance(got, Exception):
            raise Counterexample(f"the emitted operations are ill-typed: {got}", p.model())
        for i, (a, b) in enumerate(zip(got, want)):
            if types[i] != MLIR[kind_of(b)]:
                raise Counterexample(f"result {i} has type {types[i]}, the value is a python {kind_of(b)}", p.model())
            p.prove(core.equal(a, b), f"result {i} of {shape}")

    stats, cex = explore(body, max_paths=400, stats=stats, max_seconds=60)
    if cex:
        return "cex", cex[0].what, cex[0].model
    if "raise" in res:
        return ("raise",) + res["raise"]
    return "ok", "", None


def concrete(shape, model):
    """Replays on the real importer with plain python numbers."""

    class P:
        def int(self, n, lo, hi):
            return model[n]

        def real(self, n):
            return float(model[n])

        def assume(self, c):
            pass

    got, want, types, ins = program(P(), shape)
    return got, want, types, ins


def shapes(tier):
    out = []
    for op in BIN:
        for ka in ("int", "float"):
            for kb in ("int", "float"):
                for sa, sb in (("ph", "ph"), ("ph", "lit"), ("lit", "ph")):
                    out.append([(op, (sa, ka), (sb, kb))])
    for ka in ("int", "float"):
        out.append([("neg", ("ph", ka))])
    # second operations over results of the first; shared operands
    second = ["add", "mul", "sub", "floordiv", "lt", "truediv"]
    firsts = ["add", "mul", "floordiv", "truediv", "sub"] if tier != "quick" else ["mul", "truediv", "floordiv"]
    for o1 in firsts:
        for o2 in second if tier != "quick" else ["add", "lt", "sub"]:
            for k in ("int", "float"):
                out.append([(o1, ("ph", "int"), ("ph", "int")), (o2, ("res", 0), ("ph", k))])
                out.append([(o1, ("ph", "int"), ("lit", "int")), (o2, ("ph", k), ("res", 0))])
                out.append([(o1, ("ph", "int"), ("lit", "int")), (o2, ("lit", k), ("res", 0)), ("sub", ("res", 0), ("ph", "float"))])
    return out


def differ(got, want, types):
    """Concrete confirmation that a replayed program went wrong."""
    for a, b, t in zip(got, want, types):
        if t != MLIR[kind_of(b)] or kind_of(a) != kind_of(b):
            return True
        if isinstance(b, float):
            if abs(a - b) > 1e-6 * max(1.0, abs(b)):
                return True
        elif a != b:
            return True
    return False
