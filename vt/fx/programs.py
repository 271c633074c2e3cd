"""F07: whole exported programs - which function argument, constant, buffer or
parameter each placeholder becomes, what is returned, and which mutations reach
the caller.

Buffers live in a memory that the importer's hooks read and write with
operations of their own; the recorded function is run on that memory and on
uninterpreted tensors, and compared with the functional meaning of the graph.
"""
import operator
import types

import torch
import torch.fx as tfx
from torch.export.graph_signature import (ConstantArgument, ExportGraphSignature, InputKind, InputSpec, OutputKind,
                                          OutputSpec, SymIntArgument, TensorArgument)

from .. import mlirpy
from ..symex import Counterexample
from . import core, literals, ops

# name -> kind of placeholder
INPUTS = {
    "p": "param", "a": "buffer", "b": "buffer_np", "c": "const", "x": "user", "k": "constarg", "s": "symint", "y": "user",
}
ORDERS = [list("pabcxksy"), list("yksxcbap"), list("xapsykbc")]
# new values of inputs/buffers, by name of node; n1, n2 are the operators, g0/g1 the parts of a pair
MUTATIONS = [
    {}, {"x": "n1"}, {"x": "y"}, {"x": "g0"}, {"y": "g1", "x": "n1"}, {"x": "y", "y": "x"}, {"x": "c"}, {"y": "a"}, {"x": "p"},
    {"a": "n1"}, {"a": "x"}, {"a": "b"}, {"a": "c"}, {"b": "a", "a": "x"}, {"a": "b", "b": "a"}, {"a": "n1", "x": "n2"},
    {"b": "g1", "a": "n1"}, {"a": "n2", "b": "n1"}, {"a": "p", "y": "n1"}, {"b": "n2", "x": "a"}, {"a": "y", "x": "g0"},
]
OUTPUTS = [["n2"], ["K", "n1"], ["x", "n1", "K"], ["a", "K", "n2"], ["s", "n2", "n2"], ["g1", "a", "x"], []]
OPERANDS = [("x", "y"), ("a", "x"), ("c", "b"), ("p", "a"), ("b", "p"), ("n", "s")]
LATE = ["a", "x", "b", "n"]


class Mem(ops.TypedEval):
    def __init__(self, m, mem):
        super().__init__(m)
        self.mem = mem
        self.literal = literals.decode

    def op(self, op, env):
        if op.name == "vt.load":
            return [self.mem[op.attributes["target"].value]]
        if op.name == "vt.store":
            v = env[id(op.operands[0])]
            self.mem[op.attributes["target"].value] = v
            return []
        return super().op(op, env)


def hooks(loads):
    fx = core.fx()

    class H(fx.FxImporterHooks):
        def resolve_input(self, gni, value, info):
            k = info.input_spec.kind
            if not loads or k != InputKind.BUFFER:
                return None
            return mlirpy.Operation.create("vt.load", results=[info.ir_type],
                                           attributes={"target": mlirpy.StringAttr.get(info.input_spec.target)}).result

        def store_produced_value(self, gni, py_value, value, info):
            mlirpy.Operation.create("vt.store", operands=[value],
                                    attributes={"target": mlirpy.StringAttr.get(info.input_spec.target)})

    return H()


def build(p, order, ab, late, muts, outs, kk):
    g = tfx.Graph()
    gm = torch.fx.GraphModule(torch.nn.Module(), tfx.Graph())
    g.owning_module = gm
    node, term, val = {}, {}, {}
    state = {"p": torch.tensor([1.5, -2.0]), "a": torch.tensor([[3, 4, 5]]), "b": torch.tensor([True, False, True]),
             "c": torch.tensor(7.25, dtype=torch.float64)}
    specs = []
    env = ops.ShapeEnv()
    k = [p.int("k", -2**62, 2**62), p.real("k"), p.boolean("k"), "txt", None][kk]
    state_dict, constants = {}, {}
    user = []
    for i, n in enumerate(order):
        kind = INPUTS[n]
        nd = g.placeholder(n)
        node[n] = nd
        if kind in ("param", "buffer", "buffer_np", "const"):
            t = state[n]
            with ops._mode:
                nd.meta["val"] = torch.empty(t.shape, dtype=t.dtype)
            term[n] = literals.expected(t)
            tgt = "m." + n
            if kind == "param":
                state_dict[tgt] = t
                specs.append(InputSpec(InputKind.PARAMETER, TensorArgument(n), tgt))
            elif kind == "buffer":
                state_dict[tgt] = t
                specs.append(InputSpec(InputKind.BUFFER, TensorArgument(n), tgt, persistent=True))
            elif kind == "buffer_np":
                constants[tgt] = t
                specs.append(InputSpec(InputKind.BUFFER, TensorArgument(n), tgt, persistent=False))
            else:
                constants[tgt] = t
                specs.append(InputSpec(InputKind.CONSTANT_TENSOR, TensorArgument(n), tgt))
        elif kind == "user":
            nd.meta["val"] = ops.fake(i)
            term[n] = ("in", n)
            specs.append(InputSpec(InputKind.USER_INPUT, TensorArgument(n), None))
            user.append(n)
        elif kind == "symint":
            nd.meta["val"] = env.create_unbacked_symint()
            term[n] = p.int("s", 0, 2**40)
            specs.append(InputSpec(InputKind.USER_INPUT, SymIntArgument(n), None))
            user.append(n)
        else:
            nd.meta["val"] = k
            term[n] = k
            specs.append(InputSpec(InputKind.USER_INPUT, ConstantArgument(n, k), None))

    def op(n, target, name, args, terms, v):
        r = g.call_function(target, args)
        r.name = n
        r.meta["val"] = v
        node[n] = r
        term[n] = ("op", name, 0, terms)

    A, B = ab
    if A == "n":
        op("n1", torch.ops.aten.select.int, "torch.aten.select.int", (node["a"], 0, node["s"]),
           (term["a"], 0, term["s"]), ops.fake(10))
    else:
        op("n1", torch.ops.aten.minimum.default, "torch.aten.minimum", (node[A], node[B]), (term[A], term[B]), ops.fake(10))
    L = "n1" if late == "n" else late
    op("n2", torch.ops.aten.maximum.default, "torch.aten.maximum", (node[L], node["n1"]), (term[L], term["n1"]), ops.fake(11))
    pair = g.call_function(torch.ops.aten.sort.default, (node["n1"], 0))
    v = (ops.fake(12), ops.fake(13))
    pair.meta["val"] = v
    for i in (1, 0):
        r = g.call_function(operator.getitem, (pair, i))
        r.name = f"g{i}"
        r.meta["val"] = v[i]
        node[f"g{i}"] = r
        term[f"g{i}"] = ("op", "torch.aten.sort", i, (term["n1"], 0, False))
    ospecs, onodes = [], []
    for tgt, src in sorted(muts.items()):
        # the exported program lists mutations first, and each value once
        onodes.append(node[src])
        if INPUTS[tgt] == "user":
            ospecs.append(OutputSpec(OutputKind.USER_INPUT_MUTATION, TensorArgument(node[src].name), node[tgt].name))
        else:
            ospecs.append(OutputSpec(OutputKind.BUFFER_MUTATION, TensorArgument(node[src].name), "m." + tgt))
    want = []
    for o in outs:
        if o == "K":
            onodes.append(k)
            ospecs.append(OutputSpec(OutputKind.USER_OUTPUT, ConstantArgument("", k), None))
            want.append(k)
        elif o == "s":
            onodes.append(node["s"])
            ospecs.append(OutputSpec(OutputKind.USER_OUTPUT, SymIntArgument("s"), None))
            want.append(term["s"])
        else:
            onodes.append(node[o])
            ospecs.append(OutputSpec(OutputKind.USER_OUTPUT, TensorArgument(node[o].name), None))
            want.append(term[o])
    g.output(tuple(onodes))
    prog = types.SimpleNamespace(graph=g, state_dict=state_dict, constants=constants, range_constraints={},
                                 graph_signature=ExportGraphSignature(specs, ospecs))
    return prog, node, term, user, want, onodes, state


def valid(muts):
    srcs = list(muts.values())
    return len(set(srcs)) == len(srcs)


def types_of(user, node, mutable):
    return [ops.vt(node[n].meta["val"], n in mutable) for n in user]


def check_program(p, order, muts):
    ops.fake(0)
    ab = OPERANDS[p.choice(len(OPERANDS))]
    late = LATE[p.choice(len(LATE))]
    outs = OUTPUTS[p.choice(len(OUTPUTS))]
    kk = p.choice(5) if "K" in outs else 0
    loads = bool(p.choice(2)) if any(t in "ab" for t in muts) or "a" in ab else False
    prog, node, term, user, want, onodes, state = build(p, order, ab, late, muts, outs, kk)
    fx = core.fx()
    if loads:
        # the graph's meaning over memory: a buffer's node is its content on entry
        sub = {n: ("in", "mem:" + n) for n in "ab"}
    else:
        sub = {}

    def s(t):
        if isinstance(t, tuple) and t and t[0] == "op":
            for n in sub:
                if t == term[n]:
                    return sub[n]
            return ("op", t[1], t[2], tuple(s(x) for x in t[3]))
        for n in sub:
            if isinstance(t, tuple) and t == term[n]:
                return sub[n]
        return t

    imp = fx.FxImporter(context=mlirpy.Context(), hooks=hooks(loads))
    # what the graph says, before the importer rewrites anything
    mutable = [t for t in muts if INPUTS[t] == "user"]
    final = {t: s(term[v]) for t, v in muts.items()}
    f = imp.import_program(prog, func_name="main")
    ins = types_of(user, node, mutable)
    if [str(t) for t in f.type.inputs] != ins:
        raise Counterexample(f"parameter types {f.type.inputs}, expected {ins}", p.model())
    mem = {"m." + n: ("in", "mem:" + n) for n in "ab"}
    ev = Mem(imp.module, mem)
    cells = {n: core.Cell(term[n]) for n in mutable}
    got = ev.call("main", [cells.get(n, term[n]) for n in user])
    if ev.bad:
        raise Counterexample("; ".join(ev.bad), p.model())
    for n in mutable:
        if cells[n].writes != 1:
            raise Counterexample(f"argument {n} is written {cells[n].writes} times", p.model())
    end = lambda m, c: [["results", *m], *([n, c[n]] for n in [*mutable, "a", "b"])]
    have = end([ops.normal(x) for x in got], {**{n: cells[n].value for n in mutable}, **{n: mem["m." + n] for n in "ab"}})
    should = end([s(x) for x in want], {**{n: ("in", "mem:" + n) for n in "ab"}, **final})
    core.prove_equal(p, have, should, f"results and final contents of arguments and buffers {have}, expected {should}")


def check_frozen(p, order, muts):
    """The frozen entry point: every graph output is returned, state is constant."""
    ops.fake(0)
    ab = OPERANDS[p.choice(len(OPERANDS))]
    late = LATE[p.choice(len(LATE))]
    outs = OUTPUTS[p.choice(len(OUTPUTS))]
    kk = p.choice(5)
    prog, node, term, user, want, onodes, state = build(p, order, ab, late, muts, outs, kk)
    fx = core.fx()
    imp = fx.FxImporter(context=mlirpy.Context())
    params = [n for n in order if INPUTS[n] in ("user", "symint", "constarg")]
    metas = {n: node[n].meta["val"] for n in params}
    back = {node[n]: n for n in node}
    expect = [term[back[o]] if isinstance(o, tfx.Node) else o for o in onodes]
    f = imp.import_frozen_program(prog, func_name="main")
    ins = [ops.vt(metas[n]) for n in params]
    if [str(t) for t in f.type.inputs] != ins:
        raise Counterexample(f"parameter types {f.type.inputs}, expected {ins}", p.model())
    ev = Mem(imp.module, {})
    got = ev.call("main", [term[n] for n in params])
    if ev.bad:
        raise Counterexample("; ".join(ev.bad), p.model())
    core.prove_equal(p, [ops.normal(x) for x in got], expect, f"returned values {got}, expected {expect}")
