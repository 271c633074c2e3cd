"""O02: nodes, operands, results, regions, initializers and outputs keep their places.

Names are solver variables: which input refers to which value is decided by
equality of names, and all equality patterns are explored.
"""
from .. import mlirpy
from ..symex import Counterexample, PathAbort
from . import core

# programs: inputs, initializers, nodes (inputs, outputs, subgraph), outputs; a
# subgraph is (inputs, initializers, nodes, outputs)
CASES = {
    "chain": (2, 1, [(1, 1, []), (2, 1, [])], 1),
    "pair": (1, 0, [(1, 2, []), (2, 1, [])], 1),
    "elide": (2, 2, [(2, 1, [])], 1),
    "constant": (1, 1, [("C", 1, []), (2, 1, [])], 2),
    "constants": (1, 0, [("C", 1, []), (1, 1, []), (2, 1, [])], 1),
    "many": (2, 0, [(3, 1, [])], 1),
    "empty": (2, 1, [], 2),
    "region": (1, 1, [(1, 1, []), (0, 1, [(1, 0, [(1, 1, [])], 1)])], 1),
    "regions": (1, 0, [(1, 1, [(0, 0, [(1, 1, [])], 1), (1, 1, [], 1)]), (1, 1, [])], 1),
    "after": (1, 0, [(0, 1, [(1, 0, [], 2)]), (1, 1, [])], 1),
    "nested": (1, 0, [(1, 1, [(0, 0, [(1, 1, [(0, 0, [(1, 1, [])], 1)])], 1)])], 1),
}
DEEP = {
    "pair2": (2, 0, [(2, 2, []), (1, 1, [])], 2),
    "elide2": (2, 2, [(2, 1, [])], 2),
    "many2": (3, 0, [(3, 1, [])], 2),
    "chain3": (1, 1, [(1, 1, []), (2, 1, []), (2, 1, [])], 2),
    "region2": (2, 1, [(1, 1, [(1, 1, [(2, 1, []), (1, 1, [])], 2)])], 2),
}


def cases(tier):
    cs = [("graph", k, v) for k in CASES for v in range(1)]
    if tier != "quick":
        cs += [("graph", k, 0) for k in DEEP]
    return cs + [("meta", k, 0) for k in range(5)]


class Names:
    """Definitions are numbered 1, 2, ... (ONNX is in SSA form and only equality of
    names matters); scopes that cannot see each other number alike.  Uses are
    solver variables."""

    def __init__(self, p, S):
        self.p, self.S, self.defs, self.n = p, S, [], 0
        self.K = 9

    def fresh(self, lo):
        self.n += 1
        return self.p.int(f"n{self.n}", lo, self.K)

    def define(self, optional=False):
        if optional and self.p.choice(2):
            return 0
        self.defs.append(len(self.defs) + 1)
        return self.defs[-1]

    def use(self, optional=True):
        self.n += 1
        # one name more than there are definitions: an undefined one
        return self.p.int(f"n{self.n}", 0 if optional else 1, len(self.defs) + 1)


def build(p, S, N, g, spec, elide=False, sub=False):
    """Fills graph message g."""
    nin, ninit, nodes, nout = spec

    def typed(v, name):
        v.name = S.name(name)
        v.type.tensor_type.elem_type = 1
        v.type.tensor_type.shape.dim.add().dim_value = name + 100
        if not S.concrete:
            v._mark("type")

    ins = []
    for _ in range(nin):
        nm = N.define()
        ins.append(nm)
        typed(g.input.add(), nm)
    for i in range(ninit):
        # an initializer may give an input its value
        if elide and i < nin and p.choice(2):
            nm = ins[i]
        else:
            nm = N.define()
        t = g.initializer.add()
        t.name = S.name(nm)
        t.data_type = 1
        t.dims.append(1)
        t.float_data.append(float(17 + len(N.defs)))
    for i, (k, outs, subs) in enumerate(nodes):
        n = g.node.add()
        n.name = "node"
        if k == "C":
            n.op_type = "Constant"
            a = n.attribute.add()
            a.name, a.type = "value", 4
            a.t.data_type = 1
            a.t.dims.append(1)
            a.t.float_data.append(99.0)
            # the tensor's own name says nothing: the node's output names the value
            a.t.name = S.name(N.use())
        else:
            n.op_type = "Op" + str(k)
            for _ in range(k):
                n.input.append(S.name(N.use()))
        names = [N.fresh(1) for _ in subs]
        for a, b in zip(names, names[1:]):
            p.assume(a != b)
        for s, an in zip(subs, names):
            a = n.attribute.add()
            a.name, a.type = S.name(an), 5
            save = list(N.defs)
            a.g.SetInParent()
            if not S.concrete:
                a._mark("g")
            build(p, S, N, a.g, s, sub=True)
            # sibling and later scopes may use these names again
            N.defs = save
        for _ in range(outs):
            nm = N.define(optional=outs > 1)
            n.output.append(S.name(nm))
            if nm == 0:
                continue
            typed(g.value_info.add(), nm)
    for _ in range(nout):
        typed(g.output.add(), N.use(False))


class Missing(Exception):
    pass


class Ref:
    """Reference meaning of a graph."""

    def __init__(self, S):
        self.S = S
        self.types = []

    def look(self, env, nm):
        for n, v in reversed(env):
            if n == nm:
                return v
        raise Missing(str(nm))

    def lit(self, t):
        return ("op", "onnx.Constant", 0, (("op", "attrs", 0, (("op", "torch.onnx.value", 0, (("lit", "[1],f32", float(t.float_data[0])),)),)),
                                           ("op", "regions", 0, ())))

    def graph(self, g, env, depth, args=None):
        env = list(env)
        inits = [t.name for t in g.initializer]
        params = [v.name for v in g.input if args is None or not any(bool(v.name == i) for i in inits)]
        if args is None:
            args = [("in", f"region{depth[0]}.{depth[1]}.{i}") for i in range(len(params))]
            depth = depth[0] + 1
        else:
            args = [("in", f"arg{i}") for i in range(len(params))]
        env += list(zip(params, args))
        for t in g.initializer:
            env.append((t.name, self.lit(t)))
        for n in g.node:
            if n.op_type == "Constant":
                env.append((n.output[0], self.lit(n.attribute[0].t)))
                continue
            ops = [None if i == "" else self.look(env, i) for i in n.input]
            subs = sorted(((a.name, a) for a in n.attribute), key=lambda x: _Key(x[0]))
            regs = []
            for j, (_, a) in enumerate(subs):
                regs.append(("op", "region", 0, (len(a.g.input), *self.graph(a.g, env, (depth, j)))))
            for k, o in enumerate(n.output):
                if o == "":
                    continue
                env.append((o, ("op", "onnx." + n.op_type, k, (*ops, ("op", "attrs", 0, ()), ("op", "regions", 0, tuple(regs))))))
        self.params = params
        return [self.look(env, o.name) for o in g.output]


class _Key:
    def __init__(self, n):
        self.n = n

    def __lt__(self, o):
        return bool(self.n < o.n)


def data(a):
    import numpy as np

    x = np.asarray(a.array if a.kind == "dense" else a.data)
    return ("lit", "[" + ",".join(map(str, x.shape)) + "],f32", float(x.reshape(-1)[0]))


def run(p, case):
    if case[0] == "meta":
        return meta(p, case[1])
    name = case[1]
    spec = CASES.get(name) or DEEP[name]
    with core.Setting(p) as S:
        N = Names(p, S)
        m = S.onnx.ModelProto()
        m.ir_version = 8
        o = m.opset_import.add()
        o.version = 17
        m.graph.name = "main"
        build(p, S, N, m.graph, spec, elide=name in ("elide", "empty"))
        M = S.m
        mi = M.ModelInfo(m)
        mod = mi.create_module(mlirpy.Context()).operation
        R = Ref(S)
        try:
            want = R.graph(m.graph, [], 0, args=())
        except Missing:
            want = None
        try:
            M.NodeImporter.define_function(mi.main_graph, mod).import_all()
        except M.OnnxImportError as e:
            if want is None:
                return
            raise
        if want is None:
            raise Counterexample("a graph that uses an undefined name is imported without an error", p.model())
        (f,) = mod.regions[0].blocks[0].operations
        args = [("in", f"arg{i}") for i in range(len(f.entry_block.arguments))]
        if len(args) != len(R.params):
            raise Counterexample(f"{len(args)} parameters, the graph has {len(R.params)} inputs without initializer", p.model())
        got = core.Eval(mod, data).run(f, args)
        from ..fx.core import prove_equal

        prove_equal(p, got, want, "the results differ from the graph's outputs")
        # the declared type of a value is a function of its name
        declared = [core.want_type(o.type) for o in m.graph.output]
        ret = f.entry_block.operations[-1]
        if not len(declared) == len(f.type.results) == len(ret.operands):
            raise Counterexample("number of results", p.model())
        for a, b, t in zip(f.type.results, ret.operands, declared):
            p.prove(core.same_type(S.type_of(a), t), "type of a function result")
        byname = {}
        types_of_ops(S, p, f.entry_block, m.graph)


def types_of_ops(S, p, block, g):
    ops = [o for o in block.operations if o.name == "torch.operator" and o.attributes["name"].value != "onnx.Constant"]
    nodes = [n for n in g.node if n.op_type != "Constant"]
    if len(ops) != len(nodes):
        raise Counterexample(f"{len(ops)} operators for {len(nodes)} nodes", p.model())
    infos = list(g.value_info) + list(g.output)
    for o, n in zip(ops, nodes):
        if len(o.results) != len(n.output):
            raise Counterexample(f"{len(o.results)} results for {len(n.output)} outputs", p.model())
        for r, nm in zip(o.results, n.output):
            want = ("none",)
            for v in infos:
                if nm != "" and v.name == nm:
                    want = core.want_type(v.type)
                    break
            p.prove(core.same_type(S.type_of(r.type), want), f"result type of {n.op_type}")
        subs = sorted(((a.name, a) for a in n.attribute), key=lambda x: _Key(x[0]))
        for (_, a), r in zip(subs, o.regions):
            b = r.blocks[0]
            for v, i in zip(b.arguments, a.g.input):
                p.prove(core.same_type(S.type_of(v.type), core.want_type(i.type)), "type of a region argument")
            types_of_ops(S, p, b, a.g)


DOMAINS = [["", "com.x"], ["com.x", ""], ["", "a.b", "c.d"], ["com.x"], ["ai.onnx", "com.x"]]


def meta(p, k):
    """Metadata of the function: versions and producer."""
    with core.Setting(p) as S:
        m = S.onnx.ModelProto()
        m.ir_version = p.int("ir", 1, 2**31)
        vs = []
        for i, d in enumerate(DOMAINS[k]):
            o = m.opset_import.add()
            o.domain = d
            o.version = p.int(f"v{i}", 1, 2**31)
            vs.append(("" if d == "ai.onnx" else d, o.version))
        m.producer_name, m.producer_version = "maker", "1.2"
        m.graph.name = "main"
        M = S.m
        mi = M.ModelInfo(m)
        mod = mi.create_module(mlirpy.Context()).operation
        M.NodeImporter.define_function(mi.main_graph, mod).import_all()
        (f,) = mod.regions[0].blocks[0].operations
        at = f.attributes
        pre = "torch.onnx_meta."

        def integer(a, v, what):
            if a is None or a.kind != "int" or str(a.type) != "si64":
                raise Counterexample(f"{what}: {a}", p.model())
            p.prove(a.value == v, what)

        integer(at.get(pre + "ir_version"), m.ir_version, "ir_version")
        d = dict(vs)
        if "" in d:
            integer(at.get(pre + "opset_version"), d.pop(""), "opset_version of the default domain")
        elif pre + "opset_version" in at:
            raise Counterexample("an opset_version without a default domain", p.model())
        got = at[pre + "opset_versions"].value if pre + "opset_versions" in at else {}
        if set(got) != set(d):
            raise Counterexample(f"opset_versions of {sorted(got)}, imported are {sorted(d)}", p.model())
        for k in d:
            integer(got[k], d[k], f"opset version of {k}")
        for n in ("producer_name", "producer_version"):
            if at[pre + n].value != getattr(m, n):
                raise Counterexample(n, p.model())
        if f.attributes["sym_name"].value != "main":
            raise Counterexample("the function's name is not the graph's", p.model())
