"""O04: operators defined by ONNX functions are replaced by the right body."""
import types

import onnx

from .. import mlirpy
from ..fx.core import prove_equal
from ..symex import Counterexample, and_
from . import core
from .proto import Bytes, Helper

A = onnx.AttributeProto


def cases(tier):
    out = []
    for n in range(3):
        for c in range(3):
            out.append(("version", n, c))
    for a in ("same", "attr", "type", "rank", "omit", "elem"):
        for cd in (0, 1):
            out.append(("calls", a, cd))
    for k in ("caller", "default", "neither", "plain", "renamed", "two", "subgraph", "subsub"):
        for t in ("INT", "FLOAT", "INTS"):
            if t == "INT" or tier != "quick" or k in ("caller", "default", "renamed"):
                out.append(("bind", k, t))
    for k in ("older", "newer", "same"):
        out.append(("nested", k, 0))
    for k in range(8):
        out.append(("lists", k, 0))
    for k in ("alias", "alias-node", "custom", "custom-second", "region", "noinput", "swap", "multi"):
        out.append(("other", k, 0))
    return out


class Env:
    """Stand-ins for the operator registry and shape inference."""

    def __init__(self, p):
        self.p = p
        self.schemas = {}  # (domain, name) -> Schema
        env = self

        class Defs:
            def __getattr__(self, k):
                return getattr(onnx.defs, k)

            @staticmethod
            def get_schema(name, max_inclusive_version=None, domain=""):
                if domain == "ai.onnx":
                    domain = ""
                s = env.schemas.get((domain, name))
                if s is None:
                    raise onnx.defs.SchemaError(f"no schema {domain} {name}") if hasattr(onnx.defs, "SchemaError") else RuntimeError("no schema")
                s.asked.append(max_inclusive_version)
                return s

        class SI:
            @staticmethod
            def infer_shapes(m, check_type=False, strict_mode=False, data_prop=False):
                return m

        class H(Helper):
            @staticmethod
            def find_min_ir_version_for(*a, **k):
                return 8

        self.over = {"defs": Defs(), "shape_inference": SI(), "helper": H()}


class Schema:
    def __init__(self, S, ncd, cd, body, defaults=None):
        self.S, self.body = S, body
        self.function_opset_versions = list(ncd)
        self.context_dependent_function_opset_versions = list(cd)
        self.attributes = defaults or {}
        self.asked = []

    @property
    def has_function(self):
        return bool(self.function_opset_versions)

    @property
    def has_context_dependent_function(self):
        return bool(self.context_dependent_function_opset_versions)

    def get_function_with_opset_version(self, v):
        return self._give(v, 0, None)

    def get_context_dependent_function_with_opset_version(self, v, node, types):
        return self._give(v, 1, node)

    def _give(self, v, kind, node):
        f = self.S.onnx.FunctionProto()
        if node is not None and not isinstance(node, Bytes):
            n = onnx.NodeProto()
            n.ParseFromString(node)
            node = n
        elif node is not None:
            node = node.msg
        self.body(f, v, kind, node)
        return f.SerializeToString()


def model(S, opsets, name="main"):
    m = S.onnx.ModelProto()
    m.ir_version = 8
    for d, v in opsets:
        o = m.opset_import.add()
        o.domain = d
        o.version = v
    m.graph.name = name
    return m


def value(S, lst, name, dims, elem=1):
    v = lst.add()
    v.name = name
    v.type.tensor_type.elem_type = elem
    for d in dims:
        v.type.tensor_type.shape.dim.add().dim_value = d
    if not S.concrete:
        v.type.tensor_type._mark("shape")
        v._mark("type")
    else:
        v.type.tensor_type.shape.SetInParent()
    return v


def node(lst, op, ins, outs, **attrs):
    n = lst.add()
    n.op_type = op
    n.input.extend(ins)
    n.output.extend(outs)
    for k, v in attrs.items():
        if v is not None:
            attr(n, k, v)
    return n


def attr(n, k, v, t=None):
    a = n.attribute.add()
    a.name = k
    return setattrv(a, v, t)


def setattrv(a, v, t=None):
    if isinstance(v, list):
        if t == "FLOATS":
            a.type = A.FLOATS
            a.floats.extend(v)
        else:
            a.type = A.INTS
            a.ints.extend(v)
    elif t == "FLOAT":
        a.type, a.f = A.FLOAT, v
    else:
        a.type, a.i = A.INT, v
    return a


def import_(S, m, config=None):
    M = S.m
    mi = M.ModelInfo(m, config=config) if config is not None else M.ModelInfo(m)
    mod = mi.create_module(mlirpy.Context()).operation
    main = M.NodeImporter.define_function(mi.main_graph, mod)
    main.import_all()
    names = set()
    for f in mod.regions[0].blocks[0].operations:
        n = f.attributes["sym_name"].value
        if n in names:
            raise Counterexample(f"two functions of one name", S.p.model())
        names.add(n)
        consistent(S, f.regions[0].blocks[0], f)
    return mod, main._p


def consistent(S, b, func):
    """Calls and returns agree with the functions' types."""
    p = S.p

    def agree(a, t, what):
        if len(a) != len(t):
            raise Counterexample(f"{what}: {len(a)} values for {len(t)} types", p.model())
        for x, y in zip(a, t):
            p.prove(core.same_type(S.type_of(x), S.type_of(y)), f"{what}: {x} where {y} is expected")

    for o in b.operations:
        if o.name == "func.call":
            agree([v.type for v in o.operands], o.callee.type.inputs, "call operands")
            agree([v.type for v in o.results], o.callee.type.results, "call results")
        if o.name == "func.return":
            agree([v.type for v in o.operands], func.type.results, "returned values")
        for r in o.regions:
            for x in r.blocks:
                consistent(S, x, func)


def allow(S, **kw):
    return S.m.Config(**kw)


def op(nm, args, attrs=(), k=0, regions=()):
    return ("op", "onnx." + nm, k, (*args, ("op", "attrs", 0, tuple(("op", "torch.onnx." + n, 0, (v,)) for n, v in sorted(attrs))),
                                    ("op", "regions", 0, tuple(regions))))


def I(v):
    return ("op", "attr.int:si64", 0, (v,))


def F(v):
    return ("op", "attr.float:f32", 0, (v,))


def AR(xs):
    return ("op", "attr.array", 0, tuple(xs))


X, Y = ("in", "arg0"), ("in", "arg1")


def results(S, mod, main, data=None):
    n = len(main.entry_block.arguments)
    return core.Eval(mod, data).run(main, [("in", f"arg{i}") for i in range(n)])


def run(p, case):
    how, a, b = case
    E = Env(p)
    with core.Setting(p, E.over, same=how == "calls") as S:
        globals()["c_" + how](p, S, E, a, b)


def c_version(p, S, E, n, c):
    """The newest body not newer than the model's operator set."""
    v = p.int("opset", 1, 40)
    ncd = [p.int(f"n{i}", 1, 40) for i in range(n)]
    cd = [p.int(f"c{i}", 1, 40) for i in range(c)]

    def body(f, ver, kind, nd):
        f.name = "Foo"
        f.input.append("a")
        f.output.append("r")
        o = f.opset_import.add()
        o.version = 1
        node(f.node, "Body", ["a"], ["r"], ver=ver, kind=kind)

    E.schemas["", "Foo"] = s = Schema(S, ncd, cd, body)
    m = model(S, [("com.z", 3), ("", v)])
    value(S, m.graph.input, "x", [2])
    value(S, m.graph.output, "y", [2])
    node(m.graph.node, "Foo", ["x"], ["y"])
    mod, main = import_(S, m, allow(S, function_expansion_allowlists_by_domain={"": {"Foo"}}))
    (got,) = results(S, mod, main)
    for a in s.asked:
        p.prove(a == v, "the schema is looked up for another operator set version")
    best, kind = None, 0
    for k, xs in ((1, cd), (0, ncd)):
        for x in xs:
            if x <= v and (best is None or x > best):
                best, kind = x, k
    want = op("Foo", [X]) if best is None else op("Body", [X], [("ver", I(best)), ("kind", I(kind))])
    prove_equal(p, got, want, f"the body used is not the newest one of at most the model's version: {got}")


def c_calls(p, S, E, what, cd):
    """Two calls of one operator in one module."""
    def body(f, ver, kind, nd):
        f.name = "Foo"
        f.input.extend(["a", "b"])
        f.output.append("r")
        f.opset_import.add().version = 1
        n = node(f.node, "Mul", ["a", "b"], ["t"])
        n = node(f.node, "Body", ["t", "a"], ["r"])
        a = n.attribute.add()
        a.name, a.type, a.ref_attr_name = "k", A.INT, "alpha"
        if kind:
            # the context shows in the body
            attr(n, "seen", len(nd.attribute))

    E.schemas["", "Foo"] = Schema(S, [] if cd else [1], [1] if cd else [], body, {"alpha": types.SimpleNamespace(default_value=mk(S, "alpha", 3))})
    m = model(S, [("", 17)])
    d = [p.int(f"d{i}", 0, 2**40) for i in range(3)]
    e2 = onnx.TensorProto.INT64 if what == "elem" else 1
    ty = {"type": [d[1]], "rank": [d[0], d[0]]}.get(what, [d[0]])
    value(S, m.graph.input, "x", [d[0]])
    value(S, m.graph.input, "y", ty, e2)
    value(S, m.graph.output, "u", [d[0]])
    value(S, m.graph.output, "v", ty, e2)
    k1 = (1, p.int("k1", -2**63, 2**63 - 1))[p.choice(2)]
    k2 = k1
    if what == "attr":
        k2 = (1, 2, p.int("k2", -2**63, 2**63 - 1), None)[p.choice(4)]
    ops = ("x", "y") if what != "omit" else ("x", "")
    node(m.graph.node, "Foo", ["x", "x"], ["u"], alpha=k1)
    node(m.graph.node, "Foo", ["y", "y"] if what != "omit" else ["y", ""], ["v"], alpha=k2)
    mod, main = import_(S, m, allow(S, function_expansion_allowlists_by_domain={"": {"Foo"}}))
    got = results(S, mod, main)
    want = []
    for v, w, k in ((X, X, k1), (Y, None if what == "omit" else Y, k2)):
        at = [("k", I(3 if k is None else k))]
        if cd:
            at.append(("seen", I(0 if k is None else 1)))
        want.append(op("Body", [op("Mul", [v, w]), v], at))
    prove_equal(p, got, want, "a call does not compute its own body")


def c_nested(p, S, E, k, _):
    """One operator at two operator set versions: in the model and in a function's body."""
    NAME = "MeanVarianceNormalization"  # expanded by default, also inside bodies
    v, w = p.int("v", 1, 40), p.int("w", 1, 40)
    p.assume({"older": w < v, "newer": w > v, "same": w == v}[k])
    change = p.int("change", 2, 40)

    def body(f, ver, kind, nd):
        f.name = NAME
        f.input.append("a")
        f.output.append("r")
        f.opset_import.add().version = 1
        node(f.node, "Body", ["a"], ["r"], ver=ver)

    def outer(f, ver, kind, nd):
        f.name = "Outer"
        f.input.append("a")
        f.output.append("r")
        f.opset_import.add().version = w
        node(f.node, NAME, ["a"], ["r"])

    E.schemas["", NAME] = Schema(S, [1, change], [], body)
    E.schemas["", "Outer"] = Schema(S, [1], [], outer)
    m = model(S, [("", v)])
    value(S, m.graph.input, "x", [2])
    value(S, m.graph.output, "y", [2])
    value(S, m.graph.output, "z", [2])
    order = ["y", "z"] if p.choice(2) else ["z", "y"]
    for o in order:
        node(m.graph.node, NAME if o == "y" else "Outer", ["x"], [o])
    mod, main = import_(S, m, allow(S, function_expansion_allowlists_by_domain={"": {NAME, "Outer"}}))
    got = results(S, mod, main)
    want = [op("Body", [X], [("ver", I(change if u >= change else 1))]) for u in (v, w)]
    prove_equal(p, got, want, f"a body of another version: {got}")


def mk(S, name, v, t=None):
    a = S.onnx.AttributeProto()
    if v is None:
        return a
    a.name = name
    return setattrv(a, v, t)


def val(p, tag, t):
    if t == "INT":
        return p.int(tag, -2**63, 2**63 - 1)
    if t == "FLOAT":
        v = p.real(tag)
        return float(__import__("numpy").float32(v)) if getattr(p, "concrete", False) else v
    return [p.int(f"{tag}{i}", -2**63, 2**63 - 1) for i in range(2)]


def term(v, t):
    return I(v) if t == "INT" else F(v) if t == "FLOAT" else AR([I(x) for x in v])


def c_bind(p, S, E, k, t):
    """Attribute references of a body."""
    va, vb, vd, vp = (val(p, x, t) for x in ("a", "b", "d", "p"))
    code = getattr(A, t)
    given = k in ("caller", "renamed", "two", "subgraph", "subsub") and (k not in ("subgraph", "subsub") or p.choice(2))

    def ref(n, name, r):
        a = n.attribute.add()
        a.name, a.type, a.ref_attr_name = name, code, r

    def body(f, ver, kind, nd):
        f.name = "Foo"
        f.input.append("a")
        f.output.append("r")
        f.opset_import.add().version = 1
        if k in ("subgraph", "subsub"):
            n = node(f.node, "If", ["a"], ["r"])
            for nm in ("then_branch", "else_branch"):
                a = n.attribute.add()
                a.name, a.type = nm, A.GRAPH
                a.g.name = nm
                g = a.g
                if k == "subsub" and nm == "then_branch":
                    n2 = node(g.node, "If", ["a"], ["q"])
                    a2 = n2.attribute.add()
                    a2.name, a2.type = "then_branch", A.GRAPH
                    a2.g.name = "inner"
                    value(S, g.output, "q", [2])
                    g = a2.g
                n3 = node(g.node, "Leaf", ["a"], ["w"])
                if nm == "then_branch":
                    ref(n3, "k", "alpha")
                else:
                    attr(n3, "k", vp, t)
                value(S, g.output, "w", [2])
            ref(n, "top", "alpha")
            return
        n = node(f.node, "Body", ["a"], ["r"])
        if k == "plain":
            attr(n, "k", vp, t)
        elif k == "two":
            ref(n, "one", "beta")
            attr(n, "plain", vp, t)
            ref(n, "two", "alpha")
        else:
            ref(n, "alpha" if k != "renamed" else "k", "alpha")

    dv = mk(S, "alpha", vd if k != "neither" else None, t)
    dom = ("", "com.x")[p.choice(2)] if t == "INT" else ""
    E.schemas[dom, "Foo"] = Schema(S, [1], [], body, {"alpha": types.SimpleNamespace(default_value=dv),
                                                       "beta": types.SimpleNamespace(default_value=mk(S, "beta", vd, t))})
    m = model(S, [("", 17), ("com.x", 17)])
    value(S, m.graph.input, "x", [2])
    value(S, m.graph.output, "y", [2])
    n = node(m.graph.node, "Foo", ["x"], ["y"])
    n.domain = dom
    if given:
        attr(n, "alpha", va, t)
    if k == "two":
        attr(n, "beta", vb, t)
    mod, main = import_(S, m, allow(S, function_expansion_allowlists_by_domain={dom: {"Foo"}}))
    (got,) = results(S, mod, main)
    alpha = va if given else vd
    T = lambda v: term(v, t)
    reg = lambda x: ("op", "region", 0, (0, x))
    if k in ("subgraph", "subsub"):
        leaf = op("Leaf", [X], [("k", T(alpha))])
        then = reg(leaf if k == "subgraph" else op("If", [X], regions=[reg(leaf)]))
        want = op("If", [X], [("top", T(alpha))], regions=[reg(op("Leaf", [X], [("k", T(vp))])), then])
    elif k == "plain":
        want = op("Body", [X], [("k", T(vp))])
    elif k == "two":
        want = op("Body", [X], [("one", T(vb)), ("plain", T(vp)), ("two", T(va))])
    elif k == "neither":
        want = op("Body", [X])
    else:
        want = op("Body", [X], [("alpha" if k != "renamed" else "k", T(alpha))])
    prove_equal(p, got, want, f"attributes of the body: {got}")


def c_lists(p, S, E, k, _):
    """Which operators are expanded: the allow list (if any) and not the deny list."""
    al = [None, {}, {"": {"Foo"}}, {"": {"Bar"}}, {"com.x": {"Foo"}}, {"": set()}, {"com.x": {"Foo"}, "": {"Foo"}}, None][k]
    dl = [{}, {"": {"Foo"}}, {"com.x": {"Foo"}}, {"": {"Bar"}}][p.choice(4)]
    dom = ["", "com.x"][p.choice(2)]

    def body(f, ver, kind, nd):
        f.name = "Foo"
        f.input.append("a")
        f.output.append("r")
        f.opset_import.add().version = 1
        node(f.node, "Body", ["a"], ["r"])

    def nobody(f, *a):
        raise AssertionError

    E.schemas[dom, "Foo"] = Schema(S, [1], [], body)
    for d in ("", "com.x"):
        E.schemas[d, "Bar"] = Schema(S, [], [], nobody)
    E.schemas["", "Body"] = Schema(S, [], [], nobody)
    m = model(S, [("", 17), ("com.x", 2)])
    value(S, m.graph.input, "x", [2])
    value(S, m.graph.output, "y", [2])
    node(m.graph.node, "Foo", ["x"], ["y"]).domain = dom
    mod, main = import_(S, m, allow(S, function_expansion_allowlists_by_domain=al, function_expansion_denylists_by_domain=dl))
    (got,) = results(S, mod, main)
    expand = (al is None or "Foo" in al.get(dom, ())) and "Foo" not in dl.get(dom, ())
    prove_equal(p, got, op("Body" if expand else "Foo", [X]), "expansion against the configuration" if not expand else "no expansion")


def c_other(p, S, E, k, _):
    v1, v2 = p.int("v1", 1, 40), p.int("v2", 1, 40)
    dom = "com.x" if k.startswith("custom") else "ai.onnx" if k == "alias-node" else ""
    ops = {"alias": [("ai.onnx", v1)], "alias-node": [("", v1)], "custom": [("", v2), ("com.x", v1)],
           "custom-second": [("com.y", v2), ("com.x", v1), ("", v2)]}.get(k, [("", v1)])

    def body(f, ver, kind, nd):
        f.name = "Foo"
        f.opset_import.add().version = 1
        if k == "noinput":
            f.output.append("r")
            node(f.node, "Body", [], ["r"])
            return
        f.input.extend(["a", "b"])
        f.output.extend(["r", "s"])
        node(f.node, "Body", ["b", "a"], ["s", "r"] if k == "swap" else ["r", "s"])

    E.schemas["" if dom == "ai.onnx" else dom, "Foo"] = s = Schema(S, [1], [], body)
    E.schemas["", "If"] = Schema(S, [], [], None)
    m = model(S, ops)
    g = m.graph
    value(S, g.input, "x", [2])
    value(S, g.input, "y", [3])
    value(S, g.output, "u", [4])
    outs = ["u", "w"]
    ins = [] if k == "noinput" else ["x", "y"]
    if k == "region":
        n = node(g.node, "If", ["x"], ["u"])
        a = n.attribute.add()
        a.name, a.type = "then_branch", A.GRAPH
        a.g.name = "then"
        value(S, a.g.output, "q", [4])
        node(a.g.node, "Foo", ins, ["q"])
        value(S, a.g.value_info, "unused", [4])
    elif k == "noinput":
        node(g.node, "Foo", [], ["u"]).domain = dom
    else:
        value(S, g.value_info, "w", [5])
        node(g.node, "Foo", ins, outs).domain = dom
        if k == "multi":
            value(S, g.output, "w2", [4])
            value(S, g.output, "w", [5])
            node(g.node, "Foo", ["y", "x"], ["w2"])
    al = {"": {"Foo"}, "com.x": {"Foo"}, "ai.onnx": {"Foo"}}
    mod, main = import_(S, m, allow(S, function_expansion_allowlists_by_domain=al))
    got = results(S, mod, main)
    for a in s.asked:
        p.prove(a == v1, "the operator is looked up in another operator set's version")
    B = lambda x, y, i=0: op("Body", [y, x], k=i)
    if k == "noinput":
        want = [op("Body", [])]
    elif k == "region":
        want = [op("If", [X], regions=[("op", "region", 0, (0, B(X, Y)))])]
    elif k == "swap":
        want = [B(X, Y, 1)]
    elif k == "multi":
        want = [B(X, Y), B(Y, X), B(X, Y, 1)]
    else:
        want = [B(X, Y)]
    prove_equal(p, got, want, f"results {got}")
    if k == "alias":
        a = main.attributes.get("torch.onnx_meta.opset_version")
        if a is None:
            raise Counterexample("no opset_version for a model whose default operator set is named ai.onnx", p.model())
        p.prove(a.value == v1, "opset_version")
