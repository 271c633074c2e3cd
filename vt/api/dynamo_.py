"""A02: the TorchDynamo backend wrapper keeps the calling convention of the graph."""
import functorch.compile  # noqa: F401  (aot_autograd imports it)
import torch

from ..symex import and_, ite
from . import core

SHAPES = ("single", "tuple0", "tuple1", "tuple2", "tuple3", "list0", "list1", "list2", "list3", "none")


def cases(tier):
    lim = 3 if tier == "quick" else 4
    res = lambda s: int(s[-1]) if s[-1].isdigit() else 1
    out = [(n, k, s) for n in (1, 2, 3) for k in (0, 1, 2) for s in SHAPES if n + k <= lim + (res(s) < 2)]
    out += [("pair", s, t) for s in SHAPES for t in SHAPES]
    out += [("strip", 0, 0)]
    return out


def op_a(x, y):
    return x + 3 * y


def op_b(x, y):
    return ite(x > y, x, y) + 2 * y


OPS = (op_a, op_b)
# the operators' meaning, written another way
MEANING = {op_a: lambda x, y: 4 * y - (y - x), op_b: lambda x, y: ite(y >= x, 3 * y, x + 2 * y)}


def same(a, b):
    """same structure and equal leaves"""
    if type(a) is not type(b) and (isinstance(a, (tuple, list)) or isinstance(b, (tuple, list)) or a is None or b is None):
        return False
    if isinstance(a, (tuple, list)):
        if len(a) != len(b):
            return False
        return and_(*[same(x, y) for x, y in zip(a, b)], True)
    if a is None:
        return True
    return a == b


def build(p, n, k, s, tag, free=True):
    turn = iter(range(100))
    pick = (lambda m, w: p.choice(m, w)) if free else (lambda m, w: next(turn) % m)
    g = torch.fx.Graph()
    vals = [g.placeholder(f"x{i}") for i in range(n)]
    for j in range(k):
        f = OPS[pick(2, f"{tag}op{j}")]
        a = vals[pick(len(vals), f"{tag}a{j}")]
        b = vals[pick(len(vals), f"{tag}b{j}")]
        vals.append(g.call_function(f, (a, b)))
    m = 1 if s == "single" else 0 if s == "none" else int(s[-1])
    out = [vals[pick(len(vals), f"{tag}r{i}")] for i in range(m)]
    r = out[0] if s == "single" else None if s == "none" else tuple(out) if s.startswith("tuple") else list(out)
    g.output(r)
    return torch.fx.GraphModule(torch.nn.Module(), g)


def evaluate(gm, ins, table={}):
    """What the graph means, from the nodes."""
    env, it = {}, iter(ins)
    for nd in gm.graph.nodes:
        if nd.op == "placeholder":
            env[nd] = next(it)
        elif nd.op == "call_function":
            env[nd] = table.get(nd.target, nd.target)(*[env[a] for a in nd.args])
        else:
            def f(a):
                if isinstance(a, torch.fx.Node):
                    return env[a]
                if isinstance(a, (tuple, list)):
                    return (list if isinstance(a, list) else tuple)(f(x) for x in a)
                return a
            return f(nd.args[0])


def call(fn, ins):
    return fn(list(ins)) if getattr(fn, "_boxed_call", False) else fn(*ins)


def run(p, case):
    M = core.install()
    D = M["dynamo"]
    seen = []

    def user(gm, ex):
        seen.append((gm, ex))
        for nd in gm.graph.nodes:
            if nd.op == "output":
                a = nd.args[0]
                p.prove(not isinstance(a, list) and not (isinstance(a, tuple) and len(a) == 1),
                        f"the user's backend is given a graph that returns {a!r}")
        return gm.forward if p.choice(2, "how") else (lambda *i: evaluate(gm, i))

    got = {}

    def aot(fw_compiler=None, **k):
        got.update(k, fw=fw_compiler)
        return fw_compiler

    real, D.aot_autograd = D.aot_autograd, aot
    try:
        backend = D.make_simple_dynamo_backend(user)
    finally:
        D.aot_autograd = real
    if case[0] == "strip":
        return strip(p, backend, seen)
    if case[0] == "pair":
        progs = [(2, 1, s, f"g{i}") for i, s in enumerate(case[1:])]
    else:
        progs = [(*case, "g")]
    ready = []
    for n, k, s, tag in progs:
        gm = build(p, n, k, s, tag, case[0] != "pair")
        ref = torch.fx.GraphModule(torch.nn.Module(), torch.fx.Graph())
        ref.graph = gm.graph.__class__()
        env = {}
        out = ref.graph.graph_copy(gm.graph, env)
        ref.graph.output(out)
        before = len(seen)
        ex = [object() for _ in range(n)]
        fn = backend(gm, ex)
        p.prove(len(seen) == before + 1 and seen[-1][1] is ex, "the user's backend is called once, with the example inputs")
        ready.append((fn, ref, n, s, tag))
    for rnd in range(2 if case[0] != "pair" else 1):
        for fn, ref, n, s, tag in ready:
            ins = [p.int(f"{tag}v{rnd}{i}") for i in range(n)]
            want = evaluate(ref, ins, MEANING)
            r = call(fn, ins)
            p.prove(same(r, want), f"a graph that returns a {s} gives {type(r).__name__} {r!r} for {ins}, expected {want!r}")


def strip(p, backend, seen):
    """Operators reach the user's backend as the packets of their overloads."""
    a = torch.ops.aten
    ops = (a.add.Tensor, a.mul.Tensor, a.sub.Tensor)
    t = ops[p.choice(len(ops))]
    g = torch.fx.Graph()
    x, y = g.placeholder("x"), g.placeholder("y")
    g.output((g.call_function(t, (x, y)),))
    gm = torch.fx.GraphModule(torch.nn.Module(), g)
    fn = backend(gm, [])
    u, v = torch.tensor([5]), torch.tensor([3])
    r = call(fn, [u, v])
    p.prove(isinstance(r, tuple) and len(r) == 1 and bool((r[0] == t(u, v)).all()), f"{t} through the wrapper gives {r}")
