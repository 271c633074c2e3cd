"""E04: the lockstep debugging backend computes the golden result and stops at
the first operation where the two backends disagree."""
import torch
import torch.fx

from ..symex import and_, not_, or_
from . import core

N = 3  # operations


def cases(tier):
    out = [("graph", i, n) for i in (1, 2) for n in (1, 2, 3)]
    out += [("wrong", i, n) for i in (1, 2) for n in (1, 2)]
    out += [("twice", i, n) for i in (1, 2) for n in (1, 2)]
    out += [("same", 1, 0), ("known", "E04-value-twice", 0)]
    if tier != "quick":
        out += [("wrong", 2, 3), ("twice", 2, 3), ("graph", 3, 3)]
    return out


def op(k):
    def f(*xs):
        raise RuntimeError("interpreted by the harness")
    f.__name__ = f"op{k}"
    f.__module__ = "vt.e2e.lockstep"
    return f


OPS = [op(k) for k in range(4)]


def value(p, k, xs):
    """operation k: a fixed integer combination, different for every k and operand position"""
    r = 11 * (k + 1)
    for i, x in enumerate(xs):
        r = r + x * (2 + 3 * k + 5 * i)
    return r


def build(p, ni, n, kind):
    g = torch.fx.Graph()
    nodes = [g.placeholder(f"x{i}") for i in range(ni)]
    spec = []
    for k in range(n):
        a = 1 + p.choice(2, "arity")
        idx = [p.choice(len(nodes), f"a{k}{i}") for i in range(a)]
        if a == 2 and idx[0] == idx[1]:
            return None  # finding E04-value-twice
        spec.append(idx)
        nodes.append(g.call_function(OPS[k], tuple(nodes[i] for i in idx)))
    outs = list(range(len(nodes)))
    if n < 2:
        outs = [p.choice(len(nodes), f"out{j}") for j in range(1 + p.choice(2, "outs"))]
    elif kind == "graph":
        outs = [outs[::-1], [0, ni], [len(nodes) - 1]][p.choice(3, "outs")]
    g.output(tuple(nodes[j] for j in outs) if len(outs) > 1 or p.choice(2, "tuple") else nodes[outs[0]])
    return torch.fx.GraphModule(torch.nn.Module(), g), spec, outs


def evaluate(p, spec, ins):
    vals = list(ins)
    for k, idx in enumerate(spec):
        vals.append(value(p, k, [vals[i] for i in idx]))
    return vals


def interpret(p, delta, log, side):
    """a backend; delta(k, run) is added to the result of operation k"""
    def backend(gm, example_inputs):
        ops = [n for n in gm.graph.nodes if n.op == "call_function"]

        def compiled(*args):
            env, it = {}, iter(args)
            for n in gm.graph.nodes:
                if n.op == "placeholder":
                    env[n] = next(it)
                elif n.op == "call_function":
                    k = OPS.index(n.target)
                    xs = [env[a].elems[0] if isinstance(env[a], core.VTensor) else env[a].item() for a in n.args]
                    d = delta(k, log.count((side, k)))
                    log.append((side, k))
                    env[n] = core.tensor(p, [value(p, k, xs) + d], (1,), torch.int64)
                elif n.op == "output":
                    return torch.fx.map_arg(n.args[0], lambda a: env[a])
        p.prove(len(ops) == 1, f"a backend is given {len(ops)} operations at once")
        return compiled
    return backend


def run(p, case):
    L = core.module("debug.lockstep")
    what, ni, n = case
    if what == "known":
        g = torch.fx.Graph()
        x = g.placeholder("x")
        g.output(g.call_function(OPS[0], (x, x)))
        f = L.make_lockstep_debug_backend(golden_backend=interpret(p, lambda k, r: 0, [], "golden"))(interpret(p, lambda k, r: 0, [], "user"))
        f(torch.fx.GraphModule(torch.nn.Module(), g), [core.tensor(p, [0], (1,), torch.int64)])(core.tensor(p, [p.int("x")], (1,), torch.int64))
        return
    if what == "same":
        return identity(p, L)
    b = build(p, ni, n, what)
    if b is None:
        return
    gm, spec, outs = b
    runs = 2 if what == "twice" else 1
    dl = p.int("delta", -1000, 1000) if what != "graph" else 0
    at = p.choice(n, "wrong operation") if what != "graph" else 0
    when = p.choice(2, "wrong in run") if what == "twice" else 0
    log = []
    user = interpret(p, lambda k, r: dl if k == at and r == when else 0, log, "user")
    gold = interpret(p, lambda k, r: 0, log, "golden")
    f = L.make_lockstep_debug_backend(golden_backend=gold)(user)
    first = [core.tensor(p, [0], (1,), torch.int64) for _ in range(ni)]
    compiled = f(gm, first)
    desc = f"operations on values {spec} of {ni} inputs, results {outs}"
    for r in range(runs):
        ins = [p.int(f"x{r}{i}", -99, 99) for i in range(ni)]
        want = evaluate(p, spec, ins)
        bad = False
        if r == when and what != "graph":
            g = want[ni + at]
            # allclose with the default tolerances of torch
            bad = abs(dl) > abs(g) * 1.1e-5 + 1.1e-8
            ok = abs(dl) <= abs(g) * 0.9e-5
        else:
            ok = True
        try:
            got = compiled(*[core.tensor(p, [x], (1,), torch.int64) for x in ins])
        except AssertionError as e:
            p.prove(not_(ok), f"{desc}: stops although the backends agree: {e}")
            p.prove(f"op{at}" in str(e), f"{desc}: operation {at} is wrong, the error blames {str(e)[-80:]}")
            continue
        p.prove(not_(bad), f"{desc}: run {r} goes on although operation {at} is wrong")
        res = got if isinstance(got, (tuple, list)) else (got,)
        p.prove(len(res) == len(outs), f"{desc}: {len(res)} results")
        e = [x.elems[0] if isinstance(x, core.VTensor) else x.item() for x in res]
        p.prove(and_(True, *[a == want[j] for a, j in zip(e, outs)]), f"{desc}: run {r} gives {e}, the program gives {[want[j] for j in outs]}")
        p.prove(log.count(("golden", 0)) == log.count(("user", 0)), f"{desc}: the backends are not run equally often")


def identity(p, L):
    """the default golden backend runs the program itself"""
    c = p.int("c", -99, 99)
    f = L.make_lockstep_debug_backend()(lambda gm, ex: gm)
    g = torch.fx.Graph()
    x = g.placeholder("x")
    y = g.call_function(twice, (x,))
    g.output((g.call_function(twice, (y,)), x))
    r = f(torch.fx.GraphModule(torch.nn.Module(), g), [])(core.tensor(p, [c], (1,), torch.int64))
    e = [t.elems[0] if isinstance(t, core.VTensor) else t.item() for t in r]
    p.prove(and_(e[0] == 4 * c, e[1] == c), f"gives {e}, the program gives {[4 * c, c]}")


def twice(x):
    return x + x
