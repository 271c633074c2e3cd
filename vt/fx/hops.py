"""F08: control flow and other higher-order operators; F06/F08 share the model
of python object identity (Ids)."""
import gc
import operator
import types
import weakref

import torch
import torch.fx as tfx
from torch.fx.immutable_collections import immutable_dict

from .. import mlirpy
from ..decide import Unsupported
from ..symex import Counterexample, PathAbort, SymBool, SymInt, and_, not_
from . import core, literals, ops


class Ids:
    """id() as CPython defines it: live objects have different ids, the id of a
    dead object may be given to a new one (any, or none, decided by the solver)."""

    def __init__(self, p, n):
        self.p, self.n = p, n
        self.known = []  # (weakref or object, id)

    def __call__(self, obj):
        for w, s in self.known:
            if (w() if isinstance(w, weakref.ref) else w) is obj:
                return s
        # ids are names: a new one is the next unused number
        s = self.p.int(f"id{len(self.known)}", 0, min(self.n, len(self.known)))
        gc.collect()
        for w, t in self.known:
            if not isinstance(w, weakref.ref) or w() is not None:
                self.p.assume(s != t)
        try:
            w = weakref.ref(obj)
        except TypeError:
            w = obj
        self.known.append((w, s))
        return s


class use_ids:
    def __init__(self, p, n):
        self.f = Ids(p, n)

    frozen = False

    def __enter__(self):
        core.fx().__dict__["__vt_id__"] = self.f
        if not use_ids.frozen:
            # everything loaded so far is exempt, so that collections stay cheap
            use_ids.frozen = True
            gc.collect()
            gc.freeze()

    def __exit__(self, *a):
        core.fx().__dict__["__vt_id__"] = id


# ------------------------------------------------------------ evaluation


class Loops(ops.TypedEval):
    """Conditions of loops are unknown booleans, one per tensor value."""

    def __init__(self, m, truth):
        super().__init__(m)
        self.truth = truth
        self.literal = literals.decode
        # the graph's own loops end: at most three of their conditions, all distinct, hold
        self.loop_bound = 6

    def over(self, what):
        raise Counterexample("; ".join([f"{what}; the graph's loops run at most 3 times", *self.bad]), self.truth.p.model())

    def op(self, op, env):
        if op.name == "torch.aten.Bool.Tensor":
            x = env[id(op.operands[0])]
            if not core.is_term(x):
                raise TypeError("Bool.Tensor of a scalar")
            return [self.truth(x)]
        if op.name == "func.call":
            n = op.attributes["callee"].value
            f = self.funcs.get(n)
            if f is None:
                raise TypeError(f"call of an undefined function {n}")
            a, b = [str(o.type) for o in op.operands], [str(t) for t in f.type.inputs]
            if a != b:
                self.bad.append(f"call of {n} with operands {a}, its parameters are {b}")
            a, b = [str(o.type) for o in op.results], [str(t) for t in f.type.results]
            if a != b:
                self.bad.append(f"call of {n} declares results {a}, the function has {b}")
        if op.name == "torch.prim.Loop":
            b = op.regions[0].blocks[0]
            r = [str(o.type) for o in op.results]
            if [str(x.type) for x in b.arguments] != ["!torch.int"] + r:
                self.bad.append("loop body parameters")
            last = b.operations[-1]
            if last.name != "torch.prim.Loop.condition" or [str(o.type) for o in last.operands] != ["!torch.bool"] + r:
                self.bad.append(f"loop condition operands {[str(o.type) for o in last.operands]}, the loop has {r}")
            if len(op.operands) != 2 + len(r):
                self.bad.append(f"{len(op.operands) - 2} initial values for {len(r)} loop results")
        if op.name == "torch.hop_flex_attention":
            a = [env[id(o)] for o in op.operands]
            at = tuple([k, self.closure(v.value)] for k, v in sorted(op.attributes.items()))
            return [("op", "flex", k, (*a, *at)) for k in range(len(op.results))]
        return super().op(op, env)

    def closure(self, name):
        f = self.funcs.get(name)
        if f is None:
            raise TypeError(f"reference to an undefined function {name}")
        return [str(f.type), self.call(name, [("in", f"arg{i}") for i in range(len(f.type.inputs))])]


class Truth:
    def __init__(self, p, bound):
        self.p, self.bound = p, bound
        self.seen = {}

    def __call__(self, term):
        k = repr(term)
        if k not in self.seen:
            if len(self.seen) >= self.bound:
                return False
            self.seen[k] = self.p.boolean(f"cond{len(self.seen)}")
        return self.seen[k]


# ------------------------------------------------------------ while_loop


def module(g, **children):
    gm = tfx.GraphModule(torch.nn.Module(), tfx.Graph())
    for k, v in children.items():
        gm.add_module(k, v)
    gm.graph = g
    g.owning_module = gm
    return gm


def build_loop(n, m, intc, depth, names, salt, tuple_cond):
    """A graph whose while_loop carries n tensors (after an integer when intc)
    and reads m further tensors; returns (graph, python semantics).

    semantics(carry, extra, truth) -> final carry"""
    total = n + (1 if intc else 0)
    k1 = 3 + salt
    fc, fe = [ops.fake(i) for i in range(n)], [ops.fake(6 + i) for i in range(m)]
    env = ops.ShapeEnv()

    def phs(g):
        out = []
        if intc:
            i = g.placeholder("i")
            i.meta["val"] = env.create_unbacked_symint()
            out.append(i)
        for j in range(n):
            x = g.placeholder(f"c{j}")
            x.meta["val"] = fc[j]
            out.append(x)
        ex = []
        for j in range(m):
            x = g.placeholder(f"e{j}")
            x.meta["val"] = fe[j]
            ex.append(x)
        return out, ex

    cond = tfx.Graph()
    c, e = phs(cond)
    if intc:
        r = cond.call_function(operator.lt, (c[0], k1))
        r.meta["val"] = env.create_unbacked_symbool()
    else:
        r = cond.call_function(torch.ops.aten.equal.default if False else torch.ops.aten.any.default, (c[-1],))
        with ops._mode:
            r.meta["val"] = torch.empty((), dtype=torch.bool)
    cond.output((r,) if tuple_cond else r)
    body = tfx.Graph()
    c, e = phs(body)
    kids = {}
    inner = None
    if depth:
        ig, isem, kids = build_loop(n, m, False, depth - 1, names, salt + 10, tuple_cond)
        inner = isem
        ic = body.get_attr(names[0])
        ib = body.get_attr(names[1])
        w = body.call_function(torch.ops.higher_order.while_loop, (ic, ib, tuple(c[total - n:]), tuple(e)))
        w.meta["val"] = tuple(fc)
        cc = []
        for j in range(n):
            q = body.call_function(operator.getitem, (w, j))
            q.meta["val"] = fc[j]
            cc.append(q)
    else:
        cc = c[total - n:]
    outs = []
    if intc:
        a = body.call_function(operator.add, (c[0], 1 + salt))
        a.meta["val"] = env.create_unbacked_symint()
        outs.append(a)
    for j in range(n):
        src = cc[(j + 1) % n]
        r = body.call_function(torch.ops.aten.add.Tensor, (src, e[j % m] if m else cc[j]), {"alpha": salt + j + 2})
        r.meta["val"] = fc[j]
        outs.append(r)
    body.output(tuple(outs))
    cm = module(cond)
    bm = module(body, **kids)

    def sem(carry, extra, truth):
        while True:
            if intc:
                t = carry[0] < k1
            else:
                t = truth(("op", "torch.aten.any", 0, (carry[-1],)))
            if not t:
                return carry
            ts = carry[total - n:]
            if inner is not None:
                ts = inner(ts, extra, truth)
            new = [carry[0] + 1 + salt] if intc else []
            for j in range(n):
                new.append(("op", "torch.aten.add.Tensor", 0, (ts[(j + 1) % n], extra[j % m] if m else ts[j], salt + j + 2)))
            carry = new

    return (cond, body), sem, {names[0]: cm, names[1]: bm}


def loop_program(p, n, m, intc, depth, names, salt, tuple_cond, entry, imp, fname):
    _, sem, kids = build_loop(n, m, intc, depth, names, salt, tuple_cond)
    fc, fe = [ops.fake(i) for i in range(n)], [ops.fake(6 + i) for i in range(m)]
    g = tfx.Graph()
    env = ops.ShapeEnv()
    e, c, vals = [], [], []
    for j in range(m):
        x = g.placeholder(f"e{j}")
        x.meta["val"] = fe[j]
        e.append(x)
        vals.append(("in", f"e{j}"))
    for j in range(n):
        x = g.placeholder(f"c{j}")
        x.meta["val"] = fc[j]
        c.append(x)
        vals.append(("in", f"c{j}"))
    ins = [*e, *c]
    extra, carry = vals[:m], vals[m:]
    carries = tuple(c)
    if intc:
        carries = (0, *carries)
        carry = [0, *carry]
    a, b = g.get_attr(names[0]), g.get_attr(names[1])
    w = g.call_function(torch.ops.higher_order.while_loop, (a, b, carries, tuple(e)))
    w.meta["val"] = tuple(([env.create_unbacked_symint()] if intc else []) + fc)
    outs, sel = [], list(reversed(range(len(carry))))
    for j in sel:
        q = g.call_function(operator.getitem, (w, j))
        q.meta["val"] = w.meta["val"][j]
        outs.append(q)
    g.output(tuple(outs))
    gm = module(g, **kids)
    from .symshape import run_import

    if entry == "module":
        imp.import_graph_module(gm, func_name=fname)
    else:
        run_import_named(imp, g, ins, outs, entry, fname)
    def expect(truth):
        r = sem(list(carry), list(extra), truth)
        return [r[j] for j in sel]
    return vals, expect, gm


def run_import_named(imp, g, ins, outs, how, fname):
    from torch.export.graph_signature import (ExportGraphSignature, InputKind, InputSpec, OutputKind, OutputSpec,
                                              SymIntArgument, TensorArgument)

    prog = types.SimpleNamespace(graph=g, range_constraints={}, state_dict={}, constants={})
    arg = lambda n: (SymIntArgument if isinstance(n.meta["val"], torch.SymInt) else TensorArgument)(n.name)
    prog.graph_signature = ExportGraphSignature(
        [InputSpec(InputKind.USER_INPUT, arg(n), None) for n in ins],
        [OutputSpec(OutputKind.USER_OUTPUT, arg(n), None) for n in outs])
    if how == "frozen":
        return imp.import_frozen_program(prog, func_name=fname)
    return imp.import_program(prog, func_name=fname)


NAMES = [("while_loop_cond_graph_0", "while_loop_body_graph_0"), ("f_0", "f"), ("f", "f_0"), ("f_1", "f")]


def check_loop(p, n, m, intc, depth, names, entry):
    tc = bool(p.choice(2))
    imp = core.fx().FxImporter(context=mlirpy.Context())
    vals, expect, gm = loop_program(p, n, m, intc, depth, names, 0, tc, entry, imp, "main")
    finish(p, imp, [("main", vals, expect)])


def finish(p, imp, mains):
    for fname, vals, expect in mains:
        truth = Truth(p, 3)
        ev = Loops(imp.module, truth)
        got = ev.call(fname, vals)
        if ev.bad:
            raise Counterexample("; ".join(sorted(set(ev.bad))), p.model())
        want = expect(truth)
        core.prove_equal(p, [ops.normal(x) for x in got], want, f"{fname}: {got}, expected {want}")


def check_history(p, names, entries):
    """Several programs imported by one importer; each program is dropped or
    kept before the next is imported."""
    imp = core.fx().FxImporter(context=mlirpy.Context())
    mains, keep = [], []
    with use_ids(p, 5):
        for i, e in enumerate(entries):
            vals, expect, gm = loop_program(p, 1, 1, False, 0, names, 20 * i, False, e, imp, f"main{i}")
            mains.append((f"main{i}", vals, expect))
            if p.choice(2):
                keep.append(gm)
            else:
                drop(gm)
            del gm
    finish(p, imp, mains)


def drop(gm):
    """Breaks the reference cycles of a module that the caller gives up."""
    for c in list(gm._modules):
        drop(gm._modules.pop(c))
    g = gm.graph
    g.owning_module = None
    gm.__dict__.pop("_graph", None)


# ------------------------------------------------------- auto_functionalized

_lib = None
SCHEMAS = ["mut1(Tensor(a!) x, Tensor y, int k, float f) -> ()", "mut2(Tensor(a!) x, Tensor(b!) z, bool q) -> Tensor",
           "mut3(Tensor y, Tensor(a!)[] xs, *, int[] ks, Tensor(c!)? z=None) -> (Tensor, Tensor)"]


def lib():
    global _lib
    if _lib is None:
        _lib = torch.library.Library("vtlib", "DEF")
        for s in SCHEMAS[:2]:
            _lib.define(s)
    return torch.ops.vtlib


def check_auto(p, which):
    from torch._higher_order_ops.auto_functionalize import auto_functionalized

    L = lib()
    target = [L.mut1.default, L.mut2.default][which]
    g = tfx.Graph()
    x, y = g.placeholder("x"), g.placeholder("y")
    x.meta["val"], y.meta["val"] = ops.fake(1), ops.fake(2)
    if which == 0:
        k, f = p.int("k", -2**62, 2**62), p.real("f")
        kw = dict(x=x, y=y, k=k, f=f)
        val = (None, ops.fake(3))
        want = [("op", "torch.vtlib.mut1", 0, (("in", "x"), ("in", "y"), k, f))]
        idx = [1]
    else:
        q = p.boolean("q")
        kw = dict(q=q, z=y, x=x)
        val = (ops.fake(3), ops.fake(4), ops.fake(5))
        want = [("op", "torch.vtlib.mut2", i, (("in", "x"), ("in", "y"), q)) for i in (2, 0, 1)]
        idx = [2, 0, 1]
    n = g.call_function(auto_functionalized, (target,), kw)
    n.meta["val"] = val
    outs = []
    for i in idx:
        o = g.call_function(operator.getitem, (n, i))
        o.meta["val"] = val[i]
        outs.append(o)
    g.output(tuple(outs))
    imp = core.fx().FxImporter(context=mlirpy.Context())
    imp.import_stateless_graph(g, func_name="main")
    ev = Loops(imp.module, None)
    got = ev.call("main", [("in", "x"), ("in", "y")])
    if ev.bad:
        raise Counterexample("; ".join(ev.bad), p.model())
    core.prove_equal(p, [ops.normal(v) for v in got], want, f"{got}, expected {want}")


# ----------------------------------------------------------- flex_attention


def check_flex(p, score, mask, results, swap):
    ops.fake(0)
    g = tfx.Graph()
    qkv = []
    for i, n in enumerate("qkv"):
        x = g.placeholder(n)
        x.meta["val"] = ops.fake(i)
        qkv.append(x)
    sk = p.choice(4)
    scale = [None, p.real("scale"), p.int("scale", -2**40, 2**40), "node"][sk]
    wscale = core._real(scale) if sk in (1, 2) else scale
    ins = [("in", n) for n in "qkv"]
    if sk == 3:
        s = g.placeholder("s")
        s.meta["val"] = ops.fake(7)
        scale, wscale = s, ("in", "s")
        ins.append(wscale)
    opts = {}
    for key in ("OUTPUT_LOGSUMEXP", "OUTPUT_MAX"):
        c = p.choice(3)
        if c:
            opts[key] = p.boolean(key) if c == 1 else p.int(key, 0, 1)
    lse, mx = opts.get("OUTPUT_LOGSUMEXP", False), opts.get("OUTPUT_MAX", False)
    kids, at, refs = {}, [], {}

    def fn(tag, op):
        h = tfx.Graph()
        phs = [h.placeholder(f"a{i}") for i in range(3)]
        for i, x in enumerate(phs):
            x.meta["val"] = ops.fake(10 + i)
        r = h.call_function(op, (phs[2], phs[0]))
        r.meta["val"] = ops.fake(14)
        h.output(r)
        kids[tag] = module(h)
        tin = ",".join(ops.vt(x.meta["val"]) for x in phs)
        return [f"({tin})->({ops.vt(ops.fake(14))})", [("op", "torch." + op._schema.name.replace("::", ".") + (
            "." + op._overloadname if op._overloadname != "default" else ""), 0, (("in", "arg2"), ("in", "arg0")))]]

    tags = ("sdpa_mask0", "sdpa_score0") if swap else ("sdpa_score0", "sdpa_mask0")
    # registration order differs from use order when swapped
    ms = []
    if mask:
        ms.append(["mask_mod_fn", fn(tags[1], torch.ops.aten.maximum.default)])
    if score:
        ms.append(["score_mod_fn", fn(tags[0], torch.ops.aten.minimum.default)])
    sm = g.get_attr(tags[0]) if score else None
    mm = g.get_attr(tags[1]) if mask else None
    block = (128, 128, qkv[0], qkv[1], mm) if mask != 2 else None
    if mask == 2:
        ms = [m for m in ms if m[0] != "mask_mod_fn"]
    n = g.call_function(torch.ops.higher_order.flex_attention, (*qkv, sm, block, scale, immutable_dict(opts), (), ()))
    vals = tuple(ops.fake(20 + i) for i in range(results))
    n.meta["val"] = vals if results > 1 else vals[0]
    outs = []
    if results > 1:
        for i in reversed(range(results)):
            o = g.call_function(operator.getitem, (n, i))
            o.meta["val"] = vals[i]
            outs.append(o)
    else:
        outs = [n]
    g.output(tuple(outs))
    gm = module(g, **kids)
    imp = core.fx().FxImporter(context=mlirpy.Context())
    imp.import_graph_module(gm, func_name="main")
    ev = Loops(imp.module, None)
    got = ev.call("main", ins)
    if ev.bad:
        raise Counterexample("; ".join(ev.bad), p.model())
    b = lambda v: v if isinstance(v, (bool, SymBool)) else v != 0
    want = [("op", "flex", i, (("in", "q"), ("in", "k"), ("in", "v"), wscale, b(lse), b(mx), *sorted(ms)))
            for i in reversed(range(results))]
    core.prove_equal(p, got, want, f"{got}, expected {want}")


def cases(tier):
    out = []
    for n in (1, 2, 3):
        for m in (0, 1, 2):
            for intc in (False, True):
                for depth in (0, 1) if tier == "quick" else (0, 1, 2):
                    for names in NAMES[:1] if depth == 0 else NAMES:
                        for e in ("program", "frozen", "module"):
                            if depth == 2 and (intc or n > 2 or m > 1):
                                continue
                            if tier == "quick" and depth and (n > 2 or m > 1 or e == "frozen"):
                                continue
                            out.append(("loop", n, m, intc, depth, names, e))
    for names in NAMES[:2]:
        for es in (("program", "program"), ("frozen", "module"), ("module", "program")):
            out.append(("history", names, es))
    if tier != "quick":
        out.append(("history", NAMES[0], ("program", "program", "program")))
    out += [("auto", 0), ("auto", 1)]
    for s in (0, 1):
        for m in (0, 1, 2):
            for r in (1, 2, 3):
                for w in (0, 1):
                    out.append(("flex", s, m, r, w))
    return out


def run(p, c):
    {"loop": check_loop, "history": check_history, "auto": check_auto, "flex": check_flex}[c[0]](p, *c[1:])
