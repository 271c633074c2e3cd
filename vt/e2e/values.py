"""E01: a value is accepted iff it equals the golden value up to tolerance."""
import itertools
import math

import torch

from ..symex import and_, not_, or_
from . import core

LEAF = ("float", "int", "bool", "str", "tensor")
CONT = ("1tuple", "tuple", "list", "dict", "0tuple", "0list", "nested")
SHAPES = ((), (0,), (1,), (2,), (1, 2), (2, 1), (0, 2))
DTYPES = (torch.float64, torch.float32, torch.float16, torch.bfloat16, torch.int64, torch.int32, torch.int16, torch.int8, torch.uint8,
          torch.bool, torch.complex64)


def cases(tier):
    out = [("leaf", a, b) for a in LEAF for b in LEAF if {a, b} != {"bool", "int"}]
    out += [("shape", i, j) for i in range(len(SHAPES)) for j in range(len(SHAPES))]
    out += [("elems", d, k) for d in range(len(DTYPES) - 1) for k in (1, 2)]
    out += [("dtype", 0, 0), ("dims", 0, 0)]
    out += [("cont", a, b) for a in CONT for b in CONT]
    out += [("mixed", a, b) for a in CONT for b in ("float", "int", "str", "tensor")]
    out += [("mixed2", a, b) for a in CONT for b in ("float", "int", "str", "tensor")]
    out += [("len", a, b) for a in range(4) for b in range(4)]
    out += [("keys", a, 0) for a in range(4)]
    out += [("known", "E01-float-ratio", i) for i in range(3)]
    if tier != "quick":
        out += [("elems", d, k) for d in range(len(DTYPES) - 1) for k in (3, 4)]
        out += [("deep", a, b) for a in range(6) for b in range(6)]
    return out


def fl(p, tag):
    k = p.choice(4, tag + " kind")
    if k:
        return (math.nan, math.inf, -math.inf)[k - 1]
    return p.real(tag)


def leaf(p, kind, tag, n=2, dtype=torch.float64):
    if kind == "float":
        return fl(p, tag)
    if kind == "int":
        return p.int(tag)
    if kind == "bool":
        return p.boolean(tag)
    if kind == "str":
        return ("a", "b", "")[p.choice(3, tag)]
    return core.tensor(p, elems(p, tag, n, dtype), (n,), dtype)


def elems(p, tag, n, dtype):
    if dtype == torch.bool:
        return [p.int(f"{tag}{i}", 0, 1) for i in range(n)]
    if dtype.is_floating_point:
        if getattr(p, "concrete", False) or dtype == torch.float64:
            return [fl(p, f"{tag}{i}") for i in range(n)]
        return [fl(p, f"{tag}{i}") for i in range(n)]
    lo, hi = (torch.iinfo(dtype).min, torch.iinfo(dtype).max) if dtype != torch.int64 else (-2**52, 2**52)
    return [p.int(f"{tag}{i}", lo, hi) for i in range(n)]


# ------------------------------------------------------------ specification


def close(v, g, rel, ab, slack):
    """(must be accepted, must be rejected)"""
    if core.isnan(v) or core.isnan(g):
        s = core.isnan(v) and core.isnan(g)
        return s, not s
    if core.isinf(v) or core.isinf(g):
        s = core.isinf(v) and core.isinf(g) and v == g
        return s, not s
    d, t = abs(v - g), abs(g) * rel + ab
    return or_(v == g, d <= t * (1 - slack)), and_(not_(v == g), d > t * (1 + slack))


def one(x):
    return x[0] if isinstance(x, tuple) and len(x) == 1 else x


def kind(x):
    from ..instr import vt_type

    t = vt_type(x)
    return "tensor" if isinstance(x, (core.VTensor, torch.Tensor)) else t.__name__


def parts(x):
    """elements of a real or stand-in tensor"""
    return x.elems if isinstance(x, core.VTensor) else x.reshape(-1).tolist()


SLACK = {torch.float32: 1e-3, torch.float16: 0.9, torch.bfloat16: 0.9}


def spec(v, g):
    v, g = one(v), one(g)
    kv, kg = kind(v), kind(g)
    if kv != kg:
        return False, True
    if kg == "float":
        return close(v, g, 1e-4, 0, 0.01)
    if kg in ("int", "bool", "str"):
        e = v == g
        return e, not_(e)
    if kg == "tensor":
        sv, sg = tuple(v.shape), tuple(g.shape)
        if len(sv) != len(sg) or v.dtype != g.dtype:
            return False, True
        same = and_(True, *[a == b for a, b in zip(sv, sg)])
        if same is False:
            return False, True
        ok, bad = same, not_(same)
        if len(parts(v)) == len(parts(g)):
            for a, b in zip(parts(v), parts(g)):
                x, y = close(a, b, 1e-3, 1e-7, SLACK.get(v.dtype, 0.01))
                ok, bad = and_(ok, x), or_(bad, y)
        return ok, bad
    if kg == "dict":
        if set(v) != set(g):
            return False, True
        ps = [(v[k], g[k]) for k in g]
    else:
        if len(v) != len(g):
            return False, True
        ps = list(zip(v, g))
    ok, bad = True, False
    for a, b in ps:
        x, y = spec(a, b)
        ok, bad = and_(ok, x), or_(bad, y)
    return ok, bad


def known_float(v, g):
    """Finding E01-float-ratio: some float is compared with a golden float that is not a positive number."""
    v, g = one(v), one(g)
    kv, kg = kind(v), kind(g)
    if kv != kg:
        return False
    if kg == "float":
        return core.isnan(g) or core.isinf(g) or core.isnan(v) or core.isinf(v) or g <= 0
    if kg == "dict":
        return or_(False, *[known_float(v[k], g[k]) for k in g if k in v])
    if kg in ("tuple", "list"):
        return or_(False, *[known_float(a, b) for a, b in zip(v, g)])
    return False


def verdict(p, v, g, what, probe=False):
    R = core.module("reporting")
    if not probe and known_float(v, g):
        return
    ok, bad = spec(v, g)
    r = R.ValueReport(v, g, R.ErrorContext.empty().chain("here"))
    failed = bool(r.failed)
    if failed:
        p.prove(not_(ok), f"{what}: a value within tolerance of the golden value is rejected (value {show(v)}, golden {show(g)})")
        p.prove(bool(r.error_str()), f"{what}: rejected without an explanation")
    else:
        p.prove(not_(bad), f"{what}: a value that differs from the golden value is accepted (value {show(v)}, golden {show(g)})")


def show(x):
    return repr(x).replace("\n", " ")[:120]


def cont(p, k, tag):
    f = lambda i: leaf(p, "int" if i % 2 else "float", f"{tag}{i}")
    if k == "1tuple":
        return (f(0),)
    if k == "tuple":
        return (f(0), f(1))
    if k == "list":
        return [f(0), f(1)]
    if k == "dict":
        return {"x": f(0), "y": f(1)} if p.choice(2, tag + " order") else {"y": f(1), "x": f(0)}
    if k == "0tuple":
        return ()
    if k == "0list":
        return []
    return (f(1), [f(3), {"k": f(5)}])


def run(p, case):
    what, a, b = case
    if what == "known":
        x, y = [(1.0, -1.0), (1.0, float("nan")), (0.0, 0.0)][b]
        return verdict(p, x, y, f"float {x} against {y}", probe=True)
    if what == "leaf":
        return verdict(p, leaf(p, a, "v"), leaf(p, b, "g"), f"{a} against {b}")
    if what == "shape":
        def t(i, tag):
            n = math.prod(SHAPES[i])
            return core.tensor(p, [p.int(f"{tag}{j}", -2**40, 2**40) for j in range(n)], SHAPES[i], torch.int64)
        return verdict(p, t(a, "v"), t(b, "g"), f"tensor of shape {SHAPES[a]} against {SHAPES[b]}")
    if what == "elems":
        dt = DTYPES[a]
        return verdict(p, leaf(p, "tensor", "v", b, dt), leaf(p, "tensor", "g", b, dt), f"{dt} tensors")
    if what == "dtype":
        x, y = DTYPES[p.choice(len(DTYPES))], DTYPES[p.choice(len(DTYPES))]
        return verdict(p, core.tensor(p, [0, 1], (2,), x), core.tensor(p, [0, 1], (2,), y), f"{x} tensor against {y}")
    if what == "dims":
        def t(tag):
            r = p.choice(4, tag + " rank")
            sh = [p.int(f"{tag}{i}", 0, 4) for i in range(r)]
            if getattr(p, "concrete", False):
                return torch.zeros(sh)
            return core.VTensor([], sh, torch.float32)
        return verdict(p, t("v"), t("g"), "tensors of zeros")
    if what == "cont":
        return verdict(p, cont(p, a, "v"), cont(p, b, "g"), f"{a} against {b}")
    if what == "mixed":
        return verdict(p, cont(p, a, "v"), leaf(p, b, "g"), f"{a} against {b}")
    if what == "mixed2":
        return verdict(p, leaf(p, b, "v"), cont(p, a, "g"), f"{b} against {a}")
    if what == "len":
        mk = (tuple, list)[p.choice(2)]
        return verdict(p, mk(p.int(f"v{i}") for i in range(a)), mk(p.int(f"g{i}") for i in range(b)), f"{mk.__name__} of {a} against {b}")
    if what == "keys":
        ks = ("a", "b", "c")
        v = {k: p.int("v" + k) for k in ks if p.choice(2, k)}
        g = {k: p.int("g" + k) for i, k in enumerate(ks[:2]) if a >> i & 1}
        return verdict(p, v, g, "dict")
    if what == "deep":
        f = [lambda t: (leaf(p, "tensor", t + "0", 1), leaf(p, "float", t + "1")),
             lambda t: [(leaf(p, "int", t + "0"),), leaf(p, "float", t + "1")],
             lambda t: {"a": (leaf(p, "int", t + "0"), leaf(p, "bool", t + "1")), "b": [leaf(p, "str", t + "2")]},
             lambda t: ((leaf(p, "int", t + "0"), leaf(p, "int", t + "1")), (leaf(p, "int", t + "2"),)),
             lambda t: [{"a": leaf(p, "tensor", t + "0", 1)}, {"a": leaf(p, "int", t + "1")}],
             lambda t: (([leaf(p, "int", t + "0")], "s"), {})]
        return verdict(p, f[a]("v"), f[b]("g"), "nested values")
    raise KeyError(what)
