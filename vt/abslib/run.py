"""Embedded library function == Python definition, per operator."""
import copy
import inspect
import random
import time
import typing
import warnings

import torch
import z3

from .. import symex
from ..dtypes import run as drun
from ..shapes import core, run as srun
from ..symex import BoundExceeded, Inconclusive, SymBool, SymInt, SymReal, valuate
from . import mlir

warnings.filterwarnings("ignore")
_L = {}


def lib():
    if not _L:
        drun.install()
        M = srun.modules()
        srun.load_specs()
        L = mlir.Library()
        lg = M["lg"]
        L.promote = lambda r, d: lg.promote_dtypes(list(r), [srun.DT[x] if isinstance(x, int) and not isinstance(x, bool) else x for x in d])
        L.scalar_dtype = lambda x: 4 if isinstance(x, (int, SymInt)) and not isinstance(x, bool) else \
            7 if isinstance(x, (float, SymReal)) else 11
        # the Python helper asks PyTorch; answer the same question for proxies
        real = lg.get_dtype_of_scalar

        def gds(x):
            if isinstance(x, (SymInt, SymReal)):
                return torch.int64 if isinstance(x, SymInt) else torch.float64
            return real(x)

        for m in (M["m"], lg):
            m.get_dtype_of_scalar = gds
        _L["L"] = L
        _L["M"] = M
    return _L["L"], _L["M"]


def names():
    """[(key, python function or None, embedded name or None)]"""
    L, M = lib()
    py = {}
    for k, f in vars(M["m"]).items():
        if "〡" in k and callable(f):
            op, kind = k.split("〡")
            py[f"__torch_mlir_{kind}_fn.{op.replace('〇', '.')}"] = f
    emb = {n for n in L.funcs if n.startswith("__torch_mlir_")}
    return py, emb


def fresh_dtype(p, g):
    return drun.SymDtype(p.int(g._name("dtype"), 0, drun.NDOM - 1).e)


def dtype_args(fn, g, p):
    a = {}
    for n, prm in inspect.signature(fn).parameters.items():
        ann = prm.annotation
        s = str(ann).replace("typing.", "")
        if n.endswith("_rank_dtype") or "Tuple[int, int]" in s or "tuple[int, int]" in s:
            def one():
                return (g.p.choice(3) if False else g.int("rank", 0, 3), fresh_dtype(p, g))
            if "List" in s or "list[" in s:
                if s.startswith("Optional[") :
                    a[n] = None if g.p.choice(2) else [one() for _ in range(2)]
                elif "Optional" in s:
                    a[n] = [one() if (i == 0 or not g.p.choice(2)) else None for i in range(2)]
                else:
                    a[n] = [one() for _ in range(1 + g.p.choice(3))]
            elif "Optional" in s or "None" in s:
                a[n] = one() if g.p.choice(2) else None
            else:
                a[n] = one()
            continue
        opt = "Optional" in s or "None" in s
        if opt and g.p.choice(2):
            a[n] = None
            continue
        args = set(typing.get_args(ann))
        if {int, float} <= args:
            a[n] = g.int(n, -3, 3) if g.p.choice(2) else g.real(n)
        elif n in drun.DTARGS or (n.endswith("dtype") and "int" in s):
            a[n] = fresh_dtype(p, g)
        elif "List[int]" in s or "list[int]" in s:
            a[n] = [g.int(n, -3, 3) for _ in range(2)]
        elif "List[float]" in s:
            a[n] = [1.5, 2.5]
        elif "List[bool]" in s:
            a[n] = [g.bool(n), g.bool(n), g.bool(n)]
        elif "bool" in s:
            a[n] = g.bool(n)
        elif "float" in s:
            a[n] = g.real(n)
        elif "int" in s:
            a[n] = g.int(n, -3, 3)
        elif "str" in s:
            a[n] = g.pick(*dict.fromkeys([prm.default if isinstance(prm.default, str) else "none", "none", "mean", "sum", "trunc", "floor"]))
        else:
            a[n] = None
    return a


def leaf_eq(x, y):
    """claim that two results agree, or None when their structures differ"""
    if x is core.ANY or y is core.ANY:
        return x is core.ANY and y is core.ANY
    if isinstance(x, (list, tuple)) or isinstance(y, (list, tuple)):
        if not (isinstance(x, (list, tuple)) and isinstance(y, (list, tuple))) or len(x) != len(y):
            return False
        r = [leaf_eq(u, v) for u, v in zip(x, y)]
        if any(c is False for c in r):
            return False
        return symex.and_(*r) if r else True
    if x is None or y is None:
        return x is None and y is None
    if isinstance(x, torch.dtype) or isinstance(y, torch.dtype) or isinstance(x, drun.SymDtype) or isinstance(y, drun.SymDtype):
        try:
            return symex.mkbool(drun.dexpr(x) == drun.dexpr(y))
        except TypeError:
            return False
    try:
        return x == y
    except TypeError:
        return False


def outcome(f):
    try:
        return "ok", f()
    except (BoundExceeded, Inconclusive, symex.PathAbort, mlir.Unsupported):
        raise
    except Exception as e:
        return "raises", f"{type(e).__name__}: {str(e)[:100]}"


def compare(ra, rb):
    if ra[0] != rb[0]:
        return False
    if ra[0] == "raises":
        return True
    return leaf_eq(ra[1], rb[1])


def run_fn(name, tier="quick", seed=1, max_seconds=100):
    L, M = lib()
    py, emb = names()
    out = dict(op=name, violations=[], status="ok", why="", samples=[], modes=[])
    stats = symex.Stats()
    if name not in py or name not in emb:
        where = "embedded text" if name not in emb else "Python definitions"
        out["violations"].append(f"{name} is absent from the {where}")
        out["stats"] = stats.as_dict()
        return out
    fn = py[name]
    kind = name[13:].split("_fn.")[0]
    op = name.split("_fn.", 1)[1].replace(".", "〇")
    modes = ["all"]
    if kind == "shape":
        modes = ["accepted", "any"] if op in core.SPECS else []
    if not modes:
        out["status"] = "uncovered"
    t0 = time.time()
    for mode in modes:
        last = {}
        st = symex.Stats()

        def harness(p):
            g = core.Gen(p, "quick")
            g.maxrank = (2 if mode == "any" else 3) if tier == "quick" else (3 if mode == "any" else 4)
            g.op = op
            g.cachemask = "cachemask" in op
            if kind == "shape":
                spec = core.SPECS[op]
                a = core.build_args(spec, fn, g)
                if mode == "accepted":
                    spec.fn(g, core.NS(a))
                a = dict(a)
            else:
                a = dtype_args(fn, g, p)
            p.assume(True)
            last["a"], last["p"] = a, p
            ca, cb = copy.deepcopy(a), copy.deepcopy(a)
            r1 = outcome(lambda: fn(**ca))
            r2 = outcome(lambda: L.call(name, list(cb.values())))
            st.reached += 1
            c = compare(r1, r2)
            if len(out["samples"]) < 1 and r1[0] == "ok":
                out["samples"].append(f"{name}{show(a)} -> {r1[1]} in both"[:300])
            p.prove(c, f"python {r1}, embedded {r2}")

        def on_cex(c):
            p = last["p"]
            a = conc(last["a"], c.model, p.vars)
            r1 = outcome(lambda: fn(**copy.deepcopy(a)))
            b = codes(copy.deepcopy(a))
            r2 = outcome(lambda: L.call(name, list(b.values())))
            r1 = (r1[0], codes(r1[1])) if r1[0] == "ok" else r1
            if compare(r1, r2) is not True:
                out["violations"].append(f"{name} on {show(codes(a))}: the Python definition gives {r1[1]}, the embedded library gives {r2[1]}")
                return True
            out["why"] += f" spurious: {c.what[:160]}"
            return False

        mods = [M["m"], M["up"], M["lg"]]
        with symex.shims(*mods):
            try:
                symex.explore(harness, max_paths=(400 if mode == "any" else 6000) if tier == "quick" else 20000, stats=st, on_cex=on_cex,
                              max_seconds=min(max_seconds, 8 if mode == "any" and tier == "quick" else 400))
                out["modes"].append(mode)
            except (BoundExceeded, Inconclusive, mlir.Unsupported) as e:
                if mode == "any":
                    out["modes"].append("any(partial)")
                else:
                    out["status"] = "inconclusive"
                    out["why"] += f"{mode}: {type(e).__name__} {e}"
            except Exception as e:
                import traceback
                tb = traceback.format_exc()[-400:]
                if mode == "any":  # a generator that relies on the requirements
                    out["modes"].append("any(n/a)")
                else:
                    out["status"] = "inconclusive"
                    out["why"] += f"{mode}: {type(e).__name__} {e} {tb}"
            finally:
                while symex._CTX:
                    symex._CTX.pop()
        stats.merge(st)
        if out["violations"]:
            break
    out["stats"] = stats.as_dict()
    out["wall"] = time.time() - t0
    return out


def show(d):
    return {k: v for k, v in d.items() if v is not None}


def conc(v, m, names_):
    if isinstance(v, drun.SymDtype):
        sub = [(e, symex._zval(e, m[n])) for n, e in names_.items() if n in m]
        return drun.DOM[z3.simplify(z3.substitute(v.e, *sub)).as_long()]
    if isinstance(v, dict):
        return {k: conc(x, m, names_) for k, x in v.items()}
    if isinstance(v, list):
        return [conc(x, m, names_) for x in v]
    if isinstance(v, tuple):
        return tuple(conc(x, m, names_) for x in v)
    return valuate(v, m, names_)


def codes(v):
    if isinstance(v, torch.dtype):
        return drun.CODE[v]
    if isinstance(v, dict):
        return {k: codes(x) for k, x in v.items()}
    if isinstance(v, list):
        return [codes(x) for x in v]
    if isinstance(v, tuple):
        return tuple(codes(x) for x in v)
    return v
