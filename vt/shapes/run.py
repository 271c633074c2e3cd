"""Runs one operator's shape function symbolically against its specification."""
import copy
import importlib
import time
import warnings

import torch
import z3

from .. import load, symex
from ..symex import Counterexample, PathAbort, BoundExceeded, Inconclusive, valuate
from . import core
from .core import ANY, SPECS, Gen

warnings.filterwarnings("ignore")
_M = {}


def modules():
    if not _M:
        m, lg, rec = load.abstract_interp()
        import torch.jit._shape_functions as up

        _M.update(m=m, up=up, lg=lg, rec=rec)

        m.hacky_get_unknown_dimension_size = lambda: ANY
        if hasattr(up, "hacky"):
            pass
    return _M


_FAMS = "s01 s02 s03 s04 s05 s06 s07".split()


def load_specs():
    import os

    here = os.path.dirname(__file__)
    for f in _FAMS:
        if os.path.exists(f"{here}/{f}.py"):
            mod = importlib.import_module(f"vt.shapes.{f}")
            for s in SPECS.values():
                if not hasattr(s, "group"):
                    s.group = mod.GROUP
    from . import known

    if not any(s.known for s in SPECS.values()):
        known.install()
    return SPECS


def shape_fn(op):
    m = modules()["m"]
    return getattr(m, op + "〡shape")


def norm(r):
    """Result -> list of shapes."""
    if isinstance(r, tuple):
        return [x if x is ANY else list(x) for x in r]
    if isinstance(r, list) and r and isinstance(r[0], list):
        return [list(x) for x in r]
    return [list(r)]


def eq_shapes(x, y):
    """Claim (bool or symbolic) that two result lists agree; y is expected."""
    if len(x) != len(y):
        return False, f"{len(x)} results, expected {len(y)}"
    cs = []
    for s, t in zip(x, y):
        if t is ANY:
            continue
        if len(s) != len(t):
            return False, f"rank {len(s)}, expected {len(t)}"
        for u, v in zip(s, t):
            if u is ANY or v is ANY:
                if not (u is ANY and v is ANY):
                    return False, f"data-dependent size mismatch {s} vs {t}"
                continue
            cs.append(u == v)
    if all(c is True for c in cs):
        return True, ""
    return symex.and_(*cs), f"sizes {x} vs expected {y}"


# ------------------------------------------------------------- torch replay

DT = {i: d for i, d in enumerate([
    torch.uint8, torch.int8, torch.int16, torch.int32, torch.int64, torch.float16,
    torch.float32, torch.float64, torch.complex32, torch.complex64, torch.complex128,
    torch.bool, torch.qint8, torch.quint8, torch.qint32, torch.bfloat16])}


def torch_op(op):
    parts = op.split("〇")
    ns = getattr(torch.ops, parts[0])
    o = getattr(ns, parts[1])
    return getattr(o, parts[2]) if len(parts) > 2 else o.default


def mk_tensor(size, dtype, val, device):
    dtype = dtype or torch.float32
    if device == "meta":
        return torch.empty(size, dtype=dtype, device="meta")
    if dtype in (torch.quint8, torch.qint8):
        return torch._empty_affine_quantized(size, scale=1.0, zero_point=0, dtype=dtype)
    if isinstance(val, (int, float)) or val is None:
        return torch.full(size, val or 0, dtype=dtype)
    return val(size, dtype)


def torch_shapes(spec, args):
    """('ok', shapes) | ('reject', message) | ('none', why)"""
    if spec.torch_args == "none" or not spec.oracle:
        return "none", "no oracle"
    try:
        op = torch_op(spec.op)
        args = {k: ("cpu" if callable(v) else v) for k, v in args.items()}
    except (AttributeError, RuntimeError) as e:
        return "none", str(e)[:80]
    total = 0

    def count(v):
        nonlocal total
        if isinstance(v, list):
            if all(isinstance(x, int) for x in v):
                n = 1
                for x in v:
                    n *= abs(x)
                total += n
            else:
                for x in v:
                    count(x)

    for v in args.values():
        count(v)
    devices = [spec.device] if spec.device else (["cpu", "meta"] if total < 200000 else ["meta"])
    last = None
    for dev in devices:
        try:
            call = {}
            names = [x.name for x in op._schema.arguments]
            for sa in op._schema.arguments:
                n = {"from": "from_"}.get(sa.name, sa.name)
                if n not in args:
                    # TorchScript names differ for a few operands: positional match
                    continue
                v = args[n]
                t = str(sa.type)
                dt = spec.dt.get(n)
                val = spec.val.get(n)
                if "Tensor" in t:
                    if v is None:
                        w = None
                    elif "List[" in t or "[]" in t:
                        w = [None if x is None else mk_tensor(x, dt, val, dev) for x in v]
                    else:
                        w = mk_tensor(v, dt, val, dev)
                elif n in ("dtype", "out_dtype", "output_dtype", "input_dtype") and isinstance(v, int):
                    w = DT[v]
                elif n == "memory_format" and v == 0:
                    w = torch.contiguous_format
                elif n == "device":
                    w = dev
                else:
                    w = v
                call[sa.name] = w
            if "device" in names and call.get("device") is None and \
                    not any("Tensor" in str(x.type) for x in op._schema.arguments):
                call["device"] = dev
            pos = [x.name for x in op._schema.arguments if not x.kwarg_only and x.name in call]
            allpos = [x.name for x in op._schema.arguments if not x.kwarg_only]
            if pos == allpos[:len(pos)]:
                r = op(*[call[n] for n in pos], **{n: v for n, v in call.items() if n not in pos})
            else:
                r = op(**call)
        except NotImplementedError as e:
            last = ("none", str(e)[:100])
            continue
        except Exception as e:
            msg = f"{type(e).__name__}: {str(e)[:160]}"
            if "not implemented" in msg.lower() or "Could not run" in msg:
                last = ("none", msg)
                continue
            return "reject", msg
        if isinstance(r, torch.Tensor):
            r = [r]
        out = []
        for t in r:
            out.append(list(t.shape) if isinstance(t, torch.Tensor) else t)
        return "ok", out
    return last


def concrete_call(fn, args):
    try:
        r = fn(**copy.deepcopy(args))
    except Exception as e:
        return "raises", f"{type(e).__name__}: {str(e)[:120]}"
    return "ok", norm(r)


def match(x, y):
    return eq_shapes(x, y)[0] is True


def agree(got, tr, expected):
    """got (may hold ANY sizes) equals the concrete result shapes tr, ignoring
    results PyTorch leaves undefined and results the spec leaves open."""
    if len(got) != len(tr):
        return False
    for i, (s, t) in enumerate(zip(got, tr)):
        if t is None or s is ANY or (i < len(expected) and expected[i] is ANY):
            continue
        if len(s) != len(t) or any(u is not ANY and u != v for u, v in zip(s, t)):
            return False
    return True


def replay(spec, fn, args, expected):
    """Decide a counterexample on the real code with plain values.
    ('violation', text) or ('spurious', text)."""
    st, got = concrete_call(fn, args)
    ts, tr = torch_shapes(spec, args)
    show = {k: v for k, v in args.items() if v is not None}
    if ts == "ok":
        exp = tr
        if st == "ok":
            if agree(got, exp, expected):
                return "spurious", f"{spec.op}{show}: real code agrees with PyTorch {exp}; spec said {expected}"
        return "violation", f"{spec.op} on {show}: shape function gives {got}, PyTorch gives {exp}"
    if ts == "reject":
        return "spurious", f"{spec.op}{show}: PyTorch rejects: {tr}; impl {got}, spec {expected}"
    if st == "ok" and match(got, expected):
        return "spurious", f"{spec.op}{show}: real code agrees with the specification {expected}"
    return "violation", f"{spec.op} on {show}: shape function gives {got}, expected {expected} [{ts}: {tr}]"


def run_spec(op, tier="quick", validate=False, max_paths=6000, max_seconds=120, seed=1):
    """Explore one operator.  Returns a picklable summary."""
    import z3 as _z3

    _z3.set_param("smt.random_seed", seed)
    M = modules()
    spec = SPECS[op]
    fn = shape_fn(op)
    stats = symex.Stats()
    out = dict(op=op, violations=[], spurious=[], known={}, validated=0, invalid=[], nooracle=0,
               status="ok", why="", samples=[])
    t0 = time.time()
    last = {}
    nvalid = {"n": 0}

    def harness(p):
        g = Gen(p, tier)
        g.cachemask = "cachemask" in op
        g.op = op
        a = core.build_args(spec, fn, g)
        exp = spec.fn(g, core.NS(a))
        exp = norm(exp)
        last["a"], last["exp"], last["p"] = a, exp, p
        p.assume(True)
        fids = []
        for fid, pred, what in spec.known:
            c = pred(a)
            if c is True or (c is not False and p.branch(symex.bx(c))):
                fids.append(fid)
        last["fids"] = fids
        if validate:
            m = p.model()
            ca = valuate(dict(a), m, p.vars)
            ce = valuate(exp, m, p.vars)
            st, tr = torch_shapes(spec, ca)
            if st == "none":
                out["nooracle"] += 1
                last_none[0] = tr
            elif st == "reject":
                out["invalid"].append(("torch rejects", show(ca), ce, tr))
            else:
                out["validated"] += 1
                if not agree(ce, tr, ce):
                    out["invalid"].append(("spec differs from torch", show(ca), ce, tr))
        call = copy.deepcopy(dict(a))
        try:
            r = fn(**call)
        except Exception as e:
            p.prove(False, f"raises {type(e).__name__}: {str(e)[:100]}")
            return
        r = norm(r)
        stats.reached += 1
        claim, why = eq_shapes(r, exp)
        if len(out["samples"]) < 2 and claim is not False:
            out["samples"].append(f"{show(a)} -> {exp}"[:300])
        p.prove(claim, why)

    last_none = [""]

    def show(d):
        return {k: v for k, v in d.items() if v is not None}

    def on_cex(c):
        p = last["p"]
        m = c.model
        ca = valuate(dict(last["a"]), m, p.vars)
        ce = valuate(last["exp"], m, p.vars)
        kind, text = replay(spec, fn, ca, ce)
        if kind == "violation":
            if last["fids"]:
                for f in last["fids"]:
                    out["known"].setdefault(f, text)
                return False
            out["violations"].append(text)
            return len(out["violations"]) >= 1
        if not last["fids"]:
            out["spurious"].append(text + " [" + c.what + "]")
        return len(out["spurious"]) > 40

    with symex.shims(M["m"], M["up"]):
        try:
            symex.explore(harness, max_paths=max_paths, stats=stats, on_cex=on_cex,
                          max_seconds=max_seconds)
        except (BoundExceeded, Inconclusive) as e:
            if not out["violations"]:
                out["status"] = "inconclusive"
                out["why"] = str(e)
    if validate and out["nooracle"]:
        out["why"] += " nooracle: " + last_none[0]
    if out["status"] == "ok" and out["spurious"] and not out["violations"]:
        out["status"] = "spurious"
    if out["status"] == "ok" and stats.reached == 0 and not out["violations"] and not out["known"]:
        out["status"] = "vacuous"
    out["stats"] = stats.as_dict()
    out["wall"] = time.time() - t0
    return out
