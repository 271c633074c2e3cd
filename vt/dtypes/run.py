"""Result-dtype functions, executed with symbolic dtypes.

An operand's dtype is a z3 integer (an index into DOM).  PyTorch's answers for a
sample of operand shapes (taken from the shape specifications) form a table; for
every path of the dtype function the solver decides that no dtype assignment of
that path contradicts the table."""
import inspect
import itertools
import time
import types
import typing
import warnings

import torch
import z3

from .. import symex
from ..shapes import core, run as srun
from ..symex import (BoundExceeded, Inconclusive, PathAbort, SymBool, SymInt, bx, ctx, mkbool,
                     mkint, valuate)

# meta kernels are registered on import: fix which ones exist before any query
import torch._prims, torch._refs, torch._decomp, torch._meta_registrations  # noqa
import torch.ao.quantization.fx._decomposed  # noqa: registers quantized_decomposed

warnings.filterwarnings("ignore")

DOM = [torch.bool, torch.uint8, torch.int8, torch.int16, torch.int32, torch.int64, torch.bfloat16,
       torch.float16, torch.float32, torch.float64, torch.complex64, torch.complex128]
NDOM = 12  # operands range over these; the rest only arise as intermediate results
DOM += [getattr(torch, n) for n in ("complex32", "bcomplex32") if hasattr(torch, n)]
IDX = {d: i for i, d in enumerate(DOM)}
CODE = {v: k for k, v in srun.DT.items()}  # torch.dtype -> scalar type code
OTHER = {}  # dtypes outside the domain -> negative index


def index_of(d):
    if d in IDX:
        return IDX[d]
    if d not in OTHER:
        import zlib
        OTHER[d] = -2 - (CODE[d] if d in CODE else 100 + zlib.crc32(str(d).encode()))
    return OTHER[d]


def dtype_name(i):
    if i is None:
        return None
    if i >= 0:
        return str(DOM[i]).replace("torch.", "")
    return next((str(k) for k, v in OTHER.items() if v == i), f"code{-2 - i}").replace("torch.", "")


class SymDtype:
    """Stands for a torch.dtype (or its integer code)."""
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def _idx(self, o):
        if isinstance(o, SymDtype):
            return o.e
        if isinstance(o, torch.dtype):
            return z3.IntVal(index_of(o))
        if isinstance(o, int) and not isinstance(o, bool) and o in srun.DT:
            return z3.IntVal(index_of(srun.DT[o]))
        return None

    def __eq__(self, o):
        i = self._idx(o)
        return False if i is None else mkbool(self.e == i)

    def __ne__(self, o):
        return symex.not_(self.__eq__(o))

    def conc(self):
        return DOM[ctx().concretize(self.e)]

    def __hash__(self):
        return hash(self.conc())

    def __deepcopy__(self, memo):
        return self

    def __getattr__(self, k):
        if k == "e" or k.startswith("__"):
            raise AttributeError(k)
        return getattr(self.conc(), k)

    def __index__(self):
        return CODE[self.conc()]

    __int__ = __index__

    def __repr__(self):
        return f"SymDtype({symex.short(self.e)})"


def mkdt(e):
    e = z3.simplify(e)
    if z3.is_int_value(e):
        i = e.as_long()
        return DOM[i] if i >= 0 else next(k for k, v in OTHER.items() if v == i)
    return SymDtype(e)


def dexpr(d):
    if isinstance(d, SymDtype):
        return d.e
    if isinstance(d, torch.dtype):
        return z3.IntVal(index_of(d))
    if isinstance(d, int) and d in srun.DT:
        return z3.IntVal(index_of(srun.DT[d]))
    raise TypeError(f"not a dtype: {d!r}")


# ---- symbolic versions of the leaf promotion queries (torch.result_type)

_tables = {}


def _table(kind, fn):
    if kind not in _tables:
        t = _tables[kind] = {}
        for i in range(len(DOM)):
            if kind[0] == "s" and DOM[i] not in (torch.int64, torch.float64):
                continue
            for j in range(len(DOM)):
                try:
                    t[i, j] = index_of(fn(DOM[i], DOM[j]))
                except Exception:
                    pass
    return _tables[kind]


def lookup(kind, fn, a, b):
    t = _table(kind, fn)
    ea, eb = dexpr(a), dexpr(b)
    r = z3.IntVal(-1)
    byv = {}
    for k, v in t.items():
        byv.setdefault(v, []).append(k)
    for v, ks in byv.items():
        rows = {}
        for i, j in ks:
            rows.setdefault(j, []).append(i)
        r = z3.If(z3.Or(*[z3.And(eb == j, z3.Or(*[ea == i for i in iis])) for j, iis in rows.items()]), z3.IntVal(v), r)
    return mkdt(r)


_installed = {}


def install():
    """The three leaf queries of promote_dtypes are answered for symbolic dtypes
    from a table filled by the real leaf functions."""
    if _installed:
        return _installed["m"]
    M = srun.modules()
    lg = M["lg"]
    st, tt = lg._promote_scalar_tensor, lg._promote_tensor_tensor

    def sym(x):
        return isinstance(x, SymDtype)

    def pst(scalar_dtype, tensor_rank, tensor_dtype):
        if not (sym(scalar_dtype) or sym(tensor_dtype)):
            return st(scalar_dtype, tensor_rank, tensor_dtype)
        z = tensor_rank == 0
        if sym(scalar_dtype):
            # only int64 and float64 scalars are handled by the real code
            if not bool(symex.or_(scalar_dtype == torch.int64, scalar_dtype == torch.float64)):
                raise ValueError(f"Unhandled dtype: {scalar_dtype}")
        return lookup(f"s{int(z)}", lambda a, b: st(a, 0 if z else 1, b), scalar_dtype, tensor_dtype)

    def ptt(lr, ld, rr, rd):
        if not (sym(ld) or sym(rd)):
            return tt(lr, ld, rr, rd)
        a, b = lr == 0, rr == 0
        return lookup(f"t{int(a)}{int(b)}", lambda x, y: tt(0 if a else 1, x, 0 if b else 1, y), ld, rd)

    lg._promote_scalar_tensor = pst
    lg._promote_tensor_tensor = ptt
    _installed["m"] = M
    return M


# ---------------------------------------------------------------- samples

# no meaningful dtype oracle here: the target dtype must be a quantized one
SKIP = {"aten〇quantize_per_tensor"}
DTARGS = ("dtype", "out_dtype", "output_dtype", "input_dtype")


def has_sizes_pos(v):
    if isinstance(v, list):
        return all(has_sizes_pos(x) for x in v)
    return True


def samples(op, limit, seed):
    """Concrete valid shape-level arguments of op, one per kind."""
    spec = core.SPECS[op]
    fn = srun.shape_fn(op)
    out = {}
    seen = [0]

    class Done(BaseException):
        pass

    def harness(p):
        g = core.Gen(p, "quick")
        g.cachemask = "cachemask" in op
        g.op = op
        a = core.build_args(spec, fn, g)
        spec.fn(g, core.NS(a))
        p.assume(True)
        sh = shape_params(fn)
        nice = []
        for n, v in a.items():
            if n in sh and v is not None:
                for x in (y for z in ([v] if not (v and isinstance(v[0], (list, type(None)))) else v) for y in (z or [])):
                    if isinstance(x, SymInt):
                        nice += [x.e >= 1, x.e <= 3]
        m = canonical(p, nice)
        ca = valuate(dict(a), m, p.vars)
        key = []
        for n, v in ca.items():
            if n in sh:
                if v is None:
                    key.append(None)
                elif v and isinstance(v[0], (list, type(None))):
                    key.append(tuple(None if x is None else min(len(x), 1) for x in v))
                else:
                    key.append(min(len(v), 1))
            elif isinstance(v, (bool, str)) or v is None:
                key.append(v)
        key = tuple(key)
        tot = sum(z for v in flat(ca) for z in [v] if isinstance(v, int))
        if key not in out or tot < out[key][0]:
            out[key] = (tot, ca)
        seen[0] += 1
        if len(out) >= limit or seen[0] > 60:
            raise Done()

    try:
        symex.explore(harness, max_paths=500, max_seconds=20)
    except (Done, BoundExceeded, Inconclusive):
        pass
    finally:
        while symex._CTX:
            symex._CTX.pop()
    return {k: v[1] for k, v in out.items()}


def canonical(p, nice):
    """A model that does not depend on the solver's history: each variable in
    turn takes the first feasible value of a fixed list."""
    xs = [c for c in [z3.And(*nice) if nice else None] if c is not None and p._check(c) == z3.sat]
    m = {}
    for n, v in p.vars.items():
        if z3.is_bool(v):
            cands = [z3.BoolVal(False), z3.BoolVal(True)]
        elif z3.is_int(v):
            cands = [z3.IntVal(k) for k in (1, 2, 3, 0, 4, -1, 5, 6, 7, 8, 9, 10, 12, 16, -2, 20, 32, 64)]
        else:
            cands = [z3.RealVal(k) for k in (0, 1, "1/2", 2, -1)]
        for c in cands:
            if p._check(*xs, v == c) == z3.sat:
                break
        else:
            o = z3.Optimize()
            o.add(*p.solver.assertions(), *xs)
            o.minimize(v)
            o.check()
            c = o.model().eval(v, model_completion=True)
        xs.append(v == c)
        m[n] = z3.is_true(c) if z3.is_bool(v) else c.as_long() if z3.is_int(v) else c.as_fraction()
    return m


def flat(v):
    if isinstance(v, dict):
        for x in v.values():
            yield from flat(x)
    elif isinstance(v, (list, tuple)):
        for x in v:
            yield from flat(x)
    else:
        yield v


def dtype_fn(op):
    return getattr(srun.modules()["m"], op + "〡dtype", None)


def shape_params(fn):
    """names of tensor-like parameters, by their dtype-function names"""
    op = fn.__name__[:-6]
    d = dtype_fn(op)
    if d is None:
        return []
    return [n[:-11] for n in inspect.signature(d).parameters if n.endswith("_rank_dtype")]


# ------------------------------------------------------------ the PyTorch side

_tc = {}


def tensor(size, dt, val, dev, zero=False):
    k = (tuple(size), dt, dev, zero)
    if val is not None and callable(val):
        return srun.mk_tensor(size, dt, val, dev)
    if k not in _tc:
        if len(_tc) > 4000:
            _tc.clear()
        _tc[k] = torch.empty(size, dtype=dt, device="meta") if dev == "meta" else (torch.zeros if zero else torch.ones)(size, dtype=dt)
    t = _tc[k]
    return t if dev == "meta" else t.clone()


def call_torch(spec, op, args, dts, scal, dtarg, dev):
    """dts: operand -> dtype or list; -> tuple of result indices or None"""
    call = {}
    for sa in op._schema.arguments:
        n = {"from": "from_"}.get(sa.name, sa.name)
        if n not in args and n not in dtarg:
            continue
        v = args.get(n)
        t = str(sa.type)
        val = spec.val.get(n)
        z = n in spec.dt  # index-like operands hold zeros
        if n in dtarg:
            w = dtarg[n]
            if w is OMIT:
                if sa.has_default_value():
                    continue
                w = None
        elif n in dts:
            if v is None:
                w = None
            elif isinstance(dts[n], list):
                w = [None if x is None else tensor(x, d, val, dev, z) for x, d in zip(v, dts[n])]
            else:
                w = tensor(v, dts[n], val, dev, z)
        elif n in scal:
            w = scal[n]
        elif n == "memory_format" and v == 0:
            w = torch.contiguous_format
        elif n == "device":
            w = dev
        else:
            w = v
        call[sa.name] = w
    if "device" in [x.name for x in op._schema.arguments] and call.get("device") is None and not dts:
        call["device"] = dev
    try:
        allpos = [x.name for x in op._schema.arguments if not x.kwarg_only]
        pos = [n for n in allpos if n in call]
        if pos == allpos[:len(pos)]:
            r = op(*[call[n] for n in pos], **{n: v for n, v in call.items() if n not in pos})
        else:
            r = op(**call)
    except Exception:
        return None
    if not isinstance(r, (tuple, list)):
        r = [r]
    out = []
    for t in r:
        if isinstance(t, torch.Tensor):
            out.append(index_of(t.dtype))
        elif t is None:
            out.append(None)
        elif isinstance(t, bool):
            out.append(index_of(torch.bool))
        elif isinstance(t, int):
            out.append(index_of(torch.int64))
        elif isinstance(t, float):
            out.append(index_of(torch.float64))
        else:
            return None
    return tuple(out)


OMIT = object()
# the dtype argument must name the dtype of this operand
TIED = {"aten〇_softmax_backward_data": {"input_dtype": "output"}, "aten〇_log_softmax_backward_data": {"input_dtype": "output"}}
FIXIDX = {"aten〇_embedding_bag", "aten〇embedding_bag〇padding_idx"}
FLOATONLY = {"prims〇sum", "prims〇prod", "prims〇sqrt"}
SCAL = {"int": 2, "float": 2.5}
KEEP_SCALAR = ("dim", "eps")


def slots_of(op, args):
    """[(operand, element index or None)] whose dtypes vary; ties."""
    fn = dtype_fn(op)
    sl = []
    for n in inspect.signature(fn).parameters:
        if not n.endswith("_rank_dtype"):
            continue
        b = n[:-11]
        v = args.get(b)
        if v is None:
            continue
        if v and isinstance(v[0], (list, type(None))) and "List[Tuple" in str(inspect.signature(fn).parameters[n].annotation) or \
                "List[" in str(inspect.signature(fn).parameters[n].annotation):
            sl += [(b, i) for i in range(len(v)) if v[i] is not None]
        else:
            sl.append((b, None))
    return sl


def run_op(op, tier="quick", seed=1, known=None, max_seconds=200, gen=None):
    M = install()
    t0 = time.time()
    spec = core.SPECS[op]
    fn = dtype_fn(op)
    sig = inspect.signature(fn)
    stats = symex.Stats()
    out = dict(op=op, violations=[], known=[], status="ok", why="", samples=[], cells=0, kinds=0)
    try:
        tocall = srun.torch_op(op)
    except (AttributeError, RuntimeError) as e:
        out["status"] = "nooracle"
        out["why"] = str(e)[:100]
        out["stats"] = stats.as_dict()
        return out
    sm = samples(op, 6 if tier == "quick" else 24, seed)
    dtnames = [n for n in sig.parameters if n in DTARGS]
    scnames = [n for n, p in sig.parameters.items()
               if {int, float, complex} <= set(typing.get_args(p.annotation))]
    for key, args in sm.items():
        if time.time() - t0 > max_seconds:
            out["status"] = "inconclusive"
            out["why"] = "time budget"
            break
        sl = slots_of(op, args)
        if op in FIXIDX:  # PyTorch itself crashes on some index dtypes here
            free = [x for x in sl if x[0] not in spec.dt]
        else:
            free = sl if len(sl) <= 3 else sl[:2]
        opt = []
        for n in dtnames:
            ann = str(sig.parameters[n].annotation)
            opt.append([n, (["none"] if "Optional" in ann or "None" in ann else []) + ["some"]])
        for combo in itertools.product(*[o[1] for o in opt], *[["int", "float"] for _ in scnames[:2]]):
            dsel = dict(zip(dtnames, combo))
            scal = {}
            for i, n in enumerate(scnames):
                k = combo[len(dtnames) + min(i, 1)]
                if args.get(n) is None and type(None) in typing.get_args(sig.parameters[n].annotation):
                    continue
                v = args.get(n)
                scal[n] = (int(v) if k == "int" else float(v) + (0.5 if float(v).is_integer() else 0)) \
                    if isinstance(v, (int, float)) and v else SCAL[k]
            one_kind(op, spec, fn, sig, tocall, args, free, sl, dsel, scal, key, combo, stats, out, tier, known, gen)
            out["kinds"] += 1
    if out["status"] == "ok" and not out["cells"]:
        out["status"] = "vacuous"
    out["stats"] = stats.as_dict()
    out["wall"] = time.time() - t0
    return out


def one_kind(op, spec, fn, sig, tocall, args, free, sl, dsel, scal, key, combo, stats, out, tier, known, gen=None):
    some = [n for n, k in dsel.items() if k == "some" and n not in TIED.get(op, {})]
    nvar = len(free) + len(some)
    dom = range(12)
    if nvar > 3 or (nvar == 3 and tier == "quick" and len(sl) > 3):
        if len(free) > 1:
            free = free[:1]
            nvar = len(free) + len(some)

    def build(vals):
        """variable values -> (dts, dtarg)"""
        fv = dict(zip(free, vals))
        base = vals[0] if free else None
        dts = {}
        for b, i in sl:
            d = fv.get((b, i))
            if d is None:
                d = spec.dt.get(b, None) or base
            if i is None:
                dts[b] = d
            else:
                dts.setdefault(b, {})[i] = d
        dts = {b: ([d.get(i) for i in range(len(args[b]))] if isinstance(d, dict) else d) for b, d in dts.items()}
        da = {n: OMIT for n, k in dsel.items() if k == "none"}
        da.update({n: v for n, v in zip(some, vals[len(free):])})
        for n, b in TIED.get(op, {}).items():
            da[n] = dts[b]
        return dts, da

    cells = {}
    # PyTorch's CPU kernels decide which dtype assignments are accepted; an
    # operator without a CPU kernel is asked on the meta device
    for dev in (("cpu", "meta") if spec.device != "meta" else ("meta",)):
        for cell in itertools.product(dom, repeat=nvar):
            if op in FLOATONLY and any(i < 6 for i in cell):
                continue  # eager and traced PyTorch differ on integers here
            if some and some[-1] == "out_dtype" and "dequantize" in op and not 6 <= cell[-1] <= 9:
                continue  # dequantization is to a floating-point type
            dts, da = build([DOM[i] for i in cell])
            r = call_torch(spec, tocall, args, dts, scal, da, dev)
            if r is None or any(x is not None and not 0 <= x < NDOM for x in r):
                continue  # rejected, or a result type outside the domain
            cells[cell] = r
        if cells or out["cells"]:
            break
    cpu_ok = set(cells)
    if gen is not None:
        for cell, exp in cells.items():
            got = concrete(fn, sig, args, build, cell, scal)
            if got == "raises" or len(got) != len(exp) or any(
                    x is not None and y is not None and x != y for x, y in zip(got, exp)):
                gen.setdefault(f"{key}/{combo}", []).append([list(cell), got if got == "raises" else list(got)])
                gen.setdefault("what", f"{op.replace('〇', '.')} operands {shape_show(args, sl)} dtypes {[dtype_name(i) for i in cell]}"
                               f" scalars {scal}: gives {got if got == 'raises' else [dtype_name(i) for i in got]}, "
                               f"PyTorch gives {[dtype_name(i) for i in exp]}")
    out["cells"] += len(cells)
    if not cells:
        return
    skey = f"{key}/{combo}"
    kn = {tuple(c): g for c, g in (known or {}).get(skey, [])}
    if kn:
        out["known"].append(skey)

    last = {}

    def harness(p):
        vs = []
        for i in range(nvar):
            vs.append(SymDtype(p.int(f"d{i}", 0, 11).e) if nvar else None)
        last["vs"] = vs
        last["p"] = p
        dts, da = build(vs)
        call = {}
        for n, prm in sig.parameters.items():
            if n.endswith("_rank_dtype"):
                b = n[:-11]
                v = args.get(b)
                if v is None:
                    call[n] = None
                elif b not in dts:
                    call[n] = []
                elif isinstance(dts[b], list):
                    call[n] = [None if x is None else (len(x), d) for x, d in zip(v, dts[b])]
                else:
                    call[n] = (len(v), dts[b])
            elif n in da:
                call[n] = da[n] if da[n] is not OMIT else \
                    (prm.default if prm.default is not inspect.Parameter.empty else None)
            elif n in scal:
                call[n] = scal[n]
            elif n in args:
                call[n] = args[n]
            elif prm.default is not inspect.Parameter.empty:
                call[n] = prm.default
            else:
                raise Inconclusive(f"no argument for {n}")
        es = [v.e for v in vs]

        def at(cell):
            return z3.And(*[e == c for e, c in zip(es, cell)]) if cell else z3.BoolVal(True)

        try:
            r = fn(**call)
        except Exception as e:
            bad = sorted(c for c in cpu_ok if kn.get(c) != "raises")
            p.prove(mkbool(z3.Not(z3.Or(*[at(c) for c in bad]))) if bad else True,
                    f"raises {type(e).__name__}: {str(e)[:80]}")
            return
        stats.reached += 1
        if isinstance(r, tuple) or (isinstance(r, list)):
            rs = [x[1] if isinstance(x, tuple) else x for x in r]
        else:
            rs = [r]
        rex = [None if x is None else dexpr(x) for x in rs]
        ln = {len(v) for v in cells.values()}
        if ln != {len(rex)}:
            p.prove(False, f"{len(rex)} results, PyTorch gives {ln}")
            return
        # contradiction: some accepted cell with a different result
        contra = []
        byval = {}
        for c, v in cells.items():
            k = kn.get(c)
            byval.setdefault((v, tuple(k) if isinstance(k, list) else k), []).append(c)
        for (v, k), cs in byval.items():
            wrong = z3.Or(*[e != w for e, w in zip(rex, v) if w is not None and e is not None])
            if k is not None and k != "raises":
                same = z3.And(*[e == w for e, w in zip(rex, k) if w is not None])
                wrong = z3.And(wrong, z3.Not(same))
            wrong = z3.simplify(wrong)
            if z3.is_false(wrong):
                continue
            contra.append(z3.And(z3.Or(*[at(c) for c in cs]), wrong))
        p.prove(mkbool(z3.Not(z3.Or(*contra))) if contra else True, "result dtype differs")

    def on_cex(c):
        p = last["p"]
        cell = tuple(c.model[f"d{i}"] for i in range(nvar))
        got = concrete(fn, sig, args, build, cell, scal)
        exp = cells.get(cell)
        bad = exp is not None and (
            (got == "raises" and cell in cpu_ok) or
            (got != "raises" and (len(got) != len(exp) or any(a is not None and b is not None and a != b
                                                              for a, b in zip(got, exp)))))
        what = (f"{op.replace('〇', '.')} operands {shape_show(args, sl)} dtypes {[dtype_name(i) for i in cell]} "
                f"scalars {scal}: dtype function gives "
                f"{got if got == 'raises' else [dtype_name(i) for i in got]}, PyTorch gives {[dtype_name(i) for i in exp or ()]}")
        if bad:
            out["violations"].append(dict(what=what, kind=skey, cell=list(cell), got=got if got == "raises" else list(got)))
            return True
        out.setdefault("spurious", []).append(what + " " + c.what)
        return True

    M = srun.modules()
    with symex.shims(M["m"], M["up"], M["lg"]):
        try:
            symex.explore(harness, max_paths=2500, stats=stats, on_cex=on_cex, max_seconds=60)
        except (BoundExceeded, Inconclusive) as e:
            out["status"] = "inconclusive"
            out["why"] = str(e)[:200]
    if len(out["samples"]) < 1 and cells:
        c = sorted(cells)[len(cells) // 2]
        out["samples"].append(f"{op.replace('〇','.')} {shape_show(args, sl)}: {len(cells)} accepted dtype cells, e.g. "
                              f"{[dtype_name(i) for i in c]} -> {[dtype_name(i) for i in cells[c]]}")


def shape_show(args, sl):
    return {b: args[b] for b in dict.fromkeys(b for b, _ in sl)}


def concrete(fn, sig, args, build, cell, scal):
    dts, da = build([DOM[i] for i in cell])
    call = {}
    for n, prm in sig.parameters.items():
        if n.endswith("_rank_dtype"):
            b = n[:-11]
            v = args.get(b)
            if v is None:
                call[n] = None
            elif b not in dts:
                call[n] = []
            elif isinstance(dts[b], list):
                call[n] = [None if x is None else (len(x), d) for x, d in zip(v, dts[b])]
            else:
                call[n] = (len(v), dts[b])
        elif n in da:
            call[n] = da[n] if da[n] is not OMIT else \
                (prm.default if prm.default is not inspect.Parameter.empty else None)
        elif n in scal:
            call[n] = scal[n]
        elif n in args:
            call[n] = args[n]
    try:
        r = fn(**call)
    except Exception:
        return "raises"
    rs = [x[1] if isinstance(x, tuple) else x for x in r] if isinstance(r, (tuple, list)) else [r]
    return tuple(None if x is None else index_of(x if isinstance(x, torch.dtype) else srun.DT[x]) for x in rs)
