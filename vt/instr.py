"""Loads a module of the tree with its *calls* of type-like builtins redirected.

`int(x)`, `float(x)`, `bool(x)`, `type(x)`, `isinstance(x, T)`, `max`, `min`,
`abs`, `range`, `str` and `math.f(x)` keep their meaning on ordinary values and
accept the executor's proxies.  The names themselves (`x is int`, dictionary
keys, annotations) are untouched.  Nothing else of the source changes.
"""
import ast
import builtins
import importlib.util
import math as _math
import os
import sys
import types

from . import load, symex
from .symex import SymBool, SymInt, SymReal

_T = {SymInt: int, SymBool: bool, SymReal: float}


def vt_type(*a):
    if len(a) == 1:
        t = _T.get(type(a[0]))
        if t is not None:
            return t
    return type(*a)


def _flat(t):
    if isinstance(t, tuple):
        for x in t:
            yield from _flat(x)
    elif isinstance(t, types.UnionType):
        yield from t.__args__
    else:
        yield t


def vt_isinstance(x, t):
    p = _T.get(type(x))
    if p is not None:
        return any(isinstance(k, type) and issubclass(p, k) for k in _flat(t)) or isinstance(x, t)
    return isinstance(x, t)


def _call(name, shim):
    real = getattr(builtins, name)

    def f(*a, **k):
        if a and hasattr(type(a[0]), "__vt_proxy__"):
            a = (a[0].__vt_proxy__(), *a[1:])
        if any(type(x) in _T for x in a) or (
                name in ("max", "min") and len(a) == 1 and isinstance(a[0], (list, tuple))
                and any(type(x) in _T for x in a[0])):
            return shim(*a, **k)
        return real(*a, **k)

    return f


CALLS = {
    "type": vt_type,
    "id": id,
    "isinstance": vt_isinstance,
    "int": _call("int", symex.IntShim),
    "float": _call("float", symex.FloatShim),
    "bool": _call("bool", symex.BoolShim),
    "max": _call("max", symex.shim_max),
    "min": _call("min", symex.shim_min),
}


class _Rewrite(ast.NodeTransformer):
    def __init__(self, bound):
        self.bound = bound

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in CALLS and n.func.id not in self.bound:
            n.func = ast.copy_location(ast.Name("__vt_" + n.func.id + "__", ast.Load()), n.func)
        return n


def _bound_names(tree):
    out = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        elif isinstance(n, ast.arg):
            out.add(n.arg)
    return out


def load_module(name, path):
    """Import `path` (relative to the tree) as module `name`, instrumented."""
    full = os.path.join(load.REPO, path)
    src = open(full).read()
    tree = ast.parse(src, full)
    tree = ast.fix_missing_locations(_Rewrite(_bound_names(tree)).visit(tree))
    spec = importlib.util.spec_from_loader(name, loader=None, origin=full)
    m = importlib.util.module_from_spec(spec)
    m.__file__ = full
    m.__package__ = name.rpartition(".")[0]
    for k, v in CALLS.items():
        m.__dict__["__vt_" + k + "__"] = v
    sys.modules[name] = m
    exec(compile(tree, full, "exec"), m.__dict__)
    parent = sys.modules.get(m.__package__)
    if parent is not None:
        setattr(parent, name.rpartition(".")[2], m)
    return m
