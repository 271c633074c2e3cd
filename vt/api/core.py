"""The compile entry points on recording stand-ins for everything native."""
import importlib
import types

import torch

from .. import instr, load, mlirpy
from ..e2e import core as e2e
from ..symex import SymInt, and_

_m = {}


class TorchShim(e2e.TorchShim):
    """`torch` whose ones() and tensor() give stand-ins; replays use torch."""

    @staticmethod
    def ones(*shape, dtype=None, **k):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list, torch.Size)):
            shape = tuple(shape[0])
        if any(isinstance(s, SymInt) for s in shape):
            return e2e.VTensor([], shape, dtype or torch.get_default_dtype())
        return torch.ones(*shape, dtype=dtype, **k)

    @classmethod
    def zeros(cls, *shape, dtype=None, **k):
        return cls.ones(*shape, dtype=dtype)

    @classmethod
    def empty(cls, *shape, dtype=None, **k):
        return cls.ones(*shape, dtype=dtype)

    @classmethod
    def full(cls, shape, v, dtype=None, **k):
        return cls.ones(*shape, dtype=dtype)


def modules():
    """(compiler_utils, torchscript, fx, dynamo)"""
    if _m:
        return _m
    mlirpy.install()
    import sys

    pm = sys.modules["torch_mlir.passmanager"]
    p = "torch_mlir."
    lg = types.ModuleType("torch_mlir.jit_ir_importer.build_tools.library_generator")
    lg.generate_library = lambda d: "library of " + ",".join(sorted(d))
    sys.modules[lg.__name__] = lg
    _m["utils"] = instr.load_module(p + "compiler_utils", "python/torch_mlir/compiler_utils.py")
    _m["torchscript"] = instr.load_module(p + "torchscript", "projects/pt1/python/torch_mlir/torchscript.py")
    ex = importlib.import_module(p + "extras")
    from ..fx import core as fxcore

    fxcore.fx()
    importlib.import_module(p + "extras.fx_decomp_util")
    _m["fx"] = instr.load_module(p + "fx", "python/torch_mlir/fx.py")
    _m["dynamo"] = instr.load_module(p + "dynamo", "projects/pt1/python/torch_mlir/dynamo.py")
    for k in ("utils", "torchscript"):
        _m[k].torch = TorchShim()
    return _m


class Context:
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    emit_error_diagnostics = False

    def enable_multithreading(self, v):
        self.threads = v


class Module:
    """An MLIR module that is a list of what was done to it."""

    def __init__(self, name=None):
        self.done = []
        self.context = Context()
        self.operation = self
        self.attributes = {} if name is None else {"torch.debug_module_name": types.SimpleNamespace(value=name)}

    def get_asm(self, **k):
        return f"asm after {self.done}"

    def __str__(self):
        return f"text after {self.done}"


class PassManager:
    """Records the pipelines run on a module; `fail` maps a pipeline name to an error."""

    fail = {}
    printed = []

    def __init__(self, text):
        self.text = text
        self.printing = False

    @classmethod
    def parse(cls, text, context=None):
        if "parse" in cls.fail:
            raise ValueError("cannot parse")
        return cls(text)

    def enable_ir_printing(self, *a, **k):
        self.printing = True

    def run(self, op):
        import sys

        for k, e in self.fail.items():
            if k in self.text:
                print("diagnostic of " + k, file=sys.stderr)
                op.done.append("half of " + self.text)
                raise e
        op.done.append(self.text)
        self.printed.append(self.printing)


class _StringAttr:
    def __init__(self, a):
        self.value = a.value


def install(fail=None):
    M = modules()
    PassManager.fail = dict(fail or {})
    PassManager.printed = []
    M["utils"].PassManager = PassManager
    M["utils"].StringAttr = _StringAttr
    return M


def parse_pipeline(text):
    """The passes at the top level of builtin.module(...), with their options."""
    if not (text.startswith("builtin.module(") and text.endswith(")")):
        return None
    body = text[len("builtin.module("):-1]
    out, depth, cur = [], 0, ""
    for c in body + ",":
        if c == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
            continue
        depth += c in "({"
        depth -= c in ")}"
        cur += c
    res = []
    for x in out:
        name, _, o = x.partition("{")
        opts = {}
        for w in o.rstrip("}").split():
            k, eq, v = w.partition("=")
            if k in opts or not eq:
                return None
            opts[k] = v
        res.append((name, opts))
    return res
