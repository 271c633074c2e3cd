"""Loads the code under test from /repo's current working tree.

No build product is used: Python modules are imported from their source files;
the MLIR Python bindings (which need a compiled MLIR, absent here) are replaced
by recording stand-ins where a check needs them.
"""
import importlib
import importlib.util
import os
import sys
import types

sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")
PYDIRS = [REPO + "/python/torch_mlir", REPO + "/projects/pt1/python/torch_mlir"]


def _pkg(name, paths=()):
    m = types.ModuleType(name)
    m.__path__ = list(paths)
    sys.modules[name] = m
    return m


_done = set()


def torch_mlir_skeleton():
    """Namespace packages whose source files live in /repo."""
    if "skel" in _done:
        return
    _done.add("skel")
    _pkg("torch_mlir", PYDIRS)
    b = REPO + "/projects/pt1/python/torch_mlir/jit_ir_importer"
    j = _pkg("torch_mlir.jit_ir_importer", [b])
    sys.modules["torch_mlir"].jit_ir_importer = j

    class Absent:
        def __init__(self, *a, **k):
            raise RuntimeError("native code is absent")

    j.ModuleBuilder = Absent
    j.ClassAnnotator = Absent
    j.ImportOptions = Absent
    _pkg("torch_mlir.jit_ir_importer.build_tools", [b + "/build_tools"])
    l = _pkg("torch_mlir._mlir_libs", [])
    ji = types.ModuleType("torch_mlir._mlir_libs._jit_ir_importer")
    ji.get_registered_ops = lambda: []
    ji.ModuleBuilder = Absent
    sys.modules[ji.__name__] = ji
    l._jit_ir_importer = ji
    pm = types.ModuleType("torch_mlir.passmanager")
    pm.PassManager = Absent
    sys.modules[pm.__name__] = pm


def abstract_interp():
    """Returns (abstract_interp_lib_gen module, library_generator, recorded
    invocations by function name).

    The decorators that run the per-function unit-test samples on import are
    replaced by recorders (those samples are the repository's own tests)."""
    torch_mlir_skeleton()
    bt = "torch_mlir.jit_ir_importer.build_tools."
    tf = importlib.import_module(bt + "testing_framework")
    lg = importlib.import_module(bt + "library_generator")
    recorded = {}

    def recorder(invs):
        def deco(f):
            recorded.setdefault(f.__name__, []).extend(invs)
            return f

        return deco

    tf.check_shape_function = recorder
    tf.check_dtype_function = recorder
    m = importlib.import_module(bt + "abstract_interp_lib_gen")
    return m, lg, recorded
