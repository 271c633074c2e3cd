"""A0x: the Python entry points (compile, fx, dynamo)."""
from ..symex import Stats
from .fx import collect, run_cases, spread

COMMON = ["type/isinstance/int/float/bool/max/min calls in the code accept solver proxies (vt/instr.py); nothing else of the source changes",
          "what is native (MLIR bindings, TorchScript importer, pass manager, tracer) is a stand-in that records what it is asked to do"]


def _work(name, cases):
    import importlib

    M = importlib.import_module("vt.api." + name)
    st = Stats()

    def make(c):
        def fn(p):
            M.run(p, c)
            st.reached += 1
        return fn, " ".join(str(x) for x in c)[:200]

    return run_cases(make, cases, st, max_paths=200000, max_seconds=800)


def w_compile_(c):
    return _work("compile_", c)


def w_dynamo_(c):
    return _work("dynamo_", c)


def w_legacy(c):
    return _work("legacy", c)


def go(r, work, mod, n):
    import importlib

    cs = importlib.import_module("vt.api." + mod).cases(r.tier)
    collect(r, work, spread(cs, n), 400 if r.tier == "quick" else 2500)


def check_a01(r):
    go(r, w_compile_, "compile_", 64)
    r.functions += ["compiler_utils.py: TensorPlaceholder.like, prepare_example_args, OutputType.get, run_pipeline_with_repro_report, "
                    "lower_mlir_module", "torchscript.py: ExampleArgs, compile, _canon_extra_library", "fx.py: export_and_import, stateless_fx_import, "
                    "_module_lowering"]
    r.bounds = ["example tensors of rank 0..3 (4 element types) with any sizes, up to three dynamic axes of any value in range; argument collections of "
                "up to two methods with up to two arguments; every output type in several spellings; four lists of legal operators; up to two extra "
                "functions; all combinations of the boolean options; failures in every lowering step"]
    r.outside = ["dynamic axes out of range", "what the MLIR passes do", "the tracer and scripter of PyTorch", "library paths with unusual characters"]
    r.assumptions = COMMON
    return ("the entry points run on solver-valued examples and options; what they hand to the tracer, importer and pass manager, in order and with which "
            "options, is proved to be what the user asked for, and every failing step must end in the documented error")


def check_a02(r):
    go(r, w_dynamo_, "dynamo_", 64)
    r.functions += ["dynamo.py: make_simple_dynamo_backend, _adjust_calling_convention"]
    r.bounds = ["graphs of up to three inputs and two operations that return nothing, one value, or a tuple or list of up to three values, in every wiring; "
                "two runs; two graphs through one backend; all integer inputs"]
    r.outside = ["nested results", "the decomposition table", "AOTAutograd itself (a stand-in that hands over the graph)"]
    r.assumptions = COMMON + ["operations are fixed integer combinations that distinguish operand positions"]
    return ("graphs are compiled through the wrapper and run on solver-valued inputs; results are proved to have the structure and values of the original "
            "graph, and the user's backend only sees the canonical calling convention")


def check_a03(r):
    from ..api import legacy

    cs = legacy.cases(r.tier)
    collect(r, w_legacy, spread(cs, len(cs)), 400 if r.tier == "quick" else 2500)
    r.functions += ["_dynamo_fx_importer.py: import_fx_graph_as_func, _FXGraphImporter, _verify_fx_graph_conforms_to_subset, type and code tables"]
    r.bounds = ["every registered operator that returns tensors, with every argument in turn given, omitted, by keyword, None or empty; all literal values, "
                "element types, layouts and memory formats; graphs of up to two inputs and two operations in every wiring"]
    r.outside = ["device indices (documented as not imported)", "symbolic sizes and values that are not tensors (refused)", "numbers passed as tensors"]
    r.assumptions = COMMON + ["operators are uninterpreted: equal terms mean equal results"]
    return ("one-operation graphs with solver-valued literals and small graphs are imported; the recorded operations are interpreted and proved to apply "
            "the same operators to the same operands, with the types the metadata declares")


TABLE = {"A01": check_a01, "A02": check_a02, "A03": check_a03}


def check(r):
    return TABLE[r.prop](r)
