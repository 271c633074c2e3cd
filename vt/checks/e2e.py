"""E0x: the end-to-end test framework (projects/pt1/python/torch_mlir_e2e_test)."""
from ..symex import Stats
from .fx import collect, run_cases, spread

COMMON = [
    "tensors are stand-ins with solver-valued elements (exact reals and integers, NaN and infinities as cases; vt/e2e/core.py); "
    "counterexamples are re-run on real torch tensors",
    "type/isinstance/int/float/bool/max/min calls in the framework accept solver proxies (vt/instr.py); nothing else of the source changes",
]


def _work(name, cases):
    import importlib

    M = importlib.import_module("vt.e2e." + name)
    st = Stats()

    def make(c):
        def fn(p):
            M.run(p, c)
            st.reached += 1
        return fn, " ".join(str(x) for x in c)

    return run_cases(make, cases, st, max_paths=100000, max_seconds=800)


def w_values(c):
    return _work("values", c)


def w_reports(c):
    return _work("reports", c)


def w_golden(c):
    return _work("golden", c)


def w_lockstep(c):
    return _work("lockstep", c)


def go(r, work, mod, n):
    import importlib

    cs = importlib.import_module("vt.e2e." + mod).cases(r.tier)
    for c in [c for c in cs if c[0] == "known"]:
        d = work([c])
        r.add_stats(d["stats"])
        if d["status"] == "cex":
            r.finding(c[1], d["what"])
    cs = [c for c in cs if c[0] != "known"]
    collect(r, work, spread(cs, n), 400 if r.tier == "quick" else 2500)


def check_e01(r):
    go(r, w_values, "values", 32)
    r.functions += ["reporting.py: ValueReport._evaluate_outcome, failed, error_str", "reporting.py: ErrorContext", "reporting.py: TensorSummary"]
    r.bounds = ["floats: every real, NaN, both infinities; integers, booleans, strings; tensors of up to two elements (thorough: four) in seven shapes "
                "and eleven element types, tensors of zeros of rank 0..3 with dimensions 0..4; tuples, lists and dictionaries of up to three entries, "
                "nested to depth three"]
    r.outside = ["a band of 1% around the tolerance (rounding)", "bool against int", "None and complex, sparse or quantized elements"]
    r.assumptions = COMMON + ["torch.allclose and torch.isclose follow torch's documented formula"]
    return ("the comparison runs on a solver-valued value and golden value; it must accept every pair within the tolerance (relative 1e-4 for floats, "
            "1e-3 relative plus 1e-7 for tensors) and reject every other pair")


def check_e02(r):
    go(r, w_reports, "reports", 32)
    r.functions += ["reporting.py: TraceItemReport, SingleTestReport, report_results", "framework.py: run_tests, compile_and_run_test"]
    r.bounds = ["traces of up to two calls (thorough: three) with up to two inputs, solver-valued inputs and outputs; up to three test results (thorough: "
                "four), each failing or not as the solver decides, any subset expected to fail; up to three tests on 1..512 processors"]
    r.outside = ["the text of a report beyond outcome lines, unexpected-outcome list and counts", "the process pool itself (stand-in that runs the work)"]
    r.assumptions = COMMON
    return ("reports are made from traces and results with solver-chosen agreement; a test is reported failing iff it has an error or its trace differs, "
            "each test has one outcome line, counts and the return value follow the outcomes, and run_tests gives every test exactly one result")


def check_e03(r):
    go(r, w_golden, "golden", 64)
    r.functions += ["framework.py: _Tracer, generate_golden_trace, clone_torch_script_value, clone_trace, compile_and_run_test, timeout",
                    "configs/native_torch.py, configs/torchscript.py: run", "configs/utils.py", "registry.py: register_test_case"]
    r.bounds = ["stateful programs called twice (thorough: three times) with eleven behaviours per call (fresh results, aliases of inputs or state, in-place "
                "updates, tuples, lists, dictionaries), arguments that are fresh, shared or the previous result, and in-place changes after each call; "
                "all element values; exceptions of four kinds at every step of a test"]
    r.outside = ["keyword arguments of calls (not part of a trace)", "real timers (the signal module is a recorder)", "outputs of unsupported kinds",
                 "configs that need compiled MLIR"]
    r.assumptions = COMMON
    return ("programs over solver-valued tensors are traced and run; every recorded input and output is proved equal to what it was at the call, faithful "
            "runs pass, a wrong result in any one call is reported unless the deviation is zero, and every failure gives one classified result")


def check_e04(r):
    go(r, w_lockstep, "lockstep", 32)
    r.functions += ["debug/lockstep.py: make_lockstep_debug_backend, _make_single_op_gm, _make_last_use_map"]
    r.bounds = ["graphs of up to three operations on one or two inputs, every choice of operands and results, one or two runs; one operation of the "
                "backend under test is off by a solver-chosen amount"]
    r.outside = ["keyword arguments and literal operands (refused)", "operations with several results", "NaN results", "in-place operations"]
    r.assumptions = COMMON + ["operations are fixed integer combinations that distinguish operand positions"]
    return ("the compiled callable is run on solver-valued inputs; it returns exactly the golden backend's results and stops exactly when, and at the "
            "operation where, the backends disagree")


TABLE = {"E01": check_e01, "E02": check_e02, "E03": check_e03, "E04": check_e04}


def check(r):
    return TABLE[r.prop](r)
