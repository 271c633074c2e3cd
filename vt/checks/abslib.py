"""L01, L02: the library text embedded in the compiler against its Python definitions."""
from .. import report
from ..abslib import mlir, run


def work(x):
    return run.run_fn(*x)


def check(r):
    kind = "shape" if r.prop == "L01" else "dtype"
    py, emb = run.names()
    todo = sorted(n for n in set(py) | emb if n.startswith(f"__torch_mlir_{kind}_fn."))
    other = sorted(n for n in emb if not n.startswith(("__torch_mlir_shape_fn.", "__torch_mlir_dtype_fn.")))
    partial = []
    quick = r.tier == "quick"
    for st, x, d in report.parallel(work, [(n, r.tier, r.seed, 100 if quick else 600) for n in todo], 700 if quick else 3000):
        if st != "ok":
            r.inconclusive.append(f"{x[0]}: {st} {(d or '')[-300:]}")
            continue
        r.add_stats(d["stats"])
        for v in d["violations"]:
            r.violation(v)
        if d["status"] == "uncovered":
            r.outside.append(f"{x[0]}: no operand generator")
            continue
        if d["status"] != "ok":
            r.inconclusive.append(f"{x[0]}: {d['why'][:300]}")
        elif d["why"]:
            r.spurious.append(f"{x[0]}: {d['why'][:300]}")
        r.functions.append(x[0])
        if any("partial" in m or "n/a" in m for m in d["modes"]):
            partial.append(x[0])
        r.samples += d["samples"][:1]
    r.extra["embedded_helper_functions"] = len(run.lib()[0].funcs) - len(todo)
    if kind == "shape":
        r.bounds = ["operands PyTorch accepts: ranks up to 3 (thorough 4), sizes 0..2^20, all arguments of the shape generators",
                    "arbitrary operands (accepted or not): ranks up to 2 (thorough 3); explored up to 400 paths / 8 s per operator in quick"]
        r.outside += [f"arbitrary operands only partly explored, or not generated, for: {[n.split('_fn.')[1] for n in partial]}"]
    else:
        r.bounds = ["every operand dtype of the 12, every rank 0..3, independently per operand (lists up to 3 operands); int and "
                    "float scalars, both booleans, absent or present optional arguments"]
    if other:
        r.outside.append(f"functions of the embedded text with another prefix: {other}")
    r.assumptions = ["the embedded text is executed by an interpreter of its Torch-dialect operations (vt/abslib/mlir.py)",
                     "the promote_dtypes operation computes what library_generator.promote_dtypes computes"]
    return ("the text embedded in AbstractInterpLibrary.cpp is parsed and executed on the same symbolic operands as the Python "
            "definition; per joint path the solver decides that results are equal (or both fail)")
