"""S01..S07: shape functions against symbolic PyTorch shape semantics."""
import inspect

from .. import report
from ..shapes import run, core

TITLES = dict()


def work(x):
    op, tier, seed, validate = x
    q = tier == "quick"
    return run.run_spec(op, tier=tier, validate=validate, seed=seed,
                        max_paths=4000 if q else 60000, max_seconds=150 if q else 500)


def check(r):
    run.load_specs()
    m = run.modules()["m"]
    active = report.findings()
    for s in core.SPECS.values():
        s.known = [k for k in s.known if k[0] in active]
    ops = [o for o, s in core.SPECS.items() if s.group == r.prop]
    missing = [o for o in ops if not hasattr(m, o + "〡shape")]
    ops = [o for o in ops if o not in missing]
    allfns = [n[:-6] for n in dir(m) if n.endswith("〡shape")]
    uncovered = sorted(set(allfns) - set(core.SPECS))
    heavy = ("pool", "slice", "conv", "pad", "stft", "einsum", "scatter", "resize", "interpol")
    ops.sort(key=lambda o: not any(h in o for h in heavy))
    # the specification itself is validated against PyTorch on every path in the
    # thorough tier (the quick tier replays counterexamples only)
    items = [(o, r.tier, r.seed, r.tier != "quick") for o in ops]
    npaths = 0
    for st, x, d in report.parallel(work, items, 600 if r.tier == "quick" else 3000):
        op = x[0]
        if st == "late":
            r.inconclusive.append(f"{op}: not reached within the time budget")
            continue
        if st == "err":
            r.inconclusive.append(f"{op}: {d[-600:]}")
            continue
        r.functions.append(op + "〡shape")
        r.add_stats(d["stats"])
        r.validated += d["validated"]
        for v in d["violations"]:
            r.violation(v)
        for fid, what in d["known"].items():
            r.finding(fid, what)
        if d["status"] in ("inconclusive", "vacuous"):
            r.inconclusive.append(f"{op}: {d['status']} {d['why']}")
        r.spurious += d["spurious"][:2]
        for i in d["invalid"][:2]:
            r.spurious.append(f"specification of {op}: {i}")
        r.samples += d["samples"][:1]
    r.bounds = [
        "dimension sizes: every integer 0..2^20 (smaller where a spec line says so: kernel sizes, linear-algebra operands)",
        f"ranks: every rank up to {3 if r.tier == 'quick' else 5}, or the operator's own limit",
        "dimension numbers: the whole valid range, negative included; other integers within the range given in vt/shapes/s0*.py",
        "list lengths, Optional presence, strings and flags: case-split exhaustively within the spec's table",
    ]
    r.outside = ["larger ranks; operands PyTorch rejects; data-dependent sizes (any answer accepted)"]
    if missing or uncovered:
        r.outside.append(f"functions absent from the tree: {missing}; functions without a specification: {uncovered}")
    r.assumptions = [
        "TorchScript executes the function as CPython does (the functions are compiled from this source)",
        "the symbolic specifications in vt/shapes state PyTorch's shape semantics; each was compared with PyTorch on a "
        "solver-chosen input of every explored path (thorough tier), and no violation is reported unless PyTorch itself "
        "disagrees with the shape function on the counterexample",
    ]
    return ("bounded symbolic execution of the shape functions in abstract_interp_lib_gen.py and the upstream "
            "torch.jit._shape_functions they call; for each path the solver decides result == PyTorch shape semantics "
            "for all sizes; counterexamples are replayed on the real function and on PyTorch")
