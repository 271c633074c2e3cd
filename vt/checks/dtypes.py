"""D01, D02: result dtypes against PyTorch."""
import json
import os

from .. import report
from ..shapes import run as srun, core
from ..dtypes import run

KNOWN = os.path.join(os.path.dirname(run.__file__), "known_cells.json")


def work(x):
    op, tier, seed, kn = x
    kn = dict(kn)
    kn.pop("what", None)
    return run.run_op(op, tier, seed, known=kn)


def check(r):
    srun.load_specs()
    run.install()
    active = report.findings()
    kc = json.load(open(KNOWN))
    m = srun.modules()["m"]
    elementwise = r.prop == "D01"
    ops = [o for o, s in core.SPECS.items() if (s.group == "S01") == elementwise and o not in run.SKIP]
    absent = [o for o in ops if run.dtype_fn(o) is None]
    ops = [o for o in ops if o not in absent]
    fid = lambda o: f"{r.prop}-{o.replace('〇', '.').replace('aten.', '')}"
    items = [(o, r.tier, r.seed, kc.get(o, {}) if fid(o) in active else {}) for o in ops]
    cells = 0
    for st, x, d in report.parallel(work, items, 600 if r.tier == "quick" else 2500):
        op = x[0]
        if st != "ok":
            r.inconclusive.append(f"{op}: {st} {(d or '')[-400:]}")
            continue
        r.add_stats(d["stats"])
        if d["status"] in ("inconclusive",):
            r.inconclusive.append(f"{op}: {d['why']}")
        if d["status"] in ("nooracle", "vacuous"):
            r.outside.append(f"{op}: PyTorch cannot run it here ({d['why'] or 'no accepted dtype assignment'})")
            continue
        r.functions.append(op + "〡dtype")
        cells += d["cells"]
        for v in d["violations"]:
            r.violation(v["what"], v)
        r.spurious += d.get("spurious", [])[:2]
        if d["known"]:
            r.finding(fid(op), active[fid(op)][1])
        r.samples += d["samples"][:1]
    r.extra["pytorch_table_cells"] = cells
    r.bounds = ["operand dtypes: all 12 dtypes of the compiler's promotion lattice per operand, symbolic (up to 3 operands "
                "independently, further operands tied to the first)",
                "operand ranks: zero or non-zero, case-split over the shape specification's samples "
                f"({6 if r.tier == 'quick' else 24} argument kinds per operator); scalars: int and float kinds; dtype arguments: absent or all 12"]
    r.outside += ["complex scalars; quantized, float8 and complex32 dtypes; operand dtypes PyTorch's CPU kernels reject",
                  f"operators without a dtype function: {absent}"]
    r.assumptions = ["PyTorch's installed CPU kernels (meta where there is no CPU kernel) define the result dtype",
                     "the three leaf torch.result_type queries of promote_dtypes are replaced by tables filled by calling them"]
    return ("symbolic execution of the dtype functions with z3-valued dtypes; per path the solver decides that no dtype "
            "assignment of the path contradicts PyTorch's table; counterexamples are replayed on the real function")
