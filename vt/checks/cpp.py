"""C0x: the C++ sources (lib/, include/): code cut from /repo, compiled to LLVM
IR and executed symbolically."""
import os
import re
import shutil
import subprocess
import tempfile

from .. import report
from ..symex import Stats
from .fx import collect

BASE = [
    "the MLIR classes are a small stand-in (vt/cpp/mini): values, operations, types, attributes, pattern rewriter; the code under test is the text of /repo, unchanged",
    "compiled by clang at -O1 with wrapping signed arithmetic; operation classes are generated from the .td files",
    "results that raise in PyTorch or overflow 64 bits are not constrained",
]
# harness function -> known finding
FINDINGS = {
    "h_AtenEqFloatOp_selfNaN": "C01-eq-float-self", "h_AtenGeFloatOp_selfNaN": "C01-ge-float-self",
    "h_AtenSortIntOp_readers": "C02-sort-readers",
}
GROUPS = {"C01": ["scalars"], "C02": ["lists"], "C03": ["types"], "C04": ["dtypes"], "C05": ["tensors"]}
CTX = {}


def compile_group(d, tier, name, only=None):
    from ..cpp import group
    from ..ll import run

    src, names, fns = group.source(name, only)
    f = os.path.join(d, name + (("_" + only) if only else "") + ".cpp")
    with open(f, "w") as h:
        h.write(src)
    extra = ["-DVT_THOROUGH"] if tier == "thorough" else []
    ir = run.compile_ir(f, f[:-4] + ".ll", extra)
    return dict(mod=run.Module(ir), src=f, names=names, fns=fns, extra=extra)


def work(item):
    from ..cpp import group
    from ..ll import run

    name, fn, tier, d = item
    c = CTX.get(name)
    st = Stats()
    label = fn[2:]
    if c is None:
        try:
            c = compile_group(d, tier, name, fn)
        except (run.CompileError, group.Missing) as e:
            return dict(status="inconclusive", what=f"{label}: the code could not be cut out and compiled: {str(e)[:300]}", stats=st.as_dict(), fn=fn, names=[])
    out = run.decide(c["mod"], c["src"], fn, st, label, c["extra"], max_seconds=240 if tier == "quick" else 1500, max_paths=20000 if tier == "quick" else 400000)
    out.update(stats=st.as_dict(), fn=fn, sample=f"{label}: {st.paths} paths", names=c["names"])
    return out


def run_groups(r, groups, deadline):
    from ..cpp import group
    from ..ll import run

    d = tempfile.mkdtemp(prefix="vtcpp")
    try:
        items = []
        for g in groups:
            try:
                CTX[g] = compile_group(d, r.tier, g)
                r.functions += CTX[g]["names"]
            except (run.CompileError, group.Missing) as e:
                CTX[g] = None
                r.notes.append(f"{g}: not compiled as a whole: {str(e)[:300]}")
            items += [(g, f, r.tier, d) for f in group.functions(g, r.tier)]
        first = {f: i for i, f in enumerate(group.SLOW)}
        items.sort(key=lambda x: first.get(x[1], 999))

        def go(item):
            o = work(item)
            if o["status"] == "cex" and item[1] in FINDINGS:
                o.update(status="known", fid=FINDINGS[item[1]])
            return o

        done = {}
        for st, x, o in report.parallel(go, items, deadline):
            if st == "late":
                r.inconclusive.append(f"{x[1]}: not reached within the time budget")
                continue
            if st == "err":
                r.inconclusive.append(f"{x[1]}: {o[-400:]}")
                continue
            r.add_stats(o["stats"])
            r.functions += o["names"]
            done[o["status"]] = done.get(o["status"], 0) + 1
            if o["status"] == "cex":
                r.violation(o["what"], o.get("replay"))
            elif o["status"] == "known":
                r.finding(o["fid"], o["what"])
            elif o["status"] == "inconclusive":
                r.inconclusive.append(o["what"])
            elif o["status"] == "spurious":
                r.spurious.append(o["what"])
            if len(r.samples) < 10:
                r.samples.append(o.get("sample"))
        r.extra["cases"] = done
    finally:
        shutil.rmtree(d, ignore_errors=True)


def check_c01(r):
    run_groups(r, GROUPS["C01"], 500 if r.tier == "quick" else 3000)
    r.bounds = ["every constant or unknown operand combination; integers over all 64 bits (products, quotients and remainders: |x| ≤ 60, mul: 2^31), floats over all "
                "doubles; the same value used twice; products with a further user"]
    r.outside = ["operands of mixed number kinds for eq/ne", "math functions other than sqrt/pow/ceil"]
    r.assumptions = BASE
    return ("the fold and canonicalization code of the scalar operations is cut from TorchOps.cpp, compiled and executed symbolically on operand values and "
            "operand forms; a replacement is proved to have the value TorchScript gives the operation, and its type")


def check_c02(r):
    run_groups(r, GROUPS["C02"], 500 if r.tier == "quick" else 3000)
    r.bounds = ["lists of up to 2 elements (slices: 3) given by literals or unknown, mutated, read or not; indices and bounds in -5..5, steps -2..2; tuples of up to 2"]
    r.outside = ["aliases of lists other than through the literal", "lists of tensors"]
    r.assumptions = BASE
    return ("the list, tuple and string folds and canonicalizations are cut from TorchOps.cpp, compiled and executed symbolically; replacements are proved to "
            "have the value TorchScript gives, also when the list was appended to in between")


def check_c03(r):
    run_groups(r, GROUPS["C03"], 600 if r.tier == "quick" else 3000)
    r.bounds = ["types: leaf types symbolic, one level of optional, union, tuple (two elements) and list around them; tensor types of rank 0 to 2 with any "
                "sizes and any integer dtype, ranked or not, with and without value semantics; values: leaves, lists, tuples of up to 2, tensors of rank 0 to 2"]
    r.outside = ["dictionaries, nn.Module types, sparsity encodings", "deeper nesting (thorough: two levels)"]
    r.assumptions = BASE[:2] + ["a list value carries the type of its elements (lists are invariant)"]
    return ("the subtype order, the meet and the cast compatibility functions are cut from TorchTypes.cpp and TorchOps.cpp, compiled and executed symbolically; "
            "their answers are proved to agree with the sets of values the types stand for")


def check_c04(r):
    run_groups(r, GROUPS["C04"], 600 if r.tier == "quick" else 3000)
    r.bounds = ["all dtype codes with a type; promotions of one and two arguments: every dtype code PyTorch knows, of tensors with and without dimensions and "
                "numbers, any rank to 64; of three: the 13 types up to bfloat16, all with dimensions or one of each sort (thorough: more)"]
    r.outside = ["combinations for which PyTorch raises or has a type without a code here (complex bfloat16)", "lists of more than 3 arguments"]
    r.assumptions = BASE[:2] + ["the tables of torch.promote_types and torch.result_type are read from the installed PyTorch on every run"]
    return ("the dtype code functions and the promotion pattern are cut from Utils.cpp, TorchUpstream.cpp and SimplifyDtypeCalculations.cpp, compiled and executed "
            "symbolically on symbolic codes and ranks; results are proved equal to PyTorch's result_type, itself proved to agree with the tables of the installed PyTorch")


def check_c05(r):
    run_groups(r, GROUPS["C05"], 780 if r.tier == "quick" else 3000)
    r.bounds = ["tensors of rank 0 to 2 with any sizes and the element types int64, float32, bool, uint8 (some operations fewer; thorough: rank 3); operand and "
                "result types say anything true about sizes and dtype, or nothing, with and without value semantics; dimensions in -4..4; arguments constant or not; "
                "joins of up to two tensors"]
    r.outside = ["folding of constant tensors (literals)", "joins of an empty rank-1 tensor with an empty tensor of another rank, and of different dtypes",
                 "rank above 3, quantized and complex tensors"]
    r.assumptions = BASE + ["a tensor is its sizes, its element type and a name for its elements: views keep the name, other operations make a new one"]
    return ("the folds and canonicalizations of views, casts, copies, rounding, reductions, slices and joins are cut from TorchOps.cpp, compiled and executed "
            "symbolically on symbolic sizes and types; the value that replaces an operation is proved to have its elements, sizes and dtype, and its type")


TABLE = {"C05": check_c05, "C03": check_c03, "C04": check_c04, "C01": check_c01, "C02": check_c02}


def check(r):
    return TABLE[r.prop](r)
